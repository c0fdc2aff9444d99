// P28: sensitive values are never shown.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"verif/eng"
	. "verif/vlib"
)

const (
	SEC = "Zq7" // as long as the mask
	PLN = "Wk4"
)

// the sensitive name NAME and its harmless twin pod are put at every place
var places = []string{
	"c NAME=SEC pod=PLN",
	"c SEC PLN",
	"c nm = SEC pod = PLN",
	"{NAME=SEC pod=PLN} c",
	"c {NAME=SEC pod=PLN}",
	"cd",
	"cv",
	"cs NAME=SEC pod=PLN",
	"{db.NAME=SEC db.pod=PLN} n",
	"n : {db.NAME=SEC db.pod=PLN} n",
	"n : {db.NAME=SEC db.pod=PLN} c SEC PLN",
	"{db.NAME=SEC db.pod=PLN} : n",
	"f1",
	"f2 NAME=SEC pod=PLN",
	"f2 SEC PLN",
	"f3",
	"f3e",
	"f4",
	"f5",
	"nf NAME=SEC pod=PLN",
	"ff NAME=SEC pod=PLN",
	"fv",
	"n : c NAME=SEC pod=PLN %err=ok",
	"c NAME=SEC pod=PLN %delay=1ms",
	"f2 NAME=SEC pod=PLN %delay=1ms",
	"cx NAME=SEC pod=PLN",            // fails
	"fx NAME=SEC pod=PLN",            // fails inside a flow
	"cx NAME=SEC pod=PLN %delay=1ms", // fails in the background
	"rd NAME=SEC pod=PLN",            // reads a key which is not there
	"{db.NAME=SEC db.pod=PLN} rd",    //
	"frd NAME=SEC pod=PLN",           //
	"cm NAME=SEC pod=PLN",            // needs a missing os-command
	"fcm NAME=SEC pod=PLN",           //
	"c NAME=SEC pod=PLN : nosuch",    // cannot be parsed
	"n",                              // with the values in the environment
}

// how the values get into the session beforehand
var pres = []string{"", "saved"}

// what is asked: RUN <place>, TAIL: after the place, DIRECT: on its own
// after one run of the place.
var modes = []string{
	"run|", "run|v : ", "run|verb : ", "run|quiet : ", "run|verb.inc : ", "run|display.env.sys on : verb : ", "run|display.env.layer.on : verb : ",
	"run|display.stack.on : verb : ", "run|display.bootstrap.on : verb : ", "run|display.style ascii : v : ", "run|display.executor.footer.on : v : ",
	"run|break.at c,n,cx,rd : ", "run|break.after c,n,f1,f2 : ", "run|break.at.end : ",
	"tail|desc", "tail|desc.more", "tail|desc.full", "tail|-", "tail|--", "tail|---", "tail|+", "tail|++", "tail|+++",
	"tail|desc.dep", "tail|desc.env", "tail|desc.flow", "tail|desc.flow.more", "tail|desc.flow.full", "tail|desc depth=1", "tail|desc.more unfold-trivial=9",
	"tail|desc.full depth=9 unfold-trivial=9", "tail|+ 9 9",
	"tail|cmd", "tail|cmd.full", "tail|=", "tail|==", "tail|~", "tail|~~", "tail|~~~", "tail|find", "tail|find.more", "tail|find.full", "tail|/", "tail|//", "tail|///",
	"tail|env", "tail|env.ls", "tail|env.tree", "tail|env.abbrs", "tail|cmds", "tail|cmds.full", "tail|env.ww db.NAME", "tail|env.ww",
	"tail|flow.save vsaved", "tail|help",
	"then|env", "then|env.ls", "then|env.tree", "then|env.abbrs", "then|env.ls db", "then|env pod",
	"then|sessions", "then|sessions.last", "then|sessions.last.desc", "then|sessions.last.desc.more", "then|sessions.last.desc.full",
	"then|sessions.desc ID", "then|sessions.desc.more ID", "then|sessions.desc.full ID", "then|sessions.err", "then|sessions.ok", "then|sessions.err.desc", "then|sessions.err.desc.more", "then|sessions.err.desc.full",
	"then|sessions.done.desc", "then|sessions.done.desc.more", "then|sessions.done.desc.full", "then|sessions ID", "then|sessions.status ID", "then|sessions.last.retry", "then|sessions.retry ID",
	"then|sessions c", "then|sessions.running", "then|sessions.rm ID", "then|sessions.rm.find c",
	"flow|flow", "flow|flow.list", "flow|cmd vf", "flow|cmd.full vf", "flow|vf", "flow|verb : vf", "flow|vf : desc", "flow|vf : desc.more", "flow|vf : desc.full", "flow|flow.rm vf", "flow|flow.rename vf vg", "flow|cmds vf", "flow|find.full vf",
	"mods|cmds", "mods|cmds.more", "mods|cmds.full", "mods|cmds.tree", "mods|find c", "mods|find.full c", "mods|find.more f", "mods|cmd.full cd", "mods|cmd cd", "mods|cmd.full cv", "mods|cmd.full f1", "mods|cmd.full f3",
	"mods|tag vt", "mods|tag.full vt", "mods|tag.more vt", "mods|hub", "mods|env.snap.save s : env.snap.ls", "mods|flow",
}

var names = []string{"pwd", "password", "passphrase", "secret", "private", "my-pwd", "DB-PassWord", "secret-key", "secret.name", "a.private.b"}

type kase struct {
	Place, Mode, Pre, Name int
	Text                   string `json:",omitempty"`
}

// where the text of a flow, or a rejected input, is shown
var texts = [][2]string{
	{"tail|desc.more", "f1"}, {"tail|desc.full", "f1"}, {"tail|desc.flow.full", "f1"}, {"tail|flow.save vsaved", "c NAME=SEC pod=PLN"},
	{"flow|flow", "c NAME=SEC pod=PLN"}, {"flow|cmd.full vf", "c NAME=SEC pod=PLN"}, {"mods|cmds.full", "n"}, {"mods|cmd.full f1", "n"}, {"mods|find.more f", "n"},
	{"run|", "c NAME=SEC pod=PLN : nosuch"}, {"then|sessions", "c NAME=SEC pod=PLN"}, {"then|sessions.last", "c NAME=SEC pod=PLN"}, {"then|sessions.status ID", "c NAME=SEC pod=PLN"},
}

func gen(tier string, emit func(string)) {
	find := func(l []string, x string) int {
		for i, y := range l {
			if x == y {
				return i
			}
		}
		panic(x)
	}
	for _, t := range texts {
		find(modes, t[0])
		find(places, t[1])
		emit(J(kase{Text: t[0] + " @ " + t[1]}))
	}
	for n := range names {
		for m := range modes {
			for p := range places {
				for pre := range pres {
					if n > 0 && tier != "thorough" && (p != 0 && p != 10 && p != 18 || pre != 0 || m%7+1 != n) {
						continue
					}
					if pre == 1 && tier != "thorough" && (p+m)%3 != 0 && p != len(places)-1 {
						continue
					}
					if strings.HasPrefix(modes[m], "then|s") && strings.Contains(places[p], "nosuch") {
						continue // no session
					}
					if strings.HasPrefix(modes[m], "mods|") && p != len(places)-1 {
						continue
					}
					emit(J(kase{p, m, pre, n, ""}))
				}
			}
		}
	}
}

// A flow's text and a rejected input are shown as they are written; only the
// cases with Text judge these lines.
var flowTexts = map[string]bool{}

func dropText(b *eng.Box, s string, text bool) string {
	files, _ := filepath.Glob(b.Data("flows", "*"))
	saved := map[string]bool{}
	for _, f := range files {
		t, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(t), "\n") {
			l = strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(l), "flow ="))
			saved[l] = true
		}
	}
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		t := strings.Trim(l, " │\"'")
		isText := flowTexts[t] || saved[t] || strings.Contains(l, "is not valid input") || strings.HasPrefix(t, "ticat ")
		if isText && !text || strings.Contains(l, "- keywords: ") || strings.Contains(l, "display.sensitive") || strings.Contains(l, "thread main ended, switch") || strings.Contains(l, "ticat.data/") {
			lines[i] = ""
		}
	}
	return strings.Join(lines, "\n")
}

func box(name string) *eng.Box {
	b := eng.NewBox()
	sub := func(s string) string {
		return strings.NewReplacer("NAME", name, "SEC", SEC, "PLN", PLN).Replace(s)
	}
	script := func(n, meta, body string) {
		b.Write("mods/"+n, "#!/bin/bash\ns=$1; shift\n"+body+"\n")
		b.Write("mods/"+n+".ticat", sub("help = help of "+n+"\ntag = vt\n"+meta))
	}
	args := "[args]\nNAME|nm = ''\npod = ''\n"
	log := `echo "$0 $*" | sed 's#.*/##' >> $VERIF_OUT`
	script("c", args, log)
	script("cd", "[args]\nNAME|nm = SEC\npod = PLN\n", log)
	script("cv", "[val2env]\ndb.NAME = SEC\ndb.pod = PLN\n", log+"\n"+`grep '^db' $s/env | sort >> $VERIF_OUT`)
	script("cs", args+"[arg2env]\ndb.NAME = NAME\ndb.pod = pod\n", log+"\n"+`grep '^db' $s/env | sort >> $VERIF_OUT`)
	script("n", "", log+"\n"+`grep '^db' $s/env | sort >> $VERIF_OUT`)
	script("cx", args, log+"\nexit 3")
	script("rd", args+"[env]\nno.key = read\n", log)
	script("cm", args+"[dep]\nvos-missing = needed\n", log)
	flow := func(n, text, meta string) {
		flowTexts[sub(text)] = true
		b.Write("mods/"+n+".tiflow", sub("help = help of "+n+"\ntag = vt\nflow = "+text+"\n"+meta))
	}
	flow("f1", "c NAME=SEC pod=PLN", "")
	flow("f2", "c NAME=[[NAME]] pod=[[pod]]", args)
	flow("f3", "{db.NAME=SEC db.pod=PLN} : n : n", "")
	flow("f3e", "n : {db.NAME=SEC db.pod=PLN} n", "")
	flow("f4", "f2 NAME=SEC pod=PLN : n", "")
	flow("f5", "f2 SEC PLN : f4", "")
	flow("ff", "f2 NAME=[[NAME]] pod=[[pod]] : n", args)
	flow("fv", "cv : n", "")
	flow("fx", "cx NAME=[[NAME]] pod=[[pod]]", args)
	flow("frd", "rd NAME=[[NAME]] pod=[[pod]]", args)
	flow("fcm", "cm NAME=[[NAME]] pod=[[pod]]", args)
	b.Write("mods/nf", "#!/bin/bash\ns=$1; shift\n"+log+"\n")
	b.Write("mods/nf.ticat", sub("help = help of nf\nflow = c NAME=[[NAME]] pod=[[pod]]\n"+args))
	if r := b.Run("hub.add.local", b.Path("mods")); !r.OK() {
		panic("hub.add.local: " + r.Out + r.Err)
	}
	return b
}

// prepared copies an installation which is made once per process; the modules
// stay in the first one.
var made = map[string]map[string]string{}

func prepared(name, pre string, show bool) *eng.Box {
	id := fmt.Sprint(name, pre, show)
	if made[id] == nil {
		b := box(name)
		if pre == "saved" {
			if r := b.Run("{db."+name+"="+SEC, "db.pod="+PLN+"}", ":", "env.save"); !r.OK() {
				panic(r.Out + r.Err)
			}
		}
		sw := "display.sensitive.off"
		if show {
			sw = "display.sensitive.on"
		}
		if r := b.Run(sw, ":", "env.save"); !r.OK() {
			panic(r.Out + r.Err)
		}
		files := map[string]string{}
		_ = filepath.Walk(b.Data(), func(p string, info os.FileInfo, err error) error {
			rel, _ := filepath.Rel(b.Dir, p)
			if err == nil && !info.IsDir() && !strings.Contains(rel, "sessions/") {
				files[rel] = b.Read(rel)
			}
			return nil
		})
		made[id] = files
	}
	b := eng.NewBox()
	for f, t := range made[id] {
		b.Write(f, t)
	}
	return b
}

var noise = regexp.MustCompile(`[\s?'"│┌└─┐┘|+\-=<>]|\d+(\.\d+)?(ms|us|ns|µs|s)\b|\d`)

func norm(s string) string {
	return noise.ReplaceAllString(s, "")
}

func exec(key string) Out {
	var k kase
	U(key, &k)
	name := names[k.Name]
	sub := func(s string) string {
		return strings.NewReplacer("NAME", name, "SEC", SEC, "PLN", PLN).Replace(s)
	}
	pt, mt := places[k.Place], modes[k.Mode]
	if k.Text != "" {
		f := strings.SplitN(k.Text, " @ ", 2)
		mt, pt = f[0], f[1]
	}
	place := sub(pt)
	mode := strings.SplitN(sub(mt), "|", 2)
	play := func(show bool) (shown string, logs []string, rc int, line string) {
		b := prepared(name, pres[k.Pre], show)
		defer b.Close()
		b.In = strings.Repeat("c\n", 20)
		b.Out()
		switch mode[0] {
		case "run":
			line = mode[1] + place
		case "tail":
			line = place + " : " + mode[1]
		case "then":
			r := b.Run(strings.Fields(place)...)
			b.Out()
			_ = r
			line = mode[1]
			if strings.Contains(line, "ID") {
				ids := regexp.MustCompile(`\d{8}-\d{6}\.\d+`).FindAllString(b.Run("sessions").Out, -1)
				if len(ids) == 0 {
					ids = []string{"none"}
				}
				line = strings.ReplaceAll(line, "ID", ids[len(ids)-1])
			}
		case "flow":
			b.Run(strings.Fields(place + " : flow.save vf")...)
			line = mode[1]
		case "mods":
			line = mode[1]
		}
		r := b.Run(strings.Fields(line)...)
		return dropText(b, strings.ReplaceAll(r.Out+r.Err, b.Dir, "BOX"), k.Text != ""), b.Out(), r.RC, line
	}
	masked, logs1, rc1, line := play(false)
	clear, logs2, rc2, _ := play(true)
	n := strings.Count(clear, SEC)
	desc := fmt.Sprintf("%q", line)
	if mode[0] == "then" || mode[0] == "flow" {
		desc += fmt.Sprintf(" after %q", place)
	}
	if pres[k.Pre] == "saved" {
		desc += " with saved values"
	}
	at := func(s, w string) string {
		for _, l := range strings.Split(s, "\n") {
			if strings.Contains(l, w) {
				return strings.TrimSpace(l)
			}
		}
		return ""
	}
	if strings.Contains(masked, SEC) {
		return Bad("%s shows the sensitive value: %q", desc, at(masked, SEC))
	}
	if !Eq(logs1, logs2) || rc1 != rc2 {
		return Bad("%s: masking changed what the commands receive: %q (status %d) and %q (status %d)", desc, logs1, rc1, logs2, rc2)
	}
	if strings.Contains(place, "%delay") || strings.Contains(line, "env.abbrs") {
		// the output of a background command comes when it comes, the
		// abbreviations have no order
		srt := func(s string) string {
			var l []string
			for _, x := range strings.Split(s, "\n") {
				if strings.Contains(x, PLN) || strings.Contains(x, "***") {
					l = append(l, x)
				}
			}
			sort.Slice(l, func(i, j int) bool { return norm(l[i]) < norm(l[j]) })
			return strings.Join(l, "\n")
		}
		masked, clear = srt(masked), srt(strings.ReplaceAll(clear, SEC, "***"))
	}
	async := mode[0] == "then" && strings.Contains(place, "%delay")
	if !async && norm(masked) != norm(strings.ReplaceAll(clear, SEC, "***")) {
		a, c := strings.Split(masked, "\n"), strings.Split(strings.ReplaceAll(clear, SEC, "***"), "\n")
		for i := range a {
			if i >= len(c) || norm(a[i]) != norm(c[i]) {
				w := ""
				if i < len(c) {
					w = c[i]
				}
				return Bad("%s: more than the sensitive value is hidden: %q must be %q", desc, a[i], w)
			}
		}
		return Bad("%s: lines are missing when the value is masked", desc)
	}

	return Out{Trivial: n == 0, Outcome: fmt.Sprint(mode[0], " shows ", n, " plain ", strings.Count(masked, PLN)), Trans: []string{modes[k.Mode], places[k.Place]}, Steps: 2}
}

func main() {
	eng.TicatMain(nil)
	Main(Spec{ID: "P28", Level: "model_checking", CaseSec: 60,
		Rule: "every displaying command and mode (117, in their own run, after the sequence, after its session, after saving it as a flow) over 33 placements of a sensitive value beside a harmless one, with and without saved values, for 8 sensitive names; the value must not be shown, the display must equal the unmasked one with the value masked, and the commands must receive the value",
		Gen:  gen, Exec: exec})
}
