// P47: a script calling the program again in its session shares the values.
package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/innerr/ticat/pkg/ticat"

	"verif/eng"
	. "verif/vlib"
)

// Case: the value of k at the start, what the script does, the line around it.
type Case struct {
	K int
	S []int
	L int
}

var starts = []string{"", "v 1=x"}

var lines = []string{"o : see", "see : o : set4 : see", "ff : see", "o : o : need"}

type st struct {
	v    map[string]string // the values of the session (what is in its file)
	log  []string
	dirs int // other sessions
}

func (s *st) see(n string) { s.log = append(s.log, fmt.Sprintf("%s k=%s j=%s", n, s.v["k"], s.v["j"])) }

func (s *st) set(k, v string) { s.v[k] = v }

// step: bash text, with T for a call in the session; the effect.
type step struct {
	text string
	do   func(s *st)
}

func rc(s *st, n int) { s.log = append(s.log, fmt.Sprint("rc ", n)) }

const showRC = `; R=$?; [ $R = 0 ] || R=1; echo "rc $R" >> "$VERIF_OUT"`

var steps = []step{
	{`echo "j=mine" >> "$S/env"`, func(s *st) { s.set("j", "mine") }},
	{`echo "k=two  w" >> "$S/env"`, func(s *st) { s.set("k", "two  w") }},
	{`echo "k=--" >> "$S/env"`, func(s *st) { delete(s.v, "k") }},
	{`T see` + showRC, func(s *st) { s.see("see"); rc(s, 0) }},
	{`T : set3 : see` + showRC, func(s *st) { s.set("k", "three = 3"); s.see("see"); rc(s, 0) }},
	{`T : see : del` + showRC, func(s *st) { s.see("see"); s.log = append(s.log, "del"); delete(s.v, "k"); rc(s, 0) }},
	{`T : setj : bad : see : set3` + showRC, func(s *st) { s.set("j", "inner"); s.log = append(s.log, "bad"); rc(s, 1) }},
	{`T gg` + showRC, func(s *st) { s.see("see"); s.set("k", "three = 3"); s.see("see"); rc(s, 0) }},
	{`T : need : setj` + showRC, func(s *st) {
		if _, ok := s.v["k"]; !ok {
			rc(s, 1)
			return
		}
		s.see("need")
		s.set("j", "inner")
		rc(s, 0)
	}},
	{`T : env.set k nat : see` + showRC, func(s *st) { s.set("k", "nat"); s.see("see"); rc(s, 0) }},
	{`T : mid : see` + showRC, func(s *st) {
		s.set("j", "inner")
		s.see("see")
		s.set("k", "mid")
		s.see("see")
		rc(s, 0)
	}},
	{`T : del : set3 : see` + showRC, func(s *st) { s.log = append(s.log, "del"); s.set("k", "three = 3"); s.see("see"); rc(s, 0) }},
	{`"$TC" see` + showRC, func(s *st) {
		o := s.v
		s.v = map[string]string{}
		s.see("see")
		s.v = o
		s.dirs++
		rc(s, 0)
	}},
	{`"$TC" : set3 : see` + showRC, func(s *st) {
		o := s.v
		s.v = map[string]string{"k": "three = 3"}
		s.see("see")
		s.v = o
		s.dirs++
		rc(s, 0)
	}},
	{`"$TC" { "session=$S" k=given } : see : setj` + showRC, func(s *st) { s.set("k", "given"); s.see("see"); s.set("j", "inner"); rc(s, 0) }},
	{`T : del : nop` + showRC, func(s *st) { s.log = append(s.log, "del", "nop"); delete(s.v, "k"); rc(s, 0) }},
	{`T : env.rm k : setj` + showRC, func(s *st) { delete(s.v, "k"); s.set("j", "inner"); rc(s, 0) }},
	{`T : del : mid : bad : nop` + showRC, func(s *st) {
		s.log = append(s.log, "del")
		delete(s.v, "k")
		s.set("j", "inner")
		s.see("see")
		s.set("k", "mid")
		s.log = append(s.log, "bad")
		rc(s, 1)
	}},
	{`T no.such.command` + showRC, func(s *st) { rc(s, 1) }},
	{`T : see x y z : set3` + showRC, func(s *st) { rc(s, 1) }},
}

func exec(key string) Out {
	var k Case
	U(key, &k)
	b := eng.NewBox()
	defer b.Close()
	var todo []step
	for _, i := range k.S {
		todo = append(todo, steps[i])
	}
	pre := "S=$1\nTC=$(grep '^sys.paths.ticat=' \"$1/env\" | tail -1); TC=${TC#*=}\nT() { \"$TC\" \"{session=$S}\" \"$@\"; }\nview() { l=$(grep \"^$1=\" \"$S/env\" | tail -1); l=${l#*=}; [ \"$l\" = -- ] && l=; echo \"$l\"; }\n"
	mod := func(n, text, meta string) {
		b.Write("mods/"+n+".bash", pre+text+"\n")
		b.Write("mods/"+n+".bash.ticat", "help = h\n"+meta)
	}
	see := func(n string) string { return `echo "` + n + ` k=$(view k) j=$(view j)" >> "$VERIF_OUT"` }
	mod("see", see("see"), "")
	mod("need", see("need"), "[env]\nk = read\n")
	mod("set3", `echo "k=three = 3" >> "$S/env"`, "")
	mod("set4", `echo "k=four" >> "$S/env"`, "")
	mod("setj", `echo "j=inner" >> "$S/env"`, "")
	mod("del", `echo del >> "$VERIF_OUT"; echo "k=--" >> "$S/env"`, "")
	mod("nop", `echo nop >> "$VERIF_OUT"`, "")
	mod("bad", `echo bad >> "$VERIF_OUT"; exit 3`, "")
	mod("mid", `T : setj : see; echo "k=mid" >> "$S/env"`, "")
	b.Write("mods/gg.ticat", "help = h\nflow = see : set3 : see\n")
	b.Write("mods/ff.ticat", "help = h\nflow = o : see\n")
	var text []string
	for _, s := range todo {
		text = append(text, s.text)
	}
	mod("o", strings.Join(text, "\n")+"\ntrue", "")

	s := &st{v: map[string]string{}}
	var args []string
	if starts[k.K] != "" {
		s.v["k"] = starts[k.K]
		args = append(args, "{", "k="+starts[k.K], "}", ":")
	}
	line := lines[k.L]
	args = append(args, strings.Fields(line)...)
	_, had := s.v["k"]
	ok := true
	var run func(names []string)
	run = func(names []string) {
		for _, n := range names {
			switch n {
			case "see", "need":
				s.see(n)
			case "set4":
				s.set("k", "four")
			case "o":
				for _, x := range todo {
					x.do(s)
				}
			case "ff":
				run([]string{"o", "see"})
			}
		}
	}
	own := 1
	if strings.Contains(line, "need") && !had {
		ok = false // refused before anything runs
	} else {
		run(strings.Split(line, " : "))
	}
	desc := fmt.Sprintf("%q, o being %q", args, text)
	if r := b.Run("hub.add.local", "path="+b.Path("mods")); !r.OK() {
		return Bad("%s: adding the directory failed: %s", desc, r.Out+r.Err)
	}
	r := b.Run(args...)
	got := b.Out()
	if !Eq(got, s.log) {
		return Bad("%s must log %q, logged %q (%d): %.1500s", desc, s.log, got, r.RC, r.Out+r.Err)
	}
	if r.Timeout || r.OK() != ok {
		return Bad("%s must end with %v, ended with %d: %.1500s", desc, ok, r.RC, r.Out+r.Err)
	}
	es, _ := os.ReadDir(b.Data("sessions"))
	n := 0
	for _, e := range es {
		if e.IsDir() {
			n++
		}
	}
	if n != own+s.dirs {
		return Bad("%s must make %d sessions, made %d", desc, own+s.dirs, n)
	}
	return Out{Outcome: fmt.Sprint(ok, len(s.log), n), States: s.log, Trans: text, Steps: len(s.log)}
}

func gen(tier string, emit func(string)) {
	depth := 2
	if tier == "thorough" {
		depth = 3
	}
	Seqs(len(steps), 1, depth, func(q []int) {
		for k := range starts {
			for l := range lines {
				if len(q) == 3 && (l != 0 && l != 2) {
					continue
				}
				emit(J(Case{K: k, L: l, S: append([]int{}, q...)}))
			}
		}
	})
}

func main() {
	eng.TicatMain(func(tc *ticat.TiCat) {})
	Main(Spec{ID: "P47", Level: "model_checking", CaseSec: 90, QuickSec: 400,
		Rule: "every script of up to 2 (thorough: 3) of 20 steps (changing and deleting values; calls of the program in the session with modules, flows, natives, failing, refused and misspelt ones, values of their own, calls nested twice; calls without the session), with and without a value at the start, in 4 lines around it; real processes; what every module finds, which calls fail, how many sessions there are compared with a map of values",
		Gen:  gen, Exec: exec})
}
