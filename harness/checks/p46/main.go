// P46: the running options a module declares have exactly their effect.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/innerr/ticat/pkg/ticat"

	"verif/eng"
	. "verif/vlib"
)

// the options, with every spelling
const (
	quiet   = 1 << iota // not shown while executing
	nolog               // the output is not kept
	quieterr            // a failure is not explained
	nosess              // needs no session
	hide                // the session is not the last one
	pack                // what a flow does inside is not shown
)

var spell = map[int][]string{
	quiet:    {"quiet"},
	nolog:    {"nolog", "unlog", "interact", "interactive"},
	quieterr: {"quiet-error", "quiet-err", "silent-error", "silent-err"},
	nosess:   {"no-session"},
	hide:     {"hide-in-sessions-last", "hide-in-session-last", "hide-in-last"},
	pack:     {"pack-subflow", "pack-sub"},
}
var flags = []int{quiet, nolog, quieterr, nosess, hide, pack}

var values = []struct {
	text string
	on   bool
}{{"true", true}, {"1", true}, {"T", true}, {"TRUE", true}, {"false", false}, {"0", false}, {"F", false}, {"", false}}

// Case: module a has the options A and fails or not, module b the options B,
// the flow F and the flow with a script N the options Y.
type Case struct {
	L string // line
	A int
	X bool // a fails
	B int  `json:",omitempty"`
	Y int  `json:",omitempty"`
	S int  `json:",omitempty"` // spelling
	V int  `json:",omitempty"` // value
}

var lines = []string{"a", "a : b", "b : a", "b : a : b", "a : a", "m : a : m", "a : m : b", "F", "m : F", "F : m", "b : F : a", "G : b", "m : G", "N", "N : m", "m : N : b"}

type cmd struct {
	opt    int
	fails  bool
	script bool
	flow   []string
}

// ---- oracle ----

type sim struct {
	cmds  map[string]cmd
	ev    []string // frames and output, in order
	marks []string
	logs  []string
	sess  bool
	expl  string // which failure is explained
}

func (s *sim) run(names []string, depth int, shown bool) bool {
	var rows []string
	for _, n := range names {
		if s.cmds[n].opt&quiet == 0 {
			rows = append(rows, n)
		}
	}
	for i, n := range names {
		c := s.cmds[n]
		if shown && c.opt&quiet == 0 && (len(rows) > 1 || depth > 0) {
			at := 0
			for _, o := range names[:i] {
				if s.cmds[o].opt&quiet == 0 {
					at++
				}
			}
			r := append([]string{}, rows...)
			r[at] = ">>" + r[at]
			s.ev = append(s.ev, strings.Join(r, " "))
		}
		if len(c.flow) > 0 && !s.run(c.flow, depth+1, shown && c.opt&pack == 0) {
			return false
		}
		if !c.script {
			continue
		}
		mine := s.sess && c.opt&nosess == 0
		s.ev = append(s.ev, "OUT-"+n)
		s.marks = append(s.marks, fmt.Sprintf("%s session=%v", n, mine))
		if mine && c.opt&nolog == 0 {
			s.logs = append(s.logs, n)
		}
		if c.fails {
			if c.opt&quieterr == 0 {
				s.expl = n
			}
			return false
		}
	}
	return true
}

// needs: a flow declared without a session holding a script which needs one
func needs(c cmd, cmds map[string]cmd) bool {
	for _, n := range c.flow {
		if in := cmds[n]; in.script && in.opt&nosess == 0 || needs(in, cmds) {
			return true
		}
	}
	return false
}

// ---- what is shown ----

var rowRe = regexp.MustCompile(`^[│|] *(>> *)?([A-Za-z]+)\b`)

func events(out string) (ev []string) {
	var frame []string
	inside := false
	for _, l := range strings.Split(out, "\n") {
		switch {
		case strings.HasPrefix(l, "├"):
			inside, frame = true, nil
		case strings.HasPrefix(l, "└"):
			if inside && len(frame) > 0 {
				ev = append(ev, strings.Join(frame, " "))
			}
			inside = false
		case inside:
			if m := rowRe.FindStringSubmatch(l); m != nil {
				frame = append(frame, strings.TrimSpace(m[1])+m[2])
			}
		case strings.HasPrefix(l, "OUT-"):
			ev = append(ev, strings.TrimSpace(l))
		}
	}
	return
}

func declare(k Case, opt int) string {
	s := "help = h\n"
	for _, f := range flags {
		if opt&f != 0 {
			names := spell[f]
			if v := values[k.V].text; v != "" {
				s += names[k.S%len(names)] + " = " + v + "\n"
			}
		}
	}
	return s
}

func exec(key string) Out {
	var k Case
	U(key, &k)
	b := eng.NewBox()
	defer b.Close()
	eff := func(opt int) int {
		if values[k.V].on {
			return opt
		}
		return 0
	}
	script := func(n string, fails bool) string {
		s := `echo "OUT-` + n + `"
if [ -n "$1" ]; then s=true; else s=false; fi
echo "` + n + ` session=$s" >> "$VERIF_OUT"
`
		if fails {
			s += "exit 3\n"
		}
		return s
	}
	cmds := map[string]cmd{}
	file := func(n string, opt int, fails bool) {
		b.Write("mods/"+n+".bash", script(n, fails))
		b.Write("mods/"+n+".bash.ticat", declare(k, opt))
		cmds[n] = cmd{opt: eff(opt), fails: fails, script: true}
	}
	file("a", k.A, k.X)
	file("b", k.B, false)
	file("m", 0, false)
	b.Write("mods/F.ticat", declare(k, k.Y)+"flow = b : a\n")
	cmds["F"] = cmd{opt: eff(k.Y), flow: []string{"b", "a"}}
	b.Write("mods/G.ticat", declare(k, k.Y)+"flow = F : m\n")
	cmds["G"] = cmd{opt: eff(k.Y), flow: []string{"F", "m"}}
	b.Write("mods/N.bash", script("N", false))
	b.Write("mods/N.bash.ticat", declare(k, k.Y)+"flow = a\n")
	cmds["N"] = cmd{opt: eff(k.Y), flow: []string{"a"}, script: true}

	words := strings.Fields(k.L)
	var names []string
	for _, w := range words {
		if w != ":" {
			names = append(names, w)
		}
	}
	s := &sim{cmds: cmds}
	for _, n := range names {
		s.sess = s.sess || cmds[n].opt&nosess == 0
	}
	for _, n := range names {
		if c := cmds[n]; !s.sess && needs(c, cmds) {
			return Out{Trivial: true, Outcome: "needs a session inside: " + n}
		}
	}
	ok := s.run(names, 0, true)
	desc := fmt.Sprintf("%q with %s", k.L, show(cmds))

	if r := b.Run("hub.add.local", "path="+b.Path("mods")); !r.OK() {
		return Bad("%s: adding the directory failed: %s", desc, r.Out+r.Err)
	}
	before := dirs(b)
	r := b.Run(words...)
	marks := b.Out()
	var fresh []string
	for d := range dirs(b) {
		if !before[d] {
			fresh = append(fresh, d)
		}
	}
	if r.Timeout || r.OK() != ok {
		return Bad("%s must end with %v, ended with %d: %s", desc, ok, r.RC, r.Out+r.Err)
	}
	if !Eq(marks, s.marks) {
		return Bad("%s must run %q, ran %q", desc, s.marks, marks)
	}
	if got := events(r.Out); !Eq(got, s.ev) {
		return Bad("%s must show %q, showed %q: %s", desc, s.ev, got, r.Out)
	}
	all := r.Out + r.Err
	for n := range cmds {
		if has := strings.Contains(all, "["+n+"] failed"); has != (n == s.expl) {
			return Bad("%s: the failure of %s must be explained: %v, was %v: %s", desc, n, n == s.expl, has, all)
		}
	}
	if s.sess != (len(fresh) == 1) || len(fresh) > 1 {
		return Bad("%s must have a session: %v, new sessions %q", desc, s.sess, fresh)
	}
	if len(fresh) == 1 {
		logs := map[string][]string{}
		fs, _ := os.ReadDir(b.Data("sessions", fresh[0]))
		var got []string
		for _, f := range fs {
			p := strings.Split(f.Name(), "_")
			if len(p) == 3 {
				got = append(got, p[1])
				t, _ := os.ReadFile(filepath.Join(b.Data("sessions", fresh[0]), f.Name()))
				logs[p[1]] = append(logs[p[1]], string(t))
			}
		}
		want := append([]string{}, s.logs...)
		sort.Strings(want)
		sort.Strings(got)
		if !Eq(got, want) {
			return Bad("%s must keep the output of %q, kept of %q", desc, want, got)
		}
		for n, ts := range logs {
			for _, t := range ts {
				if t != "OUT-"+n+"\n" {
					return Bad("%s: the kept output of %s is %q", desc, n, t)
				}
			}
		}
		// the last session
		last := cmds[names[len(names)-1]]
		ran := !(last.opt&hide != 0)
		r := b.Run("sessions.last")
		if shown := strings.Contains(r.Out, fresh[0]); shown != ran && reached(s, names, cmds) {
			return Bad("%s: being the last session must be %v, is %v: %s", desc, ran, shown, r.Out)
		}
	}
	return Out{Outcome: fmt.Sprint(ok, len(s.ev), len(s.marks), len(s.logs), len(fresh)), States: s.ev, Trans: []string{k.L}, Steps: len(s.marks)}
}

// the last command of the line was executed
func reached(s *sim, names []string, cmds map[string]cmd) bool {
	t := &sim{cmds: cmds}
	return len(names) == 1 || t.run(names[:len(names)-1], 0, true)
}

func dirs(b *eng.Box) map[string]bool {
	r := map[string]bool{}
	es, _ := os.ReadDir(b.Data("sessions"))
	for _, e := range es {
		if e.IsDir() {
			r[e.Name()] = true
		}
	}
	return r
}

func show(cmds map[string]cmd) string {
	var r []string
	for n, c := range cmds {
		for i, f := range flags {
			if c.opt&f != 0 {
				r = append(r, n+":"+spell[flags[i]][0])
			}
		}
		if c.fails {
			r = append(r, n+" failing")
		}
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

func gen(tier string, emit func(string)) {
	i := 0
	for _, l := range lines {
		hasF := strings.ContainsAny(l, "FGN")
		for a := 0; a < 32; a++ {
			for _, x := range []bool{false, true} {
				for _, bo := range []int{0, quiet, nosess, hide | nolog} {
					if bo != 0 && !strings.Contains(l, "b") && !strings.ContainsAny(l, "FG") {
						continue
					}
					for _, y := range []int{0, quiet, pack, hide, nosess, pack | quiet, pack | hide, nolog} {
						if y != 0 && !hasF {
							continue
						}
						i++
						if n := (a + 3*bo + 5*y) % 16; tier != "thorough" && hasF && n != 0 && n != 7 {
							continue
						}
						emit(J(Case{L: l, A: a, X: x, B: bo, Y: y}))
					}
				}
			}
		}
	}
	for f := range flags {
		for s := range spell[flags[f]] {
			for v := range values {
				for _, l := range []string{"m : a", "a : m", "m : F", "N : m"} {
					for _, x := range []bool{false, true} {
						emit(J(Case{L: l, A: flags[f] &^ pack, X: x, Y: flags[f], S: s, V: v}))
					}
				}
			}
		}
	}
}

func main() {
	eng.TicatMain(func(tc *ticat.TiCat) {})
	Main(Spec{ID: "P46", Level: "model_checking", CaseSec: 60, QuickSec: 400,
		Rule: "every set of 5 running options of a script, failing or not, with 4 sets of another script and 8 of the flows around them, in 16 lines (alone, in sequences, in flows nested twice, before a script's own run); every spelling of every option with 8 values; in real processes: what ran with which session, every frame shown, explained failures, kept output files, new sessions and the last session compared with a model",
		Gen:  gen, Exec: exec})
}
