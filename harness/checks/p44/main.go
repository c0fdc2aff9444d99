// P44: lines given in the interactive mode run like commands of the same run.
package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/innerr/ticat/pkg/core/model"

	"verif/eng"
	. "verif/vlib"
)

const (
	enter = "dbg.interact"
	leave = "dbg.interact.leave"
)

// flows; the other commands are leaves
var flows = map[string][]string{
	"vF": {"va", "vb"},
	"vG": {"vb", enter, "va"},
	"vH": {"vset 7", "va", "vs"},
}

// what a line may be
var lines = []string{
	"va", "vset 5", "vset 6 : va : vb", "vfail : vb", "va : vpanic : vb", "nosuch", "va : nosuch", "", "vF", "vH : va",
	"vs", "vset 4 : vs : va", "va : {k=8} vb : vb", "vb : desc", "break.at vb", "break.clear", "va:vb", "  vb  ",
	"vstring : va",
}
var leaves = []string{leave, "va : " + leave + " : vb", "dbg.i.l"}

// the commands of the run
var items = []string{"va", enter, "vG", "vF", "vset 1", "vb", "vs"}

type kase struct {
	Seq   []string
	At    bool       `json:",omitempty"` // a break point before vb
	Ans   []string   `json:",omitempty"` // choices at the stops
	Lines [][]string // given to each entry of the mode
}

// enters is how many times the mode is entered, when nothing fails
func enters(seq []string) (n int) {
	for _, c := range seq {
		if c == enter {
			n++
		}
		n += enters(flows[c])
	}
	return
}

func gen(tier string, emit func(string)) {
	thorough := tier == "thorough"
	n := 0
	put := func(seq []string, at bool, ans []string, need int, hi int) {
		var rec func(got [][]string)
		rec = func(got [][]string) {
			if len(got) == need {
				emit(J(kase{append([]string{}, seq...), at, ans, append([][]string{}, got...)}))
				return
			}
			h := hi
			if len(got) > 0 {
				h = 1
			}
			Seqs(len(lines), 0, h, func(c []int) {
				n++
				if len(got) > 0 && n%5 != 0 && !thorough || need > 2 && n%7 != 0 {
					return
				}
				rec(append(append([][]string{}, got...), append(Strs(lines, c), leaves[n%len(leaves)])))
			})
		}
		rec(nil)
	}
	Seqs(len(items), 1, 3, func(c []int) {
		seq := Strs(items, c)
		e := enters(seq)
		if e == 0 {
			return
		}
		hi := 1
		if len(seq) == 1 || len(seq) == 2 && (e == 1 || thorough) {
			hi = 2
		}
		if thorough && len(seq) == 1 {
			hi = 3
		}
		put(seq, false, nil, e, hi)
	})
	Seqs(len(items), 1, 3, func(c []int) {
		seq := Strs(items, c)
		s := strings.Join(seq, " ")
		if enters(seq) > 0 || !strings.Contains(s, "vb") && !strings.Contains(s, "vF") {
			return
		}
		hi := 1
		if len(seq) < 3 && (thorough || len(seq) == 1) {
			hi = 2
		}
		put(seq, true, []string{"i"}, 1, hi)
		put(seq, true, []string{"c", "i"}, 1, 1)
	})
}

// ---------------------------------------------------------------- the oracle

type sim struct {
	k     kase
	ev    []string
	env   string // the value of k
	at    bool
	stops int
	given int

	inside bool
}

func word(k string) string {
	if k == "" {
		return "-"
	}
	return k
}

// run is whether it succeeded.
func (s *sim) run(seq []string) bool {
	for _, c := range seq {
		limited, was := false, s.env
		if strings.HasPrefix(c, "{k=8} ") {
			limited, c = true, c[6:]
			s.env = "8"
		}
		name, arg, _ := strings.Cut(c, " ")
		if name == "vb" && s.at && !s.inside { // (never paused in the mode)
			s.ev = append(s.ev, "stop")
			a := "c"
			if s.stops < len(s.k.Ans) {
				a = s.k.Ans[s.stops]
			}
			s.stops++
			if a == "i" {
				s.interact()
			}
		}
		ok := true
		switch name {
		case "va", "vb":
			s.ev = append(s.ev, name+" "+word(s.env))
		case "vs":
			s.ev = append(s.ev, "vs "+word(s.env))
		case "vset":
			s.env = arg
		case "vfail", "vpanic", "vstring":
			s.ev = append(s.ev, name)
			ok = false
		case "break.at":
			s.at = true
		case "break.clear":
			s.at = false
		case enter:
			s.interact()
		case leave, "dbg.i.l":
		default:
			ok = s.run(flows[name])
		}
		if limited {
			s.env = was
		}
		if !ok {
			return false
		}
	}
	return true
}

func (s *sim) interact() {
	ls := []string{leave}
	if s.given < len(s.k.Lines) {
		ls = s.k.Lines[s.given]
	}
	s.given++
	s.inside = true
	defer func() { s.inside = false }()
	for _, l := range ls {
		s.ev = append(s.ev, "line "+l)
		if strings.Contains(l, "nosuch") || strings.HasSuffix(l, ": desc") {
			continue // refused, or only shown
		}
		var seq []string
		for _, c := range strings.Split(l, ":") {
			if c = strings.TrimSpace(c); c != "" {
				seq = append(seq, c)
			}
		}
		s.run(seq)
	}
}

// ---------------------------------------------------------------- real runs

func exec(key string) Out {
	var k kase
	U(key, &k)
	// the terminal is none, whatever starts this program
	if null, err := os.Open("/dev/null"); err == nil {
		_ = syscall.Dup2(int(null.Fd()), 0)
		null.Close()
	}
	s := &sim{k: k, at: k.At}
	wantOK := s.run(k.Seq)

	dir, drop := eng.Scratch()
	defer drop()
	tmp := os.Getenv("TMPDIR")
	os.Setenv("TMPDIR", dir) // the history of the lines
	defer os.Setenv("TMPDIR", tmp)
	e := eng.New(dir)
	var ev []string
	seen := 0
	scripts := func() {
		t := e.FTrace()
		for ; seen < len(t); seen++ {
			ev = append(ev, strings.TrimSpace(t[seen]))
		}
	}
	log := func(f string, a ...interface{}) {
		scripts()
		ev = append(ev, fmt.Sprintf(f, a...))
	}
	leaf := func(name string, f func(argv model.ArgVals, env *model.Env) bool) *model.Cmd {
		return e.Power(name, func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
			return idx, f(argv, env)
		})
	}
	for _, n := range []string{"va", "vb"} {
		n := n
		leaf(n, func(argv model.ArgVals, env *model.Env) bool { log("%s %s", n, word(env.GetRaw("k"))); return true })
	}
	leaf("vset", func(argv model.ArgVals, env *model.Env) bool {
		env.GetLayer(model.EnvLayerSession).Set("k", argv.GetRaw("v"))
		return true
	}).AddArg("v", "")
	leaf("vfail", func(argv model.ArgVals, env *model.Env) bool { log("vfail"); return false })
	leaf("vpanic", func(argv model.ArgVals, env *model.Env) bool { log("vpanic"); panic(errors.New("made to fail")) })
	leaf("vstring", func(argv model.ArgVals, env *model.Env) bool { log("vstring"); panic("made to fail") })
	e.File("vs", `k=$(grep '^k=' "$1/env"); k=${k#k=}; echo "vs ${k:--}" >> $TRACE`)
	for n, b := range flows {
		e.Flow(n, strings.Join(b, " : "))
	}

	pr, pw, _ := os.Pipe()
	old := os.Stdin
	os.Stdin = pr
	defer func() { os.Stdin = old; pr.Close(); pw.Close() }()
	given, stops := 0, 0
	var left []string
	inside := 0
	e.Screen.OnPrint = func(t string) {
		switch {
		case strings.Contains(t, "(ctl-c to leave)"):
			if inside == 0 {
				inside = 1
				left = []string{leave}
				if given < len(k.Lines) {
					left = k.Lines[given]
				}
				given++
			}
			if len(left) == 0 {
				inside = 0 // the mode is left now
				return
			}
			log("line %s", left[0])
			fmt.Fprintf(pw, "%s\n", left[0])
			left = left[1:]
		case strings.Contains(t, "paused by '"):
			log("stop")
			a := "c"
			if stops < len(k.Ans) {
				a = k.Ans[stops]
			}
			stops++
			fmt.Fprintf(pw, "%s\n", a)
		}
	}
	var args []string
	if k.At {
		args = append(args, "break.at", "vb", ":")
	}
	for i, c := range k.Seq {
		if i > 0 {
			args = append(args, ":")
		}
		args = append(args, strings.Fields(c)...)
	}
	res := e.Run(args...)
	scripts()
	desc := fmt.Sprintf("%q with the lines %q", args, k.Lines)
	if !Eq(ev, s.ev) {
		return Bad("%s:\nmust %q\ndid  %q (%v %v)", desc, s.ev, ev, res, res.Panic)
	}
	if res.OK != wantOK {
		return Bad("%s: must end with %v, ended with %v %v", desc, wantOK, res, res.Panic)
	}
	// the record of the run has its own commands
	var want []string
	if k.At {
		want = append(want, "break.at")
	}
	for _, c := range k.Seq {
		n, _, _ := strings.Cut(c, " ")
		want = append(want, n)
	}
	files, _ := filepath.Glob(filepath.Join(dir, "sessions", "*", "status"))
	if len(files) != 1 {
		return Bad("%s: %d records", desc, len(files))
	}
	var got []string
	raw, _ := os.ReadFile(files[0])
	for _, l := range strings.Split(string(raw), "\n") {
		if c, ok := strings.CutPrefix(l, "<cmd>"); ok {
			got = append(got, strings.TrimSuffix(c, "</cmd>"))
		}
	}
	if !Eq(got, want) {
		return Bad("%s: the commands recorded are %q, must be %q", desc, got, want)
	}
	return Out{Outcome: fmt.Sprint("as one run ", res.OK), States: []string{strings.Join(ev, ";")}, Steps: len(ev)}
}

func main() {
	Main(Spec{ID: "P44", Level: "model_checking", CaseSec: 30,
		Rule: "every run of up to 3 of 7 commands (functions, scripts, flows, one which enters the interactive mode, a flow which does) and every break point at which the mode is chosen, with every sequence of up to 2 (thorough: 3) of 19 lines (commands, sequences, flows, scripts, values set, limited values, failing and panicking ones, unknown commands, empty ones, break points) given there and 3 ways to leave; oracle: an interpreter of the run and the lines; compared: every command executed with the value it sees, every stop, the result and the record of the run",
		Gen:  gen, Exec: exec})
}
