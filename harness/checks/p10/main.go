// P10: a sequence runs in order, each command once, and stops at the first failure.
package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"

	"verif/eng"
	. "verif/vlib"
)

// leaf commands; qF and qG are flows, qN a script run after its flow qG, qT a
// script, qX a failing script, qd a directory without a command
var leaves = []string{"qa", "qb", "qfail", "qpanic"}
var inner = []string{"qa", "qb", "qfail", "qG", "qd.qe", ""}
var outer = []string{"qa", "qF", "qG", "qfail", "qpanic", "qN", "qT", "qX", "qd", "", "qnorm", "qZ"}

type kase struct {
	M []string // main sequence
	F []string // body of flow qF
	G []string // body of flow qG
	L int      // layout of the bodies and of the main line
	S bool     // sessions off
}

func gen(tier string, emit func(string)) {
	cp := func(a []string, s []int) []string { return append([]string{}, Strs(a, s)...) }
	e := func(m, f, g []string, l int, s bool) { emit(J(kase{m, f, g, l, s})) }
	// main sequences over fixed flows
	fixed := [][2][]string{{{"qa", "qG", "qb"}, {"qb"}}, {{"qG", "qG"}, {"qa", "qb"}}, {{"qb", "qG"}, {"qa", "qfail"}}, {{"qd.qe", "qa"}, {"qpanic"}}}
	n := 3
	if tier == "thorough" {
		n = 4
	}
	for fi, fx := range fixed {
		for i := 1; i <= n; i++ {
			k := len(outer)
			if i == 4 {
				k = 8
			}
			Seqs(k, i, i, func(s []int) {
				m := cp(outer, s)
				e(m, fx[0], fx[1], (fi+len(m))%3, false)
				if i <= 2 {
					e(m, fx[0], fx[1], fi%3, true)
				}
			})
		}
	}
	// every pair of flow bodies
	fm := 3
	if tier == "thorough" {
		fm = 4
	}
	Seqs(len(inner), 0, fm, func(fs []int) {
		f := cp(inner, fs)
		Seqs(len(leaves), 0, 2, func(gs []int) {
			g := cp(leaves, gs)
			for l := 0; l < 3; l++ {
				e([]string{"qa", "qF", "qb"}, f, g, l, false)
				if l == 0 {
					e([]string{"qF"}, f, g, l, true)
				}
			}
		})
	})
}

// body lays a flow out as metadata lines.
func body(cmds []string, l int) []string {
	switch l {
	case 0:
		return []string{strings.Join(cmds, " : ")}
	case 1: // one per line, comments and blank lines between
		r := []string{"# qa : qa"}
		for i, c := range cmds {
			r = append(r, c)
			if i == 0 {
				r = append(r, "", "#qb")
			}
		}
		return r
	}
	var r []string
	for i, c := range cmds {
		if i < len(cmds)-1 {
			c += " :"
		}
		r = append(r, c)
	}
	return r
}

func setup(dir string, k kase) *eng.Eng {
	e := eng.New(dir)
	power := func(name string, end func() bool) {
		e.Power(name, func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
			e.FLog("+%s", name)
			ok := end()
			e.FLog("-%s", name)
			return idx, ok
		})
	}
	power("qa", func() bool { return true })
	power("qb", func() bool { return true })
	power("qd.qe", func() bool { return true })
	power("qfail", func() bool { return false })
	power("qpanic", func() bool { panic(errors.New("boom")) })
	e.Node("qnorm").RegCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
		e.FLog("+qnorm")
		e.FLog("-qnorm")
		return true
	}, "verif normal", "")
	e.File("qT", "echo +qT >> $TRACE; sleep 0.002; echo -qT >> $TRACE")
	e.File("qX", "echo +qX >> $TRACE; exit 1")
	e.Flow("qF", body(k.F, k.L)...)
	e.Flow("qG", body(k.G, 2-k.L)...)
	e.FileNFlow("qN", "echo +qN >> $TRACE; echo -qN >> $TRACE", "qb", "qG")
	e.Node("qZ").RegAdHotFlowCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env) ([]string, []*model.ExecuteMask, bool) {
		return []string{"qG : qb"}, nil, true
	}, "verif generated flow")
	return e
}

func run(cmds []string, k kase, log *[]string) bool {
	for _, c := range cmds {
		in, out := "+"+c, "-"+c
		switch c {
		case "", "qd":
		case "qa", "qb", "qd.qe", "qnorm", "qT":
			*log = append(*log, in, out)
		case "qfail":
			*log = append(*log, in, out)
			return false
		case "qpanic", "qX":
			*log = append(*log, in)
			return false
		case "qF":
			if !run(k.F, k, log) {
				return false
			}
		case "qG":
			if !run(k.G, k, log) {
				return false
			}
		case "qN":
			if !run([]string{"qb", "qG"}, k, log) {
				return false
			}
			*log = append(*log, in, out)
		case "qZ":
			if !run([]string{"qG", "qb"}, k, log) {
				return false
			}
		}
	}
	return true
}

func words(m []string, l int) (w []string) {
	if l == 1 {
		w = append(w, ":")
	}
	for i, c := range m {
		if i > 0 {
			if l == 2 && len(w) > 0 && w[len(w)-1] != ":" {
				w[len(w)-1] += ":" // separator glued to the word
			} else {
				w = append(w, ":")
			}
		}
		if c != "" {
			w = append(w, c)
		}
	}
	if l == 1 && len(m) > 0 && m[len(m)-1] != "" {
		w = append(w, ":")
	}
	return
}

func exec(key string) Out {
	var k kase
	U(key, &k)
	// an empty command right before the last one has its own meaning (P21)
	if n := len(k.M); n >= 2 && k.M[n-2] == "" || k.L == 1 && (len(k.M) == 1 || k.M[len(k.M)-1] == "") {
		return Out{Trivial: true, Outcome: "tail mode"}
	}
	all := strings.Join(k.M, " ")
	if k.S && strings.ContainsAny(all, "TXN") {
		return Out{Trivial: true, Outcome: "scripts need a session"}
	}
	empty := true
	for _, m := range k.M {
		empty = empty && m == ""
	}
	if empty {
		return Out{Trivial: true, Outcome: "empty input"}
	}
	var want []string
	ok := run(k.M, k, &want)
	dir, drop := eng.Scratch()
	defer drop()
	e := setup(dir, k)
	if k.S {
		e.Env.SetBool("sys.session.disable", true)
	}
	if k.L == 2 {
		e.Env.SetBool("display.executor", true)
	}
	w := words(k.M, k.L)
	r := e.Run(append([]string{}, w...)...)
	got := e.FTrace()
	desc := fmt.Sprintf("input %q with qF=%q qG=%q", w, body(k.F, k.L), body(k.G, 2-k.L))
	if !Eq(want, got) {
		if len(got) > 30 {
			got = got[:30]
		}
		return Bad("%s: must run %v, ran %v (ok=%v panic=%v)", desc, want, got, r.OK, r.Panic)
	}
	if ok != r.OK {
		return Bad("%s: ran %v: success must be %v, is %v (panic=%v) %s", desc, got, ok, r.OK, r.Panic, e.Screen.Err())
	}
	return Out{Outcome: fmt.Sprint(got, ok), States: []string{fmt.Sprint(got)}, Trans: []string{fmt.Sprint(w, k.F, k.G, got)}, Steps: len(got)}
}

func main() {
	Main(Spec{ID: "P10", Level: "model_checking", CaseSec: 15,
		Rule: "sequences of up to 3 commands of 12 kinds (functions, scripts, flows, script after flow, generated flow, directories, empty) over every pair of flow bodies of up to 3 and 2 commands, in three layouts, start and end order and result compared with a reference; trivial for tail-mode forms, which P21 covers",
		Gen:  gen, Exec: exec})
}
