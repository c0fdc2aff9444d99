// P32: failures allowed for a command do not stop the run, all others do.
package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"

	"verif/eng"
	. "verif/vlib"
)

// leaf kinds
var leaves = []string{"qok", "qfail", "qpanic", "qstr", "qfile", "qfilex", "qquiet"}

// flows over leaves (and flows); ! marks an allowed failure
var flows = map[string][]string{
	"qf1": {"qok", "qfail", "qok"},
	"qf2": {"qok", "qf1", "qok"},
	"qf3": {"qok", "qf1!", "qok"},
	"qf4": {"qpanic!", "qok"},
	"qf5": {"qok", "qpanic", "qok"},
	"qf6": {"qok", "qfilex", "qok"},
	"qn1": {"qok"},   // followed by a script
	"qn2": {"qfail"}, // followed by a script
	"qn3": {"qok"},   // followed by a script that fails
	"qn4": {"qf2!"},  // followed by a script
}
var flowNames = []string{"qf1", "qf2", "qf3", "qf4", "qf5", "qf6", "qn1", "qn2", "qn3", "qn4"}

type kase struct {
	S []string // commands, ! suffix = allowed to fail
	N bool     // no session
	D bool     // executor display on
}

func gen(tier string, emit func(string)) {
	all := append(append([]string{}, leaves...), flowNames...)
	var alpha []string
	for _, x := range all {
		alpha = append(alpha, x+"!", x)
	}
	for _, n := range []bool{false, true} {
		for i := 1; i <= 2; i++ {
			Seqs(len(alpha), i, i, func(s []int) {
				for _, d := range []bool{false, true} {
					if n && d {
						continue
					}
					emit(J(kase{append(append([]string{}, Strs(alpha, s)...), "qok"), n, d}))
				}
			})
		}
	}
	few := []string{"qok", "qfail!", "qpanic!", "qstr!", "qf2!", "qf3", "qf5!", "qfilex!", "qn2!", "qn3!", "qfail", "qf1", "qquiet!"}
	n := 2
	if tier == "thorough" {
		n = 3
	}
	Seqs(len(few), n+1, n+1, func(s []int) {
		emit(J(kase{append(append([]string{}, Strs(few, s)...), "qok"), false, false}))
	})
}

func setup(dir string) *eng.Eng {
	e := eng.New(dir)
	power := func(name string, end func() bool) *model.Cmd {
		return e.Power(name, func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
			e.FLog("%s", name)
			return idx, end()
		})
	}
	power("qok", func() bool { return true })
	power("qfail", func() bool { return false })
	power("qpanic", func() bool { panic(errors.New("boom")) })
	power("qstr", func() bool { panic(fmt.Errorf("boom %d", 2)) })
	power("qquiet", func() bool { panic(errors.New("quiet boom")) }).SetQuietError()
	e.File("qfile", "echo qfile >> $TRACE")
	e.File("qfilex", "echo qfilex >> $TRACE; exit 3")
	for _, n := range flowNames {
		body := strings.Join(spell(flows[n]), " ")
		switch {
		case n == "qn3":
			e.FileNFlow(n, "echo "+n+" >> $TRACE; exit 1", body)
		case strings.HasPrefix(n, "qn"):
			e.FileNFlow(n, "echo "+n+" >> $TRACE", body)
		default:
			e.Flow(n, body)
		}
	}
	return e
}

func spell(cmds []string) (r []string) {
	for i, c := range cmds {
		if i > 0 {
			r = append(r, ":")
		}
		if strings.HasSuffix(c, "!") {
			r = append(r, strings.TrimSuffix(c, "!"), "%err=ok")
		} else {
			r = append(r, c)
		}
	}
	return
}

// run is the reference: it logs what must run and returns success.
func run(cmds []string, log *[]string) bool {
	for _, c := range cmds {
		name := strings.TrimSuffix(c, "!")
		ok := true
		if body, is := flows[name]; is {
			ok = run(body, log)
			if ok && strings.HasPrefix(name, "qn") {
				*log = append(*log, name)
				ok = name != "qn3"
			}
		} else {
			*log = append(*log, name)
			ok = name == "qok" || name == "qfile"
		}
		if !ok && name == c {
			return false
		}
	}
	return true
}

func exec(key string) Out {
	var k kase
	U(key, &k)
	var want []string
	ok := run(k.S, &want)
	dir, drop := eng.Scratch()
	defer drop()
	e := setup(dir)
	if k.N {
		for _, c := range k.S {
			if strings.Contains(key, "qfile") || strings.Contains(c, "qf6") || strings.Contains(c, "qn") {
				return Out{Trivial: true, Outcome: "scripts need a session"}
			}
		}
		e.Env.SetBool("sys.session.disable", true)
	}
	if k.D {
		e.Env.SetBool("display.executor", true)
	}
	r := e.Run(spell(k.S)...)
	got := e.FTrace()
	desc := fmt.Sprintf("input %q (no session %v)", strings.Join(spell(k.S), " "), k.N)
	if !Eq(want, got) {
		return Bad("%s: must run %v, ran %v (ok=%v panic=%v)", desc, want, clip(got), r.OK, r.Panic)
	}
	if r.OK != ok {
		return Bad("%s: ran %v; success must be %v, reported %v panic=%v", desc, got, ok, r.OK, r.Panic)
	}
	if r.OK {
		if d, s := e.Env.GetInt("sys.stack-depth"), e.Env.GetRaw("sys.stack"); d != 0 || s != "" {
			return Bad("%s: after the run the stack is %d %q", desc, d, s)
		}
	}
	return Out{Outcome: fmt.Sprint(got, r.OK), States: want, Trans: []string{fmt.Sprint(got, r.OK)}, Steps: len(got), Trivial: ok && !strings.Contains(key, "!")}
}

func clip(s []string) []string {
	if len(s) > 20 {
		return append(s[:20:20], "...")
	}
	return s
}

func main() {
	Main(Spec{ID: "P32", Level: "model_checking", CaseSec: 10,
		Rule: "sequences of commands of 17 kinds (succeeding, failing, panicking, scripts, flows failing at several depths, script with flow) with and without the allow-failure option, order and result compared with a reference; non-trivial when something fails or is allowed to",
		Gen:  gen, Exec: exec})
}
