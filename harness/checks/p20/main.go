// P20: in forest mode each top-level command starts from the same environment.
package main

import (
	"fmt"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"

	"verif/eng"
	. "verif/vlib"
)

// qr reads, qp appends p to k, qw appends w, ql sets a new key, qT a script
// which appends t, qdel deletes k, qF/qG/qH flows, qN flow and script, qX a
// flow in forest mode that fails (allowed), # forest mode
var mainA = []string{"qr", "qp", "qF", "qG", "qT", "#", "qX", "ql", "qN", "qdel"}
var bodyA = []string{"qr", "qp", "qH", "#", "qw"}

type kase struct {
	M, F, G []string
	Pre     string // value of k in the session before: "", "0"
	D       bool
}

func gen(tier string, emit func(string)) {
	e := func(m, f, g []string, pre string, d bool) {
		emit(J(kase{append([]string{}, m...), f, g, pre, d}))
	}
	f0, g0 := []string{"qp", "qr", "qp", "qr"}, []string{"qp", "#", "qp", "qr", "qw", "qr"}
	n := 4
	if tier == "thorough" {
		n = 5
	}
	i := 0
	for l := 1; l <= n; l++ {
		Seqs(len(mainA), l, l, func(s []int) {
			i++
			e(Strs(mainA, s), f0, g0, []string{"", "0"}[i%2], i%7 == 0)
		})
	}
	// every flow body
	b := 4
	for l := 1; l <= b; l++ {
		Seqs(len(bodyA), l, l, func(s []int) {
			f := append([]string{}, Strs(bodyA, s)...)
			for _, m := range [][]string{{"qF", "qr"}, {"#", "qF", "qr", "qF"}, {"qG", "qr"}} {
				i++
				e(m, f, []string{"#", "qF", "qr", "qp", "qr", "qF"}, "0", i%7 == 0)
			}
		})
	}
}

type env map[string]string

func (e env) clone() env {
	r := env{}
	for k, v := range e {
		r[k] = v
	}
	return r
}

func (e env) show() string {
	f := func(k string) string {
		if v, ok := e[k]; ok && v != "" {
			return v
		}
		return "-"
	}
	return f("k") + "," + f("l")
}

func (k *kase) ref(items []string, e env, log *[]string) bool {
	forest := false
	for _, c := range items {
		ce := e
		if forest {
			ce = e.clone()
		}
		l := func() { *log = append(*log, c+" "+ce.show()) }
		switch c {
		case "#":
			forest = true
		case "qr":
			l()
		case "qp", "qw", "qT":
			l()
			ce["k"] += c[1:]
		case "ql":
			l()
			ce["l"] = "1"
		case "qdel":
			l()
			delete(ce, "k")
		case "qF":
			k.ref(k.F, ce, log)
		case "qG":
			k.ref(k.G, ce, log)
		case "qH":
			k.ref([]string{"qw", "qr", "qw"}, ce, log)
		case "qX":
			k.ref([]string{"qp", "#", "qw", "qr"}, ce, log)
		case "qN":
			k.ref([]string{"qp", "#", "qp", "qr"}, ce, log)
			l()
			ce["k"] += "n"
		}
	}
	return true
}

func exec(key string) Out {
	var k kase
	U(key, &k)
	re := env{}
	if k.Pre != "" {
		re["k"] = k.Pre
	}
	var want []string
	k.ref(k.M, re, &want)
	dir, drop := eng.Scratch()
	defer drop()
	e := eng.New(dir)
	pw := func(name string, f func(s *model.Env) bool) *model.Cmd {
		return e.Power(name, func(argv model.ArgVals, cc *model.Cli, ev *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
			if name != "qfail" {
				sh := func(k string) string {
					if v := ev.GetRaw(k); v != "" {
						return v
					}
					return "-"
				}
				e.FLog("%s %s,%s", name, sh("k"), sh("l"))
			}
			return idx, f(ev.GetLayer(model.EnvLayerSession))
		})
	}
	app := func(x string) func(s *model.Env) bool {
		return func(s *model.Env) bool { s.Set("k", s.GetRaw("k")+x); return true }
	}
	pw("qr", func(s *model.Env) bool { return true })
	pw("qp", app("p"))
	pw("qw", app("w"))
	pw("ql", func(s *model.Env) bool { s.Set("l", "1"); return true })
	pw("qdel", func(s *model.Env) bool { s.Delete("k"); return true })
	pw("qfail", func(s *model.Env) bool { return false })
	scr := func(name, x string) string {
		return `v=$(grep '^k=' "$1/env"); v=${v#k=}; w=$(grep '^l=' "$1/env"); w=${w#l=}
echo "` + name + ` ${v:--},${w:--}" >> $TRACE
echo "k=${v}` + x + `" >> "$1/env"`
	}
	e.File("qT", scr("qT", "T"))
	text := func(items []string) string {
		var t []string
		for _, c := range items {
			switch c {
			case "#":
				c = "flow.forest-mode"
			case "qX":
				c = "qX %err=ok"
			}
			t = append(t, c)
		}
		return strings.Join(t, " : ")
	}
	e.FileNFlow("qN", scr("qN", "n"), text([]string{"qp", "#", "qp", "qr"}))
	e.Flow("qF", text(k.F))
	e.Flow("qG", text(k.G))
	e.Flow("qH", "qw : qr : qw")
	e.Flow("qX", "qp : flow.forest-mode : qw : qr : qfail")
	if k.Pre != "" {
		e.Env.Set("k", k.Pre)
	}
	if k.D {
		e.Env.SetBool("display.executor", true)
	}
	in := text(k.M)
	r := e.Run(strings.Fields(in)...)
	got := e.FTrace()
	desc := fmt.Sprintf("input %q, qF=%q, qG=%q, k=%q before", in, text(k.F), text(k.G), k.Pre)
	if !Eq(want, got) || !r.OK {
		return Bad("%s: commands must see\n %v, saw\n %v (ok=%v %v) %s", desc, want, got, r.OK, r.Panic, e.Screen.Err())
	}
	if v := e.Env.GetRaw("k"); v != re["k"] {
		return Bad("%s: after the run k must be %q, is %q", desc, re["k"], v)
	}
	// the next line is not in forest mode
	e.Again()
	e.Env.SetBool("sys.session.disable", true)
	e.Env.Delete("session")
	before := len(got)
	r = e.Run("qp", ":", "qp", ":", "qr")
	got = e.FTrace()[before:]
	x := re["k"]
	sh := func(v string) string {
		if v == "" {
			return "-"
		}
		return v
	}
	l := sh(re["l"])
	if w := []string{"qp " + sh(x) + "," + l, "qp " + x + "p," + l, "qr " + x + "pp," + l}; !Eq(w, got) {
		return Bad("%s: the next line \"qp : qp : qr\" must see %v, saw %v (ok=%v %v)", desc, w, got, r.OK, r.Panic)
	}
	return Out{Trivial: !strings.Contains(in+text(k.F), "forest"), Outcome: fmt.Sprint(want), States: want, Trans: []string{desc}, Steps: len(want)}
}

func main() {
	Main(Spec{ID: "P20", Level: "model_checking", CaseSec: 15,
		Rule: "sequences of up to 4 (5) of 10 kinds of command with forest mode entered at every place, and every flow body of up to 4 of 5 kinds with forest mode at every place; every command logs what it sees, compared with a reference, and a second line follows; trivial without forest mode",
		Gen:  gen, Exec: exec})
}
