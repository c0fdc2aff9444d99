// P19: injected rules replace, remove or insert exactly around the commands they match.
package main

import (
	"fmt"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"

	"verif/eng"
	. "verif/vlib"
)

type rule struct {
	K string // replace, remove, before, after
	N int    // 1, 2, -1 (all)
	T string // target
	D string // new command
}

// A case is a main sequence in which #0, #1, #2 stand for the rules and #c for
// clearing them, and the body of flow qF (which may hold rules as well).
type kase struct {
	R []rule
	M []string
	F []string
	D bool // display on
}

var news = []string{"qx", "qy v1", "qH"}

func rules() (r []rule) {
	for _, k := range []string{"replace", "remove", "before", "after"} {
		for _, n := range []int{1, 2, -1} {
			for _, t := range []string{"qa", "qb", "qF"} {
				for _, d := range news {
					if k == "remove" && d != news[0] {
						continue
					}
					r = append(r, rule{k, n, t, d})
				}
			}
		}
	}
	return
}

func gen(tier string, emit func(string)) {
	e := func(r []rule, m []string, f []string, d bool) {
		emit(J(kase{append([]rule{}, r...), append([]string{}, m...), f, d}))
	}
	alpha := []string{"qa", "qb", "qc", "qF"}
	flows := [][]string{{"qb", "qa", "qc"}, {"qa", "qa"}}
	all := rules()
	max := 3
	if tier == "thorough" {
		max = 4
	}
	// no rule at all, one rule at the front
	Seqs(4, 1, max, func(s []int) { e(nil, Strs(alpha, s), flows[0], false) })
	for ri, r := range all {
		Seqs(4, 1, max, func(s []int) {
			m := Strs(alpha, s)
			e([]rule{r}, append([]string{"#0"}, m...), flows[len(m)%2], ri%5 == 0)
		})
	}
	// one rule at every place, cleared or not
	for _, r := range all {
		for _, m := range [][]string{{"qa", "qb", "qa"}, {"qF", "qa", "qa", "qb"}, {"qb", "qF", "qb", "qF"}} {
			for at := 0; at <= len(m); at++ {
				x := append(append(append([]string{}, m[:at]...), "#0"), m[at:]...)
				e([]rule{r}, x, flows[0], false)
				for c := at + 1; c <= len(x); c++ {
					e([]rule{r}, append(append(append([]string{}, x[:c]...), "#c"), x[c:]...), flows[0], false)
				}
			}
		}
		// set inside a flow
		for _, m := range [][]string{{"qF", "qa", "qb"}, {"qa", "qF", "qF", "qb"}} {
			for at := 0; at <= 3; at++ {
				b := []string{"qb", "qa", "qb"}
				f := append(append(append([]string{}, b[:at]...), "#0"), b[at:]...)
				e([]rule{r}, m, f, false)
			}
		}
	}
	// two and three rules at the front
	two := []rule{}
	for _, r := range all {
		if tier == "thorough" || r.D == "qx" {
			two = append(two, r)
		}
	}
	seqs := [][]string{{"qa", "qb", "qc"}, {"qc", "qa", "qF", "qb"}, {"qa", "qa", "qb", "qb", "qa"}, {"qF", "qF"}, {"qc"}}
	for i, r := range two {
		for j, q := range two {
			for _, m := range seqs {
				e([]rule{r, q}, append([]string{"#0", "#1"}, m...), flows[0], (i+j)%7 == 0)
			}
		}
	}
	three := []rule{}
	for _, r := range all {
		if r.D == "qx" && r.N != 2 && r.T != "qF" {
			three = append(three, r)
		}
	}
	for _, r := range three {
		for _, q := range three {
			for _, p := range three {
				e([]rule{r, q, p}, append([]string{"#0", "#1", "#2"}, "qa", "qc", "qb", "qa"), flows[0], false)
				if tier == "thorough" {
					e([]rule{r, q, p}, append([]string{"#0", "qa", "#1", "qF", "#2"}, "qb", "qc", "qb", "qa"), flows[0], false)
				}
			}
		}
	}
}

type live struct {
	rule
	left int
}

type ref struct {
	k    kase
	live []live
	log  []string
	amb  bool
	deep int
}

// expand applies the rules to one sequence, then runs it; the commands rules
// bring in are not matched again.
func (r *ref) run(items []string) {
	r.deep++
	if r.deep > 6 {
		r.amb = true
		return
	}
	var seq []string
	for _, c := range items {
		if c == "#c" {
			r.live = nil
			continue
		}
		if c[0] == '#' {
			x := r.k.R[c[1]-'0']
			r.live = append(r.live, live{x, x.N})
			continue
		}
		out := []string{c}
		hits, done := 0, false
		var rest []live
		for _, l := range r.live {
			if done || l.T != c {
				rest = append(rest, l)
				continue
			}
			hits++
			switch l.K {
			case "replace":
				out = append([]string{l.D}, out[1:]...)
				done = true
			case "remove":
				out = out[1:]
				done = true
			case "before":
				out = append([]string{l.D, c}, out[1:]...)
				done = true
			case "after":
				out = append([]string{c, l.D}, out[1:]...)
			}
			if l.left > 0 {
				l.left--
			}
			if l.left != 0 {
				rest = append(rest, l)
			}
		}
		// several rules for one command: only repeated replaces and removes
		// have one clear meaning
		n := 0
		for _, l := range r.live {
			if l.T == c {
				n++
				if l.K == "before" || l.K == "after" {
					n += 10
				}
			}
		}
		if n > 11 || hits > 1 {
			r.amb = true
		}
		r.live = rest
		seq = append(seq, out...)
	}
	for _, c := range seq {
		switch c {
		case "qF":
			r.run(r.k.F)
		case "qH":
			r.run([]string{"qc", "qd"})
		default:
			r.log = append(r.log, c)
		}
	}
	r.deep--
}

func exec(key string) Out {
	var k kase
	U(key, &k)
	rf := &ref{k: k}
	rf.run(k.M)
	if rf.amb {
		return Out{Trivial: true, Outcome: "several rules for one command"}
	}
	e := eng.New("")
	for _, n := range []string{"qa", "qb", "qc", "qd", "qx"} {
		e.Mark(n)
	}
	e.Power("qy", func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
		e.Log("qy %s", argv.GetRaw("n1"))
		return idx, true
	}).AddArg("n1", "")
	for i, r := range k.R {
		r := r
		e.Power(fmt.Sprintf("qrule%d", i), func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
			t, _ := cc.ParseCmd(true, r.T)
			d, _ := cc.ParseCmd(true, strings.Fields(r.D)...)
			switch r.K {
			case "replace":
				cc.Blender.AddReplace(t, d, r.N)
			case "remove":
				cc.Blender.AddRemove(t, r.N)
			case "before":
				cc.Blender.AddInsert(t, d, r.N)
			case "after":
				cc.Blender.AddInsertAfter(t, d, r.N)
			}
			return idx, true
		}).SetQuiet().SetIsBlenderCmd()
	}
	e.Power("qclear", func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
		cc.Blender.Clear()
		return idx, true
	}).SetQuiet().SetIsBlenderCmd()
	text := func(items []string) string {
		var t []string
		for _, c := range items {
			if c == "#c" {
				c = "qclear"
			} else if c[0] == '#' {
				r := k.R[c[1]-'0']
				c = "qrule" + c[1:]
				if r.K == "replace" && r.N != 2 && r.D != "qy v1" {
					// the commands users have
					c = "flow.replace " + r.T + " " + r.D
					if r.N < 0 {
						c = "flow.replace.all " + r.T + " " + r.D
					}
				}
			}
			t = append(t, c)
		}
		return strings.Join(t, " : ")
	}
	e.Flow("qF", text(k.F))
	e.Flow("qH", "qc : qd")
	if k.D {
		e.Env.SetBool("display.executor", true)
	}
	in := text(k.M)
	res := e.Run(strings.Fields(in)...)
	got := e.Trace()
	want := rf.log
	for i := range want {
		want[i] = strings.TrimSuffix(want[i], "")
	}
	desc := fmt.Sprintf("input %q, qF=%q, rules %v", in, text(k.F), k.R)
	if !Eq(want, got) || !res.OK {
		return Bad("%s: must run %v, ran %v (ok=%v %v) %s", desc, want, got, res.OK, res.Panic, e.Screen.Err())
	}
	return Out{Outcome: fmt.Sprint(got), States: []string{fmt.Sprint(got)}, Trans: []string{desc}, Steps: len(got)}
}

func main() {
	Main(Spec{ID: "P19", Level: "model_checking", CaseSec: 15,
		Rule: "every set of up to 3 rules (4 kinds, once/twice/always, 3 targets, 3 new commands) over sequences of up to 4 commands and flows, set and cleared at every place; trivial when an insert rule and another rule match the same command, whose meaning is open",
		Gen:  gen, Exec: exec})
}
