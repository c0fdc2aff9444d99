// P12: a sequence that reads an unset key is refused before anything runs.
package main

import (
	"fmt"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"

	"verif/eng"
	. "verif/vlib"
)

// item is one command of the language; keys are k and j.
type item struct {
	text  string
	ops   [][2]string // (op, key) in declared order
	sets  [][2]string // values the command really puts into the session
	arg   [2]string   // argument given that is mapped to a key
	def   [2]string   // default of an argument mapped to a key, not given
	v2e   [2]string
	scope [2]string // value in braces for this command only
	rm    string
	mapTo string // declares to write this key, value may come out empty
	reset bool
	keep  string
	flow  string // F or G
}

var items = []item{
	{text: "nop"},
	{text: "rk", ops: [][2]string{{"r", "k"}}},
	{text: "rj", ops: [][2]string{{"r", "j"}}},
	{text: "wk", ops: [][2]string{{"w", "k"}}, sets: [][2]string{{"k", "1"}}},
	{text: "wj", ops: [][2]string{{"w", "j"}}, sets: [][2]string{{"j", "1"}}},
	{text: "wk0", ops: [][2]string{{"w", "k"}}}, // declares only
	{text: "mrk", ops: [][2]string{{"mr", "k"}}},
	{text: "mwk", ops: [][2]string{{"mw", "k"}}},
	{text: "rkj", ops: [][2]string{{"r", "k"}, {"r", "j"}}},
	{text: "rkwj", ops: [][2]string{{"r", "k"}, {"w", "j"}}, sets: [][2]string{{"j", "1"}}},
	{text: "rwk", ops: [][2]string{{"r", "k"}, {"w", "k"}}, sets: [][2]string{{"k", "2"}}},
	{text: "wrk", ops: [][2]string{{"w", "k"}, {"r", "k"}}},
	{text: "mrrwk", ops: [][2]string{{"mr", "k"}, {"r", "k"}, {"mw", "k"}}},
	{text: "a2k v", arg: [2]string{"k", "v"}},
	{text: "a2k"},
	{text: "a2kd", def: [2]string{"k", "d"}},
	{text: "v2k", v2e: [2]string{"k", "v"}},
	{text: "v2krk", v2e: [2]string{"k", "v"}, ops: [][2]string{{"r", "k"}}},
	{text: "{k=s} rk", scope: [2]string{"k", "s"}, ops: [][2]string{{"r", "k"}}},
	{text: "{k=s} nop", scope: [2]string{"k", "s"}},
	{text: "{j=s} mrk", scope: [2]string{"j", "s"}, ops: [][2]string{{"mr", "k"}}},
	{text: "rany k", ops: [][2]string{{"r", "k"}}},
	{text: "env.set k v", ops: [][2]string{{"w", "k"}}, sets: [][2]string{{"k", "v"}}},
	{text: "env.map k j", mapTo: "j"},
	{text: "env.rm k", rm: "k"},
	{text: "mark-time k", ops: [][2]string{{"w", "k"}}, sets: [][2]string{{"k", "v"}}},
	{text: "env.reset", reset: true},
	{text: "env.reset k", reset: true, keep: "k"},
	{text: "F", flow: "F"},
	{text: "G", flow: "G"},
	{text: "{k=t} F", flow: "F", scope: [2]string{"k", "t"}},
	{text: "Fr", flow: "F", ops: [][2]string{{"r", "k"}}},
	{text: "Q", flow: "F"}, // does not show its flow
	{text: "Fw", flow: "F", ops: [][2]string{{"w", "k"}}},
	{text: "{k=s} wj", scope: [2]string{"k", "s"}, ops: [][2]string{{"w", "j"}}, sets: [][2]string{{"j", "1"}}},
	{text: "{k=s} wk", scope: [2]string{"k", "s"}, ops: [][2]string{{"w", "k"}}, sets: [][2]string{{"k", "1"}}},
}

var heads = []string{"", "{k=h} : ", "{j=h} : "}

type kase struct {
	Main, F, G []int
	MH, FH     int // heads of the line and of F
	Pre        int // 0 none, 1 k has a value, 2 k is empty
}

func byText(s string) int {
	for i, it := range items {
		if it.text == s {
			return i
		}
	}
	panic(s)
}

func gen(tier string, emit func(string)) {
	cp := func(x []int) []int { return append([]int{}, x...) }
	n := len(items)
	noflow := []int{}
	for i, it := range items {
		if it.flow == "" {
			noflow = append(noflow, i)
		}
	}
	thorough := tier == "thorough"
	body := func(lo, hi int, f func([]int)) {
		Seqs(len(noflow), lo, hi, func(s []int) {
			r := make([]int, len(s))
			for i := range s {
				r[i] = noflow[s[i]]
			}
			f(r)
		})
	}
	one := []int{byText("rk")}
	// flat sequences and flows with fixed bodies
	hi := 2
	if thorough {
		hi = 3
	}
	Seqs(n, 1, hi, func(s []int) {
		for h := range heads {
			for p := 0; p < 3; p++ {
				if !thorough && p == 2 && h != 0 {
					continue
				}
				emit(J(kase{cp(s), one, []int{byText("wk")}, h, 0, p}))
			}
		}
	})
	if !thorough {
		Seqs(n, 3, 3, func(s []int) {
			if s[0] == 0 || s[1] == 0 || s[2] == 0 {
				return
			}
			it, reads := items[s[2]], false
			for _, op := range it.ops {
				reads = reads || op[0] == "r"
			}
			if !reads && it.flow == "" {
				return
			}
			emit(J(kase{cp(s), one, []int{byText("wk")}, 0, 0, 0}))
		})
	}
	// every flow body around every neighbour
	nb := [][2]string{{"", ""}, {"", "rk"}, {"wk", ""}, {"{k=s} nop", "rk"}, {"mwk", "mrk"}, {"", "rj"}, {"env.rm k", "rk"}, {"a2k v", ""}}
	body(1, 2, func(b []int) {
		for _, x := range nb {
			for fh := range heads {
				for _, f := range []string{"F", "{k=t} F", "Fr", "Fw", "Q"} {
					if !thorough && (f != "F" && fh != 0 || fh == 2) {
						continue
					}
					var m []int
					if x[0] != "" {
						m = append(m, byText(x[0]))
					}
					m = append(m, byText(f))
					if x[1] != "" {
						m = append(m, byText(x[1]))
					}
					emit(J(kase{m, cp(b), []int{byText("wk")}, 0, fh, 0}))
				}
			}
		}
	})
	// nested: F holds G
	body(1, 2, func(b []int) {
		for _, fb := range [][]string{{"G"}, {"G", "rk"}, {"wk", "G"}, {"{j=s} mrk", "G", "rj"}} {
			var f []int
			for _, t := range fb {
				f = append(f, byText(t))
			}
			emit(J(kase{[]int{byText("F"), byText("rk")}, f, cp(b), 0, 0, 0}))
			if thorough {
				emit(J(kase{[]int{byText("{k=t} F"), byText("mrk")}, f, cp(b), 0, 0, 0}))
				emit(J(kase{[]int{byText("F")}, f, cp(b), 0, 1, 0}))
			}
		}
	})
}

func words(ids []int) string {
	var t []string
	for _, i := range ids {
		t = append(t, items[i].text)
	}
	return strings.Join(t, " : ")
}

// --- reference ---

type layer struct {
	m map[string]string
	p *layer
}

func (l *layer) get(k string) string {
	for ; l != nil; l = l.p {
		if v, ok := l.m[k]; ok {
			return v
		}
	}
	return ""
}

func (l *layer) has(k string) bool {
	for ; l != nil; l = l.p {
		if _, ok := l.m[k]; ok {
			return true
		}
	}
	return false
}

type ref struct {
	sess    *layer
	written map[string]bool
	missing []string
	run     []string
	bodies  map[string][]int
	fh      int
}

func (r *ref) play(env *layer, ids []int, skipFirstScope bool) {
	for i, id := range ids {
		it := items[id]
		e := &layer{map[string]string{}, env}
		if it.scope[0] != "" {
			if i == 0 && skipFirstScope {
				// braces in front of the first command belong to the sequence
				env.m[it.scope[0]] = it.scope[1]
			} else {
				e.m[it.scope[0]] = it.scope[1]
			}
		}
		if it.v2e[0] != "" {
			r.sess.m[it.v2e[0]] = it.v2e[1]
		}
		if it.arg[0] != "" {
			r.sess.m[it.arg[0]] = it.arg[1]
		}
		if it.def[0] != "" {
			if _, ok := r.sess.m[it.def[0]]; !ok {
				r.sess.m[it.def[0]] = it.def[1]
			}
		}
		for _, op := range it.ops {
			switch op[0] {
			case "r":
				if !r.written[op[1]] && e.get(op[1]) == "" {
					r.missing = append(r.missing, op[1]+" by "+it.text)
				}
			case "w", "mw":
				r.written[op[1]] = true
			}
		}
		if it.mapTo != "" {
			r.written[it.mapTo] = true
		}
		r.run = append(r.run, strings.Fields(strings.TrimPrefix(strings.TrimPrefix(strings.TrimPrefix(it.text, "{k=s} "), "{j=s} "), "{k=t} "))[0])
		for _, s := range it.sets {
			r.sess.m[s[0]] = s[1]
		}
		if it.rm != "" {
			delete(r.written, it.rm)
			for l := e; l != nil; l = l.p {
				delete(l.m, it.rm)
			}
		}
		if it.reset {
			w, s := map[string]bool{}, map[string]string{}
			if it.keep != "" {
				if e.has(it.keep) {
					s[it.keep] = e.get(it.keep)
				}
				w[it.keep] = r.written[it.keep]
			}
			r.written, r.sess.m = w, s
		}
		if it.flow != "" {
			r.run = r.run[:len(r.run)-1]
			fe := &layer{map[string]string{}, e}
			if it.flow == "F" {
				switch r.fh {
				case 1:
					fe.m["k"] = "h"
				case 2:
					fe.m["j"] = "h"
				}
			}
			r.play(fe, r.bodies[it.flow], it.flow != "F" || r.fh == 0)
		}
	}
}

func exec(key string) Out {
	var k kase
	U(key, &k)
	e := eng.New("")
	reg := func(name string, sets ...string) *model.Cmd {
		return e.Power(name, func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
			e.Log("%s", name)
			for _, s := range sets {
				env.GetLayer(model.EnvLayerSession).Set(s, "1")
			}
			return idx, true
		})
	}
	const R, W, MR, MW = model.EnvOpTypeRead, model.EnvOpTypeWrite, model.EnvOpTypeMayRead, model.EnvOpTypeMayWrite
	reg("nop")
	reg("rk").AddEnvOp("k", R)
	reg("rj").AddEnvOp("j", R)
	reg("wk", "k").AddEnvOp("k", W)
	reg("wj", "j").AddEnvOp("j", W)
	reg("wk0").AddEnvOp("k", W)
	reg("mrk").AddEnvOp("k", MR)
	reg("mwk").AddEnvOp("k", MW)
	reg("rkj").AddEnvOp("k", R).AddEnvOp("j", R)
	reg("rkwj", "j").AddEnvOp("k", R).AddEnvOp("j", W)
	reg("rwk", "k").AddEnvOp("k", R).AddEnvOp("k", W)
	reg("wrk").AddEnvOp("k", W).AddEnvOp("k", R)
	reg("mrrwk").AddEnvOp("k", MR).AddEnvOp("k", R).AddEnvOp("k", MW)
	reg("a2k").AddArg("n", "").AddArg2Env("k", "n")
	reg("a2kd").AddArg("n", "d").AddArg2Env("k", "n")
	reg("v2k").AddVal2Env("k", "v")
	reg("v2krk").AddVal2Env("k", "v").AddEnvOp("k", R)
	reg("rany").AddArg("key", "").AddEnvOp("[[key]]", R)
	F := words(k.F)
	if k.FH > 0 {
		F = heads[k.FH] + F
	}
	e.Flow("F", F)
	e.Flow("Fr", F).AddEnvOp("k", R)
	e.Flow("Fw", F).AddEnvOp("k", W)
	e.Flow("Q", F).SetQuietSubFlow()
	e.Flow("G", words(k.G))
	line := heads[k.MH] + words(k.Main)
	desc := fmt.Sprintf("line %q, F=%q G=%q, k before %q", line, F, words(k.G), []string{"unset", "set", "empty"}[k.Pre])

	r := &ref{sess: &layer{m: map[string]string{}}, written: map[string]bool{}, bodies: map[string][]int{"F": k.F, "G": k.G}, fh: k.FH}
	switch k.Pre {
	case 1:
		e.Env.Set("k", "p")
		r.sess.m["k"] = "p"
	case 2:
		e.Env.Set("k", "")
		r.sess.m["k"] = ""
	}
	switch k.MH {
	case 1:
		r.sess.m["k"] = "h"
	case 2:
		r.sess.m["j"] = "h"
	}
	r.play(r.sess, k.Main, k.MH == 0)

	res := e.Run(strings.Fields(line)...)
	var got []string
	for _, x := range e.Trace() {
		got = append(got, x)
	}
	out := Out{States: []string{fmt.Sprint(r.written, k.Pre)}, Trans: []string{line}, Steps: len(r.run)}
	if len(r.missing) > 0 {
		if len(got) != 0 || res.OK {
			return Bad("%s: reads %v are not satisfied, yet ran %v (success=%v)", desc, r.missing, got, res.OK)
		}
		if res.Panic != nil {
			return Bad("%s: reads %v are not satisfied; crashed with %v instead of refusing", desc, r.missing, res.Panic)
		}
		want := map[int]string{1: "p"}[k.Pre]
		head := k.MH == 1 || k.MH == 0 && items[k.Main[0]].scope[0] == "k"
		if v := e.Env.GetRaw("k"); !head && v != want {
			return Bad("%s: refused, but k became %q", desc, v)
		}
		if !strings.Contains(e.Screen.Text()+e.Screen.Err(), strings.Fields(r.missing[0])[0]) {
			return Bad("%s: refused without naming the key; shown %q", desc, e.Screen.Text())
		}
		out.Outcome = "refused " + strings.Join(r.missing, ",")
		return out
	}
	if !res.OK || res.Panic != nil {
		return Bad("%s: every declared read is satisfied, yet the run failed (%v), shown: %s", desc, res.Panic, e.Screen.Text())
	}
	var want []string
	for _, x := range r.run {
		switch x {
		case "env.set", "env.map", "env.rm", "mark-time", "env.reset":
		default:
			want = append(want, x)
		}
	}
	if !Eq(got, want) {
		return Bad("%s: must run %v, ran %v", desc, want, got)
	}
	out.Outcome = "ran " + fmt.Sprint(len(want))
	return out
}

func main() {
	Main(Spec{ID: "P12", Level: "model_checking", CaseSec: 15,
		Rule: "every sequence of up to 3 of 36 command forms (declared reads, writes, may-reads, may-writes, argument and value mappings, braces, removing and resetting keys, flows) with heads and preset values, and every flow body of up to 2 forms (nested too) around neighbours; refused exactly when the reference finds an unsatisfied declared read, and then nothing runs",
		Gen:  gen, Exec: exec})
}
