// P23: joined lists run the command once for every combination of values.
package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"

	"verif/eng"
	. "verif/vlib"
)

type list struct {
	text string
	vals []string // nil and bad: malformed
	bad  bool
}

func l(text string, vals ...string) list { return list{text, vals, false} }

var lists = []list{
	l("a", "a"), l("a,b", "a", "b"), l("c,a,b", "c", "a", "b"), l("a,a", "a", "a"), l("a,b,c,d", "a", "b", "c", "d"),
	l("[1,3]", "1", "2", "3"), l("[1,5,2]", "1", "3", "5"), l("[1,6,2]", "1", "3", "5"), l("[5,5]", "5"), l("[3,1]"),
	l("[-1,1]", "-1", "0", "1"), l("[0,0,7]", "0"), l("[1,10,100]", "1"), l("[9,11]", "9", "10", "11"),
	l("[1.0,2.0,0.5]", "1.000000", "1.500000", "2.000000"), l("[0.25,1,0.5]", "0.250000", "0.750000"),
	l("[9223372036854775806,9223372036854775807]", "9223372036854775806", "9223372036854775807"),
	l("[1,6,3]", "1", "4"), l("[0,11,4]", "0", "4", "8"), l("[16777217.0,16777218.0,1]", "16777217.000000", "16777218.000000"),
	l("p-q,r_s", "p-q", "r_s"), l("1,02", "1", "02"),
	{"[a,b]", nil, true}, {"[1,x]", nil, true}, {"[x,1]", nil, true}, {"[1,3,0]", nil, true}, {"[1,3,-1]", nil, true}, {"[3,1,-1]", nil, true},
	{"[1,,2]", nil, true}, {"[1,3,]", nil, true}, {"[,]", nil, true}, {"[1.0,2.0,0.0]", nil, true}, {"[1.0,2.0,-1]", nil, true},
	{"[1.0,x]", nil, true}, {"[1,2.0,y.]", nil, true}, {"[1.,inf]", nil, true}, {"[1.,2,nan]", nil, true}, {"[1,99999999999999999999]", nil, true},
	{"", nil, true},
}

var targets = []string{"ob", "oflow", "oscript", "ofail", "oflowfail", "osess"}
var places = []string{"main", "flow", "tail", "repeat"}
var forms = []string{"pos", "kv"}

type kase struct {
	Kind string
	L    []int
	T    int
	P    int
	F    int
	N    string
}

func gen(tier string, emit func(string)) {
	n := len(lists)
	good := 0
	for i := range lists {
		if !lists[i].bad {
			good = i + 1
		}
	}
	for t := range targets {
		for p := range places {
			for f := range forms {
				Seqs(n, 0, 1, func(s []int) { emit(J(kase{Kind: "join", L: append([]int{}, s...), T: t, P: p, F: f})) })
			}
		}
	}
	hi := 3
	Seqs(n, 2, 2, func(s []int) {
		for t := range targets {
			if t != 0 && (s[0] > 10 || s[1] > 10) && tier != "thorough" {
				continue
			}
			emit(J(kase{Kind: "join", L: append([]int{}, s...), T: t}))
			if tier == "thorough" {
				for p := 1; p < len(places); p++ {
					emit(J(kase{Kind: "join", L: append([]int{}, s...), T: t, P: p}))
				}
			}
		}
	})
	lim := 7
	if tier == "thorough" {
		lim = good
	}
	Seqs(lim, 3, hi, func(s []int) {
		for t := range targets {
			if t > 0 && t < 3 && tier != "thorough" {
				continue
			}
			emit(J(kase{Kind: "join", L: append([]int{}, s...), T: t}))
		}
	})
	for _, x := range []string{"1", "2", "3", "7", "20", "0", "-1", "x", "", "1.5", "2x"} {
		for t := range targets {
			for p := 0; p < 3; p++ {
				emit(J(kase{Kind: "repeat", N: x, T: t, P: p}))
			}
		}
	}
}

const failAt = 2 // the failing targets fail on their 2nd execution

func exec(key string) Out {
	var k kase
	U(key, &k)
	dir, drop := eng.Scratch()
	defer drop()
	e := eng.New(dir)
	args := func(c *model.Cmd) { c.AddArg("x", "dx").AddArg("y", "dy").AddArg("z", "dz") }
	show := func(argv model.ArgVals) string {
		return argv.GetRaw("x") + " " + argv.GetRaw("y") + " " + argv.GetRaw("z")
	}
	fn := func(name string, fail bool) {
		n := 0
		args(e.Power(name, func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
			n++
			e.FLog("%s %s", name, show(argv))
			return idx, !(fail && n == failAt)
		}))
	}
	fn("ob", false)
	fn("ofail", true)
	fn("oinner", true)
	fn("o1", false)
	fn("o2", false)
	args(e.Power("osess", func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
		s := env.GetLayer(model.EnvLayerSession)
		s.SetInt("cnt", s.GetInt("cnt")+1)
		e.FLog("osess %s #%s", show(argv), s.GetRaw("cnt"))
		return idx, true
	}))
	e.Env.Set("cnt", "0")
	args(e.Flow("oflow", "ob [[x]] [[y]] [[z]] : ob in"))
	args(e.Flow("oflowfail", "ob [[x]] [[y]] [[z]] : oinner : ob never"))
	args(e.File("oscript", "echo \"oscript $2 $3 $4\" >> $TRACE"))
	target := targets[k.T]
	one := func(x, y, z string, n int) (log []string, ok bool) {
		a := x + " " + y + " " + z
		switch target {
		case "oflow":
			return []string{"ob " + a, "ob in dy dz"}, true
		case "oflowfail":
			log = []string{"ob " + a, "oinner dx dy dz"}
			if n == failAt {
				return log, false
			}
			return append(log, "ob never dy dz"), true
		case "ofail":
			return []string{"ofail " + a}, n != failAt
		case "osess":
			return []string{fmt.Sprintf("osess %s #%d", a, n)}, true
		}
		return []string{target + " " + a}, true
	}
	var want []string
	wantOK := true
	var w []string
	switch k.Kind {
	case "join":
		names := []string{"x", "y", "z"}
		combos := [][]string{{"dx", "dy", "dz"}}
		bad := false
		for i, li := range k.L {
			li := lists[li]
			if k.F == 0 {
				w = append(w, "join.new", names[i], li.text, ":")
			} else {
				w = append(w, "join.new", "value="+li.text, "key="+names[i], ":")
			}
			bad = bad || li.bad
			var next [][]string
			for _, c := range combos {
				for _, v := range li.vals {
					c2 := append([]string{}, c...)
					c2[i] = v
					next = append(next, c2)
				}
			}
			combos = next
		}
		w = append(w, "join.run", target)
		if len(k.L) == 0 {
			bad = true // nothing declared
		}
		n := 0
		if !bad {
			for _, c := range combos {
				n++
				log, ok := one(c[0], c[1], c[2], n)
				want = append(want, log...)
				if !ok {
					wantOK = false
					break
				}
			}
		} else {
			wantOK = false
		}
		if len(want) > 4000 {
			return Out{Trivial: true, Outcome: "too large"}
		}
	case "repeat":
		w = []string{"repeat", target, k.N}
		if k.N == "" {
			w = []string{"repeat", target}
			k.N = "1"
		}
		n, err := strconv.Atoi(k.N)
		if err != nil || n <= 0 {
			wantOK = false
		} else {
			for i := 1; i <= n; i++ {
				log, ok := one("dx", "dy", "dz", i)
				want = append(want, log...)
				if !ok {
					wantOK = false
					break
				}
			}
		}
	}
	switch places[k.P] {
	case "flow":
		e.Flow("wrap", model.FlowStrsToStr(w))
		for _, x := range w {
			if x == "" || strings.ContainsAny(x, " ") {
				return Out{Trivial: true, Outcome: "not expressible in a flow"}
			}
		}
		w = []string{"wrap"}
	case "tail":
		w = append(append([]string{"o1", ":"}, w...), ":", "o2")
		if wantOK || len(want) > 0 || k.Kind == "join" {
			want = append([]string{"o1 dx dy dz"}, want...)
			if wantOK {
				want = append(want, "o2 dx dy dz")
			}
		}
	case "repeat":
		// the whole joined run twice: the lists stay declared
		w = append(append(w, ":"), w[len(w)-2:]...)
		if wantOK && (target == "ob" || target == "oscript" || target == "oflow") {
			want = append(want, want...)
		} else if wantOK {
			return Out{Trivial: true, Outcome: "stateful target"}
		}
	}
	r := e.Run(w...)
	got := e.FTrace()
	desc := fmt.Sprintf("%q", w)
	if places[k.P] == "flow" {
		desc = fmt.Sprintf("%+v in a flow", k)
	}
	if len(k.L) == 1 && lists[k.L[0]].text == "" && r.OK {
		return Bad("%s: an empty list must be refused", desc)
	}
	if r.OK != wantOK {
		return Bad("%s: must succeed=%v, got %v (%v), ran %q", desc, wantOK, r.OK, r.Panic, got)
	}
	emptyList := len(k.L) == 1 && lists[k.L[0]].text == ""
	if (k.Kind == "repeat" && !wantOK && len(want) == 0 || emptyList) && places[k.P] == "tail" {
		// refused either before the run or at the command
		if len(got) > 1 || len(got) == 1 && got[0] != "o1 dx dy dz" {
			return Bad("%s: must be refused, ran %q", desc, got)
		}
	} else if !Eq(got, want) {
		return Bad("%s: must run %q, ran %q", desc, want, got)
	}
	return Out{Outcome: fmt.Sprint(len(got), wantOK), Trans: []string{strings.Join(w, " ")}, States: got, Steps: len(got)}
}

func main() {
	Main(Spec{ID: "P23", Level: "model_checking", CaseSec: 20,
		Rule: "every set of up to 3 lists out of 36 texts (lists, integer and decimal ranges, empty ranges, ranges at the integer limit, malformed ones) joined over 6 targets (function, script, flow, with failures at the 2nd execution, counting through the session), in the line, in a flow, between commands and run twice; every repeat count of a table; executions compared with the product computed by a reference",
		Gen:  gen, Exec: exec})
}
