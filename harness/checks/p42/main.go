// P42: repeat and selftest run exactly the commands they name.
package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/innerr/ticat/pkg/core/model"

	"verif/eng"
	. "verif/vlib"
)

type kase struct {
	Kind string
	Cmd  int    `json:",omitempty"`
	N    int    `json:",omitempty"`
	Form int    `json:",omitempty"`
	Pos  int    `json:",omitempty"`
	T    []int  `json:",omitempty"` // what each command of the tree is
	Src  string `json:",omitempty"`
	Filt string `json:",omitempty"`
	Tag  string `json:",omitempty"`
	Par  string `json:",omitempty"`
	Fail int    `json:",omitempty"` // 1+index of the command which fails
}

// ---- repeat

type body struct {
	text string
	// one round; false when it fails
	do func(n *int, log func(string)) bool
}

var bodies = []body{
	{"a", func(n *int, log func(string)) bool { log("a(d)"); return true }},
	{"a x", func(n *int, log func(string)) bool { log("a(x)"); return true }},
	{"a p=y", func(n *int, log func(string)) bool { log("a(y)"); return true }},
	{"inc", func(n *int, log func(string)) bool { *n++; log(fmt.Sprint("inc", *n)); return true }},
	{"fl", func(n *int, log func(string)) bool {
		log("a(f)")
		*n++
		log(fmt.Sprint("inc", *n))
		return true
	}},
	{"two", func(n *int, log func(string)) bool {
		*n++
		log(fmt.Sprint("two", *n))
		return *n != 2
	}},
	{"sub.a", func(n *int, log func(string)) bool { log("sub.a"); return true }},
	{"sb9.A", func(n *int, log func(string)) bool { log("sub.a"); return true }},
	{"nothing.like.this", nil},
	{"", nil},
	{"repeat inc 2", func(n *int, log func(string)) bool {
		*n += 2
		log(fmt.Sprint("inc", *n-1))
		log(fmt.Sprint("inc", *n))
		return true
	}},
}

var times = []struct {
	text string
	n    int
}{{"", 1}, {"1", 1}, {"2", 2}, {"3", 3}, {"7", 7}, {"0", -1}, {"-1", -1}, {"x", -1}, {"1.5", -1}}

// ---- selftest: the tree

var paths = []string{"t1", "t1.sub", "t2", "t2.x.deep", "t3"}

// what a command can be: tags and source
var kinds = []struct {
	tags []string
	src  string
}{
	{nil, "repo-a"},
	{[]string{"selftest"}, "repo-a"},
	{[]string{"selftest"}, "repo-b"},
	{[]string{"other", "selftest"}, "repo-ab"},
	{[]string{"selftest-not"}, "repo-a"},
	{[]string{"other"}, "repo-b"},
}

func gen(tier string, emit func(string)) {
	thorough := tier == "thorough"
	for b := range bodies {
		for n := range times {
			for form := 0; form < 4; form++ {
				for pos := 0; pos < 5; pos++ {
					emit(J(kase{Kind: "repeat", Cmd: b, N: n, Form: form, Pos: pos}))
				}
			}
		}
	}
	sel := [][3]string{{"", "", ""}, {"repo-a", "", ""}, {"repo-b", "", ""}, {"", "repo-b", ""}, {"repo", "repo-ab", ""}, {"", "", "other"}, {"none", "", ""}, {"", "repo", ""}, {"repo-b", "", "other"}, {"", "", "self"}, {"", "", "none"}}
	emit(J(kase{Kind: "selftest-exit", T: []int{1, 1}, Par: "true", Fail: 1}))
	n := 4
	if thorough {
		n = 5
	}
	Seqs(len(kinds), n, n, func(s []int) {
		t := append([]int{}, s...)
		for i, x := range sel {
			if !thorough && i > 2 && (s[0]+s[1]+s[2]+s[3])%3 != 0 {
				continue
			}
			emit(J(kase{Kind: "selftest", T: t, Src: x[0], Filt: x[1], Tag: x[2]}))
		}
		if s[0] != 1 {
			return
		}
		for _, par := range []string{"", "true"} {
			for f := 1; f <= n; f++ {
				emit(J(kase{Kind: "selftest", T: t, Par: par, Fail: f}))
			}
		}
		emit(J(kase{Kind: "selftest", T: t, Par: "on", Pos: 1}))
		emit(J(kase{Kind: "selftest", T: t, Par: "true", Src: "repo-a"}))
	})
}

func exec(key string) Out {
	var k kase
	U(key, &k)
	if k.Kind == "repeat" {
		return repeat(k)
	}
	return selftest(k)
}

func newEng(dir string) *eng.Eng {
	e := eng.New(dir)
	inc := func(name string, bad int) eng.Fn {
		return func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
			n := env.GetInt("n") + 1
			env.GetLayer(model.EnvLayerSession).SetInt("n", n)
			e.Log("%s%d", name, n)
			return idx, n != bad
		}
	}
	e.Env.GetLayer(model.EnvLayerSession).SetInt("n", 0)
	e.Power("a", func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
		q := ""
		if env.GetRaw("q") != "" {
			q = "q"
		}
		e.Log("a(%s)%s", argv.GetRaw("p"), q)
		return idx, true
	}).AddArg("p", "d")
	e.Power("inc", inc("inc", 0))
	e.Power("two", inc("two", 2))
	e.Mark("sub.a")
	e.Node("sub").AddAbbrs("sb9")
	e.Node("sub.a").AddAbbrs("A")
	e.Mark("z")
	e.Mark("y")
	e.Flow("fl", "a f : inc")
	return e
}

func repeat(k kase) Out {
	b, t := bodies[k.Cmd], times[k.N]
	dir, drop := eng.Scratch()
	defer drop()
	e := newEng(dir)
	var w []string
	switch k.Form {
	case 0:
		w = []string{"repeat", "cmd=" + b.text}
		if t.text != "" {
			w = append(w, "times="+t.text)
		}
	case 1:
		w = []string{"repeat", b.text}
		if t.text != "" {
			w = append(w, t.text)
		}
		if b.text == "" {
			w = []string{"repeat"}
		}
		if strings.Contains(b.text, "=") {
			return Out{Trivial: true}
		}
	case 2:
		if t.text == "" {
			return Out{Trivial: true}
		}
		w = []string{"rpt", "t=" + t.text, "cmd=" + b.text}
	case 3:
		// the arguments come in braces
		if t.text == "" || strings.Contains(b.text, "{") {
			return Out{Trivial: true}
		}
		w = []string{"repeat", "{", "cmd=" + b.text, "times=" + t.text, "}"}
	}
	if k.Form != 1 && b.text == "" || strings.Contains(b.text, "{") && k.Form > 0 {
		return Out{Trivial: true}
	}
	line := w
	var want []string
	ok := true
	n := 0
	log := func(s string) { want = append(want, s) }
	bad := b.do == nil || t.n < 0
	rounds := func() {
		if bad {
			ok = false
			return
		}
		for i := 0; i < t.n && ok; i++ {
			ok = b.do(&n, log)
		}
	}
	switch k.Pos {
	case 0:
		rounds()
	case 1:
		line = append([]string{"y", ":"}, line...)
		log("y")
		rounds()
	case 2:
		line = append(append([]string{}, line...), ":", "z")
		if rounds(); ok {
			log("z")
		}
	case 3:
		line = append(append([]string{"inc", ":"}, line...), ":", "inc")
		n++
		log("inc1")
		if rounds(); ok {
			n++
			log(fmt.Sprint("inc", n))
		}
	case 4:
		// inside a flow
		if strings.ContainsAny(b.text, " {") || b.text == "" || t.text == "" {
			return Out{Trivial: true}
		}
		e.Flow("outer", "y : "+strings.Join(w, " ")+" : z")
		line = []string{"outer", ":", "y"}
		log("y")
		if rounds(); ok {
			log("z")
			log("y")
		}
	}
	desc := fmt.Sprintf("line %q", line)
	r := e.Run(line...)
	got := e.Trace()
	if bad && len(got) == 0 {
		want = nil // (refusing the whole line is as good as failing at it)
	}
	if r.OK != ok || !Eq(got, want) {
		return Bad("%s: must run %q and end with %v, ran %q and ended with %v %v\n%s", desc, want, ok, got, r.OK, r.Panic, tail(e.Screen.Text()))
	}
	return Out{Outcome: fmt.Sprintf("%v %d", ok, len(got)), States: want, Steps: len(got) + 1, Trans: []string{desc}}
}

func tail(s string) string {
	if len(s) > 600 {
		s = s[len(s)-600:]
	}
	return s
}

// ---- selftest

func selftest(k kase) Out {
	dir, drop := eng.Scratch()
	defer drop()
	e := eng.New(dir)
	var mu sync.Mutex
	var seen []string
	tag := k.Tag
	if tag == "" {
		tag = "selftest"
	}
	var want []string
	failed := false
	for i, kind := range k.T {
		i, p, kd := i, paths[i], kinds[kind]
		e.Power(p, func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
			if k.Par != "" && k.Pos == 1 {
				time.Sleep(15 * time.Millisecond)
			}
			mu.Lock()
			seen = append(seen, p+env.GetRaw("left"))
			mu.Unlock()
			env.GetLayer(model.EnvLayerSession).Set("left", "+"+p)
			return idx, k.Fail != i+1
		})
		e.Node(p).SetSource(kd.src)
		e.Node(p).AddTags(kd.tags...)
	}
	var chosen []int
	for i, kind := range k.T {
		kd := kinds[kind]
		has := false
		for _, t := range kd.tags {
			has = has || t == tag
		}
		if has && strings.Contains(kd.src, k.Src) && (k.Filt == "" || !strings.Contains(kd.src, k.Filt)) {
			chosen = append(chosen, i)
		}
	}
	for _, i := range chosen {
		if failed && k.Par == "" {
			break
		}
		want = append(want, paths[i])
		if k.Fail == i+1 {
			failed = true
		}
	}
	args := []string{"selftest"}
	for _, x := range [][2]string{{"match-source", k.Src}, {"filter-source", k.Filt}, {"tag", k.Tag}, {"parallel", k.Par}} {
		if x[1] != "" {
			args = append(args, x[0]+"="+x[1])
		}
	}
	if k.Pos == 1 {
		e.Power("z", func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
			mu.Lock()
			seen = append(seen, "z")
			mu.Unlock()
			return idx, true
		})
		args = append(args, ":", "z")
	}
	desc := fmt.Sprintf("line %q, commands:", args)
	for i, kind := range k.T {
		desc += fmt.Sprintf(" %s%v@%s", paths[i], kinds[kind].tags, kinds[kind].src)
	}
	if k.Fail > 0 {
		desc += " " + paths[k.Fail-1] + " fails"
	}
	r := e.Run(args...)
	mu.Lock()
	got := append([]string{}, seen...)
	mu.Unlock()
	if k.Pos == 1 {
		if n := len(got) - 1; n < 0 || got[n] != "z" {
			return Bad("%s: z must run after all the tests, ran %q", desc, got)
		}
		got = got[:len(got)-1]
	}
	if k.Par != "" {
		sort.Strings(got)
		sort.Strings(want)
		if failed && isSubset(got, want) && len(got) > 0 {
			want = got // (a failure may end the run before the others begin)
		}
	}
	if k.Par != "" && failed && k.Kind != "selftest-exit" && r.OK && strings.Contains(e.Screen.Text()+e.Screen.Err(), "fail") {
		// the failure of a command which ran in the background is shown at
		// waiting for it (the result of the run: the case selftest-exit)
		r.OK = false
	}
	if r.OK == failed || !Eq(got, want) {
		return Bad("%s: must run %q (each without what the others left) and end with %v, ran %q and ended with %v %v\n%s", desc, want, !failed, got, r.OK, r.Panic, tail(e.Screen.Text()))
	}
	return Out{Outcome: fmt.Sprintf("%v %d", failed, len(got)), States: []string{strings.Join(got, " ")}, Steps: len(got) + 1}
}

func isSubset(a, b []string) bool {
	m := map[string]bool{}
	for _, x := range b {
		m[x] = true
	}
	for _, x := range a {
		if !m[x] {
			return false
		}
	}
	return true
}

func main() {
	Main(Spec{ID: "P42", Level: "model_checking", CaseSec: 30, QuickSec: 200,
		Rule: "repeat: 11 commands (arguments, flows, failing in a round, nested, unknown) x 9 numbers of times x 4 ways to give the arguments x 5 places; selftest: every tree of 4 (thorough 5) commands each of 6 kinds of tags and source x the ways to choose by source, by exclusion and by tag, one after another and at the same time, each command failing",
		Gen:  gen, Exec: exec})
}
