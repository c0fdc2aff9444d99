// P14: flow and value templates expand exactly from arguments and environment.
package main

import (
	"fmt"
	"strings"
	"sync"

	"github.com/innerr/ticat/pkg/core/model"

	"verif/eng"
	. "verif/vlib"
)

var toks = []string{"[[a]]", "[[k]]", "[[q]]", "[[", "]]", "[", "]", "x", " ", "[[k", "#", "**"}

// value worlds: environment and arguments
type world struct {
	env, arg map[string]string
}

type m = map[string]string

var worlds = []world{
	{m{"k": "K"}, m{"a": "A"}},
	{m{"k": "K", "a": "E"}, m{"a": "A", "k": "B"}},
	{m{"k": ""}, m{"a": ""}},
	{m{"k": "<[[a]]>"}, m{"a": "A"}},
	{m{"k": "[[k]]"}, m{"a": "A"}},
	{m{"k": "[[a]][[j]]", "j": "-[[k]]"}, m{"a": "A"}},
	{m{"k": "[[a]][[a]]"}, m{"a": "A"}},
	{m{"k": "1[[q]]"}, m{"a": "A"}},
	{m{"k": "a, b"}, m{"a": "[x]"}},
	{m{"k": "q]"}, m{"a": "["}},
}

type kase struct {
	Kind  string
	S     []int
	W     int
	P     []int
	Allow bool
}

var mPre = []string{"", "x : ", "p [[k]] : ", "x"}
var mHead = []string{"c ", "h[[k]] ", " c.", ""}
var mTail = []string{"", " t", " [[k]] : ", "x"}
var mPost = []string{"", " : z", "[[k]]", "z", " z "}
var mVals = []string{"1", "1,2", "", " 1 , 2 ,3", "1,,2", ",", "a b,c", "*", "[[k]],y"}

// end to end: flow body lines
var bodies = []string{
	"ob [[a]] : ob 2",
	"ob x[[k]]y : ob [[a]]",
	"[[c]] 1 : ob 3",
	"ob 1 : [[c]] [[a]]",
	"{z=[[k]]} : ob [[z0]]",
	"ob 1 : ob [[q]]",
	"ob 1 : nest [[a]]",
	"ob 1 : nestq",
	"ob 1 :|**ob [[*l*]] :**|ob 3",
	"ob 1 :|**ob [[*q*]] :**|ob 3",
	"# [[q]]|ob 1 : ob [[k]]",
	"ob [[self]]",
	"ob 1 : ob [[m1]]",
	"ob [[m2]] : ob [[m1]]",
	"ob 1 : {z=[[k]]} ob 5",
	"ob n=[[a]]",
}

func gen(tier string, emit func(string)) {
	cp := func(x []int) []int { return append([]int{}, x...) }
	thorough := tier == "thorough"
	n, top := 5, len(toks)
	if thorough {
		n = 6
	}
	for w := range worlds {
		Seqs(top, 1, n, func(s []int) {
			if len(s) == n && w > 5 && !thorough {
				return
			}
			// blocks: the last token is enumerated inside the case
			if s[len(s)-1] != 0 {
				return
			}
			emit(J(kase{Kind: "T", S: cp(s[:len(s)-1]), W: w}))
		})
	}
	Prod([]int{len(mPre), len(mHead), len(mTail), len(mPost), len(mVals), 3}, func(p []int) {
		emit(J(kase{Kind: "M", P: cp(p)}))
	})
	for b := range bodies {
		for given := 0; given < 4; given++ {
			for pos := 0; pos < 3; pos++ {
				for script := 0; script < 2; script++ {
					emit(J(kase{Kind: "F", P: []int{b, given, pos, script}}))
				}
			}
		}
	}
	// value mappings
	Prod([]int{len(vals), 4}, func(p []int) { emit(J(kase{Kind: "V", P: cp(p)})) })
}

var vals = []string{"f", "[[a]]", "x[[a]]y", "[[k]]", "[[a]][[k]]", "[[q]]", "<[[a]]", "[[self]]", "[ [a]]"}

// --- reference expander ---

// expand returns the text, or ok=false when some placeholder has no value or
// refers to itself.
func expand(s string, w world, in []string) (string, bool) {
	var b strings.Builder
	for {
		i := strings.Index(s, "[[")
		if i < 0 {
			break
		}
		j := strings.Index(s[i+2:], "]]")
		if j < 0 {
			break
		}
		key := s[i+2 : i+2+j]
		v, ok := w.env[key]
		if !ok {
			v = w.arg[key]
			if v == "" {
				return "", false
			}
		}
		for _, x := range in {
			if x == key {
				return "", false
			}
		}
		v, ok = expand(v, w, append(append([]string{}, in...), key))
		if !ok {
			return "", false
		}
		b.WriteString(s[:i] + v)
		s = s[i+2+j+2:]
	}
	return b.String() + s, true
}

// balanced: expanding values one by one equals expanding the text (no
// placeholder is put together from a value and the text around it).
func judged(s string, w world) bool {
	for _, e := range []m{w.env, w.arg} {
		for k, v := range e {
			if strings.Count(v, "[[") != strings.Count(v, "]]") || (strings.ContainsAny(v, "[]") && !strings.Contains(v, "[[")) {
				if strings.Contains(s, "[["+k+"]]") {
					return false
				}
			}
		}
	}
	return true
}

var once sync.Once
var ge *eng.Eng
var gcmd *model.Cmd

func unit() (*eng.Eng, *model.Cmd) {
	once.Do(func() {
		ge = eng.New("")
		gcmd = ge.Flow("vf", "nop")
		gcmd.AddArg("a", "").AddArg("k", "")
	})
	return ge, gcmd
}

func render(lines []string, w world, allow bool) (out []string, full bool, err interface{}) {
	e, c := unit()
	env := e.Env.NewLayer(model.EnvLayerCmd)
	for k, v := range w.env {
		env.Set(k, v)
	}
	argv := model.ArgVals{}
	for k, v := range w.arg {
		argv[k] = model.ArgVal{Raw: v, Provided: v != ""}
	}
	defer func() {
		if r := recover(); r != nil {
			err = r
		}
	}()
	out, full = model.RenderTemplateStrLines(lines, "flow", c, argv, env, allow)
	return
}

func execT(k kase) Out {
	w := worlds[k.W]
	o := Out{States: []string{fmt.Sprint(k.W)}}
	for last := range toks {
		s := strings.Join(Strs(toks, append(append([]int{}, k.S...), last)), "")
		got, full, err := render([]string{s}, w, false)
		o.Steps++
		desc := fmt.Sprintf("line %q with environment %v, arguments %v", s, w.env, w.arg)
		if strings.HasPrefix(strings.TrimSpace(s), "#") {
			if err != nil || len(got) != 0 {
				return Bad("%s is a comment, gives %q (%v)", desc, got, err)
			}
			continue
		}
		want, ok := expand(s, w, nil)
		if !judged(s, w) {
			continue // termination only
		}
		o.Trans = append(o.Trans, s)
		if !ok {
			if err == nil {
				return Bad("%s has a placeholder without a value, yet gives %q", desc, got)
			}
			got, full, err = render([]string{s}, w, true)
			if err != nil || full {
				return Bad("%s has a placeholder without a value; lenient rendering gives %q full=%v (%v)", desc, got, full, err)
			}
			o.Outcome += "!"
			continue
		}
		if err != nil || !full || !Eq(got, []string{want}) {
			return Bad("%s must give %q, gives %q full=%v (%v)", desc, want, got, full, err)
		}
		o.Outcome += want + "|"
	}
	return o
}

func execM(k kase) Out {
	p := k.P
	pre, head, tail, post, vs := mPre[p[0]], mHead[p[1]], mTail[p[2]], mPost[p[3]], mVals[p[4]]
	w := world{m{"k": "K"}, m{}}
	where := []string{"environment", "argument", "nowhere"}[p[5]]
	switch where {
	case "environment":
		w.env["l"] = vs
	case "argument":
		w.arg["l"] = vs
	}
	line := pre + "**" + head + "[[*l*]]" + tail + "**" + post
	got, full, err := render([]string{line}, w, false)
	desc := fmt.Sprintf("line %q, list %q from %s", line, vs, where)
	if where == "nowhere" || where == "argument" && vs == "" {
		if err == nil {
			return Bad("%s has no value, yet gives %q", desc, got)
		}
		return Out{Outcome: "refused", Trans: []string{line}}
	}
	var want []string
	add := func(s string) {
		s, _ = expand(strings.TrimSpace(s), w, nil)
		if s != "" {
			want = append(want, s)
		}
	}
	if head == "" && vs != "" && false {
		return Out{Trivial: true}
	}
	add(pre)
	for _, v := range strings.Split(vs, ",") {
		add(head + strings.TrimSpace(v) + tail)
	}
	add(post)
	var g []string
	for _, x := range got {
		if x != "" {
			g = append(g, x)
		}
	}
	if err != nil || !full || !Eq(g, want) {
		return Bad("%s must give %q, gives %q full=%v (%v)", desc, want, got, full, err)
	}
	return Out{Outcome: strings.Join(g, "|"), Trans: []string{line}, States: []string{vs}, Steps: len(g)}
}

func execF(k kase) Out {
	body, given, pos, script := bodies[k.P[0]], k.P[1], k.P[2], k.P[3] == 1
	dir, drop := eng.Scratch()
	defer drop()
	e := eng.New(dir)
	ob := func(name string) {
		e.Power(name, func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
			e.FLog("%s %s %s", name, argv.GetRaw("n"), env.GetRaw("z"))
			return idx, true
		}).AddArg("n", "")
	}
	ob("ob")
	ob("oc")
	e.Flow("nest", "ob i[[b]]j : ob [[b]]").AddArg("b", "")
	e.Flow("nestq", "ob i : ob [[q]]")
	var c *model.Cmd
	if script {
		c = e.FileNFlow("vf", "echo script >> $TRACE", strings.Split(body, "|")...)
	} else {
		c = e.Flow("vf", strings.Split(body, "|")...)
	}
	c.AddArg("a", "").AddArg("c", "oc").AddArg("l", "7,8")
	c.AddMacro("m1", []string{"M-[[k]]"})
	c.AddMacro("m2", []string{"N-[[m1]]"})
	w := world{m{}, m{"c": "oc", "l": "7,8"}}
	set := func(k, v string) { e.Env.Set(k, v); w.env[k] = v }
	set("self", "x[[self]]")
	set("z0", "0")
	line := "vf"
	switch given {
	case 1:
		line, w.arg["a"] = "vf A1", "A1"
		set("k", "K1")
	case 2:
		line, w.arg["a"] = "vf a=A2", "A2"
		set("k", "K[[a]]")
		set("c", "ob")
	case 3:
		set("a", "EA")
		set("l", "9")
		set("m1", "not this") // a macro of the flow is meant, not the value
		set("k", "K3")
	}
	if v, ok := w.env["k"]; ok {
		if x, ok := expand(v, w, nil); ok {
			w.env["m1"] = "M-" + x
			w.env["m2"] = "N-M-" + x
		}
	}
	switch pos {
	case 1:
		line = "ob first : " + line + " : ob last"
	case 2:
		e.Flow("outer", "ob o1 : "+line+" : ob o2")
		line = "outer"
	}
	// reference
	var lines []string
	ok := true
	needMacro := w.env["k"] != ""
	for _, l := range strings.Split(body, "|") {
		if strings.HasPrefix(l, "#") {
			continue
		}
		if strings.Contains(l, "[[*") {
			key := l[strings.Index(l, "[[*")+3 : strings.Index(l, "*]]")]
			v, has := w.env[key]
			if !has {
				v, has = w.arg[key], w.arg[key] != ""
			}
			if !has {
				ok = false
				continue
			}
			for _, x := range strings.Split(v, ",") {
				lines = append(lines, "ob "+x+" :")
			}
			continue
		}
		x, good := expand(l, w, nil)
		ok = ok && good
		lines = append(lines, x)
	}
	if !needMacro {
		ok = false // the macro of f has a placeholder without a value
	}
	inner := ok && !strings.Contains(body, "nestq")
	res := e.Run(strings.Fields(line)...)
	got := e.FTrace()
	desc := fmt.Sprintf("%q, f=%q (script=%v), environment %v, arguments %v", line, body, script, w.env, w.arg)
	if !inner {
		if res.OK {
			return Bad("%s: a placeholder has no value, yet the run succeeds; ran %q", desc, got)
		}
		for _, g := range got {
			if !ok && !strings.HasPrefix(g, "ob first") && !strings.HasPrefix(g, "ob o1") || strings.HasPrefix(g, "ob i ") || g == "script" {
				return Bad("%s: a placeholder has no value, yet ran %q", desc, got)
			}
		}
		return Out{Outcome: "refused", Trans: []string{desc}, Steps: 1}
	}
	var want []string
	if pos == 1 {
		want = append(want, "ob first ")
	} else if pos == 2 {
		want = append(want, "ob o1 ")
	}
	z := ""
	all := strings.TrimSuffix(strings.TrimSpace(strings.Join(lines, " ")), ":")
	for _, cmd := range strings.Split(all, " : ") {
		cmd = strings.TrimSpace(cmd)
		if strings.HasPrefix(cmd, "{z=") && strings.HasSuffix(cmd, "}") {
			z = cmd[3 : len(cmd)-1]
			continue
		}
		f := strings.Fields(cmd)
		arg, zz := "", z
		if strings.HasPrefix(f[0], "{z=") {
			zz = f[0][3 : len(f[0])-1]
			f = f[1:]
		}
		for _, x := range f[1:] {
			if strings.HasPrefix(x, "{z=") {
				zz = x[3 : len(x)-1]
			} else {
				arg = strings.TrimPrefix(x, "n=")
			}
		}
		if f[0] == "nest" {
			want = append(want, "ob i"+arg+"j "+zz, "ob "+arg+" "+zz)
			continue
		}
		want = append(want, f[0]+" "+arg+" "+zz)
	}
	if script {
		want = append(want, "script")
	}
	if pos == 1 {
		want = append(want, "ob last ")
	} else if pos == 2 {
		want = append(want, "ob o2 ")
	}
	if !res.OK || !Eq(got, want) {
		return Bad("%s: must run %q, ran %q (success=%v %v)", desc, want, got, res.OK, res.Panic)
	}
	return Out{Outcome: strings.Join(got, "|"), Trans: []string{desc}, Steps: len(got)}
}

func execV(k kase) Out {
	val := vals[k.P[0]]
	e := eng.New("")
	e.Power("ob", func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
		e.Log("%s", env.GetRaw("kv"))
		return idx, true
	}).AddArg("a", "").AddVal2Env("kv", val)
	w := world{m{"self": "[[self]]"}, m{}}
	e.Env.Set("self", "[[self]]")
	line := "ob"
	switch k.P[1] {
	case 1:
		line, w.arg["a"] = "ob A", "A"
	case 2:
		line, w.arg["a"] = "ob A", "A"
		w.env["k"] = "K"
		e.Env.Set("k", "K")
	case 3:
		line, w.arg["a"] = "ob A", "A"
		w.env["k"] = "<[[a]]>"
		e.Env.Set("k", "<[[a]]>")
	}
	res := e.Run(strings.Fields(line)...)
	want, ok := expand(val, w, nil)
	if !ok {
		return Out{Trivial: true, Outcome: "no value (terminates)"}
	}
	if got := e.Trace(); !res.OK || !Eq(got, []string{want}) {
		return Bad("value mapping %q, environment %v, arguments %v: must give %q, gives %q (%v %v)", val, w.env, w.arg, want, got, res.OK, res.Panic)
	}
	return Out{Outcome: want, Trans: []string{val, line}, Steps: 1}
}

func exec(key string) Out {
	var k kase
	U(key, &k)
	switch k.Kind {
	case "T":
		return execT(k)
	case "M":
		return execM(k)
	case "V":
		return execV(k)
	}
	return execF(k)
}

func main() {
	Main(Spec{ID: "P14", Level: "model_checking", CaseSec: 15,
		Rule: "every text of up to 5 (thorough 6) of 12 tokens in 10 worlds of values (arguments shadowed by the environment, empty, nested, self-referring, with brackets) is expanded by the real renderer and by a reference; every multiplied line from 4x4x4x5 surroundings and 9 lists; 15 flow bodies run end to end in 3 positions with 4 worlds; placeholders put together from a value and its surroundings are checked for termination only",
		Gen:  gen, Exec: exec})
}
