// P13: argument-to-env and value-to-env mappings apply exactly as declared.
package main

import (
	"fmt"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"

	"verif/eng"
	. "verif/vlib"
)

var keys = []string{"ka", "kb", "kv", "kw", "c", "a", "b"}

// item: words of one command (no braces), and what it means
type item struct {
	words []string
	cmd   string
	args  map[string]string // given
	set   [2]string
	rm    string
}

func it(cmd string, args map[string]string, words ...string) item {
	return item{words: append([]string{cmd}, words...), cmd: cmd, args: args}
}

type m = map[string]string

var items = []item{
	it("ob", nil),
	it("m1", nil),
	it("m1", m{"a": "x"}, "x"),
	it("m1", m{"a": "x", "b": "y"}, "x", "y"),
	it("m1", m{"a": "x", "b": "y", "c": "z"}, "x", "y", "z"),
	it("m1", m{"b": "y"}, "b=y"),
	it("m1", m{"b": "w"}, "B=w"),
	it("m1", m{"b": "db"}, "b=db"),
	it("m1", m{"c": "z"}, "c=z"),
	it("m1", m{"a": "p q"}, "p q"),
	it("m1", m{"a": "n", "c": "z"}, "c=z", "a=n"),
	it("m2", m{"z": "2"}, "2"),
	it("m2", nil),
	it("v1", nil),
	it("v1", m{"a": "q"}, "q"),
	it("mv", m{"a": "r"}, "a=r"),
	it("fm", nil),
	it("fm", m{"a": "f"}, "f"),
	it("fm", m{"a": "f", "b": "g"}, "f", "g"),
	it("fv", nil),
	it("ft", m{"a": "t"}, "t"),
	it("fn", m{"b": "u"}, "b=u"),
	it("vs", m{"a": "s"}, "s"),
	it("vs", nil),
	it("vb", m{"a": "q"}, "q"),
	{words: []string{"setka"}, cmd: "setka", set: [2]string{"ka", "S"}},
	{words: []string{"setkb"}, cmd: "setkb", set: [2]string{"kb", "S"}},
	{words: []string{"env.rm", "ka"}, cmd: "env.rm", rm: "ka"},
	{words: []string{"env.rm", "kb"}, cmd: "env.rm", rm: "kb"},
	// the same keys for arguments and values
	it("mk", nil),
	it("mk", m{"a": "x"}, "x"),
	it("mk", m{"a": "x", "b": "y"}, "x", "y"),
	// no value, but there
	{words: []string{"clrkb"}, cmd: "clrkb", set: [2]string{"kb", ""}},
}

type decl struct {
	args   []string // name=default|abbr
	arg    [][2]string
	val    [][2]string
	flow   []string // body, each a command line
	script bool
}

var decls = map[string]decl{
	"ob": {},
	"m1": {args: []string{"a=", "b=db|B", "c="}, arg: [][2]string{{"ka", "a"}, {"kb", "b"}}},
	"m2": {args: []string{"z="}, arg: [][2]string{{"ka", "z"}}},
	"v1": {args: []string{"a=d"}, val: [][2]string{{"kv", "fix"}, {"kw", "x[[a]]y"}}},
	"vb": {args: []string{"a=d"}, val: [][2]string{{"kv", "  b [[a]]  "}, {"kw", " l2 "}}},
	"mk": {args: []string{"a=", "b=mb"}, arg: [][2]string{{"ka", "a"}, {"kb", "b"}}, val: [][2]string{{"kb", "val b"}, {"ka", "val a"}}},
	"mv": {args: []string{"a=", "b=bb"}, arg: [][2]string{{"kb", "b"}, {"ka", "a"}}, val: [][2]string{{"kv", "m v"}}},
	"fm": {args: []string{"a=fa", "b="}, arg: [][2]string{{"ka", "a"}, {"kb", "b"}}, flow: []string{"ob", "m2 i", "ob"}},
	"fv": {val: [][2]string{{"kv", "flow"}}, flow: []string{"ob", "m1 b=fb", "v1 fq"}},
	"ft": {args: []string{"a="}, arg: [][2]string{{"kb", "a"}}, flow: []string{"m1 [[kb]]", "ob"}},
	"fn": {args: []string{"a=na", "b="}, arg: [][2]string{{"kb", "b"}, {"ka", "a"}}, flow: []string{"ob"}, script: true},
	"vs": {args: []string{"a=", "b=vb"}, arg: [][2]string{{"ka", "a"}, {"kb", "b"}}, val: [][2]string{{"kv", "script"}}, script: true},
}

type kase struct {
	S   []int
	Pre string // preset keys
	Tok int
}

func gen(tier string, emit func(string)) {
	hi := 2
	if tier == "thorough" {
		hi = 3
	}
	pres := []string{"", "ka", "kb", "ka kb kv"}
	Seqs(len(items), 1, hi, func(s []int) {
		for i, p := range pres {
			if len(s) == 3 && i > 1 {
				continue
			}
			emit(J(kase{append([]int{}, s...), p, 0}))
		}
	})
	// triples that end with an observer and have no trivial part
	if tier != "thorough" {
		Seqs(len(items)-1, 2, 2, func(s []int) {
			for _, mid := range []int{1, 11, 12, 16, 24, 26} {
				if s[0] == mid {
					continue
				}
				emit(J(kase{[]int{mid, s[0] + 1, s[1] + 1}, "", 0}))
			}
		})
	}
}

type ref struct {
	env map[string]string
	log []string
}

func (r *ref) view() string {
	var s []string
	for _, k := range keys {
		if v, ok := r.env[k]; ok {
			s = append(s, k+"="+v)
		}
	}
	return strings.Join(s, ";")
}

func (r *ref) call(cmd string, given map[string]string) {
	d := decls[cmd]
	argv := map[string]string{}
	var names []string
	for _, a := range d.args {
		n, def, _ := strings.Cut(a, "=")
		def, _, _ = strings.Cut(def, "|")
		names = append(names, n)
		argv[n] = def
		if v, ok := given[n]; ok {
			argv[n] = v
		}
	}
	for _, v := range d.val {
		r.env[v[0]] = strings.ReplaceAll(v[1], "[[a]]", argv["a"])
	}
	for _, a := range d.arg {
		v, ok := given[a[1]]
		if ok {
			r.env[a[0]] = v
		} else if _, has := r.env[a[0]]; !has && argv[a[1]] != "" {
			r.env[a[0]] = argv[a[1]]
		}
	}
	for _, b := range d.flow {
		w := strings.Fields(b)
		for i := range w {
			if w[i] == "[[kb]]" {
				w[i] = r.env["kb"]
			}
		}
		g := map[string]string{}
		sub := decls[w[0]]
		for i, x := range w[1:] {
			if n, v, ok := strings.Cut(x, "="); ok {
				g[n] = v
			} else {
				n, _, _ := strings.Cut(sub.args[i], "=")
				g[n] = x
			}
		}
		r.call(w[0], g)
	}
	if len(d.flow) > 0 && !d.script {
		return
	}
	var a []string
	for _, n := range names {
		a = append(a, n+"="+argv[n])
	}
	r.log = append(r.log, cmd+"("+strings.Join(a, ",")+") "+r.view())
}

func exec(key string) Out {
	var k kase
	U(key, &k)
	dir, drop := eng.Scratch()
	defer drop()
	e := eng.New(dir)
	pat := strings.Join(keys, "|")
	for _, name := range []string{"ob", "m1", "m2", "v1", "mv", "fm", "fv", "ft", "fn", "vs", "vb", "mk"} {
		name, d := name, decls[name]
		var c *model.Cmd
		var names []string
		for _, a := range d.args {
			n, _, _ := strings.Cut(a, "=")
			names = append(names, n)
		}
		body := "dir=\"$1\"; shift; n=(" + strings.Join(names, " ") + "); i=0; a=''; for x in \"$@\"; do [ $i -gt 0 ] && a=\"$a,\"; a=\"$a${n[$i]}=$x\"; i=$((i+1)); done; " +
			"v=''; for key in " + strings.ReplaceAll(pat, "|", " ") + "; do l=$(grep \"^$key=\" \"$dir/env\"); [ -n \"$l\" ] && { [ -n \"$v\" ] && v=\"$v;\"; v=\"$v$l\"; }; done; echo \"" + name + "($a) $v\" >> $TRACE"
		switch {
		case d.script && len(d.flow) > 0:
			c = e.FileNFlow(name, body, strings.Join(d.flow, " : "))
		case d.script:
			c = e.File(name, body)
		case len(d.flow) > 0:
			c = e.Flow(name, strings.Join(d.flow, " : "))
		default:
			c = e.Power(name, func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
				var a, s []string
				for _, n := range names {
					a = append(a, n+"="+argv.GetRaw(n))
				}
				for _, x := range keys {
					if v, ok := env.GetEx(x); ok {
						s = append(s, x+"="+v.Raw)
					}
				}
				e.FLog("%s(%s) %s", name, strings.Join(a, ","), strings.Join(s, ";"))
				return idx, true
			})
		}
		for _, a := range d.args {
			n, def, _ := strings.Cut(a, "=")
			def, ab, has := strings.Cut(def, "|")
			if has {
				c.AddArg(n, def, ab)
			} else {
				c.AddArg(n, def)
			}
		}
		for _, x := range d.arg {
			c.AddArg2Env(x[0], x[1])
		}
		for _, x := range d.val {
			c.AddVal2Env(x[0], x[1])
		}
	}
	for _, x := range []string{"ka", "kb"} {
		x := x
		e.Power("set"+x, func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
			env.GetLayer(model.EnvLayerSession).Set(x, "S")
			return idx, true
		})
	}
	e.Power("clrkb", func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
		env.GetLayer(model.EnvLayerSession).Set("kb", "")
		return idx, true
	})
	r := &ref{env: map[string]string{}}
	for _, p := range strings.Fields(k.Pre) {
		r.env[p] = "pre-" + p
		e.Env.Set(p, "pre-"+p)
	}
	var w []string
	for i, id := range k.S {
		x := items[id]
		if i > 0 {
			w = append(w, ":")
		}
		w = append(w, x.words...)
		switch {
		case x.set[0] != "":
			r.env[x.set[0]] = x.set[1]
		case x.rm != "":
			delete(r.env, x.rm)
		default:
			r.call(x.cmd, x.args)
		}
	}
	w = append(w, ":", "ob")
	r.call("ob", nil)
	res := e.Run(w...)
	got := e.FTrace()
	desc := fmt.Sprintf("line %q, preset %q", w, k.Pre)
	if !res.OK {
		return Bad("%s: run failed: %v; ran %v; shown %s", desc, res.Panic, got, e.Screen.Text())
	}
	if !Eq(got, r.log) {
		return Bad("%s: commands must see\n  %s\nbut saw\n  %s", desc, strings.Join(r.log, "\n  "), strings.Join(got, "\n  "))
	}
	return Out{Outcome: strings.Join(got, "|"), States: r.log, Trans: []string{fmt.Sprint(k.S)}, Steps: len(got), Trivial: len(k.S) == 1 && k.S[0] == 0}
}

func main() {
	Main(Spec{ID: "P13", Level: "model_checking", CaseSec: 15,
		Rule: "every sequence of up to 2 (thorough 3) of 32 command forms with mapped and unmapped arguments given positionally, by name and abbreviation or not given, value mappings with and without templates, on function commands, scripts, flows and flows with a script, between direct writes and removals, for 4 presets; the arguments and all keys every command sees compared with a reference",
		Gen:  gen, Exec: exec})
}
