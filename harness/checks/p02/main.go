// P02: a command path reaches exactly the command its names or abbrs spell.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"

	"verif/eng"
	. "verif/vlib"
)

type node struct {
	path  string   // dotted real names
	abbrs []string // of the last segment
	exec  bool
	arg   string // "" = no args
}

// Small trees: same names and abbrs reused on several levels and branches.
var trees = [][]node{
	{{"qa", []string{"xq"}, true, ""}, {"qb", nil, true, ""}, {"qa.qc", []string{"xq"}, true, ""}, {"qb.qa", []string{"zq", "yq"}, true, ""}},
	{{"qa", []string{"xq", "qb-x"}, false, ""}, {"qa.qb", []string{"xq"}, false, ""}, {"qa.qb.qa", []string{"yq"}, true, ""}, {"qc", []string{"yq"}, true, "w"}},
	{{"qa.qb", nil, true, "w"}, {"qa.qb.qc", []string{"yq"}, true, "w"}, {"qb.qb", []string{"xq"}, true, ""}, {"qa.qa", []string{"xq"}, false, ""}},
	{{"xq", []string{"qa"}, true, ""}, {"xq.qa", []string{"xq"}, true, "w"}, {"xq.qa.xq", []string{"qa"}, true, ""}, {"qb", []string{"qc"}, true, ""}},
}

var segs = []string{"qa", "qb", "qc", "xq", "yq", "zq", "q", "QA"}
var seps = []string{".", " .", ". ", " . ", "..", " "}
var envs = []string{"", "{k=v}", " {k=v} ", "{ k = v }", "{w=v}", " { k=v l=u } "}

type kase struct {
	T int      // tree
	S []string // segments
	P []string // separators between segments
	E []string // env text before seg 0, then after each segment
}

func gen(tier string, emit func(string)) {
	max, deep := 3, 3
	if tier == "thorough" {
		deep = 4
	}
	for t := range trees {
		for n := 1; n <= deep; n++ {
			nsegs := segs
			if n >= 3 {
				nsegs = segs[:5]
			}
			Seqs(len(nsegs), n, n, func(si []int) {
				ss := append([]string{}, Strs(nsegs, si)...)
				ksep := len(seps)
				if n == 4 {
					ksep = 3
				}
				Seqs(ksep, n-1, n-1, func(pi []int) {
					ps := append([]string{}, Strs(seps, pi)...)
					// no env
					base := make([]string, n+1)
					emit(J(kase{t, ss, ps, base}))
					if n > max {
						// one env placement, one form
						for at := 0; at <= n; at++ {
							b := make([]string, n+1)
							b[at] = "{k=v}"
							emit(J(kase{t, ss, ps, b}))
						}
						return
					}
					for at := 0; at <= n; at++ {
						for f := 1; f < len(envs); f++ {
							b := make([]string, n+1)
							b[at] = envs[f]
							emit(J(kase{t, ss, ps, b}))
							for at2 := at + 1; at2 <= n; at2++ {
								c := append([]string{}, b...)
								c[at2] = "{m=o}"
								emit(J(kase{t, ss, ps, c}))
							}
						}
					}
					if n == 2 {
						// an env segment alone separates two path segments
						for _, ev := range []string{"{k=v}", " {k=v} ", "{k=v} "} {
							emit(J(kase{t, ss, []string{""}, []string{"", ev, ""}}))
						}
					}
				})
			})
		}
	}
}

type mnode struct {
	name string
	exec bool
	arg  string
	subs map[string]*mnode
	by   map[string]*mnode
}

func newM(name string) *mnode {
	return &mnode{name, false, "", map[string]*mnode{}, map[string]*mnode{}}
}

func buildModel(t []node) *mnode {
	root := newM("")
	for _, n := range t {
		cur := root
		for _, s := range strings.Split(n.path, ".") {
			nx := cur.subs[s]
			if nx == nil {
				nx = newM(s)
				cur.subs[s] = nx
				cur.by[s] = nx
			}
			cur = nx
		}
		cur.exec, cur.arg = n.exec, n.arg
	}
	for _, n := range t {
		cur, parent := root, root
		for _, s := range strings.Split(n.path, ".") {
			parent, cur = cur, cur.subs[s]
		}
		for _, a := range n.abbrs {
			parent.by[a] = cur
		}
	}
	return root
}

func envPairs(text string) (ks, vs []string) {
	t := strings.NewReplacer("{", "", "}", "", " = ", "=").Replace(text)
	for _, f := range strings.Fields(t) {
		kv := strings.SplitN(f, "=", 2)
		ks = append(ks, kv[0])
		vs = append(vs, kv[1])
	}
	return
}

func expect(k kase) (path string, env map[string]string, bad bool, states, trans []string) {
	root := buildModel(trees[k.T])
	cur := root
	env = map[string]string{}
	var names []string
	st := fmt.Sprintf("t%d:", k.T)
	to := func(on string) {
		n := fmt.Sprintf("t%d:%s|%d", k.T, strings.Join(names, "."), len(env))
		trans = append(trans, st+"--"+on+">"+n)
		states = append(states, n)
		st = n
	}
	applyEnv := func(text string) bool {
		ks, vs := envPairs(text)
		for i := range ks {
			if cur.exec && ks[i] != cur.arg {
				return false
			}
			env[strings.Join(append(append([]string{}, names...), ks[i]), ".")] = vs[i]
		}
		return true
	}
	if k.E[0] != "" {
		applyEnv(k.E[0])
		to("env")
	}
	for i, s := range k.S {
		nx := cur.by[s]
		if i > 0 && k.P[i-1] == " " && strings.TrimSpace(k.E[i]) == "" {
			// a blank is no path separator: the rest are arguments
			for _, e := range k.E[i+1:] {
				if e != "" {
					return "", nil, false, nil, nil // words mixed with settings: lenient, not part of this property
				}
			}
			if cur.arg == "" {
				return "", nil, true, states, trans
			}
			return "", nil, false, nil, nil // positional argument: P03's business
		}
		if nx == nil {
			return "", nil, true, states, trans
		}
		cur = nx
		names = append(names, nx.name)
		to("seg")
		if k.E[i+1] != "" {
			if !applyEnv(k.E[i+1]) {
				return "", nil, true, states, trans
			}
			to("env")
		}
	}
	return strings.Join(names, "."), env, false, states, trans
}

var engines = map[int]*eng.Eng{}

func engine(t int) *eng.Eng {
	if e, ok := engines[t]; ok {
		return e
	}
	e := eng.New("")
	for _, n := range trees[t] {
		nd := e.Node(n.path)
		if n.exec {
			c := e.Mark(n.path)
			if n.arg != "" {
				c.AddArg(n.arg, "")
			}
		}
		_ = nd
	}
	for _, n := range trees[t] {
		if len(n.abbrs) > 0 {
			e.Node(n.path).AddAbbrs(n.abbrs...)
		}
	}
	engines[t] = e
	return e
}

func exec(key string) Out {
	var k kase
	U(key, &k)
	text := k.E[0]
	for i, s := range k.S {
		if i > 0 {
			text += k.P[i-1]
		}
		text += s + k.E[i+1]
	}
	path, env, bad, st, tr := expect(k)
	if path == "" && !bad {
		return Out{Outcome: "args", Trivial: true}
	}
	// given both as one word and as separate words
	for variant, argv := range [][]string{strings.Fields(text), {strings.TrimSpace(text)}} {
		if variant == 1 && strings.Contains(text, " ") && !strings.Contains(text, "{") {
			// one quoted word with blanks around dots is allowed too
		}
		if variant == 1 && (strings.Contains(text, "} ") || strings.Contains(text, " {") || strings.Contains(text, "v l")) {
			continue // several settings inside one quoted word are not part of this property
		}
		if variant == 1 {
			skip := false
			for _, p := range k.P {
				if p == " " {
					skip = true
				}
			}
			if skip {
				continue
			}
		}
		e := engine(k.T)
		flow := eng.Parse(e, append([]string{":"}, argv...)...)
		if len(flow.Cmds) != 2 {
			return Bad("input %q parsed to %d commands", argv, len(flow.Cmds))
		}
		c := flow.Cmds[1]
		gotPath := strings.Join(c.Path(), ".")
		perr := c.ParseResult.Error
		if bad {
			if perr == nil {
				return Bad("input %q: expected an error, resolved to %q", argv, gotPath)
			}
			continue
		}
		if perr != nil {
			return Bad("input %q: expected command %q, got error: %v", argv, path, perr)
		}
		if gotPath != path || strings.Join(c.LastCmdNode().Path(), ".") != path {
			return Bad("input %q: expected command %q, got %q / %q", argv, path, gotPath, c.LastCmdNode().Path())
		}
		got := map[string]string{}
		for _, seg := range c.Segments {
			for kk, v := range seg.Env {
				got[kk] = v.Val
			}
		}
		if show(got) != show(env) {
			return Bad("input %q: settings %s, expected %s", argv, show(got), show(env))
		}
	}
	return Out{Outcome: fmt.Sprintf("%v %s %s", bad, path, show(env)), States: st, Trans: tr, Steps: len(k.S)}
}

func show(m map[string]string) string {
	var ks []string
	for k, v := range m {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

var _ = model.EnvLayerCmd

func main() {
	Main(Spec{ID: "P02", Level: "model_checking",
		Rule: "every spelling (names, abbreviations, unknown segments; separators with blanks; inline settings at every place) of every path up to 3 segments over 4 command trees; non-trivial unless the words are positional arguments",
		Gen:  gen, Exec: exec})
}
