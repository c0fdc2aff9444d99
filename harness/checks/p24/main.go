// P24: names and abbreviations never become ambiguous.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/ticat"

	"verif/eng"
	. "verif/vlib"
)

// --- operations on one level of names (T: command tree, E: env abbrs, A: arguments)

type op struct {
	kind  string // add, abbr, getadd, sub, reg
	name  string
	abbrs []string
}

var toks = []string{"p", "q", "x", "y"}

var abbrLists = [][]string{nil, {"x"}, {"y"}, {"p"}, {"x", "y"}, {"y", "q"}, {"x", ""}}

func ops(kind string) (r []op) {
	switch kind {
	case "T", "E":
		for _, n := range []string{"p", "q", "x"} {
			for _, a := range abbrLists {
				r = append(r, op{"add", n, a})
				if len(a) > 0 {
					r = append(r, op{"abbr", n, a})
				}
			}
		}
		for _, n := range toks {
			r = append(r, op{"getadd", n, nil})
			if kind == "T" {
				r = append(r, op{"reg", n, nil}, op{"sub", n, []string{"x"}})
			}
		}
	case "R":
		for _, n := range append(append([]string{}, execKinds...), emptyKinds...) {
			r = append(r, op{"reg-" + n, "p", nil})
		}
		for _, n := range []string{"arg", "val2env", "arg2env", "env-op", "depend"} {
			r = append(r, op{"with-" + n, "p", nil})
		}
	case "A":
		for _, n := range []string{"p", "q", "x"} {
			for _, a := range append([][]string{{"q"}, {"q", "p"}, {"x", "q", "y"}}, abbrLists...) {
				dup := false
				for _, t := range a {
					dup = dup || t == n
				}
				if !dup {
					r = append(r, op{"add", n, a})
				}
			}
		}
	}
	return
}

// the ways to register a command; an empty one may be given content later
var execKinds = []string{"power", "adhot", "normal", "file", "dir", "flow", "fileflow"}
var emptyKinds = []string{"empty", "meta", "emptydir"}

// --- reference: which node a token means

type node struct {
	name string
	cmd  string
	lvl  *level
	full bool // the command can't be replaced
	with map[string]bool
}

type level struct {
	m     map[string]*node
	order []*node
	abbrs map[*node][]string
}

func newLevel() *level { return &level{map[string]*node{}, nil, map[*node][]string{}} }

func (l *level) bind(n *node, toks []string) bool {
	for _, t := range toks {
		if o := l.m[t]; o != nil && o != n {
			return false
		}
	}
	for _, t := range toks {
		if t != "" && l.m[t] == nil {
			l.m[t] = n
			l.abbrs[n] = append(l.abbrs[n], t)
		}
	}
	return true
}

func (l *level) create(name string, abbrs []string) *node {
	if l.m[name] != nil {
		return nil
	}
	n := &node{name: name, lvl: newLevel()}
	if !l.bind(n, append([]string{name}, abbrs...)) {
		return nil
	}
	l.order = append(l.order, n)
	return n
}

func (l *level) getadd(name string) *node {
	if n := l.m[name]; n != nil {
		return n
	}
	return l.create(name, nil)
}

// apply returns false when the operation must be refused, skip when it is not
// applicable (the node does not exist).
func (l *level) apply(o op, id int) (ok, skip bool) {
	switch o.kind {
	case "add":
		return l.create(o.name, o.abbrs) != nil, false
	case "abbr":
		n := l.m[o.name]
		if n == nil {
			return false, true
		}
		return l.bind(n, o.abbrs), false
	case "getadd":
		l.getadd(o.name)
		return true, false
	case "sub":
		l.getadd(o.name).lvl.getadd(o.abbrs[0])
		return true, false
	case "reg":
		n := l.getadd(o.name)
		if n.cmd != "" {
			return false, false
		}
		n.cmd = fmt.Sprint("c", id)
		return true, false
	}
	n := l.m[o.name]
	if strings.HasPrefix(o.kind, "with-") {
		if n == nil || n.cmd == "" || n.with[o.kind] {
			return false, true
		}
		if n.with == nil {
			n.with = map[string]bool{}
		}
		n.with[o.kind] = true
		n.full = true
		return true, false
	}
	n = l.getadd(o.name)
	if o.kind == "reg-emptydir" && n.cmd != "" {
		return true, false // ignored
	}
	if n.full {
		return false, false
	}
	n.cmd = fmt.Sprint("c", id)
	n.full, n.with = true, nil
	for _, k := range emptyKinds {
		if o.kind == "reg-"+k {
			n.full = false
		}
	}
	return true, false
}

func (l *level) show() string {
	var s []string
	for _, t := range toks {
		if n := l.m[t]; n != nil {
			s = append(s, t+">"+n.name+":"+n.cmd+"("+n.lvl.show()+")")
		}
	}
	var o []string
	for _, n := range l.order {
		o = append(o, n.name+"|"+strings.Join(l.abbrs[n], ","))
	}
	return strings.Join(s, " ") + "/" + strings.Join(o, " ")
}

// --- the real structures

type real interface {
	apply(o op, id int)
	show() string
}

func catch(f func()) (refused bool) {
	defer func() {
		if r := recover(); r != nil {
			refused = true
		}
	}()
	f()
	return
}

type tree struct{ t *model.CmdTree }

func (r tree) apply(o op, id int) {
	switch o.kind {
	case "add":
		r.t.AddSub(o.name, o.abbrs...)
	case "abbr":
		r.t.GetSub(o.name).AddAbbrs(o.abbrs...)
	case "getadd":
		r.t.GetOrAddSub(o.name)
	case "sub":
		r.t.GetOrAddSub(o.name, o.abbrs[0])
	case "reg":
		r.t.GetOrAddSub(o.name).RegPowerCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
			return idx, true
		}, fmt.Sprint("c", id))
	}
	n := r.t.GetSub(o.name)
	help := fmt.Sprint("c", id)
	if strings.HasPrefix(o.kind, "reg-") {
		n = r.t.GetOrAddSub(o.name)
	}
	switch o.kind {
	case "reg-power":
		n.RegPowerCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
			return idx, true
		}, help)
	case "reg-adhot":
		n.RegAdHotFlowCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env) ([]string, []*model.ExecuteMask, bool) {
			return nil, nil, true
		}, help)
	case "reg-normal":
		n.RegCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool { return true }, help, "")
	case "reg-file":
		n.RegFileCmd("/f", help, "")
	case "reg-dir":
		n.RegDirWithCmd("/f", help, "")
	case "reg-flow":
		n.RegFlowCmd([]string{"noop"}, help, "")
	case "reg-fileflow":
		n.RegFileNFlowCmd([]string{"noop"}, "/f", help, "")
	case "reg-empty":
		n.RegEmptyCmd(help)
	case "reg-meta":
		n.RegMetaOnlyCmd(help, "")
	case "reg-emptydir":
		n.RegEmptyDirCmd("/d", help)
	case "with-arg":
		n.Cmd().AddArg("a", "")
	case "with-val2env":
		n.Cmd().AddVal2Env("k", "v")
	case "with-arg2env":
		n.Cmd().AddArg("b", "").AddArg2Env("k", "b")
	case "with-env-op":
		n.Cmd().AddEnvOp("k", model.EnvOpTypeRead)
	case "with-depend":
		n.Cmd().AddDepend("cat", "x")
	}
}

func showTree(t *model.CmdTree) string {
	var s []string
	for _, tok := range toks {
		n := t.GetSub(tok)
		if n == nil {
			continue
		}
		c := ""
		if n.Cmd() != nil {
			c = n.Cmd().Help()
		}
		s = append(s, tok+">"+n.Name()+":"+c+"("+showTree(n)+")")
	}
	var o []string
	for _, n := range t.SubNames() {
		o = append(o, n+"|"+strings.Join(t.SubAbbrs(n), ","))
	}
	return strings.Join(s, " ") + "/" + strings.Join(o, " ")
}

func (r tree) show() string { return showTree(r.t) }

type envs struct{ t *model.EnvAbbrs }

func (r envs) apply(o op, id int) {
	switch o.kind {
	case "add":
		r.t.AddSub(o.name, o.abbrs...)
	case "abbr":
		// the same lookup the program uses
		m, _ := r.t.TryMatch(o.name, ".")
		r.t.AddSubAbbrs(m[0], o.abbrs...)
	case "getadd":
		r.t.GetOrAddSub(o.name)
	}
}

func (r envs) show() string {
	var s []string
	for _, tok := range toks {
		m, ok := r.t.TryMatch(tok, ".")
		if !ok {
			continue
		}
		s = append(s, tok+">"+strings.Join(m, ".")+":(/)")
	}
	var o []string
	for _, n := range r.t.SubNames() {
		o = append(o, n+"|"+strings.Join(r.t.SubAbbrs(n), ","))
	}
	return strings.Join(s, " ") + "/" + strings.Join(o, " ")
}

type argl struct {
	c *model.Cmd
}

func (r argl) apply(o op, id int) { r.c.AddArg(o.name, "", o.abbrs...) }

func (r argl) show() string {
	a := r.c.Args()
	var s []string
	for _, tok := range toks {
		if n := a.Realname(tok); n != "" {
			s = append(s, tok+">"+n+":(/)")
		}
	}
	var o []string
	for i, n := range a.Names() {
		if a.Index(n) != i {
			o = append(o, "!index")
		}
		var ab []string
		for _, x := range a.Abbrs(n) {
			if x != "" {
				ab = append(ab, x)
			}
		}
		o = append(o, n+"|"+strings.Join(ab, ","))
	}
	return strings.Join(s, " ") + "/" + strings.Join(o, " ")
}

type kase struct {
	Kind string
	S    []int // first operations
	Rest int   // further operations enumerated inside
	Key  string
	Mode int
}

func strs() *model.CmdTreeStrs { return ticat.NewTiCat().Cmds.Strs }

var theStrs *model.CmdTreeStrs

func fresh(kind string) real {
	if theStrs == nil {
		theStrs = strs()
	}
	switch kind {
	case "T", "R":
		return tree{model.NewCmdTree(theStrs)}
	case "E":
		return envs{model.NewEnvAbbrs("<root>")}
	}
	return argl{model.NewCmdTree(theStrs).AddSub("c").RegEmptyCmd("c")}
}

func execOps(k kase) (out Out) {
	all := ops(k.Kind)
	states := map[string]bool{}
	n := 0
	var run func(seq []int) *Out
	run = func(seq []int) *Out {
		r := fresh(k.Kind)
		ref := newLevel()
		for i, x := range seq {
			o := all[x]
			ok, skip := ref.apply(o, i)
			if skip {
				return nil
			}
			refused := catch(func() { r.apply(o, i) })
			last := i == len(seq)-1
			if !last {
				continue
			}
			desc := func() string {
				var d []string
				for _, y := range seq {
					d = append(d, fmt.Sprint(all[y]))
				}
				return k.Kind + " " + strings.Join(d, " ")
			}
			n++
			if refused == ok {
				b := Bad("%s: the last registration must be refused=%v, refused=%v", desc(), !ok, refused)
				return &b
			}
			want, got := ref.show(), r.show()
			if want != got {
				b := Bad("%s: names must mean\n  %s\nbut mean\n  %s", desc(), want, got)
				return &b
			}
			states[want] = true
		}
		return nil
	}
	var rec func(seq []int, left int) *Out
	rec = func(seq []int, left int) *Out {
		if len(seq) > 0 {
			if b := run(seq); b != nil {
				return b
			}
		}
		if left == 0 {
			return nil
		}
		for x := range all {
			if b := rec(append(seq[:len(seq):len(seq)], x), left-1); b != nil {
				return b
			}
		}
		return nil
	}
	if b := rec(k.S, k.Rest); b != nil {
		return *b
	}
	for s := range states {
		out.States = append(out.States, k.Kind+s)
	}
	sort.Strings(out.States)
	out.Trans = []string{fmt.Sprint(k.Kind, k.S)}
	out.Steps = n
	out.Outcome = fmt.Sprint(k.Kind, len(states))
	return
}

// a key whose segments are names or abbreviations is set, then commands run
func execKey(k kase) Out {
	e := eng.New("")
	e.Power("ob", func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
		e.Log("%s=%s", k.Key, env.GetRaw(k.Key))
		return idx, true
	})
	if k.Mode&1 == 1 {
		e.Env.SetBool("sys.env.use-cmd-abbrs", true)
	}
	if k.Mode&2 == 0 {
		e.Env.Set(k.Key, "v")
	} else {
		e.Env.Set("zz."+k.Key, "w")
		e.Env.Set(k.Key+".zz", "w")
		e.Env.Set(k.Key, "v")
	}
	for i := 0; i < 2; i++ {
		e.Again()
		e.ResetTrace()
		r := e.Run("ob", ":", "ob")
		if want := k.Key + "=v"; !r.OK || !Eq(e.Trace(), []string{want, want}) {
			return Bad("environment has %s=v, mode %d: \"ob : ob\" ran %q, success=%v %v", k.Key, k.Mode, e.Trace(), r.OK, r.Panic)
		}
	}
	return Out{Outcome: "runs", Trans: []string{k.Key}, Steps: 4}
}

func envPaths(a *model.EnvAbbrs, prefix string, depth int, emit func(string)) {
	for _, n := range a.SubNames() {
		names := append([]string{n}, a.SubAbbrs(n)...)
		seen := map[string]bool{}
		for _, x := range names {
			if seen[x] {
				continue
			}
			seen[x] = true
			emit(prefix + x + ".nosuch")
			if depth > 1 {
				envPaths(a.GetSub(n), prefix+x+".", depth-1, emit)
			}
		}
	}
}

func gen(tier string, emit func(string)) {
	deep := map[string]int{"T": 3, "E": 3, "A": 4, "R": 3}
	if tier == "thorough" {
		deep = map[string]int{"T": 4, "E": 4, "A": 5, "R": 5}
	}
	for _, kind := range []string{"T", "E", "A", "R"} {
		n := len(ops(kind))
		emit(J(kase{Kind: kind, S: nil, Rest: 1}))
		if tier == "thorough" {
			Seqs(n, 1, 2, func(s []int) {
				rest := 0
				if len(s) == 2 {
					rest = deep[kind] - 2
				}
				emit(J(kase{Kind: kind, S: append([]int{}, s...), Rest: rest}))
			})
			continue
		}
		Seqs(n, 1, 1, func(s []int) {
			emit(J(kase{Kind: kind, S: append([]int{}, s...), Rest: deep[kind] - 1}))
		})
	}
	e := eng.New("")
	envPaths(e.CC.EnvAbbrs, "", 2, func(p string) {
		for m := 0; m < 4; m++ {
			emit(J(kase{Kind: "K", Key: p, Mode: m}))
		}
	})
}

func exec(key string) Out {
	var k kase
	U(key, &k)
	if k.Kind == "K" {
		return execKey(k)
	}
	return execOps(k)
}

func main() {
	Main(Spec{ID: "P24", Level: "model_checking", CaseSec: 120,
		Rule: "every history of up to 3 (thorough 4-5) registrations of sub-commands, abbreviations, paths and commands, of environment key abbreviations and of arguments over 4 names, and of every kind of command at one name with and without content, refusal and the meaning of every name after it compared with a reference; runs with a key under every built-in environment path spelled with any of its abbreviations",
		Gen:  gen, Exec: exec})
}
