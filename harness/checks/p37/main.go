// P37: the description of a sequence shows the commands a run executes, and
// announces a refusal exactly when a run is refused.
package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"

	"verif/eng"
	. "verif/vlib"
)

// call is one command of a line or of a flow body.
type call struct {
	name string
	args [][2]string // name, value; "$k" is a template on key k
	env  [][2]string // given in braces before it
	lvl  int         // trivial marks
	opt  string      // system arguments
}

func (c call) text(first bool) string {
	s := ""
	if len(c.env) != 0 {
		var kv []string
		for _, e := range c.env {
			kv = append(kv, e[0]+"="+e[1])
		}
		s = "{" + strings.Join(kv, " ") + "} "
	}
	s += strings.Repeat("^", c.lvl) + c.name
	for _, a := range c.args {
		v := a[1]
		if strings.HasPrefix(v, "$") {
			v = "[[" + v[1:] + "]]"
		}
		s += " " + a[0] + "=" + v
	}
	return s + c.opt
}

// def is what a command is.
type def struct {
	args    [][2]string // name, default
	arg2env map[string]string
	val2env [][2]string
	body    []call // of a flow
	script  bool   // and a script after the flow
	lvl     int
	quiet   bool
	ops     map[string]uint
	dep     string
}

func a(kv ...string) (r [][2]string) {
	for i := 0; i < len(kv); i += 2 {
		r = append(r, [2]string{kv[i], kv[i+1]})
	}
	return
}

var defs = map[string]*def{
	"la": {args: a("x", "1", "y", ""), arg2env: map[string]string{"x": "vk.x"}},
	"lb": {val2env: a("vk.b", "7")},
	"lc": {},
	"lz": {quiet: true},
	"lr": {ops: map[string]uint{"vk.r": model.EnvOpTypeRead}},
	"lw": {ops: map[string]uint{"vk.r": model.EnvOpTypeWrite}},
	"lm": {ops: map[string]uint{"vk.r": model.EnvOpTypeMayWrite}},
	"lv": {ops: map[string]uint{"vk.r": model.EnvOpTypeMayRead}},
	"ld": {dep: "vnosuch-os-command"},
	"lk": {dep: "cat"},

	"f1": {args: a("n", "5"), arg2env: map[string]string{"n": "vk.n"}, body: []call{{name: "la", args: a("x", "$vk.n")}, {name: "lb"}}},
	"f2": {body: []call{{name: "f1"}, {name: "f1", args: a("n", "2")}, {name: "lc"}}},
	"f3": {body: []call{{name: "f1"}, {name: "la"}, {name: "f1"}}},
	"f4": {body: []call{{name: "f1", lvl: 1}, {name: "lc"}}},
	"f5": {body: []call{{name: "f6", env: a("vk.m", "6")}, {name: "lz"}, {name: "la", args: a("y", "8")}}},
	"f6": {args: a("m", "4"), arg2env: map[string]string{"m": "vk.m"}, body: []call{{name: "la", args: a("x", "$vk.m", "y", "q")}}},
	"ft": {lvl: 1, body: []call{{name: "lc"}, {name: "f1"}}},
	"fn": {script: true, body: []call{{name: "lc"}, {name: "la", args: a("x", "9")}}},
	"fr": {body: []call{{name: "lr"}, {name: "lc"}}},
	"fw": {body: []call{{name: "lw"}, {name: "fr"}}},
	"fd": {body: []call{{name: "lc"}, {name: "ld"}}},
}

var names = func() (r []string) {
	for n := range defs {
		r = append(r, n)
	}
	sort.Strings(r)
	return
}()

var words = []call{
	{name: "la"}, {name: "f1"}, {name: "f2"}, {name: "f4"}, {name: "ft"}, {name: "fn"},
	{name: "lr"}, {name: "lw"}, {name: "fd"},
	{name: "f1", args: a("n", "3")}, {name: "la", args: a("x", "3", "y", "4")}, {name: "f3"}, {name: "f5"},
	{name: "fw"}, {name: "fr"}, {name: "lz"}, {name: "f1", lvl: 1}, {name: "ft", lvl: 1},
	{name: "f6", env: a("vk.m", "w")}, {name: "lb"}, {name: "lc"}, {name: "lk"}, {name: "lm"}, {name: "lv"},
	{name: "f2", lvl: 2}, {name: "f6", args: a("m", "z")}, {name: "lr", env: a("vk.r", "1")},
	{name: "la", env: a("vk.x", "e")}, {name: "lc", opt: " %delay=0"}, {name: "f1", opt: " %delay=0"}, {name: "ld"},
	{name: ""},
}

type kase struct{ L []int }

func gen(tier string, emit func(string)) {
	Seqs(len(words), 1, 2, func(x []int) { emit(J(kase{append([]int{}, x...)})) })
	Seqs(len(words), 3, 3, func(x []int) {
		if tier == "thorough" || x[0] < 15 && x[1] < 15 && x[2] < 15 {
			emit(J(kase{append([]int{}, x...)}))
		}
	})
	if tier == "thorough" {
		Seqs(9, 4, 4, func(x []int) { emit(J(kase{append([]int{}, x...)})) })
	}
}

// node is one command of the tree the model expects.
type node struct {
	name string
	args [][2]string // as given
	vals map[string]string
	kids []*node
	lvl  int
	bg   bool
	own  bool // %delay given to itself
	text string
}

func unq(v string) string { return strings.Trim(v, "'") }

// scope is the environment of the model: what is set for the session, and
// what braces limit to a command or a flow's body.
type scope struct {
	session map[string]string
	local   []map[string]string
}

func (s scope) get(k string) (string, bool) {
	for i := len(s.local) - 1; i >= 0; i-- {
		if v, ok := s.local[i][k]; ok {
			return v, true
		}
	}
	v, ok := s.session[k]
	return v, ok
}

func (s scope) with(kvs [][2]string) scope {
	if len(kvs) == 0 {
		return s
	}
	m := map[string]string{}
	for _, kv := range kvs {
		m[kv[0]] = kv[1]
	}
	return scope{s.session, append(append([]map[string]string{}, s.local...), m)}
}

func (s scope) fill(v string) string {
	if strings.HasPrefix(v, "$") {
		v, _ = s.get(v[1:])
	}
	return unq(v)
}

// expand gives the tree of a call.
func expand(c call, e scope, bg bool) *node {
	d := defs[c.name]
	e = e.with(c.env)
	if c.opt != "" { // what a background command maps stays with it
		m := map[string]string{}
		for k, v := range e.session {
			m[k] = v
		}
		e.session = m
	}
	n := &node{name: c.name, vals: map[string]string{}, lvl: c.lvl + d.lvl, bg: bg || c.opt != "", own: c.opt != ""}
	given := map[string]string{}
	for _, kv := range c.args {
		given[kv[0]] = kv[1]
	}
	for _, kv := range d.args {
		v, ok := given[kv[0]]
		if ok {
			n.args = append(n.args, [2]string{kv[0], v})
		} else {
			v = kv[1]
		}
		n.vals[kv[0]] = v
		if k := d.arg2env[kv[0]]; k != "" {
			if _, has := e.get(k); ok || !has {
				e.session[k] = v
			}
		}
	}
	for _, kv := range d.val2env {
		e.session[kv[0]] = kv[1]
	}
	// a flow's body is filled in before it starts
	var body []call
	for i, b := range d.body {
		b2 := b
		b2.args = nil
		for _, kv := range b.args {
			b2.args = append(b2.args, [2]string{kv[0], e.fill(kv[1])})
		}
		n.text += b2.text(false) + " : "
		if i == 0 && len(b2.env) != 0 {
			e = e.with(b2.env)
			b2.env = nil
		}
		body = append(body, b2)
	}
	for _, b := range body {
		n.kids = append(n.kids, expand(b, e, n.bg))
	}
	return n
}

// ran lists what is executed.
func (n *node) ran(r *[]string) {
	d := defs[n.name]
	for _, k := range n.kids {
		k.ran(r)
	}
	if len(d.body) == 0 || d.script {
		var vs []string
		for _, kv := range d.args {
			vs = append(vs, kv[0]+"="+n.vals[kv[0]])
		}
		*r = append(*r, strings.TrimSpace(n.name+" "+strings.Join(vs, " ")))
	}
}

// shown lists what a description with the given limits must show.
func shown(ns []*node, depth, maxDepth, maxTriv int, r *[]string) {
	met := map[string]bool{}
	for _, n := range ns {
		d := defs[n.name]
		if d.quiet || maxDepth <= 0 || maxTriv <= 0 {
			continue
		}
		flow := len(d.body) != 0
		foldT := flow && maxTriv <= n.lvl
		foldD := maxDepth <= 1
		l := fmt.Sprintf("%d %s", depth, n.name)
		if foldT && n.lvl > 0 {
			l += "^"
		}
		if n.own {
			l += "&"
		}
		for _, kv := range n.args {
			l += " " + kv[0] + "=" + kv[1]
		}
		*r = append(*r, l)
		if !flow || foldT || foldD {
			continue
		}
		if met[n.text] {
			(*r)[len(*r)-1] += " again"
			continue
		}
		met[n.text] = true
		shown(n.kids, depth+1, maxDepth-1, maxTriv-n.lvl, r)
	}
}

func register(e *eng.Eng) {
	for _, n := range names {
		n, d := n, defs[n]
		var c *model.Cmd
		leaf := func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
			l := n
			for _, kv := range d.args {
				l += " " + kv[0] + "=" + argv.GetRaw(kv[0])
			}
			e.FLog("%s", l)
			if n == "lw" || n == "lm" {
				env.GetLayer(model.EnvLayerSession).Set("vk.r", "1")
			}
			return idx, true
		}
		var body []string
		for i, b := range d.body {
			body = append(body, b.text(i == 0))
		}
		switch {
		case d.script:
			c = e.FileNFlow(n, "echo "+n+" >> $TRACE", strings.Join(body, " : "))
		case len(body) != 0:
			c = e.Flow(n, strings.Join(body, " : "))
		default:
			c = e.Power(n, leaf)
		}
		for _, kv := range d.args {
			c.AddArg(kv[0], kv[1])
			if k := d.arg2env[kv[0]]; k != "" {
				c.AddArg2Env(k, kv[0])
			}
		}
		for _, kv := range d.val2env {
			c.AddVal2Env(kv[0], kv[1])
		}
		for k, op := range d.ops {
			c.AddEnvOp(k, op)
		}
		if d.dep != "" {
			c.AddDepend(d.dep, "verif")
		}
		if d.quiet {
			c.SetQuiet()
		}
		if d.lvl > 0 {
			e.Node(n).SetTrivial(d.lvl)
		}
	}
}

var nameLine = regexp.MustCompile(`^( *)\[([^\]]+)\](\^?)( \(schedule to bg in .*\))?$`)
var argLine = regexp.MustCompile(`^ +([a-z]+) = (.*)$`)

// read turns what a skeleton description shows into lines as shown() makes them.
func read(text string) (r []string, ended bool, mark string) {
	for _, l := range strings.Split(text, "\n") {
		t := strings.TrimSpace(l)
		if m := nameLine.FindStringSubmatch(l); m != nil {
			s := fmt.Sprintf("%d %s%s", len(m[1])/8, m[2], m[3])
			if m[4] != "" {
				s += "&"
			}
			r = append(r, s)
			continue
		}
		switch {
		case strings.HasPrefix(t, "(fatal"), strings.HasPrefix(t, "(risk"):
			mark = t
		case t == "<<<---" && l == t:
			ended = true
		case strings.HasPrefix(t, "'"), t == "--->>>", strings.HasPrefix(t, "<<<---"), t == "(folded flow)":
		case t == "(duplicated sub flow)":
			if len(r) > 0 {
				r[len(r)-1] += " again"
			}
		default:
			if m := argLine.FindStringSubmatch(l); m != nil && len(r) > 0 {
				v := unq(m[2])
				r[len(r)-1] += " " + m[1] + "=" + v
			}
		}
	}
	for i, l := range r { // "again" comes last
		if strings.Contains(l, " again ") {
			r[i] = strings.Replace(l, " again ", " ", 1) + " again"
		}
	}
	return
}

func line(k kase) (calls []call, text string) {
	var ts []string
	for i, w := range k.L {
		ts = append(ts, words[w].text(i == 0))
		if words[w].name != "" {
			calls = append(calls, words[w])
		}
	}
	return calls, strings.Join(ts, " : ")
}

func run(key string) Out {
	var k kase
	U(key, &k)
	calls, text := line(k)
	if n := len(k.L); len(calls) == 0 || words[k.L[n-1]].name == "" || n > 1 && words[k.L[n-2]].name == "" {
		return Out{Trivial: true, Outcome: "nothing, or a tail-mode form"}
	}
	dir, drop := eng.Scratch()
	defer drop()
	e := eng.New(dir)
	register(e)
	e.Env.Set("sys.bg.wait", "true")
	e.Env.Set("strs.env-file-name", "envfile")

	// the model
	var tree []*node
	env := scope{session: map[string]string{}}
	for i, c := range calls {
		if i == 0 && words[k.L[0]].name != "" { // braces at the head of a line are for the whole line
			for _, kv := range c.env {
				env.session[kv[0]] = kv[1]
			}
			c.env = nil
		}
		tree = append(tree, expand(c, env, false))
	}
	ask := func(q string) (string, eng.Result) {
		e.Screen.Reset()
		e.Again()
		e.Env.Set("sys.stack-depth", "0")
		r := e.Run(strings.Fields(text + " : " + q)...)
		return e.Screen.Text(), r
	}
	type look struct {
		q           string
		depth, triv int
	}
	mark := ""
	for _, q := range []look{{"desc depth=0 unfold-trivial=0", 99, 99}, {"-", 32, 1}, {"--", 32, 2}, {"desc depth=1", 1, 1}, {"desc depth=2 unfold-trivial=3", 2, 3}} {
		out, r := ask(q.q)
		d, t := q.depth, q.triv
		if len(calls) == 1 && tree[0].lvl > 0 {
			if d == 1 {
				d = 2
			}
			if t == 1 {
				t = 2
			}
		}
		if !r.OK {
			return Bad("%q : %s fails: %v %s", text, q.q, r.Panic, out)
		}
		var want []string
		shown(tree, 0, d, t, &want)
		got, ended, m := read(out)
		mark = m
		if !Eq(got, want) || !ended {
			return Bad("%q described by %q shows\n  %s\nexpected\n  %s\n(ended %v)\n%s", text, q.q, strings.Join(got, "\n  "), strings.Join(want, "\n  "), ended, out)
		}
	}
	ops, r1 := ask("desc.env-ops-check")
	deps, r2 := ask("desc.dependencies")
	if !r1.OK || !r2.OK {
		return Bad("%q: the env-ops check or the dependency list fails: %v %v", text, r1.Panic, r2.Panic)
	}
	if t := e.FTrace(); len(t) != 0 {
		return Bad("describing %q ran %v", text, t)
	}

	// the run
	e.Screen.Reset()
	e.Again()
	e.Env.Set("sys.stack-depth", "0")
	r := e.Run(strings.Fields(text)...)
	out := e.Screen.Text()
	got := e.FTrace()
	if r.Panic != nil {
		return Bad("%q panics: %v", text, r.Panic)
	}
	opsRefused := strings.Contains(out, "this flow has 'read before write'")
	depRefused := strings.Contains(out, "missed depended os-commands")
	if (opsRefused || depRefused) == r.OK {
		return Bad("%q: ok=%v, output %s", text, r.OK, out)
	}
	if f := strings.Contains(ops, "<FATAL>"); f && r.OK || !f && opsRefused {
		return Bad("%q: the env-ops check says fatal=%v, the run was refused for that: %v", text, f, opsRefused)
	}
	if opsRefused {
		// the same report
		fatal := func(s string) string {
			if i := strings.Index(s, "<FATAL>"); i >= 0 {
				return s[i:]
			}
			return s
		}
		if fatal(ops) != fatal(out) {
			return Bad("%q: the env-ops check reports\n%s\nthe run is refused with\n%s", text, ops, out)
		}
	}
	if f := strings.Contains(deps, "missed depended"); f && r.OK || !f && depRefused {
		return Bad("%q: the dependency list says missing=%v, the run was refused for that: %v", text, f, depRefused)
	}
	wantDeps := map[string]bool{}
	var walk func(n *node)
	walk = func(n *node) {
		if d := defs[n.name].dep; d != "" {
			wantDeps[d] = true
		}
		for _, c := range n.kids {
			walk(c)
		}
	}
	for _, n := range tree {
		walk(n)
	}
	for d := range wantDeps {
		if d == "cat" && wantDeps["vnosuch-os-command"] {
			continue // only missing ones are listed then
		}
		if !strings.Contains(deps, "["+d+"]") {
			return Bad("%q needs %s, the dependency list doesn't name it: %s", text, d, deps)
		}
	}
	if len(wantDeps) == 0 && !strings.Contains(deps, "no depended os commands") {
		return Bad("%q needs nothing, the dependency list shows %s", text, deps)
	}
	if f := strings.HasPrefix(mark, "(fatal"); f == r.OK {
		return Bad("%q: described with the mark %q, ok=%v", text, mark, r.OK)
	}
	if !r.OK {
		if len(got) != 0 {
			return Bad("%q was refused and ran %v", text, got)
		}
		return Out{Outcome: "refused", States: []string{text}, Trans: []string{text}, Steps: 8}
	}
	var want []string
	bg := false
	for _, n := range tree {
		n.ran(&want)
		bg = bg || n.bg
	}
	if bg {
		sort.Strings(want)
		sort.Strings(got)
	}
	if !Eq(got, want) {
		return Bad("%q ran\n  %s\nthe description said\n  %s", text, strings.Join(got, "\n  "), strings.Join(want, "\n  "))
	}
	return Out{Outcome: fmt.Sprint("ran ", mark), States: []string{text}, Trans: []string{text}, Steps: 8}
}

func main() {
	Main(Spec{ID: "P37", Level: "model_checking", CaseSec: 30,
		Rule: "every line of up to 2 of 32 words (commands, flows 3 deep, folded, duplicated, quiet, trivial, with arguments by value and template, braces, background, read-before-write and missing os commands), of 3 of 15 (thorough: of all), thorough 4 of 9, described in 5 ways and by the two audits, then run; trivial: empty lines and tail-mode forms",
		Gen:  gen, Exec: run})
}
