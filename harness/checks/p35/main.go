// P35: finding commands returns exactly the commands that match all the words.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"

	"verif/eng"
	. "verif/vlib"
)

// the commands of the check, declared once and used for both the registration
// and the oracle
type decl struct {
	path   string
	abbrs  []string // of the last segment
	help   string
	args   [][]string // name, abbrs...
	arg2   [][2]string
	val2   []string
	ops    [][2]string // key, kind
	tags   []string
	src    string // repository, "" for a builtin
	typ    string // power, flow, file, normal, none
	deps   [][2]string
	quiet  bool
	prio   bool
	hidden bool
}

var decls = []decl{
	{path: "vk", abbrs: []string{"vkk"}, help: "alpha thing", typ: "power", src: "repo-one"},
	{path: "vk.sub", abbrs: []string{"sb", "vsab"}, help: "beta thing", typ: "power", src: "repo-one", tags: []string{"hot", "hotter"}},
	{path: "vk.sub.deep", help: "alpha beta", typ: "power", src: "repo-two", args: [][]string{{"host", "hx"}, {"port"}}},
	{path: "vk.other", abbrs: []string{"ot"}, help: "Gamma Thing", typ: "file", src: "repo-two", deps: [][2]string{{"vtool", "to make jam"}}},
	{path: "vm.flowy", help: "a flow of alpha", typ: "flow", src: "repo-one", tags: []string{"hot"}},
	{path: "vm.maps", help: "maps", typ: "power", src: "repo-two", args: [][]string{{"host"}}, arg2: [][2]string{{"vkey.one", "host"}}, tags: []string{"cold"}},
	{path: "vm.vals", help: "vals", typ: "power", src: "repo-two", val2: []string{"vkey.two"}},
	{path: "vm.opsr", help: "ops", typ: "power", src: "repo-one", ops: [][2]string{{"vkey.one", "r"}}},
	{path: "vm.opsw", help: "ops", typ: "power", src: "repo-one", ops: [][2]string{{"vkey.two", "w"}, {"vkey.tri", "mr"}}},
	{path: "vm.opsm", help: "ops", typ: "power", src: "repo-two", ops: [][2]string{{"vkey.tri", "mw"}}},
	{path: "vn", help: "quiet one", typ: "power", src: "", quiet: true},
	{path: "vn.pri", help: "zeta", typ: "power", src: "", prio: true, tags: []string{"cold", "hot"}},
	{path: "vn.norm", help: "", typ: "normal", src: ""},
	{path: "vn.hid", help: "alpha hidden", typ: "power", src: "", hidden: true, tags: []string{"hot"}},
	{path: "vn.hid.under", help: "alpha under hidden", typ: "power", src: ""},
	{path: "vo.x.y", help: "alpha.beta*", typ: "power", src: "repo-one"},
}

// words searched for (4 position names only)
var words = []string{
	"alpha", "beta", "thing", "Thing", "vk", "vk.sub", "sub", "vsab", "vkk", "sb", "hx", "host", "port", "vkey", "vkey.one", "vkey.t",
	"@hot", "@hott", "hot", "cold", "@", "repo-one", "repo-", "builtin", "write", "read", "may-", "vtool", "jam", "to mak", "quiet", "priority",
	"power", "file", "flow", "zzzz", "a", ".", "*", "alpha.beta", "alpha beta", "vo", "x", "x.y", "hid", "other", "wri",
}

type kase struct {
	F string // form
	W []string
	P string // branch
	S string // source
	D int    // depth
}

var finds = []string{"find", "/", "find.more", "//", "find.full", "///", "tail:/", "tail://", "tail:///", "cmds", "cmds.more", "cmds.full", "tail:cmds"}

func gen(tier string, emit func(string)) {
	add := func(k kase) {
		if len(k.W) > 0 && k.W[0] == "." {
			return // a lone dot is a path separator (P02), not a word
		}
		emit(J(k))
	}
	// every form, every word; every ordered pair
	for fi, f := range finds {
		for i, w := range words {
			add(kase{F: f, W: []string{w}})
			for j, v := range words {
				if tier == "thorough" || (i+j+fi)%3 == 0 || (i < 8 && j < 24) {
					add(kase{F: f, W: []string{w, v}})
				}
			}
		}
	}
	n := 28
	if tier == "thorough" {
		n = len(words)
	}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			for l := 0; l < n; l++ {
				k := kase{F: finds[(i+j+l)%len(finds)], W: []string{words[(i*7)%len(words)], words[(j*5)%len(words)], words[(l*11)%len(words)]}}
				add(k)
				if (i+j+l)%7 == 0 {
					k.W = append(append([]string{}, k.W...), words[(i+j*3+l*2)%len(words)])
					add(k)
				}
			}
		}
	}
	// branch, source and depth
	for _, f := range []string{"cmds", "cmds.more", "cmds.full", "~", "~~", "~~~", "tree"} {
		for _, p := range []string{"", "vk", "vk.sub", "vkk.sb", "vm", "vn", "vn.hid", "vo", "vo.x", "vo.x.y"} {
			for _, s := range []string{"", "repo-one", "repo-", "builtin", "nosource"} {
				for d := 0; d <= 3; d++ {
					for _, w := range []string{"", "alpha", "vk", "ops", "zzzz", "vkey"} {
						k := kase{F: f, P: p, S: s, D: d}
						if w != "" {
							k.W = []string{w}
						}
						if f == "tree" && (w != "" || s != "") || f[0] == '~' && (p == "" || s != "") || f == "cmds" && p == "" && d == 0 && s == "" && w == "" {
							continue
						}
						add(k)
					}
					if f[0] == 'c' {
						for _, t := range []string{"hot", "cold", "ho", "hotter", "nosuch"} {
							add(kase{F: f, P: p, S: s, D: d, W: []string{"tag=" + t}})
						}
					}
				}
			}
		}
	}
	// tags
	tags := []string{"hot", "cold", "hotter", "ho", "zzzz"}
	for _, f := range []string{"tag", "@", "tag.more", "tag.full"} {
		for _, a := range tags {
			add(kase{F: f, W: []string{a}})
			for _, b := range tags {
				add(kase{F: f, W: []string{a, b}})
				for _, c := range tags {
					add(kase{F: f, W: []string{a, b, c}})
				}
			}
		}
	}
	// commands that write a key
	for _, w := range []string{"vkey.one", "vkey.two", "vkey.tri", "vkey", "host", "zzzz"} {
		add(kase{F: "who", W: []string{w}})
	}
}

var theEng *eng.Eng
var table map[string][]string // path -> searchable texts (registered here)
var declBy map[string]decl
var info map[string]nodeInfo
var order []string

type nodeInfo struct {
	texts  []string
	tags   []string
	writes []string
	src    string
	hasCmd bool
	hidden bool // itself or a parent
	depth  int
}

func build() *eng.Eng {
	e := eng.New("")
	nop := func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
		return idx, true
	}
	declBy = map[string]decl{}
	for _, d := range decls {
		declBy[d.path] = d
		segs := strings.Split(d.path, ".")
		parent := e.TC.Cmds
		if len(segs) > 1 {
			parent = parent.GetOrAddSub(segs[:len(segs)-1]...)
		}
		last := segs[len(segs)-1]
		var n *model.CmdTree
		if parent.GetSub(last) != nil {
			n = parent.GetSub(last)
		} else {
			n = parent.AddSub(last, d.abbrs...)
		}
		if len(d.tags) > 0 {
			n.AddTags(d.tags...)
		}
		var c *model.Cmd
		switch d.typ {
		case "power":
			c = n.RegPowerCmd(nop, d.help)
		case "flow":
			c = n.RegFlowCmd([]string{"vk"}, d.help, "")
		case "file":
			c = n.RegFileCmd("/nonexist/vscript", d.help, "")
		case "normal":
			c = n.RegCmd(func(model.ArgVals, *model.Cli, *model.Env, []model.ParsedCmd) bool { return true }, d.help, "")
		}
		if d.src != "" {
			n.SetSource(d.src)
		}
		for _, a := range d.args {
			c.AddArg(a[0], "", a[1:]...)
		}
		for _, m := range d.arg2 {
			c.AddArg2Env(m[0], m[1])
		}
		for _, v := range d.val2 {
			c.AddVal2Env(v, "zzval")
		}
		for _, o := range d.ops {
			c.AddEnvOp(o[0], map[string]uint{"r": model.EnvOpTypeRead, "w": model.EnvOpTypeWrite, "mr": model.EnvOpTypeMayRead, "mw": model.EnvOpTypeMayWrite}[o[1]])
		}
		for _, x := range d.deps {
			c.AddDepend(x[0], x[1])
		}
		if d.quiet {
			c.SetQuiet()
		}
		if d.prio {
			c.SetPriority()
		}
		if d.hidden {
			n.SetHidden()
		}
	}
	info = map[string]nodeInfo{}
	order = nil
	var walk func(n *model.CmdTree, hidden bool)
	walk = func(n *model.CmdTree, hidden bool) {
		hidden = hidden || n.IsHidden()
		if n.Parent() != nil {
			p := n.DisplayPath()
			order = append(order, p)
			info[p] = describe(n, hidden)
		}
		for _, s := range n.SubNames() {
			walk(n.GetSub(s), hidden)
		}
	}
	walk(e.TC.Cmds, false)
	return e
}

var opName = map[string]string{"r": "read", "w": "write", "mr": "may-read", "mw": "may-write"}

func describe(n *model.CmdTree, hidden bool) (r nodeInfo) {
	p := n.DisplayPath()
	r.depth = strings.Count(p, ".") + 1
	if p == "." {
		r.depth = 1
	}
	r.depth = n.Depth()
	r.hidden = hidden
	d, own := declBy[p]
	if own {
		r.hasCmd = true
		r.tags = d.tags
		r.src = d.src
		typ := d.typ
		if d.typ == "file" {
			r.texts = append(r.texts, "/nonexist/vscript")
		}
		switch d.typ {
		case "flow":
			typ = string(model.CmdTypeFlow)
		case "file":
			typ = string(model.CmdTypeFile)
		case "normal":
			typ = string(model.CmdTypeNormal)
		case "power":
			typ = string(model.CmdTypePower)
		}
		r.texts = append(r.texts, p, d.help, typ)
		r.texts = append(r.texts, d.abbrs...)
		for _, a := range d.args {
			r.texts = append(r.texts, a...)
		}
		for _, m := range d.arg2 {
			r.texts = append(r.texts, m[0], m[1], "write")
			r.writes = append(r.writes, m[0])
		}
		for _, v := range d.val2 {
			r.texts = append(r.texts, v, "write")
			r.writes = append(r.writes, v)
		}
		for _, o := range d.ops {
			r.texts = append(r.texts, o[0], opName[o[1]])
			if strings.HasSuffix(o[1], "w") {
				r.writes = append(r.writes, o[0])
			}
		}
		for _, x := range d.deps {
			r.texts = append(r.texts, x[0], x[1])
		}
		if d.quiet {
			r.texts = append(r.texts, "quiet")
		}
		if d.prio {
			r.texts = append(r.texts, "priority")
		}
	} else {
		c := n.Cmd()
		r.hasCmd = c != nil
		r.tags = n.Tags()
		r.src = n.Source()
		if n.Parent() != nil {
			r.texts = append(r.texts, n.Parent().SubAbbrs(n.Name())...)
		}
		r.texts = append(r.texts, n.Name())
		if c != nil {
			r.texts = append(r.texts, p, c.Help(), c.CmdLine(), string(c.Type()))
			args := c.Args()
			for _, a := range args.Names() {
				r.texts = append(r.texts, args.Abbrs(a)...)
			}
			for _, k := range c.GetVal2Env().EnvKeys() {
				r.texts = append(r.texts, k, "write")
				r.writes = append(r.writes, k)
			}
			for _, k := range c.GetArg2Env().EnvKeys() {
				r.texts = append(r.texts, k, c.GetArg2Env().GetArgName(c, k, false), "write")
				r.writes = append(r.writes, k)
			}
			ops := c.EnvOps()
			for _, k := range ops.RawEnvKeys() {
				r.texts = append(r.texts, k)
				for _, o := range ops.Ops(k) {
					r.texts = append(r.texts, model.EnvOpStr(o))
					if o == model.EnvOpTypeWrite || o == model.EnvOpTypeMayWrite {
						r.writes = append(r.writes, k)
					}
				}
			}
			for _, x := range c.GetDepends() {
				r.texts = append(r.texts, x.OsCmd, x.Reason)
			}
			if c.IsQuiet() {
				r.texts = append(r.texts, "quiet")
			}
			if c.IsPriority() {
				r.texts = append(r.texts, "priority")
			}
		}
	}
	for _, t := range r.tags {
		r.texts = append(r.texts, "@"+t)
	}
	if r.src == "" {
		r.texts = append(r.texts, "builtin")
	} else {
		r.texts = append(r.texts, r.src)
	}
	return
}

func listed(text string) (r []string) {
	for _, l := range strings.Split(text, "\n") {
		t := strings.TrimLeft(l, " ")
		if strings.HasPrefix(t, "[") && strings.HasSuffix(t, "]") && (len(t) == len(l) || true) {
			r = append(r, strings.TrimSuffix(strings.TrimPrefix(t, "["), "]"))
		}
	}
	return
}

func has(ts []string, w string) bool {
	for _, t := range ts {
		if strings.Contains(t, w) {
			return true
		}
	}
	return false
}

func isIn(ts []string, w string) bool {
	for _, t := range ts {
		if t == w {
			return true
		}
	}
	return false
}

func exec(key string) Out {
	var k kase
	U(key, &k)
	if theEng == nil {
		theEng = build()
	}
	e := theEng
	e.Screen.Reset()
	tag := ""
	ws := k.W
	if len(ws) == 1 && strings.HasPrefix(ws[0], "tag=") {
		tag, ws = ws[0][4:], nil
	}
	var in []string
	opts := func() {
		if k.P != "" {
			in = append(in, "path="+k.P)
		}
		if k.S != "" {
			in = append(in, "src="+k.S)
		}
		if k.D != 0 {
			in = append(in, fmt.Sprintf("depth=%d", k.D))
		}
		if tag != "" {
			in = append(in, "tag="+tag)
		}
		for i, w := range ws {
			in = append(in, []string{"1st-str", "2nd-str", "3rd-str", "4th-str"}[i]+"="+w)
		}
	}
	branch := k.P
	if branch == "vkk.sb" {
		branch = "vk.sub"
	}
	form := k.F
	switch {
	case k.F == "who":
		in = append([]string{"env.who-write"}, ws...)
	case strings.HasPrefix(k.F, "tail:"):
		in = append(append([]string{}, ws...), ":", k.F[5:])
	case k.F[0] == '~':
		in = []string{k.P, ":", k.F}
		k.P = ""
		opts()
	case k.F == "tree":
		in = []string{"cmds.tree"}
		if k.D == 0 {
			k.D = 1 // the declared default
		}
		opts()
	case strings.HasPrefix(k.F, "cmds"):
		in = []string{k.F}
		opts()
	default:
		in = append([]string{k.F}, ws...)
	}
	desc := fmt.Sprintf("input %q", in)
	e.Again()
	r := e.Run(append([]string{}, in...)...)
	if !r.OK {
		theEng = nil
		return Bad("%s: the search failed: %v (%v)\n%s", desc, r, r.Panic, e.Screen.Err())
	}
	got := listed(e.Screen.Text())
	// what should be listed
	var want []string
	optional := map[string]bool{}
	for _, p := range order {
		n := info[p]
		if n.hidden {
			continue
		}
		if branch != "" && p != branch && !strings.HasPrefix(p, branch+".") {
			continue
		}
		if k.D != 0 {
			base := 0
			if branch != "" {
				base = info[branch].depth
			}
			if n.depth-base > k.D {
				continue
			}
		}
		ok := true
		switch {
		case form == "who":
			ok = isIn(n.writes, ws[0])
		case strings.HasPrefix(form, "tag") || form == "@":
			ok = false
			for _, t := range ws {
				ok = ok || isIn(n.tags, t)
			}
		default:
			for _, w := range ws {
				ok = ok && has(n.texts, w)
			}
			if tag != "" {
				ok = ok && isIn(n.tags, tag)
			}
		}
		if k.S != "" {
			s := n.src
			if s == "" {
				s = "builtin"
			}
			ok = ok && strings.Contains(s, k.S)
		}
		if !n.hasCmd {
			optional[p] = true // a directory, no command: not part of the property
			continue
		}
		if ok {
			want = append(want, p)
		}
	}
	var g []string
	for _, p := range got {
		if form == "tree" && branch == "" && p == "<root>" || optional[p] {
			continue
		}
		if form == "tree" {
			if _, ok := info[p]; !ok {
				theEng = nil
				return Bad("%s: unknown entry %q in the tree", desc, p)
			}
		}
		g = append(g, p)
	}
	sort.Strings(g)
	sort.Strings(want)
	if !Eq(g, want) {
		theEng = nil
		return Bad("%s: lists %q\nbut the commands that match are %q", desc, diff(g, want), diff(want, g))
	}
	return Out{Trivial: len(want) == 0, Outcome: fmt.Sprintf("%d found", len(want)), Steps: len(order), States: []string{strings.Join(g, " ")}}
}

// diff: what a has more than b (the whole of a when it is short)
func diff(a, b []string) (r []string) {
	if len(a) < 12 {
		return a
	}
	m := map[string]int{}
	for _, x := range b {
		m[x]++
	}
	for _, x := range a {
		if m[x]--; m[x] < 0 {
			r = append(r, "+"+x)
		}
	}
	return
}

func main() {
	eng.New("")
	Main(Spec{ID: "P35", Level: "model_checking", CaseSec: 20, QuickSec: 300,
		Rule: "lists of up to 4 search words from a 46-word alphabet, for every finding command (13 forms with their tail forms), branch x source x depth x word or tag for the listing commands, all lists of up to 3 tags, and the commands that write a key; over a command set that has every searchable feature plus all builtin commands; oracle: an independent declaration table",
		Gen:  gen, Exec: exec})
}
