// P31: every module file of a repository becomes exactly the command its path
// spells, faulty ones and disabled repositories disturb nothing.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/mods/builtin"
	meta "github.com/innerr/ticat/pkg/mods/persist/hub_meta"

	"verif/eng"
	. "verif/vlib"
)

// ---- trees ----

// kinds of module files
const (
	none   = iota // no module: skipped
	mod           // metadata, target next to it (or none)
	flow          // flow file
	multi         // combined flow file
	broken        // faulty
	help          // help text
)

type want struct {
	help  string
	flow  []string
	args  []string // "name=default"
	abbrs []string
	cmd   string // cmd = (relative to the directory)
	trace []string
	needs bool // faulty unless the target of cmd exists
}

type vfile struct {
	path, text string
	kind       int
	w          want
	subs       []vsub // multi
	link       bool
	bad        bool // registration may fail half way: the path says nothing
}
type vsub struct {
	path string
	w    want
}

// A unit is a set of files always put together.
type unit []vfile

func script(p string) vfile {
	return vfile{path: p, text: "echo \"S:" + p + ":${@:2}\" >> \"$W/trace.log\"\n"}
}

func m(p, text string, w want) vfile { return vfile{path: p, text: text, kind: mod, w: w} }
func f(p, text string, w want) vfile { return vfile{path: p, text: text, kind: flow, w: w} }

var units = []unit{
	{m("a.ticat", "help = plain a\n", want{help: "plain a"})},
	{m("a.bash.ticat", "help = a script\nabbrs = aa\n[args]\nx|xx = 1\ny = 2\n", want{help: "a script", args: []string{"x=1", "y=2"}, abbrs: []string{"aa"}})},
	{script("a.bash")},
	{f("a.tiflow", "flow = vm1\n", want{flow: []string{"vm1"}, trace: []string{"vm1"}})},
	{f("a.b.tiflow", "help = ab\nflow = vm2 : vm1\n", want{help: "ab", flow: []string{"vm2 : vm1"}, trace: []string{"vm2", "vm1"}})},
	{m("a/b.bash.ticat", "help=ab script\n", want{help: "ab script"}), script("a/b.bash")},
	{m("a/b.ticat", "flow = vm3\n", want{flow: []string{"vm3"}, trace: []string{"vm3"}})},
	{f("a/b/c.tiflow", "flow = vm1 : vm2\n", want{flow: []string{"vm1 : vm2"}, trace: []string{"vm1", "vm2"}})},
	{m("a/b/c/d.bash.ticat", "help = deep\n[arg]\nn = v\n", want{help: "deep", args: []string{"n=v"}}), script("a/b/c/d.bash")},
	{f("c.tiflow", "[flow/]\nvm3\nvm1\n[/flow]\n", want{flow: []string{"vm3", "vm1"}, trace: []string{"vm3", "vm1"}})},
	{vfile{path: ".hid/e.bash.ticat", text: "help = e\n"}, script(".hid/e.bash")},
	{vfile{path: ".e.bash.ticat", text: "help = e\n"}, script(".e.bash")},
	{vfile{path: ".e.tiflow", text: "flow = vm1\n"}, vfile{path: "a/.f.tiflow", text: "flow = vm1\n"}},
	{script("run.bash"), vfile{path: "notes.md", text: "x"}, vfile{path: "a.ticat.bak", text: "help = no\n"}, vfile{path: "a/b.tiflow~", text: "x"}},
	{vfile{path: "hub.ticat", text: "[ticat.hub]\n* [x/y](t): help\n"}},
	{m("a/hub.ticat", "help = no list here\n", want{help: "no list here"})},
	{vfile{path: "bad1.ticat", text: "this is no meta\n", kind: broken}},
	{vfile{path: "a/bad2.ticat", text: "help = x\ntrivial = abc\n", kind: broken}},
	{vfile{path: "bad3.bash.ticat", text: "help = x\n[args]\np|q = 1\nq = 2\n", kind: broken}, script("bad3.bash")},
	{vfile{path: "bad4.ticat", text: "help = x\ncmd = nofile\n", kind: broken}, script("bad4/x.bash")},
	{vfile{path: "bad5.ticat", text: "help = x\n[env]\nk.a = read/write\n", kind: broken}},
	{vfile{path: "bad6.ticat", link: true, kind: broken}},
	{vfile{path: "all.tiflow", text: "### file: w/v.x.tiflow\nflow = vm1\n### file: w.tiflow\nhelp = W\nflow = vm2\n", kind: multi,
		subs: []vsub{{"v.x", want{flow: []string{"vm1"}, trace: []string{"vm1"}}}, {"w", want{help: "W", flow: []string{"vm2"}, trace: []string{"vm2"}}}}}},
	{vfile{path: "h.tihelp", text: "Title\ntext\n", kind: help}},
	{vfile{path: "empty.tihelp", text: "", kind: none}},
	{m("d.ticat", "help = dir cmd\ncmd = run.bash\n[args]\nz = 9\n", want{help: "dir cmd", args: []string{"z=9"}, cmd: "run.bash", needs: true}), script("d/run.bash")},
	{m("a.sh.ticat", "help = sh\n", want{help: "sh"}), script("a.sh")},
	{m("g.bash.ticat", "help = both\nflow = vm1 : vm2\n", want{help: "both", flow: []string{"vm1 : vm2"}, trace: []string{"vm1", "vm2"}}), script("g.bash")},
	{m("vq.ticat", "help = mine\n[args]\nnew = 1\n", want{help: "mine", args: []string{"new=1"}})},
	{m("vq/x.bash.ticat", "help = sub\n", want{help: "sub"}), script("vq/x.bash")},
	{m("vm1/y.ticat", "help = sub\nflow = vm2\n", want{help: "sub", flow: []string{"vm2"}, trace: []string{"vm2"}})},
	{m("empty.ticat", "", want{})},
	{f("empty.tiflow", "", want{})},
	{f("x.y.z.tiflow", "abbrs = x1|x2.y1.z1\nflow = a.b\n", want{flow: []string{"a.b"}, trace: []string{"<a.b>"}, abbrs: []string{"z1"}})},
	{m("a/c.d.e.bash.ticat", "help = dots\n", want{help: "dots"}), script("a/c.d.e.bash")},
	{m("a.ticat", "help = dir a\nabbr = a1\n[args]\nq = 0\n", want{help: "dir a", args: []string{"q=0"}, abbrs: []string{"a1"}}), script("a/lib.bash")},
}

// Case T: "a" trees, "b" metadata.
type Case struct {
	T string
	C string  // configuration of repositories
	F [][]int // units per repository
	B []int   // metadata: features
	N int     // layout of the text
}

var confs = map[string][]struct {
	root string // under the scratch directory
	on   bool
}{
	"one":    {{"m", true}},
	"hidden": {{".mods", true}},
	"slash":  {{"m/", true}},
	"off":    {{"m", false}},
	"two":    {{"m", true}, {"n", true}},
	"offon":  {{"m", false}, {"n", true}},
	"onoff":  {{"m", true}, {"n", false}},
	"flows":  {{"flows", true}, {"n", true}}, // the first one: saved flows
}

type node struct {
	src string
	cmd *reg
}
type reg struct {
	ty, target, help, file string
	w                      want
	vague                  bool
}

// empty: such a command gives way to any other of the same path.
func (r *reg) empty() bool {
	return (r.ty == "META" || r.ty == "EMPTYDIR") && len(r.w.args) == 0 && r.target == ""
}

type sim struct {
	nodes  map[string]*node
	abbrs  map[string]string // path of abbr -> path
	faults map[string]bool   // files reported
	vague  map[string]bool
}

func (s *sim) real(segs []string) string {
	p := ""
	for i, x := range segs {
		if i > 0 {
			p += "."
		}
		p += x
		if r, ok := s.abbrs[p]; ok {
			p = r
		}
	}
	return p
}

// reach makes the nodes down to the path.
func (s *sim) reach(src string, segs []string) (string, *node) {
	p := ""
	for i, x := range segs {
		if i > 0 {
			p += "."
		}
		p += x
		if r, ok := s.abbrs[p]; ok {
			p = r
		}
		if s.nodes[p] == nil {
			s.nodes[p] = &node{src: src}
		}
	}
	return p, s.nodes[p]
}

// register puts one command; false: reported as faulty.
func (s *sim) register(src, file string, segs []string, r *reg) bool {
	p, n := s.reach(src, segs)
	r.file = file
	if r.ty == "EMPTYDIR" && n.cmd != nil {
		// only describes the branch
		return s.abbr(p, r.w.abbrs)
	}
	if r.ty != "EMPTYDIR" {
		if !(n.cmd == nil && n.src == src) && !(n.cmd != nil && n.cmd.empty()) {
			return false
		}
	}
	n.cmd = r
	n.src = src
	if !s.abbr(p, r.w.abbrs) {
		s.vague[p] = true
		return false
	}
	return true
}

func (s *sim) abbr(p string, abbrs []string) bool {
	pre := ""
	if i := strings.LastIndex(p, "."); i >= 0 {
		pre = p[:i+1]
	}
	for _, a := range abbrs {
		if s.nodes[pre+a] != nil || (s.abbrs[pre+a] != "" && s.abbrs[pre+a] != p) {
			return false
		}
	}
	for _, a := range abbrs {
		s.abbrs[pre+a] = p
	}
	return true
}

// load simulates loading one root; onlyFlows: the directory of saved flows.
func (s *sim) load(root, src string, files map[string]vfile, onlyFlows bool) {
	has := func(p string) (bool, bool) { // exists, is dir
		if _, ok := files[p]; ok {
			return true, false
		}
		for q := range files {
			if strings.HasPrefix(q, p+"/") {
				return true, true
			}
		}
		return false, false
	}
	var paths []string
	for p := range files {
		paths = append(paths, p)
	}
	sort.Slice(paths, func(i, j int) bool { // the order of a walk
		a, b := strings.Split(paths[i], "/"), strings.Split(paths[j], "/")
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
	for _, p := range paths {
		v := files[p]
		full := filepath.Join(root, p)
		ok := true
		base := filepath.Base(p)
		switch v.kind {
		case none, help:
		case broken:
			ok = false
			if !onlyFlows {
				segs := strings.Split(p[:strings.Index(p, ".")], "/")
				q, _ := s.reach(src, segs)
				s.vague[q] = true
			}
		case flow:
			ty := "FLOW"
			if len(v.w.flow) == 0 {
				ty = "META"
			}
			ok = s.register(src, full, strings.Split(strings.TrimSuffix(base, ".tiflow"), "."), &reg{ty: ty, help: v.w.help, w: v.w})
			// (abbreviations of every segment)
			if ok && p == "x.y.z.tiflow" {
				ok = s.abbr("x", []string{"x1", "x2"}) && s.abbr("x.y", []string{"y1"})
			}
		case multi:
			for _, x := range v.subs {
				if !s.register(src, full, strings.Split(x.path, "."), &reg{ty: "FLOW", help: x.w.help, w: x.w}) {
					ok = false
					break
				}
			}
		case mod:
			target := strings.TrimSuffix(p, ".ticat")
			exists, dir := has(target)
			segs := strings.Split(filepath.Dir(p), "/")
			if segs[0] == "." {
				segs = nil
			}
			segs = append(segs, base[:strings.Index(base, ".")])
			r := &reg{help: v.w.help, w: v.w, target: filepath.Join(root, target)}
			switch {
			case !exists && len(v.w.flow) > 0 && v.w.cmd == "":
				r.ty, r.target = "FLOW", ""
			case !exists:
				r.ty, r.target = "META", ""
			case dir && v.w.cmd != "":
				r.ty, r.target = "DIRCMD", filepath.Join(root, target, v.w.cmd)
			case dir && len(v.w.flow) > 0:
				r.ty, r.target = "FLOW", ""
			case dir:
				r.ty, r.target = "EMPTYDIR", ""
			case len(v.w.flow) > 0:
				r.ty = "BOTH"
			default:
				r.ty = "FILE"
			}
			ok = s.register(src, full, segs, r)
		}
		if onlyFlows && v.kind != flow && v.kind != multi {
			continue
		}
		if !ok {
			s.faults[full] = true
		}
	}
}

func tyName(c *model.Cmd) string {
	switch c.Type() {
	case model.CmdTypeFlow:
		return "FLOW"
	case model.CmdTypeMetaOnly:
		return "META"
	case model.CmdTypeEmptyDir:
		return "EMPTYDIR"
	case model.CmdTypeDirWithCmd:
		return "DIRCMD"
	case model.CmdTypeFile:
		return "FILE"
	case model.CmdTypeFileNFlow:
		return "BOTH"
	}
	return string(c.Type())
}

// commands lists all commands below the node.
func commands(t *model.CmdTree, into map[string]*model.CmdTree) {
	if t.Cmd() != nil {
		into[t.DisplayPath()] = t
	}
	for _, n := range t.SubNames() {
		commands(t.GetSub(n), into)
	}
}

func shape(t *model.CmdTree) string {
	a := t.Args()
	return t.Cmd().Help() + fmt.Sprint(a.Names())
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func put(root string, us []int) map[string]vfile {
	files := map[string]vfile{}
	for _, i := range us {
		for _, v := range units[i] {
			files[v.path] = v
		}
	}
	for p, v := range files {
		q := filepath.Join(root, p)
		must(os.MkdirAll(filepath.Dir(q), 0755))
		if v.link {
			must(os.Symlink("/nonexistent/x", q))
		} else {
			must(os.WriteFile(q, []byte(v.text), 0644))
		}
	}
	return files
}

// clash: the units cannot be on one disk.
func clash(us []int) bool {
	seen := map[string]bool{}
	for _, i := range us {
		for _, v := range units[i] {
			if seen[v.path] {
				return true
			}
			seen[v.path] = true
		}
	}
	return false
}

func desc(cs Case) string {
	var r []string
	for i, us := range cs.F {
		var p []string
		for _, u := range us {
			for _, v := range units[u] {
				p = append(p, v.path)
			}
		}
		c := confs[cs.C][i]
		r = append(r, fmt.Sprintf("%s(on=%v)%q", c.root, c.on, p))
	}
	return strings.Join(r, " + ")
}

func engine(dir string) *eng.Eng {
	e := eng.New(dir)
	must(os.Setenv("W", dir))
	for _, n := range []string{"vm1", "vm2", "vm3", "vq"} {
		n := n
		e.Power(n, func(argv model.ArgVals, cc *model.Cli, env *model.Env, fl *model.ParsedCmds, idx int) (int, bool) {
			h, err := os.OpenFile(filepath.Join(dir, "trace.log"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
			must(err)
			fmt.Fprintln(h, n)
			h.Close()
			return idx, true
		})
		e.Node(n).SetSource("")
	}
	e.Power("qflows", builtin.LoadFlows)
	e.Power("qhub", builtin.LoadModsFromHub)
	s := e.Env.GetLayer(model.EnvLayerSession)
	s.SetBool("sys.panic.recover", true)
	return e
}

func trees(cs Case) Out {
	dir, drop := eng.Scratch()
	defer drop()
	e := engine(dir)
	before := map[string]*model.CmdTree{}
	commands(e.TC.Cmds, before)

	s := &sim{map[string]*node{}, map[string]string{}, map[string]bool{}, map[string]bool{}}
	var names []string
	for p := range before {
		names = append(names, p)
	}
	sort.Strings(names)
	helps := map[string]string{}
	for _, p := range names {
		s.reach("", strings.Split(p, "."))
		s.nodes[p].cmd = &reg{ty: "BUILTIN", w: want{args: []string{"?"}}}
		helps[p] = shape(before[p])
	}
	var infos []meta.RepoInfo
	for i, c := range confs[cs.C] {
		root := filepath.Join(dir, c.root)
		files := put(root, cs.F[i])
		must(os.MkdirAll(root, 0755))
		saved := cs.C == "flows" && i == 0
		if !saved {
			on := "on"
			if !c.on {
				on = "disabled"
			}
			p := root
			if strings.HasSuffix(c.root, "/") {
				p += "/"
			}
			infos = append(infos, meta.RepoInfo{AddReason: "<local>", Path: p, OnOff: on})
		}
		if c.on {
			s.load(root, root, files, saved)
		}
	}
	meta.WriteReposInfoFile(filepath.Join(dir, "hub"), filepath.Join(dir, "hub", "repos.hub"), infos, "\t")

	d := desc(cs)
	if cs.C == "flows" {
		if r := e.Run("qflows"); !r.OK {
			return Bad("%s: loading the flows stopped: %v", d, r.Panic)
		}
		e.Again()
	}
	if r := e.Run("qhub"); !r.OK {
		return Bad("%s: loading the hub stopped: %v", d, r.Panic)
	}
	e.Again()
	after := map[string]*model.CmdTree{}
	commands(e.TC.Cmds, after)
	var run []string
	var tr []string
	count := 0
	for p, n := range s.nodes {
		if s.vague[p] || n.cmd == nil || n.cmd.ty == "BUILTIN" {
			continue
		}
		t := after[p]
		if t == nil {
			return Bad("%s: %s must be a command", d, p)
		}
		if t.IsEmpty() && before[p] != nil {
			return Bad("%s: %s was a builtin command", d, p)
		}
		c := t.Cmd()
		r := n.cmd
		count++
		var args []string
		ar := c.Args()
		for _, a := range ar.Names() {
			args = append(args, a+"="+ar.RawDefVal(a))
		}
		target := c.CmdLine()
		if r.ty == "EMPTYDIR" {
			target = ""
		}
		got := fmt.Sprintf("%s target %q help %q flow %q args %q from %s source %s", tyName(c), target, c.Help(), c.FlowStrs(), args, c.MetaFile(), strings.TrimSuffix(t.Source(), "/"))
		exp := fmt.Sprintf("%s target %q help %q flow %q args %q from %s source %s", r.ty, r.target, r.help, r.w.flow, r.w.args, r.file, n.src)
		if got != exp {
			return Bad("%s: %s must be %s, is %s", d, p, exp, got)
		}
	}
	for p, t := range after {
		if before[p] != nil {
			if h := shape(t); h != helps[p] || t.Source() != before[p].Source() || t.Cmd().MetaFile() != "" {
				return Bad("%s: the builtin command %s changed: %q, from %q %q", d, p, h, t.Source(), t.Cmd().MetaFile())
			}
			continue
		}
		if n := s.nodes[p]; !s.vague[p] && (n == nil || n.cmd == nil) {
			return Bad("%s: there must be no command %q (of %s)", d, p, t.Cmd().MetaFile())
		}
	}
	for a, p := range s.abbrs {
		if t := e.TC.Cmds.GetSubByPath(a, false); t == nil || t.DisplayPath() != p {
			return Bad("%s: %s must be another name of %s", d, a, p)
		}
	}
	// what is reported
	rep := map[string]bool{}
	for _, x := range e.CC.TolerableErrs.Uncatalogeds {
		rep[x.File] = true
	}
	for _, x := range e.CC.TolerableErrs.ConflictedWithBuiltin {
		for _, y := range x {
			rep[y.File] = true
		}
	}
	for _, z := range e.CC.TolerableErrs.Conflicteds {
		for _, x := range z {
			for _, y := range x {
				rep[y.File] = true
			}
		}
	}
	for p := range s.faults {
		if !rep[p] {
			return Bad("%s: the module %s must be reported, reported: %v", d, p, rep)
		}
	}
	for p := range rep {
		if !s.faults[p] && filepath.Base(p) != "empty.tihelp" {
			return Bad("%s: the module %s is reported", d, p)
		}
	}
	// running them
	var paths []string
	for p := range s.nodes {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		n := s.nodes[p]
		if s.vague[p] || n.cmd == nil || n.cmd.ty == "BUILTIN" {
			continue
		}
		x, ok := trace(s, n.cmd, 0)
		if !ok {
			continue
		}
		if len(run) > 0 {
			run = append(run, ":")
		}
		run = append(run, p)
		tr = append(tr, x...)
	}
	if len(run) > 0 {
		run = append(run, ":", "vm3")
		tr = append(tr, "vm3")
		r := e.Run(run...)
		b, _ := os.ReadFile(filepath.Join(dir, "trace.log"))
		got := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
		if !r.OK || !Eq(got, tr) {
			return Bad("%s: running %q must log %q, logged %q (%v %v)", d, run, tr, got, r.OK, r.Panic)
		}
	}
	return Out{Outcome: fmt.Sprintf("%s %d commands, %d faulty", cs.C, count, len(s.faults)), States: []string{d}, Steps: count + len(s.faults), Trivial: count+len(s.faults) == 0}
}

func trace(s *sim, r *reg, depth int) (tr []string, ok bool) {
	if depth > 5 {
		return nil, false
	}
	for _, x := range r.w.trace {
		if strings.HasPrefix(x, "<") {
			p := s.real(strings.Split(strings.Trim(x, "<>"), "."))
			n := s.nodes[p]
			if s.vague[p] || n == nil {
				return nil, false
			}
			if n.cmd == nil {
				continue
			}
			y, ok := trace(s, n.cmd, depth+1)
			if !ok {
				return nil, false
			}
			tr = append(tr, y...)
			continue
		}
		tr = append(tr, x)
	}
	switch r.ty {
	case "FILE", "BOTH", "DIRCMD":
		rel := r.target
		for _, c := range []string{"/m/", "/n/", "/.mods/"} {
			if i := strings.Index(rel, c); i >= 0 {
				rel = rel[i+len(c):]
				break
			}
		}
		var vals []string
		for _, a := range r.w.args {
			vals = append(vals, a[strings.Index(a, "=")+1:])
		}
		tr = append(tr, "S:"+rel+":"+strings.Join(vals, " "))
	case "META", "EMPTYDIR":
		tr = nil
	}
	return tr, true
}

func exec(key string) Out {
	var cs Case
	U(key, &cs)
	if cs.T == "a" {
		return trees(cs)
	}
	return metas(cs)
}

func gen(tier string, emit func(string)) {
	thorough := tier == "thorough"
	lim := 3
	if thorough {
		lim = 4
	}
	n := len(units)
	var comb func(at, left int, cur []int, f func([]int))
	comb = func(at, left int, cur []int, f func([]int)) {
		f(append([]int{}, cur...))
		if left == 0 {
			return
		}
		for i := at; i < n; i++ {
			comb(i+1, left-1, append(cur, i), f)
		}
	}
	comb(0, lim, nil, func(us []int) {
		if clash(us) {
			return
		}
		emit(J(Case{T: "a", C: "one", F: [][]int{us}}))
		if len(us) <= 1 {
			for _, c := range []string{"hidden", "slash", "off"} {
				emit(J(Case{T: "a", C: c, F: [][]int{us}}))
			}
		}
	})
	// two roots
	for _, c := range []string{"two", "flows", "offon", "onoff"} {
		comb(0, 2, nil, func(us []int) {
			comb(0, 2, nil, func(vs []int) {
				k := len(us) + len(vs)
				max := 2
				if c == "two" || c == "flows" {
					max = 3
				}
				if thorough {
					max++
				}
				if max > 4 {
					max = 4
				}
				if !thorough && k == 3 && (len(us) > 1) == (c == "two") {
					return // (quick: one order of the sizes each)
				}
				if !thorough && k == 3 && (us[0]+vs[0]+us[len(us)-1]+vs[len(vs)-1])%3 != 0 {
					return
				}
				if len(us) == 0 || len(vs) == 0 || k > max || clash(us) || clash(vs) {
					return
				}
				if k == 4 && (us[0]+us[1]+vs[0]+vs[1])%5 != 0 {
					return
				}
				if c == "flows" {
					for _, u := range us {
						if k := units[u][0].kind; k != flow && k != multi {
							return
						}
					}
				}
				emit(J(Case{T: "a", C: c, F: [][]int{us, vs}}))
			})
		})
	}
	genMetas(thorough, emit)
}

func main() {
	Main(Spec{ID: "P31", Level: "model_checking", CaseSec: 30, QuickSec: 300,
		Rule: "all sets of up to 3 (thorough: 4) out of 36 groups of files (metadata, scripts, flow files, combined flow files, nested, hidden, lists, help texts, plain files, 8 kinds of faulty ones) in one repository, and all splits over two (both enabled, either disabled, saved flows and a repository; the root hidden or with a slash); oracle: map from path to command by the file rules in the order of the walk; compared: all commands of the tree, the builtin ones, what is reported, and the log of running every command. Then all pairs (thorough: triples) of metadata features in all spellings and 4 layouts, against the declared arguments, defaults, enums, abbreviations, env operations and flags",
		Gen:  gen, Exec: exec})
}
