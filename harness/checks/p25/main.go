// P25: flow management changes exactly the flows it names.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/mods/builtin"
	"github.com/innerr/ticat/pkg/mods/persist/meta_file"
	"github.com/innerr/ticat/pkg/ticat"

	"verif/eng"
	. "verif/vlib"
)

// file is a flow file as the model knows it: global properties and sections.
type file struct {
	body []string          // commands
	prop map[string]string // "section/key" -> value, without flow
}

func (f *file) clone() *file {
	p := map[string]string{}
	for k, v := range f.prop {
		p[k] = v
	}
	return &file{append([]string{}, f.body...), p}
}

func (f *file) String() string {
	var r []string
	for k, v := range f.prop {
		r = append(r, fmt.Sprintf("%s=%q", k, v))
	}
	sort.Strings(r)
	return strings.Join(f.body, ":") + "{" + strings.Join(r, " ") + "}"
}

type disk map[string]*file // flow path -> file

func (d disk) clone() disk {
	r := disk{}
	for k, v := range d {
		r[k] = v.clone()
	}
	return r
}
func (d disk) names() []string {
	var r []string
	for k := range d {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
func (d disk) String() string {
	var r []string
	for _, k := range d.names() {
		r = append(r, k+"="+d[k].String())
	}
	return strings.Join(r, " ")
}

// world is the model state: the flows and the extra directory.
type world struct{ flows, dir disk }

// Commands that are no saved flows (with the nodes above them).
var fixed = map[string]bool{"vm1": true, "vm2": true, "vm3": true, "vq": true, "vq.r": true, "flow": true, "flow.list": true, "dummy": true}

// real resolves abbreviations of flows and builtins, segment by segment.
func (w *world) real(path string) string {
	if path == "f" {
		return "flow.list" // (an alias of a builtin: any existing command will do)
	}
	segs := strings.Split(path, ".")
	for i := range segs {
		at := strings.Join(segs[:i+1], ".")
		for n, f := range w.flows {
			p, last := "", n
			if j := strings.LastIndex(n, "."); j >= 0 {
				p, last = n[:j+1], n[j+1:]
			}
			for _, a := range strings.Split(f.prop["/abbrs"], "|") {
				if a != "" && p+a == at {
					segs[i] = last
				}
			}
		}
	}
	return strings.Join(segs, ".")
}

// node tells whether the path is a command or above one.
func (w *world) node(path string) bool {
	if fixed[path] {
		return true
	}
	for n := range w.flows {
		if n == path || strings.HasPrefix(n, path+".") {
			return true
		}
	}
	return false
}

// op is one start of the program. do returns whether it must succeed.
type op struct {
	args []string
	ask  string // "": never asks; otherwise the line typed at every question
	do   func(w *world, ask bool) bool
}

func save(path string, body []string, prop map[string]string, force bool) func(w *world, ask bool) bool {
	return func(w *world, ask bool) bool {
		p := w.real(path)
		if w.flows[p] != nil {
			if !ask {
				return false
			}
		} else if w.node(p) {
			return false
		}
		w.flows[p] = &file{body, with(map[string]string{"/args.auto": "*", "/pack-subflow": "false"}, prop)}
		return true
	}
}

func with(a, b map[string]string) map[string]string {
	r := map[string]string{}
	for k, v := range a {
		r[k] = v
	}
	for k, v := range b {
		r[k] = v
	}
	return r
}

func rename(src, dst string) func(w *world, ask bool) bool {
	return func(w *world, ask bool) bool {
		s, d := w.real(src), w.real(dst)
		if w.flows[s] == nil {
			return false
		}
		if w.flows[d] != nil {
			if !ask {
				return false
			}
		} else if w.node(d) {
			return false
		}
		f := w.flows[s]
		delete(w.flows, s)
		w.flows[d] = f
		return true
	}
}

func help(path, text string) func(w *world, ask bool) bool {
	return func(w *world, ask bool) bool {
		p := w.real(path)
		if w.flows[p] == nil {
			return false
		}
		w.flows[p].prop["/help"] = text
		return true
	}
}

func rm(path string) func(w *world, ask bool) bool {
	return func(w *world, ask bool) bool {
		p := w.real(path)
		if w.flows[p] == nil {
			return false
		}
		delete(w.flows, p)
		return true
	}
}

func mv(w *world, ask bool) bool {
	for _, n := range w.flows.names() {
		if w.dir[n] != nil && !ask {
			return false // (the order is the file order; the ones before are moved)
		}
		w.dir[n] = w.flows[n]
		delete(w.flows, n)
	}
	return true
}

func seq(fs ...func(w *world, ask bool) bool) func(w *world, ask bool) bool {
	return func(w *world, ask bool) bool {
		for _, f := range fs {
			if !f(w, ask) {
				return false
			}
		}
		return true
	}
}

var none = func(w *world, ask bool) bool { return true }

func wds(s string) []string { return strings.Split(s, " ") }

func b(s ...string) []string { return s }

var ops = []op{
	{wds("vm1 : flow.save f1"), "", save("f1", b("vm1"), nil, false)},
	{wds("vm2 : vm3 : flow.save f1"), "", save("f1", b("vm2", "vm3"), nil, false)},
	{append(wds("vm2 : vm1 : flow.save path=f2"), "help=a b", "args=x,y"), "", save("f2", b("vm2", "vm1"), map[string]string{"/help": "a b", "/args.auto": "x,y"}, false)},
	{wds("f1 : vm3 : flow.save a.b"), "", seq(needs("f1"), save("a.b", b("f1", "vm3"), nil, false))},
	{wds("vm3 : flow.save path=a.b.c trivial=2"), "", save("a.b.c", b("vm3"), map[string]string{"/trivial": "2"}, false)},
	{wds("vm3 : flow.save a"), "", save("a", b("vm3"), nil, false)},
	{wds("vm1 : flow.save vm2"), "", save("vm2", b("vm1"), nil, false)},
	{wds("vm1 : flow.save f"), "", save("f", b("vm1"), nil, false)},
	{wds("vm1 : flow.save flow.list"), "", save("flow.list", b("vm1"), nil, false)},
	{wds("vm1 : flow.save vq.s"), "", save("vq.s", b("vm1"), nil, false)},
	{wds("vm1 : flow.save f1.f2"), "", save("f1.f2", b("vm1"), nil, false)},
	{wds("vm1 : flow.save hh"), "", save("hh", b("vm1"), nil, false)},
	{wds("vm3 : vm3 : flow.save f1"), "y", save("f1", b("vm3", "vm3"), nil, false)},
	{wds("vm3 : vm3 : flow.save f1"), "n", save("f1", b("vm3", "vm3"), nil, false)},
	{wds("vm3 : flow.save path=f2 quiet-overwrite=true"), "n", save("f2", b("vm3"), nil, true)},
	{wds("vm3 : flow.save h1"), "y", save("h1", b("vm3"), nil, false)},
	{wds("vm3 : flow.save vm1"), "y", save("vm1", b("vm3"), nil, false)},
	{wds("flow.rename f1 f2"), "", rename("f1", "f2")},
	{wds("flow.rename f1 f2"), "y", rename("f1", "f2")},
	{wds("flow.rename f1 f2"), "n", rename("f1", "f2")},
	{wds("flow.rename f2 f1"), "", rename("f2", "f1")},
	{wds("flow.rename f1 a.b"), "", rename("f1", "a.b")},
	{wds("flow.rename a.b f1"), "", rename("a.b", "f1")},
	{wds("flow.rename hh f3"), "", rename("hh", "f3")},
	{wds("flow.rename f2 hh"), "", rename("f2", "hh")},
	{wds("flow.rename f2 hh"), "y", rename("f2", "hh")},
	{wds("flow.rename f1 vm1"), "", rename("f1", "vm1")},
	{wds("flow.rename f1 vm1"), "y", rename("f1", "vm1")},
	{wds("flow.rename vm1 f4"), "", rename("vm1", "f4")},
	{wds("flow.rename f1 f"), "", rename("f1", "f")},
	{wds("flow.rename f1 hhh"), "", rename("f1", "hhh")},
	{wds("flow.rename hhh h2"), "", rename("hhh", "h2")},
	{wds("flow.rename f1 hh.x"), "", rename("f1", "hh.x")},
	{wds("flow.rename hh f2"), "y", rename("hh", "f2")},
	{wds("flow.rename f1 f1"), "y", rename("f1", "f1")},
	{wds("flow.rename nosuch f4"), "", rename("nosuch", "f4")},
	{append(wds("flow.set-help-str f1"), "new  help"), "", help("f1", "new  help")},
	{append(wds("flow.set-help-str hh"), "x # y"), "", help("hh", "x # y")},
	{append(wds("flow.help a.b"), "t"), "", help("a.b", "t")},
	{append(wds("flow.set-help-str vm1"), "t"), "", help("vm1", "t")},
	{wds("flow.rm f1"), "", rm("f1")},
	{wds("flow.remove f2"), "", rm("f2")},
	{wds("flow.rm a.b"), "", rm("a.b")},
	{wds("flow.rm a"), "", rm("a")},
	{wds("flow.rm hh"), "", rm("hh")},
	{wds("flow.rm vm1"), "", rm("vm1")},
	{wds("flow.rm f"), "", rm("f")},
	{wds("flow.rename f1 f5 : flow.rm f2"), "", seq(rename("f1", "f5"), rm("f2"))},
	{wds("flow.clear"), "", func(w *world, ask bool) bool { w.flows = disk{}; return true }},
	{wds("flow.mv.all DIR"), "", mv},
	{wds("flow.mv.all DIR"), "y", mv},
	{wds("flow.mv.all DIR"), "n", mv},
	{wds("flow.list"), "", none},
	{wds("vm1 : flow.save path=vm2 to-dir=DIR"), "", save("vm2", b("vm1"), nil, false)},
	{wds("vm1 : flow.save path=vm2 quiet-overwrite=true"), "", save("vm2", b("vm1"), nil, false)},
	{wds("vm3 : vm2 : flow.save path=f2 to-dir=DIR quiet-overwrite=true"), "n", func(w *world, ask bool) bool {
		if w.dir["f2"] == nil && w.flows["f2"] != nil {
			return false
		}
		w.dir["f2"] = &file{b("vm3", "vm2"), map[string]string{"/args.auto": "*", "/pack-subflow": "false"}}
		return true
	}},
	{wds("vm1 : flow.save path=d1 to-dir=DIR"), "", func(w *world, ask bool) bool {
		if w.dir["d1"] != nil || w.flows["d1"] != nil {
			return false
		}
		w.dir["d1"] = &file{b("vm1"), map[string]string{"/args.auto": "*", "/pack-subflow": "false"}}
		return true
	}},
}

// needs: the line only parses when the flow exists; otherwise the save asks
// what to do about the parse error (no answer: refused).
func needs(p string) func(w *world, ask bool) bool {
	return func(w *world, ask bool) bool { return w.node(p) }
}

var start = []string{"empty", "two", "hand"}

const hand = `# a comment
help = handwritten
abbrs = hh|hhh
tags = @t1 @t2
flow = vm2 : \
 vm1
args.auto = zz
[args]
x|xx = 1
[env]
k1 = may-read
[val2env]
k2 = v2
`

func initial(name string) *world {
	w := &world{disk{}, disk{}}
	switch name {
	case "two":
		save("f1", b("vm1", "vm2"), nil, false)(w, false)
		save("f2", b("vm3"), nil, false)(w, false)
	case "hand":
		save("f1", b("vm1"), nil, false)(w, false)
		save("f2", b("vm2"), nil, false)(w, false)
		w.flows["a.b"] = &file{b("vm3"), map[string]string{}}
		w.flows["h1"] = &file{b("vm2", "vm1"), map[string]string{"/help": "handwritten", "/abbrs": "hh|hhh", "/tags": "@t1 @t2",
			"/args.auto": "zz", "args/x|xx": "1", "env/k1": "may-read", "val2env/k2": "v2"}}
		w.dir["f2"] = &file{b("vm1", "vm1"), map[string]string{}}
		w.dir["o"] = &file{b("vm1"), map[string]string{}}
	}
	return w
}

func put(dir string, w *world) {
	put1 := func(sub string, d disk) {
		_ = os.MkdirAll(filepath.Join(dir, sub), 0755)
		for n, f := range d {
			s := ""
			if n == "h1" {
				s = hand
			} else {
				for _, k := range []string{"help", "args.auto", "pack-subflow"} {
					if v, ok := f.prop["/"+k]; ok {
						s += k + " = " + v + "\n"
					}
				}
				s += "flow = " + strings.Join(f.body, " : ") + "\n"
			}
			must(os.WriteFile(filepath.Join(dir, sub, n+".tiflow"), []byte(s), 0644))
		}
		must(os.WriteFile(filepath.Join(dir, sub, "notes.txt"), []byte("mine\n"), 0644))
		must(os.WriteFile(filepath.Join(dir, sub, "f1.tiflow.bak"), []byte("mine\n"), 0644))
	}
	put1("flows", w.flows)
	put1("extra", w.dir)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// read gives what is really on disk.
func read(dir string) (d disk, others []string) {
	d = disk{}
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		p := filepath.Join(dir, e.Name())
		if !strings.HasSuffix(e.Name(), ".tiflow") {
			t, _ := os.ReadFile(p)
			others = append(others, e.Name()+":"+strings.TrimSpace(string(t)))
			continue
		}
		f := &file{nil, map[string]string{}}
		for _, m := range meta_file.NewMetaFile(p) {
			for sn, sec := range m.Meta.GetAll() {
				for _, k := range sec.Keys() {
					if sn == "" && k == "flow" {
						for _, c := range strings.Split(strings.Join(sec.GetMultiLineVal("flow", false), " "), ":") {
							f.body = append(f.body, strings.TrimSpace(c))
						}
						continue
					}
					f.prop[sn+"/"+k] = sec.Get(k)
				}
			}
		}
		d[strings.TrimSuffix(e.Name(), ".tiflow")] = f
	}
	return
}

type kase struct {
	S string
	H []int
	B bool `json:",omitempty"` // through the real program
}

func gen(tier string, emit func(string)) {
	n := 2
	if tier == "thorough" {
		n = 3
	}
	for _, s := range start {
		m := n
		if s == "hand" {
			m = 3
		}
		if s == "empty" && n > 2 {
			m = 2 // (its histories begin like those of the others with nothing)
		}
		i := 0
		Seqs(len(ops), 1, m, func(h []int) {
			i++
			if len(h) == 3 && n == 2 && i%97 != 0 {
				return
			}
			emit(J(kase{S: s, H: append([]int{}, h...)}))
		})
	}
	i := 0
	for _, s := range start {
		Seqs(len(ops), 1, 2, func(h []int) {
			i++
			if len(h) == 1 || tier == "thorough" && i%5 == 0 {
				emit(J(kase{S: s, H: append([]int{}, h...), B: true}))
			}
		})
	}
}

// what the last start showed
var shown string

var listed = regexp.MustCompile(`(?m)^\s*(?:\x1b\[[0-9;]*m)*\[(\S+)\]`)

// what the flows are looked for by
var finds = [][]string{nil, {"vm2"}, {"h|"}, {"written"}, {"f1"}, {"vm1", "h"}, {"nosuch"}}

// runner is one start of the program.
type runner func(args []string, ask string) (ok bool, why string, trace []string)

func inproc(dir string) runner {
	return func(args []string, ask string) (ok bool, why string, trace []string) {
		e := eng.New(dir)
		for _, m := range []string{"vm1", "vm2", "vm3", "vq.r"} {
			e.Mark(m)
		}
		e.Power("qload", builtin.LoadFlows)
		if r := e.Run("qload"); !r.OK {
			return false, fmt.Sprintf("loading failed: %v", r.Panic), nil
		}
		if n := len(e.CC.TolerableErrs.Uncatalogeds) + len(e.CC.TolerableErrs.ConflictedWithBuiltin) + len(e.CC.TolerableErrs.Conflicteds); n > 0 {
			why = fmt.Sprintf("load errors %v %v %v; ", e.CC.TolerableErrs.Uncatalogeds, e.CC.TolerableErrs.ConflictedWithBuiltin, e.CC.TolerableErrs.Conflicteds)
		}
		e.Again()
		if ask != "" {
			e.Env.GetLayer(model.EnvLayerSession).SetBool("sys.confirm.ask", true)
		}
		pr, pw, err := os.Pipe()
		must(err)
		for i := 0; i < 8 && ask != ""; i++ {
			fmt.Fprintln(pw, ask)
		}
		pw.Close()
		old := os.Stdin
		os.Stdin = pr
		var res eng.Result
		eng.SwapStdout(func() { res = e.Run(args...) })
		shown = e.Screen.Text()
		os.Stdin = old
		pr.Close()
		return res.OK, why + fmt.Sprint(res.Panic), e.Trace()
	}
}

func inbox(x *eng.Box) runner {
	return func(args []string, ask string) (bool, string, []string) {
		must(os.WriteFile(x.Data("bootstrap.env"), []byte(fmt.Sprintf("sys.confirm.ask=%v\n", ask != "")), 0644))
		x.In = ""
		if ask != "" {
			x.In = strings.Repeat(ask+"\n", 8)
		}
		r := x.Run(args...)
		shown = r.Out
		return r.OK(), fmt.Sprintf("%.600s %.600s", r.Out, r.Err), x.Out()
	}
}

func exec(key string) Out {
	var k kase
	U(key, &k)
	var run runner
	dir := ""
	if k.B {
		x := eng.NewBox()
		defer x.Close()
		dir = x.Dir
		must(os.MkdirAll(x.Data("flows"), 0755))
		must(os.Symlink(x.Data("flows"), x.Path("flows")))
		run = inbox(x)
	} else {
		d, drop := eng.Scratch()
		defer drop()
		dir = d
		run = inproc(dir)
	}
	w := initial(k.S)
	put(dir, w)
	hist := []string{}
	var st []string
	oks := 0
	for _, oi := range k.H {
		o := ops[oi]
		args := append([]string{}, o.args...)
		for i := range args {
			args[i] = strings.ReplaceAll(args[i], "DIR", filepath.Join(dir, "extra"))
		}
		h := strings.Join(o.args, " ")
		if o.ask != "" {
			h += " <" + o.ask
		}
		hist = append(hist, h)
		n := &world{w.flows.clone(), w.dir.clone()}
		ok := o.do(n, o.ask == "y" || strings.Contains(h, "quiet-overwrite"))
		desc := fmt.Sprintf("from %s, %q", k.S, hist)
		mvPart := !ok && strings.HasPrefix(h, "flow.mv")
		seqPart := !ok && strings.Contains(h, " : flow.rm")
		if ok || mvPart || seqPart {
			w = n
		}
		got, why, tr := run(args, o.ask)
		if got != ok {
			return Bad("%s: the last must end with %v, ended with %v: %s", desc, ok, got, why)
		}
		if len(tr) > 0 {
			return Bad("%s: the last must run no other command, ran %q", desc, tr)
		}
		if v := compare(dir, w, desc); v != "" {
			return Bad("%s", v)
		}
		st = append(st, w.flows.String()+" / "+w.dir.String())
		if ok {
			oks++
		}
	}
	// every saved flow runs at the next start
	for _, n := range w.flows.names() {
		want, ok := trace(w, n, 0)
		if !ok && loops(w, n, 0) {
			continue // a flow which contains itself: not judged
		}
		got, why, tr := run([]string{n}, "")
		desc := fmt.Sprintf("from %s, %q, then running %q", k.S, hist, n)
		if got != ok || (ok && !Eq(tr, want)) {
			return Bad("%s: must end with %v after %q, ended with %v after %q: %s", desc, ok, want, got, tr, why)
		}
	}
	// the list has exactly the saved flows having all the words
	for _, ws := range finds {
		want := map[string]bool{}
		for n, f := range w.flows {
			all := strings.Join(append([]string{n, f.prop["/help"], f.prop["/abbrs"]}, f.body...), "\n")
			has := true
			for _, x := range ws {
				has = has && strings.Contains(all, x)
			}
			want[n] = has
		}
		ok, why, tr := run(append([]string{"flow.list"}, ws...), "")
		desc := fmt.Sprintf("from %s, %q, then flow.list %q", k.S, hist, ws)
		if !ok || len(tr) > 0 {
			return Bad("%s: %v, ran %q, %s", desc, ok, tr, why)
		}
		for _, m := range listed.FindAllStringSubmatch(shown, -1) {
			if !want[m[1]] {
				return Bad("%s: %s is shown (or twice): %.600s", desc, m[1], shown)
			}
			want[m[1]] = false
		}
		for n, x := range want {
			if x {
				return Bad("%s: %s is not shown: %.600s", desc, n, shown)
			}
		}
	}
	got, why, tr := run([]string{"vm1", ":", "vq.r"}, "")
	if !got || !Eq(tr, []string{"vm1", "vq.r"}) {
		return Bad("from %s, %q: then vm1 : vq.r must run, got %v %q: %s", k.S, hist, got, tr, why)
	}
	if v := compare(dir, w, fmt.Sprintf("from %s, %q, after running them", k.S, hist)); v != "" {
		return Bad("%s", v)
	}
	return Out{Outcome: fmt.Sprintf("%d done, %d flows", oks, len(w.flows)), States: st, Steps: len(k.H) + len(w.flows)}
}

// trace is what running the flow must log; false: it must be refused.
func trace(w *world, n string, depth int) ([]string, bool) {
	var r []string
	if depth > 6 {
		return nil, false
	}
	for _, c := range w.flows[n].body {
		switch {
		case fixed[c]:
			r = append(r, c)
		case w.flows[w.real(c)] == nil && w.node(c):
			// a bare directory of commands runs nothing
		case w.flows[w.real(c)] == nil:
			return nil, false
		default:
			s, ok := trace(w, w.real(c), depth+1)
			if !ok {
				return nil, false
			}
			r = append(r, s...)
		}
	}
	return r, true
}

func loops(w *world, n string, depth int) bool {
	if depth > 6 {
		return true
	}
	for _, c := range w.flows[n].body {
		if !fixed[c] && w.flows[w.real(c)] != nil && loops(w, w.real(c), depth+1) {
			return true
		}
	}
	return false
}

func compare(dir string, w *world, desc string) string {
	for _, x := range []struct {
		sub string
		d   disk
	}{{"flows", w.flows}, {"extra", w.dir}} {
		d, others := read(filepath.Join(dir, x.sub))
		if d.String() != x.d.String() {
			return fmt.Sprintf("%s: the files in %s must be %v, are %v", desc, x.sub, x.d, d)
		}
		if !Eq(others, []string{"f1.tiflow.bak:mine", "notes.txt:mine"}) {
			return fmt.Sprintf("%s: the other files in %s changed: %q", desc, x.sub, others)
		}
	}
	return ""
}

func reg(tc *ticat.TiCat) {
	for _, m := range []string{"vm1", "vm2", "vm3", "vq.r"} {
		m := m
		node := tc.Cmds.GetOrAddSub(strings.Split(m, ".")...)
		node.RegPowerCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
			eng.Observe(m)
			return idx, true
		}, "verif "+m)
		node.SetSource("verif-repo")
	}
}

func main() {
	eng.TicatMain(reg)
	Main(Spec{ID: "P25", Level: "model_checking", CaseSec: 30, QuickSec: 300,
		Rule: "from 3 initial sets of flows, every history of 2 (thorough: 3, some of one more) starts out of 57 flow management commands (save, rename, move, describe, remove, clear; new, existing, builtin, nested and abbreviated paths; confirmed, declined, not asked); single ones (thorough: some pairs) through the real program; oracle: map from path to commands and properties, compared with the files after every start and by running every flow in a fresh start",
		Gen:  gen, Exec: exec})
}
