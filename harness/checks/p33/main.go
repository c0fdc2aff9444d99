// P33: automatically collected arguments reach exactly the right inner commands.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/mods/persist/mod_meta"

	"verif/eng"
	. "verif/vlib"
)

type arg struct {
	name string
	abbr string
	def  string
	key  string // "" not mapped
}

// leaf commands
type leaf struct {
	name   string
	args   []arg
	writes string // declared to write (and does)
}

var leaves = map[string]leaf{
	"la": {"la", []arg{{"x", "", "", "k.a"}, {"y", "", "dy", "k.y"}}, ""},
	"lb": {"lb", []arg{{"x", "xx", "dx", "k.b"}}, ""},
	"lc": {"lc", []arg{{"z", "", "", "k.z"}, {"u", "", "du", ""}}, ""},
	"ld": {"ld", []arg{{"w", "", "dw", ""}}, "k.y"},
	"le": {"le", []arg{{"e", "ee", "de", "k.e"}}, ""},
	"lp": {"lp", nil, "k.z"},
}

// what every command shows
var allKeys = []string{"k.a", "k.b", "k.e", "k.y", "k.z"}

// inner flows: body and own automatic selection
type inner struct {
	body []string
	sel  string
}

var inners = map[string]inner{
	"m1": {[]string{"la", "lc"}, ""},
	"m2": {[]string{"lb", "le"}, "x"},
	"m3": {[]string{"lc"}, "**"},
	"m4": {[]string{"le"}, "ee,p=3"},
	"m5": {[]string{"m2", "m3"}, "z,x"},
}

var items = []string{"la", "lb", "lb x=5", "la fx fy", "lc", "ld", "le", "lp", "{k.y=in} la", "m1", "m2", "m3", "m2 x=9", "m4", "le e=[[p]]", "m5", "m5 z=9"}

var sels = []string{
	"x", "y", "z", "xx", "ee", "w", "x,y", "y,x", "z,x,e", "*", "**", "z,*", "y,**", "p=7", "p=7,x", "x,p=7", "y,p=7,*", "q|qq = 'a b',x", "u", "nosuch,x", "y,e,z,x", "x,x,y", "x,xx", "xx,x", "p=7,p=7,y",
}

type kase struct {
	B []int  // body
	S string // selection
	O string // own args: "", "x" (plain), "o" (mapped to k.y), "n", "e" (the flow declares to write k.y)
	W bool   // called from another flow
}

func gen(tier string, emit func(string)) {
	owns := []string{"", "x", "o", "n", "e"}
	max := 2
	if tier == "thorough" {
		max = 3
	}
	n := 0
	Seqs(len(items), 1, max, func(b []int) {
		for _, s := range sels {
			for _, o := range owns {
				n++
				if tier != "thorough" && len(b) == 2 && n%6 != 0 {
					continue
				}
				if len(b) == 3 && n%5 != 0 {
					continue
				}
				emit(J(kase{append([]int{}, b...), s, o, n%4 == 1}))
			}
		}
	})
}

// --- the model

type exposed struct {
	name, key, def string
	abbrs          []string
	star           bool
}

type sel struct {
	names []string // explicit automatic names, in order
	order []string // all definitions by name in order
	own   []arg    // name=default definitions
	star  int      // 0, 1 '*', 2 '**'
}

func parseSel(s string) (r sel) {
	if s == "" {
		return
	}
	seen := map[string]bool{}
	for _, d := range strings.Split(s, ",") {
		d = strings.TrimSpace(d)
		switch {
		case d == "*":
			r.star = 1
		case d == "**":
			r.star = 2
		case seen[d]:
		case strings.Contains(d, "="):
			seen[d] = true
			i := strings.Index(d, "=")
			ns := strings.Split(strings.TrimSpace(d[:i]), "|")
			a := arg{name: ns[0], def: strings.Trim(strings.TrimSpace(d[i+1:]), "'")}
			if len(ns) > 1 {
				a.abbr = ns[1]
			}
			r.own = append(r.own, a)
			r.order = append(r.order, a.name)
		default:
			seen[d] = true
			r.names = append(r.names, d)
			r.order = append(r.order, d)
		}
	}
	return
}

// visit lists the inner commands of a body, first the inside of a flow
func visit(body []string, f func(cmd string)) {
	for _, it := range body {
		for _, w := range strings.Fields(it) {
			if _, ok := leaves[w]; ok {
				f(w)
				break
			}
			if m, ok := inners[w]; ok {
				visit(m.body, f)
				f(w)
				break
			}
		}
	}
}

// argsOf an inner command that can be collected
func argsOf(cmd string) (r []arg) {
	if l, ok := leaves[cmd]; ok {
		for _, a := range l.args {
			if a.key != "" {
				r = append(r, a)
			}
		}
	}
	return
}

// expose: the automatic arguments of a flow. alts holds the choices left open:
// one name collected by '*' from several commands.
func expose(body []string, s sel, own []arg, writes ...string) (r []exposed, unmapped []string, alts map[string][]exposed) {
	alts = map[string][]exposed{}
	taken := map[string]bool{}
	keys := map[string]bool{}
	for _, a := range own {
		taken[a.name] = true
		if a.key != "" {
			keys[a.key] = true
		}
	}
	for _, a := range s.own {
		taken[a.name] = true
		if a.abbr != "" {
			taken[a.abbr] = true
		}
	}
	written := map[string]bool{}
	for _, k := range writes {
		written[k] = true
	}
	visit(body, func(c string) {
		if w := leaves[c].writes; w != "" {
			written[w] = true
		}
	})
	// each argument goes to the first of the selected names it has
	got := map[string]*exposed{}
	met := map[string]bool{}
	visit(body, func(c string) {
		if met[c] {
			return
		}
		met[c] = true
		for _, a := range argsOf(c) {
			for _, n := range []string{a.name, a.abbr} {
				want := false
				for _, o := range s.names {
					want = want || n != "" && o == n
				}
				if want && got[n] == nil {
					if !keys[a.key] && !taken[n] {
						got[n] = &exposed{name: a.name, key: a.key, def: a.def}
						if a.abbr != "" {
							got[n].abbrs = []string{a.abbr}
						}
					}
					break
				}
			}
		}
	})
	for _, n := range s.names {
		e := got[n]
		if e == nil {
			unmapped = append(unmapped, n)
			continue
		}
		if taken[n] || keys[e.key] {
			continue
		}
		if taken[e.name] { // selected by its other name
			e.name, e.abbrs = n, nil
		}
		for _, a := range e.abbrs {
			if taken[a] {
				e.abbrs = nil
			}
		}
		r = append(r, *e)
		taken[e.name] = true
		for _, a := range e.abbrs {
			taken[a] = true
		}
		keys[e.key] = true
	}
	if s.star > 0 {
		visit(body, func(c string) {
			for _, a := range argsOf(c) {
				if taken[a.name] || keys[a.key] || s.star == 1 && written[a.key] {
					continue
				}
				e := exposed{name: a.name, key: a.key, def: a.def, star: true}
				if a.abbr != "" {
					e.abbrs = []string{a.abbr}
				}
				dup := false
				for _, o := range alts[a.name] {
					dup = dup || o.key == a.key
				}
				if !dup {
					alts[a.name] = append(alts[a.name], e)
				}
			}
		})
	}
	return
}

type sim struct {
	s   map[string]string
	log []string
}

func (m *sim) leaf(l leaf, given map[string]string, cmdEnv map[string]string) {
	vals := []string{}
	for _, a := range l.args {
		v, ok := given[a.name]
		if a.key != "" {
			if ok {
				m.s[a.key] = v
			} else if _, in := m.s[a.key]; !in && a.def != "" {
				m.s[a.key] = a.def
			}
		}
		if !ok {
			v = a.def
		}
		vals = append(vals, v)
	}
	line := l.name + " [" + strings.Join(vals, ",") + "]"
	for _, k := range allKeys {
		v, in := cmdEnv[k]
		if !in {
			v, in = m.s[k]
		}
		if in {
			line += " " + k + "=" + v
		}
	}
	m.log = append(m.log, line)
	if l.writes != "" {
		m.s[l.writes] = "by-" + l.name
	}
}

// enter a flow: the arguments mapped to keys
func (m *sim) enter(es []exposed, given map[string]string, deep bool) {
	for _, e := range es {
		v, ok := given[e.name]
		if ok {
			m.s[e.key] = v
		} else if _, in := m.s[e.key]; !in && e.def != "" && !(e.star && deep) {
			m.s[e.key] = e.def
		}
	}
}

func (m *sim) body(items []string, tmpl map[string]string, scope map[string]string) {
	for i, it := range items {
		cmdEnv := map[string]string{}
		for k, v := range scope {
			cmdEnv[k] = v
		}
		given := map[string]string{}
		var name string
		pos := 0
		for _, w := range strings.Fields(it) {
			switch {
			case strings.HasPrefix(w, "{"):
				kv := strings.SplitN(strings.Trim(w, "{}"), "=", 2)
				cmdEnv[kv[0]] = kv[1]
				if i == 0 { // at the head of a flow: for the rest of it
					scope = map[string]string{kv[0]: kv[1]}
				}
			case name == "":
				name = w
			case strings.Contains(w, "="):
				kv := strings.SplitN(w, "=", 2)
				if strings.HasPrefix(kv[1], "[[") {
					kv[1] = tmpl[strings.Trim(kv[1], "[]")]
				}
				given[kv[0]] = kv[1]
			default:
				given[leaves[name].args[pos].name] = w
				pos++
			}
		}
		if l, ok := leaves[name]; ok {
			m.leaf(l, given, cmdEnv)
			continue
		}
		in := inners[name]
		s := parseSel(in.sel)
		es, _, alts := expose(in.body, s, nil)
		for _, a := range alts {
			es = append(es, a[0])
		}
		m.enter(es, given, true)
		m.body(in.body, nil, cmdEnv)
	}
}

// --- the real thing

// call runs the flow on a fresh engine
func call(k kase, words []string) (log []string, names []string, res eng.Result) {
	dir, drop := eng.Scratch()
	defer drop()
	e := eng.New("")
	var lines []string
	for _, l := range leaves {
		l := l
		c := e.Power(l.name, func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
			vals := []string{}
			for _, a := range l.args {
				vals = append(vals, argv.GetRaw(a.name))
			}
			line := l.name + " [" + strings.Join(vals, ",") + "]"
			for _, k := range allKeys {
				if v, ok := env.GetEx(k); ok {
					line += " " + k + "=" + v.Raw
				}
			}
			lines = append(lines, line)
			if l.writes != "" {
				env.GetLayer(model.EnvLayerSession).Set(l.writes, "by-"+l.name)
			}
			return idx, true
		})
		for _, a := range l.args {
			if a.abbr != "" {
				c.AddArg(a.name, a.def, a.abbr)
			} else {
				c.AddArg(a.name, a.def)
			}
			if a.key != "" {
				c.AddArg2Env(a.key, a.name)
			}
		}
		if l.writes != "" {
			switch l.name { // kinds of providing it
			case "ld":
				c.AddEnvOp(l.writes, model.EnvOpTypeMayRead)
				c.AddEnvOp(l.writes, model.EnvOpTypeWrite)
			default:
				c.AddEnvOp(l.writes, model.EnvOpTypeMayWrite)
			}
		}
	}
	// flows come from files, as users write them
	file := func(name string, body []string, sel string, own string) {
		t := "help = flow " + name + "\n"
		if sel != "" {
			t += "args.auto = " + sel + "\n"
		}
		t += "flow = " + strings.Join(body, " : ") + "\n"
		switch own {
		case "x":
			t += "[args]\nx = ox\n"
		case "o":
			t += "[args]\no = \n[arg2env]\nk.y = o\n"
		case "n":
			t += "[args]\nn = dn\nm|mm = \n"
		case "e":
			t += "[env]\nk.y = write\n"
		}
		p := filepath.Join(dir, name+".tiflow")
		if err := os.WriteFile(p, []byte(t), 0644); err != nil {
			panic(err)
		}
		mod_meta.RegMod(e.CC, p, "", false, true, []string{name}, ".tiflow", "|", ".", "verif-repo", false)
	}
	for n, m := range inners {
		file(n, m.body, m.sel, "")
	}
	var body []string
	for _, i := range k.B {
		body = append(body, items[i])
	}
	file("outer", body, k.S, k.O)
	in := append([]string{"outer"}, words...)
	if k.W {
		file("wrap", []string{strings.Join(in, " ")}, "", "")
		in = []string{"wrap"}
	}
	res = e.Run(in...)
	if c := e.TC.Cmds.GetSubByPath("outer", false); c != nil && c.Cmd() != nil {
		args := c.Cmd().Args()
		names = args.Names()
	}
	return lines, names, res
}

func exec(key string) Out {
	var k kase
	U(key, &k)
	var body []string
	needP := false
	for _, i := range k.B {
		body = append(body, items[i])
		needP = needP || strings.Contains(items[i], "[[p]]")
	}
	s := parseSel(k.S)
	hasP := false
	for _, a := range s.own {
		hasP = hasP || a.name == "p"
	}
	if needP && !hasP {
		return Out{Trivial: true, Outcome: "template without a value (P14)"}
	}
	var own []arg
	switch k.O {
	case "x":
		own = []arg{{"x", "", "ox", ""}}
	case "o":
		own = []arg{{"o", "", "", "k.y"}}
	case "n":
		own = []arg{{"n", "", "dn", ""}, {"m", "mm", "", ""}}
	}
	var writes []string
	if k.O == "e" {
		writes = []string{"k.y"}
	}
	es, _, alts := expose(body, s, own, writes...)
	desc := fmt.Sprintf("flow %q, args.auto=%q, own args %q", strings.Join(body, " : "), k.S, k.O)
	// the argument names, in order
	var wantNames []string
	for _, a := range own {
		wantNames = append(wantNames, a.name)
	}
	seen := map[string]bool{}
	for _, n := range s.order {
		if seen[n] {
			continue
		}
		seen[n] = true
		isOwn := false
		for _, a := range s.own {
			isOwn = isOwn || a.name == n
		}
		if isOwn {
			wantNames = append(wantNames, n)
			continue
		}
		for _, e := range es {
			if (e.name == n || len(e.abbrs) > 0 && e.abbrs[0] == n) && !seen["arg "+e.name] {
				wantNames = append(wantNames, e.name)
				seen["arg "+e.name] = true
			}
		}
	}
	var starNames []string
	for n := range alts {
		starNames = append(starNames, n)
	}
	sort.Strings(starNames)
	wantNames = append(wantNames, starNames...)

	// every way to resolve the open choices
	choices := [][]exposed{append([]exposed{}, es...)}
	for _, n := range starNames {
		var next [][]exposed
		for _, c := range choices {
			for _, a := range alts[n] {
				next = append(next, append(append([]exposed{}, c...), a))
			}
		}
		choices = next
	}
	type run struct {
		words []string
		given map[string]string
		bad   bool
	}
	runs := []run{{nil, map[string]string{}, false}}
	all := run{nil, map[string]string{}, false}
	pos := run{nil, map[string]string{}, false}
	for i, n := range wantNames {
		v := fmt.Sprintf("v%d", i)
		runs = append(runs, run{[]string{n + "=" + v}, map[string]string{n: v}, false})
		all.words = append(all.words, n+"="+v)
		all.given[n] = v
		pos.words = append(pos.words, v)
		pos.given[n] = v
	}
	for _, e := range es {
		for _, a := range e.abbrs {
			runs = append(runs, run{[]string{a + "=va"}, map[string]string{e.name: "va"}, false})
		}
	}
	for _, a := range s.own {
		if a.abbr != "" {
			runs = append(runs, run{[]string{a.abbr + "=va"}, map[string]string{a.name: "va"}, false})
		}
	}
	if len(wantNames) > 1 {
		for i, j := 0, len(all.words)-1; i < j; i, j = i+1, j-1 {
			all.words[i], all.words[j] = all.words[j], all.words[i]
		}
		runs = append(runs, all)
	}
	if len(wantNames) > 0 {
		runs = append(runs, pos)
	}
	taken := map[string]bool{}
	for _, n := range wantNames {
		taken[n] = true
	}
	for _, c := range choices {
		for _, e := range c {
			for _, a := range e.abbrs {
				taken[a] = true
			}
		}
	}
	for _, n := range []string{"x", "y", "z", "w", "e", "u", "p"} {
		if !taken[n] {
			runs = append(runs, run{[]string{n + "=vb"}, nil, true})
		}
	}
	tooMany := append(append([]string{}, pos.words...), "extra")
	runs = append(runs, run{tooMany, nil, true})

	live := make([]bool, len(choices))
	for i := range live {
		live[i] = true
	}
	var trans []string
	for _, r := range runs {
		log, names, res := call(k, r.words)
		d := fmt.Sprintf("%s, called with %q", desc, r.words)
		if !Eq(names, wantNames) {
			return Bad("%s: the flow should have the arguments %q, it has %q", desc, wantNames, names)
		}
		if r.bad {
			if res.OK || len(log) > 0 {
				return Bad("%s: an argument the flow does not have was accepted (%v), ran %q", d, res, log)
			}
			continue
		}
		if !res.OK {
			return Bad("%s: the run failed: %v %v", d, res, res.Panic)
		}
		anyOK := false
		var want []string
		for i, c := range choices {
			if !live[i] {
				continue
			}
			m := &sim{s: map[string]string{}}
			if v, ok := r.given["o"]; ok && k.O == "o" {
				m.s["k.y"] = v
			}
			m.enter(c, r.given, k.W)
			p := ""
			for _, a := range s.own {
				if a.name == "p" {
					p = a.def
				}
			}
			if v, ok := r.given["p"]; ok {
				p = v
			}
			m.body(body, map[string]string{"p": p}, nil)
			if Eq(m.log, log) {
				anyOK = true
			} else {
				live[i] = false
				want = m.log
			}
		}
		if !anyOK {
			return Bad("%s: the inner commands should see %q, they saw %q", d, want, log)
		}
		trans = append(trans, strings.Join(log, ";"))
	}
	return Out{Outcome: fmt.Sprintf("%d args, %d choices", len(wantNames), len(choices)), Trans: trans, Steps: len(runs), Trivial: len(wantNames) == len(own)}
}

func main() {
	Main(Spec{ID: "P33", Level: "model_checking", CaseSec: 20, QuickSec: 300,
		Rule: "flows over every sequence of up to 2 (thorough 3) of 15 inner forms (six leaf commands, flows, flows that collect themselves, fixed values, braces, templates) x 21 selections x own arguments x called directly or from a flow; each called with nothing, every argument by every name, all by name, all by position, every name it does not have and a surplus word; oracle: a model of collection and of the environment keys every inner command sees",
		Gen:  gen, Exec: exec})
}
