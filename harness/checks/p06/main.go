// P06: environment lookups see the innermost layer, writes stay in their layer.
package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/innerr/ticat/pkg/core/model"

	"verif/eng"
	. "verif/vlib"
)

type mval struct {
	v        string
	arg, sys bool
}

// mlayer is the reference layer.
type mlayer struct {
	ty     model.EnvLayerType
	parent *mlayer
	m      map[string]mval
}

func (l *mlayer) get(k string) (mval, bool) {
	for ; l != nil; l = l.parent {
		if v, ok := l.m[k]; ok {
			return v, true
		}
	}
	return mval{}, false
}

func (l *mlayer) set(k string, v mval) {
	if o, ok := l.get(k); ok && o.v == v.v {
		return
	}
	l.m[k] = v
}

func (l *mlayer) clone() *mlayer {
	if l == nil {
		return nil
	}
	m := map[string]mval{}
	for k, v := range l.m {
		m[k] = v
	}
	return &mlayer{l.ty, l.parent.clone(), m}
}

func (l *mlayer) layer(ty model.EnvLayerType) *mlayer {
	for ; l != nil && l.ty != ty; l = l.parent {
	}
	return l
}

func (l *mlayer) flat(def bool, pre []string, noArgs bool, res map[string]string) {
	if l.ty == model.EnvLayerDefault && !def {
		return
	}
	if l.parent != nil {
		l.parent.flat(def, pre, noArgs, res)
	}
	for k, v := range l.m {
		skip := noArgs && v.arg
		for _, p := range pre {
			if p != "" && strings.HasPrefix(k, p) {
				skip = true
			}
		}
		if !skip {
			res[k] = v.v
		}
	}
}

type op struct {
	name string
	ok   func(nh int) bool
	real func(h []*model.Env) []*model.Env
	mod  func(h []*mlayer) []*mlayer
}

var ops []op

const maxH = 4

func add(name string, need int, real func(h []*model.Env) []*model.Env, mod func(h []*mlayer) []*mlayer) {
	ops = append(ops, op{name, func(nh int) bool { return need < nh }, real, mod})
}

func init() {
	keys := []string{"a", "sys.b"}
	for h := 0; h < maxH; h++ {
		h := h
		for _, k := range keys {
			k := k
			for _, v := range []string{"1", "2"} {
				v := v
				add(fmt.Sprintf("set%d %s=%s", h, k, v), h,
					func(e []*model.Env) []*model.Env { e[h].Set(k, v); return e },
					func(m []*mlayer) []*mlayer { m[h].set(k, mval{v, false, false}); return m })
			}
			add(fmt.Sprintf("del%d %s", h, k), h,
				func(e []*model.Env) []*model.Env { e[h].Delete(k); return e },
				func(m []*mlayer) []*mlayer {
					for l := m[h]; l != nil; l = l.parent {
						delete(l.m, k)
					}
					return m
				})
		}
		add(fmt.Sprintf("arg%d a=3", h), h,
			func(e []*model.Env) []*model.Env { e[h].SetEx("a", "3", true, false); return e },
			func(m []*mlayer) []*mlayer { m[h].set("a", mval{"3", true, false}); return m })
		add(fmt.Sprintf("setifempty%d a=3", h), h,
			func(e []*model.Env) []*model.Env { e[h].SetIfEmpty("a", "3"); return e },
			func(m []*mlayer) []*mlayer {
				if _, ok := m[h].get("a"); !ok {
					m[h].m["a"] = mval{"3", false, false}
				}
				return m
			})
		add(fmt.Sprintf("delself%d a", h), h,
			func(e []*model.Env) []*model.Env { e[h].DeleteInSelfLayer("a"); return e },
			func(m []*mlayer) []*mlayer { delete(m[h].m, "a"); return m })
		add(fmt.Sprintf("delex%d a", h), h,
			func(e []*model.Env) []*model.Env { e[h].DeleteEx("a", model.EnvLayerDefault); return e },
			func(m []*mlayer) []*mlayer {
				for l := m[h]; l != nil && l.ty != model.EnvLayerDefault; l = l.parent {
					delete(l.m, "a")
				}
				return m
			})
		add(fmt.Sprintf("new%d", h), h,
			func(e []*model.Env) []*model.Env { return push(e, e[h].NewLayer(model.EnvLayerSubFlow)) },
			func(m []*mlayer) []*mlayer { return push(m, &mlayer{model.EnvLayerSubFlow, m[h], map[string]mval{}}) })
		add(fmt.Sprintf("clone%d", h), h,
			func(e []*model.Env) []*model.Env { return push(e, e[h].Clone()) },
			func(m []*mlayer) []*mlayer { return push(m, m[h].clone()) })
		add(fmt.Sprintf("dedup%d", h), h,
			func(e []*model.Env) []*model.Env { e[h].Deduplicate(); return e },
			func(m []*mlayer) []*mlayer {
				for k, v := range m[h].m {
					if m[h].parent == nil {
						break
					}
					if o, ok := m[h].parent.get(k); ok && o.v == v.v {
						delete(m[h].m, k)
					}
				}
				return m
			})
		add(fmt.Sprintf("cleancurr%d", h), h,
			func(e []*model.Env) []*model.Env { e[h].CleanCurrLayer(); return e },
			func(m []*mlayer) []*mlayer { m[h].m = map[string]mval{}; return m })
		for _, rec := range []bool{false, true} {
			rec := rec
			add(fmt.Sprintf("clear%d %v", h, rec), h,
				func(e []*model.Env) []*model.Env { e[h].Clear(rec); return e },
				func(m []*mlayer) []*mlayer {
					for l := m[h]; l != nil; l = l.parent {
						for k := range l.m {
							if !strings.HasPrefix(k, "sys.") && k != "session" {
								delete(l.m, k)
							}
						}
						if !rec {
							break
						}
					}
					return m
				})
		}
		for g := 0; g < maxH; g++ {
			if g == h {
				continue
			}
			g := g
			need := g
			if h > g {
				need = h
			}
			add(fmt.Sprintf("merge%d<-%d", h, g), need,
				func(e []*model.Env) []*model.Env { e[h].Merge(e[g]); return e },
				func(m []*mlayer) []*mlayer {
					for k, v := range m[g].m {
						m[h].m[k] = mval{v.v, false, false}
					}
					return m
				})
			add(fmt.Sprintf("writeto%d->%d", h, g), need,
				func(e []*model.Env) []*model.Env { e[h].WriteCurrLayerTo(e[g]); return e },
				func(m []*mlayer) []*mlayer {
					for k, v := range m[h].m {
						m[g].set(k, mval{v.v, false, false})
					}
					return m
				})
		}
	}
}

// push keeps at most maxH handles: the newest takes the last place.
func push[T any](s []T, v T) []T {
	if len(s) < maxH {
		return append(s, v)
	}
	s[maxH-1] = v
	return s
}

func smallOps() (r []int) {
	for i, o := range ops {
		if strings.Contains(o.name, "sys.b") || strings.HasPrefix(o.name, "writeto") || strings.HasPrefix(o.name, "clear") ||
			strings.HasPrefix(o.name, "merge0") || strings.HasPrefix(o.name, "set0 a=2") || strings.HasPrefix(o.name, "setifempty") {
			continue
		}
		r = append(r, i)
	}
	return
}

func gen(tier string, emit func(string)) {
	for _, k := range typedCases() {
		emit(k)
	}
	str := func(s []int) string {
		var b strings.Builder
		b.WriteByte('H')
		for _, x := range s {
			fmt.Fprintf(&b, " %d", x)
		}
		return b.String()
	}
	Seqs(len(ops), 1, 3, func(s []int) { emit(str(s)) })
	so := smallOps()
	d := 4
	n := len(so)
	if tier != "thorough" {
		// every 4-op history of the small alphabet that begins by creating or
		// writing (the others repeat 3-op histories)
		for _, f := range []string{"set", "clone", "new", "arg"} {
			for _, a := range so {
				if !strings.HasPrefix(ops[a].name, f) {
					continue
				}
				Seqs(n, 3, 3, func(s []int) {
					t := []int{a, so[s[0]], so[s[1]], so[s[2]]}
					emit(str(t))
				})
			}
		}
		return
	}
	Seqs(len(ops), d, d, func(s []int) { emit(str(s)) })
}

func dump(h []*model.Env) string {
	var b strings.Builder
	for _, e := range h {
		b.WriteString("|")
		for l := e; l != nil; l = l.Parent() {
			ks, vs := l.Pairs()
			idx := make([]int, len(ks))
			for i := range idx {
				idx[i] = i
			}
			sort.Slice(idx, func(i, j int) bool { return ks[idx[i]] < ks[idx[j]] })
			b.WriteString(string(l.LayerType()) + "(")
			for _, i := range idx {
				fmt.Fprintf(&b, "%s=%s/%v ", ks[i], vs[i].Raw, vs[i].IsArg)
			}
			b.WriteString(")")
		}
	}
	return b.String()
}

func dumpM(h []*mlayer) string {
	var b strings.Builder
	for _, e := range h {
		b.WriteString("|")
		for l := e; l != nil; l = l.parent {
			var ks []string
			for k := range l.m {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			b.WriteString(string(l.ty) + "(")
			for _, k := range ks {
				fmt.Fprintf(&b, "%s=%s/%v ", k, l.m[k].v, l.m[k].arg)
			}
			b.WriteString(")")
		}
	}
	return b.String()
}

func mapStr(m map[string]string) string {
	var ks []string
	for k, v := range m {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func history(s []int) Out {
	d := model.NewEnv()
	h := []*model.Env{d}
	h = append(h, d.NewLayer(model.EnvLayerSession))
	h = append(h, h[1].NewLayer(model.EnvLayerCmd))
	md := &mlayer{model.EnvLayerDefault, nil, map[string]mval{}}
	m := []*mlayer{md}
	m = append(m, &mlayer{model.EnvLayerSession, md, map[string]mval{}})
	m = append(m, &mlayer{model.EnvLayerCmd, m[1], map[string]mval{}})
	h[0].Set("a", "0")
	md.m["a"] = mval{"0", false, false}
	out := Out{}
	prev := ""
	var names []string
	for i, x := range s {
		o := ops[x]
		if !o.ok(len(h)) {
			return Out{Trivial: true, Outcome: "handle missing"}
		}
		names = append(names, o.name)
		if i == len(s)-1 {
			prev = dumpM(m)
		}
		h = o.real(h)
		m = o.mod(m)
		out.Steps++
		if i < len(s)-1 {
			continue
		}
		want, got := dumpM(m), dump(h)
		if want != got {
			return Bad("history %q from layers default{a=0}/session/command: expected %s got %s", names, want, got)
		}
		out.States = append(out.States, want)
		out.Trans = append(out.Trans, prev+o.name)
		out.Outcome = want
		for j := range h {
			for _, k := range []string{"a", "sys.b", "zz"} {
				mv, mok := m[j].get(k)
				ev, eok := h[j].GetEx(k)
				if mok != eok || mv.v != ev.Raw || mv.arg != ev.IsArg || h[j].Has(k) != mok || h[j].GetRaw(k) != mv.v || h[j].Get(k).Raw != mv.v {
					return Bad("history %q: lookup of %q in env %d: expected %+v/%v got %+v/%v", names, k, j, mv, mok, ev, eok)
				}
			}
			for _, ty := range []model.EnvLayerType{model.EnvLayerDefault, model.EnvLayerSession, model.EnvLayerCmd, model.EnvLayerSubFlow} {
				ml := m[j].layer(ty)
				if ml == nil {
					continue
				}
				if a, b := dumpM([]*mlayer{ml}), dump([]*model.Env{h[j].GetLayer(ty)}); a != b {
					return Bad("history %q: layer %s of env %d: expected %s got %s", names, ty, j, a, b)
				}
			}
			for f := 0; f < 8; f++ {
				var pre []string
				if f&2 != 0 {
					pre = []string{"", "sys."}
				}
				w := map[string]string{}
				m[j].flat(f&1 != 0, pre, f&4 != 0, w)
				g := h[j].Flatten(f&1 != 0, pre, f&4 != 0)
				if mapStr(w) != mapStr(g) {
					return Bad("history %q: all values of env %d (variant %d): expected %s got %s", names, j, f, mapStr(w), mapStr(g))
				}
			}
		}
	}
	return out
}

// ---- typed values

var ints = []int{0, 1, -1, 7, 10, -10, math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, math.MaxInt64, math.MinInt64, 1 << 53, 1<<53 + 1}
var uints = []uint64{0, 1, 7, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64, 1 << 53, 1<<53 + 1}
var durs = []string{"0", "1", "1s", "1.5", "90", "1m", "1h30m", "100ms", "2400h", "1us", "-1s", "-3", "1e3", "0.001", "1ns"}
var badDur = []string{"", "x", "1d", "h", "1 s", "--"}
var truths = []string{"true", "t", "1", "on", "y", "yes", "TRUE", "On", "Y"}
var falses = []string{"false", "f", "0", "off", "n", "no", "", "2", "tr", "x", "00", "yess", "-1"}
var badInt = []string{"x", "1.0", "1x", " 1", "--", "9223372036854775808", "0x10"}

func typedCases() (r []string) {
	for i := range ints {
		for j := range ints {
			r = append(r, fmt.Sprintf("I %d %d", i, j))
		}
	}
	for i := range uints {
		r = append(r, fmt.Sprintf("U %d 0", i))
	}
	for i := range durs {
		r = append(r, fmt.Sprintf("D %d 0", i))
	}
	for i := range badDur {
		r = append(r, fmt.Sprintf("d %d 0", i))
	}
	for i := range truths {
		r = append(r, fmt.Sprintf("T %d 0", i))
	}
	for i := range falses {
		r = append(r, fmt.Sprintf("F %d 0", i))
	}
	for i := range badInt {
		r = append(r, fmt.Sprintf("i %d 0", i))
	}
	// system arguments: present in which of 3 layers, as system arg or not
	for c := 0; c < 27; c++ {
		r = append(r, fmt.Sprintf("S %d 0", c))
		r = append(r, fmt.Sprintf("A %d 0", c))
	}
	return
}

func panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return
}

func typed(key string) Out {
	var t byte
	var a, b int
	fmt.Sscanf(key, "%c %d %d", &t, &a, &b)
	p := model.NewEnv().NewLayer(model.EnvLayerSession)
	e := p.NewLayer(model.EnvLayerCmd)
	out := Out{Outcome: key[:1], Steps: 1, States: []string{key}, Trans: []string{key}}
	switch t {
	case 'I':
		p.SetInt("k", ints[b])
		if e.GetInt("k") != ints[b] {
			return Bad("integer %d stored in the parent layer is read as %d", ints[b], e.GetInt("k"))
		}
		e.SetInt("k", ints[a])
		if e.GetInt("k") != ints[a] || p.GetInt("k") != ints[b] {
			return Bad("integer %d over %d: read %d, parent %d", ints[a], ints[b], e.GetInt("k"), p.GetInt("k"))
		}
		e.PlusInt("k", ints[b])
		if e.GetInt("k") != ints[a]+ints[b] || p.GetInt("k") != ints[b] {
			return Bad("adding %d to %d gives %d (parent %d)", ints[b], ints[a], e.GetInt("k"), p.GetInt("k"))
		}
		if e.GetInt("none") != 0 {
			return Bad("missing integer is not 0")
		}
	case 'U':
		e.SetUint64("k", uints[a])
		if e.GetUint64("k") != uints[a] {
			return Bad("unsigned %d is read as %d", uints[a], e.GetUint64("k"))
		}
	case 'D':
		s := durs[a]
		if _, err := strconv.ParseFloat(s, 64); err == nil {
			s += "s"
		}
		want, _ := time.ParseDuration(s)
		if s == "1e3s" {
			if !panics(func() { e.SetDur("k", durs[a]) }) {
				return Bad("duration %q accepted", durs[a])
			}
			return out
		}
		e.SetDur("k", durs[a])
		if e.GetDur("k") != want {
			return Bad("duration %q is read as %v", durs[a], e.GetDur("k"))
		}
		f := p.NewLayer(model.EnvLayerCmd)
		f.Set("k", durs[a])
		if f.GetDur("k") != want {
			return Bad("duration %q set as text is read as %v", durs[a], f.GetDur("k"))
		}
	case 'd':
		if !panics(func() { e.SetDur("k", badDur[a]) }) || e.Has("k") {
			return Bad("malformed duration %q accepted", badDur[a])
		}
		e.Set("k", badDur[a])
		if !panics(func() { e.GetDur("k") }) || !panics(func() { e.GetDur("none") }) {
			return Bad("malformed duration %q read without an error", badDur[a])
		}
	case 'T', 'F':
		v := ""
		if t == 'T' {
			v = truths[a]
		} else {
			v = falses[a]
		}
		p.Set("k", v)
		if e.GetBool("k") != (t == 'T') {
			return Bad("boolean text %q is read as %v", v, e.GetBool("k"))
		}
		for _, x := range []bool{true, false} {
			c := e.Clone()
			if old := c.SetBool("k", x); old != (t == 'T') || c.GetBool("k") != x || p.GetRaw("k") != v {
				return Bad("boolean %v over %q: old %v read %v parent %q", x, v, old, c.GetBool("k"), p.GetRaw("k"))
			}
		}
	case 'i':
		e.Set("k", badInt[a])
		if !panics(func() { e.GetInt("k") }) {
			return Bad("malformed integer %q read without an error", badInt[a])
		}
		if badInt[a] != "9223372036854775808" && !panics(func() { e.GetUint64("k") }) {
			return Bad("malformed unsigned %q read without an error", badInt[a])
		}
	case 'S':
		// key q.c.%delay in the layers: 0 absent, 1 system arg, 2 plain value
		root := model.NewEnv()
		root.Set("strs.sys-arg-prefix", "%")
		l := []*model.Env{root}
		l = append(l, root.NewLayer(model.EnvLayerSession))
		l = append(l, l[1].NewLayer(model.EnvLayerCmd))
		want := ""
		for i, c := 0, a; i < 3; i, c = i+1, c/3 {
			v := fmt.Sprintf("%ds", i+1)
			if c%3 > 0 {
				l[i].SetEx("q.c.%delay", v, true, c%3 == 1)
			}
			if c%3 == 1 {
				want = v
			}
			l[i].SetEx("q.cc.%delay", "9s", true, true)
		}
		got := l[2].GetSysArgv([]string{"q", "c"}, ".")
		if got.GetDelayStr() != want {
			return Bad("command option set in layers %d: got %q want %q", a, got.GetDelayStr(), want)
		}
	case 'A':
		// argument values of a command: 0 absent, 1 "x<i>", 2 empty
		root := model.NewEnv()
		l := []*model.Env{root}
		l = append(l, root.NewLayer(model.EnvLayerSession))
		l = append(l, l[1].NewLayer(model.EnvLayerCmd))
		want, given := "def", false
		for i, c := 0, a; i < 3; i, c = i+1, c/3 {
			switch c % 3 {
			case 1:
				want, given = fmt.Sprintf("x%d", i), true
				l[i].SetEx("q.c.p", want, true, false)
			case 2:
				want, given = "", true
				l[i].SetEx("q.c.p", "", true, false)
			}
		}
		args := newArgs()
		got := l[2].GetArgv([]string{"q", "c"}, ".", 1, args)
		if got.GetRaw("p") != want || got["p"].Provided != given || got.GetRaw("r") != "" || got["r"].Provided {
			return Bad("argument set in layers %d: got %+v want %q/%v", a, got, want, given)
		}
	}
	return out
}

var argsOf *model.Args

func newArgs() model.Args {
	if argsOf == nil {
		e := eng.New("")
		a := e.Mark("q.c").AddArg("p", "def").AddArg("r", "").Args()
		argsOf = &a
	}
	return *argsOf
}

func exec(key string) Out {
	if key[0] != 'H' {
		return typed(key)
	}
	var s []int
	for _, w := range strings.Fields(key[1:]) {
		x, _ := strconv.Atoi(w)
		s = append(s, x)
	}
	return history(s)
}

func main() {
	Main(Spec{ID: "P06", Level: "model_checking",
		Rule: "histories of set, argument set, delete, layer creation, clone, merge, write-through, deduplicate and clear over up to 4 environments, every lookup and layer compared with a reference after the last step (each prefix is itself a history); typed value tables; trivial when an operation names an environment not created yet",
		Gen:  gen, Exec: exec})
}
