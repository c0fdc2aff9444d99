// P05: metadata files keep every section and value across save and load.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/innerr/ticat/pkg/mods/persist/flow_file"
	"github.com/innerr/ticat/pkg/mods/persist/meta_file"

	. "verif/vlib"
)

// ---- reading: line sequences

var lines = []string{"a = 1", "", "# c", "b=2 ", `a = x \`, "  y \\  ", "\tz", `\`, "[s]", "[m/]", "[/m]", "[[k]] = v", "c = [q]", `d = "v=w"`,
	"### file: p/x", "###file :y", "### note", "plain", " [n/] ", "[]", `e = \`, "= 3", "[/]"}

type sec struct {
	keys []string
	m    map[string]string
}

func (s *sec) set(k, v string) {
	if _, ok := s.m[k]; !ok {
		s.keys = append(s.keys, k)
	}
	s.m[k] = v
}

type doc struct {
	path    string
	virtual bool
	secs    map[string]*sec
}

// refParse is the reference reader.
func refParse(ls []string) (docs []*doc, bad bool) {
	type part struct {
		path    string
		virtual bool
		ls      []string
	}
	parts := []part{{"", false, nil}}
	for _, raw := range ls {
		l := strings.TrimSpace(raw)
		if strings.HasPrefix(l, "###") {
			r := strings.TrimSpace(l[3:])
			if strings.HasPrefix(r, "file") {
				r = strings.TrimSpace(r[4:])
				if strings.HasPrefix(r, ":") {
					if len(parts) == 1 && len(parts[0].ls) == 0 {
						parts = nil
					}
					parts = append(parts, part{strings.TrimSpace(r[1:]), true, nil})
				}
			}
		}
		p := &parts[len(parts)-1]
		p.ls = append(p.ls, l)
	}
	for _, p := range parts {
		d := &doc{p.path, p.virtual, map[string]*sec{}}
		docs = append(docs, d)
		cur := &sec{m: map[string]string{}}
		global := cur
		d.secs[""] = cur
		i := 0
		next := func() string { l := p.ls[i]; i++; return l }
		for i < len(p.ls) {
			l := next()
			switch {
			case l == "" || l[0] == '#':
			case strings.HasPrefix(l, "[") && strings.HasSuffix(l, "]") && !(len(l) >= 4 && l[1] == '[' && l[len(l)-2] == ']'):
				if len(l) > 2 && strings.HasSuffix(l, "/]") {
					name := l[1 : len(l)-2]
					var v []string
					for i < len(p.ls) {
						x := next()
						if strings.HasPrefix(x, "[/") && strings.HasSuffix(x, "]") {
							break
						}
						if x != "" || len(v) > 0 {
							v = append(v, x)
						}
					}
					if len(v) > 0 && v[len(v)-1] == "" {
						v = v[:len(v)-1]
					}
					global.set(name, strings.Join(v, "\n"))
				} else {
					cur = &sec{m: map[string]string{}}
					d.secs[l[1:len(l)-1]] = cur
				}
			case !strings.Contains(l, "="):
				return docs, true
			default:
				at := strings.Index(l, "=")
				k, v := strings.TrimSpace(l[:at]), strings.TrimSpace(l[at+1:])
				if k == "" && strings.HasSuffix(v, `\`) {
					return docs, true
				}
				if !strings.HasSuffix(v, `\`) {
					cur.set(k, v)
					continue
				}
				var vs []string
				if v = strings.TrimSpace(v[:len(v)-1]); v != "" {
					vs = append(vs, v)
				}
				for i < len(p.ls) {
					x := next()
					if x == "" {
						continue
					}
					more := strings.HasSuffix(x, `\`)
					if more {
						x = strings.TrimSpace(x[:len(x)-1])
					}
					vs = append(vs, x)
					if !more {
						break
					}
				}
				cur.set(k, strings.Join(vs, "\n"))
			}
		}
	}
	return
}

func dumpDoc(path string, virtual bool, secs map[string]*sec) string {
	var names []string
	for n := range secs {
		names = append(names, n)
	}
	sortStrs(names)
	var b strings.Builder
	fmt.Fprintf(&b, "<%s %v>", path, virtual)
	for _, n := range names {
		fmt.Fprintf(&b, "[%s]", n)
		for _, k := range secs[n].keys {
			fmt.Fprintf(&b, "%q=%q;", k, secs[n].m[k])
		}
	}
	return b.String()
}

func sortStrs(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func dumpMeta(m *meta_file.MetaFile, path string, virtual bool) string {
	secs := map[string]*sec{}
	for n, s := range m.GetAll() {
		x := &sec{m: map[string]string{}}
		for _, k := range s.Keys() {
			x.set(k, s.GetUnTrim(k))
		}
		secs[n] = x
	}
	return dumpDoc(path, virtual, secs)
}

// ---- writing

var names = []string{"", "s", "t u"}
var keys = []string{"a", "key-2", "k.3", "x y"}
var vals = []string{"v", "", "a b", "l1\nl2", "l1\nl2\nl3", "l1\n\nl3", "# c", "a = b", "[s]", "l1\n# x", "l1\n[s]", "l1\n[m/]", `b\c`, "'q'", `"q r"`,
	"l1\nk = v", `l1\` + "\nl2", "l1\n" + `\` + "\nl3", "é", "### file: x", "[m/]", "[[x]]", "a\tb", "x=", "=x", "l1\n\n\nl4", `say "x"`, "l1\n=\nl3"}

// values whose blank end lines need not survive, but which must not damage other keys
var lossy = []string{"l1\n", "l1\nl2\n", "l1\n\n", "\n", "l1\n  \n", "\nl2", " v ", "\n\n"}

// values ending with the continuation mark
var slash = []string{`v\`, "l1\nl2\\", `\`}

type entry struct {
	N, K, V int
}

type kase struct {
	T string  // R read, W write, L lossy, B slash, F flow file
	L []int   `json:",omitempty"`
	E []entry `json:",omitempty"`
}

var heads = []string{"", "h"}
var fl = [][]string{nil, {"a : b"}, {"a : b", "c"}, {"a", "b", "c"}, {"a p=1 :"}, {"# x", "a"}, {"a", "", "b"}, {`a "p=x y"`}}
var fh = []string{"", "help text", "it's", "two\nlines", "a = b"}
var fa = []string{"", "x|y", "abb"}
var ft = []string{"", "0", "1", " 2 "}
var fau = []string{"", "*", "a,b"}
var fp = []string{"", "true", "t"}

func gen(tier string, emit func(string)) {
	max, nl := 4, 14
	if tier == "thorough" {
		max, nl = 4, len(lines)
	}
	Seqs(len(lines), 1, 3, func(s []int) { emit(J(kase{T: "R", L: append([]int{}, s...)})) })
	Seqs(nl, 4, max, func(s []int) { emit(J(kase{T: "R", L: append([]int{}, s...)})) })
	if tier == "thorough" {
		Seqs(14, 5, 5, func(s []int) { emit(J(kase{T: "R", L: append([]int{}, s...)})) })
	} else {
		Seqs(9, 5, 5, func(s []int) { emit(J(kase{T: "R", L: append([]int{}, s...)})) })
	}
	nv, nn := len(vals), len(names)
	one := func(f func(entry)) {
		for n := 0; n < nn; n++ {
			for k := range keys {
				for v := 0; v < nv; v++ {
					f(entry{n, k, v})
				}
			}
		}
	}
	one(func(e entry) { emit(J(kase{T: "W", E: []entry{e}})) })
	// all pairs
	one(func(a entry) {
		if a.K > 1 {
			return
		}
		one(func(b entry) {
			if b.K > 1 {
				return
			}
			emit(J(kase{T: "W", E: []entry{a, b}}))
		})
	})
	// triples: over few keys and sections
	for _, sh := range [][3]entry{{{0, 0, 0}, {0, 1, 0}, {1, 0, 0}}, {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}}, {{1, 0, 0}, {0, 0, 0}, {2, 0, 0}}, {{0, 0, 0}, {0, 1, 0}, {0, 2, 0}}} {
		Seqs(nv, 3, 3, func(s []int) {
			t := []entry{sh[0], sh[1], sh[2]}
			for i := range t {
				t[i].V = s[i]
			}
			emit(J(kase{T: "W", E: t}))
		})
	}
	for l := range lossy {
		for v := 0; v < nv; v++ {
			emit(J(kase{T: "L", E: []entry{{0, 0, l}, {0, 1, v}, {1, 0, v}}}))
			emit(J(kase{T: "L", E: []entry{{0, 1, v}, {0, 0, l}, {1, 0, v}}, L: []int{1}}))
		}
	}
	for l := range slash {
		emit(J(kase{T: "B", L: []int{l}}))
	}
	Prod([]int{len(fl), len(fh), len(fa), len(ft), len(fau), len(fp)}, func(t []int) { emit(J(kase{T: "F", L: append([]int{}, t...)})) })
}

var file string

func path() string {
	if file == "" {
		d, err := os.MkdirTemp("", "p05")
		if err != nil {
			panic(err)
		}
		file = filepath.Join(d, "m.tiflow")
	}
	return file
}

func load() (metas []meta_file.VirtualMetaFile, msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint(r)
		}
	}()
	metas, err := meta_file.NewMetaFileEx(path())
	if err != nil {
		panic(err)
	}
	return
}

func execRead(k kase) Out {
	ls := Strs(lines, k.L)
	text := strings.Join(ls, "\n") + "\n"
	if err := os.WriteFile(path(), []byte(text), 0644); err != nil {
		panic(err)
	}
	docs, bad := refParse(strings.Split(text, "\n"))
	metas, msg := load()
	if bad || msg != "" {
		for _, l := range ls {
			// an empty name before a continuation is not specified
			if strings.HasPrefix(l, "= ") && strings.HasSuffix(strings.TrimSpace(l), `\`) {
				return Out{Trivial: true, Outcome: "unspecified"}
			}
		}
		if bad != (msg != "") {
			return Bad("file %q: malformed=%v but the loader said %q", text, bad, msg)
		}
		return Out{Outcome: "malformed", Trivial: true}
	}
	want := ""
	for _, d := range docs {
		p := d.path
		if !d.virtual {
			p = path()
		}
		want += dumpDoc(p, d.virtual, d.secs)
	}
	got := ""
	for _, m := range metas {
		got += dumpMeta(m.Meta, m.VirtualPath, !m.NotVirtual)
	}
	want, got = strings.ReplaceAll(want, path(), "FILE"), strings.ReplaceAll(got, path(), "FILE")
	if want != got {
		return Bad("file %q: it states %s but loading gives %s", text, want, got)
	}
	return Out{Outcome: want, States: []string{want}, Trans: []string{want}, Steps: len(ls)}
}

func execWrite(k kase) Out {
	m := meta_file.CreateMetaFile(path())
	want := map[string]*sec{"": {m: map[string]string{}}}
	for i, e := range k.E {
		v := ""
		switch {
		case k.T == "L" && (i == 0 && len(k.L) == 0 || i == 1 && len(k.L) == 1):
			v = lossy[e.V]
		default:
			v = vals[e.V]
		}
		n := names[e.N]
		m.NewOrGetSection(n).Set(keys[e.K], v)
		if want[n] == nil {
			want[n] = &sec{m: map[string]string{}}
		}
		want[n].set(keys[e.K], v)
	}
	// The section without a header has to come first in the file: it is
	// created first by every writer.
	if len(k.E) > 0 && k.E[0].N != 0 {
		for _, e := range k.E {
			if e.N == 0 {
				return Out{Trivial: true, Outcome: "global section not first"}
			}
		}
	}
	m.Save()
	metas, msg := load()
	raw, _ := os.ReadFile(path())
	if msg != "" || len(metas) == 0 {
		return Bad("saved %v as %q, loading fails: %s", dumpDoc("", false, want), raw, msg)
	}
	for n, s := range want {
		sec := metas[0].Meta.GetSection(n)
		if sec == nil {
			return Bad("saved %v as %q, section %q is gone", dumpDoc("", false, want), raw, n)
		}
		if !Eq(s.keys, sec.Keys()) {
			return Bad("saved %v as %q, section %q has keys %q", dumpDoc("", false, want), raw, n, sec.Keys())
		}
		for _, key := range s.keys {
			if isLossy(k, n, key) {
				if strings.TrimSpace(s.m[key]) != strings.TrimSpace(sec.GetUnTrim(key)) {
					return Bad("saved %q (blank edges aside) as %q, read back %q", s.m[key], raw, sec.GetUnTrim(key))
				}
				continue
			}
			if sec.GetUnTrim(key) != s.m[key] {
				return Bad("saved %v as %q, section %q key %q is read back %q", dumpDoc("", false, want), raw, n, key, sec.GetUnTrim(key))
			}
			if g, w := metas[0].Meta.SectionGet(n, key), strings.Trim(s.m[key], `'"`); g != w {
				return Bad("section %q key %q: Get gives %q want %q", n, key, g, w)
			}
			ml := strings.Split(s.m[key], "\n")
			for len(ml) > 0 && ml[len(ml)-1] == "" {
				ml = ml[:len(ml)-1]
			}
			if g := sec.GetMultiLineVal(key, false); !Eq(g, ml) {
				return Bad("section %q key %q: lines %q want %q", n, key, g, ml)
			}
		}
	}
	if len(metas) != 1 || len(metas[0].Meta.GetAll()) != len(want) {
		return Bad("saved %v as %q, reading gives other sections: %s", dumpDoc("", false, want), raw, dumpMeta(metas[0].Meta, "", false))
	}
	st := dumpDoc("", false, want)
	return Out{Outcome: st, States: []string{st}, Trans: []string{st}, Steps: len(k.E)}
}

func isLossy(k kase, n, key string) bool {
	if k.T != "L" {
		return false
	}
	e := k.E[0]
	if len(k.L) == 1 {
		e = k.E[1]
	}
	return names[e.N] == n && keys[e.K] == key
}

func execSlash(k kase) Out {
	v := slash[k.L[0]]
	m := meta_file.CreateMetaFile(path())
	m.GetGlobalSection().Set("a", v)
	m.GetGlobalSection().Set("b", "w")
	m.Save()
	metas, msg := load()
	if msg != "" {
		return Bad("value %q ending with the continuation mark: loading fails: %s", v, msg)
	}
	s := metas[0].Meta.GetGlobalSection()
	if s.GetUnTrim("a") != v || s.GetUnTrim("b") != "w" {
		return Bad("value %q ending with the continuation mark is read back as a=%q b=%q", v, s.GetUnTrim("a"), s.GetUnTrim("b"))
	}
	return Out{Outcome: v, States: []string{v}, Trans: []string{v}, Steps: 1}
}

func execFlow(k kase) Out {
	i := k.L
	flow, help, abbrs, triv, auto, pack := fl[i[0]], fh[i[1]], fa[i[2]], ft[i[3]], fau[i[4]], fp[i[5]]
	flow_file.SaveFlowFile(path(), append([]string{}, flow...), help, abbrs, triv, auto, pack)
	f2, h2, a2, t2, au2, p2 := flow_file.LoadFlowFile(path())
	wt := strings.TrimSpace(triv)
	if wt == "0" {
		wt = ""
	}
	wa := auto
	if wa == "" {
		wa = "*"
	}
	got := fmt.Sprintf("%q %q %q %q %q %q", f2, h2, a2, t2, au2, p2)
	want := fmt.Sprintf("%q %q %q %q %q %q", flow, help, abbrs, wt, wa, pack)
	if got != want {
		raw, _ := os.ReadFile(path())
		return Bad("flow file saved with %s as %q is loaded as %s", want, raw, got)
	}
	return Out{Outcome: want, States: []string{want}, Trans: []string{want}, Steps: 6}
}

func exec(key string) Out {
	var k kase
	U(key, &k)
	os.Remove(path())
	switch k.T {
	case "R":
		return execRead(k)
	case "B":
		return execSlash(k)
	case "F":
		return execFlow(k)
	}
	return execWrite(k)
}

func main() {
	Main(Spec{ID: "P05", Level: "model_checking",
		Rule: "files made of every line sequence over 23 line kinds read by the real loader and by a reference reader; sets of up to 3 keys with 28 kinds of values saved and loaded; non-trivial unless the file is malformed",
		Gen:  gen, Exec: exec})
}
