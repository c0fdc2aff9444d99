// P29: environment snapshots restore exactly what was saved.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"

	"verif/eng"
	. "verif/vlib"
)

type vals map[string]string

func (v vals) clone() vals {
	r := vals{}
	for k, x := range v {
		r[k] = x
	}
	return r
}

func (v vals) String() string {
	var r []string
	for k, x := range v {
		r = append(r, fmt.Sprintf("%s=%.60q", k, x))
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

// the model: snapshots on disk, values of this start
type mem struct {
	snap map[string]vals
	cur  vals
}

// op is one command of a start.
type op struct {
	args []string
	do   func(m *mem) bool
}

func set(kv ...string) func(m *mem) bool {
	return func(m *mem) bool {
		for i := 0; i < len(kv); i += 2 {
			m.cur[kv[i]] = kv[i+1]
		}
		return true
	}
}
func save(n string, over bool) func(m *mem) bool {
	return func(m *mem) bool {
		if _, ok := m.snap[n]; ok && !over {
			return false
		}
		m.snap[n] = m.cur.clone()
		for k, v := range m.cur {
			if v == "" {
				delete(m.snap[n], k) // an empty value is none to save
			}
		}
		return true
	}
}
func load(n string, non bool) func(m *mem) bool {
	return func(m *mem) bool {
		for k, v := range m.snap[n] {
			if _, ok := m.cur[k]; non && (ok || k == "display.width") {
				continue // (a default is a value too)
			}
			m.cur[k] = v
		}
		return true
	}
}
func rm(n string) func(m *mem) bool { return func(m *mem) bool { delete(m.snap, n); return true } }
func del(k string) func(m *mem) bool {
	return func(m *mem) bool { delete(m.cur, k); return true }
}

var ops = map[string]op{
	"set1":   {[]string{"env.set", "k", "v1"}, set("k", "v1")},
	"set2":   {[]string{"qset"}, set("k", "v2", "a.b", "w x=y")},
	"setj":   {[]string{"env.set", "j", "u"}, set("j", "u")},
	"empty":  {[]string{"env.map", "no.such", "k"}, set("k", "")},
	"width":  {[]string{"env.set", "display.width", "44"}, set("display.width", "44")},
	"unset":  {[]string{"env.rm", "k"}, del("k")},
	"save1":  {[]string{"env.snapshot.save", "s1"}, save("s1", true)},
	"save2":  {[]string{"env.snapshot.save", "s2", "true"}, save("s2", true)},
	"keep1":  {[]string{"env.snapshot.save", "s1", "false"}, save("s1", false)},
	"keepf":  {[]string{"qkeep"}, save("s1", false)},
	"saveB":  {[]string{"env.ss.s", "{name=n p", "overwrite=on}"}, save("n p", true)},
	"load1":  {[]string{"env.snapshot.load", "s1"}, load("s1", false)},
	"load2":  {[]string{"env.snap.l", "sn=s2"}, load("s2", false)},
	"loadB":  {[]string{"env.snapshot.load", "n p"}, load("n p", false)},
	"non1":   {[]string{"env.snapshot.load.non-exist", "s1"}, load("s1", true)},
	"non2":   {[]string{"env.snapshot.load.non-exist", "s2"}, load("s2", true)},
	"rm1":    {[]string{"env.snapshot.rm", "s1"}, rm("s1")},
	"rm2":    {[]string{"env.snapshot.remove", "s2"}, rm("s2")},
	"rmB":    {[]string{"env.snapshot.del", "n p"}, rm("n p")},
	"ls":     {[]string{"env.snapshot.ls"}, func(m *mem) bool { return true }},
	"needs":  {[]string{"needs"}, func(m *mem) bool { _, ok := m.cur["k"]; return ok }}, // refused before anything runs
	"maysee": {[]string{"maysee"}, func(m *mem) bool { return true }},
	"badsav": {[]string{"env.snapshot.save"}, func(m *mem) bool { return false }},
	"badld":  {[]string{"env.snapshot.load", "s1", "s2", "s3"}, nil}, // the whole start is refused
}

var steps = [][]string{
	{"set1", "save1"}, {"set2", "save1"}, {"set2", "save2"}, {"setj", "width", "save2"}, {"save1"},
	{"set1", "keep1"}, {"setj", "keepf"}, {"setj", "saveB"},
	{"load1"}, {"set1", "load2"}, {"load1", "load2"}, {"setj", "non1"}, {"set1", "non2", "load1"},
	{"load1", "save2"}, {"load2", "unset", "save1"}, {"loadB", "saveB", "non1"},
	{"rm1"}, {"rm2", "rm1"}, {"rmB", "save2"}, {"load1", "rm1", "save1"}, {"ls"},
	{"badsav", "save1"}, {"set1", "badld"}, {"set1", "save1", "set2", "keep1", "save2"}, {"set1", "save1", "set2", "save1", "load1"},
	{"load1", "needs"}, {"unset", "load1", "needs", "setj", "save2"}, {"set1", "unset", "load2", "needs"}, {"load1", "unset", "needs"}, {"non1", "needs", "save2"},
	{"set1", "non2", "needs", "unset", "maysee", "save1"}, {"unset", "non1", "needs", "rm1"},
	{"empty", "save1"}, {"empty", "non1"}, {"empty", "non2", "save2"}, {"empty", "load1"}, {"load2", "empty", "needs", "save1"},
}

// special values and names
var values = []string{
	"v", "v\r", "\r", "a\rb", "a b", " lead", "trail ", "  ", "a=b", "=", "==x", "#", "# c", "'q'", `"q"`, `\`, `\n`, "\t", "a\tb", "é日本", "{", "}", "{}", "[[k]]", "$HOME", "`x`",
	"a,b", "true", "0", "-", "---", "%", "@x", "http://h:1/p?q=1", "\x01", "LONG65536", "LONG200000", "x;y|z", "*", "~", "NEWLINE",
}
var keys = []string{"k", "a.b", "a.b.c.d", "K", "k-x_1", "9", "é", "env.x", "session2", "systest", "display.x"}
var names = []string{"s", "S", "s-1", "s_1", "x.y", "env", "x.env", "é", "a b", "-", "0", "s1.tmp", "load", "x.env.tmp", "%", "~"}

type kase struct {
	H []int  `json:",omitempty"`
	K string `json:",omitempty"`
	V string `json:",omitempty"`
	N string `json:",omitempty"`
	M string `json:",omitempty"`
}

func gen(tier string, emit func(string)) {
	for _, k := range keys {
		for _, v := range values {
			if v == "NEWLINE" && k != "k" {
				continue
			}
			emit(J(kase{K: k, V: v, N: "s1"}))
		}
	}
	for _, n := range names {
		for _, m := range names {
			emit(J(kase{K: "k", V: "v", N: n, M: m}))
		}
	}
	n := 2
	if tier == "thorough" {
		n = 3
	}
	i := 0
	Seqs(len(steps), 1, n+1, func(s []int) {
		i++
		if len(s) == n+1 && i%(7*n*n) != 0 {
			return
		}
		emit(J(kase{H: append([]int{}, s...)}))
	})
}

// start runs one command line and returns the values at its end.
func start(dir string, pre func(e *eng.Eng), args []string) (eng.Result, vals, vals, string) {
	e := eng.New(dir)
	e.Power("qset", func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
		s := env.GetLayer(model.EnvLayerSession)
		s.Set("k", "v2")
		s.Set("a.b", "w x=y")
		return idx, true
	})
	e.Power("needs", func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
		return idx, env.Has("k")
	}).AddEnvOp("k", model.EnvOpTypeRead)
	e.Power("maysee", func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
		return idx, true
	}).AddEnvOp("k", model.EnvOpTypeMayRead)
	e.Flow("qkeep", "dummy : env.snapshot.save sn=s1 overwrite=false")
	if pre != nil {
		pre(e)
	}
	before := flat(e)
	var res eng.Result
	out := eng.SwapStdout(func() { res = e.Run(args...) })
	after := flat(e)
	return res, before, after, out
}

func flat(e *eng.Eng) vals {
	r := vals{}
	for k, v := range e.Env.GetLayer(model.EnvLayerSession).FlattenAll() {
		r[k] = v
	}
	return r
}

// diff leaves what changed, without the bookkeeping of the run itself.
func diff(before, after vals) vals {
	r := vals{}
	for k, v := range after {
		if b, ok := before[k]; ok && b == v {
			continue
		}
		if k == "session" || strings.HasPrefix(k, "sys.stack") || strings.HasPrefix(k, "sys.session.") || k == "display.executor.displayed" || k == "display.one-cmd" {
			continue
		}
		r[k] = v
	}
	return r
}

func loadAll(dir string, m *mem, desc string) string {
	all := append([]string{"nosuch"}, snapNames(m)...)
	for _, n := range all {
		r, b, a, _ := start(dir, nil, []string{"env.snapshot.load", n})
		want := m.snap[n]
		got := diff(b, a)
		if !r.OK {
			return fmt.Sprintf("%s: loading %q afterwards failed: %v", desc, n, r.Panic)
		}
		if got.String() != want.String() || !same(got, want) {
			return fmt.Sprintf("%s: loading %q afterwards must set exactly %v, set %v", desc, n, want, got)
		}
	}
	_, _, _, out := start(dir, nil, []string{"env.snapshot.ls"})
	got := strings.Split(strings.TrimRight(out, "\n"), "\n")
	if out == "" {
		got = nil
	}
	sort.Strings(got)
	if want := snapNames(m); !Eq(got, want) {
		return fmt.Sprintf("%s: the list must be %q, is %q", desc, want, got)
	}
	files, _ := filepath.Glob(filepath.Join(dir, "env", "*"))
	hidden, _ := filepath.Glob(filepath.Join(dir, "env", ".*"))
	files = append(files, hidden...)
	if len(files) != len(m.snap) {
		return fmt.Sprintf("%s: %d snapshots but the files %q", desc, len(m.snap), files)
	}
	return ""
}

func same(a, b vals) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

func snapNames(m *mem) []string {
	var r []string
	for n := range m.snap {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

func val(v string) string {
	if strings.HasPrefix(v, "LONG") {
		var n int
		fmt.Sscanf(v, "LONG%d", &n)
		return strings.Repeat("x", n-1) + "y"
	}
	return v
}

func exec(key string) Out {
	var k kase
	U(key, &k)
	dir, drop := eng.Scratch()
	defer drop()
	_ = os.MkdirAll(filepath.Join(dir, "env"), 0755)
	m := &mem{map[string]vals{}, vals{}}
	if k.K != "" {
		return one(k, dir, m)
	}
	var hist []string
	for _, si := range k.H {
		m.cur = vals{}
		var args []string
		ok := true
		refused := false
		for _, o := range steps[si] {
			refused = refused || ops[o].do == nil
		}
		try := &mem{m.snap, vals{}}
		for _, o := range steps[si] {
			switch {
			case o == "needs":
				refused = refused || !ops[o].do(try)
			case strings.HasPrefix(o, "load"), strings.HasPrefix(o, "non"), strings.HasPrefix(o, "set"), o == "unset", o == "empty":
				if ops[o].do != nil {
					ops[o].do(try)
				}
			}
		}
		for i, o := range steps[si] {
			if i > 0 {
				args = append(args, ":")
			}
			args = append(args, ops[o].args...)
			if ok && !refused {
				ok = ops[o].do(m)
			}
		}
		ok = ok && !refused
		hist = append(hist, strings.Join(args, " "))
		desc := fmt.Sprintf("starts %q", hist)
		r, b, a, out := start(dir, nil, args)
		if r.OK != ok {
			return Bad("%s: the last must end with %v, ended with %v %v", desc, ok, r, r.Panic)
		}
		if got := diff(b, a); !same(got, m.cur) {
			return Bad("%s: the last must leave the values %v, left %v", desc, m.cur, got)
		}
		if steps[si][0] == "ls" {
			if want := strings.Join(snapNames(m), "\n"); strings.TrimRight(out, "\n") != want {
				return Bad("%s: the last must list %q, listed %q", desc, want, out)
			}
		}
	}
	if b := loadAll(dir, m, fmt.Sprintf("starts %q", hist)); b != "" {
		return Bad("%s", b)
	}
	var st []string
	for n, v := range m.snap {
		st = append(st, n+":"+v.String())
	}
	return Out{Outcome: fmt.Sprintf("%d snapshots", len(m.snap)), States: st, Steps: len(k.H)}
}

func one(k kase, dir string, m *mem) Out {
	v := val(k.V)
	if v == "NEWLINE" {
		v = "a\nb"
	}
	setv := func(key, v string) func(e *eng.Eng) {
		return func(e *eng.Eng) {
			e.Power("qval", func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
				env.GetLayer(model.EnvLayerSession).Set(key, v)
				return idx, true
			})
		}
	}
	desc := fmt.Sprintf("%s=%.80q saved as %q", k.K, v, k.N)
	r, _, _, _ := start(dir, setv(k.K, v), []string{"qval", ":", "env.snapshot.save", k.N})
	if !r.OK {
		return Bad("%s: failed: %v", desc, r.Panic)
	}
	m.snap[k.N] = vals{k.K: v}
	if k.M != "" {
		desc += fmt.Sprintf(", then %s=%q as %q without overwriting", "j", "w", k.M)
		r, _, _, _ := start(dir, setv("j", "w"), []string{"qval", ":", "env.snapshot.save", k.M, "false"})
		if r.OK != (k.M != k.N) {
			return Bad("%s: must end with %v, ended with %v %v", desc, k.M != k.N, r, r.Panic)
		}
		if k.M != k.N {
			m.snap[k.M] = vals{"j": "w"}
		}
	}
	if b := loadAll(dir, m, desc); b != "" {
		return Bad("%s", b)
	}
	if k.M != "" {
		desc += fmt.Sprintf(", then %q removed", k.N)
		r, _, _, _ := start(dir, nil, []string{"env.snapshot.rm", k.N})
		if !r.OK {
			return Bad("%s: failed: %v", desc, r.Panic)
		}
		delete(m.snap, k.N)
		if b := loadAll(dir, m, desc); b != "" {
			return Bad("%s", b)
		}
	}
	return Out{Outcome: "value", States: []string{k.N + k.M + k.K + k.V}, Steps: 2}
}

func main() {
	Main(Spec{ID: "P29", Level: "model_checking", CaseSec: 30, QuickSec: 300,
		Rule: "every history of 2 (thorough: 3, some of one more) starts, each one of 32 lines of 1 to 6 snapshot operations and commands needing a key over 3 names (save, save without overwriting, load, load of missing keys only, remove, list, wrong use); 11 keys x 41 values; all pairs of 16 names; oracle: map of maps, compared by loading every snapshot in a fresh start",
		Gen:  gen, Exec: exec})
}
