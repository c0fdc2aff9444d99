// P07: saved environment values are loaded back exactly; session values never are.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/ticat"

	"verif/eng"
	. "verif/vlib"
)

// One step is one start of the program.
type step struct {
	name string
	args []string
	do   func(m mem) bool // the effect on the saved values; false: the run fails
}

type mem struct{ saved map[string]string }

var defWidth = "" // filled by the first observation

const runtimeKeys = "{sys.execute-wait-sec=0 sys.event.foo=1 sys.breakpoint.foo=1 sys.session.foo=1 display.height=9 strs.foo=1 sys.interact.foo=1 display.width.max=300 sys.stack-depth=0}"

func set(kv ...string) func(m mem) bool {
	return func(m mem) bool {
		for i := 0; i < len(kv); i += 2 {
			m.saved[kv[i]] = kv[i+1]
		}
		return true
	}
}

func none(m mem) bool { return true }

var steps = []step{
	{"save-k1", []string{"{k=v1}", "env.save"}, set("k", "v1")},
	{"save-k2-j", []string{"{k=v2", "j=w}", ":", "env.save"}, set("k", "v2", "j", "w")},
	{"set-j-save", []string{"env.set", "key=j", "value=x=y z", ":", "env.save"}, set("j", "x=y z")},
	{"k3-nosave", []string{"{k=v3}", "dummy"}, none},
	{"set-nosave", []string{"env.set", "k", "v3", ":", "dummy"}, none},
	{"rm-k-save", []string{"env.rm", "k", ":", "env.save"}, func(m mem) bool { delete(m.saved, "k"); return true }},
	{"rm-k-nosave", []string{"env.rm", "k"}, none},
	{"clear", []string{"env.clear-and-save"}, func(m mem) bool {
		for k := range m.saved {
			delete(m.saved, k)
		}
		return true
	}},
	{"reset-session-save", []string{"{k=v5}", ":", "env.reset-session", ":", "env.save"}, none},
	{"prefix-save", []string{"env.rm.prefix", "a.", ":", "env.save"}, func(m mem) bool {
		for k := range m.saved {
			if strings.HasPrefix(k, "a.") {
				delete(m.saved, k)
			}
		}
		return true
	}},
	{"save-ab", []string{"{a.b=1", "a.c=2", "ab=3}", "env.save"}, set("a.b", "1", "a.c", "2", "ab", "3")},
	{"width-44", []string{"{display.width=44}", "env.save"}, set("display.width", "44")},
	{"width-def", []string{"{display.width=DEF}", "env.save"}, func(m mem) bool { delete(m.saved, "display.width"); return true }},
	{"runtime-save", append(strings.Fields(runtimeKeys), "env.save"), none},
	{"update-save", []string{"env.update", "k", "v9", ":", "env.save"}, func(m mem) bool {
		if _, ok := m.saved["k"]; !ok {
			return false
		}
		m.saved["k"] = "v9"
		return true
	}},
	{"add-save", []string{"env.add", "k", "v8", ":", "env.save"}, func(m mem) bool {
		if _, ok := m.saved["k"]; ok {
			return false
		}
		m.saved["k"] = "v8"
		return true
	}},
	{"map-save", []string{"env.map", "k", "k2", ":", "env.save"}, func(m mem) bool { m.saved["k2"] = m.saved["k"]; return true }},
	{"set-after-save", []string{"{k=v4}", "env.save", ":", "env.set", "k", "v5", ":", "env.set", "j", "v5"}, set("k", "v4")},
	{"fail-before-save", []string{"{k=v6}", ":", "env.add", "display.width", "1", ":", "env.save"}, func(m mem) bool { return false }},
	{"flow-save", []string{"{j=f}", "qflow"}, set("j", "f", "a.c", "flow")},
}

var values = []string{
	"v", "v\r", "\r", "a\rb", "a b", " lead", "trail ", "  ", "a=b", "=", "==x", "#", "# c", "'q'", `"q"`, `"`, `\`, `\n`, `a\tb`, "\t", "a\tb", "é日本", "💡", "{", "}", "{}", "[[k]]", "$HOME", "`x`",
	"a,b", "a.b", "true", "0", "-", "---", "%", "@x", "http://h:1/p?q=1", "\x01", "LONG100", "LONG4095", "LONG4096", "LONG65000", "LONG65536", "LONG70000", "LONG200000", "a\nb", "a\nj=2", "x;y|z", "k=v1", "sys.x", "*", "~",
}
var keys = []string{"k", "a.b", "a.b.c.d", "K", "k-x_1", "9", "é", "sessions", "session-x", "sys.stacks", "display.heights"}

func val(v string) string {
	if strings.HasPrefix(v, "LONG") {
		var n int
		fmt.Sscanf(v, "LONG%d", &n)
		return strings.Repeat("x", n-1) + "y"
	}
	return v
}

type kase struct {
	H []string `json:",omitempty"` // history
	V string   `json:",omitempty"` // one value
	K string   `json:",omitempty"`
	O string   `json:",omitempty"` // value given on the command line of the last start
}

func gen(tier string, emit func(string)) {
	for i, k := range keys {
		for j, v := range values {
			if i > 6 && j > 1 || strings.Contains(v, "\n") && k != "k" {
				continue
			}
			emit(J(kase{V: v, K: k}))
		}
	}
	var names []string
	for _, s := range steps {
		names = append(names, s.name)
	}
	i := 0
	// the last level leaves out steps that only differ in the way they set
	small := []string{"save-k1", "set-j-save", "k3-nosave", "rm-k-save", "clear", "reset-session-save", "prefix-save", "save-ab", "width-44", "width-def", "runtime-save", "update-save", "map-save", "flow-save"}
	n, full := 3, 2
	if tier == "thorough" {
		n, full = 4, 3
	}
	for l := 1; l <= n; l++ {
		if l > full {
			names = small
		}
		k := len(names)
		Seqs(k, l, l, func(s []int) {
			i++
			emit(J(kase{H: append([]string{}, Strs(names, s)...), O: []string{"", "v7", "v1"}[i%3]}))
		})
	}
}

func register(tc *ticat.TiCat) {
	tc.Cmds.AddSub("qdump").RegPowerCmd(
		func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
			for k, v := range env.FlattenAll() {
				p := strings.SplitN(k, ".", 2)[0]
				if p == "k" || p == "j" || p == "k2" || p == "a" || p == "ab" || p == "K" || p == "k-x_1" || p == "9" || p == "é" || p == "sessions" || p == "session-x" || k == "sys.stacks" || k == "display.heights" || k == "display.width" || strings.HasSuffix(k, ".foo") {
					eng.Observe(J([]string{k, v}))
				}
			}
			return idx, true
		}, "dump").SetQuiet()
	tc.Cmds.AddSub("qflow").RegFlowCmd([]string{"env.set a.c flow : env.rm a.c2", "qsave"}, "f", "")
	tc.Cmds.AddSub("qsave").RegFlowCmd([]string{"qup : env.save"}, "f", "")
	tc.Cmds.AddSub("qup").RegEmptyCmd("e")
}

func observe(b *eng.Box, extra ...string) (map[string]string, eng.Ran) {
	r := b.Run(append(extra, "qdump")...)
	m := map[string]string{}
	for _, l := range b.Out() {
		var kv []string
		U(l, &kv)
		m[kv[0]] = kv[1]
	}
	return m, r
}

func show(m map[string]string) string {
	var r []string
	for k, v := range m {
		if v == "" {
			continue // an empty value reads like none
		}
		if len(v) > 60 {
			v = fmt.Sprintf("%s... (%d bytes)", v[:20], len(v))
		}
		r = append(r, fmt.Sprintf("%s=%q", k, v))
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

func fileKeys(b *eng.Box) string { return b.Read("ticat.data/bootstrap.env") }

func exec(key string) Out {
	var k kase
	U(key, &k)
	b := eng.NewBox()
	defer b.Close()
	base, r := observe(b)
	if !r.OK() || base["display.width"] == "" {
		return Bad("first start fails: %d %s %s", r.RC, r.Out, r.Err)
	}
	def := base["display.width"]
	if k.H == nil {
		v := val(k.V)
		r := b.Run("env.set", "key="+k.K, "value="+quote(v), ":", "env.save")
		if !r.OK() {
			return Out{Trivial: true, Outcome: "refused by the parser"}
		}
		// what the program says it set
		first, _ := observe(b, "env.set", "key="+k.K, "value="+quote(v), ":")
		if k.V != "a\nb" && k.V != "a\nj=2" {
			if set, ok := first[k.K]; !ok || set != v {
				return Out{Trivial: true, Outcome: "value not given literally"}
			}
		}
		got, r := observe(b)
		want := map[string]string{"display.width": def, k.K: v}
		if show(got) != show(want) || got[k.K] != v {
			return Bad("after saving %s=%q a new start must see %s, sees %s (exit %d, %s%s)", k.K, trunc(v), show(want), show(got), r.RC, trunc(r.Out), trunc(r.Err))
		}
		return Out{Outcome: "value " + k.V, States: []string{k.K + k.V}, Trans: []string{key}, Steps: 3}
	}
	m := mem{map[string]string{}}
	var st, tr []string
	for i, name := range k.H {
		var s step
		for _, x := range steps {
			if x.name == name {
				s = x
			}
		}
		args := append([]string{}, s.args...)
		for i := range args {
			args[i] = strings.ReplaceAll(args[i], "DEF", def)
		}
		before := show(m.saved)
		ok := s.do(m)
		r := b.Run(args...)
		if ok != r.OK() {
			return Bad("history %v: step %d (%v) from saved {%s}: success must be %v, exit status is %d: %s %s", k.H[:i+1], i, args, before, ok, r.RC, r.Out, r.Err)
		}
		st = append(st, show(m.saved))
		tr = append(tr, before+"|"+name)
	}
	want := map[string]string{"display.width": def}
	for kk, v := range m.saved {
		want[kk] = v
	}
	var extra []string
	if k.O != "" {
		extra = []string{"{k=" + k.O + "}", ":"}
		want["k"] = k.O
	}
	got, r := observe(b, extra...)
	if !r.OK() || show(got) != show(want) {
		return Bad("after history %v a new start with %v must see %s, sees %s (exit %d %s%s)", k.H, extra, show(want), show(got), r.RC, r.Out, r.Err)
	}
	for _, l := range strings.Split(fileKeys(b), "\n") {
		for _, p := range []string{"session", "strs.", "sys.stack", "sys.session.", "sys.interact", "sys.breakpoint", "sys.execute-wait-sec", "sys.event.", "sys.paths.", "display.height", "display.width.max"} {
			if kk := strings.SplitN(l, "=", 2)[0]; kk == p || strings.HasPrefix(kk, strings.TrimSuffix(p, ".")+".") {
				return Bad("after history %v the saved file has the runtime value %q", k.H, l)
			}
		}
	}
	// and once more without the command line value
	if k.O != "" {
		delete(want, "k")
		if v, ok := m.saved["k"]; ok {
			want["k"] = v
		}
		if got, r = observe(b); show(got) != show(want) {
			return Bad("after history %v and a start with %v, a new start must see %s, sees %s (exit %d)", k.H, extra, show(want), show(got), r.RC)
		}
	}
	return Out{Outcome: show(got), States: st, Trans: tr, Steps: len(k.H) + 2}
}

func trunc(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// quote makes a command line word that stands for the value.
func quote(v string) string { return strings.ReplaceAll(v, ":", "\\:") }

func main() {
	eng.TicatMain(register)
	Main(Spec{ID: "P07", Level: "model_checking", CaseSec: 60,
		Rule: "every history of up to 3 (4) starts over 20 kinds of command line (saving, setting without saving, removing, resetting, clearing, failing before a save), then a new start with and without a command line value, in real processes and compared with a reference; 53 values under 7 keys; trivial where the parser takes a value apart",
		Gen:  gen, Exec: exec})
}
