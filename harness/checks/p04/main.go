// P04: a command sequence saved as a flow runs the same as the sequence itself.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"

	"verif/eng"
	. "verif/vlib"
)

var vals = []string{"v", "a b", "it's", `say "x"`, "a:b", "a: b", `b\c`, `\`, "x;y", "a|b", "a&b", "a<b>c", "(z)", "$v", "`t`",
	`a'b"c d`, "http://h:1/x", "#c", "a,b", "é", `a\:b`, `\:`, "x=y", "*", "[x]", "a\tb", `"`, "'", `"q": c`, "%x", "^x", ".", "~",
	`\\`, `a\ b`, ":", "::", "$(x)", "b)", `a "b" 'c'`, "k1=v1 k2=v2", "--", "desc", "-1", "a/b", `c:\d e`, "!", "?", "a;b c"}

// V and W are the values; ^ marks where words are cut
type form struct {
	name string
	w    []string
}

var forms = []form{
	{"arg", []string{"qa", "p=V"}},
	{"two", []string{"qa", "p=V", "r=W"}},
	{"swap", []string{"qa", "r=V", "p=W"}},
	{"pos", []string{"qa", "V"}},
	{"pos2", []string{"qa", "W", "V"}},
	{"env", []string{"{k=V}", "qa", "p=u"}},
	{"env2", []string{"{k=V", "l=W}", "qa"}},
	{"envonly", []string{"{k=V}"}},
	{"mid", []string{"qc{m=V}.qd", "s=W"}},
	{"brace", []string{"qa", "{p=V}"}},
	{"err", []string{"qa", "%err=ok", "p=V"}},
	{"triv", []string{"^^qa", "p=V"}},
	{"abbr", []string{"QB", "P1=V"}},
	{"none", []string{"qc.qd"}},
	{"abbrenv", []string{"QC{m=V}.qd"}},
	{"delay", []string{"qa", "%delay=9h", "r=V"}},
}

type kase struct {
	L bool  // leading separator
	F []int // forms
	V []int // values per command
	W []int
}

func gen(tier string, emit func(string)) {
	e := func(l bool, f, v, w []int) { emit(J(kase{l, f, v, w})) }
	for _, l := range []bool{false, true} {
		for f := range forms {
			for v := range vals {
				e(l, []int{f}, []int{v}, []int{0})
				e(l, []int{f}, []int{0}, []int{v})
			}
		}
	}
	// every pair of special values in one command
	for _, f := range []int{1, 2, 4, 6, 8} {
		for v := range vals {
			for w := range vals {
				e(false, []int{f}, []int{v}, []int{w})
			}
		}
	}
	// pairs of commands
	nv := 9
	if tier == "thorough" {
		nv = len(vals)
	}
	for f := range forms {
		for g := range forms {
			for v := 0; v < nv; v++ {
				e(v%2 == 1, []int{f, g}, []int{v, (v + 1) % nv}, []int{1, 2})
			}
		}
	}
	if tier == "thorough" {
		for f := range forms {
			for g := range forms {
				for h := range forms {
					e(false, []int{f, g, h}, []int{1, 4, 2}, []int{3, 5, 0})
				}
			}
		}
	}
}

// word puts a value into a word of user input: colons are escaped, as a user has to.
func word(t, v, w string) string {
	esc := func(x string) string {
		if strings.HasPrefix(x, "http") {
			// a URL needs no escape after the scheme, the port does
			return x[:5] + strings.ReplaceAll(x[5:], ":", `\:`)
		}
		return strings.ReplaceAll(x, ":", `\:`)
	}
	t = strings.ReplaceAll(t, "V", "\x00")
	t = strings.ReplaceAll(t, "W", "\x01")
	t = strings.ReplaceAll(t, "\x00", esc(v))
	return strings.ReplaceAll(t, "\x01", esc(w))
}

func input(k kase) (args []string, delay bool) {
	if k.L {
		args = append(args, ":")
	}
	for i, f := range k.F {
		if i > 0 {
			args = append(args, ":")
		}
		if forms[f].name == "delay" {
			delay = true
		}
		for _, t := range forms[f].w {
			args = append(args, word(t, vals[k.V[i]], vals[k.W[i]]))
		}
	}
	return
}

func setup(dir string) *eng.Eng {
	e := eng.New(dir)
	log := func(name string, args ...string) eng.Fn {
		return func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
			var s []string
			for _, a := range args {
				s = append(s, fmt.Sprintf("%s=%q", a, argv.GetRaw(a)))
			}
			for _, k := range []string{"k", "l", "qc.m"} {
				s = append(s, fmt.Sprintf("%s=%q", k, env.GetRaw(k)))
			}
			e.Log("%s(%s)", name, strings.Join(s, ","))
			return idx, true
		}
	}
	e.Power("qa", log("qa", "p", "r")).AddArg("p", "dp").AddArg("r", "")
	e.Power("qb", log("qb", "p")).AddArg("p", "x", "P1")
	e.Node("qb").AddAbbrs("QB")
	e.Power("qc.qd", log("qc.qd", "s")).AddArg("s", "")
	e.Node("qc").AddAbbrs("QC")
	return e
}

func canon(flow *model.ParsedCmds) string {
	var s []string
	for _, c := range flow.Cmds {
		if c.IsAllEmptySegments() {
			continue
		}
		var kv []string
		for _, seg := range c.Segments {
			for k, v := range seg.Env {
				kv = append(kv, fmt.Sprintf("%s=%q/%v/%v", k, v.Val, v.IsArg, v.IsSysArg))
			}
		}
		sort.Strings(kv)
		er := ""
		if c.ParseResult.Error != nil {
			er = " ERR " + c.ParseResult.Error.Error()
		}
		s = append(s, fmt.Sprintf("%s^%d{%s}%s", strings.Join(c.Path(), "."), c.TrivialLvl, strings.Join(kv, ","), er))
	}
	return strings.Join(s, " : ") + fmt.Sprintf(" global=%v", flow.GlobalCmdIdx >= 0)
}

var pe *eng.Eng

func exec(key string) Out {
	var k kase
	U(key, &k)
	args, delay := input(k)
	if pe == nil {
		pe = setup("")
	}
	var orig *model.ParsedCmds
	func() {
		defer func() { recover() }() // an unknown %-option is refused by a panic
		orig = eng.Parse(pe, append([]string{}, args...)...)
	}()
	if orig == nil || orig.FirstErr() != nil {
		return Out{Outcome: "not a valid input", Trivial: true}
	}
	want := canon(orig)
	text := model.SaveFlowToStr(orig, ".", "^", pe.Env)
	var words []string
	fail := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				fail = fmt.Sprint(r)
			}
		}()
		words = model.FlowStrToStrs(text)
	}()
	if fail != "" {
		return Bad("input %q is saved as text %q, which can not be read back: %s", args, text, fail)
	}
	back := canon(eng.Parse(pe, words...))
	out := Out{Outcome: want, Steps: len(k.F), States: []string{want}, Trans: []string{want + " => " + text}}
	if back != want {
		out.Violation = fmt.Sprintf("input %q is saved as %q; meaning before: %s; after reading back: %s", args, text, want, back)
		return out
	}
	if delay || len(k.F) == 1 && forms[k.F[0]].name == "envonly" {
		return out
	}
	if len(k.F) == 1 && k.V[0] != 0 && k.W[0] != 0 && k.W[0] != 15 {
		return out // the text-level comparison covers the value pairs
	}
	// the whole way: run, save with the real command, load in a fresh engine, run
	dir, drop := eng.Scratch()
	defer drop()
	a := setup(dir)
	r1 := a.Run(append([]string{}, args...)...)
	t1 := a.Trace()
	b := setup(dir)
	r2 := b.Run(append(append([]string{}, args...), ":", "flow.save", "qsaved")...)
	file := filepath.Join(dir, "flows", "qsaved.tiflow")
	raw, err := os.ReadFile(file)
	if !r2.OK || err != nil {
		return Bad("saving %q as a flow failed: ok=%v panic=%v file: %v\n%s", args, r2.OK, r2.Panic, err, b.Screen.Err())
	}
	if len(b.Trace()) != 0 {
		return Bad("saving %q as a flow executed %v", args, b.Trace())
	}
	c := setup(dir)
	r0 := c.Run("mod.load.flows")
	c.Again()
	if !r0.OK {
		r0 = c.Run("builtin.mod.load.flows")
		c.Again()
	}
	r3 := c.Run("qsaved")
	t3 := c.Trace()
	if r1.OK != r3.OK || !Eq(t1, t3) {
		out.Violation = fmt.Sprintf("input %q ran %q (ok=%v); saved as\n%s\nit ran %q (ok=%v panic=%v load=%v)", args, t1, r1.OK, raw, t3, r3.OK, r3.Panic, r0)
	}
	return out
}

func main() {
	Main(Spec{ID: "P04", Level: "model_checking",
		Rule: "16 command forms x 49 values with special characters, alone and in sequences, saved to text and through the real save command and loader, compared with the original parse and execution; non-trivial when the input itself is valid",
		Gen:  gen, Exec: exec})
}
