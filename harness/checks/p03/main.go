// P03: all argument forms bind the same values, and bad arguments are rejected.
package main

import (
	"fmt"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"

	"verif/eng"
	. "verif/vlib"
)

type arg struct {
	name  string
	def   string
	abbrs []string
}

var decls = [][]arg{
	{},
	{{"p", "", nil}},
	{{"p", "d1", []string{"P1", "v"}}},
	{{"p", "", []string{"P1"}}, {"r", "d2", nil}},
	{{"r", "d2", nil}, {"p", "d1", []string{"P1"}}, {"v", "", nil}},
	{{"p", "d1", []string{"P1", "P2"}}, {"r", "", []string{"R1"}}, {"s", "d3", nil}},
}

// pairs first: every list of these words, plain or in braces
var words = []string{"p=v", "r=u", "P1=w", "v", "p", "r", "bad", "=", "p=", "=v", "bad=1", "p=x=y", "x y", "P1", "R1=p", "s=1", ""}

type kase struct {
	D int
	B int // 0 plain, 1 braces glued, 2 braces with blanks, 3 dotted env then nothing
	W []string
}

func gen(tier string, emit func(string)) {
	max := 3
	if tier == "thorough" {
		max = 4
	}
	for n := 0; n <= max; n++ {
		for d := range decls {
			Seqs(len(words), n, n, func(s []int) {
				w := Strs(words, s)
				for b := 0; b < 3; b++ {
					if b > 0 && n == 0 {
						continue
					}
					emit(J(kase{d, b, w}))
				}
			})
		}
		if n <= 2 && tier != "thorough" {
			continue
		}
	}
	// deeper: 4 words in the plain form for the richest declaration
	if tier != "thorough" {
		Seqs(10, 4, 4, func(s []int) { emit(J(kase{5, 0, Strs(words, s)})) })
		Seqs(10, 4, 4, func(s []int) { emit(J(kase{3, 0, Strs(words, s)})) })
	} else {
		Seqs(10, 5, 5, func(s []int) { emit(J(kase{5, 0, Strs(words, s)})) })
	}
}

func lookup(d []arg, name string) string {
	for _, a := range d {
		if a.name == name {
			return a.name
		}
		for _, x := range a.abbrs {
			if x == name {
				return a.name
			}
		}
	}
	return ""
}

// ref: the reference meaning of argument words. ok=false: must be rejected.
// any=true: unspecified, not judged.
func ref(d []arg, w []string) (vals map[string]string, ok bool, any bool) {
	vals = map[string]string{}
	for _, a := range d {
		vals[a.name] = a.def
	}
	if len(w) == 0 {
		return vals, true, false
	}
	eq := false
	for _, x := range w {
		if strings.Contains(x, "=") {
			eq = true
		}
	}
	given := map[string]bool{}
	set := func(name, v string) bool {
		r := lookup(d, name)
		if r == "" {
			return false
		}
		if given[r] {
			any = true
		}
		given[r] = true
		vals[r] = v
		return true
	}
	if !eq {
		if len(w) <= len(d) {
			for i, x := range w {
				vals[d[i].name] = x
			}
			return vals, true, false
		}
		if lookup(d, w[0]) == "" || len(w)%2 != 0 {
			return nil, false, false
		}
		for i := 0; i < len(w); i += 2 {
			if !set(w[i], w[i+1]) {
				return nil, false, false
			}
		}
		return vals, true, any
	}
	var toks []string
	for _, x := range w {
		i := strings.Index(x, "=")
		if i < 0 { // an empty one, too
			toks = append(toks, x)
			continue
		}
		if i > 0 {
			toks = append(toks, x[:i])
		}
		toks = append(toks, "=")
		if i+1 < len(x) {
			toks = append(toks, x[i+1:])
		}
	}
	if len(toks)%3 != 0 {
		return nil, false, false
	}
	for i := 0; i < len(toks); i += 3 {
		if toks[i+1] != "=" || toks[i] == "=" {
			return nil, false, false
		}
		if toks[i+2] == "=" {
			any = true // a lone equals sign as a value
		}
		if !set(toks[i], toks[i+2]) {
			return nil, false, false
		}
	}
	return vals, true, any
}

var engines = map[int]*eng.Eng{}

func engine(d int) *eng.Eng {
	if e, ok := engines[d]; ok {
		return e
	}
	e := eng.New("")
	c := e.Power("qa", func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
		var s []string
		for _, a := range decls[d] {
			s = append(s, a.name+"="+argv.GetRaw(a.name))
		}
		e.Log("%s|%d", strings.Join(s, "|"), len(argv))
		return idx, true
	})
	for _, a := range decls[d] {
		c.AddArg(a.name, a.def, a.abbrs...)
	}
	e.Mark("qz")
	engines[d] = e
	return e
}

func exec(key string) Out {
	var k kase
	U(key, &k)
	for i, x := range k.W { // an empty word is judged as the value of a name= only
		if x == "" && (k.B > 0 || i == 0 || !strings.HasSuffix(k.W[i-1], "=") || strings.Count(k.W[i-1], "=") != 1 || k.W[i-1] == "=") {
			return Out{Outcome: "unspecified", Trivial: true}
		}
	}
	vals, ok, any := ref(decls[k.D], k.W)
	if k.B > 0 {
		hasEq := false
		for _, x := range k.W {
			hasEq = hasEq || strings.Contains(x, "=")
		}
		if !hasEq {
			return Out{Outcome: "n/a", Trivial: true}
		}
	}
	if any {
		return Out{Outcome: "unspecified", Trivial: true}
	}
	w := append([]string{}, k.W...)
	in := []string{":", "qa"}
	switch k.B {
	case 0:
		in = append(in, w...)
	case 1:
		w[0] = "{" + w[0]
		w[len(w)-1] += "}"
		in[1] += w[0]
		in = append(in, w[1:]...)
	case 2:
		in = append(append(append(in, "{"), w...), "}")
	}
	in = append(in, ":", "qz")
	e := engine(k.D)
	e.ResetTrace()
	e.Again()
	res := e.Run(in...)
	got := strings.Join(e.Trace(), ";")
	var want string
	if ok {
		var s []string
		for _, a := range decls[k.D] {
			s = append(s, a.name+"="+vals[a.name])
		}
		want = fmt.Sprintf("%s|%d;qz", strings.Join(s, "|"), len(decls[k.D]))
	}
	st := fmt.Sprintf("d%d b%d %s", k.D, k.B, want)
	out := Out{Outcome: st, Steps: 1, States: []string{st}, Trans: []string{fmt.Sprintf("%d words>", len(k.W)) + st}}
	if ok && (!res.OK || got != want) {
		out.Violation = fmt.Sprintf("args %+v input %q: bound %q (run ok=%v panic=%v), expected %q", decls[k.D], in, got, res.OK, res.Panic, want)
	}
	if !ok && (res.OK || got != "") {
		out.Violation = fmt.Sprintf("args %+v input %q: expected a rejection, but the run gave ok=%v trace %q", decls[k.D], in, res.OK, got)
	}
	if !ok && res.Panic != nil && strings.Contains(fmt.Sprint(res.Panic), "runtime error") {
		out.Violation = fmt.Sprintf("args %+v input %q: crashed instead of reporting the error: %v", decls[k.D], in, res.Panic)
	}
	return out
}

func main() {
	Main(Spec{ID: "P03", Level: "model_checking",
		Rule: "every list of argument words over a 16-word alphabet (pairs, positional, abbreviations, undeclared names, lone and glued equals signs) up to the tier's length, plain or in braces, for 6 argument declarations; non-trivial unless the reference leaves the meaning unspecified",
		Gen:  gen, Exec: exec})
}
