// P01: a command line splits into commands exactly at its separators.
package main

import (
	"fmt"
	"strings"

	"verif/eng"
	. "verif/vlib"
)

var alpha = []string{":", "a", "\\", " ", "http", "HTTPS", "b/", "Http", "https", "HTTP"}

func words(n, max int, f func(string)) {
	Seqs(n, 0, max, func(s []int) { f(strings.Join(Strs(alpha, s), "")) })
}

func gen(tier string, emit func(string)) {
	one, two, three := 5, 2, 1
	if tier == "thorough" {
		one, two, three = 6, 3, 2
	}
	e := func(a ...string) { emit(J(a)) }
	words(len(alpha), one, func(a string) { e(a) })
	k2 := 7
	words(k2, two, func(a string) { words(k2, two, func(b string) { e(a, b) }) })
	words(5, three, func(a string) {
		words(5, three, func(b string) {
			words(5, three, func(c string) { e(a, b, c) })
		})
	})
	// longer mixes of separators and escapes only
	Seqs(3, one+1, one+3, func(s []int) { e(strings.Join(Strs(alpha, s), "")) })
}

// The reference: one left-to-right scan of each word.
func model(args []string) (cmds [][]string, global bool, states, trans []string) {
	cur := []string{}
	global = true
	first := true
	flushed := false
	add := func(w string) {
		cur = append(cur, strings.TrimSpace(w))
		first = false
	}
	state := "start"
	step := func(to, on string) {
		trans = append(trans, state+"-"+on+">"+to)
		state = to
		states = append(states, fmt.Sprintf("%s/%d/%d", to, len(cmds), len(cur)))
	}
	for _, arg := range args {
		if arg == "" {
			add("")
			step("word", "empty")
			continue
		}
		frag := ""
		lit := 0 // length of frag up to which characters cannot escape a colon
		for i := 0; i < len(arg); i++ {
			c := arg[i]
			if c != ':' {
				frag += string(c)
				step("in", "char")
				continue
			}
			if len(frag) > lit && strings.HasSuffix(frag, "\\") {
				frag = frag[:len(frag)-1] + ":"
				lit = len(frag)
				step("in", "escaped")
				continue
			}
			scheme := false
			for _, p := range []string{"http", "HTTP", "https", "HTTPS"} {
				if strings.HasSuffix(frag, p) {
					scheme = true
				}
			}
			if scheme {
				frag += ":"
				lit = len(frag)
				step("in", "scheme")
				continue
			}
			if frag != "" {
				add(frag)
			}
			if first && !flushed {
				global = false
			}
			flushed = true
			first = false
			cmds = append(cmds, cur)
			cur = []string{}
			frag = ""
			lit = 0
			step("sep", "colon")
		}
		if frag != "" {
			add(frag)
			step("word", "end")
		}
	}
	cmds = append(cmds, cur)
	return
}

var e *eng.Eng

func exec(key string) Out {
	var args []string
	U(key, &args)
	want, global, st, tr := model(args)
	if e == nil {
		e = eng.New("")
	}
	in := append([]string{}, args...)
	flow := eng.Parse(e, in...)
	var got [][]string
	for _, c := range flow.Cmds {
		got = append(got, c.ParseResult.Input)
	}
	out := Out{Outcome: fmt.Sprintf("%d cmds %v", len(want), want), States: st, Trans: tr, Steps: len(want),
		Trivial: !strings.Contains(key, ":")}
	if len(got) != len(want) {
		out.Violation = fmt.Sprintf("input %q splits into %d commands %q, expected %d: %q", args, len(got), got, len(want), want)
		return out
	}
	for i := range want {
		if !Eq(got[i], want[i]) {
			out.Violation = fmt.Sprintf("input %q: command %d is %q, expected %q", args, i, got[i], want[i])
			return out
		}
	}
	if (flow.GlobalCmdIdx == 0) != global {
		out.Violation = fmt.Sprintf("input %q: first command global=%v, expected %v", args, flow.GlobalCmdIdx == 0, global)
	}
	return out
}

func main() {
	Main(Spec{ID: "P01", Level: "model_checking",
		Rule:        "every word list over the token alphabet {: a \\ space http HTTPS b/ Http https HTTP} up to the tier's length; non-trivial when it contains a colon",
		Assumptions: []string{"one word is a string of at most 6 tokens (8 for separator/escape-only words); at most 3 words"},
		Gen:         gen, Exec: exec})
}
