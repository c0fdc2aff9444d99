// P18: the output of background commands is shown completely, in order, exactly
// once and not mixed, under every schedule.
package main

import (
	"fmt"
	"regexp"
	"strings"

	"verif/bgx"
	. "verif/vlib"
)

type Case struct {
	P string
	C int  // pieces of output of each command
	B int  // preemptions
	D bool `json:",omitempty"` // with sessions
}

var piece = regexp.MustCompile(`<v[a-z]\.[0-9]+\.[0-9]+>`)

func check(k Case, w *bgx.World) string {
	m := bgx.NewModel(k.P)
	if !w.Res.OK && !m.MainFails && !strings.Contains(k.P, "f") {
		return fmt.Sprintf("the run failed: %v", w.Res.Panic)
	}
	// the order in which the tasks are shown
	var order []*bgx.Task
	for i := range k.P {
		order = append(order, m.WaitOf[i]...)
	}
	order = append(order, m.End...)
	var want []string
	for _, t := range order {
		for _, s := range t.Starts {
			for i := 0; i < w.Chunks; i++ {
				want = append(want, fmt.Sprintf("<%s.%s.%d>", s, t.Vk, i))
			}
		}
	}
	// what is shown: it begins with the title of the task and ends with the
	// next one's
	var have []string
	pads := 0
	at := -1
	title := regexp.MustCompile(`display to thread`)
	text := ""
	flush := func() string {
		got := piece.FindAllString(text, -1)
		if w.Pad > 0 {
			pads += strings.Count(text, strings.Repeat("=", w.Pad))
		}
		text = ""
		if at < 0 {
			if len(got) > 0 {
				return fmt.Sprintf("%q is shown before a background command is in the foreground", got)
			}
			return ""
		}
		if at >= len(order) {
			return fmt.Sprintf("%d switches of the display, expected %d", at+1, len(order))
		}
		for _, g := range got {
			if !strings.Contains(g, "."+order[at].Vk+".") {
				return fmt.Sprintf("%s is shown while the command started at %s is in the foreground", g, order[at].Vk)
			}
		}
		have = append(have, got...)
		return ""
	}
	for _, e := range w.Events() {
		switch e.What {
		case "out":
			text += e.Name
		case "screen":
			if title.MatchString(e.Name) {
				if bad := flush(); bad != "" {
					return bad
				}
				at++
			}
			if piece.MatchString(e.Name) {
				return fmt.Sprintf("%q of a background command is shown past the task list", e.Name)
			}
		case "probe", "x":
			if bad := flush(); bad != "" {
				return bad
			}
		}
	}
	if bad := flush(); bad != "" {
		return bad
	}
	if w.Pad > 0 && pads != len(want) {
		return fmt.Sprintf("%d long outputs are shown completely, %d were written", pads, len(want))
	}
	if !Eq(have, want) {
		return fmt.Sprintf("shown: %q\nwritten: %q", have, want)
	}
	return ""
}

func exec(key string) Out {
	var k Case
	U(key, &k)
	return bgx.Explore(k.P, k.C, k.B, k.D, func(w *bgx.World, err interface{}) string { return check(k, w) })
}

func gen(tier string, emit func(string)) {
	thorough := tier == "thorough"
	seen := map[string]bool{}
	put := func(k Case) {
		if s := J(k); !seen[s] {
			seen[s] = true
			emit(s)
		}
	}
	n, alphabet := 2, "abfcnWLABX"
	if thorough {
		n, alphabet = 3, "abftcnxXWLABFCo"
	}
	bgx.Programs(alphabet, n, func(p string) {
		for c := 1; c <= 4; c++ {
			switch {
			case len(p) == 1 && c <= 2:
				put(Case{P: p, C: c, B: 2})
				if thorough {
					put(Case{P: p, C: c, B: 3})
				}
			case len(p) == 1:
				put(Case{P: p, C: c, B: 1})
			case len(p) == 2 && c == 1 && thorough:
				put(Case{P: p, C: c, B: 2})
			case len(p) == 2 && (c == 2 || c == 4 || thorough):
				put(Case{P: p, C: c, B: 1})
			case len(p) == 3 && c == 2:
				put(Case{P: p, C: c, B: 1})
			}
		}
	})
	// long outputs
	for _, p := range []string{"a", "aL", "acL", "anW", "aWc"} {
		put(Case{P: p, C: 90003, B: 1})
		put(Case{P: p, C: 700003, B: 1})
		if thorough {
			put(Case{P: p, C: 4000001, B: 1})
		}
	}
	for _, p := range []string{"abL", "aaL", "abB", "abWA", "abAB", "abBA", "afLL", "acL"} {
		put(Case{P: p, C: 2, B: 1})
		put(Case{P: p, C: 1, B: 1, D: true})
	}
}

func main() {
	Main(Spec{
		ID:      "P18",
		Level:   "exploration",
		Rule:    "one case is a program; in it, every schedule of its goroutines at all synchronisation points up to the number of preemptions",
		Gen:     gen,
		Exec:    exec,
		CaseSec: 600,
	})
}
