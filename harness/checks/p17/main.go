// P17: background commands run once, can be waited for in any order and their
// failures are reported, under every schedule.
package main

import (
	"fmt"
	"strings"

	"verif/bgx"
	. "verif/vlib"
)

type Case struct {
	P string
	B int  // preemptions
	D bool `json:",omitempty"` // with sessions
}

func check(k Case, w *bgx.World) string {
	m := bgx.NewModel(k.P)
	tasks, waitOf, noWait := m.Tasks, m.WaitOf, m.NoWait
	// what happened
	started, ended := map[string]int{}, map[string]int{}
	over := func(t *bgx.Task) bool {
		for _, s := range t.Starts {
			if ended[s+"."+t.Vk] == 0 {
				return false
			}
		}
		return true
	}
	before := map[string]int{} // started before the last look at the list
	probes := 0
	shown := ""
	done := false
	for _, e := range w.Events() {
		switch e.What {
		case "look":
			before = map[string]int{}
			for s, n := range started {
				before[s] = n
			}
		case "screen":
			shown += e.Name
		case "start":
			f := strings.SplitN(e.Env, ",", 2)
			started[e.Name+"."+f[0]]++
			if want := map[bool]string{true: "va"}[e.Name == "vd"]; f[1] != want {
				return fmt.Sprintf("%s started at %s sees the changes of another background command: %q", e.Name, f[0], f[1])
			}
		case "end":
			ended[e.Name+"."+e.Env]++
		case "x":
			if e.Name != "" {
				return fmt.Sprintf("a change of the environment by a background command reached the main flow: %q", e.Name)
			}
		case "probe", "done":
			l := m.Left[e.N]
			if e.What == "probe" {
				probes++
				for _, t := range waitOf[e.N] {
					if !over(t) {
						return fmt.Sprintf("the wait at %d returned before %s (started at %s) finished", e.N, t.Name, t.Vk)
					}
				}
			} else {
				done = true
				l = m.Listed()
				if !noWait {
					for _, t := range tasks {
						if !over(t) {
							return fmt.Sprintf("the run ended before %s (started at %s) finished", t.Name, t.Vk)
						}
					}
				}
			}
			var have []string
			for i, s := range e.Stat {
				have = append(have, s.Cmd)
				if i >= len(l) {
					continue
				}
				t := l[i]
				if s.Finished && !over(t) {
					return fmt.Sprintf("%s (started at %s) is listed as finished while it runs", t.Name, t.Vk)
				}
				if s.Finished && !s.Started {
					return fmt.Sprintf("%s (started at %s) is listed as finished and not started", t.Name, t.Vk)
				}
				if before[t.Starts[0]+"."+t.Vk] > 0 && !s.Started {
					return fmt.Sprintf("%s (started at %s) runs and is listed as not started", t.Name, t.Vk)
				}
				if s.Finished && (s.Err != nil) != t.Fails {
					return fmt.Sprintf("%s (started at %s) is listed as finished with error %v", t.Name, t.Vk, s.Err)
				}
			}
			// (tasks started behind the wait aren't there yet)
			var want []string
			for _, t := range l {
				want = append(want, t.Name)
			}
			if !Eq(have, want) {
				return fmt.Sprintf("at %s %d the listed tasks are %q, expected %q", e.What, e.N, have, want)
			}
		}
	}
	if !done {
		return "the run didn't return"
	}
	if probes != len(waitOf) {
		return fmt.Sprintf("%d of %d waits returned", probes, len(waitOf))
	}
	wantOK := !m.MainFails
	fails := 0
	n := 0
	for _, t := range tasks {
		for _, s := range t.Starts {
			c := started[s+"."+t.Vk]
			n += c
			if c > 1 || c == 0 && !noWait {
				return fmt.Sprintf("%s (started at %s) ran %d times", t.Name, t.Vk, c)
			}
		}
		if t.Fails && (t.Waited || !noWait) {
			fails++
			if !t.Waited {
				wantOK = false
			}
		}
	}
	tot := 0
	for _, c := range started {
		tot += c
	}
	if tot != n {
		return fmt.Sprintf("something else ran: %v", started)
	}
	if w.Res.OK != wantOK && !(noWait && !w.Res.OK) {
		return fmt.Sprintf("the run returned %v (%v), expected %v", w.Res.OK, w.Res.Panic, wantOK)
	}
	if got := strings.Count(shown, "failed-vf"); fails > 0 && got < fails {
		return fmt.Sprintf("%d background commands failed, the messages are shown %d times", fails, got)
	}
	return ""
}

func exec(key string) Out {
	var k Case
	U(key, &k)
	return bgx.Explore(k.P, 0, k.B, k.D, func(w *bgx.World, err interface{}) string { return check(k, w) })
}

// letters in the order of their weight
const all = "abftcnxXWLABFCo"

var quick2 = map[string]bool{"ab": true, "aa": true, "af": true, "aW": true, "fW": true, "cL": true, "nA": true, "ao": true}

func gen(tier string, emit func(string)) {
	thorough := tier == "thorough"
	seen := map[string]bool{}
	put := func(k Case) {
		if s := J(k); !seen[s] {
			seen[s] = true
			emit(s)
		}
	}
	each := func(alphabet string, n int) {
		bgx.Programs(alphabet, n, func(p string) {
			switch {
			case len(p) <= 1:
				put(Case{P: p, B: 3})
			case len(p) == 2, thorough && len(p) == 3 && !strings.ContainsAny(p, "tnxCF"):
				b := 2
				if !thorough && !quick2[p] {
					b = 1
				}
				put(Case{P: p, B: b})
				if bgx.Starts(p) > 1 || thorough {
					put(Case{P: p, B: 1, D: true})
				}
			default:
				put(Case{P: p, B: 1})
			}
		})
	}
	if thorough {
		each(all, 3)
		each("abfcWLAo", 4)
	} else {
		each("abftcnXWLABo", 3)
	}
	// three tasks, waited for in every order
	for _, p := range []string{"abf", "aab", "fab"} {
		for _, w := range []string{"LLL", "ABF", "FAB", "AAW", "BLW", "ALB"} {
			put(Case{P: p + w, B: 1})
		}
	}
}

func main() {
	Main(Spec{
		ID:      "P17",
		Level:   "exploration",
		Rule:    "one case is a program; in it, every schedule of its goroutines at all synchronisation points up to the number of preemptions",
		Gen:     gen,
		Exec:    exec,
		CaseSec: 600,
	})
}
