// P22: breakpoints stop exactly where asked, and the answer is obeyed.
package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"

	"github.com/innerr/ticat/pkg/core/model"

	"verif/eng"
	. "verif/vlib"
)

// command -> body (nil: leaf). "N*" also run a script after the flow.
var defs = map[string][]string{
	"pa": nil, "pb": nil, "pc": nil,
	"pF": {"pb", "pc"},
	"pG": {"pF", "pa"},
	"pL": {"pa", "pF"},
	"pN": {"pb", "pc"},
	"pM": {"pb", "pc"}, // asks not to stop between flow and script
	"pH": {"pa", "break", "pb"},
	"pq": nil, // quiet: never paused at
	// executed in background: never paused at, nor in it
	"pd": nil,
	"pD": {"pd"},
}

const bg = " %delay=0"

var hasScript = map[string]bool{"pN": true, "pM": true}

var fast = []string{"pa", "pb", "pF", "pG", "pL", "pq"}
var back = []string{"pd" + bg, "pD" + bg, "pa", "pF", "pd", "break"}
var slow = []string{"pa", "pN", "pF", "pM", "pH"}

type kase struct {
	Seq    []string
	Before []string
	After  []string
	End    bool
	Depth  int
}

func sets(names []string, max int) [][]string {
	r := [][]string{nil}
	for i := range names {
		r = append(r, []string{names[i]})
	}
	if max >= 2 {
		for i := range names {
			for j := i + 1; j < len(names); j++ {
				r = append(r, []string{names[i], names[j]})
			}
		}
	}
	return r
}

// commands which set break points, by the names they are for
var manage = []string{"pa", "pb", "pF", "break.list", "break.clear", "break.at pa", "break.at pb,pF",
	"break.after pb", "break.post pa_alias,pF", "break.at.end", "break.at pa,nosuch", "break.after nosuch"}

func gen(tier string, emit func(string)) {
	depth := 3
	if tier == "thorough" {
		depth = 4
	}
	n := 0
	emitSeqs := func(items []string, lo, hi int, bps []string, slow bool) {
		Seqs(len(items), lo, hi, func(c []int) {
			seq := Strs(items, c)
			for _, bf := range sets(bps, 2) {
				for _, af := range sets(bps, 1) {
					n++
					if len(seq) == 3 && tier != "thorough" && n%37 != 0 {
						continue
					}
					if len(seq) == 2 && tier != "thorough" && n%2 != 0 {
						continue
					}
					if slow && tier != "thorough" && n%11 != 0 {
						continue
					}
					if len(seq) == 3 && n%3 != 0 {
						continue
					}
					emit(J(kase{seq, bf, af, n%3 == 0, depth}))
				}
			}
			// stop in the middle of the sequence
			if len(seq) == 2 {
				emit(J(kase{[]string{seq[0], "break", seq[1]}, nil, nil, n%2 == 0, depth}))
				emit(J(kase{[]string{seq[0], "break", seq[1]}, []string{"pa"}, []string{"pb"}, n%2 == 0, depth}))
				emit(J(kase{[]string{"break", seq[0], seq[1]}, nil, nil, n%2 == 0, depth}))
				emit(J(kase{[]string{seq[0], seq[1], "break"}, nil, nil, n%2 == 0, depth}))
			}
		})
	}
	// break points set, changed and listed on the way
	Seqs(len(manage), 1, 4, func(c []int) {
		seq := Strs(manage, c)
		if len(seq) == 4 && tier != "thorough" && (c[0] < 3 || c[3] > 4) {
			return
		}
		emit(J(kase{seq, nil, nil, false, depth - 2}))
	})
	emitSeqs(fast, 1, 3, []string{"pa", "pb", "pF", "pc", "pG"}, false)
	k := 0
	Seqs(len(back), 1, 3, func(c []int) {
		seq := Strs(back, c)
		if !strings.Contains(strings.Join(seq, ""), "%") {
			return
		}
		for _, bf := range sets([]string{"pd", "pD", "pF", "pb"}, 2) {
			for _, af := range sets([]string{"pd", "pa"}, 1) {
				k++
				if len(seq) == 3 && k%13 != 0 && (tier != "thorough" || k%3 != 0) {
					continue
				}
				emit(J(kase{seq, bf, af, k%3 == 0, depth - 1}))
			}
		}
	})
	emitSeqs(slow, 1, 3, []string{"pa", "pN", "pF", "pM", "pb"}, true)
}

// ---------------------------------------------------------------- the oracle

type sim struct {
	k       kase
	ans     []string
	ev      []string
	offered [][]string
	before  map[string]bool
	after   map[string]bool
	pending bool // pause before the next command
	here    bool
	quit    bool
	fail    bool
	atEnd   bool
	bg      int // commands executed in background
}

// manage executes a command which changes or lists break points.
func (s *sim) manage(c string) {
	name, arg := c, ""
	if i := strings.Index(c, " "); i > 0 {
		name, arg = c[:i], c[i+1:]
	}
	var set map[string]bool
	switch name {
	case "break.list":
		s.ev = append(s.ev, listed(s.atEnd, s.before, s.after))
		return
	case "break.clear":
		s.atEnd = false
		s.before, s.after = map[string]bool{}, map[string]bool{}
		return
	case "break.at.end":
		s.atEnd = true
		return
	case "break.at":
		set = s.before
	case "break.after", "break.post":
		set = s.after
	}
	for _, n := range strings.Split(arg, ",") {
		if n == "nosuch" {
			s.fail, s.quit = true, true
			return
		}
		set[strings.TrimSuffix(n, "_alias")] = true
	}
}

func listed(end bool, before, after map[string]bool) string {
	l := func(m map[string]bool) (r []string) {
		for k := range m {
			r = append(r, k)
		}
		sort.Strings(r)
		return
	}
	return fmt.Sprintf("list end=%v before=%v after=%v", end, l(before), l(after))
}

func (s *sim) ask(kind string, opts ...string) string {
	s.ev = append(s.ev, "stop "+kind+" ["+strings.Join(opts, "")+"]")
	i := len(s.offered)
	s.offered = append(s.offered, opts)
	a := "c"
	if i < len(s.ans) {
		a = s.ans[i]
	}
	if a == "q" {
		s.quit = true
	}
	if a == "c" {
		s.pending = false
	}
	return a
}

func (s *sim) run(seq []string) {
	for _, c := range seq {
		if s.quit {
			return
		}
		if c == "break" {
			s.here = true
			continue
		}
		if strings.HasPrefix(c, "break.") {
			s.manage(c)
			continue
		}
		if strings.HasSuffix(c, bg) {
			s.bg++
			continue
		}
		skip, over := false, false
		if c != "pq" && (s.before[c] || s.here || s.pending) {
			kind := "step"
			if s.before[c] || s.here {
				kind = "before " + c
			}
			s.here = false
			s.pending = false
			var opts []string
			if defs[c] != nil && c != "pM" {
				opts = append(opts, "t")
			}
			opts = append(opts, "s", "d", "c", "i", "q")
			switch s.ask(kind, opts...) {
			case "q":
				return
			case "s":
				skip = true
			case "d":
				over = true
			case "t":
				s.pending = true
			}
		}
		if skip {
			s.pending = true
		} else if defs[c] == nil {
			s.ev = append(s.ev, "run "+c)
		} else {
			s.run(defs[c])
			if s.quit {
				return
			}
			if hasScript[c] {
				exec := true
				if s.pending && c != "pM" {
					s.pending = false
					switch s.ask("inside "+c, "s", "d", "c", "i", "q") {
					case "q":
						return
					case "s":
						exec = false
						s.pending = true
					case "d":
						s.pending = true
					}
				}
				if exec {
					s.ev = append(s.ev, "run "+c)
				}
			}
		}
		if over {
			s.pending = true
		}
		if s.after[c] {
			switch s.ask("after "+c, "d", "c", "i", "q") {
			case "q":
				return
			case "d":
				s.pending = true
			}
		}
	}
}

func (s *sim) main() {
	s.before, s.after = map[string]bool{}, map[string]bool{}
	for _, c := range s.k.Before {
		s.before[c] = true
	}
	for _, c := range s.k.After {
		s.after[c] = true
	}
	s.atEnd = s.k.End
	seq := s.k.Seq
	for len(seq) > 0 && seq[len(seq)-1] == "break.at.end" { // trailing ones are executed first
		s.atEnd = true
		seq = seq[:len(seq)-1]
	}
	s.run(seq)
	if s.quit {
		return
	}
	if s.atEnd || s.here {
		s.ask("end", "c", "i", "q")
	}
}

// ---------------------------------------------------------------- real runs

func needDir(k kase) bool {
	for _, c := range append(append(append([]string{}, k.Seq...), k.Before...), k.After...) {
		if hasScript[c] {
			return true
		}
	}
	return false
}

func real(k kase, ans []string) (ev []string, inBg int, res eng.Result, args []string, done func()) {
	dir, drop := "", func() {}
	if needDir(k) {
		dir, drop = eng.Scratch()
	}
	e := eng.New(dir)
	var scripts func()
	var lock sync.Mutex
	log := func(f string, a ...interface{}) {
		scripts()
		ev = append(ev, fmt.Sprintf(f, a...))
	}
	for name, body := range defs {
		name := name
		switch {
		case body == nil:
			c := e.Power(name, func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
				if env.GetBool("sys.in-bg-task") {
					lock.Lock()
					inBg++
					lock.Unlock()
					return idx, true
				}
				log("run %s", name)
				return idx, true
			})
			if name == "pq" {
				c.SetQuiet()
			}
			e.Node(name).AddAbbrs(name + "_alias")
		case hasScript[name]:
			if dir == "" {
				continue
			}
			c := e.FileNFlow(name, "echo ran-"+name+" >> $TRACE", strings.Join(body, " : "))
			if name == "pM" {
				c.SetUnbreakFileNFlow()
			}
		default:
			e.Flow(name, strings.Join(body, " : "))
		}
	}
	pr, pw, _ := os.Pipe()
	old := os.Stdin
	os.Stdin = pr
	n := 0
	seen := 0
	scripts = func() {
		if dir == "" {
			return
		}
		t := e.FTrace()
		for ; seen < len(t); seen++ {
			ev = append(ev, "run "+strings.TrimPrefix(t[seen], "ran-"))
		}
	}
	var opts []string
	kind := ""
	listing := ""
	var lEnd bool
	lists := map[string]map[string]bool{}
	e.Screen.OnPrint = func(t string) {
		switch {
		case t == "settings:\n":
			listing, lEnd, lists = "none", false, map[string]map[string]bool{"before": {}, "after": {}}
		case listing != "" && t == "status:\n":
			log("%s", listed(lEnd, lists["before"], lists["after"]))
			listing = ""
		case listing != "":
			switch {
			case strings.HasPrefix(t, "    break at end:"):
				lEnd = true
			case strings.HasPrefix(t, "    break before"):
				listing = "before"
			case strings.HasPrefix(t, "    break when"):
				listing = "after"
			case listing != "none":
				lists[listing][strings.Trim(strings.TrimSpace(t), "[]")] = true
			}
		}
		if i := strings.Index(t, "paused by '"); i >= 0 {
			scripts()
			kind = t[i+len("paused by '"):]
			kind = kind[:strings.LastIndex(kind, "'")]
			opts = nil
			a := "c"
			if n < len(ans) {
				a = ans[n]
			}
			n++
			// the whole menu is printed before the answer is read: the event is
			// completed when the line of "q" arrives
			fmt.Fprintf(pw, "%s\n", a)
			return
		}
		if kind != "" && len(t) > 2 && t[1] == ':' {
			opts = append(opts, t[:1])
			if t[0] == 'q' {
				log("stop %s [%s]", short(kind), strings.Join(opts, ""))
				kind = ""
			}
		}
		if strings.Contains(t, "not valid input") {
			log("answer refused: %s", t)
			fmt.Fprintf(pw, "c\n")
		}
	}
	if len(k.Before) > 0 {
		bf := strings.Join(k.Before, ",")
		if k.End {
			bf = strings.Replace(bf, "pa", "pa_alias", 1) // by another name
		}
		args = append(args, "break.at", bf, ":")
	}
	if len(k.After) > 0 {
		args = append(args, "break.after", strings.Join(k.After, ","), ":")
	}
	for i, c := range k.Seq {
		if i > 0 {
			args = append(args, ":")
		}
		if c == "pa" && i == len(k.Seq)-1 && len(k.Before) == 2 {
			c = "pa_alias"
		}
		args = append(args, strings.Fields(c)...)
	}
	if k.End {
		args = append(args, ":", "break.at.end")
	}
	res = e.Run(append([]string{}, args...)...)
	scripts()
	os.Stdin = old
	pr.Close()
	pw.Close()
	done = drop
	return
}

func short(kind string) string {
	switch {
	case kind == "just stepped in" || kind == "just stepped out" || kind == "previous choice":
		return "step"
	case strings.HasPrefix(kind, "break-point: before command ["):
		return "before " + strings.TrimSuffix(strings.TrimPrefix(kind, "break-point: before command ["), "]")
	case strings.HasPrefix(kind, "break-point: after command ["):
		return "after " + strings.TrimSuffix(strings.TrimPrefix(kind, "break-point: after command ["), "]")
	case kind == "break-point: at main-thread end":
		return "end"
	case strings.Contains(kind, "pre-executing subflow done"):
		return "inside " + strings.Trim(kind[:strings.Index(kind, ":")], "[]")
	}
	return kind
}

func exec(key string) Out {
	var k kase
	U(key, &k)
	var bad string
	runs := 0
	states := map[string]bool{}
	var rec func(ans []string)
	rec = func(ans []string) {
		if bad != "" {
			return
		}
		s := &sim{k: k, ans: ans}
		s.main()
		got, inBg, res, args, done := real(k, ans)
		done()
		runs++
		desc := fmt.Sprintf("input %q answers %q (then continue)", args, ans)
		if !Eq(got, s.ev) {
			bad = fmt.Sprintf("%s:\nmust %q\ndid  %q", desc, s.ev, got)
			return
		}
		if !s.quit && inBg != s.bg {
			bad = fmt.Sprintf("%s: %d commands executed in background, must be %d", desc, inBg, s.bg)
			return
		}
		if s.fail && !strings.Contains(fmt.Sprint(res.Panic), "nosuch") {
			bad = fmt.Sprintf("%s: must fail because of [nosuch], ended with %v %v", desc, res, res.Panic)
			return
		}
		if s.quit == res.OK {
			bad = fmt.Sprintf("%s: the run must end with %v, ended with %v %v", desc, !s.quit, res, res.Panic)
			return
		}
		states[strings.Join(s.ev, ";")] = true
		// extend by every answer at the first free stop
		if len(ans) >= k.Depth || len(s.offered) <= len(ans) {
			return
		}
		for i := len(ans); i < len(s.offered) && i < k.Depth; i++ {
			for _, o := range s.offered[i] {
				if o == "c" || o == "i" {
					continue // "c" is this very run; "i" needs a terminal
				}
				next := append([]string{}, ans...)
				for len(next) < i {
					next = append(next, "c")
				}
				rec(append(next, o))
			}
		}
	}
	rec(nil)
	if bad != "" {
		return Bad("%s", bad)
	}
	var st []string
	for x := range states {
		st = append(st, x)
	}
	return Out{Outcome: "obeyed", States: st, Steps: runs, Trivial: len(k.Before)+len(k.After) == 0 && !k.End && runs == 1}
}

func main() {
	Main(Spec{ID: "P22", Level: "model_checking", CaseSec: 300, QuickSec: 300,
		Rule: "sequences of up to 4 of 12 commands running, setting, clearing and listing break points, some with unknown names; sequences of up to 3 of 10 commands (functions, quiet ones, flows nested to depth 3, flows with a script, a breakpoint inside a flow) x breakpoint sets before/after/at the position/at the end x the whole tree of answers to a bounded depth; sequences of up to 3 with commands executed in background, which are never paused at; oracle: an independent stepping interpreter predicts every stop, its menu and every command run",
		Gen:  gen, Exec: exec})
}
