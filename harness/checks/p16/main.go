// P16: sessions: starting, listing and cleaning over every population.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/ticat"

	"verif/eng"
	. "verif/vlib"
)

type Case struct {
	P []int // population: kinds
	C int   // command
	I int   // the member it is about
	K int   // keep time
}

func register(tc *ticat.TiCat) {
	add := func(n string, ok bool) {
		tc.Cmds.GetOrAddSub(n).RegPowerCmd(
			func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
				eng.Observe(n + " " + env.GetRaw("session"))
				return idx, ok
			}, "verif "+n)
		tc.Cmds.GetOrAddSub(n).SetSource("verif-repo")
	}
	add("va", true)
	add("vb", true)
	add("vfalse", false)
}

type kind struct {
	name string
	rec  string // ok, fail, inc (killed), none, empty, garbage
	pid  string // dead, me, other
	age  int    // hours
	for_ string // foreign: the name
	file bool
	same bool // of the same second
}

var kinds = []kind{
	{name: "done", rec: "ok", pid: "dead", age: 1},
	{name: "done older", rec: "ok", pid: "dead", age: 100},
	{name: "done very old", rec: "ok", pid: "dead", age: 5000},
	{name: "failed", rec: "fail", pid: "dead", age: 1},
	{name: "killed very old", rec: "inc", pid: "dead", age: 5000},
	{name: "running", rec: "inc", pid: "me", age: 1},
	{name: "running very old", rec: "inc", pid: "me", age: 5000},
	{name: "running very old, of another user", rec: "inc", pid: "other", age: 5000},
	{name: "done, process id in use", rec: "ok", pid: "me", age: 100},
	{name: "no record", rec: "none", pid: "dead", age: 1},
	{name: "no record, very old", rec: "none", pid: "dead", age: 5000},
	{name: "garbage record", rec: "garbage", pid: "dead", age: 1},
	{name: "killed", rec: "inc", pid: "dead", age: 1},
	{name: "no record, running, very old", rec: "none", pid: "me", age: 5000},
	{name: "done, same second", rec: "ok", pid: "dead", age: 1, same: true},
	{name: "failed, same second", rec: "fail", pid: "dead", age: 1, same: true},
	{name: "foreign", for_: "notes"},
	{name: "foreign, time only", for_: "20200101-000000"},
	{name: "foreign, backup", for_: "20200101-000000.99999999.bak"},
	{name: "foreign, other time", for_: "20200101.99999999"},
	{name: "foreign file", for_: "README.123", file: true},
}

var keeps = []struct {
	val  string
	hour int
	in   bool   // in the command line, else saved
	by   string // saved by an earlier run of this
}{
	{"", 2400, false, ""},
	{"50h", 50, false, ""},
	{"50h", 50, true, ""},
	{"0s", 0, false, ""},
	{"", 50, false, "sessions.set-keep-duration 50h : env.save"},
	{"", 50, false, "sessions.kd duration=50h : env.save"},
	{"", 72, false, "sessions.set-keep-duration : env.save"},
	{"", 0, false, "sessions.keep 0s : env.save"},
}

type sess struct {
	at int
	kind
	dir string
}

// commands: input (with $id and $key), whether the run opens a session
type command struct {
	name string
	in   func(s *sess) []string
	mem  bool // about a member
	rm   string
	list string
	sess bool
}

func fixed(in string) func(*sess) []string {
	return func(*sess) []string { return strings.Fields(in) }
}

var commands = []command{
	{name: "start", in: fixed("va : vb"), sess: true},
	{name: "failing start", in: fixed("vfalse : vb"), sess: true},
	{name: "lookup", in: fixed("env.ls")},
	{name: "refused", in: fixed("va : no.such")},
	{name: "remove", in: func(s *sess) []string { return []string{"session.remove", s.dir} }, mem: true, rm: "id"},
	{name: "remove bracketed", in: func(s *sess) []string { return []string{"session.remove", "[" + s.dir + "]"} }, mem: true, rm: "id"},
	{name: "remove forced", in: func(s *sess) []string {
		return []string{"session.remove", "session-id=" + s.dir, "remove-running=true"}
	}, mem: true, rm: "idf"},
	{name: "remove unknown", in: fixed("session.remove 20200101-000000.7")},
	{name: "remove part", in: func(s *sess) []string { return []string{"session.remove", s.dir[:len(s.dir)-1]} }, mem: true},
	{name: "remove all", in: fixed("session.remove.all"), rm: "all"},
	{name: "remove all in a flow", in: fixed("va : session.remove.all : vb"), rm: "all", sess: true},
	{name: "search by name", in: func(s *sess) []string { return []string{"session.remove.by-search", s.dir} }, mem: true, rm: "find"},
	{name: "search by name forced", in: func(s *sess) []string {
		return []string{"session.remove.by-search", "1st-str=" + s.dir, "remove-running=true"}
	}, mem: true, rm: "findf"},
	{name: "search flow", in: fixed("session.remove.by-search vfalse"), rm: "find"},
	{name: "search two", in: fixed("session.remove.by-search va vb"), rm: "find"},
	{name: "search both", in: fixed("session.remove.by-search va vfalse"), rm: "find"},
	{name: "search dir and flow", in: fixed("session.remove.by-search vfalse 20"), rm: "find"},
	{name: "list", in: fixed("session"), list: "all"},
	{name: "list errors", in: fixed("session.error"), list: "error"},
	{name: "list done", in: fixed("session.done"), list: "done"},
	{name: "list running", in: fixed("session.running"), list: "running"},
	{name: "list by word", in: fixed("session vfalse"), list: "vfalse"},
	{name: "status", in: func(s *sess) []string { return []string{"session.status", s.dir} }, mem: true, list: "id"},
	{name: "desc", in: func(s *sess) []string { return []string{"session.desc", s.dir} }, mem: true},
	{name: "last", in: fixed("session.last"), list: "last"},
	{name: "last desc", in: fixed("session.last.desc")},
}

// records: real ones, made once per process
var recs map[string]string

func records() map[string]string {
	if recs != nil {
		return recs
	}
	r := map[string]string{"garbage": "no such format\n<cmd\n", "empty": ""}
	for n, in := range map[string]string{"ok": "va : vb", "fail": "va : vfalse : vb", "inc": "vb : va : vb"} {
		b := eng.NewBox()
		b.Run(strings.Fields(in)...)
		fs, _ := filepath.Glob(filepath.Join(b.Data(), "sessions", "*", "status"))
		if len(fs) != 1 {
			panic(fmt.Sprintf("no status file of %q: %v", in, fs))
		}
		d, err := os.ReadFile(fs[0])
		if err != nil {
			panic(err)
		}
		b.Close()
		s := string(d)
		if n == "inc" {
			i := strings.LastIndex(s, "<cmd-finish-time>")
			s = s[:i]
		}
		r[n] = s
	}
	recs = r
	return r
}

var shown = regexp.MustCompile(`(?m)^\[(\S+)\]`)

func exec(key string) Out {
	var k Case
	U(key, &k)
	rec := records()
	b := eng.NewBox()
	defer b.Close()
	root := filepath.Join(b.Data(), "sessions")
	keep := keeps[k.K]
	if keep.by != "" {
		if r := b.Run(strings.Fields(keep.by)...); r.RC != 0 {
			return Bad("%q: status %d, %.300s %.300s", keep.by, r.RC, r.Out, r.Err)
		}
		os.RemoveAll(root)
	}
	now := time.Now()
	var ss []*sess
	dirs := map[string]*sess{}
	for i, p := range k.P {
		s := &sess{kind: kinds[p], at: i}
		if s.for_ != "" {
			s.dir = s.for_
			if s.file {
				b.Write("ticat.data/sessions/"+s.dir, "some text\n")
			} else {
				b.Write("ticat.data/sessions/"+s.dir+"/keep.txt", "some text\n")
			}
		} else {
			pid := 99999990 + i*11 // one more digit from the second on
			switch s.pid {
			case "me":
				pid = os.Getpid()
			case "other":
				pid = 1
			}
			before := time.Duration(i*7+1) * time.Second
			if s.same {
				before = 0
			}
			s.dir = now.Add(-time.Duration(s.age)*time.Hour-before).Format("20060102-150405") + "." + fmt.Sprint(pid)
			os.MkdirAll(filepath.Join(root, s.dir), 0755)
			b.Write("ticat.data/sessions/"+s.dir+"/env", "a=b\n")
			b.Write("ticat.data/sessions/"+s.dir+"/12/status", "x\n")
			if s.rec != "none" {
				b.Write("ticat.data/sessions/"+s.dir+"/status", rec[s.rec])
			}
		}
		if dirs[s.dir] != nil {
			return Out{Trivial: true, Outcome: "twice the same entry"}
		}
		dirs[s.dir] = s
		ss = append(ss, s)
	}
	if keep.val != "" && !keep.in {
		b.Write("ticat.data/bootstrap.env", "sys.sessions.keep-status-duration="+keep.val+"\n")
	}
	c := commands[k.C]
	var tgt *sess
	if c.mem {
		tgt = ss[k.I]
	}
	in := c.in(tgt)
	if keep.in {
		in = append([]string{"{sys.sessions.keep-status-duration=" + keep.val + "}"}, in...)
	}
	ran := b.Run(in...)
	desc := func() string {
		var d []string
		for _, s := range ss {
			d = append(d, s.dir+" ("+s.name+")")
		}
		return fmt.Sprintf("sessions %s, keep time %q (saved: %v) %q, %q: status %d, %.300s %.300s", strings.Join(d, ", "), keep.val, !keep.in, keep.by, in, ran.RC, ran.Out, ran.Err)
	}
	if ran.Timeout || strings.Contains(ran.Err, "goroutine ") {
		return Bad("the program crashed or hung, %s", desc())
	}
	// the entries afterwards
	after := map[string]bool{}
	var fresh []string
	es, err := os.ReadDir(root)
	if err != nil && !os.IsNotExist(err) {
		return Bad("%v", err)
	}
	for _, e := range es {
		after[e.Name()] = true
		if dirs[e.Name()] == nil {
			fresh = append(fresh, e.Name())
		}
	}
	if c.sess != (len(fresh) == 1) || len(fresh) > 1 {
		return Bad("new sessions: %q, %s", fresh, desc())
	}
	if c.sess {
		at := filepath.Join(root, fresh[0])
		obs := b.Out()
		for _, o := range obs {
			if f := strings.Fields(o); len(f) != 2 || f[1] != at {
				return Bad("new session %s, but a command saw %q, %s", at, o, desc())
			}
		}
		if len(obs) == 0 {
			return Bad("nothing ran, %s", desc())
		}
	}
	dead := func(s *sess) bool { return s.for_ == "" && s.pid == "dead" }
	readable := func(s *sess) bool { return s.for_ == "" && (s.rec == "ok" || s.rec == "fail" || s.rec == "inc") }
	matches := func(s *sess, words ...string) bool {
		if !readable(s) {
			return false
		}
		flow := strings.SplitN(rec[s.rec], "\n", 3)[1]
		for _, w := range words {
			if !strings.Contains(s.dir, w) && !strings.Contains(flow, w) {
				return false
			}
		}
		return true
	}
	// by name, latest first: what a search finds
	byName := append([]*sess{}, ss...)
	sort.Slice(byName, func(i, j int) bool {
		a, b := byName[i], byName[j]
		if a.same && b.same {
			return a.at > b.at // started later
		}
		return a.dir > b.dir
	})
	removed := 0
	for _, s := range ss {
		full := after[s.dir]
		if full && s.for_ == "" {
			for _, f := range []string{"env", "12/status"} {
				if _, err := os.Stat(filepath.Join(root, s.dir, f)); err != nil {
					return Bad("%s (%s) has lost %s, %s", s.dir, s.name, f, desc())
				}
			}
			if d, _ := os.ReadFile(filepath.Join(root, s.dir, "status")); s.rec != "none" && string(d) != rec[s.rec] {
				return Bad("the record of %s (%s) has changed to %q, %s", s.dir, s.name, d, desc())
			}
		}
		if full && s.for_ != "" && !s.file {
			if _, err := os.Stat(filepath.Join(root, s.dir, "keep.txt")); err != nil {
				return Bad("%s has lost its file, %s", s.dir, desc())
			}
		}
		may, must := false, false
		if c.sess && dead(s) && s.age >= keep.hour {
			may, must = true, true
		}
		switch c.rm {
		case "id", "idf":
			if s == tgt && s.for_ == "" && (dead(s) || c.rm == "idf") {
				may = true
				must = must || readable(s)
			}
		case "all":
			if dead(s) {
				may, must = true, true
			}
		case "find", "findf":
			var words []string
			for _, w := range in {
				if !strings.HasPrefix(w, "session.") && !strings.HasPrefix(w, "{") && !strings.HasPrefix(w, "remove-") {
					words = append(words, strings.TrimPrefix(w, "1st-str="))
				}
			}
			first := true
			if s.rec == "garbage" && strings.Contains(s.dir, words[0]) {
				may = true
			}
			for _, o := range byName {
				if o == s {
					break
				}
				if matches(o, words...) {
					first = false
				}
			}
			if matches(s, words...) && (dead(s) || c.rm == "findf") {
				may = true
				must = must || first
			}
		}
		if !full && !may {
			return Bad("%s (%s) was removed, %s", s.dir, s.name, desc())
		}
		if full && must {
			return Bad("%s (%s) was not removed, %s", s.dir, s.name, desc())
		}
		if !full {
			removed++
		}
	}
	// (no session: nothing is found, which is no failure)
	if !c.mem && (c.list != "" || c.rm != "") && !ran.OK() {
		return Bad("the command failed, %s", desc())
	}
	// what is listed
	if c.list != "" {
		got := map[string]int{}
		for _, m := range shown.FindAllStringSubmatch(ran.Out, -1) {
			got[m[1]]++
		}
		lastDone := false
		for _, s := range byName {
			var want bool
			switch c.list {
			case "all":
				want = readable(s)
			case "error":
				want = readable(s) && dead(s) && s.rec != "ok"
			case "done":
				want = readable(s) && dead(s) && s.rec == "ok"
			case "running":
				want = readable(s) && !dead(s)
			case "vfalse":
				want = matches(s, "vfalse")
			case "id":
				want = s == tgt && readable(s)
			case "last":
				want = readable(s) && !lastDone
				lastDone = lastDone || want
			}
			n := got[s.dir]
			if s.rec == "garbage" && s.for_ == "" {
				n, want = 0, false // shown or not
			}
			if want != (n == 1) || n > 1 {
				return Bad("%s (%s) is listed %d times, %s", s.dir, s.name, n, desc())
			}
			delete(got, s.dir)
		}
		if len(got) != 0 {
			return Bad("listed as well: %v, %s", got, desc())
		}
	}
	var st []string
	for n := range after {
		if s := dirs[n]; s != nil {
			st = append(st, s.name)
		}
	}
	sort.Strings(st)
	return Out{Outcome: fmt.Sprintf("%s, removed %d of %d", c.name, removed, len(ss)), States: []string{strings.Join(st, "+")}, Steps: 1, Trivial: len(ss) == 0}
}

func gen(tier string, emit func(string)) {
	max := 2
	if tier == "thorough" {
		max = 3
	}
	var rec func(p []int)
	rec = func(p []int) {
		for c := range commands {
			for i := range p {
				if i > 0 && !commands[c].mem {
					break
				}
				for kp := range keeps {
					if kp > 0 && !commands[c].sess && (tier != "thorough" || len(p) > 1) {
						continue
					}
					if keeps[kp].in && c > 1 {
						continue
					}
					if len(p) == 3 && kp > 1 && c > 1 {
						continue
					}
					emit(J(Case{append([]int{}, p...), c, i, kp}))
				}
			}
			if len(p) == 0 && !commands[c].mem {
				emit(J(Case{[]int{}, c, 0, 0}))
			}
		}
		if len(p) == max {
			return
		}
		from := 0
		if len(p) > 0 {
			from = p[len(p)-1]
		}
		for x := from; x < len(kinds); x++ {
			rec(append(p, x))
		}
	}
	rec(nil)
}

func main() {
	eng.TicatMain(register)
	Main(Spec{ID: "P16", Level: "model_checking", CaseSec: 60, QuickSec: 300,
		Rule: "every population of up to 2 (thorough 3) of 19 kinds of entries of the session directory x 24 starting, removing and listing commands x the member they name x keep times; every case is a start of the real program, and the entries afterwards and the list shown are compared with the rule",
		Gen:  gen, Exec: exec})
}
