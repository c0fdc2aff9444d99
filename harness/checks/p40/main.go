// P40: the report on a session shows exactly what happened in it.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/ticat"

	"verif/eng"
	. "verif/vlib"
)

// def is what a command is.
type def struct {
	kind        string // s script, p function, f flow, n flow and script
	sets        [][2]string
	dels        []string
	fail        string // how it fails: the exit status of a script, the words of a function
	out         string // lines on the output
	body        []call
	quiet, fold bool
	// a value in braces at the head of a flow
	head [][2]string
}

// call is one command of a line or of a flow body.
type call struct {
	name string
	env  [][2]string // given in braces before it
	opt  string
}

func kv(s ...string) (r [][2]string) {
	for i := 0; i < len(s); i += 2 {
		r = append(r, [2]string{s[i], s[i+1]})
	}
	return
}

func b(names ...string) (r []call) {
	for _, n := range names {
		n, opt, _ := strings.Cut(n, " ")
		r = append(r, call{name: n, opt: opt})
	}
	return
}

var defs = map[string]*def{
	"vs1": {kind: "s", sets: kv("vk.a", "1"), out: "one\nof s1"},
	"vs2": {kind: "s", sets: kv("vk.a", "2", "vk.b", "x y", "vk.sys.s", "2"), out: "two"},
	"vsd": {kind: "s", dels: []string{"vk.a"}},
	"vsx": {kind: "s", sets: kv("vk.x", "9"), fail: "3", out: "before the end"},
	"vpk": {kind: "p", sets: kv("vk.p", "7", "vk.display.p", "q")},
	"vpe": {kind: "p", fail: "wrong: first\nsecond line"},
	"vpz": {kind: "p", sets: kv("vk.z", "3"), quiet: true},
	"vpd": {kind: "p", dels: []string{"vk.p", "vk.a"}},
	"vf1": {kind: "f", body: b("vs1", "vpk")},
	"vf2": {kind: "f", body: b("vpk", "vsx", "vs2")},
	"vf3": {kind: "f", body: b("vf1", "vpz", "vf4")},
	"vf4": {kind: "f", body: b("vs2")},
	"vf5": {kind: "f", head: kv("vk.h", "5"), body: b("vs2", "vsd")},
	"vf6": {kind: "f", body: b("vf2", "vs1")},
	"vf7": {kind: "f", body: b("vsx %err=ok", "vs1")},
	"vf8": {kind: "f", body: b("vpe")},
	"vn1": {kind: "n", body: b("vs1"), sets: kv("vk.n", "1"), out: "n after"},
	"vnx": {kind: "n", body: b("vpk"), fail: "4", out: "n fails"},
	"vnf": {kind: "n", body: b("vpk", "vpe"), sets: kv("vk.n", "2")},
}

const deepest = 24

func init() { // flows in flows
	in := "vsx"
	for i := 1; i <= deepest; i++ {
		n := fmt.Sprintf("vd%d", i)
		defs[n] = &def{kind: "f", body: b(in)}
		in = n
	}
}

func names() (r []string) {
	for n := range defs {
		r = append(r, n)
	}
	sort.Strings(r)
	return
}

func (c call) text() string {
	s := ""
	if len(c.env) != 0 {
		s = braces(c.env) + " "
	}
	s += c.name
	if c.opt != "" {
		s += " " + c.opt
	}
	return s
}

func braces(kvs [][2]string) string {
	var l []string
	for _, e := range kvs {
		l = append(l, e[0]+"="+e[1])
	}
	return "{" + strings.Join(l, " ") + "}"
}

func (d *def) text() string {
	var l []string
	for _, c := range d.body {
		l = append(l, c.text())
	}
	s := strings.Join(l, " : ")
	if len(d.head) != 0 {
		s = braces(d.head) + " " + s
	}
	return s
}

func register(tc *ticat.TiCat) {
	dir := os.Getenv("VERIF_MODS")
	for _, n := range names() {
		d := defs[n]
		t := tc.Cmds.GetOrAddSub(n)
		if d.kind != "p" {
			t.SetSource("verif")
		}
		var c *model.Cmd
		switch d.kind {
		case "s":
			c = t.RegFileCmd(dir+"/"+n, "script "+n, "verif")
		case "f":
			c = t.RegFlowCmd([]string{d.text()}, "flow "+n, "verif")
		case "n":
			c = t.RegFileNFlowCmd([]string{d.text()}, dir+"/"+n, "flow and script "+n, "verif")
		case "p":
			c = t.RegPowerCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
				s := env.GetLayer(model.EnvLayerSession)
				for _, e := range d.sets {
					s.Set(e[0], e[1])
				}
				for _, k := range d.dels {
					env.DeleteEx(k, model.EnvLayerDefault)
				}
				if d.fail != "" {
					panic(fmt.Errorf("%s", d.fail))
				}
				return idx, true
			}, "function "+n)
		}
		t.SetSource("verif")
		if d.quiet {
			c.SetQuiet()
		}
	}
}

func script(d *def) string {
	s := "#!/bin/bash\n"
	if d.out != "" {
		s += "echo '" + d.out + "'\n"
	}
	for _, e := range d.sets {
		s += "echo '" + e[0] + "=" + e[1] + "' >> \"$1/env\"\n"
	}
	for _, k := range d.dels {
		s += "echo '" + k + "=--' >> \"$1/env\"\n"
	}
	if d.fail != "" {
		s += "exit " + d.fail + "\n"
	}
	return s
}

type kase struct {
	L []int
	K string
}

var words = []call{
	{name: "vs1"}, {name: "vpk"}, {name: "vsx"}, {name: "vf1"}, {name: "vf2"}, {name: "vsd"}, {name: "vpe"}, {name: "vn1"}, {name: "vf5"}, {name: "vpz"},
	{name: "vs2"}, {name: "vpd"}, {name: "vf3"}, {name: "vf6"}, {name: "vf7"}, {name: "vf8"}, {name: "vnx"}, {name: "vnf"},
	{name: "vsx", opt: "%err=ok"}, {name: "vpe", opt: "%err=ok"}, {name: "vf2", opt: "%err=ok"},
	{name: "vs2", env: kv("vk.m", "8")}, {name: "vf1", env: kv("vk.m", "8", "vk.a", "0")},
	{name: "vs1", opt: "%delay=0"}, {name: "vsx", opt: "%delay=0"}, {name: "vf1", opt: "%delay=0"}, {name: "vf2", opt: "%delay=0"},
}

func gen(tier string, emit func(string)) {
	add := func(kind string) func([]int) {
		return func(x []int) { emit(J(kase{append([]int{}, x...), kind})) }
	}
	Seqs(len(words), 1, 2, add("run"))
	Seqs(len(words), 1, 1, add("cut"))
	for i := 1; i <= deepest; i++ {
		emit(J(kase{[]int{i}, "deep"}))
	}
	Seqs(4, 2, 3, add("many"))
	if tier == "thorough" {
		Seqs(4, 4, 4, add("many"))
	}
	n, m := 10, 9
	if tier == "thorough" {
		n, m = 23, 22
	}
	Seqs(n, 3, 3, add("run"))
	Seqs(m, 2, 2, add("cut"))
}

// shown is one command in a report.
type shown struct {
	depth      int
	name       string
	bg         bool
	st         string // OK, ERR, failed or unrun; ERR|failed in what is expected of flows
	start, mod []string
	log, errs  []string
	noMod      bool // what it changed isn't judged
	at         string
	maybe      bool // could be missing
}

func (s shown) text(what string, mod bool) string {
	t := fmt.Sprintf("%*s%s", s.depth*4, "", s.name)
	if s.bg {
		t += "&"
	}
	t += " " + s.st
	failed := s.st == "ERR"
	list := func(n string, l []string) {
		if strings.Join(l, "") != "" {
			t += " " + n + strings.Join(l, ", ")
		}
	}
	if s.st != "unrun" {
		if what == "full" || failed {
			list("start: ", s.start)
		}
		if mod {
			if what == "full" || what == "more" || failed {
				list("changed: ", s.mod)
			}
		}
		if what == "full" || failed || s.st == "failed" {
			list("log: ", []string{strings.Join(s.log, "")}) // long lines are in pieces
		}
		list("errors: ", s.errs)
	}
	return t
}

// scope is the environment: what is set for the session, and what braces
// limit to a command or a flow's body.
type scope struct {
	session map[string]string
	local   []map[string]string
}

func (s scope) with(kvs [][2]string) scope {
	if len(kvs) == 0 {
		return s
	}
	m := map[string]string{}
	for _, e := range kvs {
		m[e[0]] = e[1]
	}
	return scope{s.session, append(append([]map[string]string{}, s.local...), m)}
}

func (s scope) flat() map[string]string {
	m := map[string]string{}
	for k, v := range s.session {
		m[k] = v
	}
	for _, l := range s.local {
		for k, v := range l {
			m[k] = v
		}
	}
	return m
}

func sorted(m map[string]string) (r []string) {
	for k, v := range m {
		r = append(r, k+" = "+v)
	}
	sort.Strings(r)
	return
}

func changed(a, b map[string]string) (r []string) {
	for k, v := range a {
		if w, ok := b[k]; !ok {
			r = append(r, k+" = "+v+" <- (deleted)")
		} else if w != v {
			r = append(r, k+" = "+v+" <- (modified to) "+w)
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			r = append(r, k+" = "+v+" <- (added)")
		}
	}
	sort.Strings(r)
	return
}

// world is what happens, in the model.
type world struct {
	list   []shown
	events int // commands which began or ended
	bgFail bool
	hasBg  bool
	kill   int // the event with which the record ends, 0 none
}

func (w *world) killed() bool { return w.kill > 0 && w.events >= w.kill }

func (w *world) seq(cs []call, e scope, depth int) (failed bool) {
	for i, c := range cs {
		if failed || w.killed() {
			if d := defs[c.name]; !d.quiet {
				w.list = append(w.list, shown{depth: depth, name: c.name, st: "unrun", bg: bg(c)})
			}
			if bg(c) {
				continue
			}
			break
		}
		if i == 0 && depth == 0 { // braces at the head of a line are for the whole line
			for _, kv := range c.env {
				e.session[kv[0]] = kv[1]
			}
			c.env = nil
		}
		failed = w.one(c, e, depth)
	}
	return
}

func bg(c call) bool { return strings.HasPrefix(c.opt, "%delay") }

func (w *world) one(c call, e scope, depth int) (failed bool) {
	d := defs[c.name]
	e = e.with(c.env)
	w.hasBg = w.hasBg || bg(c)
	if bg(c) { // what a background command changes stays with it
		e.session = scope{session: e.session}.flat()
	}
	start := e.flat()
	at := -1
	if !d.quiet {
		at = len(w.list)
		w.list = append(w.list, shown{depth: depth, name: c.name, st: "OK", start: sorted(start), bg: bg(c)})
	}
	w.events++
	if w.killed() {
		if at >= 0 {
			w.list[at].st = "ERR|failed"
		}
		// it isn't known what it consists of
		if len(d.body) > 0 && !defs[d.body[0].name].quiet {
			w.list = append(w.list, shown{depth: depth + 1, name: d.body[0].name, st: "unrun", maybe: true})
		}
		return false
	}
	failed = w.seq(d.body, e.with(d.head), depth+1)
	inner := failed
	if w.killed() {
		if at >= 0 {
			w.list[at].st = "ERR|failed"
		}
		return false
	}
	var log, errs []string
	if !failed && d.kind != "f" {
		if d.kind != "p" && d.out != "" {
			log = strings.Split(d.out, "\n")
		}
		if d.fail != "" {
			failed = true
			errs = strings.Split(d.fail, "\n")
			if d.kind != "p" {
				errs = []string{"exit status " + d.fail}
			}
		}
		// a tolerated failure of a script is a success
		if !failed || d.kind == "p" || c.opt == "%err=ok" {
			for _, kv := range d.sets {
				e.session[kv[0]] = kv[1]
			}
			for _, k := range d.dels {
				delete(e.session, k)
				for _, l := range e.local {
					delete(l, k)
				}
			}
		}
	}
	if at >= 0 {
		s := &w.list[at]
		s.log, s.errs = log, errs
		s.mod = changed(start, e.flat())
		if failed && !inner && d.kind != "p" && c.opt == "%err=ok" {
			s.errs = nil
		} else if failed {
			s.st = "ERR"
			if inner {
				s.st, s.noMod = "ERR|failed", true
			}
		}
	}
	w.events++
	if failed && bg(c) {
		w.bgFail = true
	}
	return failed && c.opt == ""
}

var nameLine = regexp.MustCompile(`^( *)\[([a-z0-9]+)\]( \(schedule to bg in 0s\))? (?:(\d\d-\d\d:\d\d:\d\d) )?(\w+)`)
var headLine = regexp.MustCompile(`^ *- ([a-z-]+):$`)

// read a report
func read(text string) (r []shown, id string, closed bool) {
	sect := ""
	_, text, _ = strings.Cut(text, "session-id [")
	id, text, _ = strings.Cut(text, "]")
	for _, l := range strings.Split(text, "\n") {
		if m := nameLine.FindStringSubmatch(l); m != nil {
			r = append(r, shown{depth: len(m[1]) / 8, name: m[2], bg: m[3] != "", at: m[4], st: m[5]})
			sect = ""
			continue
		}
		if m := headLine.FindStringSubmatch(l); m != nil {
			sect = m[1]
			continue
		}
		t := strings.TrimSpace(l)
		if l == "<<<---" {
			closed = true
		}
		if strings.HasPrefix(t, "--->>>") || strings.HasPrefix(t, "<<<---") {
			// after it it's about the command with the flow
			if d := (len(l) - len(strings.TrimLeft(l, " "))) / 8; t[0] == '<' && d > 0 {
				r = append(r, shown{depth: d - 1, name: ""})
			}
			sect = ""
			continue
		}
		if len(r) == 0 || t == "" {
			continue
		}
		s := &r[len(r)-1]
		if s.name == "" { // back to the owner
			for i := len(r) - 2; i >= 0; i-- {
				if r[i].name != "" && r[i].depth == s.depth {
					s = &r[i]
					break
				}
			}
		}
		kv := strings.ReplaceAll(t, "'", "")
		switch sect {
		case "env-before-execute":
			s.start = append(s.start, kv)
		case "env-modified":
			s.mod = append(s.mod, kv)
		case "execute-log":
			s.log = append(s.log, t)
		case "err-msg":
			s.errs = append(s.errs, t)
		}
	}
	var rr []shown
	for _, s := range r {
		if s.name != "" {
			if len(s.log) > 0 {
				s.log = s.log[1:] // the file
			}
			rr = append(rr, s)
		}
	}
	return rr, id, closed
}

// compare a report with what is expected
func compare(text, what string, want []shown, id string, ok bool, from, to time.Time) string {
	got, gid, closed := read(text)
	if gid != id {
		return fmt.Sprintf("the report is on %q, not on %s", gid, id)
	}
	fail := func(why string) string {
		s := why + ", shown:\n"
		for _, g := range got {
			s += "  " + g.text(what, true) + "\n"
		}
		s += "expected:\n"
		for _, w := range want {
			s += "  " + w.text(what, true) + "\n"
		}
		return s
	}
	for i := range got {
		if i >= len(want) {
			return fail("more commands than expected")
		}
		g, w := got[i], want[i]
		if w.st == "ERR|failed" && (g.st == "ERR" || g.st == "failed") {
			w.st = g.st
		}
		if gt, wt := g.text(what, !w.noMod), w.text(what, !w.noMod); gt != wt {
			return fail(fmt.Sprintf("%q isn't %q", gt, wt))
		}
		if g.st == "unrun" {
			if g.at != "" {
				return fail("a command which was not run has a time")
			}
			continue
		}
		in := false
		for t := from; !t.After(to.Add(time.Second)); t = t.Add(time.Second) {
			in = in || t.Format("02-15:04:05") == g.at
		}
		if !in {
			return fail(fmt.Sprintf("a command ran at %s, between %v and %v", g.at, from, to))
		}
	}
	if len(got) != len(want) {
		return fail("less commands than expected")
	}
	if closed != ok {
		return fail(fmt.Sprintf("the end shown: %v", closed))
	}
	return ""
}

const gone = "99999999"

func exec(key string) Out {
	var k kase
	U(key, &k)
	box := eng.NewBox()
	defer box.Close()
	for n, d := range defs {
		if d.kind == "s" || d.kind == "n" {
			box.Write("m/"+n, script(d))
		}
	}
	box.Env = []string{"VERIF_MODS=" + box.Path("m")}
	var l []string
	var calls []call
	for _, w := range k.L {
		if k.K != "run" && k.K != "cut" {
			break
		}
		l = append(l, words[w].text())
		calls = append(calls, words[w])
	}
	if k.K == "many" {
		return many(box, k.L)
	}
	if k.K == "deep" {
		l = []string{fmt.Sprintf("vd%d", k.L[0])}
		calls = []call{{name: l[0]}}
	}
	line := strings.Join(l, " : ")
	w := &world{}
	failed := w.seq(calls, scope{session: map[string]string{}}, 0) || w.bgFail
	from := time.Now()
	r := box.Run(strings.Fields(line)...)
	to := time.Now()
	if r.Timeout || r.OK() == failed {
		return Bad("%q: exit status %d, failed expected: %v\n%s", line, r.RC, failed, tailOf(r.Err))
	}
	id, bad := settle(box, nil, -1)
	if bad != "" {
		return Bad("%q: %s", line, bad)
	}
	if k.K == "cut" {
		return cuts(box, line, calls, id)
	}
	o := Out{Outcome: fmt.Sprint(failed), States: []string{line}, Trans: []string{line}}
	ask := func(q ...string) string {
		o.Steps++
		r := box.Run(q...)
		if !r.OK() {
			panic(fmt.Sprintf("%q, then %v: exit status %d, %s %s", line, q, r.RC, r.Out, tailOf(r.Err)))
		}
		return r.Out
	}
	sid := "session-id=" + id
	state, right, wrong := "OK", "done", "error"
	clean := !failed
	if failed {
		state, right, wrong = "ERR", "error", "done"
	}
	for _, s := range w.list {
		if s.st != "OK" {
			clean = false
		}
	}
	for _, q := range [][]string{{"less", "session.last.desc"}, {"more", "session.last.desc.more"}, {"full", "session.last.desc.full"},
		{"full", "session.desc.full", sid}, {"less", "session." + right + ".desc"}} {
		if bad := compare(ask(q[1:]...), q[0], w.list, id, clean, from, to); bad != "" {
			return Bad("%q, then %v: %s", line, q[1:], bad)
		}
	}
	if r := box.Run("session." + wrong + ".desc"); strings.Contains(r.Out, id) {
		return Bad("%q, then session.%s.desc: %s", line, wrong, r.Out)
	}
	for _, q := range [][]string{{"sessions"}, {"session.last"}, {"session.status", sid}, {"sessions." + right}} {
		out := ask(q...)
		_, cmd, _ := strings.Cut(out, "ticat ")
		cmd, _, _ = strings.Cut(cmd, "\n")
		_, st, _ := strings.Cut(out, "status:")
		st = strings.TrimSpace(st)
		norm := func(s string) string {
			return strings.ReplaceAll(strings.ReplaceAll(s, "0s", "0"), "} ", "}")
		}
		if !strings.Contains(out, "["+id+"]") || norm(cmd) != norm(sortBraces(line)) || st != state && (!failed || st != "failed") {
			return Bad("%q, then %v shows %q, status %q, expected %q: %s", line, q, cmd, st, state, out)
		}
	}
	if out := ask("sessions." + wrong); strings.Contains(out, id) {
		return Bad("%q, then sessions.%s: %s", line, wrong, out)
	}
	if failed && !w.hasBg {
		if bad := retried(box, line, w, id, from); bad != "" {
			return Bad("%q, then retried: %s", line, bad)
		}
	}
	return o
}

// retried: what failed is retried, fails the same way, and is reported the same way
func retried(box *eng.Box, line string, w *world, id string, from time.Time) string {
	r := box.Run("session.retry", "session-id="+id)
	to := time.Now()
	if r.Timeout || r.OK() {
		return fmt.Sprintf("exit status %d", r.RC)
	}
	id2, bad := settle(box, []string{id}, -1)
	if bad != "" {
		return bad
	}
	list := []shown{}
	for _, s := range w.list {
		s.depth++
		if s.st == "OK" {
			s.log = nil // not run again
		}
		list = append(list, s)
	}
	for _, q := range [][]string{{"less", "session.last.desc"}, {"more", "session.last.desc.more"}, {"full", "session.desc.full", "session-id=" + id2}} {
		r := box.Run(q[1:]...)
		if !r.OK() {
			return fmt.Sprintf("%v: exit status %d", q, r.RC)
		}
		if bad := compare(r.Out, q[0], list, id2, false, from, to); bad != "" {
			return fmt.Sprintf("%v: %s", q[1:], bad)
		}
	}
	return ""
}

// settle gives the session of the last run the name of one of a process gone,
// as the number could be in use again
func settle(box *eng.Box, have []string, min int) (id, bad string) {
	root := box.Path("ticat.data", "sessions")
	dirs, _ := os.ReadDir(root)
	old := ""
	for _, d := range dirs {
		if !slices.Contains(have, d.Name()) {
			old = d.Name()
		}
	}
	if len(dirs) != len(have)+1 {
		return "", fmt.Sprintf("after %d runs there are the sessions %v", len(have)+1, dirs)
	}
	id = old[:strings.LastIndex(old, ".")+1] + gone
	if slices.Contains(have, id) {
		id = old[:strings.LastIndex(old, ".")+1] + gone + "0"
	}
	if min >= 0 {
		id = time.Now().Add(-time.Duration(min)*time.Minute).Format(model.SessionDirTimeFormat) + "." + gone
	}
	if err := os.Rename(filepath.Join(root, old), filepath.Join(root, id)); err != nil {
		panic(err)
	}
	filepath.Walk(filepath.Join(root, id), func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			d, _ := os.ReadFile(p)
			os.WriteFile(p, []byte(strings.ReplaceAll(string(d), old, id)), 0644)
		}
		return nil
	})
	return
}

var lines = []string{"vs1 : vpk", "vsx", "vf2", "vpk %delay=0 : vsx %err=ok"}
var fails = []bool{false, true, true, false}

// many: which of several sessions a report is on
func many(box *eng.Box, l []int) Out {
	var ids []string
	last := map[string]string{}
	of := map[string][]string{}
	for i, x := range l {
		r := box.Run(strings.Fields(lines[x])...)
		if r.Timeout || r.OK() == fails[x] {
			return Bad("%q: exit status %d, %s", lines[x], r.RC, tailOf(r.Err))
		}
		id, bad := settle(box, ids, 100-20*i)
		if bad != "" {
			return Bad("%q: %s", lines[x], bad)
		}
		ids = append(ids, id)
		which := map[bool]string{true: "error", false: "done"}[fails[x]]
		for _, w := range []string{which, "last"} {
			last[w] = id
			of[w] = append(of[w], id)
		}
	}
	o := Out{Outcome: "selected", States: []string{fmt.Sprint(l)}}
	at := regexp.MustCompile(`\[([0-9-]+\.[0-9]+)\]`)
	for _, w := range []string{"last", "error", "done"} {
		for _, q := range []string{"desc", "desc.more", "desc.full"} {
			o.Steps++
			r := box.Run("session." + w + "." + q)
			var got string
			if m := at.FindStringSubmatch(r.Out); m != nil {
				got = m[1]
			}
			if got != last[w] || last[w] != "" && !r.OK() {
				return Bad("the sessions %v of %v, session.%s.%s shows %s", ids, l, w, q, r.Out)
			}
		}
		o.Steps++
		q := "sessions." + w
		want := of[w]
		if w == "last" {
			q = "sessions"
			want = ids
		}
		var got []string
		for _, m := range at.FindAllStringSubmatch(box.Run(q).Out, -1) {
			got = append(got, m[1])
		}
		if !Eq(got, want) {
			return Bad("the sessions %v of %v, %s lists %v", ids, l, q, got)
		}
		for i, id := range ids {
			o.Steps++
			r := box.Run("session.status", "session-id="+id)
			ok := strings.Contains(r.Out, "\n        OK\n")
			if !r.OK() || !strings.Contains(r.Out, "["+id+"]") || ok == fails[l[i]] {
				return Bad("the sessions %v of %v, the status of %s: %s", ids, l, id, r.Out)
			}
		}
		if w == "last" {
			continue
		}
		n := 1
		q = "sessions." + w
		if len(want) < 2 {
			continue
		}
		r := box.Run(q, "max-count="+fmt.Sprint(n))
		got = nil
		for _, m := range at.FindAllStringSubmatch(r.Out, -1) {
			got = append(got, m[1])
		}
		if !Eq(got, want[len(want)-n:]) {
			return Bad("the sessions %v of %v, %s max-count=%d lists %v", ids, l, q, n, got)
		}
	}
	return o
}

// the values in braces are saved in the order of their keys
func sortBraces(s string) string {
	return regexp.MustCompile(`\{[^}]*\}`).ReplaceAllStringFunc(s, func(b string) string {
		f := strings.Fields(b[1 : len(b)-1])
		sort.Strings(f)
		return "{" + strings.Join(f, " ") + "}"
	})
}

// cuts: the program was killed after any line of the record
func cuts(box *eng.Box, line string, calls []call, id string) Out {
	file := box.Path("ticat.data", "sessions", id, "status")
	d, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	for _, c := range calls {
		if bg(c) {
			return Out{Trivial: true, Outcome: "in the background"}
		}
	}
	o := Out{Outcome: "cut", States: []string{line}, Trans: []string{line}}
	lines := strings.SplitAfter(strings.TrimSuffix(string(d), "\n"), "\n")
	have := ""
	n := 0 // events in the record
	sid := "session-id=" + id
	for i, l := range lines {
		have += l
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "<cmd>") || strings.HasPrefix(t, "<cmd-result>") {
			n++
		}
		os.WriteFile(file, []byte(have), 0644)
		for _, q := range []string{"session.desc", "session.desc.full"} {
			r := box.Run(q, sid)
			o.Steps++
			if !r.OK() {
				return Bad("%q, the record cut after line %d, %s: exit status %d, %s %s", line, i+1, q, r.RC, r.Out, tailOf(r.Err))
			}
			if n == 0 {
				continue
			}
			w := &world{kill: n}
			w.seq(calls, scope{session: map[string]string{}}, 0)
			got, _, _ := read(r.Out)
			at := 0
			str := ""
			bad := false
			for _, s := range w.list {
				str += fmt.Sprintf("  %*s%s %s\n", s.depth*4, "", s.name, s.st)
				if at < len(got) && got[at].depth == s.depth && got[at].name == s.name && strings.Contains("|"+s.st+"|", "|"+got[at].st+"|") {
					at++
				} else if !s.maybe {
					bad = true
				}
			}
			if bad || at != len(got) {
				return Bad("%q, the record cut after line %d %q, %s shows %s\nexpected\n%s", line, i+1, t, q, r.Out, str)
			}
		}
		o.States = append(o.States, have)
	}
	return o
}

func main() {
	eng.TicatMain(register)
	Main(Spec{ID: "P40", Level: "model_checking", CaseSec: 60,
		Rule: "every line of 1 or 2 of 27 words, 3 of 10 (thorough: of 23), with its session described in 5 ways and listed in 4; the record of lines of up to 2 of 9 words (thorough: 22) ended after any line; 24 depths of flows; the sessions of 2 or 3 (thorough: 4) of 4 lines selected in 9 ways",
		Gen:  gen, Exec: exec})
}

func tailOf(s string) string {
	if len(s) > 600 {
		s = s[:600]
	}
	return s
}
