// P15: the session record of every flow, at every point where the program is
// killed, can be read back, claims only what finished, and a retry runs
// exactly what isn't recorded as succeeded.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/ticat"

	"verif/crash"
	"verif/eng"
	. "verif/vlib"
)

// A shape is a forest, in text:
//
//	s script   t script which fails, tolerated   b script in the background
//	p script given an argument with unusual characters   m one with line breaks
//	n environment setting with line breaks
//	e environment setting only   d directory without a command
//	v script given a value in braces   x script which deletes the value of the ones before
//	F(..) flow   B(..) flow which begins with a value in braces   N(..) flow and script   Q(..) quiet flow: nothing shown of the flow inside
type node struct {
	ty   byte
	id   string // scripts and flows: the command
	kids []*node
}

func parse(s string) (ns []*node) {
	var stack [][]*node
	cur := []*node{}
	id := 0
	var owners []*node
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case '(':
			stack = append(stack, cur)
			owners = append(owners, cur[len(cur)-1])
			cur = nil
		case ')':
			o := owners[len(owners)-1]
			o.kids = cur
			owners = owners[:len(owners)-1]
			cur = stack[len(stack)-1]
			stack = stack[:len(stack)-1]
		default:
			n := &node{ty: c}
			if c != 'e' && c != 'd' && c != 'n' {
				n.id = "v" + string(rune('a'+id))
				id++
			}
			cur = append(cur, n)
		}
	}
	return cur
}

func walk(ns []*node, f func(n *node)) {
	for _, n := range ns {
		f(n)
		walk(n.kids, f)
	}
}

func (n *node) script() bool { return strings.IndexByte("stbpmvxN", n.ty) >= 0 }

// ids of the scripts in the order they run
func scripts(ns []*node) (ids []string) {
	for _, n := range ns {
		ids = append(ids, scripts(n.kids)...)
		if n.script() {
			ids = append(ids, n.id)
		}
	}
	return
}

const odd = "x y=\"<cmd>\"'q'\tz"
const lines = odd + "\nsecond line\n"

func word(n *node) []string {
	switch n.ty {
	case 't':
		return []string{n.id, "%err=ok"}
	case 'b':
		return []string{n.id, "%delay=0"}
	case 'p':
		return []string{n.id, "a1=" + odd}
	case 'm':
		return []string{n.id, "a1=" + lines}
	case 'e':
		return []string{"{vk=1}"}
	case 'n':
		return []string{"{vk=1\n<cmd>\n}"}
	case 'd':
		return []string{"vdir"}
	case 'v':
		return []string{"{lim=1}", n.id}
	}
	return []string{n.id}
}

func line(ns []*node) (args []string) {
	for i, n := range ns {
		if i > 0 {
			args = append(args, ":")
		}
		args = append(args, word(n)...)
	}
	return
}

func flowText(ns []*node, head ...string) string {
	ws := append(head, line(ns)...)
	for i, w := range ws {
		if strings.ContainsAny(w, " '\"\t<\n") {
			ws[i] = "'" + strings.ReplaceAll(w, "'", `'"'"'`) + "'"
		}
	}
	return strings.Join(ws, " ")
}

// --- the program in the box

func register(tc *ticat.TiCat) {
	shape := os.Getenv("VERIF_SHAPE")
	dir := os.Getenv("VERIF_MODS")
	ns := parse(shape)
	tc.Cmds.GetOrAddSub("vdir").GetOrAddSub("sub").RegEmptyCmd("nothing")
	walk(ns, func(n *node) {
		if n.id == "" {
			return
		}
		t := tc.Cmds.GetOrAddSub(n.id)
		t.SetSource("verif")
		file := filepath.Join(dir, n.id)
		switch n.ty {
		case 'F':
			t.RegFlowCmd([]string{flowText(n.kids)}, "flow", "verif")
		case 'B':
			t.RegFlowCmd([]string{flowText(n.kids, "{lim=2}")}, "flow", "verif")
		case 'Q':
			t.RegFlowCmd([]string{flowText(n.kids)}, "flow", "verif").SetQuietSubFlow()
		case 'N':
			t.RegFileNFlowCmd([]string{flowText(n.kids)}, file, "flow and script", "verif")
		case 'p', 'm':
			t.RegFileCmd(file, "script", "verif").AddArg("a1", "")
		default:
			t.RegFileCmd(file, "script", "verif")
		}
	})
}

const body = `#!/bin/bash
acc=
lim=
if [ -f "$1/env" ]; then
  while IFS= read -r l; do case "$l" in acc=*) acc="${l#acc=}";; LIM=*) lim=" given ${l#*=}";; esac; done < "$1/env"
fi
id=ID
ARGecho "start $id [$acc]$lim$arg" >> LOG
if [ -e FAIL.$id ]; then echo "WHAT $id" >> LOG; exit 1; fi
printf 'acc=%s\n' "SET" >> "$1/env"
MORE
echo "end $id" >> LOG
`

func setup(shape string, ns []*node, multi bool) *eng.Box {
	b := eng.NewBox()
	by := map[string]*node{}
	limited := map[string]bool{}
	walk(ns, func(n *node) {
		by[n.id] = n
		if n.ty == 'v' || n.ty == 'B' {
			limited[n.id] = true
			walk(n.kids, func(k *node) { limited[k.id] = true })
		}
	})
	for _, id := range scripts(ns) {
		s := strings.ReplaceAll(body, "ID", id)
		s = strings.ReplaceAll(s, "WHAT", map[bool]string{true: "tolerated", false: "fail"}[by[id].ty == 't'])
		// the value in braces is none of the business of other commands
		s = strings.ReplaceAll(s, "LIM", map[bool]string{true: "unused", false: "lim"}[limited[id]])
		s = strings.ReplaceAll(s, "SET", map[bool]string{true: "--", false: "${acc} =.$id"}[by[id].ty == 'x'])
		s = strings.ReplaceAll(s, "ARG", map[bool]string{true: "arg=\" arg $(printf %s \"$2\" | od -An -v -tx1 | tr -d ' \\n')\"\n", false: "arg=\n"}[by[id].ty == 'p' || by[id].ty == 'm'])
		more := ":"
		if multi {
			more = `printf 'odd.` + id + `= <cmd-result>OK</cmd-result>=x </env-start>\n' >> "$1/env"`
		}
		s = strings.ReplaceAll(s, "MORE", more)
		s = strings.ReplaceAll(s, "LOG", b.Path("ticat.data", "log"))
		s = strings.ReplaceAll(s, "FAIL", b.Path("fail"))
		b.Write("m/"+id, s)
	}
	b.Env = []string{"VERIF_SHAPE=" + shape, "VERIF_MODS=" + b.Path("m")}
	b.Write("ticat.data/log", "")
	walk(ns, func(n *node) {
		if n.ty == 't' {
			b.Write("fail."+n.id, "")
		}
	})
	return b
}

// --- what the log says

type seen struct {
	started, ended, failed map[string]bool
	order                  []string
}

func readLog(s string) (r seen) {
	r = seen{map[string]bool{}, map[string]bool{}, map[string]bool{}, nil}
	for _, l := range strings.Split(s, "\n") {
		f := strings.Fields(l)
		if len(f) < 2 {
			continue
		}
		switch f[0] {
		case "start":
			r.started[f[1]] = true
			if strings.Contains(l, " arg ") {
				l = strings.TrimSuffix(l, "0a") // blanks around values are open
			}
			r.order = append(r.order, l)
		case "end":
			r.ended[f[1]] = true
		case "fail":
			r.failed[f[1]] = true
		case "tolerated":
			// a tolerated failure of a script counts as success
			r.ended[f[1]] = true
		}
	}
	return
}

// expect gives the scripts a run executes in order with what they see, when the
// ones in skip succeeded earlier and stop fails.
func expect(ns []*node, skip map[string]bool, stop string, acc string) (main, bg []string, accOut string, failed bool) {
	for _, n := range ns {
		if n.kids != nil || strings.IndexByte("FNQB", n.ty) >= 0 {
			m, b, a, f := expect(n.kids, skip, stop, acc)
			main, bg, acc = append(main, m...), append(bg, b...), a
			if f {
				return main, bg, acc, true
			}
		}
		if !n.script() {
			continue
		}
		l := fmt.Sprintf("start %s [%s]", n.id, acc)
		switch n.ty { // the retry gives the same arguments
		case 'p':
			l += fmt.Sprintf(" arg %x", odd)
		case 'm':
			l += fmt.Sprintf(" arg %x", strings.TrimSpace(lines))
		}
		if n.ty == 'b' {
			if !skip[n.id] {
				bg = append(bg, l)
			}
			continue
		}
		if !skip[n.id] {
			main = append(main, l)
		}
		if n.ty == 't' {
			continue
		}
		if n.id == stop {
			return main, bg, acc, true
		}
		acc += " =." + n.id
		if n.ty == 'x' {
			acc = ""
		}
	}
	return main, bg, acc, false
}

func split(ns []*node, order []string) (main, bg []string) {
	isBg := map[string]bool{}
	walk(ns, func(n *node) { isBg[n.id] = n.ty == 'b' })
	for _, l := range order {
		if isBg[strings.Fields(l)[1]] {
			bg = append(bg, l)
		} else {
			main = append(main, l)
		}
	}
	return
}

func sameRun(ns []*node, order []string, skip map[string]bool, stop string) string {
	wm, wb, _, _ := expect(ns, skip, stop, "")
	gm, gb := split(ns, order)
	sort.Strings(wb)
	sort.Strings(gb)
	if Eq(wm, gm) && Eq(wb, gb) {
		return ""
	}
	return fmt.Sprintf("it ran %q and in the background %q, expected %q and %q", gm, gb, wm, wb)
}

// --- what the record says

type claim struct {
	name, result string
}

func claims(f *model.ExecutedFlow) (cs []claim) {
	for _, c := range f.Cmds {
		cs = append(cs, claim{c.Cmd, string(c.Result)})
		if c.SubFlow != nil && !c.IsDelay {
			cs = append(cs, claims(c.SubFlow)...)
		} else if c.IsDelay && c.SubFlow != nil && len(c.SubFlow.Cmds) > 0 {
			cs[len(cs)-1].result = string(c.SubFlow.Cmds[0].Result)
			if c.Result == model.ExecutedResultSucceeded {
				cs[len(cs)-1].result = string(c.Result)
			}
		}
	}
	return
}

func names(ns []*node) (out []string) {
	walk(ns, func(n *node) {
		if n.id != "" {
			out = append(out, n.id)
		}
	})
	return
}

func read(root, dir string) (f *model.ExecutedFlow, bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprintf("the record can't be read: %v", r)
		}
	}()
	_, f = model.ParseExecutedFlow(model.ExecutedStatusFilePath{RootPath: root, DirName: dir, FileName: "status"})
	if f == nil {
		bad = "the record can't be read: nothing returned"
	}
	return
}

// judge the record in the directory against what really happened
func judge(ns []*node, root, dir string, log seen) string {
	return judgeSkip(ns, root, dir, log, nil)
}

// judgeSkip: with a command skipped by the user, with all what it consists of
func judgeSkip(ns []*node, root, dir string, log seen, skipped *node) string {
	f, bad := read(root, dir)
	if bad != "" {
		return bad
	}
	all := names(ns)
	out := map[string]bool{} // not run because of the user
	if skipped != nil {
		out[skipped.id] = true
		walk(skipped.kids, func(n *node) { out[n.id] = true })
		if len(f.Cmds) == 0 || f.Cmds[0].Cmd != "break.at" {
			return "the record doesn't have the first command"
		}
		f.Cmds = f.Cmds[1:]
		var kept []string
		gone := map[string]bool{}
		for _, id := range names(skipped.kids) {
			gone[id] = true
		}
		for _, id := range all {
			if !gone[id] {
				kept = append(kept, id)
			}
		}
		all = kept
	}
	cs := claims(f)
	if len(cs) > len(all) {
		return fmt.Sprintf("the record lists %v, the flow has %v", cs, all)
	}
	by := map[string]*node{}
	walk(ns, func(n *node) { by[n.id] = n })
	listed := map[string]bool{}
	for i, c := range cs {
		if c.name != all[i] {
			return fmt.Sprintf("the record lists %v, the commands in order are %v", cs, all)
		}
		listed[c.name] = true
		if c.result != string(model.ExecutedResultSucceeded) {
			continue
		}
		ok := true
		if by[c.name].script() {
			ok = log.ended[c.name]
		}
		if skipped != nil && c.name == skipped.id {
			ok = false
		}
		walk(by[c.name].kids, func(n *node) {
			if n.script() && !log.ended[n.id] && n.ty != 'b' && !log.failed[n.id] && !out[n.id] {
				ok = false
			}
		})
		if !ok {
			return fmt.Sprintf("the record claims that %s finished successfully, which it didn't: %v", c.name, cs)
		}
	}
	for id := range log.started {
		if !listed[id] && by[id].ty != 'b' {
			return fmt.Sprintf("%s ran and isn't in the record: %v", id, cs)
		}
	}
	if f.Result == model.ExecutedResultSucceeded {
		for _, id := range scripts(ns) {
			if !log.ended[id] && by[id].ty != 't' && !out[id] {
				return fmt.Sprintf("the record claims that the run succeeded, %s didn't end", id)
			}
		}
	}
	return ""
}

// --- cases

type Case struct {
	S string
	F int // the script which fails, -1 none
	K string
	E bool   `json:",omitempty"` // unusual environment values
	X string `json:",omitempty"` // the command the user skips
}

func sessionDirs(t crash.Tree) (ids []string) {
	for _, p := range t.Paths() {
		if d, ok := strings.CutPrefix(p, "sessions/"); ok && t[p] == nil && !strings.Contains(d, "/") {
			ids = append(ids, d)
		}
	}
	return
}

// dead renames the session as if it was run an hour ago by a process long gone
func dead(t crash.Tree, id, as string) crash.Tree {
	n := crash.Tree{}
	for p, d := range t {
		if p == "sessions/"+id || strings.HasPrefix(p, "sessions/"+id+"/") {
			p = "sessions/" + as + p[len("sessions/"+id):]
		}
		n[p] = d
	}
	return n
}

func longAgo(min int) string {
	return time.Now().Add(-time.Duration(min)*time.Minute).Format(model.SessionDirTimeFormat) + ".99999999"
}

type world struct {
	ns   []*node
	b    *eng.Box
	root string
}

func (w *world) fix(id string, broken bool) {
	p := w.b.Path("fail." + id)
	if broken {
		w.b.Write("fail."+id, "")
	} else {
		os.Remove(p)
	}
}

// retry from a state and compare
func (w *world) retry(t crash.Tree, id string, args []string, skips []map[string]bool, stop string) (bad string) {
	t = t.Clone()
	t["log"] = []byte{}
	t.Store(w.root)
	r := w.b.Run(args...)
	if r.Timeout {
		return fmt.Sprintf("%v doesn't end", args)
	}
	log := readLog(w.b.Read("ticat.data/log"))
	for _, skip := range skips {
		bad = sameRun(w.ns, log.order, skip, stop)
		if bad == "" {
			break
		}
		bad += fmt.Sprintf(" (recorded as succeeded: %v)", keys(skip))
	}
	if bad != "" {
		return fmt.Sprintf("%v: %s", args, bad)
	}
	if r.OK() != (stop == "") {
		return fmt.Sprintf("%v: exit status %d, output %s", args, r.RC, tailOf(r.Out+r.Err))
	}
	return ""
}

// flowOf is whether the record is the one of this command run in the background
func flowOf(rec, id string) bool {
	rec, ok := strings.CutPrefix(rec, "<flow>\n")
	rec, _, _ = strings.Cut(rec, "\n")
	for _, w := range strings.FieldsFunc(rec, func(r rune) bool { return strings.ContainsRune(" {}", r) }) {
		if w == id {
			return ok
		}
	}
	return false
}

func tailOf(s string) string {
	if len(s) > 600 {
		s = s[len(s)-600:]
	}
	return s
}

func keys(m map[string]bool) (ks []string) {
	for k, v := range m {
		if v {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return
}

// the order of the calls of concurrent processes in a trace isn't always the
// one of the kernel: such a trace is made again
func exec(key string) (o Out) {
	for i := 0; ; i++ {
		again := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					if i >= 8 || !strings.Contains(fmt.Sprint(r), "trace does not explain") {
						panic(r)
					}
					again = true
				}
			}()
			o = try(key)
		}()
		if !again {
			return
		}
	}
}

func try(key string) Out {
	var c Case
	U(key, &c)
	ns := parse(c.S)
	ids := scripts(ns)
	b := setup(c.S, ns, c.E)
	defer b.Close()
	w := &world{ns, b, b.Path("ticat.data")}
	stop := ""
	if c.F >= 0 {
		stop = ids[c.F]
		w.fix(stop, true)
	}
	if c.K == "kill" {
		return w.kills(c)
	}
	if c.K == "skip" {
		return w.skips(c)
	}
	return w.histories(c, stop)
}

// kills: the program dies before any change of a file, or in the middle of one
func (w *world) kills(c Case) Out {
	b, ns := w.b, w.ns
	before, ops, ran := crash.Trace(b, w.root, line(ns)...)
	var o Out
	if !ran.OK() {
		return Bad("the run failed: %s", tailOf(ran.Out+ran.Err))
	}
	t := before.Clone()
	if d := sameRun(ns, readLog(b.Read("ticat.data/log")).order, nil, ""); d != "" {
		return Bad("the run: %s", d)
	}
	full := crash.Load(w.root)
	sids := sessionDirs(full)
	if len(sids) != 1 {
		return Bad("sessions after one run: %v", sids)
	}
	sid := sids[0]
	as := longAgo(60)
	status := "sessions/" + sid + "/status"
	if _, ok := full[status]; !ok {
		return Bad("no status in %v", full.Paths())
	}
	// the record of which script is in which file
	recIn := map[string]string{}
	isBg := map[string]bool{}
	walk(ns, func(n *node) { isBg[n.id] = n.ty == 'b' })
	for _, id := range scripts(ns) {
		recIn[id] = status
		if isBg[id] {
			for _, p := range full.Paths() {
				if strings.HasPrefix(p, "sessions/"+sid+"/") && p != status && filepath.Base(p) == "status" && flowOf(string(full[p]), id) {
					recIn[id] = p
				}
			}
			if recIn[id] == status {
				return Bad("no record for the background command %s in %v", id, full.Paths())
			}
		}
	}
	rec := map[string]bool{}   // recorded as succeeded
	ended := map[string]bool{} // ended, not recorded yet
	done := map[string]bool{}
	state := func(torn string, tt crash.Tree) string {
		o.Steps++
		log := readLog(string(tt["log"]))
		if _, ok := tt["sessions/"+sid+"/status"]; !ok {
			return "" // killed before the session began
		}
		if len(tt["sessions/"+sid+"/status"]) == 0 {
			return ""
		}
		d := dead(tt, sid, as)
		k := ""
		for _, p := range d.Paths() {
			if filepath.Base(p) == "status" {
				k += p + "=" + string(d[p])
			}
		}
		k += fmt.Sprint(keys(rec))
		if done[k] {
			return ""
		}
		done[k] = true
		o.States = append(o.States, k)
		d.Store(w.root)
		if bad := judge(ns, filepath.Join(w.root, "sessions"), as, log); bad != "" {
			return bad
		}
		if torn == "skip" {
			return ""
		}
		sk := map[string]bool{}
		for id := range rec {
			sk[id] = true
		}
		skips := []map[string]bool{sk}
		if torn != "" {
			more := map[string]bool{}
			for id := range rec {
				more[id] = true
			}
			for id := range ended {
				if recIn[id] == torn {
					more[id] = true
				}
			}
			skips = append(skips, more)
		}
		return w.retry(d, as, []string{"session.retry", "session-id=" + as}, skips, "")
	}
	for i, op := range ops {
		where := func(bad string, n int) Out {
			return Bad("killed at operation %d (%s) after %d bytes: %s", i, op, n, bad)
		}
		if op.Kind == "write" && filepath.Base(op.Path) == "status" && strings.HasPrefix(op.Path, "sessions/"+sid) {
			if !strings.HasSuffix(string(t[op.Path]), "\n") && len(t[op.Path]) > 0 {
				return Bad("a record in pieces: %s", op)
			}
			for n := 1; n < len(op.Data); n++ {
				torn := "skip"
				// retry from the states around the ends of the lines
				if op.Data[n] == '\n' || op.Data[n-1] == '\n' || Tier() == "thorough" && (op.Data[n] == '<' || op.Data[n-1] == '>') {
					torn = op.Path
				}
				if op.Off == 0 {
					torn = "skip" // nothing was started, the flow isn't known yet
				}
				if torn != "skip" && Tier() != "thorough" && strings.Count(c.S, "")-1 > 2 {
					torn = "skip"
				}
				tt := t.Clone()
				tt.Apply(op, n)
				if bad := state(torn, tt); bad != "" {
					return where(bad, n)
				}
			}
		}
		t.Apply(op, -1)
		if op.Path == "log" {
			for id := range readLog(string(t["log"])).ended {
				if !rec[id] {
					ended[id] = true
				}
			}
		}
		if op.Kind == "write" {
			for id := range ended {
				if op.Path == recIn[id] {
					rec[id] = true
					delete(ended, id)
				}
			}
		}
		if op.Path == "log" || filepath.Base(op.Path) == "status" {
			if bad := state("", t); bad != "" {
				return where(bad, -1)
			}
		}
	}
	o.Outcome = fmt.Sprintf("%d states", len(done))
	return o
}

// histories: a run fails, is retried, the retry fails too
func (w *world) histories(c Case, stop string) Out {
	b, ns := w.b, w.ns
	ids := scripts(ns)
	var o Out
	by := map[string]*node{}
	walk(ns, func(n *node) { by[n.id] = n })
	r := b.Run(line(ns)...)
	if r.Timeout {
		return Bad("the run doesn't end")
	}
	if r.OK() != (stop == "") {
		return Bad("the run: exit status %d, %s", r.RC, tailOf(r.Out+r.Err))
	}
	log := readLog(b.Read("ticat.data/log"))
	if d := sameRun(ns, log.order, nil, stop); d != "" {
		return Bad("the run: %s", d)
	}
	t := crash.Load(w.root)
	sids := sessionDirs(t)
	if len(sids) != 1 {
		return Bad("sessions after one run: %v", sids)
	}
	as := longAgo(60)
	t = dead(t, sids[0], as)
	t.Store(w.root)
	sessions := filepath.Join(w.root, "sessions")
	if bad := judge(ns, sessions, as, log); bad != "" {
		return Bad("after the run: %s", bad)
	}
	f, _ := read(sessions, as)
	if (f.Result == model.ExecutedResultSucceeded) != (stop == "") {
		return Bad("the record of a run which %s says %s", map[bool]string{true: "succeeded", false: "failed"}[stop == ""], f.Result)
	}
	if len(f.Corrupted) > 0 {
		return Bad("the record of a finished run is reported as corrupted: %q", f.Corrupted)
	}
	recorded := func(l seen, prev map[string]bool) map[string]bool {
		m := map[string]bool{}
		for id := range prev {
			m[id] = true
		}
		for id := range l.ended {
			m[id] = true
		}
		return m
	}
	rec := recorded(log, nil)
	// what the users look at
	for _, args := range [][]string{{"session.status", "session-id=" + as}, {"session.desc", "session-id=" + as},
		{"session.desc.more", "session-id=" + as}, {"session.desc.full", "session-id=" + as}, {"sessions"}, {"session.last.desc"}} {
		o.Steps++
		r := b.Run(args...)
		if !r.OK() {
			return Bad("%v: exit status %d, %s", args, r.RC, tailOf(r.Out+r.Err))
		}
		t.Store(w.root)
	}
	r = b.Run("session.status", "session-id="+as)
	if want := map[bool]string{true: "OK"}[stop == ""]; want != "" && !strings.Contains(r.Out, want) {
		return Bad("session.status of a succeeded run: %s", tailOf(r.Out))
	}
	if !strings.Contains(r.Out, as) {
		return Bad("session.status doesn't show the session: %s", tailOf(r.Out))
	}
	t.Store(w.root)

	// retry when nothing changed: it fails again
	if stop != "" {
		if bad := w.retry(t, as, []string{"session.retry", "session-id=" + as}, []map[string]bool{rec}, stop); bad != "" {
			return Bad("not fixed: %s", bad)
		}
		w.fix(stop, false)
	}
	how := [][]string{{"session.retry", "session-id=" + as}, {"session.retry", "session-id=[" + as + "]"}, {"session.last.retry"}}
	if stop != "" {
		how = append(how, []string{"session.error.retry"})
	}
	for _, args := range how {
		o.Steps++
		if bad := w.retry(t, as, args, []map[string]bool{rec}, ""); bad != "" {
			return Bad("%s", bad)
		}
	}
	// the retry fails as well, at the same or a later script; retried again
	at := -1
	for i, id := range ids {
		if id == stop {
			at = i
		}
	}
	if at < 0 {
		o.Outcome = "succeeded"
		return o
	}
	for j := at; j < len(ids); j++ {
		if by[ids[j]].ty == 't' || by[ids[j]].ty == 'b' {
			continue
		}
		for _, first := range [][]string{{"session.retry", "session-id=" + as}, {"session.last.retry"}, {"session.error.retry"}} {
			w.fix(ids[j], true)
			if bad := w.retry(t, as, first, []map[string]bool{rec}, ids[j]); bad != "" {
				return Bad("retry failing at %s: %s", ids[j], bad)
			}
			log2 := readLog(b.Read("ticat.data/log"))
			w.fix(ids[j], false)
			t2 := crash.Load(w.root)
			id2 := ""
			for _, s := range sessionDirs(t2) {
				if s != as {
					id2 = s
				}
			}
			if id2 == "" {
				return Bad("no session of the retry")
			}
			as2 := longAgo(30)
			t2 = dead(t2, id2, as2)
			rec2 := recorded(log2, rec)
			for _, h := range []struct {
				args []string
				rec  map[string]bool
			}{
				{[]string{"session.retry", "session-id=" + as}, rec},
				{[]string{"session.retry", "session-id=" + as2}, rec2},
				{[]string{"session.last.retry"}, rec2},
				{[]string{"session.error.retry"}, rec2},
			} {
				o.Steps++
				if bad := w.retry(t2, as, h.args, []map[string]bool{h.rec}, ""); bad != "" {
					return Bad("after %v which failed at %s: %s", first, ids[j], bad)
				}
			}
		}
	}
	o.Outcome = "failed at " + stop
	return o
}

// skips: the user skips one command, there is no answer to the next question
func (w *world) skips(c Case) Out {
	b, ns := w.b, w.ns
	var x *node
	walk(ns, func(n *node) {
		if n.id == c.X {
			x = n
		}
	})
	var o Out
	b.In = "s\n"
	r := b.Run(append([]string{"break.at", c.X, ":"}, line(ns)...)...)
	b.In = ""
	if r.Timeout {
		return Bad("the run doesn't end")
	}
	log := readLog(b.Read("ticat.data/log"))
	gone := map[string]bool{c.X: true}
	walk(x.kids, func(n *node) { gone[n.id] = true })
	for id := range gone {
		if log.started[id] {
			return Bad("%s was skipped and ran: %q", id, log.order)
		}
	}
	wm, wb, _, _ := expect(ns, gone, "", "")
	_ = wb
	gm, _ := split(ns, log.order)
	for i, l := range gm {
		if i >= len(wm) || strings.Fields(l)[1] != strings.Fields(wm[i])[1] {
			return Bad("it ran %q, expected a beginning of %q", gm, wm)
		}
	}
	t := crash.Load(w.root)
	sids := sessionDirs(t)
	if len(sids) != 1 {
		return Bad("sessions after one run: %v", sids)
	}
	as := longAgo(60)
	t = dead(t, sids[0], as)
	t.Store(w.root)
	if bad := judgeSkip(ns, filepath.Join(w.root, "sessions"), as, log, x); bad != "" {
		return Bad("after skipping %s: %s", c.X, bad)
	}
	for _, args := range [][]string{{"session.status", "session-id=" + as}, {"session.desc.full", "session-id=" + as}, {"sessions"}} {
		r := b.Run(args...)
		if !r.OK() {
			return Bad("%v: exit status %d, %s", args, r.RC, tailOf(r.Out+r.Err))
		}
		t.Store(w.root)
	}
	rec := map[string]bool{}
	for id := range log.ended {
		rec[id] = true
	}
	t["log"] = []byte{}
	t.Store(w.root)
	args := []string{"session.retry", "session-id=" + as}
	r = b.Run(args...)
	if r.Timeout || !r.OK() {
		return Bad("%v after skipping %s: exit status %d, %s", args, c.X, r.RC, tailOf(r.Out+r.Err))
	}
	ran := readLog(b.Read("ticat.data/log"))
	for _, id := range scripts(ns) {
		if rec[id] == ran.started[id] {
			return Bad("after skipping %s, which ran %v, %v ran %q", c.X, keys(rec), args, ran.order)
		}
	}
	o.Steps = 3
	o.Outcome = "skipped"
	return o
}

// forests with exactly n nodes
func forests(n int, leaves, inner string, depth int, f func(string)) {
	if n == 0 {
		f("")
		return
	}
	for k := 1; k <= n; k++ {
		trees(k, leaves, inner, depth, func(a string) {
			forests(n-k, leaves, inner, depth, func(b string) { f(a + b) })
		})
	}
}

func trees(n int, leaves, inner string, depth int, f func(string)) {
	if n == 1 {
		for _, l := range leaves {
			f(string(l))
		}
		return
	}
	if depth == 0 {
		return
	}
	for _, i := range inner {
		forests(n-1, leaves, inner, depth-1, func(s string) { f(string(i) + "(" + s + ")") })
	}
}

func valid(s string) bool {
	// an environment-only segment at the end of a flow or alone says nothing
	if len(scripts(parse(s))) == 0 {
		return false
	}
	// tolerated failures below a flow-and-script command aren't judged
	return true
}

func gen(tier string, emit func(string)) {
	add := func(s string, e bool) {
		if !valid(s) {
			return
		}
		ns := parse(s)
		emit(J(Case{S: s, F: -1, K: "kill", E: e}))
		emit(J(Case{S: s, F: -1, K: "hist", E: e}))
		by := map[string]*node{}
		walk(ns, func(n *node) { by[n.id] = n })
		for i, id := range scripts(ns) {
			if t := by[id].ty; t != 't' && t != 'b' {
				emit(J(Case{S: s, F: i, K: "hist", E: e}))
			}
		}
	}
	special := func(s string) {
		// at the beginning of a sequence the braces are for all of it
		if strings.ContainsAny(s, "vxB") && s[0] != 'v' && !strings.Contains(s, "(v") {
			add(s, false)
		}
	}
	skip := func(s string) {
		if !valid(s) {
			return
		}
		walk(parse(s), func(n *node) {
			if n.id != "" && n.ty != 'b' {
				emit(J(Case{S: s, F: -1, K: "skip", X: n.id}))
			}
		})
	}
	for n := 1; n <= 3; n++ {
		forests(n, "sedb", "FN", 2, skip)
	}
	forests(1, "sedbtpm", "FN", 1, func(s string) { add(s, false); add(s, true) })
	forests(2, "sedbtpm", "FNQ", 1, func(s string) { add(s, false) })
	forests(3, "sedbt", "FN", 2, func(s string) { add(s, false) })
	forests(2, "sbvx", "FNB", 1, func(s string) { special(s) })
	forests(3, "svx", "FB", 2, func(s string) { special(s) })
	if tier == "thorough" {
		n := 0
		forests(4, "sedbt", "FN", 3, func(s string) {
			if n++; n%5 < 3 {
				add(s, false)
			}
		})
	}
}

func main() {
	eng.TicatMain(register)
	Main(Spec{
		ID:      "P15",
		Level:   "fault_enumeration",
		Rule:    "one case is a flow with a failing script or none; in it, every operation on files where the program can be killed, and every byte of the record written",
		Gen:     gen,
		Exec:    exec,
		CaseSec: 120,
	})
}

var _ = json.Marshal
