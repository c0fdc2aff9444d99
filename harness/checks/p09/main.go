// P09: repository-list commands change exactly the repositories they name.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	meta "github.com/innerr/ticat/pkg/mods/persist/hub_meta"

	"verif/hubx"
	. "verif/vlib"
)

const gh = "https://github.com/u/"

var addrs = []string{gh + "a", gh + "a#dev", gh + "b", gh + "c", gh + "a-x"}
var place = map[string]string{
	addrs[0]: "github.com/u/a/default.branch", addrs[1]: "github.com/u/a/dev.branch", addrs[2]: "github.com/u/b/default.branch",
	addrs[3]: "github.com/u/c/default.branch", addrs[4]: "github.com/u/a-x/default.branch",
}
var lists = map[string][]string{addrs[0]: {addrs[2]}} // a lists b
var own = map[string]string{addrs[0]: "main repo", addrs[1]: "dev repo", addrs[2]: "", addrs[3]: "repo three", addrs[4]: ""}

// model: the list (order does not matter) and the working copies.
type state struct {
	es   []hubx.Entry
	disk map[string]bool
	dir  string
	pwd  string
}

func (s *state) clone() *state {
	r := &state{append([]hubx.Entry{}, s.es...), map[string]bool{}, s.dir, s.pwd}
	for k, v := range s.disk {
		r.disk[k] = v
	}
	return r
}
func (s *state) find(addr string) int {
	for i, e := range s.es {
		if e.Addr == addr && addr != "" {
			return i
		}
	}
	return -1
}
func (s *state) path(addr string) string { return filepath.Join(s.dir, "hub", place[addr]) }

func (s *state) visit(a string, seen map[string]bool, found *[]string) {
	if seen[a] {
		return
	}
	seen[a] = true
	s.disk[a] = true
	*found = append(*found, lists[a]...)
	for _, x := range lists[a] {
		s.visit(x, seen, found)
	}
}
func (s *state) off() map[string]bool {
	r := map[string]bool{}
	for _, e := range s.es {
		if e.OnOff != "on" {
			r[e.Addr] = true
		}
	}
	return r
}
func (s *state) record(top string, found []string) {
	for _, x := range found {
		if s.find(x) < 0 {
			s.es = append(s.es, hubx.Entry{Addr: x, Reason: top, Path: s.path(x), Help: help(x), OnOff: "on"})
		}
	}
}

// help is what a's list says about x, or x itself
func help(x string) string {
	if x == addrs[2] {
		return "b of a"
	}
	return own[x]
}

// op is one start; do returns false when the command must fail (no change).
type op struct {
	args []string
	do   func(s *state) bool
}

func add(a string) op {
	args := []string{"hub.add", a}
	if i := strings.Index(a, "#"); i >= 0 {
		args = []string{"hub.add", "addr=" + a[:i], "branch=" + a[i+1:]}
	}
	return op{args, func(s *state) bool {
		if i := s.find(a); i >= 0 {
			s.es[i].OnOff = "on"
		}
		var found []string
		s.visit(a, s.off(), &found)
		if s.find(a) < 0 {
			s.es = append(s.es, hubx.Entry{Addr: a, Reason: a, Path: s.path(a), Help: own[a], OnOff: "on"})
		}
		s.record(a, found)
		return true
	}}
}

func update(s *state) bool {
	seen := s.off()
	for _, e := range append([]hubx.Entry{}, s.es...) {
		if e.Addr != "" {
			var found []string
			s.visit(e.Addr, seen, &found)
			s.record(e.Addr, found)
		}
	}
	return true
}

func local(p string, args ...string) op {
	if args == nil {
		args = []string{"hub.add.local", "DIR/" + p}
	}
	return op{args, func(s *state) bool {
		full := filepath.Join(s.dir, p)
		st, err := os.Stat(full)
		if p == "hub/"+place[addrs[0]] {
			if !s.disk[addrs[0]] {
				return false
			}
		} else if err != nil || !st.IsDir() {
			return false
		}
		for i := range s.es {
			if s.es[i].Path == full {
				s.es[i].OnOff = "on"
				return true
			}
		}
		h := ""
		if strings.HasPrefix(p, "hub/") {
			h = own[addrs[0]]
		}
		if p == "mine/u" {
			h = "my dir"
		}
		s.es = append(s.es, hubx.Entry{Addr: "", Reason: "<local>", Path: full, Help: h, OnOff: "on"})
		return true
	}}
}

// named: enable and disable take an exact name, or everything containing it.
func named(s *state, find string) (r []int) {
	find = strings.ReplaceAll(find, "DIR", s.dir)
	name := func(e hubx.Entry) string {
		if e.Addr != "" {
			return e.Addr
		}
		return e.Path
	}
	for i, e := range s.es {
		if name(e) == find {
			return []int{i}
		}
	}
	for i, e := range s.es {
		if strings.Contains(name(e), find) {
			r = append(r, i)
		}
	}
	return
}

func onoff(cmd, find, to string) op {
	return op{[]string{cmd, find}, func(s *state) bool {
		m := named(s, find)
		for _, i := range m {
			s.es[i].OnOff = to
		}
		return len(m) > 0
	}}
}

func matches(s *state, e hubx.Entry, find string) bool {
	reason := e.Reason
	if e.Reason == e.Addr {
		reason = "<manually-added>"
	}
	all := []string{e.Addr, e.Path, reason, e.Help, e.OnOff}
	if e.Addr == "" {
		all = append(all, "local")
	}
	for _, x := range all {
		if strings.Contains(x, strings.ReplaceAll(find, "DIR", s.dir)) {
			return true
		}
	}
	return false
}

func purge(find string) op {
	args := []string{"hub.purge", find}
	if find == "" {
		args = []string{"hub.purge.all"}
	}
	return op{args, func(s *state) bool {
		only := ""
		if i := s.find(find); i >= 0 && s.es[i].OnOff != "on" {
			only = find
		}
		var rest []hubx.Entry
		n := 0
		for _, e := range s.es {
			gone := e.OnOff != "on"
			if only != "" {
				gone = e.Addr == only
			} else if gone && find != "" {
				gone = matches(s, e, find)
			}
			if !gone {
				rest = append(rest, e)
				continue
			}
			n++
			if e.Addr != "" {
				delete(s.disk, e.Addr)
			}
		}
		s.es = rest
		return n > 0
	}}
}

var ops = []op{
	add(addrs[0]), add(addrs[1]), add(addrs[2]), add(addrs[3]), add(addrs[4]),
	local("mine/u"), local("mine/u/a"), local("other"), local("mine/f"), local("nosuch"), local("hub/" + place[addrs[0]]),
	local("mine/u/a", "hub.add.here"),
	onoff("hub.disable", addrs[0], "disabled"), onoff("hub.disable", "u/a", "disabled"), onoff("hub.disable", "u/b", "disabled"),
	onoff("hub.dis", "DIR/mine/u", "disabled"), onoff("hub.d", "mine", "disabled"), onoff("hub.disable", "nosuch", "disabled"), onoff("hub.disable", "/", "disabled"),
	onoff("hub.enable", addrs[0], "on"), onoff("hub.enable", "#dev", "on"), onoff("hub.e", "mine", "on"), onoff("hub.en", "u/", "on"), onoff("hub.enable", "nosuch", "on"),
	purge(addrs[0]), purge(addrs[1]), purge("u/a"), purge("u/b"), purge("local"), purge("DIR/mine/u"), purge("disabled"), purge("repo"), purge("nosuch"), purge("manually"), purge(""),
	{[]string{"hub.clear"}, func(s *state) bool {
		for _, e := range s.es {
			delete(s.disk, e.Addr)
		}
		s.es = nil
		return true
	}},
	{[]string{"hub.update"}, update},
	{[]string{"hub"}, func(s *state) bool { return true }},
	{[]string{"hub", "u/a"}, func(s *state) bool { return true }},
}

type kase struct {
	S string // initial list
	H []int  `json:",omitempty"`
	K string `json:",omitempty"` // odd name or description
	V string `json:",omitempty"`
}

func initial(s *state, name string) {
	a := func(addr, reason, on string, disk bool) {
		s.es = append(s.es, hubx.Entry{Addr: addr, Reason: reason, Path: s.path(addr), Help: help(addr), OnOff: on})
		s.disk[addr] = disk
	}
	l := func(p, help, on string) {
		s.es = append(s.es, hubx.Entry{Reason: "<local>", Path: filepath.Join(s.dir, p), Help: help, OnOff: on})
	}
	switch name {
	case "mixed":
		a(addrs[0], addrs[0], "on", true)
		l("mine/u", "my dir", "on")
		a(addrs[1], addrs[1], "disabled", true)
		a(addrs[2], addrs[0], "disabled", true)
		l("mine/u/a", "", "disabled")
		a(addrs[3], addrs[3], "on", true)
	case "tail":
		a(addrs[3], addrs[3], "disabled", true)
		a(addrs[4], addrs[3], "disabled", true)
		l("other", "", "disabled")
		a(addrs[1], addrs[3], "on", false)
		a(addrs[0], addrs[1], "on", true)
	}
}

var odd = []string{
	"plain", "a b", " lead", "trail ", "tab\there", "nl\nhere", "cr\r", "#x", "x#y", "'q'", `"q"`, `b\`, "é日", "<hub>:x", "$HOME", "*", "=", "a=b", "-", ".hid", "~", "%s", "{}", "[[x]]", "LONG",
}

func gen(tier string, emit func(string)) {
	for _, o := range odd {
		for _, s := range []string{"empty", "mixed"} {
			if o != "LONG" {
				emit(J(kase{S: s, K: "dir", V: o}))
			}
			if !strings.ContainsAny(o, "\n\r") {
				emit(J(kase{S: s, K: "help", V: o}))
				emit(J(kase{S: s, K: "listed", V: o}))
			}
		}
	}
	n := 2
	if tier == "thorough" {
		n = 3
	}
	i := 0
	for _, s := range []string{"empty", "mixed", "tail"} {
		Seqs(len(ops), 1, n+1, func(h []int) {
			if len(h) == n+1 {
				i++
				if i%(31*(3*n-5)*(n-1)) != 0 {
					return
				}
			}
			emit(J(kase{S: s, H: append([]int{}, h...)}))
		})
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func lay(w *hubx.World, s *state) {
	for _, p := range []string{"mine/u/a/.git", "other", "hub/github.com/u"} {
		must(os.MkdirAll(filepath.Join(w.Dir, p), 0755))
	}
	for _, p := range []string{"mine/f", "mine/u/f", "mine/u/a/f", "other/f", "hub/note", "hub/github.com/u/note"} {
		must(os.WriteFile(filepath.Join(w.Dir, p), []byte("x"), 0644))
	}
	must(os.WriteFile(filepath.Join(w.Dir, "mine/u/hub.ticat"), []byte("help = my dir\n"), 0644))
	for i, a := range addrs {
		t := ""
		if own[a] != "" {
			t = "help = " + own[a] + "\n"
		}
		for _, x := range lists[a] {
			t += "[repos]\n" + x + " = " + help(x) + "\n"
		}
		w.List(a, t)
		if s.disk[a] {
			p := s.path(a)
			must(os.MkdirAll(filepath.Join(p, ".git"), 0755))
			must(os.WriteFile(filepath.Join(p, ".git", "addr"), []byte(a+"\n"), 0644))
			must(os.WriteFile(filepath.Join(p, ".git", "key"), []byte(fmt.Sprintf("r%d\n", i)), 0644))
		}
	}
	if len(s.es) > 0 {
		var infos []meta.RepoInfo
		for _, e := range s.es {
			infos = append(infos, meta.RepoInfo{Addr: meta.ParseRepoAddr(e.Addr), AddReason: e.Reason, Path: e.Path, HelpStr: e.Help, OnOff: e.OnOff})
		}
		meta.WriteReposInfoFile(w.Hub(), w.Hub("repos.hub"), infos, "\t")
	}
}

// files lists everything of the user's own that must stay.
func files(w *hubx.World) string {
	var r []string
	for _, p := range []string{"mine/f", "mine/u/f", "mine/u/a/f", "mine/u/hub.ticat", "mine/u/a/.git", "other/f", "hub/note", "hub/github.com/u/note"} {
		if _, err := os.Stat(filepath.Join(w.Dir, p)); err != nil {
			r = append(r, p)
		}
	}
	return strings.Join(r, " ")
}

func compare(w *hubx.World, s *state) string {
	got := w.Read()
	if g, x := hubx.Show(got), hubx.Show(s.es); g != x {
		return fmt.Sprintf("the list must be %s, is %s", x, g)
	}
	var want []string
	for a, on := range s.disk {
		if on {
			want = append(want, a+" "+place[a])
		}
	}
	sort.Strings(want)
	if t := w.Tree(); !Eq(t, want) {
		return fmt.Sprintf("the working copies must be %q, are %q", want, t)
	}
	if f := files(w); f != "" {
		return "deleted from disk: " + f
	}
	return ""
}

func exec(key string) Out {
	var k kase
	U(key, &k)
	w := hubx.New(addrs...)
	defer w.Close()
	s := &state{nil, map[string]bool{}, w.Dir, ""}
	initial(s, k.S)
	lay(w, s)
	old, _ := os.Getwd()
	must(os.Chdir(filepath.Join(w.Dir, "mine/u/a")))
	defer os.Chdir(old)
	if k.K != "" {
		return strange(k, w, s)
	}
	var hist, st []string
	oks := 0
	for _, oi := range k.H {
		o := ops[oi]
		args := append([]string{}, o.args...)
		for i := range args {
			args[i] = strings.ReplaceAll(args[i], "DIR", w.Dir)
		}
		hist = append(hist, strings.Join(o.args, " "))
		n := s.clone()
		ok := o.do(n)
		if ok {
			s = n
			oks++
		}
		desc := fmt.Sprintf("from %s, %q", k.S, hist)
		r, out := w.Run("", args...)
		if r.OK != ok {
			return Bad("%s: the last must end with %v, ended with %v %v %.300s", desc, ok, r, r.Panic, out)
		}
		if v := compare(w, s); v != "" {
			return Bad("%s: %s", desc, clean(v, w))
		}
		if args[0] == "hub" {
			for _, e := range s.es {
				want := 1
				if len(args) > 1 && !matches(s, e, args[1]) {
					want = 0
				}
				if c := strings.Count(out, " "+e.Path+"\n"); c != want {
					return Bad("%s: %s must be shown %d times, was %d times: %s", desc, clean(e.String(), w), want, c, clean(out, w))
				}
			}
		}
		st = append(st, clean(hubx.Show(s.es), w))
	}
	return Out{Outcome: fmt.Sprintf("%d done, %d entries", oks, len(s.es)), States: st, Steps: len(k.H)}
}

func clean(v string, w *hubx.World) string { return strings.ReplaceAll(v, w.Dir, "DIR") }

// strange: names and descriptions with unusual characters are kept exactly or
// refused, and never harm the list.
func strange(k kase, w *hubx.World, s *state) Out {
	v := k.V
	if v == "LONG" {
		v = strings.Repeat("long ", 16000) + "end"
	}
	desc := fmt.Sprintf("from %s, %s %.60q", k.S, k.K, v)
	norm := strings.TrimSpace(strings.TrimSuffix(v, `\`))
	if len(norm) > 2 && norm[0] == norm[len(norm)-1] && strings.ContainsAny(norm[:1], "'\"") {
		norm = norm[1 : len(norm)-1]
	}
	var args []string
	switch k.K {
	case "dir":
		p := filepath.Join(w.Dir, "mine", v)
		must(os.MkdirAll(p, 0755))
		must(os.WriteFile(filepath.Join(p, "f"), []byte("x"), 0644))
		must(os.Chdir(p))
		args = []string{"hub.add.here"}
		s.es = append(s.es, hubx.Entry{Reason: "<local>", Path: p, OnOff: "on"})
	case "help":
		w.List(addrs[4], "help = "+v+"\n")
		args = []string{"hub.add", addrs[4]}
		s.es = append(s.es, hubx.Entry{Addr: addrs[4], Reason: addrs[4], Path: s.path(addrs[4]), Help: norm, OnOff: "on"})
		s.disk[addrs[4]] = true
	case "listed":
		w.List(addrs[4], "[repos]\n"+addrs[0]+" = "+v+"\n")
		w.List(addrs[0], "")
		args = []string{"hub.add", addrs[4]}
		s.es = append(s.es, hubx.Entry{Addr: addrs[4], Reason: addrs[4], Path: s.path(addrs[4]), OnOff: "on"})
		if k.S == "empty" {
			s.es = append(s.es, hubx.Entry{Addr: addrs[0], Reason: addrs[4], Path: s.path(addrs[0]), Help: norm, OnOff: "on"})
		}
		s.disk[addrs[0]], s.disk[addrs[4]] = true, true
	}
	before := hubx.Show(w.Read())
	r, _ := w.Run("", args...)
	if !r.OK {
		if k.K != "dir" || !strings.ContainsAny(v, "\t\n\r") {
			return Bad("%s: must be accepted, got %v", desc, r.Panic)
		}
		if got := hubx.Show(w.Read()); got != before {
			return Bad("%s: refused, but the list changed to %s", desc, clean(got, w))
		}
		return Out{Outcome: "refused", Steps: 1}
	}
	// descriptions: a tab may become another blank
	show := func(es []hubx.Entry) string {
		var c []hubx.Entry
		for _, e := range es {
			e.Help = strings.ReplaceAll(e.Help, "\t", " ")
			c = append(c, e)
		}
		return hubx.Show(c)
	}
	if got, want := show(w.Read()), show(s.es); got != want {
		return Bad("%s: the list must be %.2000s, is %.2000s", desc, clean(want, w), clean(got, w))
	}
	for _, c := range [][]string{{"hub"}, {"hub.disable", "/"}, {"hub.enable", "/"}, {"hub.update"}} {
		r, _ := w.Run("", c...)
		if !r.OK {
			return Bad("%s: then %q failed: %v", desc, c, r.Panic)
		}
	}
	for i := range s.es {
		s.es[i].OnOff = "on"
	}
	if got, want := show(w.Read()), show(s.es); got != want {
		return Bad("%s: after disabling, enabling and updating the list must be %.2000s, is %.2000s", desc, clean(want, w), clean(got, w))
	}
	if f := files(w); f != "" {
		return Bad("%s: deleted from disk: %s", desc, f)
	}
	return Out{Outcome: "kept " + k.K, Steps: 5}
}

func main() {
	Main(Spec{ID: "P09", Level: "model_checking", CaseSec: 30, QuickSec: 400,
		Rule: "from 3 initial lists, every history of 2 (thorough: 3, some of one more) starts out of 39 hub commands (add, add a branch, link a directory, enable, disable, purge by exact name, part, state or description, purge all, clear, update, list); 25 unusual directory names and descriptions; oracle: list of entries, compared with the stored list, the working copies and the user's own files after every start",
		Gen:  gen, Exec: exec})
}
