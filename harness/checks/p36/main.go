// P36: updating the hub visits each reachable repository once and terminates.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/eng"
	"verif/hubx"
	. "verif/vlib"
)

const gh = "https://github.com/u/"

// addresses by letter; d is a branch of a's repository, s an ssh address
var addr = map[byte]string{
	'a': gh + "a", 'b': gh + "b", 'c': gh + "c", 'd': gh + "a#dev", 's': "git@github.com:u/s", 'i': gh + "init",
}
var place = map[byte]string{
	'a': "github.com/u/a/default.branch", 'b': "github.com/u/b/default.branch", 'c': "github.com/u/c/default.branch",
	'd': "github.com/u/a/dev.branch", 's': "github.com/u/s/default.branch", 'i': "github.com/u/init/default.branch",
}
var letter = map[string]byte{}

func init() {
	for l, a := range addr {
		letter[a] = l
	}
}

// kase: G maps a letter to the letters its repository lists, in order.
type kase struct {
	G map[string]string
	S string            // scenario
	F string            `json:",omitempty"` // failing repository
	H map[string]string `json:",omitempty"` // lists after the first start
}

func file(l byte, lists string) string {
	if lists == "-" {
		return ""
	}
	s := fmt.Sprintf("help = repo %c\n", l)
	if lists == "" {
		return s
	}
	s += "[repos]\n"
	for _, x := range []byte(lists) {
		switch {
		case x >= 'A' && x <= 'Z': // listed without a description
			s += addr[x+32] + " =\n"
		default:
			s += fmt.Sprintf("%s = %c for %c\n", addr[x], x, l)
		}
	}
	return s
}

func low(s string) string { return strings.ToLower(strings.Trim(s, "-")) }

// entry is what the model knows about one repository of the list.
type entry struct {
	on   bool
	by   byte
	help []string // the descriptions it may have
}

type model struct {
	g     map[byte]string
	order []byte // list order
	e     map[byte]*entry
	disk  map[byte]bool
	calls []string
	local bool
}

// visit walks from l like the program must: each repository once.
func (m *model) visit(l byte, seen map[byte]bool, found *[]byte) {
	if seen[l] {
		return
	}
	seen[l] = true
	if m.disk[l] {
		m.calls = append(m.calls, "pull "+addr[l])
	} else {
		m.calls = append(m.calls, "clone "+addr[l])
	}
	m.disk[l] = true
	for _, x := range []byte(low(m.g[l])) {
		*found = append(*found, x)
	}
	for _, x := range []byte(low(m.g[l])) {
		m.visit(x, seen, found)
	}
}

func (m *model) seen() map[byte]bool {
	r := map[byte]bool{}
	for l, e := range m.e {
		if !e.on {
			r[l] = true
		}
	}
	return r
}

func (m *model) record(top byte, found []byte) {
	for _, x := range found {
		if m.e[x] == nil {
			m.e[x] = &entry{on: true, by: top, help: m.helps(x)}
			m.order = append(m.order, x)
		}
	}
}

// helps: any listing's description, or the repository's own.
func (m *model) helps(x byte) []string {
	r := []string{}
	plain := m.g[x] != "-"
	for l, s := range m.g {
		for _, y := range []byte(s) {
			if y == x {
				r = append(r, fmt.Sprintf("%c for %c", x, l))
			}
		}
	}
	if plain {
		r = append(r, fmt.Sprintf("repo %c", x))
	}
	return append(r, "")
}

func (m *model) add(l byte) {
	if e := m.e[l]; e != nil {
		e.on = true
	}
	var found []byte
	seen := m.seen()
	m.visit(l, seen, &found)
	if m.e[l] == nil {
		h := fmt.Sprintf("repo %c", l)
		if m.g[l] == "-" {
			h = ""
		}
		m.e[l] = &entry{on: true, by: l, help: []string{h}}
		m.order = append(m.order, l)
	}
	m.record(l, found)
}

func (m *model) update() {
	seen := m.seen()
	for _, l := range append([]byte{}, m.order...) {
		var found []byte
		m.visit(l, seen, &found)
		m.record(l, found)
	}
}

var scen = []string{"+a", "+a u", "+a u u", "L +a u L", "+a +b u", "+a -b u", "+a -a u +a", "+b L +a -c u +c", "+d +a u", "+s u", "i+a +b u"}

func gen(tier string, emit func(string)) {
	lists := []string{"-", "", "a", "b", "c", "ab", "ba", "bc", "cb", "ac", "ca", "abc", "cba", "bb", "B", "Bc", "ds", "bd"}
	other := []string{"", "a", "b", "c", "ab", "bc", "ca", "abc", "cc", "C", "da"}
	third := []string{"", "a", "b", "c", "Ab", "acb", "s"}
	n := 0
	Prod([]int{len(lists), len(other), len(third)}, func(t []int) {
		g := map[string]string{"a": lists[t[0]], "b": other[t[1]], "c": third[t[2]]}
		for si, s := range scen {
			n++
			if tier != "thorough" && si > 1 && n%7 != 0 {
				continue
			}
			emit(J(kase{G: g, S: s}))
		}
		if tier == "thorough" || (t[0]+t[1]+t[2])%4 == 0 {
			for _, f := range []string{"a", "b", "c"} {
				emit(J(kase{G: g, S: "+a u", F: f}))
				if tier == "thorough" {
					emit(J(kase{G: g, S: "L +a +b u", F: f}))
				}
			}
		}
	})
	// the lists change between the starts
	Prod([]int{len(other), len(third), len(other), len(third)}, func(t []int) {
		n++
		if tier != "thorough" && n%11 != 0 || tier == "thorough" && n%2 != 0 {
			return
		}
		emit(J(kase{G: map[string]string{"a": "b", "b": other[t[0]], "c": third[t[1]]}, S: "+a u", H: map[string]string{"b": other[t[2]], "c": third[t[3]]}}))
	})
}

func exec(key string) Out {
	var k kase
	U(key, &k)
	var addrs []string
	for _, l := range []byte("abcdsi") {
		addrs = append(addrs, addr[l])
	}
	w := hubx.New(addrs...)
	defer w.Close()
	m := &model{g: map[byte]string{'s': "", 'd': "b", 'i': "c"}, e: map[byte]*entry{}, disk: map[byte]bool{}}
	for l, s := range k.G {
		m.g[l[0]] = s
	}
	lists := func() {
		for l, s := range m.g {
			w.List(addr[l], file(l, s))
		}
	}
	lists()
	loc := filepath.Join(w.Dir, "mine")
	must(os.MkdirAll(loc, 0755))
	must(os.WriteFile(filepath.Join(loc, "f"), []byte("x"), 0644))
	var hist []string
	var st []string
	steps := strings.Fields(k.S)
	for n, s := range steps {
		init := ""
		if s[0] == 'i' {
			init = addr['i']
			s = s[1:]
		}
		m.calls = nil
		fails := k.F != "" && n == len(steps)-1 && m.disk[k.F[0]] || k.F != "" && strings.HasPrefix(s, "+")
		w.Fail(addr[lf(k.F)], fails)
		before := m.snapshot()
		var r eng.Result
		var out string
		switch s[0] {
		case '+':
			a := addr[s[1]]
			args := []string{"hub.add", strings.TrimPrefix(a, "https://github.com/")}
			if i := strings.Index(a, "#"); i >= 0 {
				args = []string{"hub.add", "addr=" + a[:i], "branch=" + a[i+1:]}
			} else if n%2 == 1 {
				args[1] = a
			}
			if s[1] == 's' {
				args[1] = strings.ReplaceAll(a, ":", "\\:") // (a bare one is a separator)
			}
			m.add(s[1])
			if init != "" {
				m.add('i')
			}
			hist = append(hist, strings.Join(args, " "))
			r, out = w.Run(init, args...)
		case 'u':
			if k.H != nil {
				for l, s := range k.H {
					m.g[l[0]] = s
				}
				lists()
			}
			m.update()
			hist = append(hist, "hub.update")
			r, out = w.Run(init, "hub.update")
		case 'L':
			m.local = true
			hist = append(hist, "hub.add.local mine")
			r, out = w.Run(init, "hub.add.local", loc)
		case '-':
			hist = append(hist, "hub.disable "+addr[s[1]])
			r, out = w.Run(init, "hub.disable", addr[s[1]])
			if e := m.e[s[1]]; e == nil {
				if r.OK {
					return Bad("%s: disabling an unknown repository must fail", desc(k, hist))
				}
				continue
			} else {
				e.on = false
				m.toEnd(s[1])
			}
		}
		d := desc(k, hist)
		calls := w.Git()
		if fails && contains(m.calls, k.F[0]) {
			if r.OK {
				return Bad("%s: git failed for %s but the command succeeded", d, k.F)
			}
			if !strings.Contains(fmt.Sprint(r.Panic)+out, place[k.F[0]]) && !strings.Contains(fmt.Sprint(r.Panic)+out, addr[k.F[0]]) {
				return Bad("%s: the failure of %s is not reported: %v %s", d, k.F, r.Panic, out)
			}
			if !once(calls) {
				return Bad("%s: a repository was visited twice: %q", d, calls)
			}
			all := m.e
			v := check(w, m, before, all, loc)
			if v != "" {
				return Bad("%s: %s", d, v)
			}
			// once it works again, everything is there
			w.Fail(addr[k.F[0]], false)
			m.e, m.order, m.disk = before.e, before.order, onDisk(w)
			m.calls = nil
			sync(w, m)
			if s[0] == '+' {
				m.add(s[1])
				r, out = w.Run(init, "hub.add", addr[s[1]])
			} else {
				m.update()
				r, out = w.Run(init, "hub.update")
			}
			calls = w.Git()
			hist = append(hist, "again")
			d = desc(k, hist)
		}
		if !r.OK {
			return Bad("%s: failed: %v %.300s", d, r.Panic, out)
		}
		a, b := append([]string{}, calls...), append([]string{}, m.calls...)
		sort.Strings(a)
		sort.Strings(b)
		if !Eq(a, b) {
			return Bad("%s: git must be called for %q, was for %q", d, m.calls, calls)
		}
		if v := check(w, m, nil, m.e, loc); v != "" {
			return Bad("%s: %s", d, v)
		}
		st = append(st, fmt.Sprintf("%v", hubx.Show(w.Read())))
	}
	return Out{Outcome: fmt.Sprintf("%d repos", len(m.e)), States: short(st, w.Dir), Steps: len(hist)}
}

func short(st []string, dir string) []string {
	for i := range st {
		st[i] = strings.ReplaceAll(st[i], dir, "")
	}
	return st
}

func lf(s string) byte {
	if s == "" {
		return 'a'
	}
	return s[0]
}

func (m *model) toEnd(l byte) {
	var r []byte
	for _, x := range m.order {
		if x != l {
			r = append(r, x)
		}
	}
	m.order = append(r, l)
}

type snap struct {
	e     map[byte]*entry
	order []byte
}

func (m *model) snapshot() *snap {
	s := &snap{map[byte]*entry{}, append([]byte{}, m.order...)}
	for l, e := range m.e {
		c := *e
		s.e[l] = &c
	}
	return s
}

// sync takes over what a failed command legally recorded.
func sync(w *hubx.World, m *model) {
	for _, e := range w.Read() {
		l, ok := letter[e.Addr]
		if ok && m.e[l] == nil {
			m.e[l] = &entry{on: e.OnOff == "on", by: letter[e.Reason], help: []string{e.Help}}
			m.order = append(m.order, l)
		}
	}
}

func onDisk(w *hubx.World) map[byte]bool {
	r := map[byte]bool{}
	for _, t := range w.Tree() {
		r[letter[strings.Fields(t)[0]]] = true
	}
	return r
}

func contains(calls []string, l byte) bool {
	for _, c := range calls {
		if strings.HasSuffix(c, " "+addr[l]) {
			return true
		}
	}
	return false
}

func once(calls []string) bool {
	seen := map[string]bool{}
	for _, c := range calls {
		a := strings.Fields(c)[1]
		if seen[a] {
			return false
		}
		seen[a] = true
	}
	return true
}

// check compares the list and the working copies with the model; after a
// failure (atLeast) it may hold anything between the old and the full list.
func check(w *hubx.World, m *model, atLeast *snap, full map[byte]*entry, loc string) string {
	es := w.Read()
	seen := map[string]bool{}
	locals := 0
	for _, e := range es {
		if e.Addr == "" {
			locals++
			if e.Path != loc || e.OnOff != "on" {
				return fmt.Sprintf("the local dir's entry is now %v", e)
			}
			continue
		}
		if seen[e.Addr] {
			return fmt.Sprintf("%s is recorded twice: %v", e.Addr, es)
		}
		seen[e.Addr] = true
		l, ok := letter[e.Addr]
		x := full[l]
		if !ok || x == nil {
			return fmt.Sprintf("%s is recorded but nothing leads to it: %v", e.Addr, es)
		}
		if (e.OnOff == "on") != x.on {
			return fmt.Sprintf("%s must be enabled=%v: %v", e.Addr, x.on, es)
		}
		if e.Reason != addr[x.by] {
			return fmt.Sprintf("%s was first found from %s, recorded %v", e.Addr, addr[x.by], e)
		}
		if e.Path != w.Hub(place[l]) {
			return fmt.Sprintf("%s must be at %s: %v", e.Addr, place[l], e)
		}
		okh := false
		for _, h := range x.help {
			okh = okh || h == e.Help
		}
		if !okh {
			return fmt.Sprintf("%s must be described by one of %q: %v", e.Addr, x.help, e)
		}
	}
	for l := range full {
		if !seen[addr[l]] && (atLeast == nil || atLeast.e[l] != nil) {
			return fmt.Sprintf("%s is missing: %v", addr[l], es)
		}
	}
	if want := m.local; (locals == 1) != want || locals > 1 {
		return fmt.Sprintf("%d local entries: %v", locals, es)
	}
	if atLeast == nil {
		var want []string
		for l := range m.disk {
			want = append(want, addr[l]+" "+place[l])
		}
		sort.Strings(want)
		if got := w.Tree(); !Eq(got, want) {
			return fmt.Sprintf("the working copies must be %q, are %q", want, got)
		}
	}
	ents, _ := os.ReadDir(loc)
	if len(ents) != 1 || ents[0].Name() != "f" {
		return fmt.Sprintf("the local dir changed: %v", ents)
	}
	return ""
}

func desc(k kase, hist []string) string { return fmt.Sprintf("lists %v %v, %q", k.G, k.H, hist) }

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func main() {
	Main(Spec{ID: "P36", Level: "model_checking", CaseSec: 30, QuickSec: 400,
		Rule: "graphs of up to 6 repositories (18 x 11 x 7 lists incl. cycles, self references, duplicates, branches, ssh addresses, missing and description-less lists) x 11 histories of adding, updating, disabling and re-adding; each repository failing once (git clone or pull) and working again; lists that change between the starts; git is a stand-in that records its calls; oracle: reachability over the model graph",
		Gen:  gen, Exec: exec})
}
