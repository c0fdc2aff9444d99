// P41: the built-in environment tools change exactly the values they name.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/innerr/ticat/pkg/core/model"

	"verif/eng"
	. "verif/vlib"
)

const dflt = "display.max-cmd-cnt" // a key with a default value

var universe = []string{"a", "a.b", "ab", "b", "p", "t", "el", "pb", "sessions.x", dflt}

// world is the model: what this start set, what was saved, the defaults.
type world struct {
	sess, pers map[string]string
	wiped      bool // the whole session layer was reset: nothing can be saved
	saved      map[string]string
}

func (w *world) get(k string) (string, bool) {
	if v, ok := w.sess[k]; ok {
		return v, true
	}
	if v, ok := w.pers[k]; ok {
		return v, true
	}
	if k == dflt {
		return "14", true
	}
	return "", false
}

func (w *world) put(k, v string) {
	if old, ok := w.get(k); ok && old == v {
		return // (already visible)
	}
	w.sess[k] = v
}

func (w *world) del(k string) { delete(w.sess, k); delete(w.pers, k) }

func (w *world) view() string {
	var r []string
	for _, k := range universe {
		if v, ok := w.get(k); ok {
			r = append(r, k+"="+v)
		}
	}
	return fmt.Sprintf("%q", r)
}

type step struct {
	name string
	args []string
	do   func(w *world) bool
	// what the static check knows: the key this step is sure to write,
	// remove or read
	write, remove, read string
	val                 string // key whose value is printed
}

func st(line string, do func(w *world) bool) step {
	return step{name: line, args: strings.Fields(line), do: do}
}

func setS(k, v string) step {
	s := st("env.set "+k+" "+v, func(w *world) bool { w.put(k, v); return true })
	s.write = k
	return s
}
func addS(k, v string) step {
	s := st("env.add key="+k+" value="+v, func(w *world) bool {
		if _, ok := w.get(k); ok {
			return false
		}
		w.put(k, v)
		return true
	})
	s.write = k
	return s
}
func updS(k, v string) step {
	return st("env.update "+k+" "+v, func(w *world) bool {
		if _, ok := w.get(k); !ok {
			return false
		}
		w.put(k, v)
		return true
	})
}
func mapS(a, b string) step {
	s := st("env.map "+a+" "+b, func(w *world) bool {
		v, _ := w.get(a)
		w.put(b, v)
		return true
	})
	s.write = b
	return s
}
func rmS(k string) step {
	s := st("env.rm "+k, func(w *world) bool { w.del(k); return true })
	s.remove = k
	return s
}
func preS(p string) step {
	s := st("env.rm.prefix "+p, func(w *world) bool {
		for _, k := range universe {
			if strings.HasPrefix(k, p) {
				w.del(k)
			}
		}
		return true
	})
	s.remove = p + "*"
	return s
}
func resetS(line string, keep ...string) step {
	s := st(line, func(w *world) bool {
		old := map[string]string{}
		for _, k := range keep {
			if v, ok := w.get(k); ok {
				old[k] = v
			}
		}
		w.sess = map[string]string{}
		for k, v := range old {
			w.put(k, v)
		}
		w.wiped = true
		return true
	})
	s.remove = "!" + strings.Join(keep, ",")
	return s
}
func eqS(k, v string) step {
	return st("env.assert.equal "+k+" "+v, func(w *world) bool { x, _ := w.get(k); return x == v })
}
func neS(k string) step {
	return st("env.assert.not-exists "+k, func(w *world) bool { _, ok := w.get(k); return !ok })
}
func valS(k string) step {
	s := st("api.env.value "+k, func(w *world) bool { return true })
	s.val = k
	return s
}

var steps = []step{
	setS("a", "v1"), setS("a", "v2"), setS("a.b", "x,y"), setS("p", "v1"), setS("sessions.x", "v1"), setS(dflt, "20"),
	func() step {
		s := st("env.set a", func(w *world) bool { return false }) // no value
		s.write = "a"
		return s
	}(),
	addS("a", "v1"), addS("b", "v2"), addS("p", "p0"), addS(dflt, "9"),
	updS("a", "v2"), updS("p", "v2"), updS("b", "v1"), updS(dflt, "7"),
	mapS("a", "b"), mapS("p", "a.b"), mapS(dflt, "ab"), mapS("a", "a"),
	rmS("a"), rmS("a.b"), rmS("p"), rmS(dflt),
	preS("a."), preS("a"), preS("t"), preS("nothing"),
	resetS("env.reset-session"), resetS("env.reset exclude-keys=a,p", "a", "p"), resetS("env.reset excl=b", "b"),
	eqS("a", "v1"), eqS("p", "p0"), eqS("b", "v2"),
	st("env.assert.equal key=b", func(w *world) bool { x, _ := w.get("b"); return x == "" }),
	neS("a"), neS("p"), neS("b"), neS(dflt),
	valS("a"), valS("b"), valS(dflt),
	st("blank", func(w *world) bool { w.put("b", "  w  x "); return true }),
	st("env.save", func(w *world) bool {
		w.saved = map[string]string{}
		for _, k := range universe {
			if v, ok := w.get(k); ok && v != "" && !(k == dflt && v == "14") {
				w.saved[k] = v
			}
		}
		return true
	}),
	func() step {
		s := st("env.clear-and-save", func(w *world) bool {
			w.saved = map[string]string{}
			return true
		})
		s.remove = "!" // the static check takes the values of the session as gone, too
		return s
	}(),
	func() step {
		s := st("mark-time t", func(w *world) bool { w.put("t", "NOW"); return true })
		s.write = "t"
		return s
	}(),
	func() step {
		s := st("timer.begin key=t", func(w *world) bool { w.put("t", "NOW"); return true })
		s.write = "t"
		return s
	}(),
	func() step {
		s := st("timer.end begin-key=t write-to-key=el", func(w *world) bool { w.put("el", "ELAPSED"); return true })
		s.write, s.read = "el", "t"
		return s
	}(),
	func() step {
		s := st("needs", func(w *world) bool { return true })
		s.read = "a"
		return s
	}(),
}

// refused tells whether the static check must refuse the line.
func refused(w *world, h []int) bool {
	have, saved := map[string]bool{}, map[string]bool{}
	for _, k := range universe {
		_, have[k] = w.get(k)
		saved[k] = w.pers[k] != ""
	}
	for _, i := range h {
		s := steps[i]
		if s.read != "" && !have[s.read] {
			return true
		}
		switch {
		case s.remove == "":
		case s.remove[0] == '!':
			keep := strings.Split(s.remove[1:], ",")
			for _, k := range universe {
				stays := k == dflt || saved[k]
				for _, x := range keep {
					stays = stays || (x == k && have[k])
				}
				have[k] = stays
			}
		case strings.HasSuffix(s.remove, "*"):
			for _, k := range universe {
				if strings.HasPrefix(k, s.remove[:len(s.remove)-1]) {
					have[k] = k == dflt
					saved[k] = false
				}
			}
		default:
			have[s.remove] = s.remove == dflt
			saved[s.remove] = false
		}
		if s.write != "" {
			have[s.write] = true
		}
	}
	return false
}

type kase struct {
	H []int
	T []int `json:",omitempty"` // keys removed in one call behind '::'
	F int   `json:",omitempty"` // its form
}

var tailKeys = []string{"a", "a.b", "p", dflt, "zz", "b"}
var tailForms = []string{"env.rm", "env.remove", "env.rm key=ab", "env.del k=nothing"}

// tail: keys :: env.rm
func tail(k kase) Out {
	dir, drop := eng.Scratch()
	defer drop()
	e := newEng(dir)
	pers, sess := e.Env.GetLayer(model.EnvLayerPersisted), e.Env.GetLayer(model.EnvLayerSession)
	w := &world{map[string]string{}, map[string]string{"a": "pa", "p": "p0"}, false, nil}
	for x, v := range w.pers {
		pers.Set(x, v)
	}
	w.sess = map[string]string{"a": "v1", "a.b": "v2", "ab": "v3", "b": ""}
	for x, v := range w.sess {
		sess.Set(x, v)
	}
	var args, want []string
	gone := func(x string) {
		if _, ok := w.get(x); ok {
			want = append(want, "'"+x+"' deleted")
			w.del(x)
		} else {
			want = append(want, "'"+x+"' not exist, skipped deleting")
		}
	}
	for _, i := range k.T {
		args = append(args, tailKeys[i])
		gone(tailKeys[i])
	}
	form := strings.Fields(tailForms[k.F])
	if len(form) > 1 {
		gone(form[1][strings.Index(form[1], "=")+1:])
	}
	args = append(append(args, "::"), form...)
	r := e.Run(args...)
	desc := fmt.Sprintf("values %s before, line %q", w.view(), args)
	if !r.OK {
		return Bad("%s failed: %v %.300s", desc, r.Panic, e.Screen.Text())
	}
	var got []string
	all := e.Env.FlattenAll()
	for _, x := range append([]string{"zz"}, universe...) {
		if v, ok := all[x]; ok {
			got = append(got, x+"="+v)
		}
	}
	if fmt.Sprintf("%q", got) != w.view() {
		return Bad("%s must leave %s, left %q", desc, w.view(), got)
	}
	out := strings.Split(strings.TrimRight(e.Screen.Text(), "\n"), "\n")
	told := len(out) == len(want)
	for i, x := range want {
		told = told && strings.HasPrefix(out[i], strings.Fields(x)[0]) && strings.Contains(out[i], "not exist") == strings.Contains(x, "not exist")
	}
	if !told {
		return Bad("%s must tell %q, told %q", desc, want, out)
	}
	return Out{Outcome: "removed behind ::", Steps: len(want)}
}

func gen(tier string, emit func(string)) {
	depth, every := 2, 12
	if tier == "thorough" {
		depth, every = 3, 197
	}
	i := 0
	Seqs(len(steps), 1, depth+1, func(s []int) {
		if len(s) > depth {
			i++
			// what the static check makes of removing between writing and reading, or before
			read := steps[s[len(s)-1]].read
			a, b := steps[s[len(s)-3]], steps[s[len(s)-2]]
			about := read != "" && (a.write == read && b.remove != "" || b.write == read && a.remove != "")
			if i%every != 0 && !about {
				return
			}
		}
		emit(J(kase{H: append([]int{}, s...)}))
	})
	Seqs(len(tailKeys), 1, 3, func(s []int) {
		for f := range tailForms {
			emit(J(kase{T: append([]int{}, s...), F: f}))
		}
	})
}

func newEng(dir string) *eng.Eng {
	e := eng.New(dir)
	e.Power("pb", func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
		var r []string
		for _, k := range universe {
			if env.Has(k) {
				r = append(r, k+"="+env.GetRaw(k))
			}
		}
		e.Log("%q", r)
		e.Log("%s", e.Screen.Text())
		e.Screen.Reset()
		return idx, true
	}).SetQuiet()
	e.Power("blank", func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
		env.GetLayer(model.EnvLayerSession).Set("b", "  w  x ")
		return idx, true
	})
	e.Mark("needs").AddEnvOp("a", model.EnvOpTypeRead)
	return e
}

func flat(e *eng.Eng) map[string]string {
	return e.Env.FlattenAll()
}

func exec(key string) Out {
	var k kase
	U(key, &k)
	if k.T != nil {
		return tail(k)
	}
	dir, drop := eng.Scratch()
	defer drop()
	file := filepath.Join(dir, "bootstrap.env")
	must(os.WriteFile(file, []byte("a=pa\np=p0\n"), 0644))

	w := &world{map[string]string{}, map[string]string{"a": "pa", "p": "p0"}, false, map[string]string{"a": "pa", "p": "p0"}}
	e := newEng(dir)
	model.LoadEnvFromFile(e.Env.GetLayer(model.EnvLayerPersisted), file, "=", "--")
	args := []string{"pb"}
	var line []string
	for _, i := range k.H {
		args = append(append(append(args, ":"), steps[i].args...), ":", "pb")
		line = append(line, steps[i].name)
	}
	desc := fmt.Sprintf("saved a=pa p=p0, line %q", strings.Join(line, " : "))
	want := []string{w.view()}
	outs := []string{""}
	ok := !refused(w, k.H)
	if !ok {
		want, outs = nil, nil
		desc += " (reads a key which was removed: must be refused)"
	}
	var states []string
	for n, i := range k.H {
		if !ok {
			break
		}
		v := ""
		if steps[i].val != "" {
			v, _ = w.get(steps[i].val)
			v += "\n"
		}
		if ok = steps[i].do(w); !ok {
			break
		}
		want = append(want, w.view())
		outs = append(outs, v)
		states = append(states, fmt.Sprintf("%d:%s", n, w.view()))
	}
	before := flat(e)
	t0 := time.Now().Unix()
	r := e.Run(args...)
	t1 := time.Now().Unix()
	tr := e.Trace()
	if r.OK != ok {
		return Bad("%s: must end with %v, ended with %v %v", desc, ok, r.OK, r.Panic)
	}
	var got []string
	for i := 0; i+1 < len(tr); i += 2 {
		if tr[i] == "needs" { // the mark of the reading command
			i--
			continue
		}
		got = append(got, times(tr[i], t0, t1))
		if n := len(got) - 1; n < len(outs) && outs[n] != "" && tr[i+1] != outs[n] && !(w.wiped && strings.HasSuffix(tr[i+1], "\n"+outs[n])) {
			return Bad("%s: step %d must print %q, printed %q", desc, n, outs[n], tr[i+1])
		}
	}
	if !Eq(got, want) {
		return Bad("%s: the values after each step must be\n%s\nwere\n%s", desc, strings.Join(want, "\n"), strings.Join(got, "\n"))
	}
	if !w.wiped {
		if d := other(before, flat(e)); d != "" {
			return Bad("%s: also changed %s", desc, d)
		}
	}
	// the next start sees what was saved
	next := newEng(dir)
	model.LoadEnvFromFile(next.Env.GetLayer(model.EnvLayerPersisted), file, "=", "--")
	w2 := &world{map[string]string{}, w.saved, false, nil}
	if r := next.Run("pb"); !r.OK {
		return Bad("%s: the next start failed: %v", desc, r.Panic)
	}
	if got := times(next.Trace()[0], t0, t1); got != w2.view() {
		return Bad("%s: the next start must see %s, sees %s", desc, w2.view(), got)
	}
	return Out{Outcome: fmt.Sprintf("ok=%v after %d", ok, len(want)), States: states, Steps: len(k.H)}
}

// times replaces the time values in a view, when they are right.
func times(v string, t0, t1 int64) string {
	for t := t0 - 1; t <= t1; t++ {
		v = strings.ReplaceAll(v, strconv.FormatInt(t, 10), "NOW")
	}
	for d := int64(0); d <= t1-t0; d++ {
		v = strings.ReplaceAll(v, fmt.Sprintf("\"el=%d\"", d), `"el=ELAPSED"`)
	}
	return v
}

func other(before, after map[string]string) string {
	skip := map[string]bool{"session": true}
	for _, k := range universe {
		skip[k] = true
	}
	var r []string
	for k, v := range after {
		if b, ok := before[k]; (!ok || b != v) && !skip[k] && !strings.HasPrefix(k, "sys.s") && !strings.HasPrefix(k, "display.executor") && k != "display.one-cmd" {
			r = append(r, k+"="+v)
		}
	}
	for k := range before {
		if _, ok := after[k]; !ok && !skip[k] && !strings.HasPrefix(k, "sys.s") {
			r = append(r, "-"+k)
		}
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func main() {
	Main(Spec{ID: "P41", Level: "model_checking", CaseSec: 30, QuickSec: 200,
		Rule: "every history of 2 (thorough: 3, and a stride of those one longer) out of 47 uses of the environment tools (set, add, update, map, remove, remove by prefix, reset with and without exceptions, assertions, reading a value, marking times and timers, saving, clearing the saved) over keys that are set, saved, defaulted, absent or prefixes of each other; oracle: three maps, compared after every step, what a following start sees, which lines the static check refuses, what is printed",
		Gen:  gen, Exec: exec})
}
