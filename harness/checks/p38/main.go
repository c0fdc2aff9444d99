// P38: no input makes ticat itself break: every line ends, with success or
// with an error about the line, never with an internal fault.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"

	"github.com/innerr/ticat/pkg/cli/display"
	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/ticat"

	"verif/eng"
	"verif/hubx"
	. "verif/vlib"
)

type kase struct {
	G int      `json:",omitempty"` // 0 a builtin command, 1 a line of odd words, 2 a flow of odd text, 3 an odd setting, 4 a damaged file
	P int      // where the command stands
	W []string // the command and its arguments
}

// Where X stands in the line.
var places = []string{
	"X",
	"q1 : X",
	"X : q1",
	"qa x : X : qf",
	"X : desc",
	"X : desc.full",
	"X : desc.env-ops-check",
	"X : desc.dependencies",
	"qf : X :",
	"X : flow.save vnew",
	"q1 : : X",
	"qe : X",
	"X : qe",
	"X : X",
	"break.at qf : X : qf",
	"X : cmd",
	"X : desc.more",
	"X : help",
	"X : cmds",
	"X : env.save",
	"desc : X",
	"X %delay=0 : background.wait",
	"X %err=ok : q1",
	"flow.forest-mode : X : q1",
	"X : join.run q1",
}

// What stays outside: deliberate crashes, reading the terminal, watching forever.
func skip(path string) bool {
	switch path {
	case "dbg.panic", "dbg.panic.cmd", "dbg.interact", "vcap-verif":
		return true
	}
	return strings.HasSuffix(path, "desc.monitor")
}

var vals = []string{"", "0", "-1", "abc", "q1", "qf", "vnosuch.x", "a.", ".", "a.b", "x=y", "[[a]]", "1.5", "99999999999999999999", "~", "%", "true", "a,b", "/", "sys", "-", "*", "@", "@t"}
var few = []string{"", "-1", "abc", "q1", "qf", "3"}

func slow(name string) bool {
	return name == "duration" || name == "seconds" || name == "times"
}

// huge values for these are not wrong, only slow
func tooSlow(path, v string) bool {
	switch {
	case strings.HasPrefix(path, "sleep"), strings.HasPrefix(path, "wait-execute"), path == "repeat":
		return len(v) > 1 && v[0] != '-' && v[0] != '1'
	}
	return false
}

func cmds(e *eng.Eng) (paths []string, args map[string][]string) {
	args = map[string][]string{}
	var walk func(t *model.CmdTree)
	walk = func(t *model.CmdTree) {
		if c := t.Cmd(); c != nil && !skip(t.DisplayPath()) {
			p := t.DisplayPath()
			a := c.Args()
			paths = append(paths, p)
			args[p] = a.Names()
		}
		for _, s := range t.SubNames() {
			walk(t.GetSub(s))
		}
	}
	walk(e.TC.Cmds)
	return
}

// words the lines of group 1 are made of
var toks = []string{"q1", ":", "{", "}", "{a=b}", "{a", "a=b", "=", "x", "%", "%delay=0", "%err=x", ".", "qa.", "", " ", "::", "[[", "qd", "-", "+", "@", "$", "{}", "a={", "qa"}

// what the flow bodies of group 2 are made of
var bits = []string{"[[", "]]", "[[vk.n]]", "[[]]", "[[vno]]", "[[n]]", "*", "q1", " : ", "{", "}", "%", "=", " ", "qa x", ".", "[[1]]"}

var bodyLines = []string{"vfl", "vfl : desc.full", "qa x : vfl n=1", "vfl : desc.env-ops-check", "vfl : cmd"}

// settings of group 3
var garbage = []string{"abc", "-1", "0", "3", "", "1.5", "99999999999999999999", "true"}

func keys() (r []string) {
	e := eng.New("")
	ks := map[string]bool{}
	for n := range e.Env.FlattenAll() {
		ks[n] = true
	}
	for n := range ks {
		switch {
		case n == "sys.panic.recover", n == "sys.bootstrap", n == "session", strings.HasPrefix(n, "sys.paths"):
		case strings.HasPrefix(n, "sys."), strings.HasPrefix(n, "display."):
			r = append(r, n)
		}
	}
	sort.Strings(r)
	return
}

func gen(tier string, emit func(string)) {
	e := eng.New("")
	ps, as := cmds(e)
	thorough := tier == "thorough"
	put := func(p int, w ...string) {
		for _, v := range w[1:] {
			if i := strings.Index(v, "="); i > 0 {
				v = v[i+1:]
			}
			if tooSlow(w[0], v) {
				return
			}
		}
		emit(J(kase{P: p, W: w}))
	}
	for _, k := range keys() {
		for i, v := range garbage {
			if thorough || i < 5 {
				emit(J(kase{G: 3, W: []string{k, v}}))
			}
		}
	}
	b := makeHistory()
	names, _, _ := savedFiles(b)
	b.Close()
	for _, n := range names {
		for _, d := range damages(n, thorough) {
			emit(J(kase{G: 4, W: []string{n, d}}))
		}
	}
	n := 2
	if thorough {
		n = 3
	}
	Seqs(len(toks), 1, 3, func(x []int) {
		if !thorough && len(x) == 3 && (x[0] > 15 || x[1] > 15 || x[2] > 15) {
			return
		}
		emit(J(kase{G: 1, W: Strs(toks, x)}))
	})
	Seqs(len(bits), 1, n, func(x []int) {
		for l := range bodyLines {
			emit(J(kase{G: 2, P: l, W: Strs(bits, x)}))
		}
	})
	for pi := range places {
		for _, c := range ps {
			put(pi, c)
			vs := few
			switch {
			case pi == 0 || thorough && pi == 1:
				vs = vals
			case thorough:
				vs = few
			case pi > 1:
				vs = few[:2]
			}
			for _, v := range vs {
				put(pi, c, v)
				for _, n := range as[c] {
					put(pi, c, n+"="+v)
				}
			}
			if pi == 0 || thorough && (pi == 1 || pi == 8 || pi == 21) {
				two := few
				if !thorough || pi > 0 {
					two = few[1:4]
				}
				for _, v := range two {
					for _, w := range two {
						put(pi, c, v, w)
						if pi > 0 {
							continue
						}
						for i, n := range as[c] {
							for _, m := range as[c][:i] {
								put(pi, c, n+"="+v, m+"="+w)
							}
						}
					}
				}
				put(pi, c, "a", "b", "c", "d", "e", "f", "g", "h", "i", "j")
			}
		}
	}
}

func register(e *eng.Eng) {
	e.Mark("q1")
	e.Mark("qa").AddArg("n", "").AddArg("m", "1").AddArg2Env("vk.n", "n")
	e.Power("qe", func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
		return idx, false
	})
	e.Flow("qf", "q1 : qa x : qg")
	e.Flow("qg", "qa [[vk.n]] : q1")
	e.Node("qd").RegEmptyCmd("empty").AddEnvOp("vk.n", model.EnvOpTypeRead)
	e.Node("qd").SetSource("verif-repo")
	e.File("qs", "echo qs >> $TRACE")
	e.FileNFlow("qn", "echo qn >> $TRACE", "q1")
}

func line(k kase) (w []string) {
	switch k.G {
	case 1:
		return k.W
	case 2:
		return strings.Fields(bodyLines[k.P])
	}
	for _, t := range strings.Fields(places[k.P]) {
		if t == "X" {
			w = append(w, k.W...)
		} else {
			w = append(w, t)
		}
	}
	return
}

func fault(x interface{}) string {
	if re, ok := x.(runtime.Error); ok {
		return "a runtime fault: " + re.Error()
	}
	s := fmt.Sprint(x)
	if strings.Contains(s, "should never happen") || strings.Contains(s, "runtime error") {
		return "an internal fault: " + s
	}
	return ""
}

func run1(key string) Out {
	var k kase
	U(key, &k)
	switch k.G {
	case 3:
		return setting(k)
	case 4:
		return damaged(k)
	}
	var dir string
	if k.G == 0 && strings.HasPrefix(k.W[0], "hub") {
		w := hubx.New("https://h/a/r0", "https://h/a/r1")
		defer w.Close()
		dir = filepath.Join(w.Dir, "d")
		_ = os.MkdirAll(dir, 0755)
	} else {
		var drop func()
		dir, drop = eng.Scratch()
		defer drop()
	}
	cwd, _ := os.Getwd()
	_ = os.Chdir(dir)
	defer os.Chdir(cwd)
	e := eng.New(dir)
	register(e)
	e.Env.Set("sys.bg.wait", "true")
	e.Env.Set("strs.env-file-name", "envfile")
	e.Env.SetBool("display.executor", true)
	_ = os.WriteFile(filepath.Join(dir, "envfile"), []byte("old=1\n"), 0644)
	before := func(line string) {
		e.Run(strings.Fields(line)...)
		e.Again()
		e.Env.Set("sys.stack-depth", "0")
	}
	if k.G == 0 && k.P < 2 && (strings.HasPrefix(k.W[0], "sessions") || strings.HasPrefix(k.W[0], "flow")) {
		// a history: a session that is done, one that failed, a saved flow
		before("q1 : qf")
		before("qf : qe")
		before("q1 : qa x : flow.save vf.g")
	}
	if k.G == 0 && k.P < 2 && strings.HasPrefix(k.W[0], "hub") {
		before("hub.add https://h/a/r0")
	}
	if k.G == 0 && k.P < 2 && strings.HasPrefix(k.W[0], "env.snap") {
		before("env.snapshot.save vs")
	}
	if k.G == 2 {
		e.Flow("vfl", strings.Join(k.W, "")).AddArg("n", "7")
	}
	w := line(k)
	desc := fmt.Sprintf("input %q", w)
	if k.G == 2 {
		desc = fmt.Sprintf("input %q, with the flow vfl being %q,", w, strings.Join(k.W, ""))
	}
	e.Screen.Reset()
	r := e.Run(append([]string{}, w...)...)
	if r.Panic != nil {
		if f := fault(r.Panic); f != "" {
			return Bad("%s ends with %s", desc, f)
		}
		err, ok := r.Panic.(error)
		if !ok {
			err = fmt.Errorf("%v", r.Panic)
		}
		var again interface{}
		func() {
			defer func() { again = recover() }()
			display.PrintError(e.CC, e.Env, err)
		}()
		if again != nil {
			return Bad("%s is refused with %q, and showing that fails: %v", desc, err, again)
		}
	}
	if s := e.Screen.Text() + e.Screen.Err(); strings.Contains(s, "should never happen") || strings.Contains(s, "runtime error") {
		return Bad("%s shows an internal fault: %s", desc, s)
	}
	return Out{Outcome: fmt.Sprint(k.G, " ", r), States: []string{fmt.Sprint(k.G, k.W)}, Trans: []string{fmt.Sprint(w)}, Steps: 1}
}

func judge(what, l string, r eng.Ran, key string) *Out {
	all := r.Out + r.Err
	var o Out
	switch {
	case r.Timeout:
		o = Bad("%s: %q does not end", what, l)
	case r.RC != 0 && r.RC != 1 && r.RC != 255 && r.RC != 254:
		o = Bad("%s: %q ends with status %d: %s", what, l, r.RC, head(all))
	case strings.Contains(all, "[running]:"), strings.Contains(all, "runtime error"), strings.Contains(all, "should never happen"):
		o = Bad("%s: %q shows an internal fault: %s", what, l, head(all))
	case r.RC != 0 && strings.TrimSpace(all) == "" && !quiet(key):
		o = Bad("%s: %q fails (status %d) without a word", what, l, r.RC)
	default:
		return nil
	}
	return &o
}

// setting runs lines with a setting of an odd value, given in the line or
// saved by an earlier run.
func setting(k kase) Out {
	b := eng.NewBox()
	defer b.Close()
	b.Write("ticat.data/flows/vfl.tiflow", "flow = q1 : q1\n")
	odd := "{" + k.W[0] + "=" + k.W[1] + "}"
	if k.W[1] == "" {
		odd = "{" + k.W[0] + "='" + "'}"
	}
	outcome := ""
	run := func(what string, l string) *Out {
		r := b.Run(strings.Fields(l)...)
		outcome += fmt.Sprint(r.RC)
		return judge(what, l, r, k.W[0])
	}
	for _, l := range []string{"q1 : q1", "q1 : nosuch", "vfl : desc", "cmds", "env", "q1 : q1 %delay=0 : background.wait", "qe : q1", "sessions", "find q", "qe.x", "break.list : q1"} {
		if o := run("given in the line", odd+" "+l); o != nil {
			return *o
		}
		if o := run("set by the line", "env.set "+k.W[0]+" "+odd[len(k.W[0])+2:len(odd)-1]+" : "+l); o != nil {
			return *o
		}
	}
	if o := run("given in the line", odd+" env.save"); o != nil {
		return *o
	}
	saved := fmt.Sprintf("%s=%q saved by an earlier run", k.W[0], k.W[1])
	for _, l := range []string{"q1 : q1", "q1 : nosuch", "cmds", "env", "qe : q1", "sessions", "env.reset-session", "env.clear-and-save"} {
		if o := run(saved, l); o != nil {
			return *o
		}
	}
	return Out{Outcome: "3 " + outcome, States: []string{fmt.Sprint(k.W)}, Trans: []string{fmt.Sprint(k.W)}, Steps: 20}
}

// the saved files group 4 damages, made by the lines of history
var history = []string{
	"env.set vk.a 1 : env.set vk.b 2 : env.save",
	"q1 : q1 : flow.save vf.g",
	"flow.set-help-str vf.g help",
	"{vk.s=1} env.snapshot.save vsnap",
	"hub.add.local mod",
	"q1 : vf.g : vscript",
	"vscript : vf.g : qe",
}

func makeHistory() *eng.Box {
	b := eng.NewBox()
	b.Write("work/mod/vscript.bash", "echo hello\n")
	b.Write("work/mod/vscript.bash.ticat", "help = a script\nabbrs = vs\n[args]\nx = 1\n[val2env]\nvk.v = 3\n[arg2env]\nvk.x = x\n[env]\nvk.v = write\n[dep]\ncat = reading\n")
	b.Write("work/mod/hub.ticat", "help = some modules\n")
	b.Write("work/mod/sub/vflow.ticat", "help = a flow\nflow = q1 : q1\ntags = @t\n")
	for _, l := range history {
		r := b.Run(strings.Fields(l)...)
		if l != history[len(history)-1] && r.RC != 0 {
			panic(fmt.Sprint(l, r.RC, r.Out, r.Err))
		}
	}
	return b
}

// savedFiles maps a stable name to the path and the content.
func savedFiles(b *eng.Box) (names []string, path map[string]string, text map[string]string) {
	path, text = map[string]string{}, map[string]string{}
	var all []string
	for _, root := range []string{"ticat.data", "work/mod"} {
		_ = filepath.Walk(b.Path(root), func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() && !strings.HasSuffix(p, ".bash") {
				all = append(all, p)
			}
			return nil
		})
	}
	sort.Strings(all)
	n := map[string]int{}
	for _, p := range all {
		rel, _ := filepath.Rel(b.Dir, p)
		if strings.Contains(rel, "sessions/") { // named by time
			rel = "sessions/" + filepath.Base(p)
			if b := filepath.Base(p); b != "env" && b != "status" {
				continue
			}
		}
		n[rel]++
		rel = fmt.Sprintf("%s#%d", rel, n[rel])
		t, _ := os.ReadFile(p)
		names = append(names, rel)
		path[rel], text[rel] = p, string(t)
	}
	return
}

// damages of a file: cut at a byte, a line lost, doubled, or replaced.
var oddLines = []string{"", "=", "[", "]", "[]", "[args]", "x", "x=", "=x", "[[", "flow = ", "a\tb\tc\td\te\tf", "\t\t\t", "{", "%"}

// (The length of what sessions save varies a little: places beyond the end are
// trivial cases.)
func damages(name string, every bool) (r []string) {
	size, lines, step := 140, 10, 9
	if strings.HasPrefix(name, "sessions/") {
		size, lines, step = 1300, 60, 61
	}
	if strings.HasPrefix(name, "work") {
		size, lines = 110, 16
	}
	for i := 0; i < size; i++ {
		if i%step == 0 || every && (step < 50 || i%7 == 0) {
			r = append(r, fmt.Sprintf("cut %d", i))
		}
	}
	for i := 0; i < lines; i++ {
		r = append(r, fmt.Sprintf("lose %d", i))
		if step < 50 {
			r = append(r, fmt.Sprintf("double %d", i))
		}
		for j := range oddLines {
			if every && (step < 50 || (i+j)%5 == 0) || j < 6 && step < 50 || j == 1+i%5 {
				r = append(r, fmt.Sprintf("line %d %d", i, j))
			}
		}
	}
	return
}

func damage(t, how string) string {
	var what string
	var i, j int
	fmt.Sscan(how, &what, &i, &j)
	if what == "cut" {
		if i >= len(t) {
			return t
		}
		return t[:i]
	}
	ls := strings.Split(t, "\n")
	if i >= len(ls) {
		return t
	}
	switch what {
	case "lose":
		ls = append(ls[:i:i], ls[i+1:]...)
	case "double":
		ls = append(ls[:i+1:i+1], ls[i:]...)
	case "line":
		ls[i] = oddLines[j]
	}
	return strings.Join(ls, "\n")
}

var looks = []string{"q1 : vf.g", "vscript : vflow", "env.list vk", "hub", "flow.list", "sessions", "sessions.last.desc.more", "sessions.error.desc", "sessions.last.retry", "env.snapshot.load vsnap : q1", "vscript : vflow : vf.g : desc.full", "cmds vscript", "flow.set-help-str vf.g other", "hub.disable mod", "env.clear-and-save", "sessions.remove.all"}

func damaged(k kase) Out {
	b := makeHistory()
	defer b.Close()
	_, path, text := savedFiles(b)
	name, how := k.W[0], k.W[1]
	if path[name] == "" {
		return Out{Trivial: true, Outcome: "4 absent"}
	}
	t := damage(text[name], how)
	if t == text[name] {
		return Out{Trivial: true, Outcome: "4 no damage"}
	}
	if err := os.WriteFile(path[name], []byte(t), 0644); err != nil {
		panic(err)
	}
	what := fmt.Sprintf("with %s holding %q instead of %q", name, t, text[name])
	outcome := ""
	for _, l := range looks {
		r := b.Run(strings.Fields(l)...)
		outcome += fmt.Sprint(r.RC)
		if o := judge(what, l, r, ""); o != nil {
			return *o
		}
	}
	return Out{Outcome: "4 " + outcome, States: []string{name + t}, Trans: []string{name + how}, Steps: len(looks)}
}

// with these the user asks not to be told
func quiet(key string) bool {
	return key == "display.tip" || key == "display.executor"
}

func head(s string) string {
	if len(s) > 400 {
		s = s[:400]
	}
	return s
}

func main() {
	eng.TicatMain(func(tc *ticat.TiCat) {
		for _, n := range []string{"q1", "qe"} {
			n := n
			t := tc.Cmds.GetOrAddSub(n)
			t.RegPowerCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
				return idx, n == "q1"
			}, "verif")
			t.SetSource("verif-repo")
		}
		s := tc.Env.GetLayer(model.EnvLayerSession)
		s.Set("sys.hub.init-repo", "")
	})
	Main(Spec{ID: "P38", Level: "model_checking", CaseSec: 60, QuickSec: 400, ThorSec: 840,
		Rule:        "every builtin command (but the crashing, watching and reading ones) with no, one, two or ten arguments by position or name over up to 24 values, at each of 25 places of a line; every line of up to 3 odd words; every flow text of up to 2 (thorough 3) odd pieces under 5 lines; every display and system setting with 5 (8) odd values under 31 runs; each of 12 saved or module files cut at bytes, and lines lost, doubled or replaced, under 16 runs; trivial: damages beyond the end of a file",
		Assumptions: []string{"group 0-2 run the engine in process with the error shown as the entry shows it; 3-4 run the program itself", "huge durations and counts are left out (slow, not wrong)"},
		Gen:         gen, Exec: run1})
}
