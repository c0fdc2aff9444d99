// P43: how things are displayed never changes what is run; the frames show
// each command before it runs, at its place among the others.
package main

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/innerr/ticat/pkg/core/model"

	"verif/eng"
	. "verif/vlib"
)

type item struct {
	text string // as written
	name string // as shown
	args string // the argument shown
}

type def struct {
	quiet bool
	fail  string // "false", "panic"
	body  []int
	fnf   bool
}

var items = []item{
	{"ma", "ma", ""}, {"mb n=5", "mb", "n = 5"}, {"mq", "mq", ""}, {"mw 7", "mw", "n = 7"}, {"{k.a=b} ma", "ma", ""},
	{"vf", "vf", ""}, {"vg", "vg", ""}, {"vn", "vn", ""}, {"vh", "vh", ""}, {"vl", "vl", ""},
	{"me", "me", ""}, {"mp", "mp", ""}, {"me %err=ok", "me", ""}, {"maa", "ma", ""}, {"vk", "vk", ""}, {"vq", "vq", ""}, {"mb {n = x} ", "mb", "n = x"},
}

var defs = map[string]def{
	"ma": {}, "mb": {}, "mq": {quiet: true}, "mw": {}, "me": {fail: "false"}, "mp": {fail: "panic"},
	"vf": {body: []int{0, 1}},
	"vg": {body: []int{4, 5, 3, 2}},
	"vn": {body: []int{1, 0}, fnf: true},
	"vh": {body: []int{1}},
	"vl": {body: []int{0, 1, 0, 2, 3, 0, 1, 0, 0}},
	"vk": {body: []int{0, 10, 1}},
	"vq": {body: []int{2, 0}, quiet: true},
}

type set = map[string]string

func one(kv ...string) set {
	r := set{}
	for i := 0; i < len(kv); i += 2 {
		r[kv[i]] = kv[i+1]
	}
	return r
}

var looks = []set{
	one(), one("display.executor", "false"), one("display.one-cmd", "true"), one("display.mod.quiet", "true"), one("display.executor.end", "true"),
	one("display.max-cmd-cnt", "4"), one("display.max-cmd-cnt", "5"), one("display.max-cmd-cnt", "0"), one("display.max-cmd-cnt", "6"),
	one("display.color", "true"), one("display.utf8", "false", "display.utf8.symbols", "false"), one("display.stack", "false"), one("display.meow", "true"),
	one("display.env.layer", "true"), one("display.env", "false"), one("display.env.default", "true"), one("display.env.display", "true"), one("display.env.sys", "true"), one("display.env.sys.paths", "true"),
	one("display.width", "20"), one("display.width", "200"), one("display.style", "bold"), one("display.style", "ascii"), one("display.style", "slash"), one("display.style", "corner"), one("display.style", "heavy", "display.utf8", "false"),
	one("display.mod.realname", "true"), one("display.mod.input-name", "true"), one("display.mod.input-name", "true", "display.mod.input-name.with-realname", "true"),
	one("display.tip", "false"), one("display.sensitive", "true"), one("display.bootstrap", "true"),
	one("display.height", "1"), one("display.executor.displayed", "1"), one("display.env", "true"),
}

// commands which change the look, used in front of the line
var words = []string{
	"display.quiet", "display.verbose", "display.verbose.increase", "display.verbose.increase 3", "display.verbose.increase 9", "display.verbose.decrease 2", "display.verbose.default",
	"display.color.on", "display.utf8.off", "display.style bold", "display.set-width 60", "display.env.on", "display.stack.off", "display.command.quiet.on", "display.one-cmd.on", "display.executor.off", "display.footer.on",
	"display.env.layer.on", "display.tips.off", "display.meow.on", "display.command.input-name.with-realname.on", "display.sensitive.on",
}

type kase struct {
	P    []int
	A, B int // two settings
	W    string
}

func gen(tier string, emit func(string)) {
	n := 2
	if tier == "thorough" {
		n = 3
	}
	i := 0
	Seqs(len(items), 1, n, func(p []int) {
		q := append([]int{}, p...)
		for a := range looks {
			emit(J(kase{q, a, 0, ""}))
		}
		for a := range looks {
			for b := 1; b < a; b++ {
				i++
				if len(p) == 1 && (tier == "thorough" || i%2 == 0) || i%(len(p)*37) == 0 {
					emit(J(kase{q, a, b, ""}))
				}
			}
		}
		for j, w := range words {
			emit(J(kase{q, 0, 0, w}))
			for l, v := range words {
				i++
				if len(p) == 1 && (tier == "thorough" || i%3 == 0) || i%(len(p)*29) == 0 {
					emit(J(kase{q, (j + l) % len(looks), 0, w + " : " + v}))
				}
			}
		}
	})
	if tier != "thorough" {
		Seqs(len(items), 3, 3, func(p []int) {
			i++
			emit(J(kase{append([]int{}, p...), i % 9, i % len(looks), ""}))
		})
	}
}

func newEng(dir string) *eng.Eng {
	e := eng.New(dir)
	for n, d := range defs {
		n, d := n, d
		var c *model.Cmd
		if d.body == nil {
			c = e.Power(n, func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
				e.Screen.Print("@@ran " + n + "\n")
				e.FLog("%s %q k.a=%q k.b=%q", n, argv.GetRaw("n"), env.GetRaw("k.a"), env.GetRaw("k.b"))
				if d.fail == "panic" {
					panic(fmt.Errorf("wrong"))
				}
				return idx, d.fail == ""
			})
			if n == "mb" || n == "mw" {
				c.AddArg("n", "d")
			}
			if n == "ma" {
				c.Owner().AddAbbrs("maa")
			}
			if n == "mw" {
				c.AddArg2Env("k.a", "n")
				c.AddVal2Env("k.b", "V[[n]]")
			}
		} else {
			var b []string
			for _, i := range d.body {
				b = append(b, items[i].text)
			}
			if d.fnf {
				c = e.FileNFlow(n, "echo script >> $TRACE", strings.Join(b, " : "))
			} else {
				c = e.Flow(n, strings.Join(b, " : "))
			}
		}
		if d.quiet {
			c.SetQuiet()
		}
	}
	return e
}

type result struct {
	trace  []string
	ok     bool
	pan    string
	env    map[string]string
	screen string
}

func run(line string, looks ...set) (r result) {
	dir, drop := eng.Scratch()
	defer drop()
	e := newEng(dir)
	for _, l := range append([]set{one("display.executor", "true")}, looks...) {
		for k, v := range l {
			e.Env.GetLayer(model.EnvLayerSession).Set(k, v)
		}
	}
	os.Setenv("TRACE", e.TraceFile())
	e.Screen.Reset()
	res := e.Run(strings.Fields(line)...)
	r.trace, r.ok, r.screen = e.FTrace(), res.OK, e.Screen.Text()
	if res.Panic != nil {
		r.pan = fmt.Sprintf("%T", res.Panic)
	}
	r.env = map[string]string{}
	for k, v := range e.Env.FlattenAll() {
		if !strings.HasPrefix(k, "display.") && k != "session" && !strings.HasPrefix(k, "sys.session") && k != "sys.paths.sessions" && !strings.Contains(v, dir) {
			r.env[k] = v
		}
	}
	return
}

// --- what should be shown

type look struct {
	on, oneCmd, quiet, end, input bool
	cnt                          int
}

type model_ struct {
	l   look
	out []string
}

func (m *model_) walk(body []int, depth int, inFnf bool) (failed bool) {
	var list []int
	for _, i := range body {
		if !defs[items[i].name].quiet || m.l.quiet {
			list = append(list, i)
		}
	}
	at := -1
	for n, i := range body {
		it := items[i]
		d := defs[it.name]
		vis := !d.quiet || m.l.quiet
		if vis {
			at++
		}
		show := m.l.on && vis && !(len(list) == 1 && !m.l.oneCmd && depth <= 1)
		if show {
			m.out = append(m.out, m.frame(list, at))
		}
		if d.body == nil {
			m.out = append(m.out, "ran "+it.name)
			failed = d.fail != ""
		} else {
			failed = m.walk(d.body, depth+1, d.fnf)
		}
		tol := strings.Contains(it.text, "%err=ok")
		between := inFnf && n == len(body)-1
		// when a command panics its result isn't shown here
		if show && (m.l.end || between) && (len(list) != 1 || m.l.oneCmd || between) && d.fail != "panic" {
			st := "OK" // also for a tolerated failure
			if failed && !tol {
				st = "failed"
			}
			m.out = append(m.out, "result "+st+" "+m.name(it))
		}
		if failed && !tol {
			return true
		}
		failed = false
	}
	return
}

// the name in a result is the one the user wrote
func (m *model_) name(it item) string {
	if it.text == "maa" {
		return it.text
	}
	return it.name
}

func (m *model_) frame(list []int, at int) string {
	cnt := m.l.cnt
	if cnt < 4 {
		cnt = 4
	}
	var rows []string
	from, to := 0, len(list)
	if len(list) > cnt {
		from = at - cnt/2
		if from < 0 {
			from = 0
		}
		if from+cnt > len(list) {
			from = len(list) - cnt
		}
		to = from + cnt
	}
	for j := from; j < to; j++ {
		it := items[list[j]]
		row := it.name
		if m.l.input {
			f := strings.Fields(regexp.MustCompile(`\{[^}]*\}`).ReplaceAllString(it.text, ""))
			row = f[0]
		}
		switch {
		case j == from && j > 0 || j == to-1 && j < len(list)-1:
			row = "..."
		case j == at:
			row = ">>" + row
			fallthrough
		default:
			if it.args != "" {
				row += "(" + it.args + ")"
			}
		}
		rows = append(rows, row)
	}
	return "frame " + strings.Join(rows, " ")
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

// frames reads the screen back
func frames(text string) (r []string, bad string) {
	lines := strings.Split(ansi.ReplaceAllString(text, ""), "\n")
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "@@ran ") {
			r = append(r, l[2:])
			continue
		}
		if !strings.HasPrefix(l, "┌") {
			continue
		}
		var box []string
		for ; i < len(lines); i++ {
			box = append(box, lines[i])
			if strings.HasPrefix(lines[i], "└") {
				break
			}
		}
		if strings.Contains(box[1], "thread:") {
			f, b := stackBox(box)
			if b != "" {
				return nil, b
			}
			r = append(r, f)
			continue
		}
		m := regexp.MustCompile(`^│ ( ✓|✓| ✘|✘|OK|E| E) (\S+) +\S+ │$`).FindStringSubmatch(box[1])
		if m == nil || len(box) != 3 {
			continue // an error box or others
		}
		st := "OK"
		if strings.Contains(m[1], "✘") || strings.Contains(m[1], "E") {
			st = "failed"
		}
		r = append(r, "result "+st+" "+m[2])
		if w := utf8.RuneCountInString(box[0]); utf8.RuneCountInString(box[1]) != w || utf8.RuneCountInString(box[2]) != w {
			return nil, "uneven box:\n" + strings.Join(box, "\n")
		}
	}
	return
}

func stackBox(box []string) (frame, bad string) {
	w := 0
	part := []string{}
	var parts [][]string
	for i, l := range box[2:] {
		n := utf8.RuneCountInString(l)
		if i == 0 {
			w = n
			if !strings.HasPrefix(l, "├") {
				return "", "no title:\n" + strings.Join(box, "\n")
			}
			continue
		}
		wide := false // the width of other characters isn't judged
		for _, c := range l {
			wide = wide || c > 127 && !strings.ContainsRune("│─┌┐└┘├┤┬┴┼", c)
		}
		if !wide && (n != w && !(n > w-2 && !strings.HasSuffix(l, "│")) || n == w && !strings.HasSuffix(l, "│") && strings.HasPrefix(l, "│")) {
			return "", "uneven box: " + fmt.Sprintf("%q", l) + "\n" + strings.Join(box, "\n")
		}
		if strings.HasPrefix(l, "│") {
			part = append(part, strings.TrimSuffix(strings.TrimPrefix(l, "│ "), "│"))
		} else {
			parts = append(parts, part)
			part = nil
		}
	}
	if len(parts) == 0 {
		return "", "no commands:\n" + strings.Join(box, "\n")
	}
	var rows []string
	flow := parts[len(parts)-1]
	for i, l := range flow {
		l = strings.TrimRight(l, " ")
		if i == 0 {
			l = strings.TrimRight(strings.TrimSuffix(l, "flow"), " ")
		}
		switch {
		case strings.HasPrefix(l, "       "):
			a := strings.TrimSpace(l)
			if a == "--->>>" || a == "<<<---" {
				continue
			}
			if n := len(rows) - 1; n >= 0 && rows[n] != "..." {
				rows[n] += "(" + a + ")"
			}
		case strings.HasPrefix(l, ">> "):
			rows = append(rows, ">>"+l[3:])
		default:
			rows = append(rows, strings.TrimSpace(l))
		}
	}
	return "frame " + strings.Join(rows, " "), ""
}

var base = map[string]result{}

func same(a, b result) string {
	if a.ok != b.ok || a.pan != b.pan {
		return fmt.Sprintf("the run ended with %v %s, otherwise with %v %s", b.ok, b.pan, a.ok, a.pan)
	}
	if !Eq(a.trace, b.trace) {
		return fmt.Sprintf("ran %q, otherwise %q", b.trace, a.trace)
	}
	var ks []string
	for k := range a.env {
		ks = append(ks, k)
	}
	for k := range b.env {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		x, ok1 := a.env[k]
		y, ok2 := b.env[k]
		if x != y || ok1 != ok2 {
			return fmt.Sprintf("afterwards %s is %q (%v), otherwise %q (%v)", k, y, ok2, x, ok1)
		}
	}
	return ""
}

func exec(key string) Out {
	var k kase
	U(key, &k)
	var ws []string
	for _, i := range k.P {
		ws = append(ws, items[i].text)
	}
	plain := strings.Join(ws, " : ")
	if _, ok := base[plain]; !ok {
		if len(base) > 4000 {
			base = map[string]result{}
		}
		base[plain] = run(plain, one("display.executor", "false"))
	}
	line := plain
	if k.W != "" {
		line = k.W + " : " + line
		if strings.HasPrefix(plain, "{") { // braces at the head are for the whole line
			line = plain[:strings.Index(plain, "}")+1] + " : " + k.W + " : " + strings.TrimSpace(plain[strings.Index(plain, "}")+1:])
		}
	}
	got := run(line, looks[k.A], looks[k.B])
	desc := fmt.Sprintf("%q with %v %v", line, looks[k.A], looks[k.B])
	if bad := same(base[plain], got); bad != "" {
		return Bad("%s: %s", desc, bad)
	}
	conf := set{}
	for _, l := range []set{looks[k.A], looks[k.B]} {
		for x, v := range l {
			conf[x] = v
		}
	}
	o := Out{Outcome: fmt.Sprint(got.ok, len(got.trace)), States: []string{plain}, Trans: []string{plain}, Steps: len(got.trace)}
	// with other characters, the frames aren't read
	if k.W != "" || conf["display.style"] != "" || conf["display.utf8"] != "" || conf["display.mod.input-name.with-realname"] != "" || conf["display.mod.realname"] != "" && strings.Contains(plain, "maa") {
		if conf["display.utf8"] == "false" && k.W == "" && conf["display.meow"] == "" {
			for _, c := range got.screen {
				if c > 127 && conf["display.utf8.symbols"] == "false" {
					return Bad("%s: without utf8, this is shown: %q", desc, got.screen)
				}
			}
		}
		return o
	}
	fs, bad := frames(got.screen)
	if bad != "" {
		return Bad("%s: %s", desc, bad)
	}
	m := &model_{l: look{on: conf["display.executor"] != "false", oneCmd: conf["display.one-cmd"] == "true", quiet: conf["display.mod.quiet"] == "true",
		end: conf["display.executor.end"] == "true", input: conf["display.mod.input-name"] == "true", cnt: 14}}
	if v, ok := conf["display.max-cmd-cnt"]; ok {
		fmt.Sscan(v, &m.l.cnt)
	}
	m.walk(k.P, 1, false)
	if conf["display.width"] == "20" { // too narrow for some names: only the order is judged
		m.out, fs = nil, nil
	}
	if !Eq(fs, m.out) {
		return Bad("%s: shown\n  %s\nexpected\n  %s\n%s", desc, strings.Join(fs, "\n  "), strings.Join(m.out, "\n  "), got.screen)
	}
	return o
}

func main() {
	Main(Spec{ID: "P43", Level: "model_checking", CaseSec: 20, QuickSec: 300,
		Rule: "every line of up to 2 (quick: also a stride of those of 3; thorough: 3) out of 17 forms (plain, quiet, mapping, failing, tolerated, panicking commands, flows in flows, flows with a script, long flows, abbreviations, braces) x 35 display settings and a stride of their pairs, and x 22 commands changing the look, and a stride of their pairs; oracle: the same line run with nothing displayed (commands, their arguments and values, the end, the environment afterwards), and a model of which frames are shown between the commands, with which rows",
		Gen:  gen, Exec: exec})
}
