package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	meta "github.com/innerr/ticat/pkg/mods/persist/hub_meta"

	"verif/eng"
	. "verif/vlib"
)

// feat is one declaration in one spelling: global lines or one section.
type feat struct {
	kind string
	sec  string
	text []string
	fact []string // what the command must show
}

var feats = []feat{
	{"help", "", []string{"help = hi there"}, []string{"help=hi there"}},
	{"help", "", []string{`help = "a = 'b"`}, []string{"help=a = 'b"}},
	{"help", "", []string{`help = one \`, `  two = 2 \`, `three`}, []string{"help=one\ntwo = 2\nthree"}},
	{"help", "", []string{`[help/]`, `# l1`, ``, `[x] l2`, `[/help]`}, []string{"help=# l1\n\n[x] l2"}},
	{"abbr", "", []string{"abbrs = p1|p2"}, []string{"abbr=p1 p2"}},
	{"abbr", "", []string{"abbr = p3"}, []string{"abbr=p3"}},
	{"tag", "", []string{"tags = @t1  t2"}, []string{"tags=@t1 t2"}},
	{"tag", "", []string{"tag = t3"}, []string{"tags=t3"}},
	{"triv", "", []string{"trivial = 2"}, []string{"trivial=2"}},
	{"quiet", "", []string{"quiet = true"}, []string{"quiet"}},
	{"quiet", "", []string{"quiet = false"}, nil},
	{"nosess", "", []string{"no-session = 1"}, []string{"no-session"}},
	{"nosess", "", []string{"no-session = 0"}, nil},
	{"hide", "", []string{"hide-in-sessions-last = true"}, []string{"hide"}},
	{"hide", "", []string{"hide-in-last = t"}, []string{"hide"}},
	{"hide", "", []string{"hide-in-session-last = F"}, nil},
	{"pack", "", []string{"pack-subflow = true"}, []string{"pack"}},
	{"pack", "", []string{"pack-sub = true"}, []string{"pack"}},
	{"pack", "", []string{"pack-sub = false"}, nil},
	{"unbreak", "", []string{"unbreak-file+flow = true"}, []string{"unbreak"}},
	{"unbreak", "", []string{"unbreak-fnf = true"}, []string{"unbreak"}},
	{"timer", "", []string{"begin-ts-key = t.b", "end-key = t.e"}, []string{"timer=t.b t.e ", "op t.b=write", "op t.e=write"}},
	{"timer", "", []string{"begin-key = t.b", "end-ts-key = t.e", "dur-key = t.d"}, []string{"timer=t.b t.e t.d", "op t.b=write", "op t.d=write", "op t.e=write"}},
	{"timer", "", []string{"duration-key = t.d"}, []string{"timer=  t.d", "op t.d=write"}},
	{"flow", "", []string{"flow = vm1 : vm2"}, []string{"flow=vm1 : vm2"}},
	{"flow", "", []string{`flow = vm1 : \`, `   vm2 : \`, ` vm3`}, []string{"flow=vm1 :\nvm2 :\nvm3"}},
	{"flow", "", []string{"[flow/]", "", "vm1", "  # c = 1", "", "{a = b} vm2", "", "[/flow]"}, []string{"flow=vm1\n# c = 1\n\n{a = b} vm2"}},
	{"args", "args", []string{"x|xx|xy = 1", "y ="}, []string{"arg x=1 [x xx xy]", "arg y= [y]"}},
	{"args", "arg", []string{"y = 2", "x = 'q r'"}, []string{"arg y=2 [y]", "arg x=q r [x]"}},
	{"args", "args", []string{"x = b (enum: a|b|c)", "w | ww = (z)"}, []string{"arg x=b [x] {a b c}", "arg w= [w ww] {z}"}},
	{"args", "args", []string{"x = (a|b)", "y = f)", "z = [[k.z]]"}, []string{"arg x= [x] {a b}", "arg y=f) [y]", "arg z=[[k.z]] [z]"}},
	{"env", "env", []string{"k.a = read", "k.b = write", "k.c = may-read", "k.d = may-write"}, []string{"op k.a=read", "op k.b=write", "op k.c=may-read", "op k.d=may-write"}},
	{"env", "env", []string{"k.a = read : write", "k.b = may-read|write"}, []string{"op k.a=read,write", "op k.b=may-read,write"}},
	{"env", "env", []string{"k.a = may-read : read : write", "k.b = read|may-write|write", "k.c = w:w:may-w"}, []string{"op k.a=may-read,read,write", "op k.b=read,may-write,write", "op k.c=write,write,may-write"}},
	{"env", "env", []string{"kk|k1.aa|a1 = r : W", "k2:k3.b = OPT-READ"}, []string{"op k2.b=may-read", "op kk.aa=read,write", "short k1.a1=kk.aa", "short k3.b=k2.b"}},
	{"val", "val2env", []string{"v.a = 1", "v.b = x = y"}, []string{"val v.a=1", "val v.b=x = y"}},
	{"val", "env.write", []string{"v.b|v2 = ''", "v.c = on"}, []string{"short v.v2=v.b", "val v.b=", "val v.c=on"}},
	{"a2e", "arg2env", []string{"m.a = x"}, []string{"map m.a=x"}},
	{"a2e", "env.arg", []string{"m.b = x"}, []string{"map m.b=x"}},
	{"a2e", "env.from-arg", []string{"m|n.c = x"}, []string{"map m.c=x", "short n.c=m.c"}},
	{"dep", "dep", []string{"bash = to run", "ls = 'list it'"}, []string{"dep bash=to run", "dep ls='list it'"}},
	{"dep", "deps", []string{"cat ="}, []string{"dep cat="}},
	{"macro", "", []string{"[[mm]] = vm3"}, []string{"macro"}},
	{"other", "", []string{"unknown = z"}, nil},
	{"other", "unknown.section", []string{"help = no", "x = 9", "flow = vm3"}, nil},
}

// target of the metadata
var targets = []string{"none", "script", "dir", "flowfile"}

func compat(a, b feat) bool { return a.kind != b.kind }

// layout puts the declarations into a text.
func layout(fs []feat, n int) string {
	var global, secs [][]string
	for _, f := range fs {
		if f.sec == "" {
			global = append(global, f.text)
		} else {
			secs = append(secs, append([]string{"[" + f.sec + "]"}, f.text...))
		}
	}
	nl := "\n"
	var lines []string
	switch n {
	case 0: // plain
		for _, p := range append(global, secs...) {
			lines = append(lines, p...)
		}
	case 1: // reversed, blank lines and comments between
		lines = append(lines, "# head = 1", "")
		for i := len(global) - 1; i >= 0; i-- {
			lines = append(lines, global[i]...)
			lines = append(lines, "", "  # more [x]")
		}
		for i := len(secs) - 1; i >= 0; i-- {
			for _, l := range secs[i] {
				lines = append(lines, l, "# c = d", "")
			}
		}
	case 2: // indented, without a last newline, windows line ends
		for _, p := range append(global, secs...) {
			for _, l := range p {
				lines = append(lines, " \t"+l+"  ")
			}
		}
		nl = "\r\n"
		return strings.Join(lines, nl)
	case 3: // no spaces around the first "="
		for _, p := range append(global, secs...) {
			for i, l := range p {
				if i == 0 || strings.HasPrefix(p[0], "[") && !strings.Contains(p[0], "/]") {
					k := strings.Index(l, "=")
					if k >= 0 {
						l = strings.TrimSpace(l[:k]) + "=" + strings.TrimSpace(l[k+1:])
					}
				}
				lines = append(lines, l)
			}
		}
	}
	return strings.Join(lines, nl) + nl
}

var opName = map[uint]string{model.EnvOpTypeRead: "read", model.EnvOpTypeWrite: "write", model.EnvOpTypeMayRead: "may-read", model.EnvOpTypeMayWrite: "may-write"}

// facts lists what the registered command shows.
func facts(cc *model.Cli, t *model.CmdTree, shorts []string) []string {
	c := t.Cmd()
	var r []string
	add := func(f string, a ...interface{}) { r = append(r, fmt.Sprintf(f, a...)) }
	if c.Help() != "" {
		add("help=%s", c.Help())
	}
	var ab []string
	for _, a := range t.Abbrs() {
		if a != t.Name() {
			ab = append(ab, a)
		}
	}
	if len(ab) > 0 {
		add("abbr=%s", strings.Join(ab, " "))
	}
	if len(t.Tags()) > 0 {
		add("tags=%s", strings.Join(t.Tags(), " "))
	}
	if t.Trivial() != 0 {
		add("trivial=%d", t.Trivial())
	}
	if c.IsQuiet() {
		add("quiet")
	}
	if c.IsNoSessionCmd() {
		add("no-session")
	}
	if c.IsHideInSessionsLast() {
		add("hide")
	}
	if len(c.FlowStrs()) > 0 && c.HasSubFlow(true) && !c.HasSubFlow(false) {
		add("pack")
	}
	if c.ShouldUnbreakFileNFlow() {
		add("unbreak")
	}
	if k := c.GetAutoTimerKeys(); k.Begin+k.End+k.Dur != "" {
		add("timer=%s %s %s", k.Begin, k.End, k.Dur)
	}
	if len(c.FlowStrs()) > 0 {
		add("flow=%s", strings.Join(c.FlowStrs(), "\n"))
	}
	args := c.Args()
	for _, n := range args.Names() {
		s := fmt.Sprintf("arg %s=%s %v", n, args.RawDefVal(n), args.Abbrs(n))
		if e := args.EnumVals(n); len(e) > 0 {
			s += " {" + strings.Join(e, " ") + "}"
		}
		r = append(r, s)
	}
	var l []string
	ops := c.EnvOps()
	for _, k := range ops.RawEnvKeys() {
		var o []string
		for _, x := range ops.Ops(k) {
			o = append(o, opName[x])
		}
		l = append(l, "op "+k+"="+strings.Join(o, ","))
	}
	v := c.GetVal2Env()
	for _, k := range v.EnvKeys() {
		l = append(l, "val "+k+"="+v.Val(k))
	}
	a := c.GetArg2Env()
	for _, k := range a.EnvKeys() {
		l = append(l, "map "+k+"="+a.GetArgName(c, k, true))
	}
	for _, d := range c.GetDepends() {
		l = append(l, "dep "+d.OsCmd+"="+d.Reason)
	}
	for _, s := range shorts {
		p, ok := cc.EnvAbbrs.TryMatch(s, ".")
		l = append(l, fmt.Sprintf("short %s=%s", s, strings.Join(p, ".")))
		if !ok {
			l = append(l, "no "+s)
		}
	}
	sort.Strings(l)
	return append(r, l...)
}

func metas(cs Case) Out {
	dir, drop := eng.Scratch()
	defer drop()
	e := engine(dir)
	var fs []feat
	for _, i := range cs.B {
		fs = append(fs, feats[i])
	}
	text := layout(fs, cs.N)
	root := filepath.Join(dir, "m")
	must(os.MkdirAll(root, 0755))
	file := "z.bash.ticat"
	switch cs.C {
	case "none":
		file = "z.ticat"
	case "script":
		must(os.WriteFile(filepath.Join(root, "z.bash"), []byte("exit 0\n"), 0644))
	case "dir":
		file = "z.ticat"
		must(os.MkdirAll(filepath.Join(root, "z"), 0755))
	case "flowfile":
		file = "z.tiflow"
	}
	must(os.WriteFile(filepath.Join(root, file), []byte(text), 0644))
	meta.WriteReposInfoFile(filepath.Join(dir, "hub"), filepath.Join(dir, "hub", "repos.hub"),
		[]meta.RepoInfo{{AddReason: "<local>", Path: root, OnOff: "on"}}, "\t")
	d := fmt.Sprintf("%s for a %s holding %q", file, cs.C, text)
	if r := e.Run("qhub"); !r.OK {
		return Bad("%s: loading stopped: %v", d, r.Panic)
	}
	if n := e.CC.TolerableErrs.Uncatalogeds; len(n) > 0 {
		return Bad("%s: reported as faulty: %v", d, n[0].Err)
	}
	t := e.TC.Cmds.GetSub("z")
	if t == nil || t.Cmd() == nil {
		return Bad("%s: no command z", d)
	}
	var exp, args, tail, shorts []string
	at := map[string]string{}
	for _, f := range fs {
		for _, x := range f.fact {
			switch {
			case strings.HasPrefix(x, "arg "):
				args = append(args, x)
			case strings.HasPrefix(x, "macro"):
			case strings.HasPrefix(x, "op "), strings.HasPrefix(x, "val "), strings.HasPrefix(x, "map "), strings.HasPrefix(x, "dep "):
				tail = append(tail, x)
			case strings.HasPrefix(x, "short "):
				tail = append(tail, x)
				shorts = append(shorts, x[6:strings.Index(x, "=")])
			default:
				at[f.kind] = x
			}
		}
	}
	if at["flow"] == "" {
		delete(at, "pack")
	}
	for _, k := range []string{"help", "abbr", "tag", "triv", "quiet", "nosess", "hide", "pack", "unbreak", "timer", "flow"} {
		if at[k] != "" {
			exp = append(exp, at[k])
		}
	}
	sort.Strings(tail)
	exp = append(append(exp, args...), tail...)
	got := facts(e.CC, t, shorts)
	if !Eq(exp, got) {
		return Bad("%s: the command must show %q, shows %q", d, exp, got)
	}
	return Out{Outcome: fmt.Sprintf("metadata %d facts", len(got)), States: []string{strings.Join(got, ";")}, Steps: 1}
}

func genMetas(thorough bool, emit func(string)) {
	ok := func(b []int, tg string) bool {
		arg, a2e, auto := false, false, false
		for i, x := range b {
			f := feats[x]
			arg = arg || f.kind == "args"
			a2e = a2e || f.kind == "a2e"
			auto = auto || f.kind == "auto"
			if f.kind == "pack" && tg == "dir" {
				return false
			}
			for _, y := range b[:i] {
				if !compat(f, feats[y]) {
					return false
				}
			}
		}
		return !a2e || arg
	}
	emitAll := func(b []int, all bool) {
		for ti, tg := range targets {
			if !ok(b, tg) {
				continue
			}
			for n := 0; n < 4; n++ {
				if !all && (n+ti+b[0]+b[1])%4 != 0 {
					continue
				}
				emit(J(Case{T: "b", C: tg, B: append([]int{}, b...), N: n}))
			}
		}
	}
	for i := range feats {
		emitAll([]int{i}, true)
		for j := range feats {
			if i == j {
				continue
			}
			emitAll([]int{i, j}, thorough)
			if feats[i].kind == "args" && feats[j].kind == "a2e" {
				for k := range feats {
					emitAll([]int{i, j, k}, thorough)
				}
			} else if thorough && i < j {
				for k := j + 1; k < len(feats); k++ {
					emitAll([]int{i, j, k}, false)
				}
			}
		}
	}
}
