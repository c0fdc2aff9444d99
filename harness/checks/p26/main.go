// P26: external commands get their arguments in order and hand values back.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/mods/builtin"
	meta "github.com/innerr/ticat/pkg/mods/persist/hub_meta"
	"github.com/innerr/ticat/pkg/ticat"

	"verif/eng"
	. "verif/vlib"
)

// Case T: "arg" arguments, "env" values going in, "seq" sequences, "exit"
// exit statuses through the real program.
type Case struct {
	T string
	M int   // module
	A []int // choice per argument (0: not given, i: value i-1)
	P int   // how many are given by position
	S []int // sequence of items
	E int   // exit status form
}

var vals = []string{"v", "a b", "$HOME", "*", `q"q`, "s's", `b\n`, "-n", "é世界", "`id`", "a;b", "t\tt", strings.Repeat("L", 70000), "&", "~", "x=y"}

type argDecl struct{ name, abbr, def string }
type module struct {
	path string // below the root
	args []argDecl
	meta string
	nos  bool // no session
	flow bool
}

var mods = []module{
	{path: "m0.bash"},
	{path: "m1.bash", args: []argDecl{{"x", "xx", ""}}},
	{path: "m1d.bash", args: []argDecl{{"x", "xx", "d x"}}},
	{path: "m2.bash", args: []argDecl{{"y", "", ""}, {"x", "xx", "$d"}}},
	{path: "m3.bash", args: []argDecl{{"z", "zz", "'"}, {"x", "", ""}, {"y", "yy", "*"}}},
	{path: "n1.bash", args: []argDecl{{"x", "", "d"}}, meta: "no-session = true\n", nos: true},
	{path: "s2.sh", args: []argDecl{{"x", "", "d"}, {"y", "", ""}}},
	{path: "p2.py", args: []argDecl{{"x", "", "d"}, {"y", "", ""}}},
	{path: "b2", args: []argDecl{{"x", "", "d"}, {"y", "", ""}}},
	{path: "k/d.bash", args: []argDecl{{"x", "", "d"}}},
	{path: "f1.bash", args: []argDecl{{"x", "", "d"}}, meta: "flow = vm1\n", flow: true},
}

func cmdOf(m module) string {
	p := strings.ReplaceAll(m.path, "/", ".")
	for _, e := range []string{".bash", ".sh", ".py"} {
		p = strings.TrimSuffix(p, e)
	}
	return p
}

const bashBody = `[ "$PWD/${0##*/}" = "$0" ] || echo "not in the directory of the file but in $PWD" >> "$W/log"
{ printf 'CALL %%s\0' %q; for a in "$@"; do printf '%%s\0' "$a"; done; printf '\1'; } >> "$W/log"
E="$1/env"
if [ -e "$E" ]; then cp "$E" "$W/env.%s"; fi
if [ -e "$W/act.%s" ]; then . "$W/act.%s"; fi
`
const pyBody = `import sys, os, shutil
w = os.environ["W"]
if os.getcwd() != os.path.dirname(__file__): open(w + "/log", "a").write("not in the directory of the file but in " + os.getcwd())
with open(w + "/log", "ab") as f:
    f.write(b"CALL %s\0" + b"".join(os.fsencode(a) + b"\0" for a in sys.argv[1:]) + b"\1")
e = sys.argv[1] + "/env"
if os.path.exists(e): shutil.copy(e, w + "/env.%s")
`

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func wr(p, t string) {
	must(os.MkdirAll(filepath.Dir(p), 0755))
	must(os.WriteFile(p, []byte(t), 0755))
}

// install writes the modules into root.
func install(root string, ms []module) {
	for _, m := range ms {
		name := cmdOf(m)
		p := filepath.Join(root, m.path)
		if strings.HasSuffix(m.path, ".py") {
			wr(p, fmt.Sprintf(pyBody, name, name))
		} else {
			b := fmt.Sprintf(bashBody, name, name, name, name)
			if strings.HasSuffix(m.path, ".sh") {
				b = strings.ReplaceAll(b, `printf 'CALL`, `printf 'CALL`)
			}
			wr(p, b)
		}
		t := "help = " + name + "\n" + m.meta
		if len(m.args) > 0 {
			t += "[args]\n"
			for _, a := range m.args {
				n := a.name
				if a.abbr != "" {
					n += "|" + a.abbr
				}
				d := a.def
				if d == "'" {
					d = `"'a b"`
				}
				t += n + " = " + d + "\n"
			}
		}
		wr(p+".ticat", t)
	}
}

func def(a argDecl) string {
	if a.def == "'" {
		return "a b"
	}
	return a.def
}

// calls reads the log: one entry per start of a script or native command.
func calls(dir string) []string {
	b, _ := os.ReadFile(filepath.Join(dir, "log"))
	var r []string
	for _, c := range strings.Split(strings.TrimSuffix(string(b), "\x01"), "\x01") {
		if c != "" {
			r = append(r, c)
		}
	}
	return r
}

func call(name, ses string, args ...string) string {
	return "CALL " + name + "\x00" + ses + "\x00" + strings.Join(append(args, ""), "\x00")
}

type rig struct {
	*eng.Eng
	dir  string
	ses  string            // the session directory
	flat map[string]string // environment before the last vdump
}

func world(dir string, ms []module) *rig {
	e := eng.New(dir)
	r := &rig{Eng: e, dir: dir}
	must(os.Setenv("W", dir))
	root := filepath.Join(dir, "m")
	install(root, ms)
	meta.WriteReposInfoFile(filepath.Join(dir, "hub"), filepath.Join(dir, "hub", "repos.hub"), []meta.RepoInfo{{AddReason: "<local>", Path: root, OnOff: "on"}}, "\t")
	log := func(s string) {
		f, err := os.OpenFile(filepath.Join(dir, "log"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
		must(err)
		f.WriteString(s + "\x01")
		f.Close()
	}
	r.Power("vm1", func(argv model.ArgVals, cc *model.Cli, env *model.Env, fl *model.ParsedCmds, idx int) (int, bool) {
		log("vm1")
		return idx, true
	})
	r.Power("vdump", func(argv model.ArgVals, cc *model.Cli, env *model.Env, fl *model.ParsedCmds, idx int) (int, bool) {
		r.ses = env.GetRaw("session")
		r.flat = env.GetLayer(model.EnvLayerSession).FlattenAll()
		return idx, true
	})
	r.Power("vp", func(argv model.ArgVals, cc *model.Cli, env *model.Env, fl *model.ParsedCmds, idx int) (int, bool) {
		log(fmt.Sprintf("vp a=%q b=%q", env.GetRaw("k.a"), env.GetRaw("k.b")))
		return idx, true
	})
	r.Power("vs", func(argv model.ArgVals, cc *model.Cli, env *model.Env, fl *model.ParsedCmds, idx int) (int, bool) {
		env.GetLayer(model.EnvLayerSession).Set("k.a", "native")
		return idx, true
	})
	r.Power("qhub", builtin.LoadModsFromHub)
	r.Env.GetLayer(model.EnvLayerSession).SetBool("sys.panic.recover", true)
	r.Env.GetLayer(model.EnvLayerSession).Set("sys.ext.exec.py", "python3")
	if res := r.Run("qhub"); !res.OK {
		panic(res.Panic)
	}
	r.Again()
	return r
}

func show(cs []string) string {
	var r []string
	for _, c := range cs {
		if len(c) > 300 {
			c = c[:300] + "..."
		}
		r = append(r, fmt.Sprintf("%q", c))
	}
	return strings.Join(r, " ")
}

func short(ws []string) []string {
	var r []string
	for _, w := range ws {
		if len(w) > 60 {
			w = w[:60] + "..."
		}
		r = append(r, w)
	}
	return r
}

func args(k Case) Out {
	m := mods[k.M]
	dir, drop := eng.Scratch()
	defer drop()
	e := world(dir, []module{m})
	if len(k.A) > 0 && k.A[0]%2 == 1 { // an interpreter with its own arguments
		e.Env.GetLayer(model.EnvLayerSession).Set("sys.ext.exec.py", "python3 -B  -s")
		e.Env.GetLayer(model.EnvLayerSession).Set("sys.ext.exec.sh", "bash --norc --noprofile")
	}
	in := []string{"vdump", ":", cmdOf(m)}
	var want []string
	for i, a := range m.args {
		v := def(a)
		if k.A[i] > 0 {
			v = vals[k.A[i]-1]
			switch {
			case i < k.P:
				in = append(in, v)
			case a.abbr != "" && k.A[i]%2 == 0:
				in = append(in, a.abbr+"="+v)
			default:
				in = append(in, a.name+"="+v)
			}
		}
		want = append(want, v)
	}
	r := e.Run(in...)
	ses := e.ses
	if m.nos {
		ses = ""
	}
	exp := []string{call(cmdOf(m), ses, want...)}
	if m.flow {
		exp = append([]string{"vm1"}, exp...)
	}
	got := calls(dir)
	if !r.OK || !Eq(got, exp) {
		return Bad("%q must start %s, started %s (%v %v)", short(in), show(exp), show(got), r.OK, r.Panic)
	}
	if ses == "" && !m.nos {
		return Bad("%q: there is no session directory", short(in))
	}
	return Out{Outcome: fmt.Sprintf("%s %v", cmdOf(m), k.A), States: []string{show(exp)}, Steps: len(exp)}
}

// values going in
func envIn(k Case) Out {
	dir, drop := eng.Scratch()
	defer drop()
	e := world(dir, []module{mods[0]})
	for i, x := range k.A {
		key := []string{"k.a", "k.b"}[i]
		switch {
		case x == 0:
		case k.P == 1:
			e.Env.GetLayer(model.EnvLayerDefault).Set(key, vals[x-1])
		case k.P == 2:
			e.Env.GetLayer(model.EnvLayerPersisted).Set(key, vals[x-1])
		default:
			e.Env.GetLayer(model.EnvLayerSession).Set(key, vals[x-1])
		}
	}
	r := e.Run("vdump", ":", "m0", ":", "vp")
	b, err := os.ReadFile(filepath.Join(dir, "env.m0"))
	d := fmt.Sprintf("k.a=%q k.b=%q (0: unset) set in layer %d, then a script", short([]string{val(k.A[0])}), short([]string{val(k.A[1])}), k.P)
	if !r.OK || err != nil {
		return Bad("%s: it fails: %v %v", d, r.Panic, err)
	}
	file := map[string]string{}
	for _, l := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
		p := strings.Index(l, "=")
		if p < 0 {
			return Bad("%s: bad line %q in the session's file", d, l)
		}
		file[l[:p]] = l[p+1:]
	}
	for n, v := range e.flat {
		if strings.HasPrefix(n, "sys.stack") || n == "sys.session.id" {
			continue
		}
		if strings.Contains(v, "\n") {
			continue
		}
		w, ok := file[n]
		if !ok || w != v {
			return Bad("%s: the session's file must hold %s=%q, holds %v %q", d, n, short([]string{v}), ok, short([]string{w}))
		}
	}
	for n := range file {
		if _, ok := e.flat[n]; !ok {
			return Bad("%s: the session's file holds %s", d, n)
		}
	}
	want := fmt.Sprintf("vp a=%q b=%q", val(k.A[0]), val(k.A[1]))
	if got := calls(dir); len(got) != 2 || got[1] != want {
		return Bad("%s: the next command must see %s, saw %s", d, show([]string{want}), show(got))
	}
	return Out{Outcome: fmt.Sprint(k.P, k.A), States: []string{d}, Steps: len(e.flat)}
}

// lines: a value of several lines, a long environment
func lines(k Case) Out {
	dir, drop := eng.Scratch()
	defer drop()
	e := world(dir, []module{mods[0]})
	v := []string{"one\ntwo", "one\n", "one\nk.b=two"}[k.A[0]]
	e.Env.GetLayer(model.EnvLayerSession).Set("k.a", v)
	r := e.Run("vp", ":", "m0", ":", "vp")
	want := fmt.Sprintf("vp a=%q b=\"\"", v)
	if got := calls(dir); !r.OK || len(got) != 3 || got[2] != want {
		return Bad("k.a=%q, then a script: the run must go on with the same value, ended with %v (%v) after %s", v, r.OK, r.Panic, show(got))
	}
	return Out{Outcome: "lines"}
}

// ---- how scripts are started ----

var extFiles = []string{"xa.bash", "xb.sh", "xc", "xd.xx", "xe.bash", "xf.r.xx"}

// form of setting, the extension and the runner
var extSets = []struct {
	words    []string
	ext, run string
}{
	{[]string{"sys.ext-executor", "ext=xx", "executor=R1"}, "xx", "R1"},
	{[]string{"sys.ext-exec", "bash", "R1"}, "bash", "R1"},
	{[]string{"sys.ext-exe", "exe=R1 -x  'y'", "ext=sh"}, "sh", "R1 -x  'y'"},
	{[]string{"sys.ext-executor", "xx", "R2 xx"}, "xx", "R2 xx"},
	{[]string{"sys.ext-executor", "XX", "R2"}, "XX", "R2"},
	{[]string{"env.set", "sys.ext.exec.xx", "R2 a b"}, "xx", "R2 a b"},
	{[]string{"sf"}, "xx", "R1"},
}

func exts(k Case) Out {
	dir, drop := eng.Scratch()
	defer drop()
	e := world(dir, nil)
	for _, f := range extFiles {
		p := filepath.Join(dir, "x", f)
		wr(p, fmt.Sprintf("{ printf 'CALL %s'; shift; for a in \"$@\"; do printf ' <%%s>' \"$a\"; done; printf '\\1'; } >> \"$W/log\"\n", f))
		e.Node(strings.ReplaceAll(f, ".", "-")).RegFileCmd(p, "h", "").AddArg("x", "d d")
	}
	// runners note themselves and their arguments in front of the file's
	for _, r := range []string{"R1", "R2"} {
		wr(filepath.Join(dir, r), "#!/bin/bash\n{ printf '"+r+"'; while [ \"${1:0:1}\" != / ]; do printf ' <%s>' \"$1\"; shift; done; printf ' '; } >> \"$W/log\"\nexec bash \"$@\"\n")
	}
	abs := func(s string) string { return strings.ReplaceAll(s, "R", filepath.Join(dir, "R")) }
	e.Flow("sf", abs("sys.ext-executor ext=xx executor=R1"))
	run := map[string]string{}
	in := []string{"vm1"}
	want := []string{"vm1"}
	for _, i := range k.S {
		in = append(in, ":")
		if i < len(extSets) {
			for _, w := range extSets[i].words {
				in = append(in, abs(w))
			}
			run[extSets[i].ext] = extSets[i].run
			continue
		}
		f := extFiles[i-len(extSets)]
		in = append(in, strings.ReplaceAll(f, ".", "-"))
		c := "CALL " + f + " <d d>"
		if j := strings.LastIndex(f, "."); j >= 0 && run[f[j+1:]] != "" {
			fs := strings.Fields(run[f[j+1:]])
			for x := 1; x < len(fs); x++ {
				fs[x] = "<" + fs[x] + ">"
			}
			c = strings.Join(fs, " ") + " " + c
		}
		want = append(want, c)
	}
	r := e.Run(in...)
	if got := calls(dir); !r.OK || !Eq(got, want) {
		return Bad("%q must run %s, ran %s (%v %v)", in, show(want), show(got), r.OK, r.Panic)
	}
	return Out{Outcome: fmt.Sprint(len(want)), States: want, Steps: len(want)}
}

func val(i int) string {
	if i == 0 {
		return ""
	}
	return vals[i-1]
}

// ---- sequences ----

// what a script does with the session's file
type act struct {
	name string
	text string
	do   func(s map[string]string)
	fail bool
}

func set(kv ...string) func(map[string]string) {
	return func(s map[string]string) {
		for i := 0; i < len(kv); i += 2 {
			s[kv[i]] = kv[i+1]
		}
	}
}

var acts = []act{
	{"one", `echo "k.a=1" >> "$E"`, set("k.a", "1"), false},
	{"both", `printf 'k.a= x  y=z \nk.b=\tt\n' >> "$E"`, set("k.a", " x  y=z ", "k.b", "\tt"), false},
	{"twice", `printf 'k.a=3\nk.a=4\n' >> "$E"`, set("k.a", "4"), false},
	{"del", `echo "k.a=--" >> "$E"`, func(s map[string]string) { delete(s, "k.a") }, false},
	{"redo", `printf 'k.a=--\nk.a=5\nk.b=--\n' >> "$E"`, func(s map[string]string) { s["k.a"] = "5"; delete(s, "k.b") }, false},
	{"empty", `printf 'k.b=\n' >> "$E"`, set("k.b", ""), false},
	{"noeol", `printf 'k.b="é;$x"' >> "$E"`, set("k.b", `"é;$x"`), false},
	{"cr", `printf 'k.b=x\r\nk.a=\r\n' >> "$E"`, set("k.b", "x\r", "k.a", "\r"), false},
	{"nothing", `:`, set(), false},
	{"rewrite", `printf 'k.b=6\n' > "$E"`, set("k.b", "6"), false},
	{"fail", `printf 'k.b=7\n' >> "$E"; exit 3`, nil, true},
	{"kill", `kill -TERM $$`, nil, true},
}

var tails = []string{"vp", "vs", "qf", "qn"} // natives, a flow of two scripts, a flow then a script

func items() int { return len(acts) + len(tails) }

// seqWorld: one script per action.
func seqMods() []module {
	var r []module
	for _, a := range acts {
		r = append(r, module{path: "w" + a.name + ".bash"})
	}
	return r
}

func seqs(k Case) Out {
	dir, drop := eng.Scratch()
	defer drop()
	ms := seqMods()
	ms = append(ms, module{path: "qn.bash", meta: "flow = wone : vp\n", flow: true})
	e := world(dir, ms)
	for _, a := range acts {
		wr(filepath.Join(dir, "act.w"+a.name), a.text+"\n")
	}
	wr(filepath.Join(dir, "act.qn"), `echo "k.b=n" >> "$E"`+"\n")
	e.Flow("qf", "wboth : wdel : vp")
	st := map[string]string{}
	if k.P > 0 {
		// values which are there from the start
		l := []model.EnvLayerType{model.EnvLayerSession, model.EnvLayerPersisted, model.EnvLayerDefault}[k.P-1]
		e.Env.GetLayer(l).Set("k.a", "p ")
		e.Env.GetLayer(l).Set("k.b", "q\r")
		st["k.a"], st["k.b"] = "p ", "q\r"
	}
	var want []string
	ok := true
	probe := func() { want = append(want, fmt.Sprintf("vp a=%q b=%q", st["k.a"], st["k.b"])) }
	script := func(n string, do func(map[string]string)) {
		want = append(want, "S "+n)
		for _, key := range []string{"k.a", "k.b"} {
			if v, has := st[key]; has && v != "" {
				want = append(want, key+"="+v)
			}
		}
		if do != nil {
			do(st)
		}
	}
	in := []string{"vdump"}
	for _, i := range k.S {
		in = append(in, ":")
		if i < len(acts) {
			a := acts[i]
			in = append(in, "w"+a.name)
			if ok {
				script("w"+a.name, a.do)
				ok = !a.fail
			}
			continue
		}
		t := tails[i-len(acts)]
		in = append(in, t)
		if !ok {
			continue
		}
		switch t {
		case "vp":
			probe()
		case "vs":
			st["k.a"] = "native"
		case "qf":
			script("wboth", acts[1].do)
			script("wdel", acts[3].do)
			probe()
		case "qn":
			script("wone", acts[0].do)
			probe()
			script("qn", set("k.b", "n"))
		}
	}
	in = append(in, ":", "vp")
	if ok {
		probe()
	}
	// every script also shows what it finds
	for _, m := range ms {
		p := filepath.Join(dir, "m", m.path)
		b, _ := os.ReadFile(p)
		n := cmdOf(m)
		wr(p, `{ printf 'S %s\1' `+n+`; for x in k.a k.b; do l=$(grep "^$x=" "$1/env"; echo .); l=${l%.}; l=${l%
}; [ -n "$l" ] && [ "$l" != "$x=" ] && printf '%s\1' "$l"; done; } >> "$W/log"
`+strings.Replace(string(b), "{ printf 'CALL", "false && { printf 'CALL", 1))
	}
	r := e.Run(in...)
	got := calls(dir)
	d := fmt.Sprintf("%q", in)
	if !Eq(got, want) {
		return Bad("%s must log %s, logged %s (%v %v)", d, show(want), show(got), r.OK, r.Panic)
	}
	if r.OK != ok {
		return Bad("%s must end with %v, ended with %v %v", d, ok, r.OK, r.Panic)
	}
	return Out{Outcome: fmt.Sprint(ok, len(want)), States: want, Steps: len(k.S)}
}

// ---- exit statuses through the real program ----

var exits = []struct {
	body string
	fail bool
}{
	{"exit 0", false}, {"exit 1", true}, {"exit 2", true}, {"exit 3", true}, {"exit 126", true}, {"exit 127", true}, {"exit 128", true}, {"exit 255", true},
	{"exit 256", false}, {"kill -TERM $$", true}, {"kill -KILL $$", true}, {"kill -USR1 $$", true}, {"kill -ALRM $$", true}, {"set -e; false", true}, {"no-such-command-x", true}, {"false; true", false}, {"if", true},
	{"exec 1>&- 2>&-", false}, {"head -c 200000 /dev/zero | tr '\\0' 'x'", false},
}

var shapes = [][]string{
	{"x"}, {"x", ":", "w"}, {"w", ":", "x"}, {"w", ":", "x", ":", "w"}, {"fx", ":", "w"}, {"gx", ":", "w"}, {"nx", ":", "w"},
}

func exits1(k Case) Out {
	b := eng.NewBox()
	defer b.Close()
	x := exits[k.E]
	log := `echo "$0 ran" | sed 's,.*/,,' >> "` + filepath.Join(b.Dir, "log") + `"` + "\n"
	b.Write("m/x.bash", log+x.body+"\n")
	b.Write("m/x.bash.ticat", "help = x\n")
	b.Write("m/w.bash", log)
	b.Write("m/w.bash.ticat", "help = w\n")
	b.Write("m/fx.tiflow", "flow = w : x : w\n")
	b.Write("m/gx.bash", log)
	b.Write("m/gx.bash.ticat", "flow = x\n")
	b.Write("m/nx.bash", log+x.body+"\n")
	b.Write("m/nx.bash.ticat", "flow = w\n")
	if c := b.Run("hub.add.local", filepath.Join(b.Dir, "m")); !c.OK() {
		return Bad("linking the directory fails: %s %s", c.Out, c.Err)
	}
	sh := shapes[k.S[0]]
	var want []string
	ok := true
	script := func(n string, fail bool) {
		if ok {
			want = append(want, n+".bash ran")
			ok = !fail
		}
	}
	for _, c := range sh {
		switch c {
		case "x":
			script("x", x.fail)
		case "w":
			script("w", false)
		case "fx":
			script("w", false)
			script("x", x.fail)
			script("w", false)
		case "gx":
			script("x", x.fail)
			script("gx", false)
		case "nx":
			script("w", false)
			script("nx", x.fail)
		}
	}
	c := b.Run(sh...)
	raw, _ := os.ReadFile(filepath.Join(b.Dir, "log"))
	var got []string
	for _, l := range strings.Split(string(raw), "\n") {
		if l != "" {
			got = append(got, l)
		}
	}
	d := fmt.Sprintf("%q where x runs %q", sh, x.body)
	if !Eq(got, want) {
		return Bad("%s: must run %q, ran %q", d, want, got)
	}
	if c.OK() != ok || c.Timeout {
		return Bad("%s: the program must end with success=%v, ended with status %d: %.500s %.500s", d, ok, c.RC, c.Out, c.Err)
	}
	return Out{Outcome: fmt.Sprint(ok), States: []string{d}, Steps: len(want)}
}

func exec(key string) Out {
	var k Case
	U(key, &k)
	switch k.T {
	case "arg":
		return args(k)
	case "env":
		return envIn(k)
	case "seq":
		return seqs(k)
	case "ext":
		return exts(k)
	case "line":
		return lines(k)
	}
	return exits1(k)
}

func gen(tier string, emit func(string)) {
	thorough := tier == "thorough"
	for mi, m := range mods {
		n := len(m.args)
		dims := make([]int, n)
		for i := range dims {
			dims[i] = len(vals) + 1
		}
		Prod(dims, func(t []int) {
			if n == 3 && !thorough && (t[0]+2*t[1]+3*t[2])%5 != 0 {
				return
			}
			for p := 0; p <= n; p++ {
				// either all by position (a prefix) or all by name
				given := 0
				for _, x := range t {
					if x > 0 {
						given++
					}
				}
				if p != 0 && p != given {
					continue
				}
				ok := true
				for i := 0; i < p; i++ {
					ok = ok && t[i] > 0 && !strings.Contains(vals[t[i]-1], "=")
				}
				if !ok || p > 0 && given == 0 {
					continue
				}
				emit(J(Case{T: "arg", M: mi, A: append([]int{}, t...), P: p}))
			}
		})
	}
	for p := 0; p < 3; p++ {
		Prod([]int{len(vals) + 1, len(vals) + 1}, func(t []int) {
			for _, x := range t {
				if x > 0 && vals[x-1] == "--" {
					return // (the mark of a deleted value)
				}
			}
			emit(J(Case{T: "env", A: append([]int{}, t...), P: p}))
		})
	}
	for i := 0; i < 3; i++ {
		emit(J(Case{T: "line", A: []int{i}}))
	}
	Seqs(len(extSets)+len(extFiles), 1, 3, func(s []int) {
		if s[len(s)-1] >= len(extSets) {
			emit(J(Case{T: "ext", S: append([]int{}, s...)}))
		}
	})
	n := 3
	Seqs(items(), 1, n, func(s []int) {
		emit(J(Case{T: "seq", S: append([]int{}, s...)}))
		for p := 1; p < 4 && (len(s) < 3 || thorough && (s[0]+s[1]+s[2])%3 == 0); p++ {
			emit(J(Case{T: "seq", S: append([]int{}, s...), P: p}))
		}
	})
	if thorough {
		Seqs(items(), 4, 4, func(s []int) {
			if (s[0]+s[1]+s[2]+s[3])%4 == 0 {
				emit(J(Case{T: "seq", S: append([]int{}, s...)}))
			}
		})
	}
	for e := range exits {
		for s := range shapes {
			emit(J(Case{T: "exit", E: e, S: []int{s}}))
		}
	}
}

func main() {
	eng.TicatMain(func(tc *ticat.TiCat) {})
	Main(Spec{ID: "P26", Level: "model_checking", CaseSec: 30, QuickSec: 300,
		Rule: "11 script modules (bash, sh, python, no extension, nested, without session, after a flow; 0 to 3 arguments) x every choice of 16 values or none per argument, by name, abbreviation or position; every pair of values in the environment in 3 layers; all sequences of up to 3 (thorough: part of 4) out of 16 items, part of them with values in 3 layers from the start (scripts writing, deleting, rewriting, failing, killed; natives; flows) with what every script and native finds; all sequences of up to 3 of 7 settings of a runner and 6 files by extension; 19 ways to exit in 7 positions through the real program; oracle: exact argument lists, the flattened environment, a map of values",
		Gen:  gen, Exec: exec})
}
