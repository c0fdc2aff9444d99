// P39: a tail-mode call (words, an empty command, a command) does what the
// command does when the words are given to it as arguments.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"github.com/innerr/ticat/pkg/core/model"
	meta "github.com/innerr/ticat/pkg/mods/persist/hub_meta"

	"verif/eng"
	. "verif/vlib"
)

// how many words a command takes, and what they are
type cmd struct {
	name string
	many bool // any number of words, all of them are searched for
	voc  []string
	conf bool // asks for a confirmation
}

var (
	cmds  = []string{"qa", "qd", "qd.qe", "zzz", "q", "hot", "Cool", "is", "a b"}
	keys  = []string{"k0", "k2.s", "zzz", "k2", "display.width", "qb.key", "K"}
	flows = []string{"f.s", "f.t", "zzz", "f", "qa", "text"}
	repos = []string{"h/one", "two", "zzz", "h", "one", "local", "enabled"}
	paths = []string{"local", "mods", "zzz", "hub", "local/sub", "./local", "flows2"}
	sess  = []string{"SID1", "qa", "zzz", "qfail", "SID2", "q", "x"}
)

var all = []cmd{
	{"find", true, cmds, false}, {"/", true, cmds, false}, {"find.more", true, cmds, false}, {"//", true, cmds, false},
	{"find.full", true, cmds, false}, {"///", true, cmds, false},
	{"tag", true, cmds, false}, {"tag.more", true, cmds, false}, {"tag.full", true, cmds, false},
	{"cmd", false, cmds, false}, {"cmd.full", false, cmds, false}, {"cmds.tree", false, cmds, false},
	{"env", true, keys, false}, {"env.ls", true, keys, false}, {"env.rm", false, keys, false}, {"env.who-write", false, keys, false},
	{"flow.ls", true, flows, false}, {"flow.rm", false, flows, true}, {"flow.load", false, paths, false},
	{"hub", true, repos, false}, {"hub.add", false, repos, false}, {"hub.enable", false, repos, false}, {"hub.disable", false, repos, false},
	{"hub.purge", false, repos, false}, {"hub.add.local", false, paths, false},
	{"sessions", true, sess, false}, {"sessions.err", true, sess, false}, {"sessions.done", true, sess, false}, {"sessions.remove.find", true, sess, false},
}

type kase struct {
	C int
	W []int
	D int // how many of the words are given directly
}

func gen(tier string, emit func(string)) {
	for c, x := range all {
		n := len(x.voc)
		Seqs(n, 0, 2, func(w []int) { emitDs(c, w, emit) })
		if tier != "thorough" {
			n = 4
		}
		Seqs(n, 3, 3, func(w []int) { emitDs(c, w, emit) })
		if tier == "thorough" {
			Seqs(4, 4, 4, func(w []int) { emitDs(c, w, emit) })
		}
	}
}

func emitDs(c int, w []int, emit func(string)) {
	for d := 0; d <= len(w); d++ {
		if d == len(w) && d > 0 {
			continue // the direct call itself
		}
		emit(J(kase{c, append([]int{}, w...), d}))
	}
}

func setup(dir string) *eng.Eng {
	e := eng.New(dir)
	mark := func(name string) *model.Cmd {
		return e.Power(name, func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
			e.FLog("%s", name)
			return idx, name != "qfail"
		})
	}
	mark("qa")
	mark("qb").AddArg("n1", "").AddArg2Env("qb.key", "n1").AddEnvOp("k", model.EnvOpTypeWrite)
	mark("qd.qe")
	mark("qd")
	mark("qfail")
	e.Node("qd").AddTags("hot", "Cool")
	e.Node("qa").AddTags("hot")
	e.Env.Set("strs.env-file-name", "envfile")
	e.Env.Set("sys.hub.init-repo", "")
	e.Env.Set("k0", "is")
	e.Env.Set("k2.s", "two")
	return e
}

// the files every run starts with; @D is the place of the directory
var (
	once    sync.Once
	fixture map[string]string
	ids     []string
)

func files(dir string) map[string]string {
	r := map[string]string{}
	_ = filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			b, _ := os.ReadFile(p)
			r[strings.TrimPrefix(p, dir+"/")] = strings.ReplaceAll(string(b), dir, "@D")
		}
		return nil
	})
	return r
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func build() {
	dir, drop := eng.Scratch()
	defer drop()
	for p, t := range map[string]string{
		"flows/f.s.tiflow": "help = text one\nflow = qa\n", "flows/f.t.tiflow": "help = two\nflow = qa : qd\ntag = hot\n",
		"flows2/g.tiflow": "flow = qa\n", "local/m.sh": "echo", "local/m.sh.ticat": "help = is local\n", "local/sub/n.sh": "echo",
		"local/sub/n.sh.ticat": "help = zzz\n", "mods/hub.ticat": "h/one\n",
		"envfile": "k0 = is\nold = 1\n",
	} {
		must(os.MkdirAll(filepath.Dir(filepath.Join(dir, p)), 0755))
		must(os.WriteFile(filepath.Join(dir, p), []byte(t), 0644))
	}
	hub := filepath.Join(dir, "hub")
	for _, n := range []string{"one", "two"} {
		must(os.MkdirAll(filepath.Join(hub, n, ".git"), 0755))
		must(os.WriteFile(filepath.Join(hub, n, n+".sh"), []byte("echo"), 0755))
		must(os.WriteFile(filepath.Join(hub, n, n+".sh.ticat"), []byte("help = of "+n+"\n"), 0644))
		must(os.WriteFile(filepath.Join(hub, n, ".git", "x"), nil, 0644))
	}
	meta.WriteReposInfoFile(hub, filepath.Join(hub, "repos.hub"), []meta.RepoInfo{
		{Addr: meta.RepoAddr{Addr: "h/one"}, AddReason: "<builtin>", Path: filepath.Join(hub, "one"), HelpStr: "first", OnOff: "on"},
		{Addr: meta.RepoAddr{Addr: "h/two"}, AddReason: "h/one", Path: filepath.Join(hub, "two"), HelpStr: "second", OnOff: "disabled"},
		{AddReason: "<local>", Path: filepath.Join(dir, "mods"), HelpStr: "mine", OnOff: "on"},
	}, "\t")
	for i, l := range []string{"qa : qb x", "qa : qfail"} {
		e := setup(dir)
		e.Run(strings.Fields(l)...)
		ds, _ := os.ReadDir(filepath.Join(dir, "sessions"))
		for _, d := range ds {
			if d.IsDir() && !strings.HasSuffix(d.Name(), "SID") {
				id := fmt.Sprintf("20200102-03040%d", i)
				must(os.Rename(filepath.Join(dir, "sessions", d.Name()), filepath.Join(dir, "sessions", id+".SID")))
				ids = append(ids, id)
			}
		}
	}
	fixture = map[string]string{}
	for p, t := range files(dir) {
		fixture[strings.Replace(p, ".SID/", "/", 1)] = t
	}
}

var times = regexp.MustCompile(`[0-9][0-9:. -]*(ms|us|µs|s|m|h)\b|[0-9]{8}-[0-9]{6}\S*`)

// look runs a line on a fresh copy of the fixture.
func look(line []string) (out, after string, ok bool, pan string) {
	dir, drop := eng.Scratch()
	defer drop()
	for p, t := range fixture {
		must(os.MkdirAll(filepath.Dir(filepath.Join(dir, p)), 0755))
		must(os.WriteFile(filepath.Join(dir, p), []byte(strings.ReplaceAll(t, "@D", dir)), 0755))
	}
	must(os.Chdir(dir))
	e := setup(dir)
	bin := filepath.Join(dir, "bin")
	must(os.MkdirAll(bin, 0755))
	must(os.WriteFile(filepath.Join(bin, "git"), []byte("#!/bin/sh\necho \"$@\" >> "+dir+"/git.log\nexit 0\n"), 0755))
	must(os.Setenv("PATH", bin+":/usr/bin:/bin"))
	r := e.Run(append([]string{}, line...)...)
	env := e.Env.Flatten(false, []string{"session", "sys.session", "sys.stack", "sys.paths", "display.", "sys.ext", "sys.version", "strs."}, true)
	var ks []string
	for k, v := range env {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	fs := files(dir)
	var l []string
	for p, t := range fs {
		if strings.HasPrefix(p, "bin/") {
			continue
		}
		if strings.HasPrefix(p, "sessions/") {
			if _, old := fixture[p]; !old {
				continue
			}
		}
		l = append(l, p+": "+t)
	}
	sort.Strings(l)
	out = strings.ReplaceAll(e.Screen.Text()+e.Screen.Err(), dir, "@D")
	after = strings.ReplaceAll(strings.Join(ks, "\n"), dir, "@D") + "\n" + strings.Join(l, "\n")
	if r.Panic != nil {
		pan = strings.ReplaceAll(fmt.Sprint(r.Panic), dir, "@D")
	}
	return times.ReplaceAllString(out, "T"), after, r.OK, pan
}

func word(s string) string {
	for i, id := range ids {
		s = strings.ReplaceAll(s, fmt.Sprintf("SID%d", i+1), id)
	}
	return s
}

func run(key string) Out {
	once.Do(build)
	var k kase
	U(key, &k)
	c := all[k.C]
	var ws []string
	for _, i := range k.W {
		ws = append(ws, word(c.voc[i]))
	}
	tail := ws[:len(ws)-k.D]
	given := ws[len(ws)-k.D:]
	line := append(append([]string{}, tail...), ":", ":", c.name)
	line = append(line, given...)
	direct := append(append([]string{c.name}, given...), tail...)
	o1, a1, ok1, p1 := look(line)
	if !c.many && len(ws) > 1 && (c.name != "env.rm" || len(given) > 1) {
		_, a0, _, _ := look([]string{"dummy"})
		if ok1 || p1+o1 == "" {
			return Bad("%q: two words are given to a command which takes one, not refused: ok=%v\n%s", line, ok1, o1)
		}
		if a1 != a0 {
			return Bad("%q: refused (%s), and changed something:\n%s\n%s", line, p1, diff(a0, a1), diff(a1, a0))
		}
		return Out{Outcome: "refused", States: []string{c.name, strings.Join(ws, " ")}, Steps: 2}
	}
	if c.name == "env.rm" && len(ws) > 1 { // one after the other
		direct = nil
		for i, w := range append(append([]string{}, tail...), given...) {
			if i > 0 {
				direct = append(direct, ":")
			}
			direct = append(direct, c.name, w)
		}
	}
	o2, a2, ok2, p2 := look(direct)
	if ok1 != ok2 || ok1 && o1 != o2 || (p1+o1 == "") != (p2+o2 == "") || a1 != a2 {
		return Bad("%q and %q differ: ok=%v/%v, errors %q/%q\noutput 1\n%s\noutput 2\n%s\nafter 1 %s\nafter 2 %s", line, direct, ok1, ok2, p1, p2, o1, o2, diff(a2, a1), diff(a1, a2))
	}
	return Out{Outcome: fmt.Sprint(c.name, " ok=", ok1), States: []string{c.name + o1 + a1}, Trans: []string{strings.Join(line, " ")}, Steps: 2}
}

func diff(a, b string) string {
	m := map[string]bool{}
	for _, l := range strings.Split(a, "\n") {
		m[l] = true
	}
	var r []string
	for _, l := range strings.Split(b, "\n") {
		if !m[l] {
			r = append(r, "  "+l)
		}
	}
	return strings.Join(r, "\n")
}

func main() {
	Main(Spec{ID: "P39", Level: "model_checking", CaseSec: 30, Rule: "29 commands x every list of up to 2 of 7-9 words and of 3 (thorough 4) of 4 x every split between the words before and after the command, each on a fresh copy of a fixture of commands, values, flows, repositories and sessions; oracle: the direct call", Gen: gen, Exec: run})
}
