// P08: a crash, or a failing system call, at any point of a save leaves the
// old or the new content, and the next start and the next save work.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	meta "github.com/innerr/ticat/pkg/mods/persist/hub_meta"
	"github.com/innerr/ticat/pkg/ticat"

	"verif/crash"
	"verif/eng"
	. "verif/vlib"
)

type Case struct {
	A int // what is done
	W int // the world before
	T int // torn writes: 0 a few, 1 every byte
	F int // 1: failing calls instead of crashes
}

// vdump logs everything that is saved as the next start sees it, as "category line".
func register(tc *ticat.TiCat) {
	add := func(n string, f func(cc *model.Cli, env *model.Env)) {
		tc.Cmds.GetOrAddSub(n).RegPowerCmd(
			func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
				f(cc, env)
				return idx, true
			}, "verif "+n)
		tc.Cmds.GetOrAddSub(n).SetSource("verif-repo")
	}
	add("va", func(cc *model.Cli, env *model.Env) {})
	add("vb", func(cc *model.Cli, env *model.Env) {})
	add("vdump", func(cc *model.Cli, env *model.Env) {
		ks, vs := env.GetLayer(model.EnvLayerPersisted).Pairs()
		for i, k := range ks {
			if !strings.HasPrefix(k, "sys.") && !strings.HasPrefix(k, "display.") && !strings.HasPrefix(k, "strs.") {
				eng.Observe(fmt.Sprintf("env %s=%q", k, vs[i].Raw))
			}
		}
		dir := env.GetRaw("sys.paths.hub")
		infos, _ := meta.ReadReposInfoFile(dir, filepath.Join(dir, env.GetRaw("strs.repos-file-name")), true, env.GetRaw("strs.proto-sep"))
		for i, r := range infos {
			eng.Observe(fmt.Sprintf("hub %d %q", i, r))
		}
		for _, n := range []string{"m1c", "m2c", "m3c", "m9c"} {
			if c := cc.Cmds.GetSub(n); c != nil && c.Cmd() != nil {
				eng.Observe("hub command " + n)
			}
		}
		for _, n := range []string{"f1", "f2", "f9"} {
			if c := cc.Cmds.GetSub(n); c != nil && c.Cmd() != nil {
				eng.Observe(fmt.Sprintf("flow %s %q %q", n, c.Cmd().FlowStrs(), c.Cmd().Help()))
			}
		}
		for _, n := range []string{"s1", "s2", "s9"} {
			p := filepath.Join(env.GetRaw("sys.paths.env.snapshot"), n+env.GetRaw("strs.env-snapshot-ext"))
			if _, err := os.Stat(p); err == nil {
				e := model.NewEnvEx(model.EnvLayerSession)
				model.LoadEnvFromFile(e, p, env.GetRaw("strs.env-kv-sep"), "--")
				ks, vs := e.Pairs()
				for i, k := range ks {
					if !strings.HasPrefix(k, "sys.") && !strings.HasPrefix(k, "display.") {
						eng.Observe(fmt.Sprintf("snap %s %s=%q", n, k, vs[i].Raw))
					}
				}
				eng.Observe("snap " + n)
			}
		}
	})
}

var long = strings.Repeat("long value ", 40)

// worlds before the save
var worlds = []struct {
	env  string
	hub  []string
	flow map[string]string
	snap map[string]string
}{
	{},
	{env: "a.x=1\nb=2\n", hub: []string{"m1 on"}, flow: map[string]string{"f1": "va : vb"}, snap: map[string]string{"s1": "a.x=1\n"}},
	{env: "a.x=1\nb=" + long + "\nc.d.e= sp\n", hub: []string{"m1 on", "m2 disabled", "m4 disabled"}, flow: map[string]string{"f1": "vb : va : vb : va"}, snap: map[string]string{"s1": "b=" + long + "\nz=1\n", "s2": "q=1\n"}},
	{env: "b=2\n", hub: []string{"m2 disabled", "m1 on"}},
}

type action struct {
	in   string
	cat  string
	need int // worlds where it makes sense: bits
}

var actions = []action{
	{"env.set a.x 9 : env.save", "env", 15},
	{"env.set new v : env.set b 77 : env.set n2 w : env.save", "env", 15},
	{"{b=5} va : env.save : vb", "env", 15},
	{"env.set a.x " + strings.ReplaceAll(long, " ", "_") + " : env.save", "env", 15},
	{"env.rm b : env.save", "env", 14},
	{"env.clear-and-save", "env", 14},
	{"env.snapshot.save s1", "snap", 15},
	{"env.set k v : env.snapshot.save s1", "snap", 15},
	{"env.snapshot.save s2", "snap", 15},
	{"env.snapshot.remove s1", "snap", 6},
	{"hub.add.local DIR/m3", "hub", 15},
	{"hub.add.local DIR/m2", "hub", 15},
	{"hub.disable m1", "hub", 14},
	{"hub.enable m2", "hub", 12},
	{"hub.purge m2", "hub", 12},
	{"hub.purge.all", "hub", 12},
	{"hub.clear", "hub", 15},
	{"va : vb : flow.save cmd=f1 quiet-overwrite=true", "flow", 15},
	{"va : vb : va : va : vb : va : flow.save f2", "flow", 15},
	{"flow.set-help-str f1 words", "flow", 6},
	{"flow.rename f1 f2", "flow", 6},
	{"flow.remove f1", "flow", 6},
	{"flow.clear", "flow", 7},
}

// the saves afterwards and what they add
var next = map[string]struct {
	in   string
	adds func(b *eng.Box) []string
}{
	"env":  {"env.set v9 ok : env.save", func(b *eng.Box) []string { return []string{`env v9="ok"`} }},
	"snap": {"env.snapshot.save s9", nil},
	"hub":  {"hub.add.local DIR/m9", nil},
	"flow": {"va : flow.save f9", func(b *eng.Box) []string { return []string{`flow f9 ["va"] ""`} }},
}

func words(b *eng.Box, in string) []string {
	var ws []string
	for _, w := range strings.Fields(in) {
		ws = append(ws, strings.ReplaceAll(w, "DIR", b.Dir))
	}
	return ws
}

func dump(b *eng.Box) (cats map[string][]string, ran eng.Ran) {
	b.Out()
	ran = b.Run("vdump", ":", "vb")
	cats = map[string][]string{}
	for _, l := range b.Out() {
		c := strings.SplitN(l, " ", 2)[0]
		cats[c] = append(cats[c], l)
	}
	for _, c := range cats {
		sort.Strings(c)
	}
	return
}

func exec(key string) Out {
	var k Case
	U(key, &k)
	b := eng.NewBox()
	defer b.Close()
	w, a := worlds[k.W], actions[k.A]
	for _, m := range []string{"m1", "m2", "m3", "m4", "m9"} {
		b.Write(m+"/"+m+"c.tiflow", "flow = va\n")
	}
	if w.env != "" {
		b.Write("ticat.data/bootstrap.env", w.env)
	}
	conf := "false"
	if strings.Contains(a.in, "quiet-overwrite") {
		conf = "true" // (it only works when confirmations are on)
	}
	b.Write("ticat.data/bootstrap.env", b.Read("ticat.data/bootstrap.env")+"sys.confirm.ask="+conf+"\n")
	hub := ""
	for _, h := range w.hub {
		f := strings.Fields(h)
		hub += "\t<local>\t" + b.Path(f[0]) + "\thelp text\t" + f[1] + "\n"
	}
	if hub != "" {
		b.Write("ticat.data/hub/repos.hub", hub)
	}
	for n, f := range w.flow {
		b.Write("ticat.data/flows/"+n+".tiflow", "help = some help\nflow = "+f+"\n")
	}
	for n, s := range w.snap {
		b.Write("ticat.data/env/"+n+".env", s)
	}
	if len(w.snap) == 0 {
		_ = os.MkdirAll(b.Data("env"), 0755)
	}
	root := b.Data()
	start := crash.Load(root)
	old, ran := dump(b)
	if !ran.OK() {
		return Bad("the first start fails: %.400s %.400s", ran.Out, ran.Err)
	}
	start.Store(root)
	before, ops, ran := crash.Trace(b, root, words(b, a.in)...)
	if !ran.OK() {
		return Bad("%q fails: %.400s %.400s", a.in, ran.Out, ran.Err)
	}
	done, ran := dump(b)
	if !ran.OK() {
		return Bad("the start after %q fails: %.400s %.400s", a.in, ran.Out, ran.Err)
	}
	outcomes := map[string]int{}
	var states []string
	steps := 0
	// judge looks at the files as they are now
	judge := func(what func() string, mustNew bool) *Out {
		steps++
		cats, ran := dump(b)
		if !ran.OK() {
			o := Bad("%q, %s: the next start fails: %.400s %.400s", a.in, what(), ran.Out, ran.Err)
			return &o
		}
		for _, c := range []string{"env", "hub", "flow", "snap"} {
			isOld, isNew := Eq(cats[c], old[c]), Eq(cats[c], done[c])
			if mustNew {
				isOld = isNew
			}
			if !isOld && !isNew {
				o := Bad("%q, %s: the next start sees %q, old %q, new %q", a.in, what(), cats[c], old[c], done[c])
				return &o
			}
			if c == a.cat {
				switch {
				case isOld && isNew:
					outcomes["same"]++
				case isOld:
					outcomes["old"]++
				default:
					outcomes["new"]++
				}
			}
		}
		// the next save of the same kind
		n := next[a.cat]
		if r := b.Run(words(b, n.in)...); !r.OK() {
			o := Bad("%q, %s: the next save %q fails: %.400s %.400s", a.in, what(), n.in, r.Out, r.Err)
			return &o
		}
		after, ran := dump(b)
		if !ran.OK() {
			o := Bad("%q, %s: the start after the next save %q fails: %.400s %.400s", a.in, what(), n.in, ran.Out, ran.Err)
			return &o
		}
		for _, c := range []string{"env", "hub", "flow", "snap"} {
			want := append([]string{}, cats[c]...)
			var got []string
			for _, l := range after[c] {
				switch {
				case c == a.cat && strings.Contains(l, "9c"), c == a.cat && strings.Contains(l, "/m9"), c == a.cat && strings.HasPrefix(l, "snap s9"), c == a.cat && strings.HasPrefix(l, "flow f9"), c == a.cat && strings.HasPrefix(l, "env v9"):
				default:
					got = append(got, l)
				}
			}
			if c == a.cat && len(got) == len(after[c]) {
				o := Bad("%q, %s: the next save %q has no effect: %q", a.in, what(), n.in, after[c])
				return &o
			}
			if n.adds != nil && c == a.cat {
				for _, x := range n.adds(b) {
					found := false
					for _, l := range after[c] {
						found = found || l == x
					}
					if !found {
						o := Bad("%q, %s: the next save %q should add %q: %q", a.in, what(), n.in, x, after[c])
						return &o
					}
				}
			}
			if strings.Join(got, "\n") != strings.Join(want, "\n") {
				o := Bad("%q, %s: the next save %q changes %q to %q", a.in, what(), n.in, want, after[c])
				return &o
			}
		}
		return nil
	}
	if k.F == 0 {
		seen := map[string]bool{}
		t := before.Clone()
		try := func(t crash.Tree, what func() string) *Out {
			if key := t.Key("sessions"); seen[key] {
				return nil
			} else {
				seen[key] = true
				states = append(states, fmt.Sprint(len(seen)))
			}
			t.Store(root)
			return judge(what, false)
		}
		for i, o := range ops {
			at := fmt.Sprintf("killed before change %d of %d (%s)", i+1, len(ops), o)
			if x := try(t, func() string { return at }); x != nil {
				return *x
			}
			if o.Kind == "write" && !strings.HasPrefix(o.Path, "sessions/") {
				cuts := map[int]bool{1: true, len(o.Data) / 2: true, len(o.Data) - 1: true}
				for n := 1; n < len(o.Data); n++ {
					if k.T == 0 && !cuts[n] {
						continue
					}
					c := t.Clone()
					c.Apply(o, n)
					if x := try(c, func() string {
						return fmt.Sprintf("killed after %d of %d bytes in change %d of %d (%s)", n, len(o.Data), i+1, len(ops), o)
					}); x != nil {
						return *x
					}
				}
			}
			t.Apply(o, -1)
		}
		at := "killed after the last change"
		if x := try(t, func() string { return at }); x != nil {
			return *x
		}
	} else {
		// every changing call on the saved files fails once
		var paths []string
		has := map[string]bool{}
		n := map[string]int{}
		for _, o := range ops {
			for _, p := range []string{o.Path, o.To} {
				if p != "" && !strings.HasPrefix(p, "sessions") && !has[p] {
					has[p] = true
					paths = append(paths, p)
				}
			}
			if !strings.HasPrefix(o.Path, "sessions") {
				n[o.Kind]++
			}
		}
		sysc := map[string]string{"create": "openat", "trunc": "openat", "write": "write", "rename": "renameat", "unlink": "unlinkat", "mkdir": "mkdirat"}
		if len(paths) == 0 {
			return Out{Outcome: "no change", Trivial: true}
		}
		for kind, cnt := range n {
			for i := 1; i <= cnt; i++ {
				for _, errno := range []string{"ENOSPC", "EIO"} {
					before.Store(root)
					wrap := []string{"strace", "-f", "-o", "/dev/null"}
					for _, p := range paths {
						wrap = append(wrap, "-P", filepath.Join(root, p))
					}
					flags := sysc[kind]
					if flags == "openat" {
						continue // (reads as well)
					}
					b.Wrap = append(wrap, "-e", fmt.Sprintf("inject=%s:error=%s:when=%d", flags, errno, i), "--")
					r := b.Run(words(b, a.in)...)
					b.Wrap = nil
					if r.Timeout || strings.Contains(r.Err, "goroutine ") {
						return Bad("%q with %s number %d failing with %s crashes: %.400s %.600s", a.in, flags, i, errno, r.Out, r.Err)
					}
					if x := judge(func() string {
						return fmt.Sprintf("%s number %d failing with %s (status %d)", flags, i, errno, r.RC)
					}, r.OK()); x != nil {
						return *x
					}
					outcomes[fmt.Sprintf("fails=%v", !r.OK())]++
				}
			}
		}
	}
	return Out{Outcome: fmt.Sprintf("%s %v changed=%v", a.cat, outcomes, !Eq(old[a.cat], done[a.cat])), States: states, Steps: steps}
}

func gen(tier string, emit func(string)) {
	for a, x := range actions {
		for w := range worlds {
			if x.need&(1<<w) == 0 {
				continue
			}
			if tier == "thorough" {
				emit(J(Case{a, w, 1, 0}))
				emit(J(Case{a, w, 0, 1}))
			} else {
				emit(J(Case{a, w, 0, 0}))
				if w == 1 || w == 2 && a%2 == 0 || x.need&2 == 0 {
					emit(J(Case{a, w, 0, 1}))
				}
			}
		}
	}
}

func main() {
	eng.TicatMain(register)
	Main(Spec{ID: "P08", Level: "fault_enumeration", CaseSec: 280, QuickSec: 300,
		Rule: "23 saving commands on 4 worlds run once under strace; for every prefix of their changing system calls (and within writes: quick 3 cuts, thorough every byte) the data directory is rebuilt, the real program started on it, and the next save made; each changing call is also made to fail. That the recorded calls explain the real files is checked each time",
		Gen:  gen, Exec: exec})
}
