// P21: asking about a sequence never runs it; trailing commands move to the front.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"

	"verif/eng"
	. "verif/vlib"
)

// commands that ask about the sequence, or about the commands
var asks = []string{
	"find", "find qa", "/", "/ qa", "find.more qa", "// qa", "find.full qa", "/// qa", "find zzz",
	"cmds", "cmds qd", "cmds.more qd", "cmds.full qd", "cmds tag=hot",
	"tail-sub", "~", "~ qe", "~~", "~~~", "tail-sub.more", "tail-sub.full", "~ depth=1",
	"=", "==", "===",
	"desc", "-", "--", "---", "desc.more", "+", "++", "+++", "desc.full", "desc.dep", "desc.env-ops", "desc.flow", "desc.flow.more", "desc.flow.full",
	"desc depth=1", "desc.full unfold=2", "+ depth=0",
}

// only by an empty command before them
var emptyAsks = []string{"cmds.tree", "cmds.tree qd"}

// ask about one command, given with an empty command in between
var oneAsks = []string{"cmd", "cmd.full", "tag", "tag.more", "env.who-write", "env.ls", "env", "hub", "flow.ls", "sessions", "env.ls z"}

// what is asked about
var items = []string{
	"qa", "qb x", "qF", "qN", "qT", "qd.qe", "{k=v} qa", "qa %delay=1ms", "qF %delay=1ms", "qT %err=ok", "qsave", "env.save", "qfail", "qneed",
	"qdep", "env.reset", "env.clean", "flow.save qnew", "flow.rm qF", "qrepeat", "forest", "blender.replace.once qa qb", "bg.after-main.wait",
	"join.new k v1,v2", "join.run cmd=qa", "qG", "hub.clear", "env.rm k", "qP", "sleep 1ms", "qa %b", "env.clear-and-save",
}

var places = []string{"end", "empty", "front", "glued", "trail"}

type kase struct {
	C []int
	A string
	P string
	H string // head
	K string // kind: ask, one, prio
}

func gen(tier string, emit func(string)) {
	n := 0
	heads := []string{"", "{k=h} : ", ": ", "{k=h} "}
	for _, a := range append(append([]string{}, asks...), emptyAsks...) {
		for pi, p := range places {
			if strings.HasPrefix(a, "cmds.tree") && p != "empty" && p != "front" {
				continue
			}
			Seqs(len(items), 1, 2, func(c []int) {
				n++
				if tier != "thorough" && len(c) == 2 && n%29 != 0 {
					return
				}
				emit(J(kase{append([]int{}, c...), a, p, heads[(n/7)%len(heads)], "ask"}))
			})
			if tier == "thorough" {
				Seqs(len(items), 3, 3, func(c []int) {
					n++
					if n%71 == 0 {
						emit(J(kase{append([]int{}, c...), a, p, heads[(n/7)%len(heads)], "ask"}))
					}
				})
			}
			_ = pi
		}
		// two asking commands
		for bi, b := range asks {
			for i := range items {
				n++
				if tier != "thorough" && n%31 != 0 {
					continue
				}
				emit(J(kase{[]int{i}, a + " : " + b, "end", "", "ask"}))
				emit(J(kase{[]int{i, (i + bi) % len(items)}, a + " : " + b, "end", "", "ask"}))
			}
		}
	}
	for _, a := range oneAsks {
		for i := range items {
			for _, h := range []string{"", "{k=h} "} {
				emit(J(kase{[]int{i}, a, "empty", h, "one"}))
			}
		}
	}
	// trailing commands that do not end the run
	tails := []string{" : P1", " : P2", " : : P1", " : : qb", " : P1 : P2", " : P2 : P1", " : P1 : P2 : P1", " : P1 : : P2", " : P1 : : qb", " : : P1 : P2", " : qb : P1", " : P1 : qb", " : P1 :", " : P1 : :", " : : P1 : qb", " : P1 : P1", " : : : P1"}
	for ti := range tails {
		Seqs(len(runs), 1, 3, func(c []int) {
			n++
			if tier != "thorough" && len(c) == 3 && n%3 != 0 {
				return
			}
			for hi, h := range []string{"", "{k=h} : ", "{k=h} "} {
				if hi == 2 && runs[c[0]] == "{k=v} qa" {
					continue
				}
				emit(J(kase{append([]int{}, c...), tails[ti], "", h, "prio"}))
			}
		})
	}
}

var runs = []string{"qa", "qb", "qF", "{k=v} qa", "qd.qe", "qG", "P1", "P2"}

func tree(dir string) string {
	var r []string
	_ = filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() && fi.Name() == "sessions" {
			return filepath.SkipDir // the record of the asking command itself
		}
		if fi.IsDir() {
			r = append(r, p+"/")
		} else {
			b, _ := os.ReadFile(p)
			r = append(r, p+"="+string(b))
		}
		return nil
	})
	sort.Strings(r)
	return strings.Join(r, "\n")
}

func setup(dir string) *eng.Eng {
	e := eng.New(dir)
	mark := func(name string) *model.Cmd {
		return e.Power(name, func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
			e.FLog("%s k=%s", name, env.GetRaw("k"))
			return idx, true
		})
	}
	mark("qa")
	mark("qb").AddArg("n1", "").AddArg2Env("qb.key", "n1")
	mark("qd.qe")
	mark("qd")
	mark("P1").SetPriority()
	mark("P2").SetPriority()
	mark("qneed").AddEnvOp("never.set", model.EnvOpTypeRead)
	mark("qdep").AddDepend("no-such-os-command-verif", "for nothing")
	e.Power("qfail", func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
		e.FLog("qfail")
		return idx, false
	})
	e.Power("qsave", func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
		e.FLog("qsave")
		env.GetLayer(model.EnvLayerSession).Set("k", "saved")
		return idx, true
	})
	e.File("qT", "echo \"qT k=\" >> $TRACE")
	e.FileNFlow("qN", "echo \"qN k=\" >> $TRACE", "qa", "qd.qe")
	e.Flow("qF", "qa : qd.qe")
	e.Flow("qG", "qF : {k=g} qb x : qa")
	e.Flow("qP", "qa : desc")
	e.Flow("qrepeat", "repeat cmd=qa times=2")
	e.TC.Cmds.GetSub("qd").AddTags("hot")
	e.Env.Set("sys.bg.wait", "true")
	e.Env.Set("strs.env-file-name", "envfile")
	_ = os.WriteFile(filepath.Join(dir, "envfile"), []byte("old=1\n"), 0644)
	_ = os.WriteFile(filepath.Join(dir, "flows", "qsaved.tiflow"), []byte("help = x\nflow = qa\n"), 0644)
	return e
}

func exec(key string) Out {
	var k kase
	U(key, &k)
	dir, drop := eng.Scratch()
	defer drop()
	e := setup(dir)
	if k.K == "prio" {
		return prio(e, k)
	}
	var cs []string
	for _, i := range k.C {
		cs = append(cs, items[i])
	}
	line := k.H + strings.Join(cs, " : ")
	switch k.P {
	case "end":
		line += " : " + k.A
	case "empty":
		line += " : : " + k.A
	case "glued":
		line = strings.ReplaceAll(line, " : ", ":") + ":" + k.A
	case "trail":
		line += " : : : " + k.A
	case "front":
		line = k.A + " : " + line
	}
	if last := cs[len(cs)-1]; k.P == "front" && (strings.HasPrefix(last, "flow.save") || k.H == ": ") {
		return Out{Trivial: true, Outcome: "another trailing command is last"}
	}
	before := tree(dir)
	w := strings.Fields(line)
	r := e.Run(append([]string{}, w...)...)
	after := tree(dir)
	desc := fmt.Sprintf("input %q", w)
	if got := e.FTrace(); len(got) > 0 {
		return Bad("%s: only asks about the sequence, but ran %q", desc, got)
	}
	if before != after {
		return Bad("%s: only asks about the sequence, but changed files:\n%s\n->\n%s", desc, diff(before, after), diff(after, before))
	}
	if n := len(e.CC.BgTasks.GetStat()); n != 0 {
		return Bad("%s: only asks about the sequence, but started %d background tasks", desc, n)
	}
	if e.Env.GetRaw("k") == "saved" {
		return Bad("%s: only asks, but the sequence changed a value", desc)
	}
	return Out{Outcome: fmt.Sprintf("%s ok=%v", k.K, r.OK), Steps: 1, States: []string{line}}
}

func diff(a, b string) string {
	m := map[string]bool{}
	for _, l := range strings.Split(b, "\n") {
		m[l] = true
	}
	var r []string
	for _, l := range strings.Split(a, "\n") {
		if !m[l] {
			r = append(r, l)
		}
	}
	return strings.Join(r, "\n")
}

// order of a line: a trailing command applies to all before it
func order(cmds []string) []string {
	if len(cmds) <= 1 {
		return cmds
	}
	trim := func(c []string) []string {
		for len(c) > 0 && c[len(c)-1] == "" {
			c = c[:len(c)-1]
		}
		return c
	}
	last := cmds[len(cmds)-1]
	switch {
	case cmds[len(cmds)-2] == "":
		return append([]string{last}, order(trim(cmds[:len(cmds)-2]))...)
	case last == "P1" || last == "P2":
		return append([]string{last}, order(trim(cmds[:len(cmds)-1]))...)
	}
	return cmds
}

func prio(e *eng.Eng, k kase) Out {
	var cs []string
	for _, i := range k.C {
		cs = append(cs, runs[i])
	}
	line := strings.Join(cs, " : ") + k.A
	cmds := strings.Split(line, ":")
	for i := range cmds {
		cmds[i] = strings.TrimSpace(cmds[i])
	}
	ord := order(cmds)
	w := strings.Fields(k.H + line)
	r := e.Run(append([]string{}, w...)...)
	got := e.FTrace()
	desc := fmt.Sprintf("input %q", w)
	kv := ""
	if k.H != "" {
		kv = "h"
	}
	// braces of the first written command belong to the sequence
	if strings.HasPrefix(cs[0], "{") && k.H == "" {
		kv = "v"
	}
	var want []string
	n := 0
	for _, c := range ord {
		if c == "" {
			continue
		}
		n++
		switch c {
		case "qF":
			want = append(want, "qa k="+kv, "qd.qe k="+kv)
		case "qG":
			want = append(want, "qa k="+kv, "qd.qe k="+kv, "qb k=g", "qa k="+kv)
		case "{k=v} qa":
			want = append(want, "qa k=v")
		default:
			want = append(want, c+" k="+kv)
		}
	}
	// a single plain command applied with an empty one is refused
	if n == 2 && len(cmds) >= 2 && cmds[len(cmds)-2] == "" && ord[0] != "" && ord[0] != "P1" && ord[0] != "P2" {
		if r.OK && k.H == "{k=h} : " {
			// braces alone count as a command: more than one is asked about
			if !Eq(got, want) {
				return Bad("%s: must run %q, ran %q", desc, want, got)
			}
			return Out{Outcome: "ran"}
		}
		if r.OK || len(got) > 0 {
			return Bad("%s: must be refused, %v ran %q", desc, r, got)
		}
		return Out{Outcome: "refused"}
	}
	if last := cmds[len(cmds)-1]; last == "" && len(cmds) >= 2 && cmds[len(cmds)-2] == "" {
		// the empty command moved to the front: nothing changes
	}
	if !r.OK {
		return Bad("%s: the run failed: %v %v", desc, r, r.Panic)
	}
	if !Eq(got, want) {
		return Bad("%s: must run %q, ran %q", desc, want, got)
	}
	return Out{Outcome: "ran", Steps: len(got), Trans: []string{strings.Join(got, ";")}}
}

func main() {
	Main(Spec{ID: "P21", Level: "model_checking", CaseSec: 20, QuickSec: 300,
		Rule: "42 asking commands x 5 placements x every sequence of up to 2 (thorough: some of 3) of 32 forms with every kind of effect (functions, scripts, flows, background, saved files, rules, modes, hub), pairs of asking commands, single commands given to 11 tail-mode commands; every sequence of up to 3 of 9 forms with 17 trailing shapes for the order; oracle: no command runs and no file changes, or the order of the trailing commands",
		Gen:  gen, Exec: exec})
}
