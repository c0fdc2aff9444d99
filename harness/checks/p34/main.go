// P34: a line with any parse error runs nothing.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"

	"verif/eng"
	. "verif/vlib"
)

// commands of a line; each is a list of words
var good = []string{
	"qa", "qarg x y", "qarg n1=x n2=y", "qT", "qF", "qd.qe", "{k=v} qa", "qa %delay=1ms", "qa %err", "qsave",
	"env.save", "qN", "blender.replace.once qa qarg", "forest", "qdirect", "bg.after-main.wait", "",
}

var bad = []string{
	"nosuch", "qa.nosuch", "qd.nosuch", "qd.qe.nosuch", "nosuch.qa", "qnoarg x", "qarg x y z", "qarg {n1=x", "qarg n3=x y z",
	"qd.qe x", "qa b c", "{k=v", "{k} qa", "qT x", "qF x", "qa %nosuch=1", "@nosuch", "qd nosuch", "xqa", "qarg n1=x n2=y n3=z", "} qa",
	"qd. nosuch", "nosuch {k=v}", "{k=v} nosuch", "qN x",
}

var heads = []string{"", "{k=h} : ", ": "}

type kase struct {
	C []string
	H string
	T int  // tokenisation of the words
	S bool // sessions off
}

func gen(tier string, emit func(string)) {
	n := 0
	add := func(c []string, h string) {
		n++
		if tier == "thorough" {
			for t := 0; t < 3; t++ {
				emit(J(kase{append([]string{}, c...), h, t, n%2 == 0}))
			}
			return
		}
		emit(J(kase{append([]string{}, c...), h, n % 3, n%5 == 0}))
	}
	for _, h := range heads {
		for _, b := range bad {
			add([]string{b}, h)
			for _, g := range good {
				add([]string{g, b}, h)
				add([]string{b, g}, h)
			}
			for _, b2 := range bad {
				add([]string{b, b2}, h)
			}
		}
	}
	gs := good
	hs := heads
	if tier != "thorough" {
		hs = heads[:1]
	}
	for _, h := range hs {
		for _, b := range bad {
			for _, g := range gs {
				for _, g2 := range gs {
					add([]string{g, g2, b}, h)
					add([]string{g, b, g2}, h)
					add([]string{b, g, g2}, h)
				}
			}
		}
	}
	// sanity of the alphabet: every good pair does run
	for _, g := range good {
		for _, g2 := range good {
			add([]string{g, g2}, "")
		}
	}
}

func words(k kase) (w []string) {
	line := k.H + strings.Join(k.C, " : ")
	switch k.T {
	case 0:
		return strings.Fields(line)
	case 1: // separators glued
		return strings.Fields(strings.ReplaceAll(line, " : ", ": "))
	}
	return []string{line}
}

func exec(key string) Out {
	var k kase
	U(key, &k)
	dir, drop := eng.Scratch()
	defer drop()
	e := eng.New(dir)
	mark := func(name string) *model.Cmd {
		return e.Power(name, func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
			e.FLog("%s", name)
			return idx, true
		})
	}
	mark("qa")
	mark("qarg").AddArg("n1", "").AddArg("n2", "")
	mark("qnoarg")
	mark("qd.qe")
	mark("qr")
	e.Power("qsave", func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
		e.FLog("qsave")
		env.GetLayer(model.EnvLayerSession).Set("k", "saved")
		return idx, true
	})
	e.File("qT", "echo qT >> $TRACE")
	e.FileNFlow("qN", "echo qN >> $TRACE", "qa")
	e.Flow("qF", "qa : qd.qe")
	e.Node("qdirect").RegCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
		e.FLog("qdirect")
		return true
	}, "d", "")
	envFile := filepath.Join(dir, "envfile")
	_ = os.WriteFile(envFile, []byte("old=1\n"), 0644)
	if k.S {
		e.Env.SetBool("sys.session.disable", true)
	}
	e.Env.Set("sys.bg.wait", "true")
	e.Env.Set("strs.env-file-name", "envfile")
	w := words(k)
	isBad := false
	for _, c := range k.C {
		for _, b := range bad {
			isBad = isBad || c == b
		}
	}
	n := len(k.C)
	if n >= 2 && k.C[n-2] == "" || n == 1 && k.H == ": " {
		return Out{Trivial: true, Outcome: "left to P21"}
	}
	empty := true
	for _, c := range k.C {
		empty = empty && c == ""
	}
	r := e.Run(append([]string{}, w...)...)
	got := e.FTrace()
	desc := fmt.Sprintf("input %q", w)
	if !isBad {
		return Out{Trivial: true, Outcome: fmt.Sprint("good ", r.OK)}
	}
	if len(got) != 0 {
		return Bad("%s has a command that cannot be parsed, yet these ran: %v", desc, got)
	}
	if r.OK {
		return Bad("%s has a command that cannot be parsed, yet the run reports success; shown: %s", desc, e.Screen.Text())
	}
	if b, _ := os.ReadFile(envFile); string(b) != "old=1\n" {
		return Bad("%s has a command that cannot be parsed, yet the saved environment changed to %q", desc, b)
	}
	if e.Env.GetRaw("k") == "saved" {
		return Bad("%s: a command took effect", desc)
	}
	// nothing of the refused line reaches the next one
	e.Again()
	e.Env.Set("sys.stack-depth", "0")
	r = e.Run("qr", ":", "qa")
	got = e.FTrace()
	if !Eq(got, []string{"qr", "qa"}) {
		return Bad("%s was refused; the next line \"qr : qa\" must run [qr qa], ran %v (ok=%v %v)", desc, got, r.OK, r.Panic)
	}
	return Out{Outcome: "refused " + k.C[0], States: []string{fmt.Sprint(k.H, k.C)}, Trans: []string{fmt.Sprint(w)}, Steps: len(k.C)}
}

func main() {
	Main(Spec{ID: "P34", Level: "model_checking", CaseSec: 15,
		Rule: "every line of up to 3 commands (17 parsable kinds, 25 unparsable ones) with an unparsable one at every position, under 3 heads and 3 tokenisations; nothing may run, the run must fail, the saved environment stay and the next line run as usual; trivial for lines without an unparsable command and tail-mode forms",
		Gen:  gen, Exec: exec})
}
