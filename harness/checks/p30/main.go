// P30: a sequence needing a missing operating-system command is refused before it runs.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"

	"verif/eng"
	. "verif/vlib"
)

// the leaf commands and the os-commands they declare
var leaf = map[string][]string{
	"nop":  nil,
	"dok":  {"vosok"},
	"dno":  {"vosno"},
	"dmix": {"vosok", "vosx"},
	"dtwo": {"vosok", "vosok2"},
	"sok":  {"vosok"}, // scripts
	"sno":  {"vosdir"},
	"wset": nil, // writes c=dno for the rest of the sequence
}

// what exists: name -> kind
var installed = map[string]bool{"vosok": true, "vosok2": true}

type item struct {
	text string
	leaf []string // leaves reached, with flows expanded
	own  []string // os-commands declared by the flow itself
	runs []string // what it logs when everything is installed
}

func leafItem(n string) item { return item{n, []string{n}, nil, []string{n}} }

var items = []item{
	leafItem("nop"), leafItem("dok"), leafItem("dno"), leafItem("dmix"), leafItem("dtwo"), leafItem("sok"), leafItem("sno"),
	{"{k=v} dno", []string{"dno"}, nil, []string{"dno"}},
	{"{k=v} dok", []string{"dok"}, nil, []string{"dok"}},
	{"F dok", []string{"nop", "dok"}, nil, []string{"nop", "dok"}},
	{"F dno", []string{"nop", "dno"}, nil, []string{"nop", "dno"}},
	{"FF dok", []string{"nop", "dok", "nop"}, nil, []string{"nop", "dok", "nop"}},
	{"FF dmix", []string{"nop", "dmix", "nop"}, nil, []string{"nop", "dmix", "nop"}},
	{"FFF dno", []string{"nop", "dno", "nop"}, nil, []string{"nop", "dno", "nop"}},
	{"{c=dno} Fk", []string{"dno"}, nil, []string{"dno"}},
	{"{c=dok} Fk", []string{"dok"}, nil, []string{"dok"}},
	{"Fdef", []string{"dok"}, nil, []string{"dok"}},
	{"Fdef dno", []string{"dno"}, nil, []string{"dno"}},
	{"Fownno", []string{"nop"}, []string{"vosno"}, []string{"nop"}},
	{"Fownok", []string{"nop"}, []string{"vosok"}, []string{"nop"}},
	{"N dok", []string{"dok"}, []string{"vosok"}, []string{"dok", "N"}},
	{"N dno", []string{"dno"}, []string{"vosok"}, []string{"dno", "N"}},
	{"Nno", []string{"dok"}, []string{"vosnx"}, []string{"dok", "Nno"}},
	{"repeat dok 2", []string{"dok"}, nil, []string{"dok", "dok"}},
	{"repeat dno 2", []string{"dno"}, nil, []string{"dno", "dno"}},
	{"dok %delay=1ms", []string{"dok"}, nil, []string{"dok"}},
	{"dno %delay=1ms", []string{"dno"}, nil, []string{"dno"}},
	{"dno %err=ok", []string{"dno"}, nil, []string{"dno"}},
	{"flow.forest-mode", nil, nil, nil},
	{"Fh", []string{"dno"}, nil, []string{"dno"}}, // head of the flow names the command of its inner flow
	{"flow.replace nop dno", nil, nil, nil},
	{"a2c dno : Fk", []string{"nop", "dno"}, nil, []string{"a2c", "dno"}},
	{"v2c : Fk", []string{"nop", "dno"}, nil, []string{"v2c", "dno"}},
}

type kase struct {
	S    []int
	Sess bool
	Tail string
}

// commands which only show or save the ones before them
var tails = []string{"desc", "desc.dependencies", "desc.more", "flow.save vsaved", "flow.save vsaved : desc"}

func gen(tier string, emit func(string)) {
	hi := 3
	Seqs(len(items), 1, 2, func(s []int) {
		for _, sess := range []bool{false, true} {
			emit(J(kase{append([]int{}, s...), sess, ""}))
		}
		if len(s) == 1 { // a trailing command which acts first, then the others run
			emit(J(kase{append([]int{}, s...), true, "+break.at.end"}))
		}
		for _, t := range tails {
			emit(J(kase{append([]int{}, s...), true, t}))
		}
	})
	Seqs(len(items), 3, hi, func(s []int) {
		if tier != "thorough" && (s[0]%2 != s[1]%2 || s[1] > 20) {
			return
		}
		emit(J(kase{append([]int{}, s...), false, ""}))
	})
}

func exec(key string) Out {
	var k kase
	U(key, &k)
	dir, drop := eng.Scratch()
	defer drop()
	path := filepath.Join(dir, "path")
	_ = os.MkdirAll(filepath.Join(path, "vosdir"), 0755)
	old := os.Getenv("PATH")
	for n := range installed {
		_ = os.WriteFile(filepath.Join(path, n), []byte("#!/bin/sh\n"), 0755)
	}
	_ = os.WriteFile(filepath.Join(path, "vosnx"), []byte("#!/bin/sh\n"), 0644) // not executable
	os.Setenv("PATH", path+":"+old)
	defer os.Setenv("PATH", old)
	e := eng.New(dir)
	if !k.Sess {
		e.Env.SetBool("sys.session.disable", true)
	}
	e.Env.Set("sys.bg.wait", "true")
	dep := func(c *model.Cmd, os []string) *model.Cmd {
		for _, d := range os {
			c.AddDepend(d, "needs "+d)
		}
		return c
	}
	fn := func(name string) *model.Cmd {
		return e.Power(name, func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
			e.FLog("%s", name)
			return idx, true
		})
	}
	for n, d := range leaf {
		if n[0] == 's' {
			dep(e.File(n, "echo "+n+" >> $TRACE"), d)
		} else {
			dep(fn(n), d)
		}
	}
	fn("a2c").AddArg("a", "").AddArg2Env("c", "a")
	fn("v2c").AddVal2Env("c", "dno")
	e.Flow("F", "nop : [[x]]").AddArg("x", "")
	e.Flow("FF", "F [[x]] : nop").AddArg("x", "")
	e.Flow("FFF", "FF [[x]]").AddArg("x", "")
	e.Flow("Fk", "[[c]]")
	e.Flow("Fh", "{c=dno} : Fk")
	e.Flow("Fdef", "[[x]]").AddArg("x", "dok")
	dep(e.Flow("Fownno", "nop"), []string{"vosno"})
	dep(e.Flow("Fownok", "nop"), []string{"vosok"})
	dep(e.FileNFlow("N", "echo N >> $TRACE", "[[x]]"), []string{"vosok"}).AddArg("x", "")
	dep(e.FileNFlow("Nno", "echo Nno >> $TRACE", "dok"), []string{"vosnx"})
	missing := map[string]bool{}
	var want, text []string
	repl := false
	for _, id := range k.S {
		it := items[id]
		text = append(text, it.text)
		if strings.HasPrefix(it.text, "flow.replace") {
			repl = true
			continue
		}
		for _, l := range it.leaf {
			if repl && l == "nop" {
				// the first nop after the rule
				l = "dno"
				repl = false
			}
			for _, d := range leaf[l] {
				if !installed[d] {
					missing[d] = true
				}
			}
		}
		for _, d := range it.own {
			if !installed[d] {
				missing[d] = true
			}
		}
		want = append(want, it.runs...)
	}
	for i, id := range k.S {
		if strings.HasPrefix(items[id].text, "flow.replace") && i > 0 {
			return Out{Trivial: true, Outcome: "left to P19"}
		}
	}
	line := strings.Join(text, " : ")
	if !k.Sess && len(missing) == 0 {
		for _, w := range want {
			if w[0] == 's' || w[0] == 'N' {
				return Out{Trivial: true, Outcome: "scripts need a session"}
			}
		}
	}
	if k.Tail == "+break.at.end" {
		if len(missing) == 0 {
			return Out{Trivial: true, Outcome: "would stop at the end"}
		}
		line += " : " + k.Tail[1:]
	} else if len(k.Tail) > 0 {
		line += " : " + k.Tail
		r := e.Run(strings.Fields(line)...)
		if got := e.FTrace(); len(got) != 0 || !r.OK || r.Panic != nil {
			return Bad("%s must not need anything installed: ran %q, succeeded %v, %v: %s", line, got, r.OK, r.Panic, e.Screen.Text()+e.Screen.Err())
		}
		return Out{Outcome: "only shown", Trans: []string{line}, Steps: len(k.S), Trivial: len(missing) == 0}
	}
	r := e.Run(strings.Fields(line)...)
	got := e.FTrace()
	desc := fmt.Sprintf("%q (session=%v)", line, k.Sess)
	shown := e.Screen.Text() + e.Screen.Err()
	if len(missing) > 0 {
		if len(got) != 0 || r.OK || r.Panic != nil {
			return Bad("%s needs %v which is not installed, yet ran %q (success=%v %v)", desc, missing, got, r.OK, r.Panic)
		}
		for d := range missing {
			if !strings.Contains(shown, "["+d+"]") {
				return Bad("%s needs %v which is not installed; the refusal does not name it: %s", desc, d, shown)
			}
		}
		for d := range installed {
			if strings.Contains(shown, "["+d+"]") {
				return Bad("%s: %s is installed, the refusal names it: %s", desc, d, shown)
			}
		}
		return Out{Outcome: fmt.Sprint("refused ", len(missing)), Trans: []string{line}, States: []string{fmt.Sprint(missing)}, Steps: len(k.S)}
	}
	if !r.OK {
		return Bad("%s: everything needed is installed, yet the run failed (%v): %s", desc, r.Panic, shown)
	}
	if strings.Contains(line, "%delay") {
		// a delayed command runs when it runs
		sort.Strings(got)
		sort.Strings(want)
	}
	if !Eq(got, want) {
		return Bad("%s: must run %q, ran %q", desc, want, got)
	}
	return Out{Outcome: "ran", Trans: []string{line}, Steps: len(got)}
}

func main() {
	Main(Spec{ID: "P30", Level: "model_checking", CaseSec: 20,
		Rule: "every sequence of up to 3 of 33 command forms (functions, scripts, flows nested 3 deep, flows with a script, commands chosen by templates from arguments, braces, flow heads, argument and value mappings, repeated, delayed, tolerated and injected ones) with installed, absent, non-executable and directory-named os-commands; refused with every missing name exactly when one is missing; the same followed by commands which only show or save them: never refused",
		Gen:  gen, Exec: exec})
}
