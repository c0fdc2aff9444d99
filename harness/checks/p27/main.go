// P27: exit hooks run exactly once, for the right outcome, after everything
// else. Every case is a start of the real program.
package main

import (
	"fmt"
	"path/filepath"
	"strings"
	"time"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/ticat"

	"verif/eng"
	. "verif/vlib"
)

type Case struct {
	M int   // the run
	H []int // done, error, exit: 0 unset, else a kind of hook
	S int   // how the hooks are set
}

var ok = func(idx int) (int, bool) { return idx, true }

// register adds the commands of the runs and the hooks to the program.
func register(tc *ticat.TiCat) {
	add := func(n string, f func(idx int, env *model.Env, cmd model.ParsedCmd) (int, bool)) *model.Cmd {
		c := tc.Cmds.GetOrAddSub(strings.Split(n, ".")...).RegPowerCmd(
			func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
				eng.Observe(n)
				return f(idx, env, flow.Cmds[idx])
			}, "verif "+n)
		tc.Cmds.GetOrAddSub(strings.Split(n, ".")...).SetSource("verif-repo")
		return c
	}
	fine := func(idx int, env *model.Env, cmd model.ParsedCmd) (int, bool) { return idx, true }
	for _, n := range []string{"va", "vb", "hd", "he", "hx", "h2"} {
		add(n, fine)
	}
	add("vfalse", func(idx int, env *model.Env, cmd model.ParsedCmd) (int, bool) { return idx, false })
	add("vperr", func(idx int, env *model.Env, cmd model.ParsedCmd) (int, bool) { panic(fmt.Errorf("some error")) })
	add("vpcmd", func(idx int, env *model.Env, cmd model.ParsedCmd) (int, bool) {
		panic(model.NewCmdError(cmd, "some error"))
	})
	add("vpstr", func(idx int, env *model.Env, cmd model.ParsedCmd) (int, bool) { panic("some text") })
	add("vpnil", func(idx int, env *model.Env, cmd model.ParsedCmd) (int, bool) {
		var m map[string]int
		m["x"] = 1
		return idx, true
	})
	add("vneed", fine).AddEnvOp("k.none", model.EnvOpTypeRead)
	add("vdep", fine).AddDepend("no-such-program-x", "to run")
	slow := func(f func(idx int) (int, bool)) func(idx int, env *model.Env, cmd model.ParsedCmd) (int, bool) {
		return func(idx int, env *model.Env, cmd model.ParsedCmd) (int, bool) {
			time.Sleep(150 * time.Millisecond)
			eng.Observe("slow end")
			return f(idx)
		}
	}
	add("vslow", slow(ok))
	add("vslowfalse", slow(func(idx int) (int, bool) { return idx, false }))
	add("vslowperr", slow(func(idx int) (int, bool) { panic(fmt.Errorf("late error")) }))
}

// run: an input, what its commands log, whether it succeeds, whether it is
// recorded in a session (otherwise there are no hooks).
type run struct {
	in   string
	want string
	ok   bool
	nos  bool
	ref  bool // refused before its first command
	any  bool // the order inside the run is free
}

var runs = []run{
	{in: "va", want: "va", ok: true},
	{in: "va : vb", want: "va vb", ok: true},
	{in: "vfalse : va", want: "vfalse"},
	{in: "va : vperr : vb", want: "va vperr"},
	{in: "vpcmd", want: "vpcmd"},
	{in: "va : vpstr", want: "va vpstr"},
	{in: "vpnil : va", want: "vpnil"},
	{in: "sx : va", want: "sx"},
	{in: "so : va", want: "so va", ok: true},
	{in: "fl : va", want: "va vfalse"},
	{in: "va : f2 : vb", want: "va va vb vperr"},
	{in: "f3 : vb", want: "va vb vb vb", ok: true},
	{in: "vperr %err=ok : va", want: "vperr va", ok: true},
	{in: "fl %err=ok : vb", want: "va vfalse vb", ok: true},
	{in: "va : sx %err=ok", want: "va sx", ok: true},
	{in: "vslow %delay=1ms : va", want: "vslow|va", ok: true, any: true},
	{in: "vslowfalse %delay=1ms : va", want: "vslowfalse|va", any: true},
	{in: "vslowperr %delay=1ms : va", want: "vslowperr|va", any: true},
	{in: "vslow %delay=1ms : va : vfalse", want: "vslow|va vfalse", any: true},
	{in: "vslow %delay=1ms : va : vperr", want: "vslow|va vperr", any: true},
	{in: "vslow %delay=1ms : f2", want: "vslow|va vb vperr", any: true},
	{in: "va : no.such.command", want: "", nos: true},
	{in: "va : vneed", ref: true},
	{in: "va : vdep", ref: true},
	{in: "sn : vb", want: "sn va vb", ok: true},
	{in: "snx : vb", want: "snx vfalse"},
	{in: "va : sn2", want: "va sn2 va vb va vb", ok: true},
	{in: "env.ls", want: "", ok: true, nos: true},
	{in: "va : ", want: "va", ok: true},
}

// kinds of hooks: for hook k the input word, what it logs
var hooks = []struct {
	word func(k string) string
	want func(k string) string
	fail bool
}{
	{func(k string) string { return "" }, func(k string) string { return "" }, false},
	{func(k string) string { return "h" + k }, func(k string) string { return "h" + k }, false},
	{func(k string) string { return "hf" + k }, func(k string) string { return "h" + k + " h2" }, false},
	{func(k string) string { return "hs" + k }, func(k string) string { return "hs" + k }, false},
	{func(k string) string { return "hg" + k }, func(k string) string { return "h" + k + " vfalse" }, true},
	{func(k string) string { return "hp" + k }, func(k string) string { return "h" + k + " vperr" }, true},
}

var keys = []string{"d", "e", "x"}
var names = []string{"done", "error", "exit"}

func exec(key string) Out {
	var k Case
	U(key, &k)
	b := eng.NewBox()
	defer b.Close()
	r := runs[k.M]
	script := func(n, body string) {
		b.Write("m/"+n+".bash", "echo "+n+" >> \"$VERIF_OUT\"\n"+body+"\n")
		b.Write("m/"+n+".bash.ticat", "help = "+n+"\n")
	}
	script("sx", "exit 3")
	script("so", ":")
	script("sn", `"`+b.Bin+`" "{session=$1}" va >/dev/null`)
	script("snx", `"`+b.Bin+`" "{session=$1}" vfalse >/dev/null`)
	script("sn2", `for i in 1 2; do "`+b.Bin+`" "{session=$1}" va : vb >/dev/null; done`)
	b.Write("m/fl.tiflow", "flow = va : vfalse : vb\n")
	b.Write("m/f2.tiflow", "flow = va : f4\n")
	b.Write("m/f4.tiflow", "flow = vb : vperr : vb\n")
	b.Write("m/f3.tiflow", "flow = va : f5 : vb\n")
	b.Write("m/f5.tiflow", "flow = vb\n")
	for _, x := range keys {
		script("hs"+x, ":")
		b.Write("m/hf"+x+".tiflow", "flow = h"+x+" : h2\n")
		b.Write("m/hg"+x+".tiflow", "flow = h"+x+" : vfalse : h2\n")
		b.Write("m/hp"+x+".tiflow", "flow = h"+x+" : vperr : h2\n")
	}
	b.Write("ticat.data/hub/repos.hub", "<local>\t\t"+filepath.Join(b.Dir, "m")+"\thelp\ton\n")
	var in, braces []string
	saved, pre := "", ""
	for i, h := range k.H {
		w := hooks[h].word(keys[i])
		if w == "" {
			continue
		}
		switch k.S {
		case 0: // by command, before the run
			in = append(in, "hook."+names[i], w, ":")
		case 1: // in braces
			braces = append(braces, "sys.event.hook."+names[i]+"="+w)
		case 2: // in the saved environment
			saved += "sys.event.hook." + names[i] + "=" + w + "\n"
		}
	}
	if saved != "" {
		b.Write("ticat.data/bootstrap.env", saved)
	}
	if braces != nil {
		in = append(in, strings.Fields("{"+strings.Join(braces, " ")+"} : va :")...)
		if !r.ref && !(r.nos && !r.ok) {
			pre = "va "
		}
	}
	in = append(in, strings.Fields(r.in)...)
	var want []string
	failed := false
	hook := func(i int) {
		h := hooks[k.H[i]]
		if w := h.want(keys[i]); w != "" && !failed {
			want = append(want, w)
		}
		failed = failed || h.fail
	}
	if !r.nos && !(r.ref && k.S == 0) {
		if r.ok {
			hook(0)
		} else {
			hook(1)
		}
		if !failed {
			hook(2)
		}
	}
	ran := b.Run(in...)
	got := b.Out()
	d := fmt.Sprintf("%q (saved hooks: %q)", in, saved)
	desc := func() string { return fmt.Sprintf("logged %q, status %d", got, ran.RC) }
	body := strings.Join(got, " ")
	tail := strings.Join(want, " ")
	main := r.want
	match := false
	if r.any {
		// the background command starts at any time, ends before the hooks
		p := strings.Split(main, "|")
		var start, end = -1, -1
		var rest []string
		for i, g := range got {
			switch {
			case g == p[0] && start < 0:
				start = i
			case g == "slow end" && end < 0:
				end = i
			default:
				rest = append(rest, g)
			}
		}
		hooksAt := len(got) - len(strings.Fields(tail))
		match = start >= len(strings.Fields(pre)) && end > start && end < hooksAt &&
			strings.Join(rest, " ") == strings.TrimSpace(pre+p[1]+" "+tail)
	} else {
		match = body == strings.TrimSpace(pre+main+" "+tail)
	}
	if !match && failed {
		// a failing hook: the exit hook may come after it
		t := tail
		if h := hooks[k.H[2]].want("x"); h != "" && !strings.HasSuffix(t, h) {
			match = body == strings.TrimSpace(pre+main+" "+t+" "+h)
		}
	}
	if !match {
		return Bad("%s: must log %q and then the hooks %q, %s: %.400s %.400s", d, main, tail, desc(), ran.Out, ran.Err)
	}
	good := r.ok && !failed
	if ran.OK() != good || ran.Timeout {
		return Bad("%s: must end with success=%v, %s: %.400s %.400s", d, good, desc(), ran.Out, ran.Err)
	}
	if strings.Contains(ran.Err, "goroutine ") {
		return Bad("%s: the program crashed: %.600s", d, ran.Err)
	}
	return Out{Outcome: fmt.Sprintf("ok=%v failing hook=%v hooks=%v session=%v", r.ok, failed, k.H, !r.nos), States: []string{body}, Steps: 1 + len(want)}
}

func gen(tier string, emit func(string)) {
	for m := range runs {
		for s := 0; s < 3; s++ {
			Prod([]int{4, 4, 4}, func(h []int) {
				n := 0
				for _, x := range h {
					if x > 0 {
						n++
					}
				}
				if tier != "thorough" && !(h[0] <= 1 && h[1] <= 1 && h[2] <= 1) && (m+s+h[0]+2*h[1]+3*h[2])%8 != 0 {
					return
				}
				if s == 2 && m >= 24 && m <= 26 {
					return // saved hooks are for every start of the program
				}
				if s == 1 && m == 27 {
					return // (braces make it a sequence)
				}
				if s == 0 && n > 0 && m == 27 {
					return
				}
				emit(J(Case{m, append([]int{}, h...), s}))
			})
			for _, h := range [][]int{{4, 1, 1}, {1, 4, 1}, {1, 1, 4}, {5, 0, 1}, {1, 5, 1}, {1, 1, 5}, {5, 5, 5}, {4, 5, 0}} {
				if m != 27 && !(s == 2 && m >= 24 && m <= 26) && (tier == "thorough" || s == 0) {
					emit(J(Case{m, h, s}))
				}
			}
		}
	}
}

func main() {
	eng.TicatMain(register)
	Main(Spec{ID: "P27", Level: "model_checking", CaseSec: 60, QuickSec: 300,
		Rule: "29 runs (success, every kind of failure and crash, in scripts, flows, background commands and tolerated, refused before starting, calling the program again inside) x hooks for done, error and exit (none, command, flow, script, two failing kinds) x 3 ways to set them (thorough: all combinations), each one start of the real program; the log of all commands and hooks and the exit status are compared",
		Gen:  gen, Exec: exec})
}
