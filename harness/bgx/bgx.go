// Package bgx runs sequences with background commands on the real executor
// under the controlled scheduler.
package bgx

import (
	"fmt"
	"io"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	vs "github.com/innerr/ticat/pkg/verifsched"

	"verif/eng"
	"verif/sched"
	"verif/vlib"
)

// A program is a text, each letter one step of the main flow:
//
//	a b   start command a, b in the background   c   start a flow of two commands
//	f     start a failing command   t   the same, failure tolerated
//	x     a command in the foreground   X   a failing one
//	W     wait for all   L   for the latest   A B F   for a, b, f by name
//	o     don't wait at the end
//	n     a flow in the foreground which starts va in the background
var names = map[byte]string{'a': "va", 'b': "vb", 'c': "vc", 'f': "vf", 't': "vf", 'n': "va"}

// Task is a background command of a program.
type Task struct {
	Name   string
	Vk     string
	Fails  bool // and it isn't tolerated
	Starts []string
	Waited bool // by a command
}

// Model is what has to happen.
type Model struct {
	Tasks     []*Task
	WaitOf    map[int][]*Task // waited for at the step, in order
	Left      map[int][]*Task // listed after it
	End       []*Task         // waited for at the end
	MainFails bool
	NoWait    bool
}

func NewModel(prog string) (m Model) {
	m.WaitOf, m.Left = map[int][]*Task{}, map[int][]*Task{}
	live := func() (l []*Task) {
		for _, t := range m.Tasks {
			if !t.Waited {
				l = append(l, t)
			}
		}
		return
	}
	for i := 0; i < len(prog) && !m.MainFails; i++ {
		c := prog[i]
		vk := fmt.Sprint(i)
		switch c {
		case 'a', 'b', 'f', 't', 'n':
			n := names[c]
			m.Tasks = append(m.Tasks, &Task{Name: n, Vk: vk, Fails: c == 'f', Starts: []string{n}})
		case 'c':
			m.Tasks = append(m.Tasks, &Task{Name: "vc", Vk: vk, Starts: []string{"va", "vd"}})
		case 'X':
			m.MainFails = true
		case 'o':
			m.NoWait = true
		case 'W', 'L', 'A', 'B', 'F', 'C':
			l := live()
			var ws []*Task
			if c == 'W' {
				ws = l
			} else {
				for j := len(l) - 1; j >= 0; j-- {
					if c == 'L' || l[j].Name == "v"+strings.ToLower(string(c)) {
						ws = append(ws, l[j])
						break
					}
				}
			}
			for _, t := range ws {
				t.Waited = true
			}
			m.WaitOf[i] = ws
			m.Left[i] = live()
		}
	}
	if !m.NoWait {
		m.End = live()
	}
	return
}

// Listed is what is in the list after everything.
func (m Model) Listed() (l []*Task) {
	for _, t := range m.Tasks {
		if m.NoWait && !t.Waited {
			l = append(l, t)
		}
	}
	return
}

type Event struct {
	What string // start end | probe | out | title
	Name string
	N    int    // probe: number of the step; start: instance
	Env  string // start: what the command sees
	Stat []model.BgTaskInfo
}

type node struct {
	e    Event
	prev *node
}

type World struct {
	Prog   string
	last   *node
	Res    eng.Result
	E      *eng.Eng
	Chunks int
	Pad    int // the length of each piece, when not short
}

//go:norace
func (w *World) put(e Event) { w.last = &node{e, w.last} }

func (w *World) add(e Event) { vs.Quietly(func() { w.put(e) }) }

type out struct{ w *World }

// Write is what the user sees; it may take long.
func (o out) Write(p []byte) (int, error) {
	vs.Yield()
	o.w.add(Event{What: "out", Name: string(p)})
	vs.Yield()
	return len(p), nil
}

// Events are what happened, in order.
func (w *World) Events() (l []Event) {
	for n := w.last; n != nil; n = n.prev {
		l = append(l, n.e)
	}
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	return
}

// Line makes the input of the program.
func Line(prog string) (args []string) {
	put := func(ws ...string) {
		if len(args) > 0 {
			args = append(args, ":")
		}
		args = append(args, ws...)
	}
	for i := 0; i < len(prog); i++ {
		switch c := prog[i]; c {
		case 'a', 'b', 'c', 'f':
			// the forms of no delay at all
			put(fmt.Sprintf("{vk=%d}", i), names[c], []string{"%delay=0", "%delay=0.0", "%delay=0s", "%delay=0m0.0s"}[i%4])
		case 't':
			put(fmt.Sprintf("{vk=%d}", i), names[c], "%delay=0", "%err=ok")
		case 'n':
			put(fmt.Sprintf("{vk=%d}", i), "vn")
		case 'x':
			put("vx")
		case 'X':
			put("vX")
		case 'W':
			put("background.wait")
			put(fmt.Sprintf("vp%d", i))
		case 'L':
			put("background.wait.latest")
			put(fmt.Sprintf("vp%d", i))
		case 'A', 'B', 'F', 'C':
			put("background.wait.command", "v"+strings.ToLower(string(c)))
			put(fmt.Sprintf("vp%d", i))
		case 'o':
			put("background.wait.auto.off")
		}
	}
	return
}

// New makes a program ready to run. chunks is the number of pieces of output
// each background command writes.
func New(prog string, chunks int) *World {
	w := &World{Prog: prog, Chunks: chunks}
	if chunks >= 1000 { // length and number
		w.Chunks, w.Pad = chunks%10, chunks/10
	}
	return w
}

func (w *World) Run(dir string) {
	e := eng.New(dir)
	w.E = e
	e.CC.CmdIO.CmdStdout = out{w}
	e.Screen.OnPrint = func(t string) { w.add(Event{What: "screen", Name: t}) }
	body := func(name string, fail bool) eng.Fn {
		return func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
			w.add(Event{What: "start", Name: name, Env: env.GetRaw("vk") + "," + env.GetRaw("vset")})
			env.GetLayer(model.EnvLayerSession).Set("vset", name)
			for i := 0; i < w.Chunks; i++ {
				t := fmt.Sprintf("<%s.%s.%d>", name, env.GetRaw("vk"), i)
				if w.Pad > 0 {
					t += strings.Repeat("=", w.Pad)
				}
				switch i % 3 {
				case 0:
					cc.Screen.Print(t)
				case 1:
					io.WriteString(cc.CmdIO.CmdStdout, t)
				case 2:
					cc.Screen.Error(t)
				}
			}
			vs.Yield()
			w.add(Event{What: "end", Name: name, Env: env.GetRaw("vk")})
			if fail {
				panic(fmt.Errorf("failed-%s", name))
			}
			return idx, true
		}
	}
	e.Power("va", body("va", false))
	e.Power("vb", body("vb", false))
	e.Power("vf", body("vf", true))
	e.Power("vd", body("vd", false))
	e.Flow("vc", "va : vd")
	e.Flow("vn", "va %delay=0 : vq")
	e.Power("vq", func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
		w.add(Event{What: "x", Name: env.GetRaw("vset")})
		return idx, true
	})
	e.Power("vx", func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
		vs.Yield()
		w.add(Event{What: "x", Name: env.GetRaw("vset")})
		return idx, true
	})
	e.Power("vX", func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
		panic(fmt.Errorf("failed-main"))
	})
	for i := 0; i < len(w.Prog); i++ {
		i := i
		e.Power(fmt.Sprintf("vp%d", i), func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
			w.add(Event{What: "look"})
			w.add(Event{What: "probe", N: i, Stat: cc.BgTasks.GetStat()})
			return idx, true
		})
	}
	w.Res = e.Run(Line(w.Prog)...)
	w.add(Event{What: "look"})
	w.add(Event{What: "done", Stat: e.CC.BgTasks.GetStat()})
	// those nobody waited for must not stay behind in this process
	for {
		tid, t, ok := e.CC.BgTasks.GetEarliestTask()
		if !ok {
			return
		}
		t.WaitForFinish()
		e.CC.BgTasks.RemoveTask(tid)
	}
}

// Explore runs the program under every schedule.
func Explore(prog string, chunks, preemptions int, session bool, check func(w *World, err interface{}) string) (out vlib.Out) {
	mk := func() (func(), func(interface{}) string) {
		w := New(prog, chunks)
		dir, drop := "", func() {}
		if session {
			dir, drop = eng.Scratch()
		}
		return func() { w.Run(dir) }, func(err interface{}) string {
			defer drop()
			if err == sched.Hang {
				return "it hangs"
			}
			if err != nil {
				return fmt.Sprintf("it crashes: %v", err)
			}
			return check(w, err)
		}
	}
	n, d, bad, trace, complete := sched.Explore(mk, preemptions, 4000000)
	if bad != "" {
		return vlib.Bad("%q: %s\nthe schedule: %v", strings.Join(Line(prog), " "), bad, trace)
	}
	return vlib.Out{Outcome: fmt.Sprintf("%d schedules, complete %v", n, complete), Steps: d, Trivial: n < 2}
}

// Programs are the sequences of up to n steps, without those which are others
// in disguise.
func Programs(alphabet string, n int, emit func(p string)) {
	var rec func(p string)
	rec = func(p string) {
		if Starts(p) > 0 {
			emit(p)
		}
		if len(p) == n || strings.HasSuffix(p, "X") {
			return
		}
		for _, c := range alphabet {
			q := p + string(c)
			switch {
			case c == 'b' && !strings.ContainsAny(p, "an"):
				continue // a is b
			case c == 'x' && (Starts(p) == 0 || strings.HasSuffix(p, "x")):
				continue
			case c == 'o' && (strings.Contains(p, "o") || Starts(p) == 0):
				continue
			case c == 'X' && Starts(p) == 0:
				continue
			case strings.ContainsRune("WLABFC", c) && len(NewModel(p).Tasks) == 0:
				continue
			case strings.ContainsRune("ABFC", c) && len(named(p, c)) == 0 && strings.ContainsAny(p, "ABFC"):
				continue // one wait for a name which isn't there
			}
			rec(q)
		}
	}
	rec("")
}

func named(p string, c rune) (l []*Task) {
	for _, t := range NewModel(p).Tasks {
		if t.Name == "v"+strings.ToLower(string(c)) {
			l = append(l, t)
		}
	}
	return
}

// Starts is the number of background commands of a program.
func Starts(p string) int { return len(NewModel(p).Tasks) }
