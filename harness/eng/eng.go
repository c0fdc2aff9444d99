// Package eng runs the real ticat engine in process, with every path inside a
// scratch directory and all its screen output captured.
package eng

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/innerr/ticat/pkg/core/execute"
	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/ticat"
)

// Screen captures what the engine prints.
type Screen struct {
	mu  sync.Mutex
	b   strings.Builder
	e   strings.Builder
	cnt int
	// OnPrint is called (outside the lock) for every piece of output.
	OnPrint func(text string)
}

func (s *Screen) Print(t string) {
	s.mu.Lock()
	s.b.WriteString(t)
	s.cnt++
	s.mu.Unlock()
	if s.OnPrint != nil {
		s.OnPrint(t)
	}
}

func (s *Screen) Error(t string) {
	s.mu.Lock()
	s.e.WriteString(t)
	s.cnt++
	s.mu.Unlock()
}

func (s *Screen) OutputtedLines() int { s.mu.Lock(); defer s.mu.Unlock(); return s.cnt }
func (s *Screen) Text() string        { s.mu.Lock(); defer s.mu.Unlock(); return s.b.String() }
func (s *Screen) Err() string         { s.mu.Lock(); defer s.mu.Unlock(); return s.e.String() }
func (s *Screen) Reset() {
	s.mu.Lock()
	s.b.Reset()
	s.e.Reset()
	s.cnt = 0
	s.mu.Unlock()
}

type Eng struct {
	TC     *ticat.TiCat
	CC     *model.Cli
	Env    *model.Env // session layer
	Screen *Screen
	Dir    string // scratch dir holding hub, sessions, flows ... ("" when none)

	mu    sync.Mutex
	trace []string
}

// New builds a ready engine: only builtin commands, no bootstrap side effects.
// dir may be "" when the case touches no file (sessions are then disabled).
func New(dir string) *Eng {
	e := &Eng{TC: ticat.NewTiCat(), Screen: &Screen{}, Dir: dir}
	e.TC.SetScreen(e.Screen)
	e.Env = e.TC.Env
	e.TC.Cmds.AddSub("vcap-verif").RegPowerCmd(
		func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
			e.CC = cc
			return idx, true
		}, "capture").SetQuiet()
	s := e.Env.GetLayer(model.EnvLayerSession)
	s.Set("sys.bootstrap", "vcap-verif")
	s.SetBool("sys.interact.inside", true)
	e.TC.RunCli("vcap-verif")
	e.CC.FlowStatus = nil
	s.Delete("sys.interact.inside")
	s.Delete("sys.stack")
	s.Set("sys.stack-depth", "0")
	s.SetBool("display.executor", false)
	s.SetBool("display.color", false)
	s.SetBool("sys.confirm.ask", false)
	if dir == "" {
		s.SetBool("sys.session.disable", true)
	} else {
		for k, v := range map[string]string{
			"sys.paths.hub":          "hub",
			"sys.paths.cache":        "cache",
			"sys.paths.env.snapshot": "env",
			"sys.paths.data":         "",
			"sys.paths.data.shared":  "shared",
			"sys.paths.flows":        "flows",
			"sys.paths.sessions":     "sessions",
		} {
			p := filepath.Join(dir, v)
			_ = os.MkdirAll(p, 0755)
			s.Set(k, p)
		}
	}
	// The bootstrap flow: one harmless command.
	s.Set("sys.bootstrap", "vcap-verif")
	return e
}

// Node returns (creating it when needed) the command node at the dotted path.
func (e *Eng) Node(path string) *model.CmdTree {
	return e.TC.Cmds.GetOrAddSub(strings.Split(path, ".")...)
}

// Log appends to the engine's trace.
func (e *Eng) Log(format string, a ...interface{}) {
	e.mu.Lock()
	e.trace = append(e.trace, fmt.Sprintf(format, a...))
	e.mu.Unlock()
}

func (e *Eng) Trace() []string {
	e.mu.Lock()
	defer e.mu.Unlock()
	return append([]string{}, e.trace...)
}

func (e *Eng) ResetTrace() { e.mu.Lock(); e.trace = nil; e.mu.Unlock() }

type Fn func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool)

// src marks a command as coming from a repository: a builtin command that is
// alone in a sequence would run without a session.
func (e *Eng) src(path string, c *model.Cmd) *model.Cmd {
	e.Node(path).SetSource("verif-repo")
	return c
}

// Power registers a function command.
func (e *Eng) Power(path string, fn Fn) *model.Cmd {
	return e.src(path, e.Node(path).RegPowerCmd(model.PowerCmd(fn), "verif cmd "+path))
}

// Mark registers a command that logs its own name and succeeds.
func (e *Eng) Mark(path string) *model.Cmd {
	return e.Power(path, func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
		e.Log("%s", path)
		return idx, true
	})
}

// Flow registers a flow command (not backed by a file).
func (e *Eng) Flow(path string, lines ...string) *model.Cmd {
	return e.src(path, e.Node(path).RegFlowCmd(lines, "verif flow "+path, ""))
}

// TraceFile is where file commands and FLog write when the engine has a dir.
func (e *Eng) TraceFile() string { return filepath.Join(e.Dir, "trace.log") }

// FLog appends one line to the trace file (shared with script commands).
func (e *Eng) FLog(format string, a ...interface{}) {
	f, err := os.OpenFile(e.TraceFile(), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		panic(err)
	}
	fmt.Fprintf(f, format+"\n", a...)
	f.Close()
}

// FTrace reads the trace file.
func (e *Eng) FTrace() []string {
	b, err := os.ReadFile(e.TraceFile())
	if err != nil || len(b) == 0 {
		return nil
	}
	return strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
}

// Script writes a bash script into the scratch dir. $TRACE names the trace
// file, $1 is the session dir.
func (e *Eng) Script(name, body string) string {
	p := filepath.Join(e.Dir, "scripts", name+".bash")
	_ = os.MkdirAll(filepath.Dir(p), 0755)
	if err := os.WriteFile(p, []byte("TRACE='"+e.TraceFile()+"'\n"+body+"\n"), 0755); err != nil {
		panic(err)
	}
	return p
}

// File registers a script command; FileNFlow one with a flow before it.
func (e *Eng) File(path, body string) *model.Cmd {
	return e.src(path, e.Node(path).RegFileCmd(e.Script(path, body), "verif script "+path, ""))
}

func (e *Eng) FileNFlow(path, body string, lines ...string) *model.Cmd {
	return e.src(path, e.Node(path).RegFileNFlowCmd(lines, e.Script(path, body), "verif script+flow "+path, ""))
}

// Result of a run.
type Result struct {
	OK    bool
	Panic interface{}
}

func (r Result) String() string {
	if r.Panic != nil {
		return "panic"
	}
	return fmt.Sprintf("%v", r.OK)
}

// Run executes one user input through the main entry (bootstrap + input),
// never exiting the process.
func (e *Eng) Run(args ...string) (res Result) {
	defer func() {
		if r := recover(); r != nil {
			res = Result{false, r}
		}
	}()
	ex := e.CC.Executor.(*execute.Executor)
	res.OK = ex.Run(e.CC, e.Env, "vcap-verif", args...)
	return
}

// Again prepares the engine for another Run in the same process.
func (e *Eng) Again() {
	e.CC.FlowStatus = nil
}

func Parse(e *Eng, args ...string) *model.ParsedCmds {
	return e.CC.Parser.Parse(e.CC.Cmds, e.CC.EnvAbbrs, args...)
}

// Scratch makes a scratch dir under TMPDIR; call the returned func to drop it.
func Scratch() (string, func()) {
	d, err := os.MkdirTemp("", "vs")
	if err != nil {
		panic(err)
	}
	return d, func() { os.RemoveAll(d) }
}

// SwapStdout redirects os.Stdout of the code under test to a pipe-backed
// buffer while f runs.
func SwapStdout(f func()) string {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = w
	done := make(chan string)
	go func() { b, _ := io.ReadAll(r); done <- string(b) }()
	func() {
		defer func() { os.Stdout = old; w.Close() }()
		f()
	}()
	s := <-done
	r.Close()
	return s
}
