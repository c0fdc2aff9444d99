package eng

import (
	"bytes"
	"context"
	"errors"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/innerr/ticat/pkg/ticat"
)

// TicatMain must be the first statement of a check's main when the check uses
// boxes: in a child process started under the name "ticat" it runs the real
// command line program (after reg, which may add observer commands), with the
// data directory beside the executable, and exits.
func TicatMain(reg func(tc *ticat.TiCat)) {
	if filepath.Base(os.Args[0]) != "ticat" {
		return
	}
	tc := ticat.NewTiCat()
	if reg != nil {
		reg(tc)
	}
	tc.RunCli(os.Args[1:]...)
	os.Exit(0)
}

// Box is one installation of the program in a scratch directory.
type Box struct {
	Dir string // everything
	Bin string
	Env []string // extra environment variables
	In  string   // stdin

	Wrap []string // a command the program is started with
}

var boxBin struct {
	sync.Once
	path string
}

func copyFile(src, dst string) {
	in, err := os.Open(src)
	if err != nil {
		panic(err)
	}
	defer in.Close()
	out, err := os.OpenFile(dst, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0755)
	if err != nil {
		panic(err)
	}
	if _, err = io.Copy(out, in); err != nil {
		panic(err)
	}
	if err = out.Close(); err != nil {
		panic(err)
	}
}

// NewBox makes an installation; drop it with Close.
func NewBox() *Box {
	boxBin.Do(func() {
		self, err := os.Executable()
		if err != nil {
			panic(err)
		}
		d, err := os.MkdirTemp("", "vbin")
		if err != nil {
			panic(err)
		}
		boxBin.path = filepath.Join(d, "ticat")
		copyFile(self, boxBin.path)
	})
	d, err := os.MkdirTemp("", "vbox")
	if err != nil {
		panic(err)
	}
	if r, err := filepath.EvalSymlinks(d); err == nil {
		d = r
	}
	b := &Box{Dir: d, Bin: filepath.Join(d, "ticat")}
	if err := os.Link(boxBin.path, b.Bin); err != nil {
		copyFile(boxBin.path, b.Bin)
	}
	for _, s := range []string{"ticat.data/hub", "work", "home"} {
		_ = os.MkdirAll(filepath.Join(d, s), 0755)
	}
	return b
}

func (b *Box) Close() { os.RemoveAll(b.Dir) }

func (b *Box) Path(p ...string) string { return filepath.Join(append([]string{b.Dir}, p...)...) }

// Data is a path under the program's data directory.
func (b *Box) Data(p ...string) string {
	return filepath.Join(append([]string{b.Dir, "ticat.data"}, p...)...)
}

func (b *Box) Write(path, text string) {
	p := filepath.Join(b.Dir, path)
	_ = os.MkdirAll(filepath.Dir(p), 0755)
	if err := os.WriteFile(p, []byte(text), 0755); err != nil {
		panic(err)
	}
}

func (b *Box) Read(path string) string {
	s, _ := os.ReadFile(filepath.Join(b.Dir, path))
	return string(s)
}

// OutFile is where observer commands write ($VERIF_OUT in the child).
func (b *Box) OutFile() string { return filepath.Join(b.Dir, "out.txt") }

// Out reads and clears what the observers wrote.
func (b *Box) Out() []string {
	s, err := os.ReadFile(b.OutFile())
	if err != nil || len(s) == 0 {
		return nil
	}
	os.Remove(b.OutFile())
	return strings.Split(strings.TrimSuffix(string(s), "\n"), "\n")
}

// Observe appends a line to $VERIF_OUT (called in the child).
func Observe(line string) {
	f, err := os.OpenFile(os.Getenv("VERIF_OUT"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		panic(err)
	}
	_, _ = f.WriteString(line + "\n")
	f.Close()
}

type Ran struct {
	RC      int // exit status, -1 killed or timeout
	Out     string
	Err     string
	Timeout bool
}

func (r Ran) OK() bool { return r.RC == 0 }

// Run starts the program once in the box.
func (b *Box) Run(args ...string) (r Ran) {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	line := append(append(append([]string{}, b.Wrap...), b.Bin), args...)
	cmd := exec.CommandContext(ctx, line[0], line[1:]...)
	cmd.Dir = b.Path("work")
	cmd.Env = append([]string{
		"PATH=" + os.Getenv("PATH"), "HOME=" + b.Path("home"), "TMPDIR=" + b.Path("home"),
		"VERIF_OUT=" + b.OutFile(), "TERM=dumb", "LANG=C.UTF-8", "GOMAXPROCS=2",
	}, b.Env...)
	cmd.Stdin = strings.NewReader(b.In)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	cmd.WaitDelay = time.Second
	err := cmd.Run()
	r.Out, r.Err = o.String(), e.String()
	if ctx.Err() != nil {
		r.Timeout = true
		r.RC = -1
		return
	}
	if err != nil {
		r.RC = -1
		var x *exec.ExitError
		if errors.As(err, &x) {
			r.RC = x.ExitCode()
		}
	}
	return
}
