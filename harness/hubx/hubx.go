// Package hubx gives an engine a hub in a scratch directory and a stand-in for
// git that only records what it was asked for and makes a small working copy.
package hubx

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	meta "github.com/innerr/ticat/pkg/mods/persist/hub_meta"

	"verif/eng"
)

type World struct {
	Dir  string
	keys map[string]string // address (with #branch) -> key
	drop func()
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

const git = `#!/bin/sh
case "$1" in
clone)
 a="$3"; b=; shift 3
 while [ $# -gt 1 ]; do if [ "$1" = -b ]; then b="#$2"; shift; fi; shift; done
 p="$1"; a="$a$b"
 echo "clone $a $p" >> "$W/git.log"
 k=
 case "$a" in
%s esac
 [ -n "$k" ] || exit 128
 [ -e "$W/fail-$k" ] && exit 128
 [ -e "$p" ] && exit 128
 mkdir -p "$p/.git" || exit 128
 echo "$a" > "$p/.git/addr"; echo "$k" > "$p/.git/key" ;;
pull)
 read a < .git/addr || exit 1; read k < .git/key; p="$PWD"
 echo "pull $a $p" >> "$W/git.log"
 [ -e "$W/fail-$k" ] && exit 1 ;;
*) exit 0 ;;
esac
if [ -e "$W/list-$k" ]; then
 : > "$p/hub.ticat"
 while IFS= read -r l; do echo "$l" >> "$p/hub.ticat"; done < "$W/list-$k"
else
 [ -e "$p/hub.ticat" ] && rm "$p/hub.ticat"
fi
exit 0
`

// New makes a world knowing the given addresses.
func New(addrs ...string) *World {
	d, drop := eng.Scratch()
	w := &World{Dir: d, keys: map[string]string{}, drop: drop}
	cases := ""
	for i, a := range addrs {
		k := fmt.Sprintf("r%d", i)
		w.keys[a] = k
		cases += fmt.Sprintf(" '%s') k=%s ;;\n", a, k)
	}
	must(os.MkdirAll(filepath.Join(d, "bin"), 0755))
	must(os.WriteFile(filepath.Join(d, "bin", "git"), []byte(fmt.Sprintf(git, cases)), 0755))
	must(os.Setenv("W", d))
	must(os.Setenv("PATH", filepath.Join(d, "bin")+":/usr/bin:/bin"))
	return w
}

func (w *World) Close() { w.drop() }

// List sets what a repository's hub.ticat holds ("" for no file).
func (w *World) List(addr, text string) {
	p := filepath.Join(w.Dir, "list-"+w.keys[addr])
	if text == "" {
		os.Remove(p)
		return
	}
	must(os.WriteFile(p, []byte(text), 0644))
}

func (w *World) Fail(addr string, on bool) {
	p := filepath.Join(w.Dir, "fail-"+w.keys[addr])
	if on {
		must(os.WriteFile(p, nil, 0644))
	} else {
		os.Remove(p)
	}
}

// Git returns (and clears) the recorded git calls, "clone ADDR" or "pull ADDR".
func (w *World) Git() []string {
	p := filepath.Join(w.Dir, "git.log")
	b, _ := os.ReadFile(p)
	os.Remove(p)
	var r []string
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 3 {
			r = append(r, f[0]+" "+f[1])
		}
	}
	return r
}

func (w *World) Hub(p ...string) string {
	return filepath.Join(append([]string{w.Dir, "hub"}, p...)...)
}

// Run is one start of the program.
func (w *World) Run(init string, args ...string) (eng.Result, string) {
	e := eng.New(w.Dir)
	s := e.Env.GetLayer(model.EnvLayerSession)
	s.Set("sys.hub.init-repo", init)
	var res eng.Result
	out := eng.SwapStdout(func() { res = e.Run(args...) })
	return res, out + e.Screen.Text() + e.Screen.Err()
}

// Entry is one line of the repository list.
type Entry struct{ Addr, Reason, Path, Help, OnOff string }

func (e Entry) String() string {
	return fmt.Sprintf("[%s %q %s %q from %s]", e.Addr, e.Path, e.OnOff, e.Help, e.Reason)
}

// Read reads the list the way every start does.
func (w *World) Read() []Entry {
	infos, _ := meta.ReadReposInfoFile(w.Hub(), w.Hub("repos.hub"), true, "\t")
	var r []Entry
	for _, i := range infos {
		r = append(r, Entry{i.Addr.Str(), i.AddReason, i.Path, i.HelpStr, i.OnOff})
	}
	return r
}

// Show gives the list in a canonical order.
func Show(es []Entry) string {
	var r []string
	for _, e := range es {
		r = append(r, e.String())
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

// Tree lists the working copies (by their recorded address) under the hub.
func (w *World) Tree() []string {
	var r []string
	_ = filepath.Walk(w.Hub(), func(p string, i os.FileInfo, err error) error {
		if err == nil && filepath.Base(p) == "addr" && filepath.Base(filepath.Dir(p)) == ".git" {
			b, _ := os.ReadFile(p)
			r = append(r, strings.TrimSpace(string(b))+" "+strings.TrimPrefix(filepath.Dir(filepath.Dir(p)), w.Hub()+"/"))
		}
		return nil
	})
	sort.Strings(r)
	return r
}
