// Package crash runs the real program once under strace, records every system
// call that changes files below a directory, and rebuilds the directory as it
// is when the process dies before any of them, or in the middle of a write.
package crash

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"verif/eng"
)

// Tree is a directory: relative path -> content, directories have a nil one.
type Tree map[string][]byte

func (t Tree) Clone() Tree {
	n := Tree{}
	for k, v := range t {
		n[k] = v // (contents are replaced, never changed in place)
	}
	return n
}

func (t Tree) Paths() []string {
	var ps []string
	for p := range t {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	return ps
}

// Key identifies the tree without the parts below the skipped directories.
func (t Tree) Key(skip ...string) string {
	var b strings.Builder
next:
	for _, p := range t.Paths() {
		for _, s := range skip {
			if p == s || strings.HasPrefix(p, s+"/") {
				continue next
			}
		}
		if t[p] == nil {
			fmt.Fprintf(&b, "%q/\n", p)
		} else {
			fmt.Fprintf(&b, "%q=%q\n", p, t[p])
		}
	}
	return b.String()
}

// Load reads a directory.
func Load(root string) Tree {
	t := Tree{}
	err := filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		r, _ := filepath.Rel(root, p)
		if r == "." {
			return nil
		}
		if i.IsDir() {
			t[r] = nil
			return nil
		}
		d, err := os.ReadFile(p)
		if d == nil {
			d = []byte{}
		}
		t[r] = d
		return err
	})
	if err != nil {
		panic(err)
	}
	return t
}

// Store makes the directory be exactly the tree.
func (t Tree) Store(root string) {
	have := Load(root)
	ps := have.Paths()
	for i := len(ps) - 1; i >= 0; i-- {
		w, ok := t[ps[i]]
		if !ok || (w == nil) != (have[ps[i]] == nil) {
			if err := os.RemoveAll(filepath.Join(root, ps[i])); err != nil {
				panic(err)
			}
			delete(have, ps[i])
		}
	}
	for _, p := range t.Paths() {
		f := filepath.Join(root, p)
		if t[p] == nil {
			if err := os.MkdirAll(f, 0755); err != nil {
				panic(err)
			}
			continue
		}
		if h, ok := have[p]; ok && string(h) == string(t[p]) {
			continue
		}
		if err := os.WriteFile(f, t[p], 0755); err != nil {
			panic(err)
		}
	}
}

// Op is one change.
type Op struct {
	Kind string // create, trunc, write, rename, unlink, mkdir
	Path string
	To   string
	Data []byte
	Off  int
}

func (o Op) String() string {
	switch o.Kind {
	case "write":
		return fmt.Sprintf("write %s @%d %.60q", o.Path, o.Off, o.Data)
	case "rename":
		return "rename " + o.Path + " to " + o.To
	}
	return o.Kind + " " + o.Path
}

// Apply performs the operation, a write only with its first n bytes when n >= 0.
func (t Tree) Apply(o Op, n int) {
	switch o.Kind {
	case "create":
		t[o.Path] = []byte{}
	case "trunc":
		d := append([]byte{}, t[o.Path]...)
		for len(d) < o.Off {
			d = append(d, 0)
		}
		t[o.Path] = d[:o.Off]
	case "write":
		d := append([]byte{}, t[o.Path]...)
		w := o.Data
		if n >= 0 {
			w = w[:n]
		}
		for len(d) < o.Off+len(w) {
			d = append(d, 0)
		}
		copy(d[o.Off:], w)
		t[o.Path] = d
	case "rename":
		for _, p := range t.Paths() {
			if p == o.To || strings.HasPrefix(p, o.To+"/") {
				delete(t, p)
			}
		}
		for _, p := range t.Paths() {
			if p == o.Path || strings.HasPrefix(p, o.Path+"/") {
				t[o.To+p[len(o.Path):]] = t[p]
				delete(t, p)
			}
		}
	case "unlink":
		delete(t, o.Path)
	case "mkdir":
		t[o.Path] = nil
	}
}

const calls = "open,openat,creat,write,pwrite64,writev,rename,renameat,renameat2,unlink,unlinkat,rmdir,mkdir,mkdirat,truncate,ftruncate,fallocate,link,linkat,symlink,symlinkat,copy_file_range,sendfile,splice,lseek,close,dup,dup2,dup3,fcntl,clone,clone3,fork,vfork,pipe,pipe2,socket"

// Trace runs the program in the box under strace and gives the changes it made
// below root in order. The changes applied to the directory as it was give the
// directory as it is afterwards, which is checked.
func Trace(b *eng.Box, root string, args ...string) (before Tree, ops []Op, ran eng.Ran) {
	before = Load(root)
	log := b.Path("strace.log")
	b.Wrap = []string{"strace", "-f", "-xx", "-s", "10000000", "-o", log, "-e", "trace=" + calls, "-e", "signal=none", "--"}
	ran = b.Run(args...)
	b.Wrap = nil
	d, err := os.ReadFile(log)
	if err != nil {
		panic(fmt.Sprintf("no trace: %v: %s", err, ran.Err))
	}
	os.Remove(log)
	ops = parse(string(d), root, b.Path("work"), before)
	after := before.Clone()
	for _, o := range ops {
		after.Apply(o, -1)
	}
	if real := Load(root); after.Key() != real.Key() {
		diff := ""
		for _, t := range []Tree{after, real} {
			for _, p := range t.Paths() {
				x, inA := after[p]
				y, inB := real[p]
				if inA != inB || (x == nil) != (y == nil) || string(x) != string(y) {
					diff += fmt.Sprintf("%q: from the trace %v %.300q, in fact %v %.300q\n", p, inA, x, inB, y)
				}
			}
		}
		panic(fmt.Sprintf("the trace does not explain the files:\n%s\noperations: %v\n%s", diff, ops, d))
	}
	return
}

type fd struct {
	path string // below root, or ""
	abs  string
	off  int
	app  bool
}

func unhex(s string) string {
	var b strings.Builder
	for i := 0; i+3 < len(s)+0; i += 4 {
		v, err := strconv.ParseUint(s[i+2:i+4], 16, 8)
		if err != nil {
			panic(err)
		}
		b.WriteByte(byte(v))
	}
	return b.String()
}

// arguments of a call: strings are decoded and marked with a leading quote
func split(s string) (as []string) {
	cur := ""
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '"':
			j := strings.IndexByte(s[i+1:], '"') + i + 1
			cur += "\"" + unhex(s[i+1:j])
			i = j
		case s[i] == ',':
			as = append(as, cur)
			cur = ""
		case s[i] == ' ' && cur == "":
		default:
			cur += string(s[i])
		}
	}
	return append(as, cur)
}

type birth struct {
	parent string
	shared bool
}

func isFork(l string) bool {
	for _, n := range []string{"clone(", "clone3(", "fork(", "vfork(", "clone resumed", "clone3 resumed", "fork resumed", "vfork resumed"} {
		if strings.HasPrefix(l, n) {
			return true
		}
	}
	return false
}

// births gives who started whom.
func births(log string) map[string]birth {
	m := map[string]birth{}
	pend := map[string]string{}
	for _, l := range strings.Split(log, "\n") {
		i := strings.IndexByte(l, ' ')
		if i < 0 {
			continue
		}
		pid, l := l[:i], strings.TrimSpace(l[i:])
		full := l
		if strings.HasPrefix(l, "<... ") {
			l = l[5:]
			full = pend[pid] + l
		}
		if !isFork(l) {
			continue
		}
		if strings.HasSuffix(l, "<unfinished ...>") {
			pend[pid] = l
			continue
		}
		f := strings.Fields(l)
		c := f[len(f)-1]
		if _, err := strconv.Atoi(c); err == nil {
			m[c] = birth{pid, strings.Contains(full, "CLONE_FILES")}
		}
	}
	return m
}

func parse(log, root, cwd string, before Tree) (ops []Op) {
	t := before.Clone()
	tables := map[string]map[int]*fd{} // of every process and thread
	pend := map[string]string{}
	forks := map[string]map[int]*fd{} // the parent's table when it started a fork not seen to end
	copyOf := func(m map[int]*fd) map[int]*fd {
		n := map[int]*fd{}
		for k, v := range m {
			n[k] = v
		}
		return n
	}
	born := births(log) // child -> parent, shared table
	below := func(abs string) string {
		r, err := filepath.Rel(root, abs)
		if err != nil || r == "." || strings.HasPrefix(r, "..") {
			return ""
		}
		return r
	}
	emit := func(o Op) {
		ops = append(ops, o)
		t.Apply(o, -1)
		if o.Kind == "rename" {
			for _, fds := range tables {
				for _, f := range fds {
					if f != nil && f.path == o.Path {
						f.path = o.To
					}
				}
			}
		}
	}
	for _, l := range strings.Split(log, "\n") {
		i := strings.IndexByte(l, ' ')
		if i < 0 {
			continue
		}
		pid, l := l[:i], strings.TrimSpace(l[i:])
		fds := tables[pid]
		if fds == nil {
			b, ok := born[pid]
			switch {
			case !ok:
				fds = map[int]*fd{}
			case b.shared:
				fds = tables[b.parent]
			case forks[b.parent] != nil:
				fds = forks[b.parent]
			default:
				fds = copyOf(tables[b.parent])
			}
			tables[pid] = fds
		}
		if isFork(strings.TrimPrefix(l, "<... ")) {
			if strings.HasSuffix(l, "<unfinished ...>") {
				forks[pid] = copyOf(fds)
			} else {
				f := strings.Fields(l)
				c := f[len(f)-1]
				if b, ok := born[c]; ok && b.parent == pid && tables[c] == nil {
					switch {
					case b.shared:
						tables[c] = fds
					case forks[pid] != nil:
						tables[c] = forks[pid]
					default:
						tables[c] = copyOf(fds)
					}
				}
				delete(forks, pid)
			}
			if !strings.HasPrefix(l, "<... ") && strings.HasSuffix(l, "<unfinished ...>") {
				pend[pid] = strings.TrimRight(strings.TrimSuffix(l, "<unfinished ...>"), " ")
			}
			continue
		}
		if strings.HasSuffix(l, "<unfinished ...>") {
			pend[pid] = strings.TrimRight(strings.TrimSuffix(l, "<unfinished ...>"), " ")
			continue
		}
		if strings.HasPrefix(l, "<... ") {
			j := strings.Index(l, "resumed>")
			l = pend[pid] + l[j+len("resumed>"):]
			delete(pend, pid)
		}
		p := strings.IndexByte(l, '(')
		e := strings.LastIndex(l, ") = ")
		if e < 0 {
			if e = strings.LastIndex(l, ")  = "); e < 0 {
				e = strings.LastIndex(l, "= ")
			}
		}
		if p < 0 || e < p || strings.HasPrefix(l, "+++") || strings.HasPrefix(l, "---") {
			continue
		}
		name := l[:p]
		q := strings.LastIndex(l, " = ")
		body := strings.TrimRight(l[p+1:q], " ")
		body = strings.TrimSuffix(body, ")")
		ret, err := strconv.Atoi(strings.Fields(l[q+3:])[0])
		if err != nil || ret < 0 {
			continue
		}
		a := split(body)
		str := func(i int) string { return strings.TrimPrefix(a[i], "\"") }
		num := func(s string) int { n, _ := strconv.Atoi(s); return n }
		at := func(d string, p string) string {
			if filepath.IsAbs(p) {
				return filepath.Clean(p)
			}
			if d == "AT_FDCWD" {
				return filepath.Join(cwd, p)
			}
			if f := fds[num(d)]; f != nil {
				return filepath.Join(f.abs, p)
			}
			return "/unknown/" + p
		}
		abs := func(i int) string { return at("AT_FDCWD", str(i)) }
		file := func(i int) *fd {
			if f := fds[num(a[i])]; f != nil && f.path != "" {
				return f
			}
			return nil
		}
		open := func(path, flags string) {
			f := &fd{abs: path, path: below(path), app: strings.Contains(flags, "O_APPEND")}
			fds[ret] = f
			if f.path == "" {
				return
			}
			d, ok := t[f.path]
			switch {
			case !ok && strings.Contains(flags, "O_CREAT"):
				emit(Op{Kind: "create", Path: f.path})
			case ok && len(d) > 0 && strings.Contains(flags, "O_TRUNC"):
				emit(Op{Kind: "trunc", Path: f.path})
			}
		}
		unlink := func(abs string) {
			if r := below(abs); r != "" {
				emit(Op{Kind: "unlink", Path: r})
			}
		}
		rename := func(x, y string) {
			rx, ry := below(x), below(y)
			if rx != "" && ry != "" {
				emit(Op{Kind: "rename", Path: rx, To: ry})
			} else if rx != "" || ry != "" {
				panic("rename across the border: " + l)
			}
		}
		switch name {
		case "open":
			open(abs(0), a[1])
		case "openat":
			open(at(a[0], str(1)), a[2])
		case "creat":
			open(abs(0), "O_CREAT|O_TRUNC")
		case "close":
			delete(fds, num(a[0]))
		case "pipe", "pipe2": // the numbers may have been those of files closed when a program was started
			for _, n := range strings.FieldsFunc(body, func(r rune) bool { return r < '0' || r > '9' })[:2] {
				delete(fds, num(n))
			}
		case "socket":
			delete(fds, ret)
		case "dup":
			fds[ret] = fds[num(a[0])]
		case "fcntl":
			if strings.HasPrefix(a[1], "F_DUPFD") {
				fds[ret] = fds[num(a[0])]
			}
		case "dup2", "dup3":
			fds[ret] = fds[num(a[0])]
		case "write":
			f := file(0)
			if f == nil || ret == 0 {
				continue
			}
			if f.app {
				f.off = len(t[f.path])
			}
			emit(Op{Kind: "write", Path: f.path, Off: f.off, Data: []byte(str(1))[:ret]})
			f.off += ret
		case "pwrite64":
			if f := file(0); f != nil && ret > 0 {
				emit(Op{Kind: "write", Path: f.path, Off: num(a[3]), Data: []byte(str(1))[:ret]})
			}
		case "lseek":
			if f := file(0); f != nil {
				f.off = ret
			}
		case "ftruncate":
			if f := file(0); f != nil {
				emit(Op{Kind: "trunc", Path: f.path, Off: num(a[1])})
			}
		case "truncate":
			if r := below(abs(0)); r != "" {
				emit(Op{Kind: "trunc", Path: r, Off: num(a[1])})
			}
		case "rename":
			rename(abs(0), abs(1))
		case "renameat", "renameat2":
			rename(at(a[0], str(1)), at(a[2], str(3)))
		case "unlink", "rmdir":
			unlink(abs(0))
		case "unlinkat":
			unlink(at(a[0], str(1)))
		case "mkdir":
			if r := below(abs(0)); r != "" {
				emit(Op{Kind: "mkdir", Path: r})
			}
		case "mkdirat":
			if r := below(at(a[0], str(1))); r != "" {
				emit(Op{Kind: "mkdir", Path: r})
			}
		case "link", "linkat", "symlink", "symlinkat":
			if strings.Contains(l, "x") && below(abs(len(a)-1)) != "" {
				panic("not modelled: " + l)
			}
		default:
			if f := file(0); f != nil {
				panic("not modelled: " + l)
			}
		}
	}
	return
}
