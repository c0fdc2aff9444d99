// P45: what is told about a command is exactly what its files declare.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/innerr/ticat/pkg/mods/builtin"
	meta "github.com/innerr/ticat/pkg/mods/persist/hub_meta"

	"verif/eng"
	. "verif/vlib"
)

// --- what can be declared

type kind struct {
	name  string
	path  string // of the command
	file  string // what carries the command ("" nothing)
	meta  string // the file with the declarations
	extra string // lines in it
	typ   string
	flow  []string // lines of the flow
}

var kinds = []kind{
	{"bash", "vz", "vz.bash", "vz.bash.ticat", "", "executable-file", nil},
	{"python", "vz", "vz.py", "vz.py.ticat", "", "executable-file", nil},
	{"nested", "vp.vz", "vp/vz.sh", "vp/vz.sh.ticat", "", "executable-file", nil},
	{"flow", "vz", "", "vz.tiflow", "flow = echo hi : \\\n vo 3\n", "flow", []string{"echo hi :", "vo 3"}},
	{"flow and script", "vp.vz", "vp/vz.bash", "vp/vz.bash.ticat", "flow = vo 4\n", "executable-file+flow", []string{"vo 4"}},
	{"directory", "vz", "vz/", "vz.ticat", "", "dir-with-no-executable", nil},
	{"directory and script", "vz", "vz/run.sh", "vz.ticat", "cmd = run.sh\n", "dir-with-executable-file", nil},
}

var helps = []string{"", "does it", "x  # 'y' z"}
var abbrs = []string{"", "zz", "zz|Z"}
var tags = []string{"", "t1", "t1 t2"}
var args = [][][3]string{nil, {{"x", "", "1"}}, {{"y", "yy|Y", "a b"}, {"x", "xx", ""}, {"n", "", "-"}}}
var ops = [][][2]string{nil, {{"k.b", "read"}, {"k.a", "write"}}, {{"k.a", "may-read : write"}, {"k.c", "may-write"}}}
var v2e = [][][2]string{nil, {{"v.b", "1"}, {"v.a", "two words"}}}
var deps = [][][2]string{nil, {{"bash", "to run it"}, {"sh", "as well"}}}
var flags = []string{"", "quiet = true\n"}

type Case struct {
	K             int
	H, A, T, G    int // help, abbreviations, tags, arguments
	M             int // arguments mapped: 0 no, 1 to a key
	O, V, D, F, P int // environment operations, values, dependencies, flags, abbreviation of the parent
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func wr(p, s string) {
	must(os.MkdirAll(filepath.Dir(p), 0755))
	must(os.WriteFile(p, []byte(s), 0644))
}

func quote(s string) string {
	if t := strings.TrimSpace(s); t == "" || t != s || len(strings.Fields(s)) != 1 {
		return "'" + s + "'"
	}
	return s
}

// telling is the answer about one command.
type telling struct {
	head     []string
	sections map[string][]string
}

func (t telling) String() string {
	r := append([]string{}, t.head...)
	var ks []string
	for k := range t.sections {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r = append(r, "- "+k+": "+strings.Join(t.sections[k], " ; "))
	}
	return strings.Join(r, "\n")
}

var escapes = regexp.MustCompile(`\x1b\[[0-9;]*m`)

// read splits what is shown into the commands.
func read(text string) (order []string, all map[string]telling) {
	all = map[string]telling{}
	cur, sec := "", ""
	for _, l := range strings.Split(escapes.ReplaceAllString(text, ""), "\n") {
		s := strings.TrimSpace(l)
		switch {
		case s == "" || strings.IndexAny(l, "┌│└") == 0:
		case strings.HasPrefix(l, "[") && strings.HasSuffix(s, "]"):
			cur, sec = strings.Trim(s, "[]"), ""
			order = append(order, cur)
			all[cur] = telling{sections: map[string][]string{}}
		case cur == "":
		case strings.HasPrefix(l, "    - ") && strings.HasSuffix(s, ":"):
			sec = strings.TrimSuffix(strings.TrimPrefix(s, "- "), ":")
			all[cur].sections[sec] = []string{}
		case sec == "":
			t := all[cur]
			t.head = append(t.head, s)
			all[cur] = t
		default:
			all[cur].sections[sec] = append(all[cur].sections[sec], s)
		}
	}
	return
}

func exec(key string) Out {
	var c Case
	U(key, &c)
	k := kinds[c.K]
	dir, drop := eng.Scratch()
	defer drop()
	root := filepath.Join(dir, "m")
	want := telling{sections: map[string][]string{}}
	usage := telling{sections: map[string][]string{}}
	both := func(sec string, ls []string) {
		want.sections[sec] = ls
		usage.sections[sec] = ls
	}
	// the files
	wr(filepath.Join(root, "vo.bash"), "true\n")
	wr(filepath.Join(root, "vo.bash.ticat"), "help = other\n[args]\na = 0\n")
	if strings.HasSuffix(k.file, "/") {
		must(os.MkdirAll(filepath.Join(root, k.file), 0755))
	} else if k.file != "" {
		wr(filepath.Join(root, k.file), "true\n")
	}
	s := ""
	if t := tags[c.T]; t != "" {
		s += "tags = " + t + "\n"
		want.head = append(want.head, "@"+strings.Join(strings.Fields(t), " @"))
	}
	if h := helps[c.H]; h != "" {
		s += "help = " + h + "\n"
		want.head = append(want.head, "'"+h+"'")
		usage.head = append(usage.head, "'"+h+"'")
	}
	full := []string{}
	names := strings.Split(k.path, ".")
	if len(names) > 1 && c.P > 0 {
		wr(filepath.Join(root, names[0]+".ticat"), "help = parent\nabbrs = PP|vpp\n")
		full = append(full, "vp|PP|vpp")
	} else if len(names) > 1 {
		full = append(full, "vp")
	}
	last := "vz"
	if a := abbrs[c.A]; a != "" {
		s += "abbrs = " + a + "\n"
		last += "|" + a
	}
	full = append(full, last)
	if f := strings.Join(full, "."); f != k.path {
		both("full-abbrs", []string{f})
	}
	s += flags[c.F] + k.extra
	var as []string
	if len(args[c.G]) > 0 {
		s += "[args]\n"
	}
	for _, a := range args[c.G] {
		n := a[0]
		if a[1] != "" {
			n += "|" + a[1]
		}
		s += n + " = " + a[2] + "\n"
		as = append(as, n+" = "+quote(a[2]))
	}
	if as != nil {
		both("args", as)
	}
	if c.M > 0 && len(args[c.G]) > 0 {
		s += "[arg2env]\n"
		for _, a := range args[c.G] {
			s += "m." + a[0] + " = " + a[0] + "\n"
			want.sections["env-from-argv"] = append(want.sections["env-from-argv"], "m."+a[0]+" <- "+a[0])
		}
	}
	if len(v2e[c.V]) > 0 {
		s += "[val2env]\n"
		for _, v := range v2e[c.V] {
			s += v[0] + " = " + v[1] + "\n"
			want.sections["env-direct-write"] = append(want.sections["env-direct-write"], v[0]+" = "+quote(v[1]))
		}
	}
	if len(ops[c.O]) > 0 {
		s += "[env]\n"
		for _, o := range ops[c.O] {
			s += o[0] + " = " + o[1] + "\n"
			want.sections["env-ops"] = append(want.sections["env-ops"], o[0]+" = "+o[1])
		}
	}
	if len(deps[c.D]) > 0 {
		s += "[dep]\n"
		for _, d := range deps[c.D] {
			s += d[0] + " = " + d[1] + "\n"
			want.sections["os-cmd-dep"] = append(want.sections["os-cmd-dep"], d[0]+" = "+d[1])
		}
	}
	at := filepath.Join(root, k.meta)
	wr(at, s)
	typ := k.typ
	if c.F > 0 {
		typ += " (quiet)"
	}
	want.sections["cmd-type"] = []string{typ}
	want.sections["meta"] = []string{at}
	path, where := "", filepath.Dir(at)
	switch k.name {
	case "flow":
		want.sections["from"] = []string{root}
	case "directory":
		where = filepath.Join(root, "vz")
		want.sections["dir"] = []string{where}
	case "flow and script":
		path = filepath.Join(root, k.file)
		want.sections["executable(after flow)"] = []string{path}
	default:
		path = filepath.Join(root, k.file)
		want.sections["executable"] = []string{path}
	}
	if k.flow != nil {
		want.sections["flow"] = k.flow
	}
	// the program
	e := eng.New(dir)
	meta.WriteReposInfoFile(filepath.Join(dir, "hub"), filepath.Join(dir, "hub", "repos.hub"), []meta.RepoInfo{{AddReason: "<local>", Path: root, OnOff: "on"}}, "\t")
	e.Power("qhub", builtin.LoadModsFromHub)
	e.Env.GetLayer("session").SetBool("sys.panic.recover", true)
	if res := e.Run("qhub"); !res.OK {
		return Bad("loading %q: %v", s, res.Panic)
	}
	ask := func(in ...string) (string, string) {
		e.Again()
		before := len(e.Screen.Text())
		ok := false
		var why interface{}
		out := eng.SwapStdout(func() { r := e.Run(in...); ok, why = r.OK, r.Panic })
		if !ok {
			return fmt.Sprintf("%q failed: %v", in, why), ""
		}
		t := e.Screen.Text()
		if len(t) >= before {
			t = t[before:]
		}
		return t, out
	}
	// every name it has
	called := []string{k.path}
	for _, a := range strings.Split(abbrs[c.A], "|") {
		if a != "" {
			called = append(called, strings.TrimSuffix(k.path, "vz")+a)
		}
	}
	if len(names) > 1 && c.P > 0 {
		for _, n := range append([]string{}, called...) {
			called = append(called, "PP"+strings.TrimPrefix(n, "vp"))
		}
	}
	steps := 0
	for _, n := range called {
		for _, q := range []struct {
			in   []string
			want telling
		}{{[]string{"cmd.full", n}, want}, {[]string{"cmd", n}, usage}} {
			text, _ := ask(q.in...)
			steps++
			_, all := read(text)
			got, ok := all[k.path]
			if q.in[0] == "cmd" && helps[c.H] == "" && len(got.head) == 1 {
				got.head = nil // instead of a help text, what it executes
			}
			if !ok || len(all) != 1 || got.String() != q.want.String() {
				return Bad("%s declares\n%s\n%q must tell\n%s\nbut told\n%s", k.meta, s, q.in, q.want, text)
			}
		}
		for _, q := range [][2]string{{"api.cmd.type", k.typ}, {"api.cmd.meta", at}, {"api.cmd.dir", where}, {"api.cmd.path", path}} {
			_, out := ask(q[0], n)
			steps++
			w := q[1] + "\n"
			if q[1] == "" {
				w = ""
			}
			if out != w {
				return Bad("%s (%s) : %s %s must print %q, printed %q", k.meta, k.name, q[0], n, w, out)
			}
		}
	}
	text, _ := ask("api.cmd.list.all")
	listed := map[string]int{}
	for _, l := range strings.Split(strings.TrimSpace(text), "\n") {
		listed[l]++
	}
	exp := []string{"vo"} // what can be executed
	if k.typ != "dir-with-no-executable" {
		exp = append(exp, k.path)
	}
	for _, n := range exp {
		if listed[n] != 1 {
			return Bad("%s (%s): api.cmd.list.all must name %s once: %s", k.meta, k.name, n, text)
		}
		delete(listed, n)
	}
	for n := range listed {
		if strings.HasPrefix(n, "v") && strings.IndexAny(n, "zop") == 1 {
			return Bad("%s (%s): api.cmd.list.all names %q", k.meta, k.name, n)
		}
	}
	return Out{Outcome: k.name, States: []string{want.String()}, Steps: steps}
}

func gen(tier string, emit func(string)) {
	n := 0
	for ki := range kinds {
		for h := range helps {
			for a := range abbrs {
				for t := range tags {
					for g := range args {
						for o := range ops {
							for bits := 0; bits < 32; bits++ {
								c := Case{K: ki, H: h, A: a, T: t, G: g, O: o, M: bits & 1, V: bits >> 1 & 1, D: bits >> 2 & 1, F: bits >> 3 & 1, P: bits >> 4 & 1}
								if !strings.Contains(kinds[ki].path, ".") && c.P > 0 || g == 0 && c.M > 0 {
									continue
								}
								if n++; tier != "thorough" && n%3 != 0 {
									continue
								}
								emit(J(c))
							}
						}
					}
				}
			}
		}
	}
}

func main() {
	Main(Spec{ID: "P45", Level: "model_checking", CaseSec: 30, QuickSec: 300,
		Rule: "7 kinds of module files (scripts, nested, flow, flow and script, directory with and without a script) with every combination of declared help, abbreviations, tags, arguments, environment operations, values, mappings, dependencies, quietness (quick: every third); the usage, the full details, the type, the files and the list of commands compared with the declarations, asked for by every name",
		Gen:  gen, Exec: exec})
}
