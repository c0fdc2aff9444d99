// P11: environment values have exactly the scope they are written for.
package main

import (
	"fmt"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"

	"verif/eng"
	. "verif/vlib"
)

// An item is an optional brace prefix and a command:
//
//	qr read, qs1/qs2 set k for the session, ql set l, qx set k only on its own
//	environment, qT a script which sets k, qF/qG flows, qN flow + script,
//	qd.qe read, "" nothing (braces alone)
type item struct {
	B string // "", "k=i", "l=j", "k=i l=j"
	C string
}

type kase struct {
	Main  []item
	MH    string // head form: "", "{k=h}:", "{k=h} ", ":" ...
	F, G  []item
	FH    string
	GH    string
	Space int    // spelling of braces
	Spec  string `json:",omitempty"`
}

var mainItems = []item{{"", "qr"}, {"k=i", "qr"}, {"", "qs1"}, {"k=i", "qs2"}, {"", "qF"}, {"k=i", "qF"}, {"l=j", "qG"}, {"", "qx"}, {"", "qT"}, {"k=i", "qT"}, {"", "qN"}, {"l=j", ""}, {"k=i l=j", "qd.qe"}, {"", "ql"}, {"k=i}{k=m", "qr"}}
var fItems = []item{{"", "qr"}, {"k=a", "qr"}, {"", "qs1"}, {"", "qG"}, {"k=a", "qG"}, {"l=b", ""}, {"", "qT"}, {"k=a}{l=a}{k=u", "qr"}}
var gItems = []item{{"", "qr"}, {"", "qs2"}, {"l=c", "qr"}, {"", "ql"}}
var fHeads = []string{"", "{k=f} : ", "{k=f} ", "{k=f l=g} : "}
var gHeads = []string{"", "{k=g} : ", "{l=g} "}
var mHeads = []string{"", "{k=h} : ", "{k=h} ", ": ", "{k=h l=h}: "}

func pick(a []item, s []int) (r []item) {
	for _, x := range s {
		r = append(r, a[x])
	}
	return
}

func gen(tier string, emit func(string)) {
	for _, s := range []string{"script-sub-head", "script-inline"} {
		emit(J(kase{Spec: s}))
	}
	stdF := []item{{"", "qr"}, {"k=a", "qG"}, {"", "qs1"}, {"", "qr"}}
	stdG := []item{{"", "qr"}, {"", "qs2"}, {"", "qr"}}
	n := 2
	if tier == "thorough" {
		n = 3
	}
	for mi, mh := range mHeads {
		for fi, fh := range fHeads {
			Seqs(len(mainItems), 1, n, func(s []int) {
				emit(J(kase{Main: pick(mainItems, s), MH: mh, F: stdF, G: stdG, FH: fh, GH: gHeads[(fi+mi)%3], Space: (fi + s[0]) % 3}))
			})
		}
	}
	if tier != "thorough" {
		Seqs(len(mainItems), 3, 3, func(s []int) {
			x := s[0]*7 + s[1]*3 + s[2]
			emit(J(kase{Main: pick(mainItems, s), MH: mHeads[x%5], F: stdF, G: stdG, FH: fHeads[x%4], GH: gHeads[x%3], Space: x % 3}))
		})
	}
	fm := 2
	if tier == "thorough" {
		fm = 3
	}
	i := 0
	for _, fh := range fHeads {
		Seqs(len(fItems), 1, fm, func(fs []int) {
			for _, gh := range gHeads {
				Seqs(len(gItems), 1, 2, func(gs []int) {
					for _, m := range []string{"", "k=i"} {
						i++
						if tier != "thorough" && len(gs) == 2 && len(fs) == 2 && i%4 != 0 && gh != "" {
							continue
						}
						emit(J(kase{Main: []item{{m, "qF"}, {"", "qr"}}, MH: mHeads[i%3], F: pick(fItems, fs), G: pick(gItems, gs), FH: fh, GH: gh, Space: i % 3}))
					}
				})
			}
		})
	}
}

func text(it item, sp int) string {
	if it.B == "" {
		return it.C
	}
	switch sp {
	case 0:
		return "{" + it.B + "}" + it.C
	case 1:
		return "{" + it.B + "} " + it.C
	}
	return "{ " + strings.ReplaceAll(it.B, "=", " = ") + " } " + it.C
}

// number gives every brace value of a body its own value
func number(items []item) (r []item) {
	for i, it := range items {
		if it.B != "" {
			it.B = strings.ReplaceAll(it.B+" ", " ", fmt.Sprint(i, " "))
			it.B = strings.TrimSpace(it.B)
		}
		r = append(r, it)
	}
	return
}

func line(head string, items []item, sp int) string {
	var r []string
	for _, it := range number(items) {
		r = append(r, text(it, sp))
	}
	return head + strings.Join(r, " : ")
}

// ---- reference

type scope struct {
	kind string // session, cmd, sub
	kv   map[string]string
	up   *scope
}

func (s *scope) get(k string) string {
	for ; s != nil; s = s.up {
		if v, ok := s.kv[k]; ok {
			return v
		}
	}
	return "-"
}

func (s *scope) session() *scope {
	for s.kind != "session" {
		s = s.up
	}
	return s
}

func parseB(b string) map[string]string {
	r := map[string]string{}
	for _, f := range strings.FieldsFunc(b, func(c rune) bool { return strings.ContainsRune("{}: ", c) }) {
		p := strings.SplitN(f, "=", 2)
		r[p[0]] = p[1]
	}
	return r
}

func seq(k kase, head string, items []item, own *scope, log *[]string) {
	h := parseB(head)
	for kk, v := range h {
		own.kv[kk] = v
	}
	for i, it := range number(items) {
		b := parseB(it.B)
		if i == 0 && !strings.Contains(head, ":") {
			// braces at the very head, with or without the separator
			for kk, v := range b {
				own.kv[kk] = v
			}
			b = nil
		}
		me := &scope{"cmd", b, own}
		ses := own.session()
		if it.C != "" && it.C != "qF" && it.C != "qG" && it.C != "qN" && it.C != "qT" {
			*log = append(*log, fmt.Sprintf("%s k=%s l=%s", it.C, me.get("k"), me.get("l")))
		}
		switch it.C {
		case "qs1":
			ses.kv["k"] = "s1"
		case "qs2":
			ses.kv["k"] = "s2"
		case "ql":
			ses.kv["l"] = "l1"
		case "qT":
			// a script is handed the session's values
			*log = append(*log, fmt.Sprintf("%s k=%s l=%s", it.C, ses.get("k"), ses.get("l")))
			ses.kv["k"] = "t1"
		case "qF":
			seq(k, k.FH, k.F, &scope{"sub", map[string]string{}, me}, log)
		case "qG":
			seq(k, k.GH, k.G, &scope{"sub", map[string]string{}, me}, log)
		case "qN":
			seq(k, "{k=n} : ", []item{{"", "qr"}, {"", "ql"}}, &scope{"sub", map[string]string{}, me}, log)
			*log = append(*log, fmt.Sprintf("%s k=%s l=%s", it.C, ses.get("k"), ses.get("l")))
			ses.kv["k"] = "n1"
		}
	}
}

func setup(dir string, k kase) *eng.Eng {
	e := eng.New(dir)
	show := func(env *model.Env, key string) string {
		if !env.Has(key) {
			return "-"
		}
		return env.GetRaw(key)
	}
	pw := func(name string, f func(env *model.Env)) {
		e.Power(name, func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, idx int) (int, bool) {
			e.FLog("%s k=%s l=%s", name, show(env, "k"), show(env, "l"))
			f(env)
			return idx, true
		})
	}
	pw("qr", func(env *model.Env) {})
	pw("qd.qe", func(env *model.Env) {})
	pw("qs1", func(env *model.Env) { env.GetLayer(model.EnvLayerSession).Set("k", "s1") })
	pw("qs2", func(env *model.Env) { env.GetLayer(model.EnvLayerSession).Set("k", "s2") })
	pw("ql", func(env *model.Env) { env.GetLayer(model.EnvLayerSession).Set("l", "l1") })
	pw("qx", func(env *model.Env) { env.Set("k", "own") })
	scr := func(name, val string) string {
		return `v=""; w=""
[ -n "$1" ] && [ -f "$1/env" ] && { v=$(grep '^k=' "$1/env"); w=$(grep '^l=' "$1/env"); }
v=${v#k=}; w=${w#l=}
echo "` + name + ` k=${v:--} l=${w:--}" >> $TRACE
echo "k=` + val + `" >> "$1/env"`
	}
	e.File("qT", scr("qT", "t1"))
	e.FileNFlow("qN", scr("qN", "n1"), "{k=n} : qr : ql")
	e.Flow("qF", line(k.FH, k.F, k.Space))
	e.Flow("qG", line(k.GH, k.G, (k.Space+1)%3))
	return e
}

func words(s string) []string { return strings.Fields(s) }

func exec(key string) Out {
	var k kase
	U(key, &k)
	dir, drop := eng.Scratch()
	defer drop()
	if k.Spec != "" {
		k2 := kase{F: []item{{"", "qT"}}, FH: "{k=f} : "}
		e := setup(dir, k2)
		in := "qF"
		want := "qT k=f l=-"
		if k.Spec == "script-inline" {
			in, want = "qr : {k=f} qT", "qr k=- l=-|qT k=f l=-"
		}
		e.Run(words(in)...)
		got := strings.Join(e.FTrace(), "|")
		if got != want {
			return Bad("a script command does not find the value limited to its flow or to itself: input %q, flow qF = {k=f} : qT, want %q, got %q", in, want, got)
		}
		return Out{Outcome: got}
	}
	all := append(append([]item{}, k.Main...), k.F...)
	for i, it := range all {
		// a lone brace item that is last but one is a tail-mode form; braces
		// alone in front of the first command are heads
		if it.C == "" && i < len(k.Main) && (i == 0 || i >= len(k.Main)-2) {
			return Out{Trivial: true, Outcome: "left to P21"}
		}
	}
	if len(k.F) > 0 && k.F[0].C == "" || len(k.F) > 0 && k.FH != "" && !strings.Contains(k.FH, ":") && k.F[0].B != "" {
		return Out{Trivial: true, Outcome: "double head"}
	}
	if len(k.G) > 0 && k.GH != "" && !strings.Contains(k.GH, ":") && k.G[0].B != "" {
		return Out{Trivial: true, Outcome: "double head"}
	}
	if k.MH != "" && !strings.Contains(k.MH, ":") && k.Main[0].B != "" {
		return Out{Trivial: true, Outcome: "double head"}
	}
	if k.MH == ": " && len(k.Main) == 1 {
		return Out{Trivial: true, Outcome: "left to P21"}
	}
	var want []string
	ses := &scope{"session", map[string]string{}, nil}
	seq(k, k.MH, k.Main, ses, &want)
	e := setup(dir, k)
	in := line(k.MH, k.Main, k.Space)
	r := e.Run(words(in)...)
	got := e.FTrace()
	desc := fmt.Sprintf("input %q with qF=%q qG=%q", in, line(k.FH, k.F, k.Space), line(k.GH, k.G, (k.Space+1)%3))
	if !r.OK {
		return Bad("%s: run fails: %v %s", desc, r.Panic, e.Screen.Err()+e.Screen.Text())
	}
	if !Eq(want, got) {
		return Bad("%s: commands must see\n %v, saw\n %v", desc, want, got)
	}
	for _, kk := range []string{"k", "l"} {
		w := ses.get(kk)
		g := "-"
		if e.Env.Has(kk) {
			g = e.Env.GetRaw(kk)
		}
		if w != g {
			return Bad("%s: after the run the session must have %s=%s, has %s", desc, kk, w, g)
		}
	}
	return Out{Outcome: fmt.Sprint(got), States: got, Trans: []string{in + desc}, Steps: len(got)}
}

func main() {
	Main(Spec{ID: "P11", Level: "model_checking", CaseSec: 15,
		Rule: "sequences of up to 3 of 14 kinds of item (readers, setters, scripts, flows, script after flow, with and without braces) under 5 head forms, with every pair of flow bodies of up to 2 (3) and 2 items and 4x3 flow heads; every command logs the values it sees; trivial for tail-mode and doubled-head forms",
		Gen:  gen, Exec: exec})
}
