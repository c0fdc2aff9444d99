// Package vlib is the driver shared by all checks: it shards an exhaustively
// enumerated list of cases over child processes, executes every case against
// the real code, merges measured counts, confirms violations by replaying them
// in fresh processes, and writes the evidence file.
package vlib

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Out is the verdict on one case.
type Out struct {
	Violation string   // empty: the property held on this case
	Outcome   string   // canonical observation, used to count distinct outcomes
	Trivial   bool     // by the check's own rule
	States    []string // model states visited (model_checking)
	Trans     []string // model transitions taken (model_checking)
	Steps     int      // implementation steps compared with the model
}

func Bad(format string, a ...interface{}) Out {
	return Out{Violation: fmt.Sprintf(format, a...)}
}

type Spec struct {
	ID          string
	Level       string // model_checking | exploration | fault_enumeration
	Rule        string
	Assumptions []string
	// Gen emits every case, in a fixed order, simplest first. A case is a
	// string that fully determines the execution.
	Gen func(tier string, emit func(key string))
	// Exec runs one case against the real code.
	Exec func(key string) Out
	// MaxSamples of cases written to the evidence (default 6)
	MaxSamples int
	QuickSec   int // internal deadline, default 240
	ThorSec    int // default 780
	CaseSec    int // per-case non-termination limit, default 60
	Shards     int
	HeapMB     int // per shard; default 2000
	// HangViolates: a case that does not terminate (or exhausts memory)
	// violates the property. Always true unless disabled.
	HangOK bool
}

type vio struct {
	Idx int    `json:"idx"`
	Key string `json:"key"`
	Msg string `json:"msg"`
}

type shardResult struct {
	Evals    int      `json:"evals"`
	Steps    int      `json:"steps"`
	Total    int      `json:"total"`
	Complete bool     `json:"complete"`
	Vios     []vio    `json:"vios"`
	VioCount int      `json:"vio_count"`
	Samples  []string `json:"samples"`
}

// RealStdout is the process's original stdout; the code under test sees
// os.Stdout redirected away.
var RealStdout = os.Stdout

// kept: a collected os.File closes its descriptor, which would be reused
var realStd = []*os.File{os.Stdin, os.Stdout, os.Stderr}

func h64(s string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return h.Sum64()
}

type hset map[uint64]struct{}

func (s hset) add(v string) { s[h64(v)] = struct{}{} }

func (s hset) dump(path string) {
	buf := make([]byte, 0, len(s)*8)
	for k := range s {
		buf = binary.LittleEndian.AppendUint64(buf, k)
	}
	_ = os.WriteFile(path, buf, 0644)
}

func (s hset) load(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for i := 0; i+8 <= len(b); i += 8 {
		s[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
	}
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func Tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func safeExec(s *Spec, key string) (out Out) {
	defer func() {
		if r := recover(); r != nil {
			out = Bad("harness-visible panic: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	return s.Exec(key)
}

func trimStack(s string) string {
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// Main is the entry point of every check.
func Main(s Spec) {
	if s.MaxSamples == 0 {
		s.MaxSamples = 6
	}
	if s.QuickSec == 0 {
		s.QuickSec = 240
	}
	if s.ThorSec == 0 {
		s.ThorSec = 780
	}
	if s.CaseSec == 0 {
		s.CaseSec = 60
	}
	if s.Shards == 0 {
		s.Shards = 8
	}
	if s.HeapMB == 0 {
		s.HeapMB = 2000
	}
	if k, ok := os.LookupEnv("VERIF_SHARD"); ok {
		runShard(&s, k)
		return
	}
	if k, ok := os.LookupEnv("VERIF_ONE"); ok {
		runOne(&s, k)
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "--replay" {
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var r struct{ Key string }
		_ = json.Unmarshal(b, &r)
		msg, bad := oneInChild(&s, r.Key)
		fmt.Printf("case: %s\nviolates: %v\n%s\n", r.Key, bad, msg)
		if bad {
			os.Exit(1)
		}
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "--case" {
		out := safeExec(&s, os.Args[2])
		fmt.Fprintf(RealStdout, "outcome: %s\nviolation: %s\n", out.Outcome, out.Violation)
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "--list" {
		n := 0
		s.Gen(Tier(), func(k string) { n++; fmt.Println(k) })
		return
	}
	parent(&s)
}

func watchdog(s *Spec, start *int64, onHang func(why string)) {
	var ms runtime.MemStats
	for {
		time.Sleep(50 * time.Millisecond)
		st := atomic.LoadInt64(start)
		if st == 0 {
			continue
		}
		if time.Now().UnixNano()-st > int64(s.CaseSec)*int64(time.Second) {
			onHang(fmt.Sprintf("the case did not finish within %d s (non-termination)", s.CaseSec))
		}
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > uint64(s.HeapMB)<<20 && time.Now().UnixNano()-st > int64(time.Second) {
			onHang(fmt.Sprintf("the case exhausted memory (heap over %d MB; unbounded growth)", s.HeapMB))
		}
	}
}

// VERIF_ALL shows every violation instead of the first three.
var maxShown = func() int {
	if os.Getenv("VERIF_ALL") != "" {
		return 100000
	}
	return 3
}()

func muteStd() {
	f, err := os.OpenFile("/dev/null", os.O_RDWR, 0)
	if err == nil && len(realStd) == 3 {
		os.Stdout = f
		os.Stderr = f
		os.Stdin = f
	}
}

func runOne(s *Spec, resFile string) {
	keyB, err := os.ReadFile(resFile + ".key")
	if err != nil {
		os.Exit(2)
	}
	key := string(keyB)
	muteStd()
	var start int64
	var mu sync.Mutex
	write := func(msg string, bad bool) {
		mu.Lock()
		b, _ := json.Marshal(map[string]interface{}{"msg": msg, "bad": bad})
		_ = os.WriteFile(resFile, b, 0644)
		os.Exit(0)
	}
	go watchdog(s, &start, func(why string) { write(why, !s.HangOK) })
	atomic.StoreInt64(&start, time.Now().UnixNano())
	out := safeExec(s, key)
	atomic.StoreInt64(&start, 0)
	write(out.Violation, out.Violation != "")
}

func oneInChild(s *Spec, key string) (msg string, bad bool) {
	dir, err := os.MkdirTemp("", "vone")
	if err != nil {
		return err.Error(), false
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "r")
	_ = os.WriteFile(f+".key", []byte(key), 0644)
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "VERIF_ONE="+f, "TMPDIR="+dir, "HOME="+dir)
	cmd.Dir = dir
	confine(cmd, dir)
	errOut := &tail{}
	cmd.Stdout = errOut
	cmd.Stderr = errOut
	werr := cmd.Run()
	b, rerr := os.ReadFile(f)
	if rerr != nil {
		return fmt.Sprintf("the process died while executing the case: %v\n%s", werr, errOut.String()), true
	}
	var r struct {
		Msg string
		Bad bool
	}
	_ = json.Unmarshal(b, &r)
	return r.Msg, r.Bad
}

// confine makes a process that executes cases run as an unprivileged user who
// owns nothing but the given scratch directories: whatever the code under test
// deletes or overwrites by mistake, it can reach only those.
func confine(cmd *exec.Cmd, dirs ...string) {
	if os.Getuid() != 0 {
		return
	}
	who.Do(func() {
		t := exec.Command("/bin/true")
		t.SysProcAttr = nobody()
		who.ok = t.Run() == nil
	})
	if !who.ok {
		return
	}
	for _, d := range dirs {
		if os.Chown(d, nobodyID, nobodyID) != nil {
			return
		}
	}
	cmd.SysProcAttr = nobody()
}

const nobodyID = 65534

var who struct {
	sync.Once
	ok bool
}

func nobody() *syscall.SysProcAttr {
	return &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobodyID, Gid: nobodyID, NoSetGroups: false}}
}

type tail struct {
	mu  sync.Mutex
	buf []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.buf = append(t.buf, p...)
	if len(t.buf) > 8000 {
		t.buf = append([]byte{}, t.buf[:4000]...)
	}
	return len(p), nil
}

func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.buf) }

// shard spec: "i/n/from/dir/deadlineUnix"
func runShard(s *Spec, spec string) {
	f := strings.SplitN(spec, "|", 5)
	i, _ := strconv.Atoi(f[0])
	n, _ := strconv.Atoi(f[1])
	from, _ := strconv.Atoi(f[2])
	dir := f[3]
	dl, _ := strconv.ParseInt(f[4], 10, 64)
	deadline := time.Unix(dl, 0)
	muteStd()
	debug.SetGCPercent(200)

	base := filepath.Join(dir, fmt.Sprintf("s%d", i))
	prog, _ := os.OpenFile(base+".prog", os.O_CREATE|os.O_RDWR, 0644)
	res := shardResult{Complete: true}
	outcomes, states, trans, nontriv := hset{}, hset{}, hset{}, hset{}
	var pbuf [8]byte
	var start int64
	var mu sync.Mutex
	curIdx := 0
	curKey := ""
	flush := func() {
		mu.Lock()
		outcomes.dump(fmt.Sprintf("%s.%d.out", base, from))
		states.dump(fmt.Sprintf("%s.%d.st", base, from))
		trans.dump(fmt.Sprintf("%s.%d.tr", base, from))
		nontriv.dump(fmt.Sprintf("%s.%d.nt", base, from))
		b, _ := json.Marshal(res)
		_ = os.WriteFile(fmt.Sprintf("%s.%d.json.tmp", base, from), b, 0644)
		_ = os.Rename(fmt.Sprintf("%s.%d.json.tmp", base, from), fmt.Sprintf("%s.%d.json", base, from))
		os.Exit(0)
	}
	go watchdog(s, &start, func(why string) {
		res.Evals++
		res.Complete = false
		if !s.HangOK {
			res.VioCount++
			res.Vios = append(res.Vios, vio{curIdx, curKey, why})
		}
		flush()
	})
	idx := 0
	stopped := false
	unknown := 0
	known := loadKnown(s.ID)
	s.Gen(Tier(), func(key string) {
		my := idx
		idx++
		if stopped || my%n != i || my < from {
			return
		}
		if time.Now().After(deadline) || unknown >= 12 {
			stopped = true
			res.Complete = false
			return
		}
		binary.LittleEndian.PutUint64(pbuf[:], uint64(my)+1)
		_, _ = prog.WriteAt(pbuf[:], 0)
		curIdx, curKey = my, key
		atomic.StoreInt64(&start, time.Now().UnixNano())
		out := safeExec(s, key)
		atomic.StoreInt64(&start, 0)
		res.Evals++
		if !out.Trivial {
			nontriv.add(key)
		}
		res.Steps += out.Steps
		outcomes.add(out.Outcome)
		for _, x := range out.States {
			states.add(x)
		}
		for _, x := range out.Trans {
			trans.add(x)
		}
		if out.Violation != "" {
			res.VioCount++
			res.Vios = append(res.Vios, vio{my, key, out.Violation})
			if _, ok := known[key]; !ok {
				unknown++
			}
		} else if !out.Trivial && (len(res.Samples) < 2 || (len(res.Samples) < s.MaxSamples && res.Evals%997 == 0)) {
			res.Samples = append(res.Samples, key+"  =>  "+clip(out.Outcome, 400))
		}
	})
	res.Total = idx
	flush()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// loadKnown reads the known-findings file: case key -> what fails.
func loadKnown(id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, line := range strings.Split(string(b), "\n") {
		f := strings.SplitN(line, "\t", 3)
		if len(f) == 3 && f[0] == "known: property="+id {
			m[f[1]] = f[2]
		}
	}
	return m
}

func parent(s *Spec) {
	t0 := time.Now()
	tier := Tier()
	sec := s.QuickSec
	if tier == "thorough" {
		sec = s.ThorSec
	}
	deadline := t0.Add(time.Duration(sec) * time.Second)
	dir, err := os.MkdirTemp("", "verif-"+s.ID+"-")
	if err != nil {
		fmt.Println("cannot create a scratch dir:", err)
		os.Exit(2)
	}
	defer os.RemoveAll(dir)

	all := shardResult{Complete: true}
	var mu sync.Mutex
	var wg sync.WaitGroup
	results := []string{}
	for i := 0; i < s.Shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			from := 0
			for crashes := 0; ; {
				shTmp := filepath.Join(dir, fmt.Sprintf("tmp%d", i))
				_ = os.MkdirAll(shTmp, 0755)
				cmd := exec.Command(os.Args[0])
				cmd.Dir = shTmp
				cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_SHARD=%d|%d|%d|%s|%d", i, s.Shards, from, dir, deadline.Unix()),
					"GOMAXPROCS=2", "TMPDIR="+shTmp, "HOME="+shTmp)
				confine(cmd, dir, shTmp)
				eo := &tail{}
				cmd.Stdout, cmd.Stderr = eo, eo
				werr := cmd.Run()
				rf := filepath.Join(dir, fmt.Sprintf("s%d.%d.json", i, from))
				b, rerr := os.ReadFile(rf)
				if rerr == nil {
					var r shardResult
					_ = json.Unmarshal(b, &r)
					mu.Lock()
					all.Evals += r.Evals
					all.Steps += r.Steps
					all.VioCount += r.VioCount
					all.Vios = append(all.Vios, r.Vios...)
					all.Samples = append(all.Samples, r.Samples...)
					if r.Total > all.Total {
						all.Total = r.Total
					}
					if !r.Complete {
						all.Complete = false
					}
					results = append(results, filepath.Join(dir, fmt.Sprintf("s%d.%d", i, from)))
					mu.Unlock()
					return
				}
				// the shard died: the case being executed took it down
				pb, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("s%d.prog", i)))
				if len(pb) < 8 {
					mu.Lock()
					all.Complete = false
					all.Samples = append(all.Samples, fmt.Sprintf("shard %d died before its first case: %v %s", i, werr, eo.String()))
					mu.Unlock()
					return
				}
				at := int(binary.LittleEndian.Uint64(pb)) - 1
				key := caseAt(s, tier, at)
				mu.Lock()
				all.Evals++
				all.Complete = false
				all.VioCount++
				all.Vios = append(all.Vios, vio{at, key, fmt.Sprintf("the process died while executing the case: %v\n%s", werr, eo.String())})
				mu.Unlock()
				crashes++
				if crashes >= 3 || time.Now().After(deadline) {
					return
				}
				from = at + 1
			}
		}(i)
	}
	wg.Wait()

	outcomes, states, trans, nontriv := hset{}, hset{}, hset{}, hset{}
	for _, r := range results {
		outcomes.load(r + ".out")
		states.load(r + ".st")
		trans.load(r + ".tr")
		nontriv.load(r + ".nt")
	}

	sort.Slice(all.Vios, func(a, b int) bool { return all.Vios[a].Idx < all.Vios[b].Idx })
	knownKeys := loadKnown(s.ID)
	confirmed := []vio{}
	unconfirmed := []string{}
	knownHit := map[string]bool{}
	for _, v := range all.Vios {
		if what, ok := knownKeys[v.Key]; ok {
			if !knownHit[v.Key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s (case %s)\n", s.ID, what, v.Key)
			}
			knownHit[v.Key] = true
			continue
		}
		if len(confirmed) >= maxShown {
			continue
		}
		// confirm by replaying in fresh processes
		reps := 5
		if strings.Contains(v.Msg, "did not finish within") {
			reps = 2
		}
		ok := true
		var wg sync.WaitGroup
		var lmu sync.Mutex
		for r := 0; r < reps; r++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				msg, bad := oneInChild(s, v.Key)
				lmu.Lock()
				if !bad {
					ok = false
				} else if msg != "" {
					v.Msg = msg
				}
				lmu.Unlock()
			}()
		}
		wg.Wait()
		if ok {
			confirmed = append(confirmed, v)
		} else {
			unconfirmed = append(unconfirmed, v.Key+": "+clip(v.Msg, 300))
			if len(unconfirmed) > 10 {
				break
			}
		}
	}

	exh := all.Complete && len(confirmed) == 0
	cov := map[string]interface{}{
		"rule":              s.Rule,
		"exhaustive":        exh,
		"cases_enumerated":  all.Total,
		"distinct_outcomes": len(outcomes),
	}
	sort.Strings(all.Samples)
	smp := all.Samples
	if len(smp) > 24 {
		step := len(smp) / 24
		var t []string
		for i := 0; i < len(smp); i += step {
			t = append(t, smp[i])
		}
		smp = t
	}
	for _, v := range confirmed {
		smp = append(smp, "VIOLATING: "+clip(v.Key, 600))
	}
	cov["samples"] = smp
	if s.Level == "model_checking" {
		cov["states"] = len(states)
		cov["transitions"] = len(trans)
		cov["traces_validated_against_impl"] = all.Evals
		cov["impl_steps_compared"] = all.Steps
	} else {
		cov["evaluations"] = all.Evals
		cov["distinct_nontrivial"] = len(nontriv)
	}
	if len(unconfirmed) > 0 {
		cov["unconfirmed_not_reported"] = unconfirmed
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property":    s.ID,
		"tier":        tier,
		"seed":        seed,
		"level":       s.Level,
		"coverage":    cov,
		"assumptions": s.Assumptions,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(confirmed),
	}
	if s.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
	_ = os.WriteFile(filepath.Join(verifDir(), "evidence", s.ID+".json"), append(b, '\n'), 0644)

	fmt.Printf("%s tier=%s cases=%d/%d distinct_outcomes=%d states=%d transitions=%d nontrivial=%d steps=%d complete=%v wall=%.1fs\n",
		s.ID, tier, all.Evals, all.Total, len(outcomes), len(states), len(trans), len(nontriv), all.Steps, all.Complete, time.Since(t0).Seconds())
	for _, u := range unconfirmed {
		fmt.Println("note: not reproducible, not reported:", u)
	}
	if len(confirmed) > 0 {
		rdir := filepath.Join(verifDir(), "replays")
		_ = os.MkdirAll(rdir, 0755)
		for _, v := range confirmed {
			p := filepath.Join(rdir, fmt.Sprintf("%s-%016x.json", s.ID, h64(v.Key)))
			rb, _ := json.MarshalIndent(map[string]string{"property": s.ID, "key": v.Key, "what": v.Msg,
				"replay": fmt.Sprintf("/verif/run.sh %s --replay %s", s.ID, p)}, "", " ")
			_ = os.WriteFile(p, append(rb, '\n'), 0644)
			fmt.Printf("case: %s\n%s\n", clip(v.Key, 1500), clip(v.Msg, 3000))
			fmt.Printf("VIOLATION property=%s replay=%s\n", s.ID, p)
		}
		os.RemoveAll(dir)
		os.Exit(1)
	}
}

func caseAt(s *Spec, tier string, at int) string {
	idx, res := 0, ""
	s.Gen(tier, func(key string) {
		if idx == at {
			res = key
		}
		idx++
	})
	return res
}
