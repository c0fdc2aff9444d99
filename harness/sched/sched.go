// Package sched runs a concurrent program under every schedule: at each
// synchronisation operation (see ../instr) one goroutine is chosen to go on.
// Schedules are enumerated depth first up to a number of preemptions.
package sched

import (
	"fmt"
	"os"
	"runtime"
	"runtime/pprof"
	"testing"
	"testing/synctest"
	"time"

	vs "github.com/innerr/ticat/pkg/verifsched"
)

type point struct {
	n     int // alternatives
	took  int
	free  bool // changing to another goroutine is no preemption here
	spent int  // preemptions before
}

// Hang is the outcome of a schedule at whose end goroutines wait for each other.
var Hang = fmt.Errorf("it hangs")

type Run struct {
	Points []point
	Err    interface{}
}

// once runs f with the choices of the prefix, then without preemptions.
func once(f func(), prefix []int) (r Run) {
	spent := 0
	ended := false
	body := func(t *testing.T) {
		c := &vs.Controller{Wake: make(chan struct{}, 1)}
		vs.Set(c)
		defer vs.Set(nil)
		done := false
		fin := make(chan interface{}, 1)
		go func() {
			c.SetMain()
			defer func() {
				var err interface{}
				if e := recover(); e != nil {
					buf := make([]byte, 4000)
					err = fmt.Sprintf("%v\n%s", e, buf[:runtime.Stack(buf, false)])
				}
				fin <- err
			}()
			f()
		}()
		order := map[int]int{} // goroutine -> number
		last := -1
		for {
			synctest.Wait()
			select {
			case r.Err = <-fin:
				done = true
			default:
			}
			ps := c.Parked()
			if len(ps) == 0 {
				if done {
					ended = true
					return
				}
				select {
				case <-c.Wake:
					continue
				default:
				}
				select {
				case <-c.Wake:
				case r.Err = <-fin:
					done = true
				case <-time.After(1000 * time.Hour):
					r.Err = Hang
					return
				}
				continue
			}
			if done {
				// what goes on when the program has ended
				c.Release(ps[0])
				continue
			}
			for _, p := range ps {
				if _, ok := order[p.Id()]; !ok {
					order[p.Id()] = len(order)
				}
			}
			// the running one first, then by age
			sorted := []*vs.Parked{}
			run := false
			for _, p := range ps {
				if p.Id() == last {
					sorted = append(sorted, p)
					run = true
				}
			}
			for i := 0; i < len(order); i++ {
				for _, p := range ps {
					if order[p.Id()] == i && p.Id() != last {
						sorted = append(sorted, p)
					}
				}
			}
			pt := point{n: len(sorted), free: !run, spent: spent}
			if i := len(r.Points); i < len(prefix) && prefix[i] < len(sorted) {
				pt.took = prefix[i]
			}
			if run && pt.took > 0 {
				spent++
			}
			r.Points = append(r.Points, pt)
			last = sorted[pt.took].Id()
			c.Release(sorted[pt.took])
		}
	}
	defer func() {
		if e := recover(); e != nil && r.Err == nil {
			// goroutines are left: no harm when the program has ended
			if s := fmt.Sprint(e); len(s) < 9 || s[:9] != "deadlock:" || !ended {
				buf := make([]byte, 6000)
				r.Err = fmt.Sprintf("%v\n%s", e, buf[:runtime.Stack(buf, false)])
			}
		}
		vs.Set(nil)
	}()
	inTest(func(t *testing.T) { synctest.Test(t, body) })
	if !ended && r.Err == nil {
		r.Err = "the schedule wasn't run"
	}
	return
}

var jobs chan func(t *testing.T)

// inTest runs f in a test, which synctest wants.
func inTest(f func(t *testing.T)) {
	if jobs == nil {
		jobs = make(chan func(t *testing.T))
		os.Args = os.Args[:1]
		go testing.Main(func(pat, str string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "x", F: func(t *testing.T) {
			for j := range jobs {
				go j(t) // a test which fails ends its goroutine
			}
		}}}, nil, nil)
	}
	var err interface{}
	done := make(chan bool)
	jobs <- func(t *testing.T) {
		defer close(done)
		defer func() { err = recover() }()
		f(t)
	}
	<-done
	if err != nil {
		panic(err)
	}
}

// Explore calls mk for the program of each schedule and its check afterwards;
// it stops at the first complaint. It returns the schedules and decisions made.
func Explore(mk func() (f func(), check func(err interface{}) string), preemptions, max int) (schedules, decisions int, bad string, trace []int, complete bool) {
	if f := os.Getenv("VERIF_PROF"); f != "" {
		o, _ := os.Create(f)
		pprof.StartCPUProfile(o)
		defer pprof.StopCPUProfile()
	}
	var prefix []int
	for {
		f, check := mk()
		races := vs.Races()
		r := once(f, prefix)
		if vs.Races() != races && r.Err == nil {
			r.Err = "a data race (see stderr)"
		}
		schedules++
		decisions += len(r.Points)
		trace = trace[:0]
		for _, p := range r.Points {
			trace = append(trace, p.took)
		}
		if bad = check(r.Err); bad != "" {
			return
		}
		// the last point with an alternative left
		i := len(r.Points) - 1
		for ; i >= 0; i-- {
			p := r.Points[i]
			if p.took+1 < p.n && (p.free || p.took > 0 || p.spent < preemptions) {
				break
			}
		}
		if i < 0 {
			return schedules, decisions, "", nil, true
		}
		prefix = append([]int{}, trace[:i]...)
		prefix = append(prefix, r.Points[i].took+1)
		if schedules >= max {
			return schedules, decisions, "", nil, false
		}
	}
}
