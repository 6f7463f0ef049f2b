//go:build verifsched

// Package drv explores all schedules of a scenario within a deviation bound, on the real code
// under the controlled scheduler that the harness adds to package runtime.
package drv

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"syscall"
	"time"
	"unsafe"
)

// Scenario is one closed program over the code under test.
type Scenario struct {
	// Body runs under the controlled scheduler. It returns a description of the outcome,
	// which may differ between schedules, and an error if the property is broken.
	Body func() (outcome string, err error)
	// Before prepares each run, outside of the controlled scheduler.
	Before func()
	// After judges a finished run outside of the controlled scheduler.
	After func(res runtime.VerifResult) error
	// LeakOK allows goroutines that never end.
	LeakOK bool
	// GCEvery is the number of runs between garbage collections, 100 by default.
	GCEvery int64
	Config  runtime.VerifConfig
}

// Result is what the explorer reports about a scenario.
type Result struct {
	Runs       int64
	Points     int64 // choice points passed
	MaxPoints  int
	Steps      int64
	Goroutines int
	Outcomes   []string
	Exhausted  bool
	Bound      int
	Diverged   int64
	Pruned     int64
	States     int
	Seconds    float64
	Violation  string   `json:",omitempty"`
	Plan       []uint16 `json:",omitempty"`
}

type frame struct {
	p    runtime.VerifPoint
	cost int // cost of the choices before this one
}

// realSeconds is a clock that is not virtual.
func realSeconds() float64 {
	var tv syscall.Timeval
	syscall.Gettimeofday(&tv)
	return float64(tv.Sec) + float64(tv.Usec)/1e6
}

func cost(p runtime.VerifPoint) int {
	if p.Chosen >= p.Free {
		return 1
	}
	return 0
}

// Main runs one scenario, chosen by flags, and writes the result as JSON.
func Main(find func(name string) *Scenario) {
	name := flag.String("scenario", "", "")
	bound := flag.Int("bound", 2, "")
	max := flag.Int64("max", 1<<62, "stop after this many schedules")
	secs := flag.Float64("seconds", 1e9, "stop after this time")
	plan := flag.String("plan", "", "replay this plan (JSON) only")
	note := flag.String("note", "", "file that holds the plan of the current run")
	out := flag.String("out", "", "")
	verbose := flag.Bool("v", false, "")
	flag.Parse()
	if !*verbose {
		log.SetOutput(io.Discard)
	}
	s := find(*name)
	if s == nil {
		fmt.Fprintf(os.Stderr, "no scenario %q\n", *name)
		os.Exit(3)
	}
	if s.GCEvery == 0 {
		s.GCEvery = 100
	}
	debug.SetGCPercent(-1)
	runtime.GOMAXPROCS(1)
	var mem []byte
	if *note != "" {
		f, err := os.OpenFile(*note, os.O_RDWR|os.O_CREATE, 0o644)
		if err == nil {
			err = f.Truncate(1 << 18)
		}
		if err == nil {
			mem, err = syscall.Mmap(int(f.Fd()), 0, 1<<18, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	finish := func(r *Result) {
		b, _ := json.Marshal(r)
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		os.Exit(0)
	}
	r := &Result{Bound: *bound}
	if *plan != "" {
		var p []uint16
		if err := json.Unmarshal([]byte(*plan), &p); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		_, outcome, err := s.run(p, mem)
		r.Runs = 1
		r.Outcomes = []string{outcome}
		if err != nil {
			r.Violation, r.Plan = err.Error(), p
		}
		finish(r)
	}
	s.Config.Lazy = *bound < 0
	start := realSeconds()
	seen := map[string]bool{}
	visited := map[uint64]int{} // state -> largest rest of the budget that it was left with
	var stack []frame
	var next []uint16
	limit := *bound
	if limit < 0 {
		limit = 1 << 30
	}
	for {
		res, outcome, err := s.run(next, mem)
		r.Runs++
		if len(res.Log) < len(next) {
			res.Diverged = true
		}
		if res.Diverged {
			r.Diverged++
		}
		if res.Steps > 0 {
			r.Steps += int64(res.Steps)
		}
		r.Points += int64(len(res.Log))
		if len(res.Log) > r.MaxPoints {
			r.MaxPoints = len(res.Log)
		}
		if len(seen) < 200 {
			if len(outcome) > 200 {
				h := fnv.New64a()
				io.WriteString(h, outcome)
				outcome = fmt.Sprintf("%.60s… %x", outcome, h.Sum64())
			}
			seen[outcome] = true
		}
		if err != nil {
			r.Violation = err.Error()
			for _, p := range res.Log {
				r.Plan = append(r.Plan, p.Chosen)
			}
			// Choices after the plan are the defaults.
			for len(r.Plan) > 0 && r.Plan[len(r.Plan)-1] == 0 {
				r.Plan = r.Plan[:len(r.Plan)-1]
			}
			if r.Plan == nil {
				r.Plan = []uint16{}
			}
			break
		}
		// Extend the stack by the choices of this run and backtrack.
		keep := len(next)
		if keep > len(stack) {
			keep = len(stack)
		}
		stack = stack[:keep]
		for i := range stack {
			if i < len(res.Log) && (stack[i].p.N != res.Log[i].N || stack[i].p.Free != res.Log[i].Free) {
				r.Diverged++
			}
		}
		c := 0
		if n := len(stack); n > 0 {
			c = stack[n-1].cost + cost(stack[n-1].p)
		}
		for i := len(stack); i < len(res.Log); i++ {
			rest := limit - c + 1
			if visited[res.Log[i].State] >= rest {
				r.Pruned++
				break // all continuations are explored elsewhere
			}
			visited[res.Log[i].State] = rest
			stack = append(stack, frame{res.Log[i], c})
			c += cost(res.Log[i])
		}
		for len(stack) > 0 {
			top := &stack[len(stack)-1]
			if top.p.Chosen+1 < top.p.N {
				try := top.p
				try.Chosen++
				if top.cost+cost(try) <= limit {
					top.p = try
					break
				}
			}
			stack = stack[:len(stack)-1]
		}
		if len(stack) == 0 {
			r.Exhausted = true
			break
		}
		next = next[:0]
		for _, f := range stack {
			next = append(next, f.p.Chosen)
		}
		if r.Runs >= *max || (realSeconds()-start) > *secs {
			break
		}
		if r.Runs%s.GCEvery == 0 {
			runtime.GC()
		}
	}
	r.States = len(visited)
	for o := range seen {
		r.Outcomes = append(r.Outcomes, o)
	}
	sort.Strings(r.Outcomes)
	r.Seconds = (realSeconds() - start)
	finish(r)
}

func (s *Scenario) run(plan []uint16, mem []byte) (res runtime.VerifResult, outcome string, err error) {
	if s.Before != nil {
		s.Before()
	}
	if mem != nil {
		n := len(plan)
		if n > 1<<16 {
			n = 1 << 16
		}
		*(*uint32)(unsafe.Pointer(&mem[0])) = uint32(n)
		for i, p := range plan[:n] {
			*(*uint16)(unsafe.Pointer(&mem[4+2*i])) = p
		}
	}
	races := Races()
	cfg := s.Config
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 20000
	}
	if cfg.MaxJumps == 0 {
		cfg.MaxJumps = 500
	}
	res = runtime.VerifRun(func() { outcome, err = s.Body() }, plan, cfg)
	switch {
	case Races() != races:
		err = fmt.Errorf("data race (see the report above)")
	case res.Status == runtime.VerifSteps:
		err = fmt.Errorf("no end after %v scheduling points: livelock", res.Steps)
	case res.Status == runtime.VerifJumps:
		err = fmt.Errorf("no end after %v timers (%v of virtual time)", res.Jumps, time.Duration(res.Elapsed))
	case res.Status != runtime.VerifDone:
		fmt.Fprintf(os.Stderr, "the explorer's limits are too small: %+v\n", res.Status)
		os.Exit(3)
	case !res.Root:
		err = fmt.Errorf("deadlock: %v goroutines wait for ever", res.Live)
	case err != nil:
	case res.Live > 0 && !s.LeakOK:
		err = fmt.Errorf("%v goroutines are left behind, waiting for ever", res.Live)
	case s.After != nil:
		err = s.After(res)
	}
	return res, outcome, err
}
