// Package hx is the shared driver of the bounded-exhaustive checks: it runs
// enumerated cases in parallel, collects measured coverage, turns failures into
// replayable artefacts, consults the known-findings file, and writes evidence.
package hx

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check is one registered property check.
type Check struct {
	ID    string
	Level string
	Rule  string // how cases are made and what makes one non-trivial
	// Setup declares the kinds and returns the function that enumerates them.
	Setup func(c *Ctx) func()
	// Assumptions are copied into the evidence.
	Assumptions []string
}

// Ctx is the running check.
type Ctx struct {
	Check    *Check
	Tier     string
	Seed     int64
	Verif    string // /verif
	Scratch  string // scratch directory, removed at the end
	start    time.Time
	deadline time.Time

	mu         sync.Mutex
	kinds      map[string]func(json.RawMessage) (string, error)
	cov        map[string]int64
	extra      map[string]any
	samples    []any
	sampleKeys map[string]int
	outcomes   map[uint64]struct{}
	violations []violation
	known      map[string]string // key -> description
	knownSeen  map[string]bool
	evals      atomic.Int64
	nontrivial atomic.Int64
	stopped    atomic.Bool
	timedOut   atomic.Bool
	Memo       sync.Map // for results that several cases need
	hang       time.Duration
	kindHang   map[string]time.Duration
	running    sync.Map // *ticket -> struct{}
}

type violation struct {
	kind string
	in   any
	err  error
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func Pick[T any](c *Ctx, q, t T) T {
	if c.Thorough() {
		return t
	}
	return q
}

// Count adds to a named coverage counter.
func (c *Ctx) Count(name string, n int64) {
	c.mu.Lock()
	c.cov[name] += n
	c.mu.Unlock()
}

// Set stores a coverage value.
func (c *Ctx) Set(name string, v any) {
	c.mu.Lock()
	c.extra[name] = v
	c.mu.Unlock()
}

// Done reports whether the check should stop enumerating.
func (c *Ctx) Done() bool {
	if c.stopped.Load() {
		return true
	}
	if time.Now().After(c.deadline) {
		c.timedOut.Store(true)
		c.stopped.Store(true)
		return true
	}
	return false
}

// Outcome records a distinct observed outcome.
func (c *Ctx) Outcome(s string) {
	if s == "" {
		return
	}
	c.nontrivial.Add(1)
	h := fnv.New64a()
	io.WriteString(h, s)
	k := h.Sum64()
	c.mu.Lock()
	if len(c.outcomes) < 5_000_000 {
		c.outcomes[k] = struct{}{}
	}
	c.mu.Unlock()
}

// Kind declares a kind of case. f returns a description of the observed outcome
// ("" for a trivial case) and an error when the property is broken.
func Kind[T any](c *Ctx, name string, f func(T) (string, error)) func(T) {
	guarded := func(in T) (out string, err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("panic: %v\n%s", r, firstFrames(string(debug.Stack())))
			}
		}()
		return f(in)
	}
	c.kinds[name] = func(raw json.RawMessage) (string, error) {
		var in T
		if err := json.Unmarshal(raw, &in); err != nil {
			return "", fmt.Errorf("replay: %v", err)
		}
		return guarded(in)
	}
	return func(in T) {
		if c.Done() {
			return
		}
		c.evals.Add(1)
		t := c.enter(name, in)
		out, err := guarded(in)
		c.leave(t)
		c.sample(name, in, out)
		if err != nil {
			c.fail(name, in, err)
			return
		}
		c.Outcome(name + "|" + out)
	}
}

// ticket is a case in flight.
type ticket struct {
	kind  string
	in    any
	start time.Time
}

func (c *Ctx) enter(kind string, in any) *ticket {
	t := &ticket{kind, in, time.Now()}
	c.running.Store(t, struct{}{})
	return t
}

func (c *Ctx) leave(t *ticket) { c.running.Delete(t) }

// SetHang sets the duration after which a single case counts as hanging. The
// default is 90 s for cases that take milliseconds.
func (c *Ctx) SetHang(d time.Duration) { c.hang = d }

// SetKindHang is SetHang for the cases of one kind.
func (c *Ctx) SetKindHang(kind string, d time.Duration) { c.kindHang[kind] = d }

// watchdog turns a case that never ends into a reported failure.
func (c *Ctx) watchdog() {
	for {
		time.Sleep(time.Second)
		lim := c.hang
		if lim == 0 {
			lim = 90 * time.Second
		}
		c.running.Range(func(k, _ any) bool {
			t := k.(*ticket)
			lim := lim
			if d := c.kindHang[t.kind]; d > 0 {
				lim = d
			}
			if time.Since(t.start) < lim {
				return true
			}
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			c.report(0, t.kind, t.in, fmt.Errorf("does not terminate: still running after %v\n%s", lim, buf), "not re-run")
			os.RemoveAll(c.Scratch)
			os.Exit(1)
			return false
		})
	}
}

func firstFrames(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 24 {
		l = l[:24]
	}
	return strings.Join(l, "\n")
}

func (c *Ctx) sample(kind string, in any, out string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.cov["cases_"+kind]++
	n := c.cov["cases_"+kind]
	// keep cases number 1, 10, 100, ... of each kind
	if p := pow10(n); p && c.sampleKeys[kind] < 5 {
		c.sampleKeys[kind]++
		b, _ := json.Marshal(in)
		if len(b) > 1500 {
			b, _ = json.Marshal(string(b[:1500]) + "...")
		}
		if len(out) > 300 {
			out = out[:300] + "..."
		}
		c.samples = append(c.samples, map[string]any{"kind": kind, "case": json.RawMessage(b), "outcome": out})
	}
}

func pow10(n int64) bool {
	for n%10 == 0 && n > 1 {
		n /= 10
	}
	return n == 1
}

// Key identifies a failing input in the known-findings file.
func (c *Ctx) key(kind string, in any) string {
	b, _ := json.Marshal(in)
	s := sha256.Sum256(b)
	return fmt.Sprintf("%s:%s:%x", c.Check.ID, kind, s[:8])
}

func (c *Ctx) fail(kind string, in any, err error) {
	k := c.key(kind, in)
	c.mu.Lock()
	defer c.mu.Unlock()
	if d, ok := c.known[k]; ok {
		if !c.knownSeen[k] {
			c.knownSeen[k] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Check.ID, d)
		}
		return
	}
	c.violations = append(c.violations, violation{kind, in, err})
	if len(c.violations) >= 3 && os.Getenv("HX_ALL") == "" {
		c.stopped.Store(true)
	}
}

// Each runs run over everything gen yields, on all cores, in order of dispatch.
func Each[T any](c *Ctx, run func(T), gen func(yield func(T) bool)) {
	n := runtime.NumCPU()
	EachN(c, n, run, gen)
}

// EachN is Each with n workers.
func EachN[T any](c *Ctx, n int, run func(T), gen func(yield func(T) bool)) {
	const batch = 16
	type work struct {
		v    []T
		next atomic.Int64
	}
	ch := make(chan *work, 4*n)
	at := make([]atomic.Pointer[work], n) // the batch each worker is in, for the others to help with
	one := func(w *work) bool {
		i := w.next.Add(1) - 1
		if i >= int64(len(w.v)) {
			return false
		}
		t := time.Now()
		run(w.v[i])
		if d := time.Since(t); slowLog > 0 && d > slowLog {
			b, _ := json.Marshal(w.v[i])
			fmt.Fprintf(os.Stderr, "slow: %v %.300s\n", d, b)
		}
		return true
	}
	help := func() bool {
		for i := range at {
			if w := at[i].Load(); w != nil && one(w) {
				return true
			}
		}
		return false
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				var w *work
				ok := true
				select {
				case w, ok = <-ch:
				default:
					if help() {
						continue
					}
					w, ok = <-ch
				}
				if !ok {
					break
				}
				at[i].Store(w)
				for one(w) {
				}
			}
			for help() {
			}
		}()
	}
	var cur []T
	gen(func(v T) bool {
		cur = append(cur, v)
		if len(cur) == batch {
			ch <- &work{v: cur}
			cur = nil
		}
		return !c.Done()
	})
	if len(cur) > 0 {
		ch <- &work{v: cur}
	}
	close(ch)
	wg.Wait()
}

var slowLog, _ = time.ParseDuration(os.Getenv("HX_SLOW"))

// One is Each with batches of one, for expensive cases.
func One[T any](c *Ctx, n int, run func(T), gen func(yield func(T) bool)) {
	ch := make(chan T)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for v := range ch {
				run(v)
			}
		}()
	}
	gen(func(v T) bool {
		ch <- v
		return !c.Done()
	})
	close(ch)
	wg.Wait()
}

var registry = map[string]*Check{}

// Register adds a check.
func Register(c *Check) { registry[c.ID] = c }

// Main runs the check named on the command line.
//
//	harness ID [replay FILE]
func Main() {
	if len(os.Args) < 2 {
		var ids []string
		for k := range registry {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		os.Exit(0)
	}
	ck, ok := registry[os.Args[1]]
	if !ok {
		fmt.Fprintf(os.Stderr, "no check %q\n", os.Args[1])
		os.Exit(2)
	}
	if os.Getenv("HX_LOG") == "" {
		log.SetOutput(io.Discard)
	}
	if os.Getenv("HX_CHILD") == "" && len(os.Args) == 2 {
		os.Exit(parent(ck))
	}
	limitMemory()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	budget := 400 * time.Second
	if tier == "thorough" {
		budget = 700 * time.Second
	}
	if v, err := strconv.Atoi(os.Getenv("HX_BUDGET")); err == nil && v > 0 {
		budget = time.Duration(v) * time.Second
	}
	scratch := os.Getenv("HX_SCRATCH")
	if scratch == "" {
		scratch = MkScratch(ck.ID)
		defer os.RemoveAll(scratch)
	}
	start := time.Now()
	c := &Ctx{
		Check: ck, Tier: tier, Seed: seed, Verif: verif, Scratch: scratch,
		start: start, deadline: start.Add(budget),
		kinds: map[string]func(json.RawMessage) (string, error){}, cov: map[string]int64{}, extra: map[string]any{},
		sampleKeys: map[string]int{}, outcomes: map[uint64]struct{}{},
		kindHang: map[string]time.Duration{}, known: map[string]string{}, knownSeen: map[string]bool{},
	}
	c.loadKnown()
	code := 0
	if len(os.Args) >= 4 && os.Args[2] == "replay" {
		ck.Setup(c)
		code = c.replay(os.Args[3])
	} else {
		run := ck.Setup(c)
		go c.watchdog()
		run()
		code = c.finish()
	}
	os.RemoveAll(scratch)
	os.Exit(code)
}

// MkScratch makes the scratch directory of a run.
func MkScratch(id string) string {
	base := "/dev/shm"
	if st, err := os.Stat(base); err != nil || !st.IsDir() {
		base = ""
	}
	scratch, err := os.MkdirTemp(base, "stldice-"+id+"-")
	if err != nil {
		scratch, err = os.MkdirTemp("", "stldice-"+id+"-")
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	return scratch
}

// KnownFinding is one entry of /verif/known_findings.json.
type KnownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Key      string `json:"key,omitempty"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func (c *Ctx) loadKnown() {
	b, err := os.ReadFile(filepath.Join(c.Verif, "known_findings.json"))
	if err != nil {
		return
	}
	var f struct {
		Findings []KnownFinding `json:"findings"`
	}
	if json.Unmarshal(b, &f) != nil {
		return
	}
	for _, k := range f.Findings {
		if k.Status == "known" && k.Property == c.Check.ID && k.Key != "" {
			c.known[k.Key] = k.What
		}
	}
}

type replayFile struct {
	Property string          `json:"property"`
	Kind     string          `json:"kind"`
	Key      string          `json:"key"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
	Rerun    string          `json:"rerun"`
	How      string          `json:"how"`
}

func (c *Ctx) replay(fn string) int {
	b, err := os.ReadFile(fn)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	f, ok := c.kinds[r.Kind]
	if !ok {
		fmt.Fprintf(os.Stderr, "no kind %q\n", r.Kind)
		return 2
	}
	out, err := f(r.Case)
	fmt.Printf("outcome: %s\n", out)
	if err != nil {
		fmt.Printf("error: %v\nVIOLATION property=%s replay=%s\n", err, c.Check.ID, fn)
		return 1
	}
	fmt.Println("holds")
	return 0
}

func (c *Ctx) finish() int {
	nv := 0
	rerunUntil := time.Now().Add(time.Minute) // cases that hang take long
	for _, v := range c.violations {
		in, _ := json.Marshal(v.in)
		// Re-run the case; the counts are reported, not used to suppress: a wrong
		// answer observed once is wrong (timing never enters an oracle).
		bad, n := 0, 0
		for ; n < 5 && time.Now().Before(rerunUntil); n++ {
			if _, err := c.kinds[v.kind](in); err != nil {
				bad++
			}
		}
		c.report(nv, v.kind, v.in, v.err, fmt.Sprintf("%d of %d re-runs failed", bad, n))
		nv++
	}
	cov := map[string]any{}
	c.mu.Lock()
	for k, v := range c.extra {
		cov[k] = v
	}
	for k, v := range c.cov {
		cov[k] = v
	}
	c.mu.Unlock()
	if _, ok := cov["exhaustive"]; !ok {
		cov["exhaustive"] = !c.timedOut.Load() && nv == 0
	} else if c.timedOut.Load() {
		cov["exhaustive"] = false
	}
	cov["evaluations"] = c.evals.Load()
	cov["distinct_nontrivial"] = len(c.outcomes)
	cov["rule"] = c.Check.Rule
	cov["samples"] = c.samples
	if c.Check.Level == "model_checking" {
		if _, ok := cov["states"]; !ok {
			cov["states"] = len(c.outcomes)
		}
		if _, ok := cov["transitions"]; !ok {
			cov["transitions"] = c.evals.Load()
		}
		if _, ok := cov["traces_validated_against_impl"]; !ok {
			cov["traces_validated_against_impl"] = c.evals.Load()
		}
	}
	ev := map[string]any{
		"property": c.Check.ID, "tier": c.Tier, "seed": c.Seed, "level": c.Check.Level,
		"coverage": cov, "wall_s": time.Since(c.start).Seconds(), "violations": nv,
		"assumptions": c.Check.Assumptions,
	}
	if c.Check.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		os.MkdirAll(filepath.Join(c.Verif, "evidence"), 0o755)
		err = os.WriteFile(filepath.Join(c.Verif, "evidence", c.Check.ID+".json"), append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
	}
	fmt.Printf("%s %s: %d cases, %d distinct outcomes, exhaustive=%v, %d violations, %.1fs\n",
		c.Check.ID, c.Tier, c.evals.Load(), len(c.outcomes), cov["exhaustive"], nv, time.Since(c.start).Seconds())
	if nv > 0 {
		return 1
	}
	return 0
}

// report writes the replay artefact and prints the VIOLATION line.
func (c *Ctx) report(n int, kind string, v any, e error, rerun string) {
	in, _ := json.Marshal(v)
	rf := replayFile{
		Property: c.Check.ID, Kind: kind, Key: c.key(kind, v), Error: e.Error(), Case: in, Rerun: rerun,
		How: fmt.Sprintf("bash %s/run.sh %s replay <this file>", c.Verif, c.Check.ID),
	}
	b, _ := json.MarshalIndent(rf, "", " ")
	fn := WriteReplay(c.Verif, fmt.Sprintf("%s-%d.json", c.Check.ID, n), append(b, '\n'))
	es := e.Error()
	if len(es) > 1200 {
		es = es[:1200] + "..."
	}
	fmt.Printf("%s/%s: %s\n  case: %.600s\n  %s\n", c.Check.ID, kind, es, in, rerun)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Check.ID, fn)
}

// WriteReplay writes a replay artefact and returns its path.
func WriteReplay(verif, name string, b []byte) string {
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0o755)
	fn := filepath.Join(dir, name)
	if err := os.WriteFile(fn, b, 0o644); err != nil {
		fn = filepath.Join(os.TempDir(), "stldice-replay-"+name)
		os.WriteFile(fn, b, 0o644)
	}
	return fn
}

// Guard runs f in a goroutine and reports whether it finished before d elapsed.
// It is only used to turn a hang (deadlock) into a reported failure; d is far
// beyond any legitimate duration, and a caller must reproduce before believing.
func Guard(d time.Duration, f func() error) (err error, finished bool) {
	done := make(chan error, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Errorf("panic: %v", r)
			}
		}()
		done <- f()
	}()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case err := <-done:
		return err, true
	case <-t.C:
		return nil, false
	}
}

var tmpN atomic.Int64

// Tmp returns a fresh scratch file name.
func (c *Ctx) Tmp(suffix string) string {
	return filepath.Join(c.Scratch, fmt.Sprintf("t%d%s", tmpN.Add(1), suffix))
}

// TmpDir returns a fresh scratch directory.
func (c *Ctx) TmpDir() string {
	d := c.Tmp("")
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	return d
}
