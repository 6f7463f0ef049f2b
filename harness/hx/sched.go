package hx

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type edit struct{ file, old, new string }

// The changes to the Go runtime and standard library that put the goroutines of the
// code under test under the control of sched/rt/verif.go.txt. Each must apply exactly once.
var schedEdits = []edit{
	// Identity of controlled goroutines.
	{"runtime/runtime2.go", "	runningCleanups atomic.Bool\n", "	runningCleanups atomic.Bool\n	verif, verifYielded, verifSched, verifNoWake bool\n	verifID, verifFiles int\n	verifHash uint64\n"},
	{"runtime/proc.go", "	newg.runningCleanups.Store(false)\n", "	newg.runningCleanups.Store(false)\n	verifNewproc(newg, callergp)\n"},
	{"runtime/proc.go", "	gp.fipsOnlyBypass = false\n	gp.secret = 0\n", "	gp.fipsOnlyBypass = false\n	gp.secret = 0\n	verifExit(gp)\n"},
	// Controlled goroutines have their own run queue.
	{"runtime/proc.go", "const randomizeScheduler = raceenabled\n", "const randomizeScheduler = false\n"},
	{"runtime/proc.go", "func runqput(pp *p, gp *g, next bool) {\n", "func runqput(pp *p, gp *g, next bool) {\n	if verifPut(gp) {\n		return\n	}\n"},
	{"runtime/proc.go", "func globrunqput(gp *g) {\n	assertLockHeld(&sched.lock)\n", "func globrunqput(gp *g) {\n	if verifPut(gp) {\n		gp.verifSched = true\n		return\n	}\n	assertLockHeld(&sched.lock)\n"},
	{"runtime/proc.go", "	// Poll network.\n	// This netpoll is only an optimization before we resort to stealing.\n", "	if verifOn {\n		if gp := verifPick(pollUntil); gp != nil {\n			return gp, false, false\n		}\n		goto top\n	}\n\n	// Poll network.\n	// This netpoll is only an optimization before we resort to stealing.\n"},
	// No preemption by time.
	{"runtime/proc.go", "func preemptone(pp *p) bool {\n", "func preemptone(pp *p) bool {\n	if verifOn {\n		return false\n	}\n"},
	// The check is made while the thread cannot leave its system call: a run starts and ends with the P in hand.
	{"runtime/proc.go", "			// Not in a syscall, or something changed out from under us.\n			goto done\n		}\n", "			// Not in a syscall, or something changed out from under us.\n			goto done\n		}\n		if verifOn {\n			thread.resume()\n			goto done\n		}\n"},
	{"runtime/mgcscavenge.go", "		released, workTime := scavenger.run()\n", "		if true {\n			scavenger.park()\n			continue\n		}\n		released, workTime := scavenger.run()\n"},
	// Virtual time.
	{"runtime/time_nofake.go", "func nanotime() int64 {\n	return nanotime1()\n", "func nanotime() int64 {\n	if verifOn {\n		return verifNow\n	}\n	return nanotime1() + verifOffset\n"},
	{"runtime/time_linux_amd64.s", "TEXT time·now<ABIInternal>(SB)", "TEXT ·verifRealTime<ABIInternal>(SB)"},
	{"runtime/timeasm.go", "func time_now() (sec int64, nsec int32, mono int64)\n", "func time_now() (sec int64, nsec int32, mono int64) {\n	if verifOn {\n		return 1700000000 + (verifNow-verif.start)/1e9, int32((verifNow - verif.start) % 1e9), verifNow\n	}\n	sec, nsec, mono = verifRealTime()\n	return sec, nsec, mono + verifOffset\n}\n\nfunc verifRealTime() (sec int64, nsec int32, mono int64)\n"},
	// Scheduling points.
	{"runtime/chan.go", "func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n", "func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n	if !verifOn {\n		return verifChansend(c, ep, block, callerpc)\n	}\n	i := verifChanPre(c, block, true)\n	ok := verifChansend(c, ep, block, callerpc)\n	verifChanPost(c, i, true, false)\n	return ok\n}\n\nfunc verifChansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n"},
	{"runtime/chan.go", "	lock mutex\n}\n", "	lock mutex\n	verifS, verifR uint32\n	verifMixed bool\n}\n"},
	{"runtime/chan.go", "func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n", "func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n	if !verifOn {\n		return verifChanrecv(c, ep, block)\n	}\n	i := verifChanPre(c, block, false)\n	selected, received = verifChanrecv(c, ep, block)\n	verifChanPost(c, i, false, received)\n	return selected, received\n}\n\nfunc verifChanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n"},
	{"runtime/chan.go", "func closechan(c *hchan) {\n", "func closechan(c *hchan) {\n	verifChanClose(c)\n"},
	{"runtime/select.go", "func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n", "func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n	verifYield()\n	verifFirst := verifSelectStart(nsends + nrecvs)\n"},
	{"runtime/select.go", "		j := cheaprandn(uint32(norder + 1))\n", "		j := cheaprandn(uint32(norder + 1))\n		if verifFirst >= 0 {\n			j = uint32(norder)\n		}\n"},
	{"runtime/select.go", "	pollorder = pollorder[:norder]\n", "	pollorder = pollorder[:norder]\n	if verifFirst > 0 && verifFirst < norder {\n		for ; verifFirst > 0; verifFirst-- {\n			first := pollorder[0]\n			copy(pollorder, pollorder[1:])\n			pollorder[norder-1] = first\n		}\n	}\n"},
	{"sync/runtime.go", "func runtime_Semacquire(s *uint32)\n", "func runtime_Semacquire(s *uint32)\n\nfunc runtime_verifOp(p unsafe.Pointer)\nfunc runtime_verifTouch(p unsafe.Pointer)\nfunc runtime_verifTouchLazy(p unsafe.Pointer)\nfunc runtime_verifAdd(p unsafe.Pointer)\nfunc runtime_verifYield()\nfunc runtime_verifNoWake(on bool)\nfunc runtime_verifNoWakeLazy(on bool)\n"},
	{"sync/mutex.go", "func (m *Mutex) Lock() {\n	m.mu.Lock()\n", "func (m *Mutex) Lock() {\n	runtime_verifYield()\n	runtime_verifTouchLazy(unsafe.Pointer(m))\n	runtime_verifNoWakeLazy(true)\n	m.mu.Lock()\n	runtime_verifNoWakeLazy(false)\n	runtime_verifTouch(unsafe.Pointer(m))\n"},
	{"sync/mutex.go", "func (m *Mutex) TryLock() bool {\n", "func (m *Mutex) TryLock() bool {\n	runtime_verifOp(unsafe.Pointer(m))\n"},
	{"sync/mutex.go", "func (m *Mutex) Unlock() {\n", "func (m *Mutex) Unlock() {\n	runtime_verifTouch(unsafe.Pointer(m))\n"},
	{"sync/rwmutex.go", "func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n	runtime_verifOp(unsafe.Pointer(rw))\n	defer runtime_verifTouch(unsafe.Pointer(rw))\n"},
	{"sync/rwmutex.go", "func (rw *RWMutex) TryRLock() bool {\n", "func (rw *RWMutex) TryRLock() bool {\n	runtime_verifOp(unsafe.Pointer(rw))\n"},
	{"sync/rwmutex.go", "func (rw *RWMutex) RUnlock() {\n", "func (rw *RWMutex) RUnlock() {\n	runtime_verifTouch(unsafe.Pointer(rw))\n"},
	{"sync/rwmutex.go", "func (rw *RWMutex) Lock() {\n", "func (rw *RWMutex) Lock() {\n	runtime_verifOp(unsafe.Pointer(rw))\n	defer runtime_verifTouch(unsafe.Pointer(rw))\n"},
	{"sync/rwmutex.go", "func (rw *RWMutex) TryLock() bool {\n", "func (rw *RWMutex) TryLock() bool {\n	runtime_verifOp(unsafe.Pointer(rw))\n"},
	{"sync/rwmutex.go", "func (rw *RWMutex) Unlock() {\n", "func (rw *RWMutex) Unlock() {\n	runtime_verifTouch(unsafe.Pointer(rw))\n"},
	{"sync/mutex.go", "	isync \"internal/sync\"\n", "	isync \"internal/sync\"\n	\"unsafe\"\n"},
	{"sync/waitgroup.go", "func (wg *WaitGroup) Add(delta int) {\n", "func (wg *WaitGroup) Add(delta int) {\n	runtime_verifYield()\n	runtime_verifAdd(unsafe.Pointer(wg))\n"},
	{"sync/waitgroup.go", "func (wg *WaitGroup) Wait() {\n", "func (wg *WaitGroup) Wait() {\n	runtime_verifYield()\n	defer runtime_verifTouch(unsafe.Pointer(wg))\n"},
	{"sync/waitgroup.go", "			runtime_SemacquireWaitGroup(&wg.sema, synctestDurable)\n", "			runtime_verifNoWake(true)\n			runtime_SemacquireWaitGroup(&wg.sema, synctestDurable)\n			runtime_verifNoWake(false)\n"},
	{"sync/cond.go", "func (c *Cond) Wait() {\n", "func (c *Cond) Wait() {\n	runtime_verifOp(unsafe.Pointer(c))\n"},
	{"sync/cond.go", "func (c *Cond) Signal() {\n", "func (c *Cond) Signal() {\n	runtime_verifOp(unsafe.Pointer(c))\n"},
	{"sync/cond.go", "func (c *Cond) Broadcast() {\n", "func (c *Cond) Broadcast() {\n	runtime_verifOp(unsafe.Pointer(c))\n"},
	{"sync/once.go", "func (o *Once) Do(f func()) {\n", "func (o *Once) Do(f func()) {\n	runtime_verifOp(unsafe.Pointer(o))\n"},
	{"sync/once.go", "	\"sync/atomic\"\n", "	\"sync/atomic\"\n	\"unsafe\"\n"},
	{"context/context.go", "func (c *cancelCtx) Err() error {\n", "func (c *cancelCtx) Err() error {\n	runtime_verifOp(unsafe.Pointer(c))\n"},
	{"context/context.go", "	c.err.Store(err)\n", "	c.err.Store(err)\n	runtime_verifTouch(unsafe.Pointer(c))\n"},
	{"context/context.go", "	\"time\"\n)\n", "	\"time\"\n	\"unsafe\"\n)\n\n//go:linkname runtime_verifOp\nfunc runtime_verifOp(p unsafe.Pointer)\n\n//go:linkname runtime_verifTouch\nfunc runtime_verifTouch(p unsafe.Pointer)\n"},
	{"runtime/proc.go", "func ready(gp *g, traceskip int, next bool) {\n", "func ready(gp *g, traceskip int, next bool) {\n	verifWake(gp)\n"},
	{"runtime/select.go", "		if cas.c.timer != nil {\n			cas.c.timer.maybeRunChan(cas.c)\n		}\n\n		j :=", "		verifChanSelect(cas.c)\n		if cas.c.timer != nil {\n			cas.c.timer.maybeRunChan(cas.c)\n		}\n\n		j :="},
	{"os/file_unix.go", "func rename(oldname, newname string) error {\n", "func rename(oldname, newname string) error {\n	runtime_verifYield()\n"},
	{"os/file_unix.go", "func Remove(name string) error {\n", "func Remove(name string) error {\n	runtime_verifYield()\n"},
	{"os/file.go", "func (f *File) Write(b []byte) (n int, err error) {\n", "func (f *File) Write(b []byte) (n int, err error) {\n	runtime_verifYield()\n"},
	{"os/file_unix.go", "func openFileNolog(name string, flag int, perm FileMode) (*File, error) {\n", "func runtime_verifYield() // in package runtime\nfunc runtime_verifFile(delta int)\n\nfunc openFileNolog(name string, flag int, perm FileMode) (*File, error) {\n	runtime_verifYield()\n	f, err := verifOpenFile(name, flag, perm)\n	if err == nil {\n		runtime_verifFile(1)\n	}\n	return f, err\n}\n\nfunc verifOpenFile(name string, flag int, perm FileMode) (*File, error) {\n"},
	{"os/file_unix.go", "func (file *file) close() error {\n	if file == nil {\n		return syscall.EINVAL\n	}\n", "func (file *file) close() error {\n	if file == nil {\n		return syscall.EINVAL\n	}\n	runtime_verifYield()\n	runtime_verifFile(-1)\n"},
	// Compression without its large tables: it is not what is checked, and costs most of the time.
	{"compress/flate/deflate.go", "	if err := dw.d.init(w, level); err != nil {\n		return nil, err\n	}\n	return &dw, nil\n}\n\n// NewWriterDict", "	if err := dw.d.init(w, NoCompression); err != nil {\n		return nil, err\n	}\n	return &dw, nil\n}\n\n// NewWriterDict"},
	{"compress/flate/token.go", "	tokens    [65536]token\n", "	tokens    [256]token\n"},
	// Iteration over small maps.
	{"internal/runtime/maps/runtime.go", "//go:linkname rand\nfunc rand() uint64\n", "//go:linkname rand\nfunc rand() uint64\n\nfunc verifMapChoose(used uint64) int\n\nfunc verifMapSeed() bool\n\nfunc verifSeed() uint64 {\n	if verifMapSeed() {\n		return 12345\n	}\n	return rand()\n}\n"},
	{"internal/runtime/maps/table.go", "	it.entryOffset = rand()\n	it.dirOffset = rand()\n", "	it.entryOffset = rand()\n	it.dirOffset = rand()\n	if c := verifMapChoose(m.used); c >= 0 {\n		it.entryOffset, it.dirOffset = 0, 0\n		if dirIdx < 0 {\n			for i := uintptr(0); i < abi.MapGroupSlots; i++ {\n				if (groupSmall.ctrls().get(i) & ctrlEmpty) == ctrlEmpty {\n					continue\n				}\n				if c == 0 {\n					it.entryOffset = uint64(i)\n					break\n				}\n				c--\n			}\n		}\n	}\n"},
}

// grpcEdits replace the network under the gRPC clients of the services.
var grpcEdits = []edit{
	{"clientconn.go", "func NewClient(target string, opts ...DialOption) (conn *ClientConn, err error) {\n", "func NewClient(target string, opts ...DialOption) (conn *ClientConn, err error) {\n	if VerifInvoke != nil {\n		return &ClientConn{target: target}, nil\n	}\n"},
	{"clientconn.go", "func DialContext(ctx context.Context, target string, opts ...DialOption) (conn *ClientConn, err error) {\n", "// VerifInvoke replaces the network.\nvar VerifInvoke func(ctx context.Context, target, method string, args, reply any) error\n\nfunc DialContext(ctx context.Context, target string, opts ...DialOption) (conn *ClientConn, err error) {\n	if VerifInvoke != nil {\n		if target == \"\" {\n			return nil, errors.New(\"received empty target\")\n		}\n		return &ClientConn{target: target}, nil\n	}\n"},
	{"clientconn.go", "func (cc *ClientConn) Close() error {\n", "func (cc *ClientConn) Close() error {\n	if VerifInvoke != nil {\n		return nil\n	}\n"},
	{"server.go", "func (s *Server) Serve(lis net.Listener) error {\n", "// VerifServing is thrown when a server would begin to serve VerifService.\nconst VerifServing = \"verif: serving\"\n\n// VerifService is the last service that was registered.\nvar VerifService interface{}\n\nfunc (s *Server) Serve(lis net.Listener) error {\n	if VerifService != nil {\n		lis.Close()\n		panic(VerifServing)\n	}\n"},
	{"server.go", "func (s *Server) RegisterService(sd *ServiceDesc, ss any) {\n", "func (s *Server) RegisterService(sd *ServiceDesc, ss any) {\n	VerifService = ss\n"},
	{"call.go", "func (cc *ClientConn) Invoke(ctx context.Context, method string, args, reply any, opts ...CallOption) error {\n", "func (cc *ClientConn) Invoke(ctx context.Context, method string, args, reply any, opts ...CallOption) error {\n	if VerifInvoke != nil {\n		return VerifInvoke(ctx, cc.target, method, args, reply)\n	}\n"},
}

var atomicMethod = regexp.MustCompile(`(?m)^func \(x \*\w+(\[T\])?\) (Load|Store|Swap|CompareAndSwap|Add|And|Or)\(.*\{`)

var atomicCall = regexp.MustCompile(`\batomic\.((?:Load|Store|Swap|CompareAndSwap|Add|And|Or)(?:Int32|Uint32|Int64|Uint64|Uintptr|Pointer)\()`)

// atomicFuncs returns the functions that replace the plain functions of sync/atomic in the code under test.
func atomicFuncs() string {
	var sb strings.Builder
	for _, t := range []string{"int32", "uint32", "int64", "uint64", "uintptr", "unsafe.Pointer"} {
		T := strings.ToUpper(t[:1]) + t[1:]
		if t == "unsafe.Pointer" {
			T = "Pointer"
		}
		for _, f := range []struct{ name, params, args, result string }{
			{"Load", "", "", "T"}, {"Store", ", v T", ", v", ""}, {"Swap", ", v T", ", v", "T"}, {"CompareAndSwap", ", o, v T", ", o, v", "bool"},
			{"Add", ", v T", ", v", "T"}, {"And", ", v T", ", v", "T"}, {"Or", ", v T", ", v", "T"},
		} {
			if T == "Pointer" && len(f.name) < 4 && f.name != "Load" {
				continue
			}
			ret := ""
			if f.result != "" {
				ret = "return "
			}
			r := strings.NewReplacer("T", t)
			fmt.Fprintf(&sb, "\nfunc Verif%s%s(p *%s%s) %s {\n\truntime_verifOp(unsafe.Pointer(p))\n\t%s%s%s(p%s)\n}\n", f.name, T, t, r.Replace(f.params), r.Replace(f.result), ret, f.name, T, f.args)
		}
	}
	return sb.String()
}

var mainFunc = regexp.MustCompile(`(?m)^func main\(`)

// applyEdits writes the edited files of a directory tree into dir and adds them to the overlay.
func applyEdits(root string, edits []edit, dir string, overlay map[string]string) error {
	text := map[string]string{}
	for _, e := range edits {
		s, ok := text[e.file]
		if !ok {
			b, err := os.ReadFile(filepath.Join(root, e.file))
			if err != nil {
				return err
			}
			s = string(b)
		}
		if n := strings.Count(s, e.old); n != 1 {
			return fmt.Errorf("%v: %d places for %.60q", e.file, n, e.old)
		}
		text[e.file] = strings.Replace(s, e.old, e.new, 1)
	}
	for f, s := range text {
		out := filepath.Join(dir, strings.ReplaceAll(f, "/", "_"))
		if err := os.WriteFile(out, []byte(s), 0o644); err != nil {
			return err
		}
		overlay[filepath.Join(root, f)] = out
	}
	return nil
}

// SchedOverlay writes the overlay that brings the goroutines of the code under test
// under the control of a plan, and returns its file name.
func (c *Ctx) SchedOverlay() (string, error) {
	dir := c.TmpDir()
	overlay := map[string]string{}
	src := filepath.Join(GoRoot(), "src")
	edits := append([]edit{}, schedEdits...)
	if err := applyEdits(src, edits, dir, overlay); err != nil {
		return "", err
	}
	for _, f := range []string{"map.go"} { // Large maps iterate in the same order in every run.
		b, err := os.ReadFile(filepath.Join(src, "internal/runtime/maps", f))
		if err != nil {
			return "", err
		}
		s := strings.ReplaceAll(string(b), "m.seed = uintptr(rand())", "m.seed = uintptr(verifSeed())")
		out := filepath.Join(dir, "maps_"+f)
		if err := os.WriteFile(out, []byte(s), 0o644); err != nil {
			return "", err
		}
		overlay[filepath.Join(src, "internal/runtime/maps", f)] = out
	}
	b, err := os.ReadFile(filepath.Join(src, "sync/atomic/type.go")) // typed atomic operations are scheduling points
	if err != nil {
		return "", err
	}
	n := 0
	text := atomicMethod.ReplaceAllStringFunc(string(b), func(m string) string {
		n++
		return strings.Replace(m, "{", "{ runtime_verifOp(unsafe.Pointer(x));", 1)
	})
	if n < 40 {
		return "", fmt.Errorf("only %d atomic methods found", n)
	}
	text += "\n//go:linkname runtime_verifOp\nfunc runtime_verifOp(p unsafe.Pointer)\n"
	text += atomicFuncs()
	at := filepath.Join(dir, "atomic_type.go")
	if err := os.WriteFile(at, []byte(text), 0o644); err != nil {
		return "", err
	}
	overlay[filepath.Join(src, "sync/atomic/type.go")] = at
	for _, root := range []string{"/repo", filepath.Join(c.Verif, "harness/sched")} { // and so are the functions, where the code under test calls them
		err := filepath.WalkDir(root, func(path string, d os.DirEntry, err error) error {
			if err != nil || d.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
				return err
			}
			b, err := os.ReadFile(path)
			if err != nil || !strings.Contains(string(b), `"sync/atomic"`) {
				return err
			}
			s := atomicCall.ReplaceAllString(string(b), "atomic.Verif$1")
			if s == string(b) {
				return nil
			}
			out := filepath.Join(dir, fmt.Sprintf("call_%d.go", len(overlay)))
			overlay[path] = out
			return os.WriteFile(out, []byte(s), 0o644)
		})
		if err != nil {
			return "", err
		}
	}
	// The slave is a command: its sources become part of the package of its scenarios.
	files, _ := filepath.Glob("/repo/server/stldice-slave/*.go")
	for i, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		name := f
		if o := overlay[f]; o != "" {
			name = o
		}
		b, err := os.ReadFile(name)
		if err != nil {
			return "", err
		}
		out := filepath.Join(dir, fmt.Sprintf("slave_%d.go", i))
		if err := os.WriteFile(out, mainFunc.ReplaceAll(b, []byte("func slaveMain(")), 0o644); err != nil {
			return "", err
		}
		overlay[filepath.Join(c.Verif, "harness/sched/slave", fmt.Sprintf("code%d.go", i))] = out
	}
	rt := filepath.Join(c.Verif, "harness/sched/rt/verif.go.txt")
	overlay[filepath.Join(src, "runtime/verif.go")] = rt
	b, _ = json.Marshal(map[string]any{"Replace": overlay})
	out := filepath.Join(dir, "overlay.json")
	return out, os.WriteFile(out, b, 0o644)
}

// GrpcMod copies gRPC without its network and returns the name of a go.mod that uses the copy
// (files of the module cache cannot be overlaid).
func (c *Ctx) GrpcMod() (string, error) {
	h := filepath.Join(c.Verif, "harness")
	l := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", "google.golang.org/grpc")
	l.Dir = h
	o, err := l.Output()
	if err != nil {
		return "", err
	}
	src, dir := strings.TrimSpace(string(o)), c.TmpDir()
	err = filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, err := filepath.Rel(src, p)
		if err != nil {
			return err
		}
		out := filepath.Join(dir, rel)
		switch {
		case d.IsDir():
			switch d.Name() {
			case "testdata", "examples", "test", "interop", "benchmark", "Documentation":
				return filepath.SkipDir
			}
			return os.MkdirAll(out, 0o755)
		case strings.HasSuffix(p, "_test.go") || !strings.HasSuffix(p, ".go") && d.Name() != "go.mod":
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(out, b, 0o644)
	})
	if err != nil {
		return "", err
	}
	for _, e := range grpcEdits {
		f := filepath.Join(dir, e.file)
		b, err := os.ReadFile(f)
		if err != nil {
			return "", err
		}
		if n := strings.Count(string(b), e.old); n != 1 {
			return "", fmt.Errorf("%v: %d places for %.60q", e.file, n, e.old)
		}
		if err := os.WriteFile(f, []byte(strings.Replace(string(b), e.old, e.new, 1)), 0o644); err != nil {
			return "", err
		}
	}
	mod := filepath.Join(dir, "verif.mod")
	b, err := os.ReadFile(filepath.Join(h, "go.mod"))
	if err != nil {
		return "", err
	}
	b = append(b, []byte("\nreplace google.golang.org/grpc => "+dir+"\n")...)
	if err := os.WriteFile(mod, b, 0o644); err != nil {
		return "", err
	}
	if b, err = os.ReadFile(filepath.Join(h, "go.sum")); err != nil {
		return "", err
	}
	return mod, os.WriteFile(filepath.Join(dir, "verif.sum"), b, 0o644)
}

// Prog is a program of scenarios that runs under the controlled scheduler.
type Prog struct {
	c    *Ctx
	pkg  string
	grpc bool
	once sync.Once
	bin  string
}

// SchedCase is one scenario, explored up to a number of deviations from the default schedule,
// or the replay of one schedule of it.
type SchedCase struct {
	Scenario string
	Bound    int
	Plan     []uint16 `json:",omitempty"`
	Replay   bool     `json:",omitempty"`
}

// SchedProg declares a program.
func (c *Ctx) SchedProg(pkg string, grpc bool) *Prog {
	return &Prog{c: c, pkg: pkg, grpc: grpc}
}

// Build builds the program into a file.
func (p *Prog) Build(out string) {
	if err := os.Rename(p.build(), out); err != nil {
		panic(err)
	}
}

func (p *Prog) build() string {
	p.once.Do(func() {
		c := p.c
		h := filepath.Join(c.Verif, "harness")
		fatal := func(err error, out []byte) {
			fmt.Fprintf(os.Stderr, "building %s: %v\n%s", p.pkg, err, out)
			os.Exit(3)
		}
		ov, err := c.SchedOverlay()
		if err != nil {
			fatal(err, nil)
		}
		args := []string{"build", "-race", "-trimpath", "-tags", "verifsched", "-overlay", ov}
		if p.grpc {
			mod, err := c.GrpcMod()
			if err != nil {
				fatal(err, nil)
			}
			args = append(args, "-modfile", mod)
		}
		p.bin = c.Tmp("-" + filepath.Base(p.pkg))
		b := exec.Command("go", append(args, "-o", p.bin, "./"+p.pkg)...)
		b.Dir = h
		if o, err := b.CombinedOutput(); err != nil {
			fatal(err, o)
		}
	})
	return p.bin
}

type schedResult struct {
	Runs, Points, Steps, Diverged, Pruned, States int64
	MaxPoints                                     int
	Outcomes                                      []string
	Exhausted                                     bool
	Bound                                         int
	Seconds                                       float64
	Violation                                     string
	Plan                                          []uint16
}

func (p *Prog) exec(v SchedCase, seconds float64) (*schedResult, error) {
	c := p.c
	bin := p.build()
	dir := c.TmpDir()
	defer os.RemoveAll(dir)
	out, note := filepath.Join(dir, "out.json"), filepath.Join(dir, "note")
	args := []string{"-c", `ulimit -S -v unlimited; exec "$0" "$@"`, bin, "-scenario", v.Scenario, "-bound", fmt.Sprint(v.Bound),
		"-out", out, "-note", note, "-seconds", fmt.Sprint(seconds)}
	if v.Replay {
		plan := v.Plan
		if plan == nil {
			plan = []uint16{}
		}
		b, _ := json.Marshal(plan)
		args = append(args, "-plan", string(b))
	}
	cmd := exec.Command("bash", args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GORACE=exitcode=0 atexit_sleep_ms=0 history_size=3", "TMPDIR="+dir)
	var errb bytes.Buffer
	cmd.Stderr = &tail{max: 1 << 16, b: &errb}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	var hung atomic.Bool
	limit := time.Duration(seconds*float64(time.Second)) + 100*time.Second
	timer := time.AfterFunc(limit, func() { hung.Store(true); cmd.Process.Kill() })
	err := cmd.Wait()
	timer.Stop()
	r := &schedResult{}
	b, rerr := os.ReadFile(out)
	if rerr == nil && json.Unmarshal(b, r) == nil {
		if r.Violation != "" {
			r.Violation += "\n" + errb.String()
		}
		return r, nil
	}
	code := cmd.ProcessState.ExitCode()
	if code == 3 {
		fmt.Fprintf(os.Stderr, "%s %s: %s\n", p.pkg, v.Scenario, errb.String())
		os.Exit(3)
	}
	// The process ended in the middle of a run: the note holds its plan.
	r.Runs = 1
	if b, err := os.ReadFile(note); err == nil && len(b) >= 4 {
		n := int(binary.LittleEndian.Uint32(b))
		for i := 0; i < n && 6+2*i <= len(b); i++ {
			r.Plan = append(r.Plan, binary.LittleEndian.Uint16(b[4+2*i:]))
		}
	}
	switch {
	case hung.Load():
		r.Violation = fmt.Sprintf("a schedule does not end within %v, without any scheduling point", limit)
	default:
		r.Violation = fmt.Sprintf("the code under test ended the process (%v)\n%s", err, errb.String())
	}
	return r, nil
}

// Probe explores a scenario and returns the outcomes and the violation that it finds.
func (p *Prog) Probe(v SchedCase, seconds float64) ([]string, error) {
	r, err := p.exec(v, seconds)
	if err != nil {
		return nil, err
	}
	if r.Violation != "" {
		err = errors.New(r.Violation)
	}
	return r.Outcomes, err
}

// Kinds declares the kinds of cases of the program: "explore" runs all schedules of a scenario, "schedule" one.
func (p *Prog) Kinds(seconds func() float64) func(SchedCase) {
	c := p.c
	var mu sync.Mutex
	var runs, points, states, steps, diverged, unconfirmed int64
	var maxPoints int
	var maxSeconds float64
	scen := map[string]any{}
	one := Kind(c, "schedule", func(v SchedCase) (string, error) {
		v.Replay = true
		r, err := p.exec(v, 60)
		if err != nil {
			return "", err
		}
		if r.Violation != "" {
			return "", errors.New(r.Violation)
		}
		return strings.Join(r.Outcomes, " / "), nil
	})
	return Kind(c, "explore", func(v SchedCase) (string, error) {
		r, err := p.exec(v, seconds())
		if err != nil {
			return "", err
		}
		mu.Lock()
		runs += r.Runs
		points += r.Points
		steps += r.Steps
		diverged += r.Diverged
		maxPoints = max(maxPoints, r.MaxPoints)
		maxSeconds = max(maxSeconds, r.Seconds)
		scen[fmt.Sprintf("%s bound %d", v.Scenario, v.Bound)] = map[string]any{"schedules": r.Runs, "choice_points": r.Points, "exhausted": r.Exhausted, "outcomes": len(r.Outcomes), "seconds": r.Seconds}
		c.Set("schedules", runs)
		states += int64(r.States)
		c.Set("states", states)
		c.Set("choice_points", points)
		c.Set("transitions", steps)
		c.Set("traces_validated_against_impl", runs)
		c.Set("diverged_schedules", diverged)
		c.Set("max_choices_in_a_schedule", maxPoints)
		c.Set("scenarios", scen)
		if !r.Exhausted && r.Violation == "" || diverged > 0 {
			c.Set("exhaustive", false)
		}
		mu.Unlock()
		if r.Violation != "" {
			if r.Plan != nil || r.Runs == 1 {
				// Report the schedule if it fails again on its own.
				w := SchedCase{Scenario: v.Scenario, Plan: r.Plan, Replay: true}
				if again, err := p.exec(w, 60); err == nil && again.Violation != "" {
					one(w)
					return "reported as a schedule", nil
				}
			}
			// Schedules are deterministic: what does not come back when all of them run again was not the code's doing.
			if !strings.Contains(r.Violation, "data race") {
				again, err := p.exec(v, seconds())
				if err != nil {
					return "", err
				}
				if again.Violation == "" {
					mu.Lock()
					unconfirmed++
					c.Set("explorations_repeated", unconfirmed)
					if !again.Exhausted {
						c.Set("exhaustive", false)
					}
					mu.Unlock()
					return fmt.Sprintf("%v: %v", v.Scenario, again.Outcomes), nil
				}
				return "", errors.New(again.Violation)
			}
			return "", errors.New(r.Violation)
		}
		return fmt.Sprintf("%v: %v", v.Scenario, r.Outcomes), nil
	})
}
