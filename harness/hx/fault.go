package hx

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"time"
)

// faultSrc is added to package os (through go build -overlay) in the binaries that CmdFault builds.
// The environment variable VERIF_FS selects what happens at the n-th change of the file system:
//
//	trace:FILE    log every change to FILE
//	crash:N:TORN  the process is killed at change N; if that is a write, after its first TORN bytes
//	fail:N:TORN   change N fails (a write after its first TORN bytes) and so do all later writes ("disk full")
//	once:N:TORN   change N fails (a write after its first TORN bytes), later ones do not
//
// or what happens when a file with a relative name is opened for reading or read for the n-th time:
//
//	rtrace:FILE   log every one to FILE
//	rfail:N:TORN  it fails (a read after TORN bytes) and so do all later ones
//	ronce:N:TORN  it fails (a read after TORN bytes), later ones do not
//	rshort:N:TORN a read returns only TORN bytes, as it may
const faultSrc = `package os

import (
	"io"
	"sync"
	"syscall"
)

var verifEOF = io.EOF

var (
	verifMu    sync.Mutex
	verifInit  bool
	verifMode  string
	verifLog   int
	verifN     int
	verifTorn  int
	verifCount int
	verifFull  bool
	verifOpen  = map[*File]bool{}
)

func verifNum(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]-'0')
	}
	return n
}

func verifItoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}

func verifSetup() {
	if !verifInit {
		verifInit = true
		if s, ok := syscall.Getenv("VERIF_FS"); ok {
			var p []string
			for {
				i := 0
				for i < len(s) && s[i] != ':' {
					i++
				}
				p = append(p, s[:i])
				if i == len(s) {
					break
				}
				s = s[i+1:]
			}
			verifMode = p[0]
			if verifMode == "trace" || verifMode == "rtrace" {
				verifLog, _ = syscall.Open(p[1], syscall.O_WRONLY|syscall.O_CREAT|syscall.O_APPEND|syscall.O_CLOEXEC, 0o644)
			} else {
				verifN, verifTorn = verifNum(p[1]), verifNum(p[2])
			}
		}
	}
}

// verifRead is a read; it reports whether it has dealt with it.
func verifRead(f *File, b []byte) (int, error, bool) {
	if f == nil || len(b) == 0 || f.name == "" || f.name[0] == '/' || f.name == "." {
		return 0, nil, false
	}
	verifMu.Lock()
	defer verifMu.Unlock()
	verifSetup()
	if verifMode == "" || verifMode[0] != 'r' {
		return 0, nil, false
	}
	verifCount++
	if verifMode == "rtrace" {
		n, err := f.read(b)
		if n < 0 {
			n = 0
		}
		syscall.Write(verifLog, []byte("read\t"+f.name+"\t"+verifItoa(n)+"\n"))
		if err != nil {
			return n, &PathError{Op: "read", Path: f.name, Err: err}, true
		}
		if n == 0 {
			return 0, verifEOF, true
		}
		return n, nil, true
	}
	if verifFull {
		verifFull = verifMode == "rfail"
		return 0, &PathError{Op: "read", Path: f.name, Err: syscall.EIO}, true
	}
	if verifCount != verifN {
		return 0, nil, false
	}
	if verifTorn == 0 {
		if verifMode == "rshort" {
			return 0, nil, false
		}
		verifFull = verifMode == "rfail"
		return 0, &PathError{Op: "read", Path: f.name, Err: syscall.EIO}, true
	}
	t := verifTorn
	if t > len(b) {
		t = len(b)
	}
	verifFull = verifMode != "rshort" // the next one fails
	n, err := f.read(b[:t])
	if n <= 0 {
		n = 0
		if err == nil {
			err = verifEOF
		}
	}
	return n, err, true
}

// verifReadAt is a read at an offset: all or nothing.
func verifReadAt(f *File) error {
	if f == nil || f.name == "" || f.name[0] == '/' || f.name == "." {
		return nil
	}
	verifMu.Lock()
	defer verifMu.Unlock()
	verifSetup()
	if verifMode == "" || verifMode[0] != 'r' {
		return nil
	}
	verifCount++
	if verifMode == "rtrace" {
		syscall.Write(verifLog, []byte("readat\t"+f.name+"\t0\n"))
		return nil
	}
	if verifFull && verifMode == "rfail" || verifCount == verifN && verifMode != "rshort" {
		verifFull = verifMode == "rfail"
		return &PathError{Op: "read", Path: f.name, Err: syscall.EIO}
	}
	return nil
}

// verifOpenRead is the opening of a file for reading.
func verifOpenRead(name string) error {
	if name == "" || name[0] == '/' || name == "." {
		return nil
	}
	verifMu.Lock()
	defer verifMu.Unlock()
	verifSetup()
	if verifMode == "" || verifMode[0] != 'r' {
		return nil
	}
	verifCount++
	if verifMode == "rtrace" {
		syscall.Write(verifLog, []byte("open\t"+name+"\t0\n"))
		return nil
	}
	if verifFull && verifMode == "rfail" || verifCount == verifN && verifMode != "rshort" {
		verifFull = verifMode == "rfail"
		return &PathError{Op: "open", Path: name, Err: syscall.EIO}
	}
	return nil
}

// verifStep counts a change and returns what to do: 0 go on, 1 act now.
func verifStep(op, name string, n int) int {
	if name == "/dev/stdout" || name == "/dev/stderr" || name == "/dev/stdin" || name == "/dev/null" {
		return 0
	}
	verifSetup()
	if verifMode == "" || verifMode[0] == 'r' || verifMode == "stdout" {
		return 0
	}
	verifCount++
	if verifMode == "trace" {
		syscall.Write(verifLog, []byte(op+"\t"+name+"\t"+verifItoa(n)+"\n"))
		return 0
	}
	if verifCount == verifN {
		return 1
	}
	return 0
}

func verifDie() {
	for {
		syscall.Kill(syscall.Getpid(), syscall.SIGKILL)
	}
}

// verifOp is a change other than a write.
func verifOp(op, name string) error {
	verifMu.Lock()
	defer verifMu.Unlock()
	if verifStep(op, name, 0) == 1 {
		if verifMode == "crash" {
			verifDie()
		}
		verifFull = verifMode == "fail"
		return &PathError{Op: op, Path: name, Err: syscall.ENOSPC}
	}
	return nil
}

// verifWrite is a write; it reports whether it has dealt with it.
func verifWrite(f *File, b []byte) (int, error, bool) {
	if f == nil || f.name == "/dev/stderr" {
		return 0, nil, false
	}
	if f.name == "/dev/stdout" {
		verifMu.Lock()
		defer verifMu.Unlock()
		verifSetup()
		if verifMode != "stdout" {
			return 0, nil, false
		}
		if verifN >= len(b) { // there is room for that many bytes
			verifN -= len(b)
			return 0, nil, false
		}
		n, _ := f.write(b[:verifN])
		verifN = 0
		if verifTorn > 0 { // only once
			verifMode = ""
		}
		return n, &PathError{Op: "write", Path: f.name, Err: syscall.ENOSPC}, true
	}
	verifMu.Lock()
	defer verifMu.Unlock()
	act := verifStep("write", f.name, len(b))
	if act == 0 && !verifFull {
		return 0, nil, false
	}
	n := 0
	if act == 1 && verifTorn > 0 {
		t := verifTorn
		if t > len(b) {
			t = len(b)
		}
		n, _ = f.write(b[:t])
		if n < 0 {
			n = 0
		}
	}
	if verifMode == "crash" {
		verifDie()
	}
	verifFull = verifMode == "fail"
	return n, &PathError{Op: "write", Path: f.name, Err: syscall.ENOSPC}, true
}

func verifOpened(f *File, flag int) {
	if flag&(O_WRONLY|O_RDWR) != 0 {
		verifMu.Lock()
		verifOpen[f] = true
		verifMu.Unlock()
	}
}

// verifClose counts the close of a file that was opened for writing. The file is closed in any case.
func verifClose(f *File) error {
	verifMu.Lock()
	ok := verifOpen[f]
	delete(verifOpen, f)
	verifMu.Unlock()
	if !ok {
		return nil
	}
	return verifOp("close", f.name)
}
`

// faultOverlay writes the overlay for package os.
func (c *Ctx) faultOverlay() string {
	dir := filepath.Join(c.Scratch, "fault-overlay")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	root := filepath.Join(GoRoot(), "src", "os")
	edit := func(file string, pairs ...string) {
		b, err := os.ReadFile(filepath.Join(root, file))
		if err != nil {
			panic(err)
		}
		s := string(b)
		for i := 0; i < len(pairs); i += 2 {
			if strings.Count(s, pairs[i]) != 1 {
				panic(fmt.Sprintf("package os (%s) has %d times %q", file, strings.Count(s, pairs[i]), pairs[i]))
			}
			s = strings.Replace(s, pairs[i], pairs[i+1], 1)
		}
		if err := os.WriteFile(filepath.Join(dir, file), []byte(s), 0o644); err != nil {
			panic(err)
		}
	}
	edit("file.go",
		"func (f *File) Write(b []byte) (n int, err error) {\n", "func (f *File) Write(b []byte) (n int, err error) {\n\tif n, err, done := verifWrite(f, b); done {\n\t\treturn n, err\n\t}\n",
		"func (f *File) WriteAt(b []byte, off int64) (n int, err error) {\n", "func (f *File) WriteAt(b []byte, off int64) (n int, err error) {\n\tif n, err, done := verifWrite(f, b); done {\n\t\treturn n, err\n\t}\n",
		"	n, handled, e := f.readFrom(r)\n", "	n, handled, e := int64(0), false, error(nil)\n",
		"	f.appendMode = flag&O_APPEND != 0\n", "	f.appendMode = flag&O_APPEND != 0\n\tverifOpened(f, flag)\n",
		"	f, err := openFileNolog(name, flag, perm)\n", "	if flag&(O_WRONLY|O_RDWR|O_CREATE|O_TRUNC) != 0 {\n\t\tif err := verifOp(\"open\", name); err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t} else if err := verifOpenRead(name); err != nil {\n\t\treturn nil, err\n\t}\n\tf, err := openFileNolog(name, flag, perm)\n",
		"func (f *File) Read(b []byte) (n int, err error) {\n", "func (f *File) Read(b []byte) (n int, err error) {\n\tif n, err, done := verifRead(f, b); done {\n\t\treturn n, err\n\t}\n",
		"func (f *File) ReadAt(b []byte, off int64) (n int, err error) {\n", "func (f *File) ReadAt(b []byte, off int64) (n int, err error) {\n\tif err := verifReadAt(f); err != nil {\n\t\treturn 0, err\n\t}\n",
		"func Rename(oldpath, newpath string) error {\n", "func Rename(oldpath, newpath string) error {\n\tif err := verifOp(\"rename\", newpath); err != nil {\n\t\treturn err\n\t}\n",
		"func Mkdir(name string, perm FileMode) error {\n", "func Mkdir(name string, perm FileMode) error {\n\tif err := verifOp(\"mkdir\", name); err != nil {\n\t\treturn err\n\t}\n",
	)
	edit("file_posix.go",
		"	return f.file.close()\n", "	verr := verifClose(f)\n\tif err := f.file.close(); err != nil {\n\t\treturn err\n\t}\n\treturn verr\n",
		"func (f *File) Truncate(size int64) error {\n", "func (f *File) Truncate(size int64) error {\n\tif err := verifOp(\"truncate\", f.name); err != nil {\n\t\treturn err\n\t}\n",
	)
	edit("file_unix.go",
		"func Remove(name string) error {\n", "func Remove(name string) error {\n\tif err := verifOp(\"remove\", name); err != nil {\n\t\treturn err\n\t}\n",
		"func Truncate(name string, size int64) error {\n", "func Truncate(name string, size int64) error {\n\tif err := verifOp(\"truncate\", name); err != nil {\n\t\treturn err\n\t}\n",
		"func Link(oldname, newname string) error {\n", "func Link(oldname, newname string) error {\n\tif err := verifOp(\"link\", newname); err != nil {\n\t\treturn err\n\t}\n",
	)
	if err := os.WriteFile(filepath.Join(dir, "verif_fault.go"), []byte(faultSrc), 0o644); err != nil {
		panic(err)
	}
	r := map[string]string{}
	for _, f := range []string{"file.go", "file_posix.go", "file_unix.go", "verif_fault.go"} {
		r[filepath.Join(root, f)] = filepath.Join(dir, f)
	}
	b, _ := json.Marshal(map[string]any{"Replace": r})
	ov := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ov, b, 0o644); err != nil {
		panic(err)
	}
	return ov
}

// GoRoot returns the root of the toolchain that builds the code.
func GoRoot() string {
	o, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return runtime.GOROOT()
	}
	return strings.TrimSpace(string(o))
}

// CmdFault is Cmd with a package os that can crash or fail at any change of the file system.
func (c *Ctx) CmdFault(name string) string {
	return c.build("fault-", name, func() []string { return []string{"-overlay", c.faultOverlay()} })
}

// FSOp is one change of the file system.
type FSOp struct {
	Op   string
	Path string
	N    int // bytes of a write
}

// TraceFS runs bin and returns its changes of the file system.
func (c *Ctx) TraceFS(dir, bin string, args ...string) (Result, []FSOp, error) {
	return c.traceFS("trace", dir, bin, args...)
}

// TraceReads runs bin and returns how it opens and reads files.
func (c *Ctx) TraceReads(dir, bin string, args ...string) (Result, []FSOp, error) {
	return c.traceFS("rtrace", dir, bin, args...)
}

func (c *Ctx) traceFS(mode, dir, bin string, args ...string) (Result, []FSOp, error) {
	fn := c.Tmp(".trace")
	defer os.Remove(fn)
	r := c.RunEnv(dir, []string{"VERIF_FS=" + mode + ":" + fn}, bin, args...)
	ops, err := ReadFSOps(fn)
	return r, ops, err
}

// ReadFSOps reads what a program wrote with VERIF_FS=trace:FILE.
func ReadFSOps(fn string) ([]FSOp, error) {
	b, err := os.ReadFile(fn)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var ops []FSOp
	for _, l := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
		p := strings.Split(l, "\t")
		if len(p) != 3 {
			return nil, fmt.Errorf("bad trace line %q", l)
		}
		n, _ := strconv.Atoi(p[2])
		ops = append(ops, FSOp{p[0], p[1], n})
	}
	return ops, nil
}

// Torn lists the byte counts after which a write of n bytes is interrupted: all of them up to a limit.
func Torn(n, limit int) []int {
	var out []int
	for i := 0; i < n; i++ {
		if n <= limit || i < limit/2 || i >= n-limit/2 {
			out = append(out, i)
		}
	}
	return out
}

// RunShell runs a shell script with the given directory first in PATH.
func (c *Ctx) RunShell(dir, path, script string) Result {
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, "bash", script)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "PATH="+path+":"+os.Getenv("PATH"))
	var o, e bytes.Buffer
	cmd.Stdout = &o
	cmd.Stderr = &tail{max: 1 << 16, b: &e}
	err := cmd.Run()
	r := Result{Stdout: o.String(), Stderr: e.String(), Hung: ctx.Err() != nil}
	if err != nil {
		r.Code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			r.Code = ee.ExitCode()
		}
	}
	return r
}
