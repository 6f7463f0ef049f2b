package hx

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"syscall"
)

// limitMemory caps the address space, so that runaway allocation in the code
// under test ends in a Go stack trace and not in the sandbox's memory guard.
func limitMemory() {
	if os.Getenv("HX_NOLIMIT") != "" {
		return
	}
	var l syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_AS, &l) != nil {
		return
	}
	l.Cur = 20 << 30 // soft, since the race detector of a child needs more
	syscall.Setrlimit(syscall.RLIMIT_AS, &l)
}

// parent runs the check in a child process, so that code under test which ends
// the process (a panic in a goroutine of its own, a fatal runtime error, a
// log.Fatal in a library) is reported as what it is.
func parent(ck *Check) int {
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	for try := 0; ; try++ {
		cmd := exec.Command(os.Args[0], os.Args[1:]...)
		scratch := MkScratch(ck.ID)
		cmd.Env = append(os.Environ(), "HX_CHILD=1", "HX_SCRATCH="+scratch)
		var out, errb bytes.Buffer
		cmd.Stdout = io.MultiWriter(os.Stdout, &out)
		cmd.Stderr = &tail{max: 1 << 20, b: &errb}
		err := cmd.Run()
		os.RemoveAll(scratch)
		code := 0
		if err != nil {
			code = -1
			if ee, ok := err.(*exec.ExitError); ok {
				code = ee.ExitCode()
			}
		}
		if code == 0 {
			return 0
		}
		if code == 1 && strings.Contains(out.String(), "VIOLATION property=") {
			return 1
		}
		es := errb.String()
		crash := strings.Contains(es, "panic:") || strings.Contains(es, "fatal error:") || code == 1
		if crash && (strings.Contains(es, "gmlewis/stldice") || code == 1) {
			b := fmt.Sprintf("check %s: the code under test ended the process (exit %d)\n\n%s", ck.ID, code, es)
			fn := WriteReplay(verif, ck.ID+"-crash.txt", []byte(b))
			if len(es) > 3000 {
				es = es[:3000]
			}
			fmt.Printf("%s: the code under test ended the process (exit %d)\n%s\nVIOLATION property=%s replay=%s\n", ck.ID, code, es, ck.ID, fn)
			return 1
		}
		if try == 0 {
			continue // not the code under test, as far as can be seen: once more
		}
		os.Stderr.WriteString(es)
		return 3
	}
}

type tail struct {
	max int
	b   *bytes.Buffer
}

func (t *tail) Write(p []byte) (int, error) {
	if t.b.Len() < t.max {
		t.b.Write(p)
	}
	return len(p), nil
}
