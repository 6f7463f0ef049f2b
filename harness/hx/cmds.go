package hx

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"time"
)

var cmdMu sync.Mutex
var cmdBuilt = map[string]string{}

// Cmd builds /repo/cmd/NAME (from the current working tree) and returns the binary.
func (c *Ctx) Cmd(name string) string { return c.build("", name, nil) }

func (c *Ctx) build(pre, name string, flags func() []string) string {
	cmdMu.Lock()
	defer cmdMu.Unlock()
	if p, ok := cmdBuilt[pre+name]; ok {
		return p
	}
	dir := filepath.Join(c.Scratch, pre+"bin")
	os.MkdirAll(dir, 0o755)
	out := filepath.Join(dir, filepath.Base(name))
	args := []string{"build", "-o", out}
	if flags != nil {
		args = append(args, flags()...)
	}
	b := exec.Command("go", append(args, "github.com/gmlewis/stldice/v4/"+name)...)
	b.Dir = filepath.Join(c.Verif, "harness")
	b.Env = os.Environ()
	if o, err := b.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "building %s: %v\n%s", name, err, o)
		os.Exit(3)
	}
	cmdBuilt[pre+name] = out
	return out
}

// Result of a command.
type Result struct {
	Code   int
	Stdout string
	Stderr string
	Hung   bool
}

// Run runs a built binary in dir. A command still running after two minutes is
// killed and marked Hung.
func (c *Ctx) Run(dir, bin string, args ...string) Result {
	return c.RunEnv(dir, nil, bin, args...)
}

// RunEnv is Run with additional environment.
func (c *Ctx) RunEnv(dir string, env []string, bin string, args ...string) Result {
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	var o, e bytes.Buffer
	cmd.Stdout = &o
	cmd.Stderr = &tail{max: 1 << 16, b: &e}
	err := cmd.Run()
	r := Result{Stdout: o.String(), Stderr: e.String()}
	if ctx.Err() != nil {
		r.Hung = true
	}
	if err != nil {
		r.Code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			r.Code = ee.ExitCode()
		}
	}
	return r
}
