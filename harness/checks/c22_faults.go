package checks

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/gmlewis/stldice/v4/vshell"
	"stldiceverif/hx"
)

// faultScene is one command with its input files.
type faultScene struct {
	cmd  string
	args []string
	in   map[string][]byte
	more []string // further commands that it starts
	keep bool     // does not overwrite outputs that exist
}

func faultScenes() []faultScene {
	bv := func(n K, bits uint64, t V3, vpmm float64) []byte {
		return encodeBinvox(header{n, t, scaleOf(n, vpmm)}, subset(n, bits))
	}
	small := map[string][]byte{"b.binvox": bv(K{3, 2, 2}, 0xa5b, V3{1, 2, 3}, 2), "c.binvox": bv(K{1, 1, 1}, 1, V3{1, 2, 3}, 2)}
	big := map[string][]byte{"b.binvox": bv(K{4, 4, 4}, 0x9669_6996_9669_6996, V3{}, 1)}
	pieces := map[string][]byte{"p-0.binvox": bv(K{2, 2, 2}, 0xff, V3{}, 1), "p-1.binvox": bv(K{2, 2, 2}, 0x7e, V3{2, 0, 0}, 1)}
	svx := svxCase{N: K{2, 2, 2}, Bits: 0xe7, VS: 0.001, Format: "density/slice%04d.png"}
	svx2 := svxCase{N: K{4, 4, 3}, Bits: 0x9669_6996_9669, VS: 0.001, Format: "density/slice%04d.png"}
	stls := map[string][]byte{"m-0.stl": binarySTL(boxTris(V3{0, 0, 0}, V3{1, 1, 1}, 0)), "m-1.stl": asciiSTL(boxTris(V3{2, 0, 0}, V3{3, 1, 1}, 5))}
	long := map[string][]byte{"b.binvox": encodeBinvox(header{K{30, 9, 10}, V3{}, scaleOf(K{30, 9, 10}, 1)}, pattern(K{30, 9, 10}, "dust")), "c.binvox": bv(K{4, 4, 4}, 0x9669_6996_9669_6996, V3{1, 1, 1}, 1)}
	many := map[string][]byte{}
	for i := 0; i < 9; i++ {
		many[fmt.Sprintf("m-%d.stl", i)] = binarySTL(boxTris(V3{float64(2 * i), 0, 0}, V3{float64(2*i + 1), 1, 1}, i))
	}
	return []faultScene{
		{cmd: "voxcut", args: []string{"-obinvox", "o.binvox", "b.binvox", "c.binvox"}, in: small},
		{cmd: "voxcut", args: []string{"-ovox", "o.vox", "b.binvox"}, in: small},
		{cmd: "voxcut", args: []string{"-ostl", "o.stl", "b.binvox", "c.binvox"}, in: small},
		{cmd: "voxcut", args: []string{"-ostl", "o.stl", "b.binvox"}, in: big},
		{cmd: "voxcut", args: []string{"-ostl", "o.stl", "-manifold", "b.binvox"}, in: small},
		{cmd: "voxcut", args: []string{"-ostl", "o.stl", "-obinvox", "o.binvox", "-ovox", "o.vox", "-cx", "2", "b.binvox"}, in: small},
		{cmd: "merge-binvox", args: []string{"-prefix", "p"}, in: pieces, keep: true},
		{cmd: "merge-stl", args: []string{"-prefix", "m"}, in: stls, keep: true},
		{cmd: "merge-stl", args: []string{"-prefix", "m", "-num", "2"}, in: many, keep: true},
		{cmd: "manifold-mesh", args: []string{"b.binvox", "o.stl"}, in: small},
		{cmd: "marching-cubes", args: []string{"b.binvox", "o.stl"}, in: small},
		{cmd: "marching-cubes", args: []string{"b.binvox", "o.stl"}, in: big},
		{cmd: "svx2stl", args: []string{"a.svx", "b.svx"}, in: map[string][]byte{"a.svx": svx.file(), "b.svx": svx2.file()}},
		{cmd: "merge-binvox", args: []string{"-f", "-prefix", "p"}, in: pieces},
		{cmd: "merge-stl", args: []string{"-f", "-prefix", "m"}, in: stls},
		{cmd: "voxcut", args: []string{"-ostl", "o.stl", "-obinvox", "o.binvox", "b.binvox", "c.binvox"}, in: long},
		{cmd: "stldice", keep: true, args: []string{"-dim", "4", "-nx", "2", "-ny", "1", "-nz", "1", "a.stl", "b.stl"}, in: map[string][]byte{
			"a.stl": asciiSTL(boxTris(V3{0, 0, 0}, V3{4, 4, 2}, 0)), "b.stl": asciiSTL(boxTris(V3{1, 1, 1}, V3{3, 3, 3}, 0))}},
		{cmd: "voxcut-dice", args: []string{"-size", "2", "-obinvox", "o", "-ostl", "s", "b.binvox", "c.binvox"}, in: small, more: []string{"cmd/voxcut"}},
		{cmd: "stl2svx/stl2svx-client", args: []string{"-dim", "3", "-nx", "1", "-ny", "1", "-nz", "1", "-stl", "m-0.stl,m-1.stl"}, in: stls},
	}
}

// faultCase: the N-th change of the file system or the N-th read fails.
type faultCase struct {
	Scene   int
	Mode    string
	N, Torn int
	Stale   bool `json:",omitempty"` // the outputs exist already, with other contents
	Grow    int  `json:",omitempty"` // that many bytes longer than the new ones (or shorter)
}

// canon maps a written file to a form in which equal results are equal.
func canon(name string, b []byte) string {
	switch filepath.Ext(name) {
	case ".svx":
		s, err := readSVX(b)
		if err != nil {
			return "bad svx: " + err.Error()
		}
		return fmt.Sprint(s.n, s.size, s.set.hash())
	case ".vox":
		n, s, err := decodeVOX(b)
		if err != nil {
			return "bad vox: " + err.Error()
		}
		return fmt.Sprint(n, s.hash())
	case ".stl":
		if len(b) < 84 || (len(b)-84)%50 != 0 {
			return fmt.Sprint("bad stl of ", len(b), " bytes")
		}
		var t []string
		for i := 84; i < len(b); i += 50 {
			t = append(t, string(b[i:i+50]))
		}
		sort.Strings(t)
		return string(b[80:84]) + strings.Join(t, "")
	}
	return string(b)
}

func outputs(dir string, in map[string][]byte) (map[string]string, error) {
	out := map[string]string{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		b := mustRead(p)
		if w, ok := in[rel]; ok {
			if !bytes.Equal(w, b) {
				return fmt.Errorf("input file %s has changed", rel)
			}
			return nil
		}
		out[rel] = canon(rel, b)
		return nil
	})
	for f := range in {
		if _, e := os.Stat(filepath.Join(dir, f)); e != nil && err == nil {
			err = fmt.Errorf("input file %s has gone", f)
		}
	}
	return out, err
}

func (s faultScene) setup(c *hx.Ctx) (dir, bin string) {
	dir = c.TmpDir()
	for f, b := range s.in {
		mustWrite(filepath.Join(dir, f), b)
	}
	for _, m := range s.more {
		c.CmdFault(m)
	}
	if strings.Contains(s.cmd, "/") {
		return dir, c.CmdFault(s.cmd)
	}
	return dir, c.CmdFault("cmd/" + s.cmd)
}

// arguments of the command; the client needs a master.
func (s faultScene) arguments(c *hx.Ctx) []string {
	if strings.HasSuffix(s.cmd, "client") {
		return append([]string{"-master", sharedCluster(c).addr}, s.args...)
	}
	return s.args
}

// undisturbed returns the outputs of the scene, as they are and for comparison.
func (s faultScene) undisturbed(c *hx.Ctx, i int) (raw map[string][]byte, want map[string]string, err error) {
	type res struct {
		raw  map[string][]byte
		want map[string]string
		err  error
	}
	f, _ := c.Memo.LoadOrStore(fmt.Sprint("scene", i), sync.OnceValue(func() (r res) {
		dir, bin := s.setup(c)
		defer os.RemoveAll(dir)
		x := c.RunEnv(dir, []string{s.path(bin)}, bin, s.arguments(c)...)
		if x.Code != 0 || x.Hung {
			r.err = fmt.Errorf("%s %v: exit %d without any fault: %.400s", s.cmd, s.args, x.Code, x.Stderr)
			return r
		}
		if r.want, r.err = outputs(dir, s.in); r.err != nil {
			return r
		}
		if len(r.want) == 0 {
			r.err = fmt.Errorf("%s %v writes nothing", s.cmd, s.args)
		}
		r.raw = map[string][]byte{}
		for f := range r.want {
			r.raw[f] = mustRead(filepath.Join(dir, f))
		}
		return r
	}))
	r := f.(func() res)()
	return r.raw, r.want, r.err
}

func (s faultScene) path(bin string) string {
	return "PATH=" + filepath.Dir(bin) + ":" + os.Getenv("PATH")
}

func (v faultCase) run(c *hx.Ctx) (string, error) {
	s := faultScenes()[v.Scene]
	raw, want, err := s.undisturbed(c, v.Scene)
	if err != nil {
		return "", err
	}
	dir, bin := s.setup(c)
	defer os.RemoveAll(dir)
	if v.Stale {
		for f, b := range raw { // of the same size, but with other contents
			o := bytes.Clone(b)
			for i := range o {
				o[i] ^= 0x55
			}
			if v.Grow < 0 {
				o = o[:max(len(o)+v.Grow, 0)]
			} else {
				o = append(o, bytes.Repeat([]byte{0x55}, v.Grow)...)
			}
			mustWrite(filepath.Join(dir, f), o)
		}
	}
	env := []string{s.path(bin)}
	if v.Mode != "" {
		env = append(env, fmt.Sprintf("VERIF_FS=%s:%d:%d", v.Mode, v.N, v.Torn))
	}
	r := c.RunEnv(dir, env, bin, s.arguments(c)...)
	if r.Hung {
		return "", fmt.Errorf("%s %v hangs", s.cmd, s.args)
	}
	got, err := outputs(dir, s.in)
	if err != nil {
		return "", err
	}
	if r.Code != 0 {
		if v.Mode == "" {
			return "", fmt.Errorf("%s %v fails because its outputs exist already: %.400s", s.cmd, s.args, r.Stderr)
		}
		if v.Mode == "rshort" {
			return "", fmt.Errorf("%s %v fails because a read returns fewer bytes than asked for: %.400s", s.cmd, s.args, r.Stderr)
		}
		return fmt.Sprint(v.Scene, "reported", len(got)), nil
	}
	if !equalMaps(got, want) {
		return "", fmt.Errorf("%s %v succeeds, but what it has written is incomplete", s.cmd, s.args)
	}
	return fmt.Sprint(v.Scene, "complete"), nil
}

func equalMaps(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

// stdoutCase: the standard output, to which a command prints its script, takes only so many bytes.
type stdoutCase struct {
	Scene, Room int
	Once        bool `json:",omitempty"` // the output can be written again after the error
}

func stdoutScenes() []faultScene {
	n := K{5, 4, 3}
	in := map[string][]byte{"b.binvox": encodeBinvox(header{n, V3{}, scaleOf(n, 1)}, full(n)), "c.binvox": encodeBinvox(header{n, V3{1, 1, 1}, scaleOf(n, 1)}, full(n))}
	stls := map[string][]byte{"a.stl": asciiSTL(boxTris(V3{0, 0, 0}, V3{4, 4, 2}, 0)), "b c.stl": asciiSTL(boxTris(V3{1, 1, 1}, V3{3, 3, 3}, 0))}
	return []faultScene{
		{cmd: "stldice", args: []string{"-dim", "4", "-nx", "2", "-ny", "1", "-nz", "1", "a.stl", "b c.stl"}, in: stls},
		{cmd: "stldice", args: []string{"-dim", "8", "-nx", "4", "-ny", "4", "-nz", "2", "a.stl"}, in: stls},
		{cmd: "voxcut-dice", args: []string{"-n", "-size", "3", "-obinvox", "o", "b.binvox", "c.binvox"}, in: in},
		{cmd: "voxcut-dice", args: []string{"-n", "-size", "2", "-ostl", "o", "-ovox", "v", "b.binvox", "c.binvox"}, in: in},
		{cmd: "binvox-dice", args: []string{"-factor", "2", "-mbb", "(0,0,0)-(4,4,2)", "a.stl", "b c.stl"}, in: stls},
		{cmd: "binvox-dice", args: []string{"-factor", "4", "-subz", "-mbb", "(0,0,0)-(4,4,2)", "a.stl"}, in: stls},
	}
}

func (v stdoutCase) run(c *hx.Ctx) (string, error) {
	s := stdoutScenes()[v.Scene]
	ref, err := s.printed(c, v.Scene)
	if err != nil {
		return "", err
	}
	dir, bin := s.setup(c)
	defer os.RemoveAll(dir)
	once := 0
	if v.Once {
		once = 1
	}
	r := c.RunEnv(dir, []string{fmt.Sprintf("VERIF_FS=stdout:%d:%d", v.Room, once)}, bin, s.args...)
	if r.Hung {
		return "", fmt.Errorf("%s %v hangs", s.cmd, s.args)
	}
	if r.Code != 0 {
		if v.Room >= len(ref) {
			return "", fmt.Errorf("%s %v: exit %d though its output can be written: %.400s", s.cmd, s.args, r.Code, r.Stderr)
		}
		return fmt.Sprint(v.Scene, "reported"), nil
	}
	if r.Stdout != ref {
		return "", fmt.Errorf("%s %v succeeds, but has printed only %d of %d bytes of its script", s.cmd, s.args, len(r.Stdout), len(ref))
	}
	return fmt.Sprint(v.Scene, "complete"), nil
}

// printed returns what the command prints.
func (s faultScene) printed(c *hx.Ctx, i int) (string, error) {
	f, _ := c.Memo.LoadOrStore(fmt.Sprint("stdout", i), sync.OnceValues(func() (string, error) {
		dir, bin := s.setup(c)
		defer os.RemoveAll(dir)
		r := c.RunEnv(dir, nil, bin, s.args...)
		if r.Code != 0 || r.Hung || r.Stdout == "" {
			return "", fmt.Errorf("%s %v: exit %d without any fault: %.400s", s.cmd, s.args, r.Code, r.Stderr)
		}
		return r.Stdout, nil
	}))
	return f.(func() (string, error))()
}

// apiCase writes through the API to a place that cannot be written.
type apiCase struct {
	What string // "binvox", "vshell"
	N    K
	Bits uint64
	To   string // "full", "nodir", "dir"
}

func (v apiCase) run(c *hx.Ctx) (string, error) {
	dir := c.TmpDir()
	defer os.RemoveAll(dir)
	fn := "/dev/full"
	switch v.To {
	case "nodir":
		fn = filepath.Join(dir, "x", "out")
	case "dir":
		fn = dir
	}
	m := mergeCase{VPMM: 1}
	b := m.bv(piece{N: v.N, Bits: v.Bits})
	var err error
	if v.What == "binvox" {
		err = b.Write(fn, 0, 0, 0, 0, 0, 0)
	} else {
		var vs *vshell.VShell
		if vs, err = vshell.New(b); err != nil {
			return "", err
		}
		err = vs.Write(fn, 0, 0, 0, 0, 0, 0)
	}
	if err == nil {
		return "", fmt.Errorf("writing a %s of %v voxels to %s reports no error", v.What, v.N, v.To)
	}
	return v.What + v.To, nil
}

func init() {
	hx.Register(&hx.Check{
		ID: "C22", Level: "model_checking",
		Rule: "cases: nineteen runs of ten commands, with and without earlier outputs of the same, larger and smaller sizes, in each of which every single change of the file system (open, write after every byte up to a limit, close, rename, remove) and every read fails, once or from then on, or a read is short; six runs that print a script to a standard output that takes only the first bytes, every number of them; and Write calls of the API to places that cannot be written; non-trivial: every case, the outcome is whether the fault was reported or did no harm",
		Setup: func(c *hx.Ctx) func() {
			run := hx.Kind(c, "fault", func(v faultCase) (string, error) { return v.run(c) })
			api := hx.Kind(c, "api", func(v apiCase) (string, error) { return v.run(c) })
			std := hx.Kind(c, "stdout", func(v stdoutCase) (string, error) { return v.run(c) })
			return func() {
				hx.Each(c, std, func(yield func(stdoutCase) bool) {
					for i, s := range stdoutScenes() {
						ref, _ := s.printed(c, i)
						for room := 0; room <= len(ref); room++ {
							if !yield(stdoutCase{Scene: i, Room: room}) || !yield(stdoutCase{Scene: i, Room: room, Once: true}) {
								return
							}
						}
					}
				})
				scenes := faultScenes()
				hx.Each(c, run, func(yield func(faultCase) bool) {
					for i, s := range scenes {
						dir, bin := s.setup(c)
						_, ops, err := c.TraceFS(dir, bin, s.arguments(c)...)
						if s.more != nil && err == nil { // the children are the ones that write: one of them
							_, ops, err = c.TraceFS(dir, c.CmdFault(s.more[0]), "-obinvox", "t.binvox", "-ostl", "t.stl", "b.binvox")
						}
						os.RemoveAll(dir)
						if err != nil || len(ops) == 0 {
							yield(faultCase{Scene: i, Mode: "fail", N: 1}) // reports the undisturbed failure
							continue
						}
						c.Count("changes_of_the_file_system", int64(len(ops)))
						limit := 24
						if c.Thorough() {
							limit = 1 << 30
						}
						for _, g := range []int{0, 1, 50, 5000, 100000, -1, -50, -1 << 30} {
							if !s.keep && !yield(faultCase{Scene: i, Stale: true, Grow: g}) {
								return
							}
						}
						for _, stale := range []bool{false, true} {
							if stale && s.keep {
								continue
							}
							for _, mode := range []string{"fail", "once"} {
								for n, op := range ops {
									torn := []int{0}
									if op.Op == "write" {
										torn = hx.Torn(op.N, limit)
									}
									for _, t := range torn {
										if stale && t > 0 && t < op.N-1 && !c.Thorough() {
											continue
										}
										if !yield(faultCase{i, mode, n + 1, t, stale, 0}) {
											return
										}
									}
								}
							}
						}
						// reads
						dir, bin = s.setup(c)
						_, ops, err = c.TraceReads(dir, bin, s.arguments(c)...)
						if s.more != nil && err == nil { // the child reads more often
							_, o, e := c.TraceReads(dir, c.CmdFault(s.more[0]), "-obinvox", "t.binvox", "-ostl", "t.stl", "b.binvox", "c.binvox")
							if err = e; len(o) > len(ops) {
								ops = o
							}
						}
						os.RemoveAll(dir)
						if err != nil || len(ops) == 0 {
							yield(faultCase{Scene: i, Mode: "rfail", N: 1})
							continue
						}
						c.Count("reads", int64(len(ops)))
						for _, mode := range []string{"rfail", "ronce", "rshort"} {
							for n, op := range ops {
								torn := []int{0}
								if op.Op == "read" && op.N > 0 {
									torn = hx.Torn(op.N, limit)
								}
								for _, t := range torn {
									if (mode != "rshort" || t > 0) && !yield(faultCase{Scene: i, Mode: mode, N: n + 1, Torn: t}) {
										return
									}
								}
							}
						}
					}
				})
				hx.Each(c, api, func(yield func(apiCase) bool) {
					for _, n := range []K{{1, 1, 1}, {2, 2, 2}, {3, 3, 3}, {60, 60, 1}} {
						for _, b := range []uint64{1, 0x96, 1<<27 - 1, 0x5555_5555_5555_5555} {
							if w := n[0] * n[1] * n[2]; w < 64 {
								b &= 1<<uint(w) - 1
							}
							for _, what := range []string{"binvox", "vshell"} {
								for _, to := range []string{"full", "nodir", "dir"} {
									if b != 0 && !yield(apiCase{what, n, b, to}) {
										return
									}
								}
							}
						}
					}
				})
			}
		},
		Assumptions: []string{"a fault of the file system is an error of a system call of the command; loss of power is not modelled"},
	})
}
