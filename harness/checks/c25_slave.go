package checks

import (
	"context"
	"encoding/binary"
	"fmt"
	"math"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	pb "github.com/gmlewis/stldice/v4/stldice"
	"google.golang.org/grpc"
	"stldiceverif/hx"
)

// slave is a stldice-slave process with a directory of its own.
type slave struct {
	dir  string
	cmd  *exec.Cmd
	dead chan struct{}
	conn *grpc.ClientConn
	c    pb.STLDiceClient
}

var slaveMu sync.Mutex
var idleSlaves []*slave

func getSlave(c *hx.Ctx) (*slave, error) {
	slaveMu.Lock()
	if n := len(idleSlaves); n > 0 {
		s := idleSlaves[n-1]
		idleSlaves = idleSlaves[:n-1]
		slaveMu.Unlock()
		return s, nil
	}
	slaveMu.Unlock()
	return startSlave(c, c.Cmd("server/stldice-slave"))
}

// startSlave starts a server with additional environment.
func startSlave(c *hx.Ctx, bin string, env ...string) (*slave, error) {
	n := clusters.Add(1)
	addr := fmt.Sprintf("127.%d.%d.%d:9999", 64+os.Getpid()%128, n>>7, 1+n&127)
	s := &slave{dir: c.TmpDir()}
	s.cmd = exec.Command(bin, "-port", addr)
	s.cmd.Dir = s.dir
	s.cmd.Env = append(os.Environ(), env...)
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := s.cmd.Start(); err != nil {
		return nil, err
	}
	s.dead = make(chan struct{})
	go func() { s.cmd.Wait(); close(s.dead) }()
	for t := time.Now(); ; time.Sleep(2 * time.Millisecond) {
		if k, err := net.Dial("tcp", addr); err == nil {
			k.Close()
			break
		}
		if ended(s.dead) || time.Since(t) > 20*time.Second {
			s.cmd.Process.Kill()
			return nil, fmt.Errorf("the server does not listen on %v", addr)
		}
	}
	var err error
	s.conn, err = grpc.Dial(addr, dialOpts...)
	s.c = pb.NewSTLDiceClient(s.conn)
	return s, err
}

// put gives the server back, if it is still there.
func (s *slave) put() error {
	if ended(s.dead) {
		s.conn.Close()
		os.RemoveAll(s.dir)
		return fmt.Errorf("the server has ended")
	}
	fs, _ := filepath.Glob(s.dir + "/*")
	for _, f := range fs {
		os.Remove(f)
	}
	slaveMu.Lock()
	idleSlaves = append(idleSlaves, s)
	slaveMu.Unlock()
	return nil
}

func (s *slave) stop() {
	s.cmd.Process.Kill()
	<-s.dead
	s.conn.Close()
	os.RemoveAll(s.dir)
}

func stopSlaves() {
	for _, s := range idleSlaves {
		s.stop()
	}
	idleSlaves = nil
}

// fullDisk is an upload of N triangles while the At-th change of the file system fails, a write
// after Torn bytes, and, with the mode "fail", all later writes too.
type fullDisk struct {
	N    int
	Mode string
	At   int
	Torn int
}

func (v fullDisk) run(c *hx.Ctx) (string, error) {
	s, err := startSlave(c, c.CmdFault("server/stldice-slave"), fmt.Sprintf("VERIF_FS=%s:%d:%d", v.Mode, v.At, v.Torn))
	if err != nil {
		return "", err
	}
	defer s.stop()
	r, other := regions()[0], regions()[1]
	mustWrite(filepath.Join(s.dir, other.file()), []byte("other"))
	u := upload{N: v.N, Kind: "binary"}
	out := ""
	for i := 0; i < 2; i++ { // the second time the disk may have room again
		before := s.files()
		ctx, cancel := call()
		_, err = s.c.AddSTLMesh(ctx, &pb.AddSTLMeshRequest{VoxelRegion: r.pb(), StlFile: u.body()})
		cancel()
		if ctx.Err() == context.DeadlineExceeded {
			return "", fmt.Errorf("the server does not answer")
		}
		if ended(s.dead) {
			return "", fmt.Errorf("the server has ended")
		}
		after := s.files()
		if err != nil {
			if e := sameFiles(after, before); e != nil {
				return "", fmt.Errorf("upload %v fails (%v), but %v", i, err, e)
			}
			if i == 1 && v.Mode == "once" {
				return "", fmt.Errorf("the upload fails again although nothing is wrong any more: %v", err)
			}
			out += "failed;"
			continue
		}
		fn := c.Tmp("-up.stl")
		defer os.Remove(fn)
		mustWrite(fn, []byte(after[r.file()]))
		ts, err := readSTL(fn)
		if err != nil {
			return "", fmt.Errorf("an upload that is not stored whole succeeds: %v", err)
		}
		if f32Tris(ts) != f32Tris(u.tris()) {
			return "", fmt.Errorf("%v triangles are stored, want %v; or others", len(ts), v.N)
		}
		delete(after, r.file())
		if e := sameFiles(after, before); e != nil {
			return "", e
		}
		return out + "stored", nil
	}
	return out, nil
}

// uploadChanges returns the changes of the file system of an upload.
func uploadChanges(c *hx.Ctx, n int) ([]hx.FSOp, error) {
	fn := c.Tmp(".trace")
	defer os.Remove(fn)
	s, err := startSlave(c, c.CmdFault("server/stldice-slave"), "VERIF_FS=trace:"+fn)
	if err != nil {
		return nil, err
	}
	defer s.stop()
	ctx, cancel := call()
	defer cancel()
	if _, err := s.c.AddSTLMesh(ctx, &pb.AddSTLMeshRequest{VoxelRegion: regions()[0].pb(), StlFile: upload{N: n, Kind: "binary"}.body()}); err != nil {
		return nil, err
	}
	return hx.ReadFSOps(fn)
}

func (s *slave) files() map[string]string {
	m := map[string]string{}
	fs, _ := os.ReadDir(s.dir)
	for _, f := range fs {
		m[f.Name()] = string(mustRead(filepath.Join(s.dir, f.Name())))
	}
	return m
}

func sameFiles(a, b map[string]string) error {
	for k, v := range a {
		if w, ok := b[k]; !ok {
			return fmt.Errorf("%v is new", k)
		} else if v != w {
			return fmt.Errorf("%v has changed", k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			return fmt.Errorf("%v has gone", k)
		}
	}
	return nil
}

// region is a region of the server: corners and number of voxels.
type region struct {
	LL, UR V3
	N      K
}

func (r region) pb() *pb.VoxelRegion {
	return &pb.VoxelRegion{Llx: r.LL[0], Lly: r.LL[1], Llz: r.LL[2], Urx: r.UR[0], Ury: r.UR[1], Urz: r.UR[2], Nx: int64(r.N[0]), Ny: int64(r.N[1]), Nz: int64(r.N[2])}
}

func (r region) file() string {
	return fmt.Sprintf("model-%v-%v-%v-%v-%v-%v-%v-%v-%v.binvox", r.LL[0], r.LL[1], r.LL[2], r.UR[0], r.UR[1], r.UR[2], r.N[0], r.N[1], r.N[2])
}

// regions differ from the first in one number each.
func regions() []region {
	base := region{V3{0, 1, -2.5}, V3{4, 5, 1.5}, K{2, 2, 2}}
	out := []region{base}
	for a := 0; a < 3; a++ {
		r := base
		r.LL[a] += 0.25
		out = append(out, r)
		r = base
		r.UR[a] += 0.25
		out = append(out, r)
		r = base
		r.N[a]++
		out = append(out, r)
	}
	// numbers that run into each other
	return append(out, region{V3{1, 11, 1}, V3{12, 13, 14}, K{1, 2, 3}}, region{V3{11, 1, 1}, V3{12, 13, 14}, K{1, 2, 3}}, region{V3{-1, 1, 1}, V3{2, 2, 2}, K{12, 3, 4}}, region{V3{-1, 1, 1}, V3{2, 2, 2}, K{1, 23, 4}},
		region{V3{1e-7, 0, 0}, V3{1e21, 1, 1}, K{1, 1, 1}}, region{V3{1. / 3, 0, 0}, V3{2. / 3, 1, 1}, K{1, 1, 1}})
}

// getCase reads a model back as a mesh.
type getCase struct {
	N     K
	Bits  uint64
	T     V3
	VPMM  float64
	R     int
	Break int  // bytes that the file has lost
	Full  bool `json:",omitempty"` // all voxels
}

func call() (context.Context, context.CancelFunc) {
	return context.WithTimeout(context.Background(), time.Minute)
}

func (v getCase) run(c *hx.Ctx) (res string, err error) {
	s, err := getSlave(c)
	if err != nil {
		return "", err
	}
	defer func() {
		if e := s.put(); e != nil && err == nil {
			err = e
		}
	}()
	set := subset(v.N, v.Bits)
	if v.Full {
		set = full(v.N)
	}
	rs := regions()
	r := rs[v.R]
	b := encodeBinvox(header{v.N, v.T, scaleOf(v.N, v.VPMM)}, set)
	mustWrite(filepath.Join(s.dir, r.file()), b[:len(b)-v.Break])
	before := s.files()
	ctx, cancel := call()
	defer cancel()
	for i, o := range rs {
		resp, err := s.c.GetSTLMesh(ctx, &pb.GetSTLMeshRequest{VoxelRegion: o.pb()})
		if i != v.R || v.Break > 0 {
			if err == nil {
				return "", fmt.Errorf("region %v has no model, but there is a mesh of %v bytes", o, len(resp.GetStlFile()))
			}
			continue
		}
		if err != nil {
			return "", err
		}
		fn := c.Tmp("-get.stl")
		mustWrite(fn, resp.GetStlFile())
		ts, err := readMesh(fn)
		os.Remove(fn)
		if err != nil {
			return "", err
		}
		for i := range ts {
			for j := range ts[i] {
				for a := 0; a < 3; a++ {
					ts[i][j][a] = (ts[i][j][a] - v.T[a]) * v.VPMM
				}
			}
		}
		if err := checkMesh(ts, set, "manifold"); err != nil {
			return "", err
		}
		res = fmt.Sprint(len(ts), set.hash())
	}
	for f := range s.files() {
		if _, ok := before[f]; !ok {
			return "", fmt.Errorf("reading makes file %v", f)
		}
	}
	return res, nil
}

// upload is an STL file that is sent to the server.
type upload struct {
	N     int    // number of triangles
	Kind  string // "binary", "ascii"
	What  string `json:",omitempty"` // what is wrong
	Cut   int    `json:",omitempty"`
	State string // of the region: "", "stl", "binvox"
	Sub   bool   `json:",omitempty"`
	NoReg bool   `json:",omitempty"` // no region
	Style string `json:",omitempty"` // how an ASCII file is written
}

// styled writes an ASCII file in another way. It may be refused if may is set.
func (v upload) styled(b []byte) (_ []byte, may bool) {
	s := string(b)
	lines := strings.SplitAfter(s, "\n")
	switch v.Style {
	case "crlf":
		s = strings.ReplaceAll(s, "\n", "\r\n")
	case "tabs":
		s = strings.ReplaceAll(strings.ReplaceAll(s, " ", "\t"), "\n", " \n")
	case "blank":
		s = strings.ReplaceAll(s, "\n", "\n\n  \n")
	case "flat":
		for i, l := range lines {
			lines[i] = strings.TrimLeft(l, " \t")
		}
		s = strings.Join(lines, "")
	case "line": // a long comment in the line Cut
		may = true
		fallthrough
	case "comment":
		n := 60
		if may {
			n = v.Cut >> 8
		}
		i := v.Cut & 255 % len(lines)
		lines[i] = "comment " + strings.Repeat("x", n) + "\n" + lines[i]
		s = strings.Join(lines, "")
	case "two": // two solids in a file
		s += s
	}
	return []byte(s), may
}

func (v upload) tris() []tri {
	ts := boxTris(V3{0.5, -1, 0.25}, V3{3, 1.125, 2}, 5)
	for len(ts) < v.N {
		n := float64(len(ts))
		ts = append(ts, tri{{n, 0.1, -n}, {1e-3, n / 3, 1e5}, {-n, 2, math.Pi}})
	}
	return ts[:v.N]
}

func (v upload) body() []byte {
	b := binarySTL(v.tris())
	if v.Kind == "ascii" {
		b, _ = v.styled(asciiSTL(v.tris()))
	}
	switch v.What {
	case "cut":
		b = b[:min(v.Cut, len(b)-1)]
	case "longer":
		b = append(b, make([]byte, v.Cut)...)
	case "count":
		b[80+v.Cut%4] ^= 1 << (v.Cut / 4)
	}
	return b
}

func (v upload) run(c *hx.Ctx) (res string, err error) {
	s, err := getSlave(c)
	if err != nil {
		return "", err
	}
	defer func() {
		if e := s.put(); e != nil && (err == nil || strings.Contains(err.Error(), "EOF")) {
			err = e
		}
	}()
	r := regions()[0]
	other := regions()[1]
	in := &pb.AddSTLMeshRequest{VoxelRegion: r.pb(), StlFile: v.body()}
	if v.NoReg {
		r, in.VoxelRegion = region{}, nil
	}
	mustWrite(filepath.Join(s.dir, other.file()), []byte("other"))
	switch v.State {
	case "stl":
		mustWrite(filepath.Join(s.dir, r.file()), binarySTL(boxTris(V3{}, V3{1, 1, 1}, 0)))
	case "binvox":
		mustWrite(filepath.Join(s.dir, r.file()), encodeBinvox(header{K{2, 2, 2}, V3{}, 1}, subset(K{2, 2, 2}, 0x81)))
	}
	before := s.files()
	ctx, cancel := call()
	defer cancel()
	if v.Sub {
		_, err = s.c.SubSTLMesh(ctx, &pb.SubSTLMeshRequest{VoxelRegion: in.VoxelRegion, StlFile: in.StlFile})
	} else {
		_, err = s.c.AddSTLMesh(ctx, in)
	}
	if ctx.Err() != nil {
		return "", fmt.Errorf("the server does not answer")
	}
	if ended(s.dead) {
		return "", fmt.Errorf("the server has ended")
	}
	after := s.files()
	if err != nil {
		if e := sameFiles(after, before); e != nil {
			return "", fmt.Errorf("the request is refused (%v), but %v", err, e)
		}
		if _, may := v.styled([]byte("solid\n\n")); v.What == "" && v.State == "" && !v.Sub && !may {
			return "", fmt.Errorf("a good file is refused: %v", err)
		}
		return "refused: " + firstWords(err.Error()), nil
	}
	switch {
	case v.What != "":
		return "", fmt.Errorf("a broken file is accepted")
	case v.Sub:
		return "", fmt.Errorf("the server pretends to subtract a mesh")
	case v.State != "":
		return "", fmt.Errorf("the server pretends to add a mesh to a model")
	}
	// the triangles must be there, and nothing else has changed
	got, ok := after[r.file()]
	if !ok {
		return "", fmt.Errorf("the model is not stored: %v", len(after))
	}
	fn := c.Tmp("-up.stl")
	defer os.Remove(fn)
	mustWrite(fn, []byte(got))
	ts, err := readSTL(fn)
	if err != nil {
		return "", err
	}
	want := v.tris()
	if v.Style == "two" {
		want = append(want, want...)
	}
	if a, b := f32Tris(ts), f32Tris(want); a != b {
		return "", fmt.Errorf("%v triangles are stored, want %v; or others", len(ts), len(want))
	}
	delete(after, r.file())
	if e := sameFiles(after, before); e != nil {
		return "", e
	}
	return fmt.Sprint("stored ", len(ts)), nil
}

func firstWords(s string) string {
	f := strings.Fields(s)
	return strings.Join(f[:min(len(f), 8)], " ")
}

// f32Tris is an order-independent form of triangles in the precision of STL files.
func f32Tris(ts []tri) string {
	var out []string
	for _, t := range ts {
		var b []byte
		for _, p := range t {
			for _, f := range p {
				b = binary.LittleEndian.AppendUint32(b, math.Float32bits(float32(f)))
			}
		}
		out = append(out, string(b))
	}
	sort.Strings(out)
	return strings.Join(out, "")
}

// slaveSpec are requests that run at the same time at the slave.
type slaveSpec struct {
	Ops   []string
	Model []int
	Mesh  []int
}

// slaveScenarios are all pairs of requests, and some triples, at regions without a model (0), with
// a mesh (1) and with voxels (2), and at others of each.
func slaveScenarios() []slaveSpec {
	v := slaveSpec{Model: []int{2, 5}, Mesh: []int{1, 4}}
	ops := []string{"add 0 0", "add 0 1", "add 3 2", "add 1 0", "add 2 0", "bad 0 2", "sub 0 0", "sub 2 0", "get 0", "get 1", "get 2", "get 5"}
	var r []slaveSpec
	for i, a := range ops {
		for _, b := range ops[i:] {
			w := v
			w.Ops = []string{a, b}
			r = append(r, w)
		}
	}
	for _, o := range [][]string{{"add 0 0", "add 0 1", "get 0"}, {"add 0 0", "add 3 1", "get 2"}, {"get 2", "get 5", "get 2"}, {"add 2 0", "sub 2 1", "get 2"}, {"add 0 0", "add 0 1", "bad 0 2"}} {
		w := v
		w.Ops = o
		r = append(r, w)
	}
	return r
}

func init() {
	hx.Register(&hx.Check{
		ID:    "C25",
		Level: "model_checking",
		Rule: "The real stldice-slave runs as a process behind the loopback network. kind \"get\": all models on six grids, and full slabs with up to 67600 triangles, in regions that differ in one number from fifteen others, and files cut at every byte (but not between two runs); every other region must have no mesh. " +
			"kind \"upload\": meshes of 0 to 100 triangles, binary and ASCII, added to or subtracted from a region without a model, with a mesh, and with a voxel model; every truncation, extension and bit flip of the count; ASCII files in six layouts and with a comment of 60 to 200000 bytes before any line. " +
			"kind \"fulldisk\": uploads of up to 300 (thorough 3000) triangles while any one change of the file system fails, at once or after some bytes of a write, for good or for once; then the same upload again. " +
			schedRule + "These scenarios are all pairs of twelve requests, and five triples, at the real slave; the result must be that of some order of them. " +
			"The mesh must enclose exactly the voxels and its facet normals must point outward; an upload is either stored with exactly its triangles or refused with every file as before, a broken one is refused, and the server goes on.",
		Assumptions: []string{"An ASCII file that is cut between two triangles is not told from a complete one.", "The operations that are not implemented (adding to and subtracting from a voxel model) must return an error."},
		Setup: func(c *hx.Ctx) func() {
			get := hx.Kind(c, "get", func(v getCase) (string, error) { return v.run(c) })
			up := hx.Kind(c, "upload", func(v upload) (string, error) { return v.run(c) })
			full := hx.Kind(c, "fulldisk", func(v fullDisk) (string, error) { return v.run(c) })
			p := c.SchedProg("sched/slave", true)
			c.SetKindHang("explore", 20*time.Minute)
			explore := p.Kinds(func() float64 { return hx.Pick(c, 60.0, 300.0) })
			return func() {
				defer stopSlaves()
				hx.One(c, 8, explore, func(yield func(hx.SchedCase) bool) {
					for _, v := range slaveScenarios() {
						if !yield(hx.SchedCase{Scenario: scenario("slave", v), Bound: hx.Pick(c, 2, 3)}) {
							return
						}
					}
				})
				hx.Each(c, get, func(yield func(getCase) bool) {
					i := 0
					for _, n := range []K{{1, 1, 1}, {2, 2, 2}, {3, 1, 2}, {1, 2, 3}, {4, 2, 1}, hx.Pick(c, K{1, 1, 5}, K{3, 2, 2})} {
						for b := uint64(1); b < 1<<(n[0]*n[1]*n[2]); b++ {
							for _, w := range []struct {
								t V3
								v float64
							}{{V3{}, 1}, {V3{-80, 3.25, -2.5}, 4}, {V3{0.5, 0, 64}, 0.25}} {
								i++
								if !yield(getCase{N: n, Bits: b, T: w.t, VPMM: w.v, R: i % len(regions())}) {
									return
								}
							}
						}
					}
					for a := 0; a < 3; a++ { // many triangles, but not more than gRPC lets through
						for _, n := range []int{3, 8, 60, 61, 127, 129} {
							g := K{n, n, n}
							g[a] = 1
							if !yield(getCase{N: g, Full: true, T: V3{1, 2, 3}, VPMM: 2, R: a}) {
								return
							}
						}
					}
					v := getCase{N: K{3, 2, 2}, Bits: 0xfff, T: V3{1, 2, 3}, VPMM: 2}
					file := encodeBinvox(header{v.N, v.T, scaleOf(v.N, v.VPMM)}, subset(v.N, v.Bits))
					data := len(file) - strings.Index(string(file), "data\n") - 5
					for v.Break = 1; v.Break <= len(file); v.Break++ {
						if v.Break <= data && v.Break%2 == 0 {
							continue // accepted by design, as in C02
						}
						if !yield(v) {
							return
						}
					}
				})
				hx.Each(c, full, func(yield func(fullDisk) bool) {
					for _, n := range []int{1, 2, 100, hx.Pick(c, 300, 3000)} {
						ops, err := uploadChanges(c, n)
						if err != nil {
							continue // kind "upload" tells
						}
						for i, op := range ops {
							for _, mode := range []string{"once", "fail"} {
								torn := []int{0}
								if op.Op == "write" {
									torn = hx.Torn(op.N, hx.Pick(c, 8, 40))
								}
								for _, b := range torn {
									if !yield(fullDisk{N: n, Mode: mode, At: i + 1, Torn: b}) {
										return
									}
								}
							}
						}
					}
				})
				hx.Each(c, up, func(yield func(upload) bool) {
					for _, n := range []int{1, 4, 12} {
						for _, st := range []string{"crlf", "tabs", "blank", "flat", "two"} {
							if !yield(upload{N: n, Kind: "ascii", Style: st}) {
								return
							}
						}
						v := upload{N: n, Kind: "ascii", Style: "comment"}
						for v.Cut = 1; v.Cut < n*7+2; v.Cut++ {
							if !yield(v) {
								return
							}
						}
						v.Style = "line"
						for _, l := range []int{4000, 65526, 65527, 65528, 65529, 65530, 66000, 200000} {
							for i := 1; i < n*7+2; i++ {
								v.Cut = l<<8 | i
								if !yield(v) {
									return
								}
							}
						}
					}
					for _, kind := range []string{"binary", "ascii"} {
						for _, state := range []string{"", "stl", "binvox"} {
							for _, sub := range []bool{false, true} {
								for _, n := range []int{0, 1, 2, 3, 7, 8, 9, 12, 40, 100} {
									if kind == "ascii" && n == 0 {
										continue // shorter than a header
									}
									for _, nr := range []bool{false, true} {
										if !yield(upload{N: n, Kind: kind, State: state, Sub: sub, NoReg: nr}) {
											return
										}
									}
								}
								v := upload{N: 3, Kind: kind, State: state, Sub: sub, What: "cut"}
								for v.Cut = 0; v.Cut < len(upload{N: 3, Kind: kind}.body()); v.Cut++ {
									if kind == "ascii" && wholeText(v.body()) {
										continue
									}
									if !yield(v) {
										return
									}
								}
								if kind == "ascii" {
									continue
								}
								v.What = "longer"
								for _, v.Cut = range []int{1, 2, 49, 50, 51, 100, 150} {
									if !yield(v) {
										return
									}
								}
								v.What = "count"
								for v.Cut = 0; v.Cut < 32; v.Cut++ {
									if !yield(v) {
										return
									}
								}
							}
						}
					}
				})
			}
		},
	})
}

// wholeText reports whether an ASCII file, which may be cut, has only whole triangles.
func wholeText(b []byte) bool {
	full := 0
	for _, l := range strings.Split(string(b), "\n") {
		if fs := strings.Fields(l); len(fs) == 4 && fs[0] == "vertex" {
			full++
		}
	}
	return len(b) >= 84 && full%3 == 0
}
