package checks

import (
	"bytes"
	"context"
	"fmt"
	"image"
	"image/png"
	"math"
	"net"
	"sync"
	"time"

	gl "github.com/fogleman/fauxgl"
	"github.com/gmlewis/stldice/v4/stl2svx/agent"
	"github.com/gmlewis/stldice/v4/stl2svx/master"
	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
	"google.golang.org/grpc"
	"stldiceverif/hx"
)

// theAgent is an agent that is registered with a master on the loopback network.
var theAgent = sync.OnceValue(func() pb.AgentServer {
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := grpc.NewServer()
	pb.RegisterMasterServer(s, master.New())
	go s.Serve(lis)
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	a, err := agent.New(ctx, "127.0.0.1:1", lis.Addr().String())
	if err != nil {
		panic(err)
	}
	return a
})

// jobCase is a job: a base and cuts, in voxel units, whose lowest corner is at the origin.
type jobCase struct {
	VPMM float64
	T    V3
	Base []solid
	Cuts [][]solid `json:",omitempty"`
	Div  K
	Diag int `json:",omitempty"`
	Rot  int `json:",omitempty"`
}

func (v jobCase) vox(s []solid, n K) voxCase {
	return voxCase{VPMM: v.VPMM, T: v.T, N: n, Solids: s, Diag: v.Diag, Rot: v.Rot}
}

func stlFile(ts []tri, rot int) *pb.STLFile {
	f := &pb.STLFile{}
	p := func(v V3) *pb.Vertex { return &pb.Vertex{X: v[0], Y: v[1], Z: v[2]} }
	for i := range ts {
		t := ts[(i+rot)%len(ts)]
		f.Triangles = append(f.Triangles, &pb.Triangle{V1: p(t[rot%3]), V2: p(t[(rot+1)%3]), V3: p(t[(rot+2)%3])})
	}
	return f
}

// fileMesh has the triangles in the order of the file: the shell of a slope depends on the order of corners.
func fileMesh(f *pb.STLFile) *gl.Mesh {
	var out []*gl.Triangle
	p := func(v *pb.Vertex) gl.Vector { return gl.V(v.X, v.Y, v.Z) }
	for _, t := range f.Triangles {
		out = append(out, gl.NewTriangleForPoints(p(t.V1), p(t.V2), p(t.V3)))
	}
	return gl.NewTriangleMesh(out)
}

// size is the size of the base in voxels.
func (v jobCase) size() (n K, dim int) {
	var hi V3
	for _, t := range v.vox(v.Base, K{}).world() {
		for _, p := range t {
			for a := 0; a < 3; a++ {
				hi[a] = math.Max(hi[a], (p[a]-v.T[a])*v.VPMM)
			}
		}
	}
	for a := range n {
		n[a] = int(math.Ceil(hi[a]))
		dim = max(dim, n[a])
	}
	return n, dim
}

func (v jobCase) request() *pb.NewJobRequest {
	n, dim := v.size()
	in := &pb.NewJobRequest{Dim: int64(dim), NX: int64(v.Div[0]), NY: int64(v.Div[1]), NZ: int64(v.Div[2]), OutPrefix: "out"}
	for i, s := range append([][]solid{v.Base}, v.Cuts...) {
		in.StlFiles = append(in.StlFiles, stlFile(v.vox(s, n).world(), v.Rot+i))
	}
	return in
}

// voxels is the base without the cuts.
func (v jobCase) voxels() (Set, error) {
	n, _ := v.size()
	one := func(s []solid, rot int) (Set, error) {
		w := v.vox(s, n)
		if r, ok := w.exactBoxes(); ok {
			return r, nil
		}
		b := w.region(K{}, n)
		err := b.Voxelize(fileMesh(stlFile(w.world(), rot))) // checked by C07
		return fromBV(b), err
	}
	set, err := one(v.Base, v.Rot)
	if err != nil {
		return nil, err
	}
	for i, s := range v.Cuts {
		cut, err := one(s, v.Rot+i+1)
		if err != nil {
			return nil, err
		}
		for k := range cut {
			delete(set, k)
		}
	}
	return set, nil
}

// readSlice reads the pixels of a slice image with a frame of one pixel and the Y axis mirrored.
func readSlice(buf []byte, n K, z int, set Set) error {
	img, err := png.Decode(bytes.NewReader(buf))
	if err != nil {
		return err
	}
	if b := img.Bounds(); b != image.Rect(0, 0, n[0]+2, n[1]+2) {
		return fmt.Errorf("the image is %v, want %v x %v", b, n[0]+2, n[1]+2)
	}
	for y := 0; y < n[1]+2; y++ {
		for x := 0; x < n[0]+2; x++ {
			r, g, b, a := img.At(x, y).RGBA()
			switch {
			case a != 0xffff || r != g || g != b || r != 0 && r != 0xffff:
				return fmt.Errorf("pixel %v,%v is %v", x, y, img.At(x, y))
			case r == 0:
			case x == 0 || y == 0 || x == n[0]+1 || y == n[1]+1:
				return fmt.Errorf("pixel %v,%v of the frame is white", x, y)
			default:
				set[K{x - 1, n[1] - y, z}] = true
			}
		}
	}
	return nil
}

func (v jobCase) run(c *hx.Ctx) (string, error) {
	n, _ := v.size()
	want, err := v.voxels()
	if err != nil {
		return "", err
	}
	in := v.request()
	got := Set{}
	for z := 0; z < n[2]; z++ {
		resp, err := theAgent().SliceJob(context.Background(), &pb.SliceJobRequest{NewJobRequest: in, Z: int64(z)})
		if err != nil {
			return "", fmt.Errorf("slice %v: %v", z, err)
		}
		if err := readSlice(resp.GetPngFile(), n, z, got); err != nil {
			return "", fmt.Errorf("slice %v: %v", z, err)
		}
	}
	c.Count("slices", int64(n[2]))
	if err := diff(got, want); err != nil {
		return "", err
	}
	return fmt.Sprint(n, v.Div) + got.hash(), nil
}

func genJobs(c *hx.Ctx, yield func(jobCase) bool) {
	th := c.Thorough()
	lat := []jobCase{{VPMM: 1}, {VPMM: 4, T: V3{-80, 3.25, -0.5}}, {VPMM: 0.5, T: V3{1<<25 + 2, -1<<26 - 2, 1<<25 + 2}}}
	bases := [][]solid{
		{boxSolid(0, 0, 0, 3, 2, 2)},
		{boxSolid(0, 0, 0, 1, 4, 2)},
		{boxSolid(0, 0, 0, 1.5, 2.25, 3)},
		{boxSolid(0, 0, 0, 1, 1, 1), boxSolid(2, 0, 1, 4, 2, 2), boxSolid(0, 3, 2, 1, 4, 3)},
		{{Poly: []P2{{0, 0}, {5, 0}, {5, 2}, {2, 2}, {2, 4}, {0, 4}}, Z: P2{0, 3}}},
		{{Tet: &[4]V3{{0, 0, 0}, {8, 0, 0}, {0, 7, 0}, {0, 0, 6}}}},
		{boxSolid(0, 0, 0, 7, 5, 6)},
		{boxSolid(0, 0, 0, 4, 2+1./2048, 3)}, // a last layer of voxels that the model hardly reaches into
	}
	if th {
		bases = append(bases, []solid{boxSolid(0, 0, 0, 2, 3, 7)}, []solid{{Poly: []P2{{0, 0}, {6, 0}, {6, 6}, {3, 2}, {0, 6}}, Z: P2{0, 2.5}}},
			[]solid{boxSolid(0, 0, 0, 5, 0.25, 0.75)}, []solid{boxSolid(0, 0, 0, 33, 34, 2)})
	}
	divs := func(n K, f func(K) bool) bool {
		for x := 1; x <= min(n[0], 4); x++ {
			for y := 1; y <= min(n[1], 4); y++ {
				for z := 1; z <= min(n[2], 4); z++ {
					if !f(K{x, y, z}) {
						return false
					}
				}
			}
		}
		return true
	}
	spans := [][2]float64{{-1, 9}, {0, 1}, {0.25, 0.5}, {1, 2.5}, {-2, -0.5}, {-0.5, 0}, {1.75, 2}, {2.5, 12}}
	i := 0
	for _, l := range lat {
		for _, base := range bases {
			v := l
			v.Base = base
			n, _ := v.size()
			// no cut: all divisions, triangulations
			for _, d := range []int{0, 255, 0x55} {
				v.Diag, v.Rot = d, d%7
				if !divs(n, func(k K) bool { v.Div = k; return yield(v) }) {
					return
				}
			}
			// one cut at every combination of spans: divisions in rotation
			var all []K
			divs(n, func(k K) bool { all = append(all, k); return true })
			for _, x := range spans {
				for _, y := range spans {
					for _, z := range spans {
						for k := 0; k < hx.Pick(c, 1, 3); k++ {
							i++
							v.Div = all[(i*7+k)%len(all)]
							v.Cuts = [][]solid{{boxSolid(x[0], y[0], z[0], x[1], y[1], z[1])}}
							if !yield(v) {
								return
							}
							// and a second one
							o := spans[i%len(spans)]
							if i%3 == 0 || th {
								v.Cuts = append(v.Cuts, []solid{boxSolid(o[0], z[0], x[0], o[1], z[1], x[1]), boxSolid(20, 20, 0, 21, 21, 1)})
								if !yield(v) {
									return
								}
							}
						}
					}
				}
			}
			// cuts with slopes
			for _, s := range []solid{{Tet: &[4]V3{{-1, -1, -1}, {6, 0, 0}, {0, 5, 0.5}, {1, 1, 7}}}, {Poly: []P2{{1, 0.5}, {4, 0}, {2.5, 3}}, Z: P2{-1, 1.75}}} {
				for _, k := range all {
					v.Div = k
					v.Cuts = [][]solid{{s}}
					if !yield(v) {
						return
					}
				}
			}
			v.Cuts = nil
		}
	}
	// slices of more voxels than fit into the agent's buffers, large images, many slices, many cuts and triangles
	v := jobCase{VPMM: 1, Base: []solid{boxSolid(0, 0, 0, 48, 47, 2)}, Cuts: [][]solid{{boxSolid(-1, -1, -1, 40.5, 30.25, 1)}}}
	for _, v.Div = range []K{{1, 1, 1}, {2, 3, 1}, {5, 1, 2}} {
		if !yield(v) {
			return
		}
	}
	var studs []solid
	for _, k := range box(K{9, 8, 2}) {
		studs = append(studs, boxSolid(float64(k[0]*8)-0.75, float64(k[1]*9)-1, float64(k[2]*3)-1, float64(k[0]*8)+3.25, float64(k[1]*9)+2.5, float64(k[2]*3)+0.75))
	}
	posts := []solid{boxSolid(0, 0, 0, 0.5, 0.25, 0.75)}
	for _, k := range box(K{9, 8, 2}) {
		x, y, z := float64(k[0]*8)+1, float64(k[1]*9)+1, float64(k[2]*3)
		posts = append(posts, boxSolid(x, y, z, x+5, y+4.25, z+1.75))
	}
	var cuts [][]solid
	for _, s := range studs[:40] {
		cuts = append(cuts, []solid{s})
	}
	for i, b := range []jobCase{
		{Base: []solid{boxSolid(0, 0, 0, 300, 290, 2)}, Cuts: [][]solid{studs}}, {Base: []solid{boxSolid(0, 0, 0, 257, 3, 3)}}, {Base: []solid{boxSolid(0, 0, 0, 2, 513, 2)}, Cuts: [][]solid{studs}},
		{Base: []solid{boxSolid(0, 0, 0, 70, 71, 5)}, Cuts: cuts}, {Base: posts, Cuts: cuts[10:]},
		{Base: []solid{boxSolid(0, 0, 0, 3, 2, 300)}, Cuts: [][]solid{{boxSolid(1, -1, -1, 1.75, 5, 280)}}}, {Base: []solid{{Tet: &[4]V3{{0, 0, 0}, {80, 0, 0}, {0, 70, 0}, {0, 0, 60}}}}, Cuts: [][]solid{studs}},
		{Base: []solid{boxSolid(0, 0, 0, 70001, 2, 1)}, Cuts: [][]solid{{boxSolid(-1, -1, -1, 33000.5, 1, 3)}, {boxSolid(65530, -1, -1, 65540, 5, 1)}}}, {Base: []solid{boxSolid(0, 0, 0, 2, 70002, 1)}, Cuts: [][]solid{{boxSolid(-1, 40000, -1, 1, 66000, 3)}}},
	} {
		l := lat[i%3]
		b.VPMM, b.T, b.Diag, b.Rot = l.VPMM, l.T, i*0x31, i
		n, _ := b.size()
		for _, b.Div = range []K{{1, 1, 1}, {2, min(3, n[1]), min(2, n[2])}, {min(7, n[0]), 2, 1}, {1, min(8, n[1]), min(5, n[2])}} {
			if !yield(b) {
				return
			}
		}
	}
}

// badJob is a job that cannot be sliced.
type badJob struct {
	Dim        int64
	Div        [3]int64
	Base, Cut  string // what is wrong with the files
	NoRequest  bool   `json:",omitempty"`
	WithMaster bool   `json:",omitempty"`
}

func badFile(kind string) *pb.STLFile {
	f := stlFile(boxTris(V3{}, V3{2, 2, 2}, 0), 0)
	switch kind {
	case "nil":
		return nil
	case "empty":
		return &pb.STLFile{}
	case "triangle":
		f.Triangles[3] = nil
	case "vertex":
		f.Triangles[5].V3 = nil
	case "nan":
		f.Triangles[2].V1.Y = math.NaN()
		for _, t := range f.Triangles {
			t.V2.Y = math.NaN()
		}
	case "inf":
		f.Triangles[2].V1.Y = math.Inf(1)
	case "flat":
		for _, t := range f.Triangles {
			t.V1.Z, t.V2.Z, t.V3.Z = 1, 1, 1
		}
	case "point":
		for _, t := range f.Triangles {
			t.V1, t.V2, t.V3 = &pb.Vertex{}, &pb.Vertex{}, &pb.Vertex{}
		}
	}
	return f
}

func (v badJob) run() (string, error) {
	in := &pb.NewJobRequest{Dim: v.Dim, NX: v.Div[0], NY: v.Div[1], NZ: v.Div[2]}
	if v.Base != "none" {
		in.StlFiles = append(in.StlFiles, badFile(v.Base))
		if v.Cut != "" {
			in.StlFiles = append(in.StlFiles, badFile(v.Cut))
		}
	}
	if v.NoRequest {
		in = nil
	}
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	if v.WithMaster {
		resp, err := master.New().NewJob(ctx, in)
		if err == nil {
			return "", fmt.Errorf("the master accepts the job: %v bytes", len(resp.GetSvxFile()))
		}
		if ctx.Err() != nil {
			return "", fmt.Errorf("the master waits for agents: %v", err)
		}
		return err.Error(), nil
	}
	resp, err := theAgent().SliceJob(ctx, &pb.SliceJobRequest{NewJobRequest: in})
	if err == nil {
		return "", fmt.Errorf("the agent accepts the job: %v bytes", len(resp.GetPngFile()))
	}
	return err.Error(), nil
}

func genBad(yield func(badJob) bool) {
	good := badJob{Dim: 2, Div: [3]int64{1, 1, 1}, Base: "good"}
	for _, m := range []bool{false, true} {
		v := good
		v.WithMaster = m
		for _, d := range []int64{0, -1, math.MinInt64, math.MaxInt64, 1 << 62, 1 << 40, 1 << 29, 1 << 22} {
			w := v
			w.Dim = d
			if !yield(w) {
				return
			}
		}
		for a := 0; a < 3; a++ {
			for _, d := range []int64{0, -1, 3, math.MaxInt64, math.MinInt64} {
				w := v
				w.Div[a] = d
				if !yield(w) {
					return
				}
			}
		}
		for _, b := range []string{"none", "nil", "empty", "triangle", "vertex", "nan", "inf", "flat", "point"} {
			w := v
			w.Base = b
			if !yield(w) {
				return
			}
		}
		if !m { // The cuts are only looked at by the agents.
			for _, b := range []string{"triangle", "vertex"} {
				w := v
				w.Cut = b
				if !yield(w) {
					return
				}
			}
		}
		w := v
		w.NoRequest = true
		if !yield(w) {
			return
		}
	}
}

type agentSpec struct {
	N    [3]int
	Div  [3]int64
	Cuts [][6]int
	Z    []int64
	Bad  string `json:",omitempty"`
}

func init() {
	hx.Register(&hx.Check{
		ID:    "C20",
		Level: "model_checking",
		Rule: "cases \"slices\": jobs of seven bases (boxes with whole and fractional sizes, disjoint boxes, a concave prism, a tetrahedron) on three lattices x all divisions up to four per axis, with no cut, one cut at every combination of eight spans per axis, two cuts, and sloped cuts, and large jobs; all slices of the real agent are compared with the base minus the cuts. cases \"malformed\": requests with an invalid size, division or file, at the agent and at the master. " + schedRule +
			"These scenarios are slices of small jobs, alone and two at a time, valid and malformed; on every schedule the image must be the same.",
		Assumptions: append([]string{"resolution and origin are dyadic"}, schedAssumptions...),
		Setup: func(c *hx.Ctx) func() {
			p := c.SchedProg("sched/svc", true)
			c.SetHang(20 * time.Minute)
			c.SetKindHang("slices", 90*time.Second)
			c.SetKindHang("malformed", 90*time.Second)
			explore := p.Kinds(func() float64 { return hx.Pick(c, 100.0, 400.0) })
			slices := hx.Kind(c, "slices", func(v jobCase) (string, error) { return v.run(c) })
			bad := hx.Kind(c, "malformed", func(v badJob) (string, error) { return v.run() })
			return func() {
				theAgent()
				hx.Each(c, bad, genBad)
				hx.Each(c, slices, func(yield func(jobCase) bool) { genJobs(c, yield) })
				hx.One(c, 8, explore, func(yield func(hx.SchedCase) bool) {
					for _, r := range []struct {
						v        agentSpec
						quick, t int
					}{
						{agentSpec{N: K{2, 2, 1}, Div: [3]int64{1, 1, 1}, Z: []int64{0}, Cuts: [][6]int{{0, 0, 0, 1, 1, 1}}}, -1, -1},
						{agentSpec{N: K{2, 3, 2}, Div: [3]int64{2, 1, 1}, Z: []int64{0}, Cuts: [][6]int{{0, 0, 0, 1, 2, 1}}}, 0, 1},
						{agentSpec{N: K{2, 3, 2}, Div: [3]int64{1, 1, 1}, Z: []int64{0}}, 2, 3},
						{agentSpec{N: K{2, 1, 2}, Div: [3]int64{2, 1, 2}, Z: []int64{1}, Cuts: [][6]int{{1, 0, 0, 2, 1, 2}}}, 1, 2},
						{agentSpec{N: K{1, 2, 2}, Div: [3]int64{1, 1, 2}, Z: []int64{0, 1}, Cuts: [][6]int{{0, 0, 0, 1, 1, 1}}}, 0, 1},
						{agentSpec{N: K{1, 1, 2}, Div: [3]int64{1, 1, 1}, Z: []int64{0, 1}}, 1, 2},
						{agentSpec{N: K{2, 2, 1}, Div: [3]int64{1, 1, 1}, Z: []int64{0}, Bad: "vertex"}, 2, 3},
						{agentSpec{N: K{2, 2, 1}, Div: [3]int64{1, 1, 1}, Z: []int64{0}, Bad: "cut", Cuts: [][6]int{{0, 0, 0, 1, 1, 1}}}, 2, 3},
						{agentSpec{N: K{2, 2, 1}, Div: [3]int64{1, 1, 1}, Z: []int64{0}, Bad: "div"}, 2, 3},
						{agentSpec{N: K{2, 2, 1}, Div: [3]int64{1, 1, 1}, Z: []int64{0, 0}, Bad: "files"}, 2, 3},
						{agentSpec{N: K{2, 2, 1}, Div: [3]int64{1, 1, 1}, Z: []int64{0}, Bad: "register"}, 2, 3},
					} {
						if !yield(hx.SchedCase{Scenario: scenario("agent", r.v), Bound: hx.Pick(c, r.quick, r.t)}) {
							return
						}
					}
				})
			}
		},
	})
}
