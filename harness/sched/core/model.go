//go:build verifsched

package main

import (
	"bytes"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"

	gl "github.com/fogleman/fauxgl"
	"github.com/gmlewis/stldice/v4/binvox"
	"github.com/gmlewis/stldice/v4/vshell"
	"stldiceverif/sched/drv"
)

// voxelizeSpec voxelizes a box of unit voxels in a region.
type voxelizeSpec struct {
	Min, Max [3]int // the box, in voxels
	N        [3]int // the region
	Par      int    // how many goroutines voxelize (their own region of) the same mesh
	Z        bool   // slice by slice, each slice in a goroutine
}

func box(lo, hi [3]int) *gl.Mesh {
	c := func(i int) gl.Vector {
		p := [3]float64{}
		for a := 0; a < 3; a++ {
			v := lo[a]
			if i>>a&1 != 0 {
				v = hi[a]
			}
			p[a] = float64(v)
		}
		return gl.V(p[0], p[1], p[2])
	}
	var ts []*gl.Triangle
	quad := func(a, b, d, e int) {
		ts = append(ts, gl.NewTriangleForPoints(c(a), c(b), c(d)), gl.NewTriangleForPoints(c(a), c(d), c(e)))
	}
	quad(0, 2, 3, 1) // z = lo
	quad(4, 5, 7, 6) // z = hi
	quad(0, 1, 5, 4) // y = lo
	quad(2, 6, 7, 3) // y = hi
	quad(0, 4, 6, 2) // x = lo
	quad(1, 3, 7, 5) // x = hi
	return gl.NewTriangleMesh(ts)
}

func voxelString(m binvox.WhiteVoxelMap) string {
	var s []string
	for k := range m {
		s = append(s, fmt.Sprintf("%d,%d,%d", k.X, k.Y, k.Z))
	}
	sort.Strings(s)
	return fmt.Sprint(s)
}

func voxelizeScenario(v voxelizeSpec) *drv.Scenario {
	n := max(v.N[0], v.N[1], v.N[2])
	if v.Par == 0 {
		v.Par = 1
	}
	var mesh *gl.Mesh
	want := make([]string, v.Par)
	for i := range want {
		m := binvox.WhiteVoxelMap{}
		for x := 0; x < v.N[0]; x++ {
			for y := 0; y < v.N[1]; y++ {
				for z := 0; z < v.N[2]; z++ {
					if p := [3]int{x + i, y, z}; p[0] >= v.Min[0] && p[1] >= v.Min[1] && p[2] >= v.Min[2] && p[0] < v.Max[0] && p[1] < v.Max[1] && p[2] < v.Max[2] {
						m[binvox.Key{X: x, Y: y, Z: z}] = struct{}{}
					}
				}
			}
		}
		want[i] = voxelString(m)
	}
	// Faces a little inside of the voxel boundaries keep the shell inside of the box.
	shrink := func(m *gl.Mesh) {
		c := gl.V(float64(v.Min[0]+v.Max[0])/2, float64(v.Min[1]+v.Max[1])/2, float64(v.Min[2]+v.Max[2])/2)
		for _, t := range m.Triangles {
			for _, p := range []*gl.Vector{&t.V1.Position, &t.V2.Position, &t.V3.Position} {
				*p = p.Sub(c).MulScalar(0.98).Add(c)
			}
		}
	}
	return &drv.Scenario{
		Before: func() { mesh = box(v.Min, v.Max); shrink(mesh) },
		Body: func() (string, error) {
			got := make([]string, v.Par)
			one := func(i int) error {
				b := &binvox.BinVOX{NX: v.N[0], NY: v.N[1], NZ: v.N[2], TX: float64(i), Scale: float64(n)}
				if !v.Z {
					if err := b.Voxelize(mesh); err != nil {
						return err
					}
					got[i] = voxelString(b.WhiteVoxels)
					return nil
				}
				all := binvox.WhiteVoxelMap{}
				for z := 0; z < v.N[2]; z++ {
					if err := b.VoxelizeZ(mesh, z); err != nil {
						return err
					}
					for k := range b.WhiteVoxels {
						all[k] = struct{}{}
					}
				}
				got[i] = voxelString(all)
				return nil
			}
			errs := make([]error, v.Par)
			if v.Par == 1 {
				errs[0] = one(0)
			} else {
				var wg sync.WaitGroup
				for i := 0; i < v.Par; i++ {
					wg.Add(1)
					go func() { errs[i] = one(i); wg.Done() }()
				}
				wg.Wait()
			}
			for i := range got {
				if errs[i] != nil {
					return "", errs[i]
				}
				if got[i] != want[i] {
					return "", fmt.Errorf("region %d: voxels %v, want %v", i, got[i], want[i])
				}
			}
			return fmt.Sprint(got), nil
		},
	}
}

// writeSpec writes a model from one or more goroutines, to a file each.
type writeSpec struct {
	Kind string // "binvox" or "vshell"
	N    [3]int
	Step int // every Step-th voxel is set
	Par  int
	// Limit > 0: files only hold that many bytes less than the model needs, so the writes fail.
	Limit int `json:",omitempty"`
}

// limitFiles makes writes beyond a size fail, until the returned function is called.
func limitFiles(size int) func() {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic(err)
	}
	set := old
	set.Cur = uint64(size)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &set); err != nil {
		panic(err)
	}
	return func() { syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old) }
}

func writeScenario(v writeSpec) *drv.Scenario {
	dir, err := os.MkdirTemp("", "write")
	if err != nil {
		panic(err)
	}
	b := &binvox.BinVOX{NX: v.N[0], NY: v.N[1], NZ: v.N[2], Scale: 4, WhiteVoxels: binvox.WhiteVoxelMap{}}
	vs := &vshell.VShell{NX: v.N[0], NY: v.N[1], NZ: v.N[2], Scale: 4}
	i := 0
	for x := 0; x < v.N[0]; x++ {
		for z := 0; z < v.N[2]; z++ {
			for y := 0; y < v.N[1]; y++ {
				if i%v.Step == 0 {
					b.WhiteVoxels[binvox.Key{X: x, Y: y, Z: z}] = struct{}{}
					vs.Voxels = append(vs.Voxels, vshell.VShVoxel{X: x, Y: y, Z: z, N: 1 << (i % 20)})
				}
				i++
			}
		}
	}
	if v.Par == 0 {
		v.Par = 1
	}
	write := b.Write
	if v.Kind == "vshell" {
		write = vs.Write
	}
	name := func(i int) string { return filepath.Join(dir, fmt.Sprint("out", i)) }
	ref := filepath.Join(dir, "ref")
	if err := write(ref, 0, 0, 0, 0, 0, 0); err != nil {
		panic(err)
	}
	want, err := os.ReadFile(ref)
	if err != nil {
		panic(err)
	}
	return &drv.Scenario{
		LeakOK: v.Limit > 0,
		Body: func() (string, error) {
			if v.Limit > 0 {
				defer limitFiles(len(want) - v.Limit)()
			}
			errs := make([]error, v.Par)
			var wg sync.WaitGroup
			for i := 0; i < v.Par; i++ {
				wg.Add(1)
				go func() { errs[i] = write(name(i), 0, 0, 0, 0, 0, 0); wg.Done() }()
			}
			wg.Wait()
			for i, err := range errs {
				if v.Limit > 0 {
					if err == nil {
						return "", fmt.Errorf("a write that fails is not reported")
					}
					continue
				}
				if err != nil {
					return "", err
				}
				got, err := os.ReadFile(name(i))
				if err != nil {
					return "", err
				}
				if !bytes.Equal(got, want) {
					return "", fmt.Errorf("the file differs from the one written before: %q, want %q", got, want)
				}
			}
			return fmt.Sprint(len(want)), nil
		},
	}
}

// shareSpec uses one model, which is only read, from several goroutines. Ops has a letter per
// goroutine: w Write, f ManifoldMesh, c MarchingCubes, t ToMesh, s String and MBB, g Get,
// v Voxelize of its own region of a shared mesh, a adding to its own shell, m Merge of shared files.
type shareSpec struct {
	Ops  string
	N    [3]int
	Bits uint32
}

func triangles(m *gl.Mesh) string {
	if m == nil {
		return "none"
	}
	var out []string
	for _, t := range m.Triangles {
		out = append(out, fmt.Sprint(t.V1.Position, t.V2.Position, t.V3.Position))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func shareScenario(v shareSpec) *drv.Scenario {
	dir, err := os.MkdirTemp("", "share")
	if err != nil {
		panic(err)
	}
	model := func() *binvox.BinVOX {
		b := binvox.New(v.N[0], v.N[1], v.N[2], 0, 0, 0, 4, false)
		i := 0
		for x := 0; x < v.N[0]; x++ {
			for z := 0; z < v.N[2]; z++ {
				for y := 0; y < v.N[1]; y++ {
					if v.Bits>>i&1 != 0 {
						b.Add(x, y, z)
					}
					i++
				}
			}
		}
		return b
	}
	shared := filepath.Join(dir, "shared.binvox")
	if err := model().Write(shared, 0, 0, 0, 0, 0, 0); err != nil {
		panic(err)
	}
	mesh := box([3]int{0, 0, 0}, [3]int{2, 2, 2})
	op := func(b *binvox.BinVOX, i int) (string, error) {
		switch v.Ops[i] {
		case 'w':
			fn := filepath.Join(dir, fmt.Sprint("out", i))
			if err := b.Write(fn, 0, 0, 0, 0, 0, 0); err != nil {
				return "", err
			}
			got, err := os.ReadFile(fn)
			return string(got), err
		case 'f':
			return triangles(b.ManifoldMesh()), nil
		case 'c':
			return triangles(b.MarchingCubes()), nil
		case 't':
			return triangles(b.ToMesh()), nil
		case 's':
			return fmt.Sprint(b, b.MBB(), b.Dim(), b.VoxelsPerMM()), nil
		case 'g':
			s := ""
			for x := -1; x <= v.N[0]; x++ {
				_, ok := b.Get(x, 0, 0)
				s += fmt.Sprint(ok)
			}
			return s, nil
		case 'v':
			r := &binvox.BinVOX{NX: 1, NY: 2, NZ: 2, TX: float64(i % 2), Scale: 2}
			err := r.Voxelize(mesh)
			return voxelString(r.WhiteVoxels), err
		case 'a':
			vs, err := vshell.New(b)
			if err != nil {
				return "", err
			}
			return shellString(vs), nil
		case 'm':
			vs, err := vshell.Merge([]string{shared, shared})
			if err != nil {
				return "", err
			}
			return shellString(vs), nil
		}
		panic(v.Ops)
	}
	var b *binvox.BinVOX
	want := make([]string, len(v.Ops))
	for i := range want {
		if want[i], err = op(model(), i); err != nil {
			panic(err)
		}
	}
	before := voxelString(model().WhiteVoxels)
	return &drv.Scenario{
		Before: func() { b = model() },
		Body: func() (string, error) {
			got := make([]string, len(want))
			errs := make([]error, len(want))
			var wg sync.WaitGroup
			for i := range want {
				wg.Add(1)
				go func() { got[i], errs[i] = op(b, i); wg.Done() }()
			}
			wg.Wait()
			for i := range want {
				if errs[i] != nil {
					return "", fmt.Errorf("%c: %v", v.Ops[i], errs[i])
				}
				if got[i] != want[i] {
					return "", fmt.Errorf("%c: %.300q, alone %.300q", v.Ops[i], got[i], want[i])
				}
			}
			if s := voxelString(b.WhiteVoxels); s != before {
				return "", fmt.Errorf("the model is changed from %v to %v", before, s)
			}
			return "", nil
		},
	}
}

func shellString(vs *vshell.VShell) string {
	var s []string
	for _, x := range vs.Voxels {
		s = append(s, fmt.Sprintf("%d,%d,%d:%x", x.X, x.Y, x.Z, x.N))
	}
	sort.Strings(s)
	return fmt.Sprint(vs.NX, vs.NY, vs.NZ, vs.TX, vs.TY, vs.TZ, vs.Scale, s)
}
