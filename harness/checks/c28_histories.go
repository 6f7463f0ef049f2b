package checks

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"sort"

	gl "github.com/fogleman/fauxgl"
	"github.com/gmlewis/stldice/v4/binvox"
	"github.com/gmlewis/stldice/v4/vshell"
	"stldiceverif/hx"
)

// histCase is a history of operations on one model and on the shell that collects it.
//
//	abc  add a voxel (a colour voxel in a colour model; C: again with another colour)
//	VW   voxelize one of two meshes
//	yz   voxelize the first or last slice of one of them
//	R r w  write and read back: everything; everything, then a window of the file; a window, then the file
//	t f m  the three meshes
//	s g  String, MBB, Dim and resolution; Get everywhere
//	n    a new shell of the model, to be kept
//	A S T add the model to the collecting shell; write and read that shell; write a window of it
type histCase struct {
	N     K
	T     [3]float64
	VPMM  float64
	Color bool `json:",omitempty"`
	Ops   string
}

type histState struct {
	c      *hx.Ctx
	v      histCase
	b      *binvox.BinVOX
	s      Set
	colors map[K]binvox.Color
	n      K
	vs     *vshell.VShell
	u      Set
	meshes []*gl.Mesh
	sums   []string
	kept   []kept
	fn     string // for files
}

// kept is an earlier result, which later operations must leave alone.
type kept struct {
	op   string
	hash func() string
	was  string
}

func meshSum(m *gl.Mesh) string {
	f := fnv.New128a()
	var b [8]byte
	for _, t := range m.Triangles {
		for _, v := range []gl.Vector{t.V1.Position, t.V2.Position, t.V3.Position, t.V1.Normal, t.V2.Normal, t.V3.Normal} {
			for _, x := range []float64{v.X, v.Y, v.Z} {
				binary.LittleEndian.PutUint64(b[:], math.Float64bits(x))
				f.Write(b[:])
			}
		}
	}
	return string(f.Sum(nil))
}

var histBoxes = [][2]V3{{{0.25, 0.25, 0.2}, {1.75, 2.75, 1.8}}, {{0.25, 1.25, -0.3}, {0.75, 1.75, 0.8}}, {{0.25, 0.25, 0.2}, {2.75, 2.75, 2.8}}}

func (h *histState) box(i int) [2]V3 {
	if i == 0 && h.v.N[2] == 3 {
		i = 2
	}
	return histBoxes[i]
}

// filled returns the voxels of box i in the grid, in the slices zlo..zhi-1.
func (h *histState) filled(i, zlo, zhi int) Set {
	b := h.box(i)
	r := Set{}
	for _, k := range box(h.n) {
		if k[2] < zlo || k[2] >= zhi {
			continue
		}
		z := float64(k[2]) + 0.5
		if z > b[0][2] && z < b[1][2] && float64(k[0]+1) > b[0][0] && float64(k[0]) < b[1][0] && float64(k[1]+1) > b[0][1] && float64(k[1]) < b[1][1] {
			r[k] = true
		}
	}
	return r
}

func (h *histState) keep(op string, hash func() string) {
	h.kept = append(h.kept, kept{op, hash, hash()})
}

var errSkip = fmt.Errorf("not applicable")

// mesh checks one of the three meshes of the current model.
func (h *histState) mesh(how string) error {
	if len(h.s) == 0 {
		return nil
	}
	var m *gl.Mesh
	switch how {
	case "voxel":
		m = h.b.ToMesh()
	case "manifold":
		m = h.b.ManifoldMesh()
	default:
		m = h.b.MarchingCubes()
	}
	h.keep(how, func() string { return meshSum(m) })
	ts := meshTris(m)
	for i := range ts {
		for j := range ts[i] {
			for a := 0; a < 3; a++ {
				ts[i][j][a] = (ts[i][j][a] - h.v.T[a]) * h.v.VPMM
			}
		}
	}
	return checkMesh(ts, h.s, how)
}

func (h *histState) summary() error {
	d := max(h.n[0], h.n[1], h.n[2])
	if g := h.b.Dim(); g != d {
		return fmt.Errorf("Dim is %d, want %d", g, d)
	}
	if g := h.b.VoxelsPerMM(); !(math.Abs(g-h.v.VPMM) < 1e-9*h.v.VPMM) {
		return fmt.Errorf("VoxelsPerMM is %v, want %v", g, h.v.VPMM)
	}
	m := h.b.MBB()
	for i, p := range [][2]float64{{m.Min.X, m.Max.X}, {m.Min.Y, m.Max.Y}, {m.Min.Z, m.Max.Z}} {
		if math.Abs(p[0]-h.v.T[i]) > 1e-9 || math.Abs(p[1]-h.v.T[i]-float64(h.n[i])/h.v.VPMM) > 1e-9 {
			return fmt.Errorf("MBB is %v, want origin %v and %v voxels of %v per mm", m, h.v.T, h.n, h.v.VPMM)
		}
	}
	_ = h.b.String()
	return nil
}

func (h *histState) get() error {
	for _, k := range box(K{h.n[0] + 2, h.n[1] + 2, h.n[2] + 2}) {
		for i := range k {
			k[i]--
		}
		c, ok := h.b.Get(k[0], k[1], k[2])
		if ok != h.s[k] {
			return fmt.Errorf("Get(%v) = %v, want %v", k, ok, h.s[k])
		}
		want, isc := h.colors[k]
		if !isc {
			want = binvox.White
		}
		if ok && c != want {
			return fmt.Errorf("Get(%v) has the colour %v, want %v", k, c, want)
		}
	}
	return nil
}

// reopen writes the window ws, wc of the model and reads the window rs, rc of the file.
func (h *histState) reopen(ws, wc, rs, rc K) error {
	if len(h.s) == 0 {
		return errSkip
	}
	fn := h.fn + ".binvox" // the same file all the time
	if err := h.b.Write(fn, ws[0], ws[1], ws[2], wc[0], wc[1], wc[2]); err != nil {
		return fmt.Errorf("Write: %v", err)
	}
	n := h.n
	for i := range wc {
		if wc[i] > 0 {
			n[i] = wc[i]
		}
	}
	want := window(h.s, ws, n)
	hd, got, err := decodeBinvox(mustRead(fn))
	if err != nil {
		return fmt.Errorf("written file: %v", err)
	}
	if hd.N != n || hd.T != h.v.T || !sameFloat(hd.Scale, h.b.Scale) {
		return fmt.Errorf("written header is %v, want %v %v %v", hd, n, h.v.T, h.b.Scale)
	}
	if err := diff(got, want); err != nil {
		return fmt.Errorf("written file: %v", err)
	}
	twin, err := binvox.Read(fn, rs[0], rs[1], rs[2], rc[0], rc[1], rc[2])
	if err != nil {
		return fmt.Errorf("Read: %v", err)
	}
	b, err := binvox.Read(fn, rs[0], rs[1], rs[2], rc[0], rc[1], rc[2])
	if err != nil {
		return fmt.Errorf("second Read: %v", err)
	}
	clear(twin.WhiteVoxels) // what happens to one of them is not the other's business
	twin.Add(0, 0, 0)
	twin.NX++
	old := h.b
	h.keep("the model before it was reopened", func() string {
		return fmt.Sprint(old.NX, old.NY, old.NZ, old.TX, old.Scale, fromBV(old).hash(), len(old.ColorVoxels))
	})
	h.b, h.s, h.n, h.colors = b, Set{}, n, nil
	for k := range want {
		in := true
		for i := range k {
			if rc[i] > 0 && (k[i] < rs[i] || k[i] >= rs[i]+rc[i]) {
				in = false
			}
		}
		if in {
			h.s[k] = true
		}
	}
	return nil
}

func (h *histState) op(o byte) error {
	last := K{h.v.N[0] - 1, h.v.N[1] - 1, h.v.N[2] - 1}
	red, dark := binvox.Color{R: 1, G: 0.25, A: 1}, binvox.Color{B: 0.25, A: 0.5}
	add := func(k K, c binvox.Color) error {
		for i := range k {
			if k[i] >= h.n[i] {
				return errSkip
			}
		}
		if h.b.ColorVoxels != nil {
			h.b.AddColor(k[0], k[1], k[2], c)
			h.colors[k] = c
		} else {
			h.b.Add(k[0], k[1], k[2])
		}
		h.s[k] = true
		return nil
	}
	voxelize := func(i, z int) error {
		if h.b.ColorVoxels != nil {
			return errSkip
		}
		if z < 0 {
			h.s = h.filled(i, 0, h.n[2])
			return h.b.Voxelize(h.meshes[i])
		}
		h.s = h.filled(i, z, z+1)
		return h.b.VoxelizeZ(h.meshes[i], z)
	}
	switch o {
	case 'a':
		return add(K{}, red)
	case 'C':
		if !h.v.Color {
			return errSkip
		}
		return add(K{}, dark)
	case 'b':
		return add(last, dark)
	case 'c':
		return add(K{0, 1, 1}, red)
	case 'V':
		return voxelize(0, -1)
	case 'W':
		return voxelize(1, -1)
	case 'y':
		return voxelize(1, 0)
	case 'z':
		return voxelize(0, last[2])
	case 'R':
		return h.reopen(K{}, K{}, K{}, K{})
	case 'r':
		return h.reopen(K{}, K{}, K{0, 1, 0}, K{1, 2, 2})
	case 'w':
		if h.n[0] < 2 {
			return errSkip
		}
		return h.reopen(K{1, 0, 0}, K{h.n[0] - 1, 0, 0}, K{}, K{})
	case 't':
		return h.mesh("voxel")
	case 'f':
		return h.mesh("manifold")
	case 'm':
		return h.mesh("marching")
	case 's':
		return h.summary()
	case 'g':
		return h.get()
	case 'n':
		vs, err := vshell.New(h.b)
		if err != nil {
			return err
		}
		h.keep("vshell.New", func() string { return stateOf(vs) })
		return h.shell(vs, h.s)
	case 'A':
		for k := range h.s {
			if h.u[k] {
				return errSkip // pieces share no voxel
			}
		}
		if h.vs == nil {
			vs, err := vshell.New(h.b)
			if err != nil {
				return fmt.Errorf("vshell.New: %v", err)
			}
			h.vs = vs
		} else if err := h.vs.Add(h.b); err != nil {
			return fmt.Errorf("Add to the shell: %v", err)
		}
		for k := range h.s {
			h.u[k] = true
		}
	case 'S':
		if len(h.u) == 0 {
			return errSkip
		}
		fn := h.fn + ".vsh"
		if err := h.vs.Write(fn, 0, 0, 0, 0, 0, 0); err != nil {
			return fmt.Errorf("Write of the shell: %v", err)
		}
		vs, err := vshell.Read(fn, 0, 0, 0, 0, 0, 0)
		if err != nil {
			return fmt.Errorf("Read of the shell: %v", err)
		}
		twin, err := vshell.Read(fn, 0, 0, 0, 0, 0, 0)
		if err != nil {
			return fmt.Errorf("second Read of the shell: %v", err)
		}
		twin.TX++
		for i := range twin.Voxels {
			twin.Voxels[i] = vshell.VShVoxel{}
		}
		old := h.vs
		h.keep("the shell before it was reopened", func() string { return stateOf(old) })
		h.vs = vs
	case 'T':
		if len(h.u) == 0 {
			return errSkip
		}
		if err := h.vs.Write(h.fn+".vsh", 0, 1, 0, 1, 1, 1); err != nil {
			return fmt.Errorf("Write of a window of the shell: %v", err)
		}
		_, got, err := decodeVShell(mustRead(h.fn + ".vsh"))
		if err != nil {
			return fmt.Errorf("written window of the shell: %v", err)
		}
		want := Shell{}
		if n, ok := exposed(h.u)[K{0, 1, 0}]; ok {
			want[K{}] = n
		}
		if err := diffShell(got, want); err != nil {
			return fmt.Errorf("written window of the shell: %v", err)
		}
	}
	return nil
}

func (h *histState) shell(vs *vshell.VShell, u Set) error {
	return checkShell(mergeCase{VPMM: h.v.VPMM, T0: h.v.T}, vs, u)
}

// state checks everything that is visible without calling anything.
func (h *histState) state() error {
	b := h.b
	if (K{b.NX, b.NY, b.NZ}) != h.n || b.TX != h.v.T[0] || b.TY != h.v.T[1] || b.TZ != h.v.T[2] {
		return fmt.Errorf("the grid is %v,%v,%v at %v,%v,%v, want %v at %v", b.NX, b.NY, b.NZ, b.TX, b.TY, b.TZ, h.n, h.v.T)
	}
	got := fromBV(b)
	for k := range b.ColorVoxels {
		got[K{k.X, k.Y, k.Z}] = true
	}
	if err := diff(got, h.s); err != nil {
		return fmt.Errorf("the model: %v", err)
	}
	if h.vs != nil {
		if err := h.shell(h.vs, h.u); err != nil {
			return fmt.Errorf("the collecting shell: %v", err)
		}
	}
	for i, m := range h.meshes {
		if meshSum(m) != h.sums[i] {
			return fmt.Errorf("the input mesh has changed")
		}
	}
	return nil
}

func (v histCase) run(c *hx.Ctx) (string, error) {
	d := max(v.N[0], v.N[1], v.N[2])
	h := &histState{c: c, v: v, s: Set{}, u: Set{}, n: v.N, colors: map[K]binvox.Color{}, fn: c.Tmp("")}
	defer func() {
		os.Remove(h.fn + ".binvox")
		os.Remove(h.fn + ".vsh")
	}()
	h.b = binvox.New(v.N[0], v.N[1], v.N[2], v.T[0], v.T[1], v.T[2], float64(d)/v.VPMM, v.Color)
	for i := 0; i < 2; i++ {
		b := h.box(i)
		ts := boxTris(b[0], b[1], i)
		for j := range ts {
			for k := range ts[j] {
				for a := 0; a < 3; a++ {
					ts[j][k][a] = ts[j][k][a]/v.VPMM + v.T[a]
				}
			}
		}
		h.meshes = append(h.meshes, toMesh(ts, 0))
		h.sums = append(h.sums, meshSum(h.meshes[i]))
	}
	for i := range v.Ops {
		err := h.op(v.Ops[i])
		if err == errSkip {
			return "", nil
		}
		if err == nil {
			err = h.state()
		}
		if err != nil {
			return "", fmt.Errorf("after %q: %v", v.Ops[:i+1], err)
		}
	}
	// every observer at the end, in two orders
	for _, all := range []string{"gstfmn", "nmftsg"} {
		for i := range all {
			err := h.op(all[i])
			if err == nil {
				err = h.state()
			}
			if err != nil {
				return "", fmt.Errorf("after %q and %q: %v", v.Ops, all[:i+1], err)
			}
		}
	}
	for _, k := range h.kept {
		if k.hash() != k.was {
			return "", fmt.Errorf("after %q: an earlier result (%s) has changed", v.Ops, k.op)
		}
	}
	shell := ""
	if h.vs != nil {
		shell = stateOf(h.vs)
	}
	var cs []string
	for k, c := range h.colors {
		cs = append(cs, fmt.Sprint(k, c))
	}
	sort.Strings(cs)
	return fmt.Sprint(h.n, h.s.hash(), cs, shell), nil
}

func init() {
	hx.Register(&hx.Check{
		ID: "C28", Level: "model_checking",
		Rule: "cases: every sequence of operations up to a length over {add voxels, voxelize two meshes whole or one slice, write and read back whole or by window, the three mesh builders, Get, String and bounds, a new shell, adding to a collecting shell, writing and reading that shell} on white and colour models of two grids; after every operation the model, the shell and the input meshes must equal a reference model of sets, after the last one all observers are called twice in different orders, and every earlier result must be as it was; non-trivial: a sequence in which every operation applies",
		Setup: func(c *hx.Ctx) func() {
			run := hx.Kind(c, "history", func(v histCase) (string, error) { return v.run(c) })
			return func() {
				hx.Each(c, run, func(yield func(histCase) bool) {
					confs := []struct {
						v     histCase
						ops   string
						depth int
					}{
						{histCase{N: K{2, 3, 2}, T: [3]float64{-1, 0.25, 8}, VPMM: 4}, "abcVWyzRrwtfmgnAST", hx.Pick(c, 4, 5)},
						{histCase{N: K{2, 3, 2}, T: [3]float64{}, VPMM: 1, Color: true}, "aCbcRrwtfmsgnAST", hx.Pick(c, 4, 5)},
						{histCase{N: K{3, 3, 3}, T: [3]float64{5, -7, 0.5}, VPMM: 2}, "abVWyRrwfnAST", hx.Pick(c, 4, 5)},
					}
					for _, cf := range confs {
						for l := 0; l <= cf.depth; l++ {
							ok := tuples([]byte(cf.ops), l, func(o []byte) bool {
								v := cf.v
								v.Ops = string(o)
								return yield(v)
							})
							if !ok {
								return
							}
						}
					}
					// longer histories over fewer operations
					for _, ops := range []string{"aVRA", "bWAS", "VyrA", "acAw"} {
						ok := tuples([]byte(ops), hx.Pick(c, 6, 8), func(o []byte) bool {
							v := confs[2].v
							v.Ops = string(o)
							return yield(v)
						})
						if !ok {
							return
						}
					}
				})
			}
		},
		Assumptions: []string{"one model, one collecting shell and two meshes; grids of at most 27 voxels"},
	})
}
