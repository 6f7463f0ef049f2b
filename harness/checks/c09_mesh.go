package checks

import (
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"path/filepath"

	gl "github.com/fogleman/fauxgl"
	"github.com/gmlewis/stldice/v4/binvox"
	"stldiceverif/hx"
)

// meshCase is a voxel model to turn into a triangle mesh.
type meshCase struct {
	How   string // "voxel" (ToMesh), "manifold", "marching"
	N     K
	Bits  uint64 `json:",omitempty"`
	Vox   []K    `json:",omitempty"`
	Pat   string `json:",omitempty"` // a pattern that fills N
	At    K      // index offset of the voxels
	T     V3
	VPMM  float64
	Color int    `json:",omitempty"` // 1: voxels in the colour map, 2: alternating between both maps
	Cmd   string `json:",omitempty"` // through the command, a file and an STL file
}

func (m meshCase) set() Set {
	s := Set{}
	switch {
	case m.Vox != nil:
		for _, k := range m.Vox {
			s[k] = true
		}
	case m.Pat != "":
		s = pattern(m.N, m.Pat)
	default:
		s = subset(m.N, m.Bits)
	}
	if m.At == (K{}) {
		return s
	}
	r := Set{}
	for k := range s {
		r[K{k[0] + m.At[0], k[1] + m.At[1], k[2] + m.At[2]}] = true
	}
	return r
}

// contacts counts the corners of the grid at which voxels (or empty cells) meet only along an edge or at the corner.
func contacts(s Set) int {
	seen := Set{}
	count := 0
	for k := range s {
		for dx := -1; dx <= 0; dx++ {
			for dy := -1; dy <= 0; dy++ {
				for dz := -1; dz <= 0; dz++ {
					o := K{k[0] + dx, k[1] + dy, k[2] + dz}
					if seen[o] {
						continue
					}
					seen[o] = true
					var b [8]bool
					n := 0
					for i := 0; i < 8; i++ {
						b[i] = s[K{o[0] + i&1, o[1] + i>>1&1, o[2] + i>>2&1}]
						if b[i] {
							n++
						}
					}
					bad := false
					for i := 0; i < 8; i++ {
						for _, f := range [][2]int{{1, 2}, {1, 4}, {2, 4}} { // faces through corner i
							if b[i] && b[i^f[0]^f[1]] && !b[i^f[0]] && !b[i^f[1]] {
								bad = true
							}
						}
						if n == 2 && b[i] && b[i^7] || n == 6 && !b[i] && !b[i^7] {
							bad = true
						}
					}
					if bad {
						count++
					}
				}
			}
		}
	}
	return count
}

type segKey struct{ a, b K }

// checkMesh judges a mesh whose vertices are given in voxel units.
func checkMesh(ts []tri, s Set, how string) error {
	// vertices on the half-voxel lattice; everything below is exact in integers
	var q [][3]K
	for i, t := range ts {
		var k [3]K
		for j, v := range t {
			for a := 0; a < 3; a++ {
				f := v[a] * 2
				r := math.Round(f)
				if math.Abs(f-r) > 1e-4 || math.IsNaN(f) {
					return fmt.Errorf("triangle %d has a vertex off the half-voxel lattice: %v", i, v)
				}
				k[j][a] = int(r)
			}
		}
		q = append(q, k)
	}
	// closed: all directed edges cancel; compared on primitive lattice steps, so that a long edge may meet two short ones
	ch := map[segKey]int{}
	var vol6 int64
	for _, t := range q {
		for j := 0; j < 3; j++ {
			a, b := t[j], t[(j+1)%3]
			g := 0
			for i := 0; i < 3; i++ {
				d := b[i] - a[i]
				if d < 0 {
					d = -d
				}
				for d != 0 {
					g, d = d, g%d
				}
			}
			if how == "marching" && g > 0 { // no T-junctions: whole edges must match
				g = 1
			}
			for st := 0; st < g; st++ {
				var p, r K
				for i := 0; i < 3; i++ {
					p[i] = a[i] + (b[i]-a[i])/g*st
					r[i] = a[i] + (b[i]-a[i])/g*(st+1)
				}
				if lessK(p, r) {
					ch[segKey{p, r}]++
				} else {
					ch[segKey{r, p}]--
				}
			}
		}
		vol6 += int64(t[0][0])*int64(t[1][1]*t[2][2]-t[1][2]*t[2][1]) + int64(t[0][1])*int64(t[1][2]*t[2][0]-t[1][0]*t[2][2]) + int64(t[0][2])*int64(t[1][0]*t[2][1]-t[1][1]*t[2][0])
	}
	for e, n := range ch {
		if n != 0 {
			return fmt.Errorf("the mesh is not closed: edge %v-%v (half voxels) has %+d unmatched triangle sides", e.a, e.b, n)
		}
	}
	if how != "marching" {
		want, more := int64(len(s))*8*6, int64(0)
		if how == "manifold" { // voxels that meet only at an edge or a corner may be joined there
			more = 24 * int64(contacts(s))
		}
		if vol6 < want || vol6 > want+more {
			return fmt.Errorf("the mesh encloses %v voxels, want %d", float64(vol6)/48, len(s))
		}
	}
	// every voxel centre lies inside exactly once, every other cell's centre outside
	if len(s) == 0 {
		if len(ts) != 0 {
			return fmt.Errorf("%d triangles for an empty model", len(ts))
		}
		return nil
	}
	lo, hi := K{1 << 30, 1 << 30, 1 << 30}, K{-1 << 30, -1 << 30, -1 << 30}
	for k := range s {
		for i := 0; i < 3; i++ {
			lo[i], hi[i] = min(lo[i], k[i]), max(hi[i], k[i])
		}
	}
	for _, t := range q {
		for _, v := range t {
			for i := 0; i < 3; i++ {
				if v[i] < 2*lo[i] || v[i] > 2*hi[i]+2 {
					return fmt.Errorf("vertex %v (half voxels) lies outside the voxels' bounding box %v-%v", v, lo, hi)
				}
			}
		}
	}
	if cells := (hi[0] - lo[0] + 1) * (hi[1] - lo[1] + 1) * (hi[2] - lo[2] + 1); cells*len(q) > 1<<22 {
		return checkRows(q, s, lo, hi)
	}
	for x := lo[0]; x <= hi[0]; x++ {
		for y := lo[1]; y <= hi[1]; y++ {
			for z := lo[2]; z <= hi[2]; z++ {
				w := winding(q, K{2*x + 1, 2*y + 1, 2*z + 1})
				want := 0.0
				if s[K{x, y, z}] {
					want = 1
				}
				if math.Abs(w-want) > 1e-6 {
					return fmt.Errorf("the centre of cell %v is enclosed %.3f times, want %v", K{x, y, z}, w, want)
				}
			}
		}
	}
	return nil
}

// checkRows is the last part of checkMesh for many triangles: it counts the crossings of one line along X
// through each row of cells. The line passes near the centres, so that it meets no vertex of a correct mesh.
func checkRows(q [][3]K, s Set, lo, hi K) error {
	const m = 4096
	off := [3]int64{131, 197, 311}
	// the coordinate of a cell's point, relative to lo
	at := func(a, i int) int64 { return int64(2*(i-lo[a])+1)*m + off[a] }
	ny, nz := hi[1]-lo[1]+1, hi[2]-lo[2]+1
	rows := make([][]int, ny*nz)
	for i := range rows {
		rows[i] = make([]int, hi[0]-lo[0]+2)
	}
	for _, t := range q {
		var p [3][3]int64
		for j := range t {
			for a := range t[j] {
				p[j][a] = int64(t[j][a]-2*lo[a]) * m
			}
		}
		edge := func(a, b [3]int64, y, z int64) int64 { return (b[1]-a[1])*(z-a[2]) - (b[2]-a[2])*(y-a[1]) }
		area := edge(p[0], p[1], p[2][1], p[2][2])
		if area == 0 {
			continue
		}
		sign := 1
		if area < 0 {
			p[1], p[2] = p[2], p[1]
			area, sign = -area, -1
		}
		y0, y1 := min(t[0][1], t[1][1], t[2][1])/2-1, max(t[0][1], t[1][1], t[2][1])/2+1
		z0, z1 := min(t[0][2], t[1][2], t[2][2])/2-1, max(t[0][2], t[1][2], t[2][2])/2+1
		for y := max(lo[1], y0); y <= min(hi[1], y1); y++ {
			for z := max(lo[2], z0); z <= min(hi[2], z1); z++ {
				in := true
				x := 0.0
				for j := 0; j < 3 && in; j++ {
					a, b := p[j], p[(j+1)%3]
					e := edge(a, b, at(1, y), at(2, z))
					in = e > 0 || e == 0 && (b[1] > a[1] || b[1] == a[1] && b[2] > a[2])
					x += float64(e) * float64(p[(j+2)%3][0])
				}
				if in {
					i := int(math.Ceil((x/float64(area) - float64(m+off[0])) / (2 * m))) // cells before i see the triangle
					rows[(y-lo[1])*nz+z-lo[2]][max(0, min(i, hi[0]-lo[0]+1))] += sign
				}
			}
		}
	}
	for y := lo[1]; y <= hi[1]; y++ {
		for z := lo[2]; z <= hi[2]; z++ {
			w := 0
			r := rows[(y-lo[1])*nz+z-lo[2]]
			for x := hi[0]; x >= lo[0]; x-- {
				w += r[x-lo[0]+1]
				want := 0
				if s[K{x, y, z}] {
					want = 1
				}
				if w != want {
					return fmt.Errorf("the centre of cell %v is enclosed %v times, want %v", K{x, y, z}, w, want)
				}
			}
		}
	}
	return nil
}

func lessK(a, b K) bool {
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// winding is the solid angle of the triangles around p, over 4 pi.
func winding(q [][3]K, p K) float64 {
	sum := 0.0
	for _, t := range q {
		var v [3]V3
		var l [3]float64
		for j := 0; j < 3; j++ {
			for i := 0; i < 3; i++ {
				v[j][i] = float64(t[j][i] - p[i])
			}
			l[j] = math.Sqrt(dot3(v[j], v[j]))
		}
		num := dot3(v[0], cross3(v[1], v[2]))
		den := l[0]*l[1]*l[2] + dot3(v[0], v[1])*l[2] + dot3(v[1], v[2])*l[0] + dot3(v[2], v[0])*l[1]
		if num == 0 && den <= 0 {
			return math.NaN() // on the surface
		}
		sum += math.Atan2(num, den)
	}
	return sum / (2 * math.Pi)
}

func meshTris(m *gl.Mesh) []tri {
	var r []tri
	for _, t := range m.Triangles {
		var q tri
		for j, v := range []gl.Vector{t.V1.Position, t.V2.Position, t.V3.Position} {
			q[j] = V3{v.X, v.Y, v.Z}
		}
		r = append(r, q)
	}
	return r
}

// readSTL is a reader for binary STL files.
func readSTL(fn string) ([]tri, error) {
	b, err := os.ReadFile(fn)
	if err != nil {
		return nil, err
	}
	if len(b) < 84 {
		return nil, fmt.Errorf("%v: %d bytes", fn, len(b))
	}
	n := int(binary.LittleEndian.Uint32(b[80:]))
	if len(b) != 84+50*n {
		return nil, fmt.Errorf("%v: %d bytes for %d triangles", fn, len(b), n)
	}
	var r []tri
	for i := 0; i < n; i++ {
		p := b[84+50*i+12:]
		var t tri
		for j := 0; j < 9; j++ {
			t[j/3][j%3] = float64(math.Float32frombits(binary.LittleEndian.Uint32(p[4*j:])))
		}
		r = append(r, t)
	}
	return r, nil
}

// readMesh also checks that the normal of every triangle, if it has one, is that of its vertexes.
func readMesh(fn string) ([]tri, error) {
	ts, err := readSTL(fn)
	if err != nil {
		return nil, err
	}
	b, err := os.ReadFile(fn)
	if err != nil {
		return nil, err
	}
	for i, t := range ts {
		var u, w, n V3
		big, long := 0.0, 0.0
		for a := 0; a < 3; a++ {
			u[a], w[a] = t[1][a]-t[0][a], t[2][a]-t[0][a]
			n[a] = float64(math.Float32frombits(binary.LittleEndian.Uint32(b[84+50*i+4*a:])))
			big = max(big, math.Abs(t[0][a]))
			long = max(long, math.Abs(u[a]), math.Abs(w[a]))
		}
		x := V3{u[1]*w[2] - u[2]*w[1], u[2]*w[0] - u[0]*w[2], u[0]*w[1] - u[1]*w[0]}
		l := math.Sqrt(x[0]*x[0] + x[1]*x[1] + x[2]*x[2])
		if long < big*1e-4 || l < long*long*1e-2 || n == (V3{}) {
			continue
		}
		if d := (x[0]*n[0] + x[1]*n[1] + x[2]*n[2]) / l; !(math.Abs(d-1) < 0.05) {
			return nil, fmt.Errorf("%v: triangle %v of %v has the normal %v", fn, i, t, n)
		}
	}
	return ts, nil
}

func (m meshCase) run(c *hx.Ctx) (string, error) {
	s := m.set()
	d := max(m.N[0], m.N[1], m.N[2])
	b := binvox.New(m.N[0], m.N[1], m.N[2], m.T[0], m.T[1], m.T[2], float64(d)/m.VPMM, false)
	b.ColorVoxels = binvox.ColorVoxelMap{}
	i := 0
	for _, k := range s.keys() {
		if m.Color == 1 || m.Color == 2 && i%2 == 0 {
			b.AddColor(k[0], k[1], k[2], colors[(k[0]+3*k[1]+5*k[2])&3])
		} else {
			b.Add(k[0], k[1], k[2])
		}
		i++
	}
	var ts []tri
	if m.Cmd != "" {
		dir := c.TmpDir()
		defer os.RemoveAll(dir)
		fn := filepath.Join(dir, "in.binvox")
		mustWrite(fn, encodeBinvox(header{m.N, m.T, b.Scale}, s))
		r := c.Run(dir, c.Cmd("cmd/"+m.Cmd), "in.binvox", "out.stl")
		if r.Code != 0 || r.Hung {
			return "", fmt.Errorf("%v failed: %v", m.Cmd, r)
		}
		var err error
		if ts, err = readMesh(filepath.Join(dir, "out.stl")); err != nil {
			return "", err
		}
	} else {
		switch m.How {
		case "voxel":
			ts = meshTris(b.ToMesh())
		case "manifold":
			ts = meshTris(b.ManifoldMesh())
		case "marching":
			ts = meshTris(b.MarchingCubes())
		}
		if g := fromBV(b); len(g)+len(b.ColorVoxels) != len(s) {
			return "", fmt.Errorf("meshing changed the model")
		}
	}
	for i := range ts {
		for j := range ts[i] {
			for a := 0; a < 3; a++ {
				ts[i][j][a] = (ts[i][j][a] - m.T[a]) * m.VPMM
			}
		}
	}
	if err := checkMesh(ts, s, m.How); err != nil {
		return "", err
	}
	return fmt.Sprint(len(ts), s.hash()), nil
}

func genMesh(c *hx.Ctx, how string, yield func(meshCase) bool) {
	base := meshCase{How: how, VPMM: 1}
	emit := yield
	grids := []K{{2, 2, 2}, {3, 3, 1}, {3, 1, 3}, {1, 3, 3}, {3, 2, 2}, {2, 3, 2}, {2, 2, 3}, {4, 2, 1}, {1, 4, 2}, {2, 1, 4}, {7, 1, 1}, {1, 7, 1}, {1, 1, 7}}
	if c.Thorough() {
		grids = append(grids, K{4, 2, 2}, K{2, 4, 2}, K{2, 2, 4}, K{4, 4, 1}, K{4, 1, 4}, K{1, 4, 4}, K{3, 3, 2}, K{3, 2, 3}, K{2, 3, 3})
	}
	for _, n := range grids {
		for b := uint64(0); b < 1<<uint(n[0]*n[1]*n[2]); b++ {
			m := base
			m.N, m.Bits = n, b
			if !emit(m) {
				return
			}
		}
	}
	// a full block less one or two voxels, hollow blocks, and placement in the world
	n := K{3, 3, 3}
	for i := 0; i < 27; i++ {
		for j := i; j < 27; j++ {
			m := base
			m.N, m.Bits = n, (1<<27-1)&^(1<<uint(i))&^(1<<uint(j))
			if !emit(m) {
				return
			}
			m.Bits = 1<<uint(i) | 1<<uint(j)
			m.Color = 1 + i%2
			if !emit(m) {
				return
			}
		}
	}
	for _, p := range []struct {
		t V3
		v float64
	}{{V3{-80, 3.25, -2.5}, 4}, {V3{0.5, 0, 64}, 0.25}, {V3{-80.125, -80, 0.6}, 51.2}, {V3{1e4, -1e4, 1. / 3}, 10}, {V3{1 << 22, -1<<21 + 0.25, 1 << 20}, 64}, {V3{-1 << 12, 0, 1 << 14}, 1. / 64}, {V3{-0.25, 1, -1}, 4096}, {V3{123456.7, -98765.3, 54321.1}, 20}} {
		for b := uint64(1); b < 256; b += 1 {
			for col := 0; col < 3; col++ {
				m := base
				m.N, m.Bits, m.T, m.VPMM, m.At, m.Color = K{9, 5, 7}, 0, p.t, p.v, K{}, col
				for k := range subset(K{2, 2, 2}, b) {
					m.Vox = append(m.Vox, K{k[0] + 3, k[1] + 2, k[2] + 4})
				}
				m.Vox = Set(sliceSet(m.Vox)).keys()
				if !emit(m) {
					return
				}
			}
		}
	}
	cmd := map[string]string{"manifold": "manifold-mesh", "marching": "marching-cubes"}[how]
	// large models
	for i, p := range []struct {
		n   K
		pat string
	}{{K{40, 41, 42}, "full"}, {K{45, 44, 43}, "hollow"}, {K{257, 3, 2}, "full"}, {K{2, 300, 3}, "full"}, {K{3, 2, 513}, "full"}, {K{190, 2, 190}, "full"},
		{K{40, 30, 34}, "comb"}, {K{34, 80, 34}, "bars"}, {K{55, 55, 55}, "dust"}, {K{70000, 1, 1}, "full"}, {K{1, 70000, 1}, "full"}, {K{1, 1, 70000}, "full"}} {
		m := base
		m.N, m.Pat, m.Color = p.n, p.pat, i%3
		for d := 0; d < 3; d++ {
			m.At = K{}
			m.At[d] = 66000 * (i % 2)
			m.Cmd = ""
			if cmd != "" && d == 0 {
				m.Cmd, m.At, m.Color = cmd, K{}, 0
			}
			if !emit(m) {
				return
			}
		}
	}
	if cmd != "" {
		for b := uint64(1); b < 256; b += uint64(hx.Pick(c, 6, 1)) {
			m := base
			m.N, m.Bits, m.T, m.VPMM, m.Cmd = K{2, 2, 2}, b, V3{-80, 3.25, -2.5}, 4, cmd
			if !emit(m) {
				return
			}
		}
	}
}

func sliceSet(v []K) Set {
	s := Set{}
	for _, k := range v {
		s[k] = true
	}
	return s
}

func init() {
	rule := "cases: every voxel set of thirteen small grids (more in the thorough tier), blocks with holes, every 2x2x2 set at eight places and resolutions in white, colour and mixed voxels, models of up to hundreds of voxels along an axis; the mesh is judged exactly on the half-voxel lattice (closed, winding number at every cell centre, volume, bounding box); non-trivial: every case"
	for id, how := range map[string]string{"C09": "voxel", "C10": "manifold", "C11": "marching"} {
		hx.Register(&hx.Check{
			ID: id, Level: "model_checking", Rule: rule,
			Setup: func(c *hx.Ctx) func() {
				run := hx.Kind(c, how, func(m meshCase) (string, error) { return m.run(c) })
				return func() {
					if how != "voxel" {
						c.Cmd(map[string]string{"C10": "cmd/manifold-mesh", "C11": "cmd/marching-cubes"}[id])
					}
					hx.Each(c, run, func(yield func(meshCase) bool) { genMesh(c, how, yield) })
				}
			},
		})
	}
}
