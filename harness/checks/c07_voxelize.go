package checks

import (
	"fmt"
	"math"

	gl "github.com/fogleman/fauxgl"
	"github.com/gmlewis/stldice/v4/binvox"
	"stldiceverif/hx"
)

// solid is a prism over a simple polygon, or (Tet) a tetrahedron; in voxel units.
type solid struct {
	Poly []P2    `json:",omitempty"`
	Z    P2      `json:",omitempty"`
	Tet  *[4]V3  `json:",omitempty"`
	Mid  float64 `json:",omitempty"` // the side faces have a ring of vertices at this height
}

func rect(x0, y0, x1, y1 float64) []P2 { return []P2{{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}} }

func boxSolid(x0, y0, z0, x1, y1, z1 float64) solid {
	return solid{Poly: rect(x0, y0, x1, y1), Z: P2{z0, z1}}
}

func (s solid) tris(diag int) []tri {
	if s.Tet != nil {
		p := *s.Tet
		if dot3(cross3(sub3(p[1], p[0]), sub3(p[2], p[0])), sub3(p[3], p[0])) < 0 {
			p[0], p[1] = p[1], p[0]
		}
		return []tri{{p[0], p[2], p[1]}, {p[0], p[1], p[3]}, {p[1], p[2], p[3]}, {p[2], p[0], p[3]}}
	}
	if s.Mid > s.Z[0] && s.Mid < s.Z[1] {
		// two prisms without the caps between them
		var out []tri
		flat := func(t tri) bool { return t[0][2] == s.Mid && t[1][2] == s.Mid && t[2][2] == s.Mid }
		for _, t := range append(prismTris(s.Poly, s.Z[0], s.Mid, diag), prismTris(s.Poly, s.Mid, s.Z[1], diag)...) {
			if !flat(t) {
				out = append(out, t)
			}
		}
		return out
	}
	return prismTris(s.Poly, s.Z[0], s.Z[1], diag)
}

// slice is the cross-section at height z; touch reports that z only touches the solid (a face, edge or corner).
func (s solid) slice(z float64) (poly []P2, touch bool) {
	if s.Tet == nil {
		if z < s.Z[0] || z > s.Z[1] {
			return nil, false
		}
		return s.Poly, z == s.Z[0] || z == s.Z[1]
	}
	p := *s.Tet
	var pts []P2
	above, below := 0, 0
	for i := 0; i < 4; i++ {
		switch {
		case p[i][2] > z:
			above++
		case p[i][2] < z:
			below++
		default:
			pts = append(pts, P2{p[i][0], p[i][1]})
		}
		for j := i + 1; j < 4; j++ {
			a, b := p[i], p[j]
			if (a[2]-z)*(b[2]-z) < 0 {
				t := (z - a[2]) / (b[2] - a[2])
				pts = append(pts, P2{a[0] + t*(b[0]-a[0]), a[1] + t*(b[1]-a[1])})
			}
		}
	}
	if len(pts) == 0 {
		return nil, false
	}
	if above == 0 || below == 0 {
		return pts, true
	}
	return hull(pts), false
}

// hull orders the corners of a convex polygon counter-clockwise.
func hull(p []P2) []P2 {
	if len(p) < 3 {
		return p
	}
	var c P2
	for _, q := range p {
		c[0] += q[0] / float64(len(p))
		c[1] += q[1] / float64(len(p))
	}
	r := append([]P2(nil), p...)
	for i := 1; i < len(r); i++ {
		for j := i; j > 0 && math.Atan2(r[j][1]-c[1], r[j][0]-c[0]) < math.Atan2(r[j-1][1]-c[1], r[j-1][0]-c[0]); j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}

// voxCase is a model of disjoint solids and the region to voxelize.
type voxCase struct {
	VPMM   float64
	T      V3
	N      K
	Solids []solid
	Diag   int
	Rot    int
	Tile   *K `json:",omitempty"` // C08: voxelize in tiles of this size
	Start  *K `json:",omitempty"` // C08: ... that start here instead of at 0
}

func (v voxCase) world() []tri {
	var ts []tri
	for _, s := range v.Solids {
		for _, t := range s.tris(v.Diag) {
			for i := range t {
				for a := 0; a < 3; a++ {
					t[i][a] = v.T[a] + t[i][a]/v.VPMM
				}
			}
			ts = append(ts, t)
		}
	}
	return ts
}

func (v voxCase) region(o, n K) *binvox.BinVOX {
	d := max(n[0], n[1], n[2])
	return binvox.New(n[0], n[1], n[2], v.T[0]+float64(o[0])/v.VPMM, v.T[1]+float64(o[1])/v.VPMM, v.T[2]+float64(o[2])/v.VPMM, float64(d)/v.VPMM, false)
}

func inRegion(s Set, n K) error {
	for k := range s {
		for i := 0; i < 3; i++ {
			if k[i] < 0 || k[i] >= n[i] {
				return fmt.Errorf("voxel %v lies outside the region %v", k, n)
			}
		}
	}
	return nil
}

func isRect(p []P2) bool {
	if len(p) != 4 {
		return false
	}
	for i := range p {
		j := (i + 1) % 4
		if p[i][0] != p[j][0] && p[i][1] != p[j][1] {
			return false
		}
	}
	return true
}

// exactBoxes is the exact answer for a model of axis-aligned boxes: the voxels whose
// half-open cell the closed box meets in the plane through the voxel's centre.
func (v voxCase) exactBoxes() (Set, bool) {
	for _, s := range v.Solids {
		if s.Tet != nil || !isRect(s.Poly) {
			return nil, false
		}
	}
	r := Set{}
	for _, s := range v.Solids {
		lo, hi := s.Poly[0], s.Poly[2]
		for z := 0; z < v.N[2]; z++ {
			if c := float64(z) + 0.5; c < s.Z[0] || c > s.Z[1] {
				continue
			}
			for x := max(0, int(math.Floor(lo[0]))); x <= int(math.Floor(hi[0])) && x < v.N[0]; x++ {
				for y := max(0, int(math.Floor(lo[1]))); y <= int(math.Floor(hi[1])) && y < v.N[1]; y++ {
					r[K{x, y, z}] = true
				}
			}
		}
	}
	return r, true
}

// judge compares the voxels of the region with the solids.
func (v voxCase) judge(got Set) error {
	if err := inRegion(got, v.N); err != nil {
		return err
	}
	if want, ok := v.exactBoxes(); ok {
		return diff(got, want)
	}
	for z := 0; z < v.N[2]; z++ {
		c := float64(z) + 0.5
		type sec struct {
			p     []P2
			touch bool
		}
		var secs []sec
		for _, s := range v.Solids {
			if p, touch := s.slice(c); p != nil {
				secs = append(secs, sec{p, touch})
			}
		}
		for x := 0; x < v.N[0]; x++ {
			for y := 0; y < v.N[1]; y++ {
				// the 3x3 block of cells around the voxel
				lo, hi := P2{float64(x) - 1, float64(y) - 1}, P2{float64(x) + 2, float64(y) + 2}
				mid := P2{float64(x) + 0.5, float64(y) + 0.5}
				near, in, free := false, false, false
				for _, s := range secs {
					cut := false
					for i := range s.p {
						if segRect(s.p[i], s.p[(i+1)%len(s.p)], lo, hi, 1e-9) {
							cut = true
						}
					}
					switch {
					case cut:
						near = true
					case len(s.p) >= 3 && inPoly(s.p, mid):
						if s.touch {
							free = true // the plane runs along a face: either answer is right
						}
						in = true
					}
				}
				set := got[K{x, y, z}]
				switch {
				case near || free:
				case in && !set:
					return fmt.Errorf("voxel %v and its neighbours lie completely inside the solid, but it is not set", K{x, y, z})
				case !in && set:
					return fmt.Errorf("voxel %v is set although the solid does not touch it or any neighbour", K{x, y, z})
				}
			}
		}
	}
	return nil
}

// remesh returns the same surface in other triangles: each cut into four, with some without an area; every other one cut into two, so that
// a corner lies on a side of its neighbour; and that with triangles without an area along the sides and at the corners.
func remesh(ts []tri, how int) (r []tri) {
	mid := func(a, b V3) V3 { return V3{(a[0] + b[0]) / 2, (a[1] + b[1]) / 2, (a[2] + b[2]) / 2} }
	for i, t := range ts {
		a, b, c := mid(t[0], t[1]), mid(t[1], t[2]), mid(t[2], t[0])
		switch {
		case how == 0:
			r = append(r, tri{t[0], a, c}, tri{a, t[1], b}, tri{c, b, t[2]}, tri{a, b, c}, tri{a, a, c}, tri{b, b, b})
			continue
		case i%2 == 1:
			r = append(r, t)
		case i%4 == 0:
			r = append(r, tri{t[0], a, t[2]}, tri{a, t[1], t[2]})
		default:
			r = append(r, tri{t[0], t[1], b}, tri{t[0], b, t[2]})
		}
		if how == 2 {
			r = append(r, tri{t[0], a, t[1]}, tri{b, t[1], t[2]}, tri{t[0], t[0], t[2]}, tri{b, b, b})
		}
	}
	return r
}

func (v voxCase) run(c *hx.Ctx) (string, error) {
	mesh := toMesh(v.world(), v.Rot)
	b := v.region(K{}, v.N)
	before := mesh.Copy()
	if err := b.Voxelize(mesh); err != nil {
		return "", fmt.Errorf("Voxelize: %v", err)
	}
	for i, t := range mesh.Triangles {
		if *t != *before.Triangles[i] {
			return "", fmt.Errorf("Voxelize changed triangle %d of the mesh", i)
		}
	}
	got := fromBV(b)
	if b.NX != v.N[0] || b.NY != v.N[1] || b.NZ != v.N[2] {
		return "", fmt.Errorf("Voxelize changed the region to %v,%v,%v", b.NX, b.NY, b.NZ)
	}
	if v.Tile == nil {
		if err := v.judge(got); err != nil {
			return "", err
		}
		// The vertex normals are for shading; a mesh can have none, or smoothed ones (stldice -smooth).
		for _, degrees := range []float64{-1, 180, 100} {
			m := mesh.Copy()
			if degrees < 0 {
				for _, t := range m.Triangles {
					t.V1.Normal, t.V2.Normal, t.V3.Normal = gl.Vector{}, gl.Vector{}, gl.Vector{}
				}
			} else {
				m.SmoothNormalsThreshold(gl.Radians(degrees))
			}
			r := v.region(K{}, v.N)
			if err := r.Voxelize(m); err != nil {
				return "", fmt.Errorf("Voxelize with other vertex normals: %v", err)
			}
			if err := diff(fromBV(r), got); err != nil {
				return "", fmt.Errorf("with other vertex normals (%v): %v", degrees, err)
			}
		}
		// The same surface in other triangles.
		_, exact := v.exactBoxes()
		for how := range 3 {
			if how > 0 && !exact { // a corner on a slanted side is off it by a rounding error
				break
			}
			r := v.region(K{}, v.N)
			if err := r.Voxelize(toMesh(remesh(v.world(), how), v.Rot)); err != nil {
				return "", fmt.Errorf("Voxelize in other triangles (%v): %v", how, err)
			}
			if err := v.judge(fromBV(r)); err != nil {
				return "", fmt.Errorf("in other triangles (%v): %v", how, err)
			}
		}
		return got.hash(), nil
	}
	// one slice at a time
	for z := -1; z <= v.N[2]; z++ {
		s := v.region(K{}, v.N)
		if err := s.VoxelizeZ(mesh, z); err != nil {
			return "", fmt.Errorf("VoxelizeZ(%d): %v", z, err)
		}
		w := window(got, K{0, 0, z}, K{v.N[0], v.N[1], 1})
		g := Set{}
		for k := range fromBV(s) {
			if k[2] != z {
				return "", fmt.Errorf("VoxelizeZ(%d) sets voxel %v", z, k)
			}
			g[K{k[0], k[1], 0}] = true
		}
		if z < 0 || z >= v.N[2] {
			continue // outside the region, nothing to compare with
		}
		if err := diff(g, w); err != nil {
			return "", fmt.Errorf("VoxelizeZ(%d) and Voxelize differ: %v", z, err)
		}
	}
	// in tiles
	var st K
	if v.Start != nil {
		st = *v.Start
	}
	t := *v.Tile
	n := 0
	for x := st[0]; x < v.N[0]; x += t[0] {
		for y := st[1]; y < v.N[1]; y += t[1] {
			for z := st[2]; z < v.N[2]; z += t[2] {
				o := K{x, y, z}
				r := v.region(o, t)
				if err := r.Voxelize(mesh); err != nil {
					return "", err
				}
				g := fromBV(r)
				if err := inRegion(g, t); err != nil {
					return "", fmt.Errorf("tile at %v: %v", o, err)
				}
				// the part of the tile inside the whole region
				var hi, lo K
				for i := 0; i < 3; i++ {
					hi[i] = min(t[i], v.N[i]-o[i])
					lo[i] = max(0, -o[i])
				}
				part := Set{}
				for k := range g {
					if k[0] >= lo[0] && k[1] >= lo[1] && k[2] >= lo[2] && k[0] < hi[0] && k[1] < hi[1] && k[2] < hi[2] {
						part[k] = true
					}
				}
				if err := diff(part, window(got, o, t)); err != nil {
					return "", fmt.Errorf("tile of %v at %v differs from the whole: %v", t, o, err)
				}
				n++
			}
		}
	}
	c.Count("tiles", int64(n))
	return got.hash() + fmt.Sprint(t, st), nil
}

// polys yields all simple counter-clockwise polygons with k corners on a g x g grid, up to the starting corner.
func polys(g, k int, f func([]P2) bool) bool {
	n := g * g
	used := make([]bool, n)
	idx := make([]int, k)
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == k {
			p := make([]P2, k)
			for j, q := range idx {
				p[j] = P2{float64(q % g), float64(q / g)}
			}
			if polyArea(p) <= 0 || !simplePolygon(p) {
				return true
			}
			return f(p)
		}
		for q := 0; q < n; q++ {
			if used[q] || (i > 0 && q < idx[0]) {
				continue
			}
			used[q] = true
			idx[i] = q
			ok := rec(i + 1)
			used[q] = false
			if !ok {
				return false
			}
		}
		return true
	}
	return rec(0)
}

func movePoly(p []P2, s float64, o P2) []P2 {
	r := make([]P2, len(p))
	for i := range p {
		r[i] = P2{p[i][0]*s + o[0], p[i][1]*s + o[1]}
	}
	return r
}

// genVoxLarge yields large regions: long edges, many triangles, many slices.
func genVoxLarge(c *hx.Ctx, yield func(voxCase) bool) bool {
	lat := []voxCase{{VPMM: 1}, {VPMM: 4, T: V3{-80, 3.25, -0.5}}, {VPMM: 1 << 14, T: V3{1, -2, 0.25}}}
	i := 0
	put := func(n K, ss ...solid) bool {
		v := lat[i%3]
		v.N, v.Solids, v.Diag, v.Rot = n, ss, []int{0, 255, 0x55, 0xaa}[i%4], i%5
		i++
		return yield(v)
	}
	// one box and boxes beside it in regions of many shapes
	for _, n := range []K{{67, 130, 101}, {300, 5, 5}, {5, 300, 5}, {5, 5, 300}, {64, 64, 64}, {3, 2, 1025}, {1030, 3, 2}, {2, 1027, 3}, {1, 1, 4099}, {129, 127, 65}} {
		f := V3{float64(n[0]), float64(n[1]), float64(n[2])}
		for _, q := range [][2]float64{{-1, 1}, {0.25, -0.25}, {0.75, -1}, {0, 0}} {
			if !put(n, boxSolid(q[0], q[0], q[0], f[0]+q[1], f[1]+q[1], f[2]+q[1])) {
				return false
			}
		}
		var ss []solid // slabs, with room between them
		for a := 0; a < 3; a++ {
			if n[a] < 60 {
				continue
			}
			for k := 0; k+3 < n[a]; k += 3 {
				lo, hi := V3{-1, -1, -1}, V3{f[0] + 1, f[1] + 1, f[2] + 1}
				lo[a], hi[a] = float64(k)+0.75, float64(k)+2.25
				ss = append(ss, boxSolid(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]))
			}
			break
		}
		if !put(n, ss...) {
			return false
		}
	}
	// tens of thousands of voxels along an axis: boxes that begin anywhere
	for a := 0; a < 3; a++ {
		n, hi := K{2, 2, 2}, V3{2, 2, 2}
		n[a] = []int{70001, 70001, 9001}[a]
		var ss []solid
		for i, x := range []float64{0.25, 130.5, 4099.75, 8191.25, 32768, 65535.25, 69900} {
			if int(x) >= n[a] {
				continue
			}
			lo := V3{0.25, 0.25, 0.25}
			lo[a], hi[a] = x, x+3.5+float64(i)
			ss = append(ss, boxSolid(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]))
			if !put(n, ss[i]) {
				return false
			}
		}
		if !put(n, ss...) {
			return false
		}
	}
	// a thousand boxes
	var ss []solid
	for _, k := range box(K{10, 10, 10}) {
		x, y, z := float64(6*k[0]), float64(6*k[1]), float64(6*k[2])
		h := float64((k[0]*3+k[1]*5+k[2]*7)%16) / 4
		ss = append(ss, boxSolid(x+0.25, y+0.5, z+0.75, x+1+h, y+4.75-h, z+5.25))
	}
	if !put(K{61, 60, 62}, ss...) {
		return false
	}
	// long thin triangles and quadrilaterals in every octant
	for _, p := range [][]P2{{{0.25, 0.25}, {200.5, 3.25}, {199, 8.5}}, {{0, 0}, {190, 187}, {3, 20}}, {{1, 0}, {201, 67}, {100, 150}, {0.5, 61}}, {{0, 0}, {130.125, 1}, {131, 140.25}, {2, 139}}, {{0.5, 0.5}, {255.75, 2}, {256, 4.5}, {1, 3}}} {
		for m := 0; m < 8; m++ {
			q := make([]P2, len(p))
			for i, a := range p {
				if m&1 != 0 {
					a[0] = 257 - a[0]
				}
				if m&2 != 0 {
					a[1] = 257 - a[1]
				}
				if m&4 != 0 {
					a[0], a[1] = a[1], a[0]
				}
				q[i] = a
			}
			if polyArea(q) < 0 {
				for i, j := 0, len(q)-1; i < j; i, j = i+1, j-1 {
					q[i], q[j] = q[j], q[i]
				}
			}
			if !put(K{270, 258, 3}, solid{Poly: q, Z: P2{-0.5, 2.75}}, boxSolid(262.25, -1, -1, 265.5, 270, 20)) {
				return false
			}
		}
	}
	// round prisms with many sides
	for _, k := range []int{17, 64, 360} {
		for _, r := range []float64{20, 97} {
			var p []P2
			for i := 0; i < k; i++ {
				a := 2 * math.Pi * float64(i) / float64(k)
				p = append(p, P2{math.Round((r+1.3+r*math.Cos(a))*64) / 64, math.Round((r+2.1+r*math.Sin(a))*64) / 64})
			}
			w := int(2*r) + 12
			if !put(K{w, w - 6, 2}, solid{Poly: p, Z: P2{-0.25, 1.75}}, boxSolid(float64(w)-5, -1, -1, float64(w)-1.75, 300, 20)) {
				return false
			}
		}
	}
	// tetrahedra
	for _, p := range [][4]V3{{{0.25, 1, 0.5}, {100.5, 3, 7}, {50, 97.25, 20}, {45, 30, 99}}, {{1, 1, 0}, {1, 90, 95}, {98, 40.5, 60}, {70, 2, 31}}, {{3, 88, 1}, {99, 91, 2}, {51, 93, 90}, {48, 0.25, 45}}} {
		q := p
		if !put(K{110, 99, 100}, solid{Tet: &q}, boxSolid(103, -1, -1, 107.5, 120, 120)) {
			return false
		}
	}
	return true
}

// genVox yields the solids on two lattices, and a part of them also on very fine and very coarse ones.
func genVox(c *hx.Ctx, yield func(voxCase) bool) {
	other := []voxCase{
		{VPMM: 1 << 20, T: V3{-3.0 / (1 << 20), 7.25 / (1 << 20), 0}}, // a nanometer per voxel
		{VPMM: 1 << 14, T: V3{-80, 3.25, -0.5}},
		{VPMM: 1.0 / 1024, T: V3{1 << 20, -1 << 24, 1 << 18}},       // a meter per voxel
		{VPMM: 4, T: V3{1<<22 + 0.25, -1<<23 - 0.25, 1<<24 + 0.25}}, // more digits than a float32 has
	}
	if !genVoxLarge(c, yield) {
		return
	}
	i := 0
	genVoxOn(c, func(v voxCase) bool {
		if !yield(v) {
			return false
		}
		i++
		if !c.Thorough() && i%2 == 0 {
			return true
		}
		o := other[i/2%len(other)]
		v.VPMM, v.T = o.VPMM, o.T
		return yield(v)
	})
}

func genVoxOn(c *hx.Ctx, yield func(voxCase) bool) {
	th := c.Thorough()
	lat := []voxCase{{VPMM: 1}, {VPMM: 4, T: V3{-80, 3.25, -0.5}}}
	// one box: all faces on quarter-voxel positions of a line, per axis
	q := []float64{-1.25, -1, 0, 0.25, 0.5, 0.75, 1, 1.5, 2, 2.25, 3, 3.5, 4, 5.5}
	pairs := [][2]float64{}
	for i := range q {
		for j := i + 1; j < len(q); j++ {
			pairs = append(pairs, [2]float64{q[i], q[j]})
		}
	}
	few := [][2]float64{{0, 3}, {0.5, 0.75}, {-1, 5.5}, {1, 2}, {0.25, 2.25}}
	for _, l := range lat {
		for a := 0; a < 3; a++ {
			for _, p := range pairs {
				for _, r := range few {
					for _, s := range few {
						for d := 0; d < 4; d++ {
							v := l
							v.N = K{3, 3, 3}
							v.Diag, v.Rot = []int{0, 255, 0x55, 0xaa}[d], d
							pr := [3][2]float64{p, r, s}
							x, y, z := pr[a%3], pr[(a+1)%3], pr[(a+2)%3]
							v.Solids = []solid{boxSolid(x[0], y[0], z[0], x[1], y[1], z[1])}
							if !yield(v) {
								return
							}
						}
					}
				}
			}
		}
	}
	// boxes with a ring of vertices exactly on a sampling plane
	for _, l := range lat {
		for _, p := range pairs {
			for _, r := range few {
				for d := 0; d < 4; d++ {
					v := l
					v.N = K{3, 3, 3}
					v.Diag, v.Rot = []int{0, 255, 0x55, 0xaa}[d], d
					b := boxSolid(p[0], r[0], -1, p[1], r[1], 2.75)
					b.Mid = 0.5
					e := boxSolid(p[0], r[0], 0.5, p[1], r[1], 2.5)
					e.Mid = 1.5
					for _, s := range []solid{b, e} {
						v.Solids = []solid{s}
						if !yield(v) {
							return
						}
					}
				}
			}
		}
	}
	// rows of boxes: all widths and gaps down to a quarter voxel
	w := []float64{0.25, 0.5, 1, 1.75}
	ok := tuples(w, hx.Pick(c, 5, 7), func(t []float64) bool {
		for _, o := range []float64{-0.75, 0, 0.125, 0.5} {
			for d := 0; d < 2; d++ {
				v := lat[d]
				v.N = K{6, 2, 1}
				v.Diag, v.Rot = []int{0, 0xcc}[d], d
				x := o
				for i := 0; i < len(t); i++ {
					if i%2 == 0 {
						v.Solids = append(v.Solids, boxSolid(x, -0.25, 0.25, x+t[i], 1.25+0.25*float64(i), 0.75))
					}
					x += t[i]
				}
				if !yield(v) {
					return false
				}
			}
		}
		return true
	})
	if !ok {
		return
	}
	// walls along y, and blocks in rows and columns
	ok = tuples(w, 3, func(t []float64) bool {
		for _, o := range []float64{-0.75, 0, 0.125, 0.5} {
			v := lat[0]
			v.N = K{5, 6, 2}
			v.Rot = 3
			y := o
			for i := 0; i < 3; i += 2 {
				v.Solids = append(v.Solids, boxSolid(0.5, y, 0, 1.5, y+t[i], 2), boxSolid(3, y, 0.75, 4.25, y+t[i], 1.75))
				y += t[i]
				if i+1 < len(t) {
					y += t[i+1]
				}
			}
			if !yield(v) {
				return false
			}
		}
		return true
	})
	if !ok {
		return
	}
	// prisms over every triangle and quadrilateral of a grid, with a box beside it in the same rows
	scales := hx.Pick(c, []float64{3, 1.375}, []float64{3, 1.375, 2, 4.75})
	offs := []P2{{0, 0}, {0.5, 0.5}, {-1.25, 0.3125}}
	for _, k := range []int{3, 4} {
		g := 4
		if k == 4 && !th {
			g = 3
		}
		if !polys(g, k, func(p []P2) bool {
			for _, s := range scales {
				for oi, o := range offs {
					for d := 0; d < 3; d++ {
						v := lat[(oi+d)%2]
						v.Diag, v.Rot = []int{0, 255, 0x5a}[d], d+1
						w := int(math.Ceil(s*float64(g-1))) + 8
						v.N = K{w, int(math.Ceil(s*float64(g-1))) + 1, 3}
						v.Solids = []solid{{Poly: movePoly(p, s, o), Z: P2{-0.5, 3.5}}, boxSolid(float64(w)-3.5, -1, -1, float64(w)-1.5, 20, 20)}
						if d == 2 {
							v.Solids[0].Mid = 1.5
						}
						if !yield(v) {
							return false
						}
					}
				}
			}
			return true
		}) {
			return
		}
	}
	// rings: a polygon around another one (a hole), with a box beside it
	for _, s := range []float64{1.5, 2, 2.75} {
		for _, o := range offs {
			for d := 0; d < 3; d++ {
				v := lat[d%2]
				v.Diag, v.Rot = []int{0, 255, 0x5a}[d], d
				v.N = K{26, int(s*8) + 2, 2}
				dia := []P2{{4, 0}, {8, 4}, {4, 8}, {0, 4}}
				lshape := []P2{{0, 0}, {8, 0}, {8, 2}, {2, 2}, {2, 8}, {0, 8}}
				ushape := []P2{{0, 0}, {8, 0}, {8, 8}, {6, 8}, {6, 2}, {2, 2}, {2, 8}, {0, 8}}
				star := []P2{{4, 0}, {5, 3}, {8, 4}, {5, 5}, {4, 8}, {3, 5}, {0, 4}, {3, 3}}
				zig := []P2{{0, 0}, {2, 4}, {4, 0}, {6, 4}, {8, 0}, {8, 8}, {6, 5}, {4, 8}, {2, 5}, {0, 8}}
				for _, p := range [][]P2{dia, lshape, ushape, star, zig} {
					for m := 0; m < 4; m++ {
						q := make([]P2, len(p))
						for i := range p {
							a := p[i]
							if m&1 == 1 {
								a[0] = 8 - a[0]
							}
							if m&2 == 2 {
								a[0], a[1] = a[1], a[0]
							}
							q[i] = a
						}
						if polyArea(q) < 0 {
							for i, j := 0, len(q)-1; i < j; i, j = i+1, j-1 {
								q[i], q[j] = q[j], q[i]
							}
						}
						v.Solids = []solid{{Poly: movePoly(q, s, o), Z: P2{0, 2}}, boxSolid(23, -1, -1, 25.5, 30, 20)}
						if !yield(v) {
							return
						}
					}
				}
			}
		}
	}
	// tetrahedra over a cube of corner positions, with a box beside
	cs := []float64{0.25, 3, 7.5}
	var pts []V3
	tuples(cs, 3, func(t []float64) bool {
		pts = append(pts, V3{t[0], t[1], map[float64]float64{0.25: 0, 3: 4, 7.5: 8}[t[2]]})
		return true
	})
	n := len(pts)
	for a := 0; a < n; a++ {
		for b := a + 1; b < n; b++ {
			for d := b + 1; d < n; d++ {
				for e := d + 1; e < n; e++ {
					if !th && (a+b*3+d*5+e*7)%3 != 0 {
						continue
					}
					p := [4]V3{pts[a], pts[b], pts[d], pts[e]}
					if vol := dot3(cross3(sub3(p[1], p[0]), sub3(p[2], p[0])), sub3(p[3], p[0])); math.Abs(vol) < 1e-9 {
						continue
					}
					for oi, oz := range []float64{0.5, 0} { // sampling planes through corners, and not
						v := lat[oi]
						v.Rot = (a + b + d + e) % 4
						v.N = K{13, 9, 9}
						q := p
						for i := range q {
							q[i][2] += oz
						}
						v.Solids = []solid{{Tet: &q}, boxSolid(10, -1, -1, 11.5, 30, 20)}
						if !yield(v) {
							return
						}
					}
				}
			}
		}
	}
}

func init() {
	hx.Register(&hx.Check{
		ID: "C07", Level: "model_checking",
		Rule: "cases: solids (axis-aligned boxes with faces at all quarter-voxel positions, rows of boxes with all widths and gaps, prisms over every triangle and quadrilateral of a grid, concave prisms, tetrahedra over a corner menu) x triangulations x lattices, and regions of hundreds of voxels along an axis; each again without vertex normals, with smoothed ones, and in other triangles (each cut into four; boxes also with corners on the sides of neighbours and with triangles without an area); boxes are compared exactly, other solids with a one-voxel tolerance at the surface; non-trivial: every case, outcome is the voxel set",
		Setup: func(c *hx.Ctx) func() {
			run := hx.Kind(c, "solid", func(v voxCase) (string, error) { return v.run(c) })
			bad := hx.Kind(c, "zero", func(n K) (string, error) {
				b := binvox.New(n[0], n[1], n[2], 0, 0, 0, 1, false)
				m := toMesh(boxTris(V3{}, V3{1, 1, 1}, 0), 0)
				if err := b.Voxelize(m); err == nil {
					return "", fmt.Errorf("Voxelize accepts the empty region %v", n)
				}
				if err := b.VoxelizeZ(m, 0); err == nil {
					return "", fmt.Errorf("VoxelizeZ accepts the empty region %v", n)
				}
				return "refused", nil
			})
			return func() {
				tuples([]int{0, 1, 3}, 3, func(t []int) bool {
					if t[0]*t[1]*t[2] == 0 {
						bad(K{t[0], t[1], t[2]})
					}
					return true
				})
				hx.Each(c, run, func(yield func(voxCase) bool) { genVox(c, yield) })
			}
		},
		Assumptions: []string{"meshes are closed, outward-oriented and free of self-intersection"},
	})
	hx.Register(&hx.Check{
		ID: "C08", Level: "model_checking",
		Rule: "cases: the solids of C07 x tile sizes and tile origins (also tiles that reach outside the region, and large regions); each is voxelized at once, slice by slice, and tile by tile, and the results must be equal voxel for voxel; non-trivial: every case",
		Setup: func(c *hx.Ctx) func() {
			run := hx.Kind(c, "tiles", func(v voxCase) (string, error) { return v.run(c) })
			return func() {
				hx.Each(c, run, func(yield func(voxCase) bool) {
					i := 0
					genVox(c, func(v voxCase) bool {
						i++
						tiles := []K{{1, 1, 1}, {2, 3, 1}, {1, 2, 2}, {3, 1, 2}, {2, 2, 3}}
						starts := []K{{0, 0, 0}, {-2, -1, -1}}
						if max(v.N[0], v.N[1], v.N[2]) >= 57 {
							tiles = []K{{64, 64, 64}, {33, 100, 7}, {v.N[0], 19, v.N[2]/2 + 1}}
							starts = []K{{0, 0, 0}, {-3, -2, -1}}
						} else if v.N[0]*v.N[1]*v.N[2] > 120 {
							tiles = []K{{5, 4, 3}, {4, 7, 2}, {7, 3, 1}}
							starts = []K{{0, 0, 0}, {-3, -2, -1}}
						}
						// all tiles x starts for every solid in the thorough tier, in rotation otherwise
						for j := range tiles {
							for k := range starts {
								if !c.Thorough() && (i+j+k*3)%len(tiles) != 0 {
									continue
								}
								v.Tile, v.Start = &tiles[j], &starts[k]
								if !yield(v) {
									return false
								}
							}
						}
						return true
					})
				})
			}
		},
		Assumptions: []string{"resolution and origin are dyadic, so that tile origins are exact; elsewhere they may round"},
	})
}
