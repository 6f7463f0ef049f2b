package checks

import (
	"encoding/binary"
	"fmt"
	"math"

	gl "github.com/fogleman/fauxgl"
)

// V3 is a point.
type V3 = [3]float64

// tri is a triangle, counter-clockwise seen from outside.
type tri = [3]V3

func sub3(a, b V3) V3 { return V3{a[0] - b[0], a[1] - b[1], a[2] - b[2]} }

func cross3(a, b V3) V3 {
	return V3{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
}

func dot3(a, b V3) float64 { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2] }

// quad splits the quad abcd (counter-clockwise from outside) along one of its diagonals.
func quad(a, b, c, d V3, diag int) []tri {
	if diag&1 == 0 {
		return []tri{{a, b, c}, {a, c, d}}
	}
	return []tri{{b, c, d}, {b, d, a}}
}

// boxTris is the surface of an axis-aligned box; diag picks the diagonal of each face.
func boxTris(lo, hi V3, diag int) []tri {
	p := func(x, y, z int) V3 {
		q := lo
		if x == 1 {
			q[0] = hi[0]
		}
		if y == 1 {
			q[1] = hi[1]
		}
		if z == 1 {
			q[2] = hi[2]
		}
		return q
	}
	var t []tri
	t = append(t, quad(p(0, 0, 0), p(0, 0, 1), p(0, 1, 1), p(0, 1, 0), diag)...)
	t = append(t, quad(p(1, 0, 0), p(1, 1, 0), p(1, 1, 1), p(1, 0, 1), diag>>1)...)
	t = append(t, quad(p(0, 0, 0), p(1, 0, 0), p(1, 0, 1), p(0, 0, 1), diag>>2)...)
	t = append(t, quad(p(0, 1, 0), p(0, 1, 1), p(1, 1, 1), p(1, 1, 0), diag>>3)...)
	t = append(t, quad(p(0, 0, 0), p(0, 1, 0), p(1, 1, 0), p(1, 0, 0), diag>>4)...)
	t = append(t, quad(p(0, 0, 1), p(1, 0, 1), p(1, 1, 1), p(0, 1, 1), diag>>5)...)
	return t
}

// P2 is a point of a polygon.
type P2 = [2]float64

func cross2(o, a, b P2) float64 { return (a[0]-o[0])*(b[1]-o[1]) - (a[1]-o[1])*(b[0]-o[0]) }

// earClip triangulates a simple counter-clockwise polygon.
func earClip(p []P2) [][3]P2 {
	idx := make([]int, len(p))
	for i := range idx {
		idx[i] = i
	}
	var out [][3]P2
	for len(idx) > 3 {
		found := false
		for i := range idx {
			a, b, c := p[idx[(i+len(idx)-1)%len(idx)]], p[idx[i]], p[idx[(i+1)%len(idx)]]
			if cross2(a, b, c) <= 0 {
				continue
			}
			ok := true
			for _, j := range idx {
				q := p[j]
				if q == a || q == b || q == c {
					continue
				}
				if cross2(a, b, q) >= 0 && cross2(b, c, q) >= 0 && cross2(c, a, q) >= 0 {
					ok = false
					break
				}
			}
			if ok {
				out = append(out, [3]P2{a, b, c})
				idx = append(idx[:i:i], idx[i+1:]...)
				found = true
				break
			}
		}
		if !found { // collinear rest
			break
		}
	}
	if len(idx) >= 3 {
		out = append(out, [3]P2{p[idx[0]], p[idx[1]], p[idx[2]]})
	}
	return out
}

// prismTris is the surface of a prism over a simple counter-clockwise polygon.
func prismTris(p []P2, z0, z1 float64, diag int) []tri {
	var t []tri
	n := len(p)
	for i := range p {
		a, b := p[i], p[(i+1)%n]
		t = append(t, quad(V3{a[0], a[1], z0}, V3{b[0], b[1], z0}, V3{b[0], b[1], z1}, V3{a[0], a[1], z1}, diag>>uint(i%8))...)
	}
	for _, c := range earClip(p) {
		t = append(t, tri{{c[0][0], c[0][1], z1}, {c[1][0], c[1][1], z1}, {c[2][0], c[2][1], z1}})
		t = append(t, tri{{c[0][0], c[0][1], z0}, {c[2][0], c[2][1], z0}, {c[1][0], c[1][1], z0}})
	}
	return t
}

// simplePolygon reports whether the closed polygon has no self-contact.
func simplePolygon(p []P2) bool {
	n := len(p)
	for i := 0; i < n; i++ {
		if p[i] == p[(i+1)%n] {
			return false
		}
		if cross2(p[i], p[(i+1)%n], p[(i+2)%n]) == 0 {
			return false // straight or folded corner
		}
		for j := i + 1; j < n; j++ {
			if j == i || (j+1)%n == i || (i+1)%n == j {
				continue
			}
			if segTouch(p[i], p[(i+1)%n], p[j], p[(j+1)%n]) {
				return false
			}
		}
	}
	return true
}

func sgn(f float64) int {
	switch {
	case f > 0:
		return 1
	case f < 0:
		return -1
	}
	return 0
}

func onSeg(a, b, p P2) bool {
	return cross2(a, b, p) == 0 && math.Min(a[0], b[0]) <= p[0] && p[0] <= math.Max(a[0], b[0]) &&
		math.Min(a[1], b[1]) <= p[1] && p[1] <= math.Max(a[1], b[1])
}

func segTouch(a, b, c, d P2) bool {
	if onSeg(a, b, c) || onSeg(a, b, d) || onSeg(c, d, a) || onSeg(c, d, b) {
		return true
	}
	return sgn(cross2(a, b, c))*sgn(cross2(a, b, d)) < 0 && sgn(cross2(c, d, a))*sgn(cross2(c, d, b)) < 0
}

func polyArea(p []P2) float64 {
	a := 0.0
	for i := range p {
		j := (i + 1) % len(p)
		a += p[i][0]*p[j][1] - p[i][1]*p[j][0]
	}
	return a / 2
}

// inPoly is the even-odd rule; p must not lie on the boundary.
func inPoly(poly []P2, p P2) bool {
	in := false
	for i := range poly {
		a, b := poly[i], poly[(i+1)%len(poly)]
		if (a[1] > p[1]) != (b[1] > p[1]) && p[0] < (b[0]-a[0])*(p[1]-a[1])/(b[1]-a[1])+a[0] {
			in = !in
		}
	}
	return in
}

// segRect reports whether the segment comes within eps of the rectangle.
func segRect(a, b, lo, hi P2, eps float64) bool {
	// Liang-Barsky against the grown rectangle
	t0, t1 := 0.0, 1.0
	for i := 0; i < 2; i++ {
		d := b[i] - a[i]
		l, h := lo[i]-eps-a[i], hi[i]+eps-a[i]
		if d == 0 {
			if l > 0 || h < 0 {
				return false
			}
			continue
		}
		u, v := l/d, h/d
		if u > v {
			u, v = v, u
		}
		t0, t1 = math.Max(t0, u), math.Min(t1, v)
		if t0 > t1 {
			return false
		}
	}
	return true
}

// toMesh builds a mesh the way an STL loader does (one normal per face); rot rotates the vertex order.
func toMesh(ts []tri, rot int) *gl.Mesh {
	var out []*gl.Triangle
	for i, t := range ts {
		r := rot
		if rot >= 3 {
			r = (rot + i) % 3
		}
		v := func(j int) gl.Vector { q := t[(j+r)%3]; return gl.V(q[0], q[1], q[2]) }
		out = append(out, gl.NewTriangleForPoints(v(0), v(1), v(2)))
	}
	return gl.NewTriangleMesh(out)
}

func fmtTris(ts []tri) string { return fmt.Sprint(len(ts), " triangles") }

// asciiSTL is the text form of a mesh, exact in float64.
func asciiSTL(ts []tri) []byte {
	var b []byte
	b = append(b, "solid verif\n"...)
	for _, t := range ts {
		b = append(b, " facet normal 0 0 0\n  outer loop\n"...)
		for _, v := range t {
			b = append(b, fmt.Sprintf("   vertex %v %v %v\n", ff(v[0]), ff(v[1]), ff(v[2]))...)
		}
		b = append(b, "  endloop\n endfacet\n"...)
	}
	return append(b, "endsolid verif\n"...)
}

// binarySTL is the binary form of a mesh (float32, without normals).
func binarySTL(ts []tri) []byte {
	b := make([]byte, 84, 84+50*len(ts))
	binary.LittleEndian.PutUint32(b[80:], uint32(len(ts)))
	for _, t := range ts {
		b = append(b, make([]byte, 12)...)
		for _, v := range t {
			for _, f := range v {
				b = binary.LittleEndian.AppendUint32(b, math.Float32bits(float32(f)))
			}
		}
		b = append(b, 0, 0)
	}
	return b
}
