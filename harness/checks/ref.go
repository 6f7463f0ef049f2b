// Package checks holds the property checks.
package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"

	"github.com/gmlewis/stldice/v4/binvox"
)

// K is a voxel index.
type K = [3]int

// Set is a boring set of voxels.
type Set map[K]bool

func (s Set) keys() []K {
	r := make([]K, 0, len(s))
	for k := range s {
		r = append(r, k)
	}
	sort.Slice(r, func(a, b int) bool {
		for i := 0; i < 3; i++ {
			if r[a][i] != r[b][i] {
				return r[a][i] < r[b][i]
			}
		}
		return false
	})
	return r
}

func (s Set) hash() string {
	h := fnv.New64a()
	var b [24]byte
	for _, k := range s.keys() {
		for i := 0; i < 3; i++ {
			binary.LittleEndian.PutUint64(b[i*8:], uint64(k[i]))
		}
		h.Write(b[:])
	}
	return strconv.FormatUint(h.Sum64(), 36)
}

func fromBV(b *binvox.BinVOX) Set {
	s := Set{}
	for k := range b.WhiteVoxels {
		s[K{k.X, k.Y, k.Z}] = true
	}
	return s
}

func toBV(s Set) binvox.WhiteVoxelMap {
	m := binvox.WhiteVoxelMap{}
	for k := range s {
		m[binvox.Key{X: k[0], Y: k[1], Z: k[2]}] = struct{}{}
	}
	return m
}

// diff describes how two sets differ.
func diff(got, want Set) error {
	var extra, missing []K
	for k := range got {
		if !want[k] {
			extra = append(extra, k)
		}
	}
	for k := range want {
		if !got[k] {
			missing = append(missing, k)
		}
	}
	if len(extra) == 0 && len(missing) == 0 {
		return nil
	}
	cut := func(v []K) string {
		s := Set{}
		for _, k := range v {
			s[k] = true
		}
		v = s.keys()
		if len(v) > 6 {
			return fmt.Sprintf("%v... (%d)", v[:6], len(v))
		}
		return fmt.Sprint(v)
	}
	return fmt.Errorf("%d voxels, want %d; unexpected %s, missing %s", len(got), len(want), cut(extra), cut(missing))
}

// header is a decoded header of a binvox or vshell file.
type header struct {
	N     K
	T     [3]float64
	Scale float64
}

// splitHeader is an independent, deliberately dull parser of well-formed headers.
func splitHeader(b []byte, magic string) (h header, data []byte, err error) {
	lines := bytes.SplitN(b, []byte("\n"), 6)
	if len(lines) != 6 {
		return h, nil, fmt.Errorf("%d header lines", len(lines))
	}
	if string(lines[0]) != magic {
		return h, nil, fmt.Errorf("magic %q", lines[0])
	}
	w := strings.Fields(string(lines[1]))
	if len(w) != 4 || w[0] != "dim" {
		return h, nil, fmt.Errorf("dim line %q", lines[1])
	}
	for i := 0; i < 3; i++ {
		if h.N[i], err = strconv.Atoi(w[i+1]); err != nil {
			return h, nil, err
		}
	}
	w = strings.Fields(string(lines[2]))
	if len(w) != 4 || w[0] != "translate" {
		return h, nil, fmt.Errorf("translate line %q", lines[2])
	}
	for i := 0; i < 3; i++ {
		if h.T[i], err = strconv.ParseFloat(w[i+1], 64); err != nil {
			return h, nil, err
		}
	}
	w = strings.Fields(string(lines[3]))
	if len(w) != 2 || w[0] != "scale" {
		return h, nil, fmt.Errorf("scale line %q", lines[3])
	}
	if h.Scale, err = strconv.ParseFloat(w[1], 64); err != nil {
		return h, nil, err
	}
	if string(lines[4]) != "data" {
		return h, nil, fmt.Errorf("data line %q", lines[4])
	}
	return h, lines[5], nil
}

// decodeBinvox decodes a complete binvox file; the data must fill the grid exactly.
func decodeBinvox(b []byte) (header, Set, error) {
	h, d, err := splitHeader(b, "#binvox 1")
	if err != nil {
		return h, nil, err
	}
	s := Set{}
	n := 0
	for len(d) > 0 {
		if len(d) < 2 {
			return h, nil, fmt.Errorf("dangling byte")
		}
		v, c := d[0], int(d[1])
		d = d[2:]
		if v > 1 || c == 0 {
			return h, nil, fmt.Errorf("bad pair %d,%d", v, c)
		}
		for i := 0; i < c; i++ {
			if v == 1 {
				// y fastest, then z, then x
				s[K{n / (h.N[1] * h.N[2]), n % h.N[1], n / h.N[1] % h.N[2]}] = true
			}
			n++
		}
	}
	if n != h.N[0]*h.N[1]*h.N[2] {
		return h, nil, fmt.Errorf("data covers %d voxels of a %v grid", n, h.N)
	}
	return h, s, nil
}

// encodeBinvox is the reference encoder: one pair per run, runs cut at 255.
func encodeBinvox(h header, s Set) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "#binvox 1\ndim %d %d %d\ntranslate %v %v %v\nscale %v\ndata\n", h.N[0], h.N[1], h.N[2],
		ff(h.T[0]), ff(h.T[1]), ff(h.T[2]), ff(h.Scale))
	cur, cnt := byte(0), 0
	flush := func() {
		for cnt > 0 {
			c := min(cnt, 255)
			b.WriteByte(cur)
			b.WriteByte(byte(c))
			cnt -= c
		}
	}
	for x := 0; x < h.N[0]; x++ {
		for z := 0; z < h.N[2]; z++ {
			for y := 0; y < h.N[1]; y++ {
				v := byte(0)
				if s[K{x, y, z}] {
					v = 1
				}
				if v != cur {
					flush()
					cur = v
				}
				cnt++
			}
		}
	}
	flush()
	return b.Bytes()
}

func ff(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }

func sameFloat(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) || a == b }

func mustWrite(fn string, b []byte) {
	if err := os.WriteFile(fn, b, 0o644); err != nil {
		panic(err)
	}
}

func mustRead(fn string) []byte {
	b, err := os.ReadFile(fn)
	if err != nil {
		panic(err)
	}
	return b
}

// window returns the voxels of s inside start..start+count-1, re-based to start.
func window(s Set, start, count K) Set {
	r := Set{}
	for k := range s {
		in := true
		var q K
		for i := 0; i < 3; i++ {
			q[i] = k[i] - start[i]
			if q[i] < 0 || q[i] >= count[i] {
				in = false
			}
		}
		if in {
			r[q] = true
		}
	}
	return r
}

// box yields all voxels of an n grid, in file order of no particular format.
func box(n K) []K {
	var r []K
	for x := 0; x < n[0]; x++ {
		for y := 0; y < n[1]; y++ {
			for z := 0; z < n[2]; z++ {
				r = append(r, K{x, y, z})
			}
		}
	}
	return r
}

// subset picks the voxels of an n grid by a bit mask.
func subset(n K, bits uint64) Set {
	s := Set{}
	for i, k := range box(n) {
		if bits>>uint(i)&1 == 1 {
			s[k] = true
		}
	}
	return s
}

// pattern is a large voxel set: a solid or hollow block, teeth on a plate, parallel bars, or single voxels.
func pattern(n K, name string) Set {
	s := Set{}
	for _, k := range box(n) {
		in := false
		switch name {
		case "full":
			in = true
		case "hollow":
			for a := range k {
				in = in || k[a] < 2 || k[a] >= n[a]-2
			}
		case "comb":
			in = k[0]%4 < 2 || k[1] < 2
		case "bars":
			in = k[0]%4 < 2 && k[2]%4 < 2
		case "dust":
			in = k[0]%3 == 0 && k[1]%3 == 0 && k[2]%3 == 0
		default:
			panic(name)
		}
		if in {
			s[k] = true
		}
	}
	return s
}

// dims returns all grids with axes up to m and at most vol voxels, smallest first.
func dims(m, vol int) []K {
	var r []K
	for x := 1; x <= m; x++ {
		for y := 1; y <= m; y++ {
			for z := 1; z <= m; z++ {
				if x*y*z <= vol {
					r = append(r, K{x, y, z})
				}
			}
		}
	}
	sort.SliceStable(r, func(a, b int) bool { return r[a][0]*r[a][1]*r[a][2] < r[b][0]*r[b][1]*r[b][2] })
	return r
}

// runsSet lays alternating runs (first value first) along the file order y,z,x of an n grid.
func runsSet(n K, first int, runs []int) Set {
	s := Set{}
	v, i := first, 0
	for _, r := range runs {
		for j := 0; j < r; j++ {
			if v == 1 {
				s[K{i / (n[1] * n[2]), i % n[1], i / n[1] % n[2]}] = true
			}
			i++
		}
		v = 1 - v
	}
	return s
}

// tuples yields all length-k tuples over vals.
func tuples[T any](vals []T, k int, f func([]T) bool) bool {
	t := make([]T, k)
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == k {
			return f(append([]T(nil), t...))
		}
		for _, v := range vals {
			t[i] = v
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	return rec(0)
}
