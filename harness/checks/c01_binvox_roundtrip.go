package checks

import (
	"fmt"
	"math"
	"os"

	"github.com/gmlewis/stldice/v4/binvox"
	"stldiceverif/hx"
)

// rtCase is one write/read round trip. Either Bits picks the voxels of an N grid,
// or Runs lays alternating runs over it in file order.
type rtCase struct {
	N     K
	Bits  uint64 `json:",omitempty"`
	First int    `json:",omitempty"`
	Runs  []int  `json:",omitempty"`
	Check int    `json:",omitempty"` // checkerboard with this period
	Off   K      // offset of the occupied region inside the model (stray voxels lie outside the grid)
	S, C  K      // window
	T     [3]float64
	Scale float64
	Color int `json:",omitempty"` // 1: all voxels are in the color map, 2: every other one
}

func (r rtCase) voxels() Set {
	var s Set
	switch {
	case r.Check > 0:
		s = Set{}
		for _, k := range box(r.N) {
			if (k[0]+k[1]+k[2])%r.Check == 0 {
				s[k] = true
			}
		}
	case r.Runs != nil:
		s = runsSet(r.N, r.First, r.Runs)
	default:
		s = subset(r.N, r.Bits)
	}
	if r.Off != (K{}) {
		t := Set{}
		for k := range s {
			t[K{k[0] + r.Off[0], k[1] + r.Off[1], k[2] + r.Off[2]}] = true
		}
		s = t
	}
	return s
}

// rtWindow is the window the case asks for, and what it must hold.
func (r rtCase) want(s Set) (K, Set) {
	c := r.C
	for i := range c {
		if c[i] == 0 {
			c[i] = r.N[i]
		}
	}
	return c, window(s, r.S, c)
}

var headerFloats = []float64{0, 1, -80, -2.6, 160, 0.1, 1e-7, 1e21, 123456.789012345, math.Pi, -1.0 / 3, 1e6, 123456789, 5e-324, math.MaxFloat64}

// genRoundTrips enumerates the write/read space shared by the two voxel formats.
func genRoundTrips(c *hx.Ctx, yield func(rtCase) bool) {
	base := rtCase{T: [3]float64{-80, 0.25, -2.6}, Scale: 160}
	put := func(r rtCase) bool {
		if r.Scale == 0 {
			r.T, r.Scale = base.T, base.Scale
		}
		return yield(r)
	}
	// every model on every small grid
	for _, n := range dims(hx.Pick(c, 9, 12), hx.Pick(c, 9, 12)) {
		v := uint(n[0] * n[1] * n[2])
		for bits := uint64(1); bits < 1<<v; bits++ {
			if !put(rtCase{N: n, Bits: bits}) {
				return
			}
		}
	}
	// every window of every model on small grids, also past the grid's end
	for _, n := range dims(3, hx.Pick(c, 4, 8)) {
		v := uint(n[0] * n[1] * n[2])
		for bits := uint64(1); bits < 1<<v; bits++ {
			for _, s := range box(K{n[0] + 1, n[1] + 1, n[2] + 1}) {
				for _, w := range box(K{n[0] + 2, n[1] + 2, n[2] + 2}) {
					if !put(rtCase{N: n, Bits: bits, S: s, C: w}) {
						return
					}
				}
			}
		}
	}
	// every window of asymmetric grids with asymmetric contents
	for _, n := range []K{{2, 3, 4}, {4, 2, 3}, {3, 4, 2}} {
		for _, bits := range []uint64{0x1, 0x800000, 0xffffff, 0xa5c3e1, 0x5a3c1e, 0x13579b} {
			for _, s := range box(K{n[0] + 1, n[1] + 1, n[2] + 1}) {
				for _, w := range box(K{n[0] + 2, n[1] + 2, n[2] + 2}) {
					if !put(rtCase{N: n, Bits: bits, S: s, C: w}) {
						return
					}
				}
			}
		}
	}
	// voxels outside the grid never leak into the file
	for _, off := range []K{{-1, 0, 0}, {0, -1, 0}, {0, 0, -1}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-1, -1, -1}, {1, 1, 1}} {
		for bits := uint64(1); bits < 256; bits++ {
			if !put(rtCase{N: K{2, 2, 2}, Bits: bits, Off: off}) {
				return
			}
		}
	}
	// run lengths around every boundary of the encoding, along each axis of the grid
	small := []int{1, 2, 253, 254, 255, 256, 257, 509, 510, 511, 512, 765, 766, 1021}
	shape := func(t, axis int) K {
		n := K{1, 1, 1}
		n[axis] = t
		return n
	}
	runs := func(rs []int, first int) bool {
		t := 0
		for _, r := range rs {
			t += r
		}
		for axis := 0; axis < 3; axis++ {
			if !put(rtCase{N: shape(t, axis), First: first, Runs: rs}) {
				return false
			}
		}
		// the same runs folded over two axes
		for _, d := range []int{2, 3, 7} {
			if t%d == 0 {
				for _, n := range []K{{d, t / d, 1}, {1, d, t / d}, {t / d, 1, d}} {
					if !put(rtCase{N: n, First: first, Runs: rs}) {
						return false
					}
				}
			}
		}
		return true
	}
	for k := 1; k <= hx.Pick(c, 3, 4); k++ {
		vals := small
		if k == 3 && !c.Thorough() {
			vals = []int{1, 2, 254, 255, 256, 510, 511, 765}
		}
		if k == 4 {
			vals = []int{1, 254, 255, 256, 510, 511}
		}
		for first := 0; first < 2; first++ {
			if !tuples(vals, k, func(t []int) bool { return runs(t, first) }) {
				return
			}
		}
	}
	// run lengths that are characters of text, too
	for first := 0; first < 2; first++ {
		for k := 1; k <= 3; k++ {
			if !tuples([]int{7, 9, 10, 13, 26, 32, 48}, k, func(t []int) bool { return runs(t, first) }) {
				return
			}
		}
	}
	// long runs: 16-bit boundaries
	big := []int{1, 255, 32767, 32768, 65534, 65535, 65536, 65537}
	if c.Thorough() {
		big = append(big, 131070, 131071, 196605)
	}
	for k := 1; k <= 2; k++ {
		for first := 0; first < 2; first++ {
			if !tuples(big, k, func(t []int) bool { return runs(t, first) }) {
				return
			}
		}
	}
	// a gap that is longer than what 24 bits count
	for _, n := range []K{{1, 1<<24 + 258, 1}} {
		t := n[0] * n[1] * n[2]
		if !put(rtCase{N: n, Runs: []int{t - 3, 3}}) {
			return
		}
	}
	// many runs in one file
	for _, n := range []K{{1, 99, 1}, {1, 100, 1}, {1, 101, 1}, {1, 102, 1}, {1, 203, 1}, {1, 1, 1001}, {7, 8, 9}, {16, 16, 16}, {5, 5, 300}, {300, 5, 5}, {5, 300, 5}, {41, 41, 41}, {64, 64, 64}} {
		for _, m := range []int{1, 2, 3, 5, 100} {
			if !put(rtCase{N: n, Check: m}) {
				return
			}
		}
	}
	// header numbers
	for i, a := range headerFloats {
		for j, b := range headerFloats {
			for axis := 0; axis < 3; axis++ {
				r := rtCase{N: K{2, 1, 2}, Bits: 0xb, Scale: 160}
				r.T[axis] = a
				r.T[(axis+1)%3] = b
				if !put(r) {
					return
				}
			}
			if i > 0 && headerFloats[i] > 0 {
				if !put(rtCase{N: K{2, 1, 2}, Bits: 0xb, Scale: a, T: [3]float64{b, -b, 1}}) {
					return
				}
			}
			_ = j
		}
	}
}

// colors of full-color voxels; a voxel is there whatever its color is.
var colors = []binvox.Color{binvox.White, binvox.Black, {R: 0.25, G: 0.5, B: 0.125, A: 0.5}, {}}

func init() {
	hx.Register(&hx.Check{
		ID: "C01", Level: "model_checking",
		Rule: "cases: every model on every grid of bounded volume, every window of small grids, all tuples of boundary run lengths in both starting values and all axis layouts, header number menus, models with color voxels; non-trivial: a non-empty window whose file was decoded by an independent decoder and by the library",
		Setup: func(c *hx.Ctx) func() {
			run := hx.Kind(c, "roundtrip", func(r rtCase) (string, error) {
				s := r.voxels()
				n, want := r.want(s)
				if len(s) == 0 {
					return "", nil
				}
				b := &binvox.BinVOX{NX: r.N[0], NY: r.N[1], NZ: r.N[2], TX: r.T[0], TY: r.T[1], TZ: r.T[2], Scale: r.Scale, WhiteVoxels: toBV(s)}
				if r.Color > 0 {
					b.ColorVoxels = binvox.ColorVoxelMap{}
					i := 0
					for _, k := range s.keys() {
						if i++; r.Color == 1 || i%2 == 0 {
							delete(b.WhiteVoxels, binvox.Key{X: k[0], Y: k[1], Z: k[2]})
							b.AddColor(k[0], k[1], k[2], colors[i/2%len(colors)])
						}
					}
				}
				had := len(b.WhiteVoxels)
				fn := c.Tmp(".binvox")
				defer os.Remove(fn)
				if err := b.Write(fn, r.S[0], r.S[1], r.S[2], r.C[0], r.C[1], r.C[2]); err != nil {
					return "", fmt.Errorf("Write: %v", err)
				}
				if err := diff(fromBV(b), s); err != nil && r.Color == 0 {
					return "", fmt.Errorf("writing changed the model: %v", err)
				}
				if len(b.WhiteVoxels) != had || had+len(b.ColorVoxels) != len(s) {
					return "", fmt.Errorf("writing changed the model: %v white and %v color voxels", len(b.WhiteVoxels), len(b.ColorVoxels))
				}
				h, got, err := decodeBinvox(mustRead(fn))
				if err != nil {
					return "", fmt.Errorf("written file is not a well-formed binvox file: %v", err)
				}
				if h.N != n {
					return "", fmt.Errorf("written dim %v, want %v", h.N, n)
				}
				for i := range r.T {
					if !sameFloat(h.T[i], r.T[i]) {
						return "", fmt.Errorf("written translate %v, want %v", h.T, r.T)
					}
				}
				if !sameFloat(h.Scale, r.Scale) {
					return "", fmt.Errorf("written scale %v, want %v", h.Scale, r.Scale)
				}
				if err := diff(got, want); err != nil {
					return "", fmt.Errorf("written file: %v", err)
				}
				g, err := binvox.Read(fn, 0, 0, 0, 0, 0, 0)
				if err != nil {
					return "", fmt.Errorf("Read of the written file: %v", err)
				}
				if (K{g.NX, g.NY, g.NZ}) != n || !sameFloat(g.TX, r.T[0]) || !sameFloat(g.TY, r.T[1]) || !sameFloat(g.TZ, r.T[2]) || !sameFloat(g.Scale, r.Scale) {
					return "", fmt.Errorf("read back dim %v,%v,%v translate %v,%v,%v scale %v; want %v %v %v", g.NX, g.NY, g.NZ, g.TX, g.TY, g.TZ, g.Scale, n, r.T, r.Scale)
				}
				if err := diff(fromBV(g), want); err != nil {
					return "", fmt.Errorf("read back: %v", err)
				}
				return fmt.Sprint(n, want.hash(), r.T, r.Scale), nil
			})
			return func() {
				hx.Each(c, run, func(yield func(rtCase) bool) { genRoundTrips(c, yield) })
				hx.Each(c, run, func(yield func(rtCase) bool) {
					for col := 1; col <= 2; col++ {
						for _, n := range []K{{2, 2, 2}, {1, 3, 2}, {3, 1, 3}, {1, 1, 1}, {1, 2, 1}} {
							for bits := uint64(1); bits < 1<<uint(n[0]*n[1]*n[2]); bits++ {
								for _, s := range box(K{2, 2, 2}) {
									for _, w := range box(K{2, 2, 3}) {
										if !yield(rtCase{N: n, Bits: bits, S: s, C: w, T: [3]float64{-80, 0.25, -2.6}, Scale: 160, Color: col}) {
											return
										}
									}
								}
							}
						}
						for _, m := range []int{1, 2, 100} {
							if !yield(rtCase{N: K{16, 17, 18}, Check: m, Scale: 9, Color: col}) {
								return
							}
						}
					}
				})
			}
		},
		Assumptions: []string{"grids above the stated volumes are covered only through run-length structure, not contents"},
	})
}
