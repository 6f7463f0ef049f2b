package checks

import (
	"fmt"
	"math"
	"os"
	"path/filepath"

	"github.com/gmlewis/stldice/v4/binvox"
	"github.com/gmlewis/stldice/v4/vshell"
	"stldiceverif/hx"
)

// piece is one tile to merge: the voxels Bits of an N grid (or an empty one), placed at lattice offset O.
type piece struct {
	N     K
	Bits  uint64 `json:",omitempty"`
	Full  bool   `json:",omitempty"`
	Pat   string `json:",omitempty"` // a pattern that fills N
	Hole  *K     `json:",omitempty"` // a voxel missing from a full piece
	O     K
	Color bool    `json:",omitempty"` // voxels are in the colour map
	Mix   bool    `json:",omitempty"` // ... every other one
	VPMM  float64 `json:",omitempty"` // a resolution of its own (must be refused)
}

func (p piece) set() Set {
	if p.Pat != "" {
		return pattern(p.N, p.Pat)
	}
	if p.Full {
		s := Set{}
		for _, k := range box(p.N) {
			s[k] = true
		}
		if p.Hole != nil {
			delete(s, *p.Hole)
		}
		return s
	}
	return subset(p.N, p.Bits)
}

// mergeCase is a history of merges on one lattice.
type mergeCase struct {
	VPMM   float64
	T0     [3]float64
	Pieces []piece
	Files  bool `json:",omitempty"` // through files and Merge, and the .vsh file read back
}

func (m mergeCase) bv(p piece) *binvox.BinVOX {
	v := m.VPMM
	if p.VPMM != 0 {
		v = p.VPMM
	}
	d := max(p.N[0], p.N[1], p.N[2])
	if d == 0 {
		d = 4 // an empty model has a scale
	}
	b := binvox.New(p.N[0], p.N[1], p.N[2], m.T0[0]+float64(p.O[0])/v, m.T0[1]+float64(p.O[1])/v, m.T0[2]+float64(p.O[2])/v, float64(d)/v, p.Color)
	if p.Mix {
		b.ColorVoxels = binvox.ColorVoxelMap{}
	}
	for k := range p.set() {
		if p.Color || p.Mix && (k[0]+k[1]+k[2])%2 == 0 {
			b.AddColor(k[0], k[1], k[2], colors[(k[0]+3*k[1]+5*k[2])&3])
		} else {
			b.Add(k[0], k[1], k[2])
		}
	}
	return b
}

// exposed is the reference shell: every voxel of u with at least one of its 26
// neighbours missing, and the map of the neighbours it has.
func exposed(u Set) Shell {
	r := Shell{}
	for k := range u {
		var n uint32
		for dx := -1; dx <= 1; dx++ {
			for dy := -1; dy <= 1; dy++ {
				for dz := -1; dz <= 1; dz++ {
					if (dx != 0 || dy != 0 || dz != 0) && u[K{k[0] + dx, k[1] + dy, k[2] + dz}] {
						n |= nbrBit(dx, dy, dz)
					}
				}
			}
		}
		if n != allNbrs {
			r[k] = n
		}
	}
	return r
}

// checkShell compares a merged shell with the reference union u (in lattice coordinates).
func checkShell(m mergeCase, vs *vshell.VShell, u Set) error {
	v := vs.VoxelsPerMM()
	if len(vs.Voxels) > 0 && !(math.Abs(v-m.VPMM) <= 1e-9*m.VPMM) {
		return fmt.Errorf("resolution is %v voxels/mm, want %v (dim %v,%v,%v scale %v)", v, m.VPMM, vs.NX, vs.NY, vs.NZ, vs.Scale)
	}
	var o K
	if len(vs.Voxels) > 0 {
		for i, t := range []float64{vs.TX, vs.TY, vs.TZ} {
			f := (t - m.T0[i]) * m.VPMM
			o[i] = int(math.Round(f))
			if math.Abs(f-float64(o[i])) > 1e-6 {
				return fmt.Errorf("shell origin is %v voxels off the lattice on axis %d", f, i)
			}
		}
	}
	got, err := shellOf(vs)
	if err != nil {
		return err
	}
	w := Shell{}
	for k, n := range got {
		for i, d := range []int{vs.NX, vs.NY, vs.NZ} {
			if k[i] < 0 || k[i] >= d {
				return fmt.Errorf("voxel %v lies outside the shell's own grid %v,%v,%v", k, vs.NX, vs.NY, vs.NZ)
			}
		}
		w[K{k[0] + o[0], k[1] + o[1], k[2] + o[2]}] = n
	}
	if err := diffShell(w, exposed(u)); err != nil {
		return fmt.Errorf("merged shell (on the common lattice): %v", err)
	}
	return nil
}

func stateOf(vs *vshell.VShell) string {
	s, _ := shellOf(vs)
	return fmt.Sprint(vs.NX, vs.NY, vs.NZ, vs.TX, vs.TY, vs.TZ, vs.Scale, s.hash())
}

func (m mergeCase) run(c *hx.Ctx) (string, error) {
	u := Set{}
	place := func(p piece) bool {
		for k := range p.set() {
			q := K{k[0] + p.O[0], k[1] + p.O[1], k[2] + p.O[2]}
			if u[q] {
				return false
			}
		}
		for k := range p.set() {
			u[K{k[0] + p.O[0], k[1] + p.O[1], k[2] + p.O[2]}] = true
		}
		return true
	}
	if m.Files {
		dir := c.TmpDir()
		defer os.RemoveAll(dir)
		var files []string
		for i, p := range m.Pieces {
			if !place(p) {
				return "", nil
			}
			fn := filepath.Join(dir, fmt.Sprintf("p%02d.binvox", i))
			b := m.bv(p)
			// written by the reference encoder: an empty piece keeps its dimensions, as
			// the binvox tool writes it
			mustWrite(fn, encodeBinvox(header{p.N, [3]float64{b.TX, b.TY, b.TZ}, b.Scale}, p.set()))
			files = append(files, fn)
		}
		vs, err := vshell.Merge(files)
		if len(files) == 0 {
			if err == nil {
				return "", fmt.Errorf("Merge of no files succeeds")
			}
			return "refused", nil
		}
		if err != nil {
			return "", fmt.Errorf("Merge: %v", err)
		}
		if err := checkShell(m, vs, u); err != nil {
			return "", err
		}
		if len(u) > 0 {
			fn := filepath.Join(dir, "out.vsh")
			if err := vs.Write(fn, 0, 0, 0, 0, 0, 0); err != nil {
				return "", fmt.Errorf("Write: %v", err)
			}
			back, err := vshell.Read(fn, 0, 0, 0, 0, 0, 0)
			if err != nil {
				return "", fmt.Errorf("Read: %v", err)
			}
			if err := checkShell(m, back, u); err != nil {
				return "", fmt.Errorf("after writing and reading the shell: %v", err)
			}
		}
		return stateOf(vs), nil
	}
	var vs *vshell.VShell
	out := ""
	for i, p := range m.Pieces {
		if p.VPMM != 0 {
			if vs == nil || len(u) == 0 {
				return "", nil // an empty shell has no resolution to defend
			}
			before := stateOf(vs)
			if err := vs.Add(m.bv(p)); err == nil {
				return "", fmt.Errorf("Add #%d: a piece of %v voxels/mm was merged into a shell of %v voxels/mm", i, p.VPMM, m.VPMM)
			}
			if after := stateOf(vs); after != before {
				return "", fmt.Errorf("Add #%d: refused, but the shell changed", i)
			}
			continue
		}
		if !place(p) {
			return "", nil
		}
		var err error
		bv := m.bv(p)
		if vs == nil {
			vs, err = vshell.New(bv)
		} else {
			err = vs.Add(bv)
		}
		if err != nil {
			return "", fmt.Errorf("Add #%d: %v", i, err)
		}
		if err := checkShell(m, vs, u); err != nil {
			return "", fmt.Errorf("after Add #%d: %v", i, err)
		}
		out = stateOf(vs)
		c.Outcome("state|" + out)
		c.Count("transitions", 1)
	}
	c.Count("traces_validated_against_impl", 1)
	return out, nil
}

// driftCase is a history of pieces that are not on one lattice: piece i holds one voxel, at index 8i along
// the axis, and its origin is F[i] voxels away from the first one.
type driftCase struct {
	VPMM float64
	T0   [3]float64
	Axis int
	F    [][3]float64
}

// run checks that each voxel lies within half a voxel of its place after every merge.
func (d driftCase) run(c *hx.Ctx) (string, error) {
	var vs *vshell.VShell
	var want [][3]float64 // in voxels, relative to T0
	for i, f := range d.F {
		n := K{1, 1, 1}
		n[d.Axis] = 8*len(d.F) + 1
		var k K
		k[d.Axis] = 8 * i
		var t, w [3]float64
		for a := range t {
			t[a] = d.T0[a] + f[a]/d.VPMM
			w[a] = f[a] + float64(k[a])
		}
		want = append(want, w)
		b := binvox.New(n[0], n[1], n[2], t[0], t[1], t[2], float64(n[d.Axis])/d.VPMM, false)
		b.Add(k[0], k[1], k[2])
		var err error
		if vs == nil {
			vs, err = vshell.New(b)
		} else {
			err = vs.Add(b)
		}
		if err != nil {
			return "", fmt.Errorf("Add #%d: %v", i, err)
		}
		if v := vs.VoxelsPerMM(); !(math.Abs(v-d.VPMM) <= 1e-9*d.VPMM) {
			return "", fmt.Errorf("after Add #%d: resolution is %v voxels/mm, want %v", i, v, d.VPMM)
		}
		got, err := shellOf(vs)
		if err != nil {
			return "", fmt.Errorf("after Add #%d: %v", i, err)
		}
		if len(got) != i+1 {
			return "", fmt.Errorf("after Add #%d: %d voxels, want %d", i, len(got), i+1)
		}
		for j, w := range want {
			near := 0
			for k, n := range got {
				ok := n == 0
				for a, t := range []float64{vs.TX, vs.TY, vs.TZ} {
					at := (t-d.T0[a])*d.VPMM + float64(k[a])
					ok = ok && math.Abs(at-w[a]) <= 0.5+1e-6
				}
				if ok {
					near++
				}
			}
			if near != 1 {
				return "", fmt.Errorf("after Add #%d: %d voxels within half a voxel of the place %v of piece %d, want 1 (origin %v,%v,%v, voxels %v)", i, near, w, j, vs.TX, vs.TY, vs.TZ, got)
			}
		}
	}
	c.Count("transitions", int64(len(d.F)))
	return stateOf(vs), nil
}

func init() {
	hx.Register(&hx.Check{
		ID: "C05", Level: "model_checking",
		Rule:        "cases: merge histories of pairwise disjoint pieces on one lattice (all ordered shape pairs at all offsets, depth-3 and depth-4 histories, every order of mosaics, pieces of tens of thousands of voxels, pieces far from the origin, hundreds of pieces, a voxel and then all around it, white, coloured and mixed pieces), checked after every merge against the exposed voxels of the union; non-trivial: a history whose pieces are disjoint",
		Setup:       setupMerge(false),
		Assumptions: []string{"pieces that share voxels are outside the property: diced tiles never do"},
	})
	hx.Register(&hx.Check{
		ID: "C06", Level: "model_checking",
		Rule:        "cases: merge histories over all sign patterns and magnitudes of relative translation, resolutions and origins that do not round exactly, empty and coloured pieces and refused resolutions, through the API and through files, and histories of up to five pieces off each other's lattice (at most half a voxel away from their place after every merge); checked after every merge: each voxel's world position, resolution, index range; non-trivial: a history whose pieces are disjoint",
		Setup:       setupMerge(true),
		Assumptions: []string{"the exact comparison takes pieces that lie on one lattice to within 1e-6 voxel"},
	})
}

func setupMerge(place bool) func(c *hx.Ctx) func() {
	return func(c *hx.Ctx) func() {
		run := hx.Kind(c, "history", func(m mergeCase) (string, error) { return m.run(c) })
		offs := func(vals []int) []K {
			var r []K
			tuples(vals, 3, func(t []int) bool { r = append(r, K{t[0], t[1], t[2]}); return true })
			return r
		}
		shapes := []piece{
			{N: K{1, 1, 1}, Bits: 1}, {N: K{2, 1, 1}, Bits: 3}, {N: K{1, 2, 1}, Bits: 3}, {N: K{1, 1, 2}, Bits: 3},
			{N: K{2, 2, 2}, Bits: 255}, {N: K{2, 2, 2}, Bits: 0x81}, {N: K{2, 2, 2}, Bits: 0x16}, {N: K{3, 3, 3}, Full: true},
			{N: K{3, 3, 3}, Full: true, Hole: &K{1, 1, 1}}, {N: K{3, 1, 2}, Bits: 0x2d}, {N: K{4, 4, 4}, Bits: 1 << 21}, {N: K{3, 3, 1}, Full: true},
		}
		at := func(p piece, o K) piece { p.O = o; return p }
		if !place {
			return func() {
				hx.Each(c, run, func(yield func(mergeCase) bool) {
					base := mergeCase{VPMM: 2, T0: [3]float64{-80, 16, 0.5}}
					turn := 0
					put := func(ps ...piece) bool {
						m := base
						turn++
						for i, p := range ps { // white, colour and mixed pieces in turn
							k := (turn + i*(turn/4)) % 4
							p.Color, p.Mix = k == 2, k == 3
							m.Pieces = append(m.Pieces, p)
						}
						return yield(m)
					}
					// every single piece
					for _, n := range dims(9, hx.Pick(c, 9, 12)) {
						for b := uint64(1); b < 1<<uint(n[0]*n[1]*n[2]); b++ {
							if !put(piece{N: n, Bits: b}) {
								return
							}
						}
					}
					// all splits of all 2x2x2 models over two pieces, in both orders (8 voxels: in A, in B, absent)
					if !tuples([]int{0, 1, 2}, 8, func(t []int) bool {
						var a, b uint64
						for i, v := range t {
							switch v {
							case 1:
								a |= 1 << uint(i)
							case 2:
								b |= 1 << uint(i)
							}
						}
						if a == 0 || b == 0 {
							return true
						}
						return put(piece{N: K{2, 2, 2}, Bits: a}, piece{N: K{2, 2, 2}, Bits: b})
					}) {
						return
					}
					// all ordered pairs of shapes at all offsets
					for _, p := range shapes {
						for _, q := range shapes {
							for _, o := range offs([]int{-4, -3, -2, -1, 0, 1, 2, 3, 4}) {
								if !put(p, at(q, o)) {
									return
								}
							}
						}
					}
					// depth 3
					for _, p := range shapes[:8] {
						for _, q := range []piece{shapes[0], shapes[4], shapes[7]} {
							for _, r := range []piece{shapes[0], shapes[2], shapes[7]} {
								for _, o := range offs(hx.Pick(c, []int{-2, 1, 3}, []int{-3, -1, 0, 2, 3})) {
									for _, o2 := range offs(hx.Pick(c, []int{-1, 0, 2}, []int{-3, -2, 0, 1, 3})) {
										if !put(p, at(q, o), at(r, o2)) {
											return
										}
									}
								}
							}
						}
					}
					// one voxel surrounded step by step: a 3x3x3 cube added voxel by voxel in rotations, so every shell
					// voxel passes through many neighbour maps
					cells := box(K{3, 3, 3})
					for rot := 0; rot < 27; rot++ {
						for _, step := range []int{1, 2, 4, 5, 7, 8, 10, 11, 13} {
							var ps []piece
							for i := 0; i < 27; i++ {
								ps = append(ps, piece{N: K{1, 1, 1}, Bits: 1, O: cells[(rot+i*step)%27]})
							}
							if !put(ps...) {
								return
							}
						}
					}
					// a voxel, and then everything around it
					for i, n := range []K{{5, 5, 5}, {3, 3, 3}, {7, 6, 5}, {3, 9, 3}, {12, 11, 13}} {
						for j, k := range box(n) {
							if i == 4 && j%61 != 0 {
								continue
							}
							one, rest := piece{N: K{1, 1, 1}, Bits: 1, O: k}, piece{N: n, Full: true, Hole: &k}
							if !put(one, rest) || !put(rest, one) {
								return
							}
						}
					}
					// mosaics: a solid or hollow block cut into tiles, merged in every order
					mosaic := func(n, tile K, hole *K, limit int) bool {
						var tiles []piece
						for x := 0; x < n[0]; x += tile[0] {
							for y := 0; y < n[1]; y += tile[1] {
								for z := 0; z < n[2]; z += tile[2] {
									p := piece{N: K{min(tile[0], n[0]-x), min(tile[1], n[1]-y), min(tile[2], n[2]-z)}, Full: true, O: K{x, y, z}}
									if hole != nil {
										h := K{hole[0] - x, hole[1] - y, hole[2] - z}
										if h[0] >= 0 && h[1] >= 0 && h[2] >= 0 && h[0] < p.N[0] && h[1] < p.N[1] && h[2] < p.N[2] {
											p.Hole = &h
										}
									}
									tiles = append(tiles, p)
								}
							}
						}
						return perms(len(tiles), limit, func(o []int) bool {
							var ps []piece
							for _, i := range o {
								ps = append(ps, tiles[i])
							}
							return put(ps...)
						})
					}
					lim := hx.Pick(c, 720, 50000)
					h := &K{1, 1, 1}
					_ = mosaic(K{4, 4, 4}, K{2, 4, 4}, nil, lim) && mosaic(K{4, 4, 4}, K{2, 2, 4}, nil, lim) && mosaic(K{4, 4, 4}, K{2, 2, 2}, nil, lim) &&
						mosaic(K{5, 4, 3}, K{2, 2, 3}, h, lim) && mosaic(K{3, 5, 5}, K{3, 2, 5}, h, lim) && mosaic(K{6, 3, 3}, K{1, 3, 3}, nil, lim) &&
						mosaic(K{3, 3, 6}, K{3, 3, 2}, h, lim) && mosaic(K{4, 4, 4}, K{2, 2, 2}, h, lim) && mosaic(K{7, 7, 7}, K{4, 4, 7}, &K{3, 3, 3}, lim)
					// large pieces, and pieces whose common lattice is long
					big := func(n K, pat string, o K) piece { return piece{N: n, Pat: pat, O: o} }
					for _, pat := range []string{"full", "hollow", "comb", "bars", "dust"} {
						n := K{40, 41, 42}
						for a := 0; a < 3; a++ {
							for _, d := range []int{n[a], n[a] + 1, -n[a]} {
								var o, e K
								o[a] = d
								e[(a+1)%3] = n[(a+1)%3]
								if !put(big(n, pat, K{}), big(n, "full", o)) || !put(big(n, "full", K{}), big(n, pat, o)) || !put(big(n, pat, e), big(n, "full", o), big(n, pat, K{})) {
									return
								}
							}
						}
					}
					for a := 0; a < 3; a++ {
						line := K{1, 1, 1}
						line[a] = 70000
						wide := K{300, 300, 300}
						wide[a] = 1
						for _, d := range []int{1, -1, 2} {
							var o, f K
							o[(a+1)%3], f[a] = d, d*70000
							if !put(big(line, "full", K{}), big(line, "full", o)) || !put(big(line, "full", K{}), big(line, "full", f)) {
								return
							}
							o, f = K{}, K{}
							o[a], f[a] = d, -d
							if !put(big(wide, "full", K{}), big(wide, "full", o), big(wide, "full", f)) {
								return
							}
						}
						for _, d := range []int{-70001, -70000, 65536, 70000} {
							for e := 0; e < 3; e++ {
								var o K
								o[a] = d
								o[e] += 3
								if !put(shapes[7], at(shapes[7], o), at(shapes[4], K{-2, -2, -2})) || !put(shapes[4], at(shapes[8], o), at(shapes[4], K{o[0], o[1], o[2] - 2})) {
									return
								}
							}
						}
					}
					if !mosaic(K{60, 60, 60}, K{30, 30, 30}, nil, 24) || !mosaic(K{90, 20, 90}, K{30, 20, 30}, &K{45, 10, 45}, 18) {
						return
					}
					// hundreds of single voxels
					var ps []piece
					for i, k := range box(K{7, 6, 7}) {
						ps = append(ps, piece{N: K{1, 1, 1}, Bits: 1, O: K{k[0] * (1 - i%2*2), k[1] + i%2*3, k[2]}})
					}
					put(ps...)
				})
			}
		}
		drift := hx.Kind(c, "drift", func(d driftCase) (string, error) { return d.run(c) })
		return func() {
			hx.Each(c, drift, func(yield func(driftCase) bool) {
				fs := []float64{0, 0.4, -0.4, 0.8, -0.8, 1.3, -1.7}
				for _, v := range []float64{1, 10, 1.0 / 3} {
					d := driftCase{VPMM: v, T0: [3]float64{-80, 0.1, 1000.0 / 3}}
					for n := 2; n <= hx.Pick(c, 5, 6); n++ {
						if !tuples(fs, n-1, func(t []float64) bool {
							d.Axis = (n + int(10*t[0]) + 38) % 3
							d.F = [][3]float64{{}}
							for i, f := range t {
								d.F = append(d.F, [3]float64{f, -t[len(t)-1-i], t[(i+1)%len(t)]})
							}
							return yield(d)
						}) {
							return
						}
					}
					// steps of less than half a voxel, all in one direction
					for _, f := range []float64{0.1, 0.3, 0.49} {
						for _, s := range offs([]int{-1, 0, 1}) {
							for a := 0; a < 3; a++ {
								d.Axis, d.F = a, nil
								for i := 0; i < 12; i++ {
									x := f * float64(i)
									d.F = append(d.F, [3]float64{x * float64(s[0]), x * float64(s[1]), x * float64(s[2])})
								}
								if !yield(d) {
									return
								}
							}
						}
					}
				}
			})
			hx.Each(c, run, func(yield func(mergeCase) bool) {
				// translations: all sign patterns, through resolutions and origins that do not round exactly
				for _, v := range []float64{1, 2, 10, 1.0 / 3, 0.7, 51.2, 3, 7, 8192.0 / 160} {
					for _, t := range [][3]float64{{0, 0, 0}, {-80, -80, -2.6}, {0.1, 0.2, 0.3}, {1000.0 / 3, -7, 1e-3}} {
						m := mergeCase{VPMM: v, T0: t}
						for _, p := range []piece{shapes[0], shapes[4], shapes[9]} {
							for _, q := range []piece{shapes[0], shapes[1], shapes[9]} {
								for _, o := range offs(hx.Pick(c, []int{-7, -2, 0, 1, 3}, []int{-29, -7, -3, -2, -1, 0, 1, 2, 3, 10})) {
									m.Pieces = []piece{p, at(q, o)}
									if !yield(m) {
										return
									}
								}
							}
						}
						for _, o := range offs([]int{-5, 0, 4}) {
							for _, o2 := range offs([]int{-9, 1, 9}) {
								m.Pieces = []piece{shapes[0], at(shapes[1], o), at(shapes[3], o2)}
								if !yield(m) {
									return
								}
							}
						}
						for _, o := range offs([]int{-100, 0, 100}) {
							m.Pieces = []piece{shapes[9], at(shapes[9], o)}
							if !yield(m) {
								return
							}
						}
						// chains that walk along a line in each direction, so the grid grows again and again
						for _, d := range offs([]int{-3, 0, 3}) {
							if d == (K{}) {
								continue
							}
							var ps []piece
							for i := 0; i < 6; i++ {
								ps = append(ps, at(shapes[4], K{d[0] * i, d[1] * i, d[2] * i}))
							}
							m.Pieces = ps
							if !yield(m) {
								return
							}
							// and alternating around the start
							ps = nil
							for i := 0; i < 6; i++ {
								s := 1 - 2*(i%2)
								ps = append(ps, at(shapes[9], K{s * d[0] * (i + 1), s * d[1] * (i + 1), s * d[2] * (i + 1)}))
							}
							m.Pieces = ps
							if !yield(m) {
								return
							}
						}
					}
				}
				// exact resolutions: depth-3 histories over all offsets, coloured, empty and refused pieces
				kinds := []piece{shapes[0], shapes[1], {N: K{2, 2, 2}, Bits: 0x69, Color: true}, {N: K{2, 2, 2}, Bits: 0xbd, Mix: true}, {N: K{2, 3, 1}}, {N: K{5, 1, 2}}, {N: K{2, 2, 2}, Bits: 255, VPMM: 20}, {N: K{1, 1, 1}, Bits: 1, VPMM: 8}}
				for _, v := range []float64{10, 4} {
					if v == 4 {
						kinds[5].VPMM, kinds[6].VPMM = 2, 5
					}
					kinds = append(kinds[:7:7], piece{}) // an empty model as this library writes it
					for _, files := range []bool{false, true} {
						for _, p := range kinds {
							for _, q := range kinds {
								for _, r := range kinds {
									if files && (p.VPMM+q.VPMM+r.VPMM != 0 || p.Color || q.Color || r.Color || p.Mix || q.Mix || r.Mix) {
										continue
									}
									for _, o := range offs([]int{-3, 0, 2}) {
										for _, o2 := range []K{{0, 0, 0}, {-5, 3, -5}, {4, -6, 4}, {-4, -4, -4}, {6, 6, 6}} {
											m := mergeCase{VPMM: v, T0: [3]float64{-80, 0.1, 3}, Files: files, Pieces: []piece{p, at(q, o), at(r, o2)}}
											if !yield(m) {
												return
											}
										}
									}
								}
							}
						}
					}
				}
				// far and large
				for i, v := range []float64{1, 10, 1.0 / 3, 51.2} {
					m := mergeCase{VPMM: v, T0: [3]float64{-80, 0.1, 1000.0 / 3}}
					for _, d := range []int{-70001, -65536, 32768, 70000, 1 << 20} {
						for a := 0; a < 3; a++ {
							for e := 0; e < 3; e++ {
								var o K
								o[a] = d
								o[e] -= 5
								m.Files = false
								m.Pieces = []piece{shapes[9], at(shapes[4], o)}
								if !yield(m) {
									return
								}
								m.Files = a == e && i%2 == 0 && d < 1<<20
								m.Pieces = []piece{shapes[4], at(shapes[9], K{-7, 5, 6}), at(piece{N: K{20, 3, 25}, Pat: "comb"}, o)}
								if m.Files && !yield(m) {
									return
								}
							}
						}
					}
					for _, pat := range []string{"full", "hollow", "bars"} {
						m.Files = true
						m.Pieces = []piece{{N: K{50, 20, 30}, Pat: pat}, {N: K{20, 60, 30}, Pat: pat, O: K{50, -30, -10}}, {N: K{20, 20, 60}, Pat: pat, O: K{-20, 4, -45}}}
						if !yield(m) {
							return
						}
					}
				}
				for _, files := range []bool{false, true} { // nothing to merge
					if !yield(mergeCase{VPMM: 1, Files: files}) {
						return
					}
				}
			})
		}
	}
}

// perms yields permutations of 0..n-1 in lexicographic order of a Heap-like
// enumeration; when n! exceeds limit, every start element is still covered.
func perms(n, limit int, f func([]int) bool) bool {
	total := 1
	for i := 2; i <= n; i++ {
		total *= i
		if total > limit*1000 {
			break
		}
	}
	per := limit
	if total > limit {
		per = limit / n
	}
	for first := 0; first < n; first++ {
		var rest []int
		for i := 0; i < n; i++ {
			if i != first {
				rest = append(rest, i)
			}
		}
		cnt := 0
		stop := false
		var rec func(pre, rem []int)
		rec = func(pre, rem []int) {
			if stop || (total > limit && cnt >= per) {
				return
			}
			if len(rem) == 0 {
				cnt++
				if !f(append([]int(nil), pre...)) {
					stop = true
				}
				return
			}
			for i := range rem {
				r := append(append([]int{}, rem[:i]...), rem[i+1:]...)
				rec(append(append([]int{}, pre...), rem[i]), r)
			}
		}
		rec([]int{first}, rest)
		if stop {
			return false
		}
	}
	return true
}
