package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"path/filepath"

	"stldiceverif/hx"
)

// cutPiece is one cutting model, or something else on the command line.
type cutPiece struct {
	What string `json:",omitempty"` // "", "missing", "corrupt", "truncated"
	N    K
	Bits uint64
	Off  K    // position of its origin in base indices
	Full bool `json:",omitempty"` // all voxels
	// Size is the size of a voxel, as a multiple of one of the base (0: 1).
	Size float64 `json:",omitempty"`
}

// cutCase is one call of voxcut.
type cutCase struct {
	N      K
	Bits   uint64
	Full   bool `json:",omitempty"` // all voxels
	Cuts   []cutPiece
	S, C   K // start and count
	T      V3
	VPMM   float64
	STL    bool   `json:",omitempty"` // also write STL
	Mani   bool   `json:",omitempty"`
	NoBV   bool   `json:",omitempty"` // do not write a binvox file
	Smooth bool   `json:",omitempty"`
	Out    string `json:",omitempty"` // the output is this input
	VOX    bool   `json:",omitempty"` // also write a vox file
	Stale  bool   `json:",omitempty"` // the outputs exist already, from another run
}

// full returns all voxels of a grid.
func full(n K) Set {
	s := Set{}
	for _, k := range box(n) {
		s[k] = true
	}
	return s
}

func scaleOf(n K, vpmm float64) float64 { return float64(max(n[0], n[1], n[2])) / vpmm }

func (v cutCase) run(c *hx.Ctx) (string, error) {
	dir := c.TmpDir()
	defer os.RemoveAll(dir)
	base := subset(v.N, v.Bits)
	if v.Full {
		base = full(v.N)
	}
	mustWrite(filepath.Join(dir, "base.binvox"), encodeBinvox(header{v.N, v.T, scaleOf(v.N, v.VPMM)}, base))
	lo, hi, ok := readWindow(v.N, v.S, v.C)
	want := Set{}
	for k := range base {
		in := ok
		for i := 0; i < 3; i++ {
			if k[i] < lo[i] || k[i] >= hi[i] {
				in = false
			}
		}
		if in {
			want[k] = true
		}
	}
	args := []string{}
	for i, x := range []string{"-sx", "-sy", "-sz"} {
		if v.S[i] != 0 {
			args = append(args, x, fmt.Sprint(v.S[i]))
		}
	}
	for i, x := range []string{"-cx", "-cy", "-cz"} {
		if v.C[i] != 0 {
			args = append(args, x, fmt.Sprint(v.C[i]))
		}
	}
	bv := "out.binvox"
	if v.Out != "" {
		bv = v.Out
	}
	out := filepath.Join(dir, bv)
	if !v.NoBV {
		args = append(args, "-obinvox", bv)
	}
	if v.STL {
		args = append(args, "-ostl", "out.stl")
	}
	if v.Mani {
		args = append(args, "-manifold")
	}
	if v.Smooth {
		args = append(args, "-smooth", "120")
	}
	if v.VOX {
		args = append(args, "-ovox", "out.vox")
	}
	args = append(args, "base.binvox")
	fail := !ok
	// done: some cut has been read; soft: nothing was left before the cut that cannot be used, so that it need not be read.
	var done, soft bool
	if v.Stale { // another model, as other calls would have written it
		n := K{5, 4, 7}
		mustWrite(filepath.Join(dir, "out.stl"), binarySTL(boxTris(V3{}, V3{90, 80, 70}, 0)))
		mustWrite(filepath.Join(dir, "out.vox"), append([]byte("VOX \x96\x00\x00\x00MAIN"), make([]byte, 4096)...))
		if v.Out == "" {
			mustWrite(out, encodeBinvox(header{n, v.T, scaleOf(n, v.VPMM)}, full(n)))
		}
	}
	for i, p := range v.Cuts {
		fn := fmt.Sprintf("cut%d.binvox", i)
		args = append(args, fn)
		if p.What == "missing" {
			continue
		}
		s := subset(p.N, p.Bits)
		if p.Full {
			s = full(p.N)
		}
		var t V3
		for a := 0; a < 3; a++ {
			t[a] = v.T[a] + float64(p.Off[a])/v.VPMM
		}
		if p.Size == 0 {
			p.Size = 1
		}
		b := encodeBinvox(header{p.N, t, scaleOf(p.N, v.VPMM) * p.Size}, s)
		if math.Abs(p.Size-1)*float64(max(p.N[0], p.N[1], p.N[2])) > 0.9 {
			fail = true // its voxels are no voxels of the base
		}
		switch p.What {
		case "corrupt":
			b = append(b, 7, 7)
			fail = true
		case "truncated":
			b = b[:len(b)/2]
			fail = true
		}
		mustWrite(filepath.Join(dir, fn), b)
		if fail {
			soft = done && len(want) == 0
			break // the rest of the command line is not reached
		}
		done = true
		for k := range s {
			delete(want, K{k[0] + p.Off[0], k[1] + p.Off[1], k[2] + p.Off[2]})
		}
	}
	before, _ := os.ReadFile(out)
	old := snapshot(dir)
	r := c.Run(dir, c.Cmd("cmd/voxcut"), args...)
	if r.Hung {
		return "", fmt.Errorf("voxcut hangs")
	}
	after, err := os.ReadFile(out)
	if v.Out != "" && after != nil && bytes.Equal(before, after) {
		err = os.ErrNotExist // nothing was written
	} else if v.Out != "" && before != nil && err != nil {
		return "", fmt.Errorf("voxcut %v removes its input", args)
	}
	_, errSTL := os.Stat(filepath.Join(dir, "out.stl"))
	_, errVOX := os.Stat(filepath.Join(dir, "out.vox"))
	if fail && !(soft && r.Code == 0) {
		if r.Code == 0 {
			return "", fmt.Errorf("voxcut %v should fail", args)
		}
		for f, b := range snapshot(dir) {
			if b != old[f] && (old[f] != "" || f == bv || f == "out.stl" || f == "out.vox") {
				return "", fmt.Errorf("voxcut %v fails but changes %s", args, f)
			}
		}
		return "refused", nil
	}
	if len(want) == 0 {
		// nothing is left: no file, or one without any voxel
		if err == nil && !v.NoBV {
			_, s, e := decodeBinvox(mustRead(out))
			if e == nil && len(s) > 0 {
				return "", fmt.Errorf("voxcut %v leaves %v, want nothing", args, s.keys())
			}
		}
		if errSTL == nil && v.STL {
			if ts, e := readSTL(filepath.Join(dir, "out.stl")); e == nil && len(ts) > 0 {
				return "", fmt.Errorf("voxcut %v writes %d triangles, want nothing", args, len(ts))
			}
		}
		if errVOX == nil && v.VOX {
			if _, s, e := decodeVOX(mustRead(filepath.Join(dir, "out.vox"))); e != nil || len(s) > 0 {
				return "", fmt.Errorf("voxcut %v leaves a vox file with %d voxels (%v), want nothing", args, len(s), e)
			}
		}
		return "nothing left", nil
	}
	if r.Code != 0 {
		return "", fmt.Errorf("voxcut %v: exit %d: %.600s", args, r.Code, r.Stderr)
	}
	if !v.NoBV {
		if err != nil && v.Out == "" {
			return "", fmt.Errorf("voxcut %v writes nothing", args)
		}
		h, got, err := decodeBinvox(mustRead(out))
		if err != nil {
			return "", fmt.Errorf("output: %v", err)
		}
		g := Set{}
		for k := range got {
			g[K{k[0] + v.S[0], k[1] + v.S[1], k[2] + v.S[2]}] = true
		}
		if err := diff(g, want); err != nil {
			return "", fmt.Errorf("voxcut %v: %v", args, err)
		}
		if h.T != v.T {
			return "", fmt.Errorf("translation %v, want %v", h.T, v.T)
		}
	}
	if v.STL {
		ts, err := readMesh(filepath.Join(dir, "out.stl"))
		if err != nil {
			return "", err
		}
		for i := range ts {
			for j := range ts[i] {
				for a := 0; a < 3; a++ {
					ts[i][j][a] = (ts[i][j][a] - v.T[a]) * v.VPMM
				}
			}
		}
		how := "voxel"
		if v.Mani {
			how = "manifold"
		}
		if err := checkMesh(ts, want, how); err != nil {
			return "", fmt.Errorf("voxcut %v: %v", args, err)
		}
	}
	if v.VOX {
		_, got, err := decodeVOX(mustRead(filepath.Join(dir, "out.vox")))
		if err != nil {
			return "", err
		}
		g := Set{}
		for k := range got {
			g[K{k[0] + v.S[0], k[1] + v.S[1], k[2] + v.S[2]}] = true
		}
		if err := diff(g, want); err != nil {
			return "", fmt.Errorf("voxcut %v: vox file: %v", args, err)
		}
	}
	return want.hash(), nil
}

// genCuts yields every case also with outputs that exist already.
func genCuts(c *hx.Ctx, yield func(cutCase) bool) {
	genFreshCuts(c, func(v cutCase) bool {
		if !yield(v) {
			return false
		}
		if max(v.N[0], v.N[1], v.N[2]) <= 256 {
			v.Stale, v.VOX = true, true
			return yield(v)
		}
		return true
	})
}

func genFreshCuts(c *hx.Ctx, yield func(cutCase) bool) {
	axis := func(a, n int) K {
		k := K{1, 1, 1}
		k[a] = n
		return k
	}
	at := func(a, n int) K {
		var k K
		k[a] = n
		return k
	}
	// every base and cut of a row of voxels, every offset, every window
	type win struct{ s, c int }
	wins := []win{{0, 0}, {1, 1}, {1, 0}, {0, 2}, {2, 5}}
	if c.Thorough() {
		wins = nil
		for s := 0; s < 4; s++ {
			for n := 0; n < 5; n++ {
				wins = append(wins, win{s, n})
			}
		}
	}
	for a := 0; a < 3; a++ {
		for b := uint64(1); b < 8; b++ {
			for x := uint64(1); x < 8; x++ {
				for off := -4; off <= 4; off++ {
					for _, w := range wins {
						v := cutCase{N: axis(a, 3), Bits: b, S: at(a, w.s), C: at(a, w.c), T: V3{-2, 3.5, 0.25}, VPMM: 4,
							Cuts: []cutPiece{{N: axis(a, 3), Bits: x, Off: at(a, off)}}}
						if !yield(v) {
							return
						}
					}
				}
			}
		}
	}
	// solid and patterned blocks at all offsets, with cuts larger and smaller than the base
	for _, p := range []struct {
		n, m K
		b, x uint64
	}{{K{2, 3, 2}, K{2, 2, 3}, 0xfff, 0xfff}, {K{2, 3, 2}, K{1, 3, 2}, 0xb6d, 0x2d}, {K{2, 2, 3}, K{3, 2, 2}, 0xdab, 0x9b7}} {
		for dx := -3; dx <= 3; dx++ {
			for dy := -3; dy <= 3; dy++ {
				for dz := -3; dz <= 3; dz++ {
					for w, win := range [][2]K{{{}, {}}, {{1, 1, 0}, {1, 2, 1}}, {{0, 1, 1}, {}}} {
						v := cutCase{N: p.n, Bits: p.b, S: win[0], C: win[1], T: V3{-80, -80, -2.5}, VPMM: 2, STL: w == 0,
							Cuts: []cutPiece{{N: p.m, Bits: p.x, Off: K{dx, dy, dz}}}}
						if !yield(v) {
							return
						}
					}
				}
			}
		}
	}
	// inexact resolutions and translations
	for _, vpmm := range []float64{51.2, 10, 3, 0.3, 1. / 7} {
		for _, t := range []V3{{0, 0, 0}, {-80.1, 0.3, 2.6}, {1e3 / 3, -1e-3, 7.7}, {123456.7, -98765.3, 54321.1}} {
			for off := -5; off <= 5; off++ {
				for a := 0; a < 3; a++ {
					v := cutCase{N: K{3, 3, 3}, Bits: 1<<27 - 1, T: t, VPMM: vpmm, Cuts: []cutPiece{{N: K{4, 4, 4}, Bits: 0xe1c3_5a96_7b2d_8f14, Off: at(a, off)}}}
					if !yield(v) {
						return
					}
				}
			}
		}
	}
	// voxels of another size, which must be refused, and of a size that only differs by rounding
	for _, vpmm := range []float64{1, 51.2, 1. / 7} {
		for _, size := range []float64{0.01, 0.5, 2. / 3, 1.5, 2, 100, 1 - 1e-9, 1 + 1e-9, 1 - 1e-6, 1 + 1e-6} {
			for i, n := range []K{{3, 3, 3}, {4, 3, 2}, {2, 3, 5}, {3, 9, 1}} {
				for w := 0; w < 8; w++ {
					p := cutPiece{N: n, Bits: 1<<(n[0]*n[1]*n[2]) - 1, Off: K{w & 1, w >> 1 & 1, w >> 2 & 1}, Size: size}
					v := cutCase{N: K{5, 5, 5}, Full: true, T: V3{-2, 3.5, 0.25}, VPMM: vpmm, STL: w == 3, VOX: w == 2, Stale: w == 5}
					switch i {
					case 0:
						v.Cuts = []cutPiece{p}
					case 1:
						v.Cuts = []cutPiece{{N: K{2, 2, 1}, Bits: 15}, p}
					case 2:
						v.Cuts = []cutPiece{p, {N: K{2, 2, 1}, Bits: 15}}
					case 3:
						v.Cuts, v.S, v.C = []cutPiece{{What: "missing"}, p}, K{0, 0, 1}, K{4, 4, 2}
					}
					if !yield(v) {
						return
					}
				}
			}
		}
	}
	// every sequence of up to three cuts from a menu
	menu := []cutPiece{
		{What: "missing"},
		{N: K{3, 3, 1}},                               // empty
		{N: K{3, 3, 1}, Bits: 0o111},                  // one row
		{N: K{3, 3, 1}, Bits: 0o707, Off: K{0, 1, 0}}, // shifted
		{N: K{3, 3, 1}, Bits: 0o777, Off: K{9, 0, 0}}, // out of reach
		{N: K{3, 3, 1}, Bits: 0o777},                  // nothing is left
		{What: "corrupt", N: K{3, 3, 1}, Bits: 0o020},
		{What: "truncated", N: K{3, 3, 1}, Bits: 0o020},
	}
	for n := 0; n <= 3; n++ {
		if !tuples(menu, n, func(t []cutPiece) bool {
			v := cutCase{N: K{3, 3, 1}, Bits: 0o776, T: V3{1, 2, 3}, VPMM: 1, Cuts: t, STL: true}
			if !yield(v) {
				return false
			}
			v.NoBV, v.Mani, v.Smooth = true, true, true
			return yield(v)
		}) {
			return
		}
	}
	// the output replaces one of the models
	for _, w := range [][2]K{{{}, {}}, {{1, 0, 0}, {2, 2, 1}}} {
		if !tuples(menu[1:], 2, func(t []cutPiece) bool {
			for _, o := range []string{"base.binvox", "cut0.binvox", "cut1.binvox"} {
				if !yield(cutCase{N: K{3, 3, 1}, Bits: 0o776, T: V3{1, 2, 3}, VPMM: 1, Cuts: t, S: w[0], C: w[1], Out: o, STL: o == "base.binvox"}) {
					return false
				}
			}
			return true
		}) {
			return
		}
	}
	// long and big models: indices and counts beyond 8 and 16 bits
	for a := 0; a < 3; a++ {
		for _, n := range []int{255, 256, 257, 300, 65537, 70000} {
			for _, o := range []int{0, 1, -1, n / 2, 254, 256, -256, n - 1, -n + 1, n} {
				for i, w := range []win{{0, 0}, {n - 2, 2}, {254, 3}, {n / 3, n / 2}} {
					if n > 1000 && (i+o)%2 != 0 && !c.Thorough() {
						continue
					}
					v := cutCase{N: axis(a, n), Full: true, S: at(a, w.s), C: at(a, w.c), T: V3{-2, 3.5, 0.25}, VPMM: 4,
						Cuts: []cutPiece{{N: axis(a, n), Full: true, Off: at(a, o)}}}
					if !yield(v) {
						return
					}
				}
			}
		}
	}
	for _, o := range []K{{}, {1, 1, 1}, {-1, 30, -64}, {40, 0, 3}} {
		if !yield(cutCase{N: K{41, 41, 41}, Full: true, T: V3{}, VPMM: 10, Cuts: []cutPiece{{N: K{42, 41, 65}, Full: true, Off: o}}}) {
			return
		}
	}
	// no cut: every window of a small model, through every output
	n := K{3, 2, 2}
	for s := 0; s < 36; s++ {
		for q := 0; q < 36; q++ {
			v := cutCase{N: n, Bits: 0xe7b, S: K{s % 4, s / 4 % 3, s / 12}, C: K{q % 4, q / 4 % 3, q / 12}, VPMM: 1, STL: true, Mani: q%2 == 1}
			if !yield(v) {
				return
			}
		}
	}
}

// voxOut is one vox file written by voxcut.
type voxOut struct {
	N    K
	Bits uint64
	Vox  []K  `json:",omitempty"` // instead of Bits
	Full bool `json:",omitempty"` // all voxels
	S, C K
}

func (v voxOut) run(c *hx.Ctx) (string, error) {
	dir := c.TmpDir()
	defer os.RemoveAll(dir)
	s := subset(v.N, v.Bits)
	for _, k := range v.Vox {
		s[k] = true
	}
	if v.Full {
		s = full(v.N)
	}
	mustWrite(filepath.Join(dir, "in.binvox"), encodeBinvox(header{v.N, V3{1, 2, 3}, 1}, s))
	lo, hi, ok := readWindow(v.N, v.S, v.C)
	if !ok {
		return "", nil
	}
	want := window(s, lo, K{hi[0] - lo[0], hi[1] - lo[1], hi[2] - lo[2]})
	args := []string{"-ovox", "out.vox", "-sx", fmt.Sprint(v.S[0]), "-sy", fmt.Sprint(v.S[1]), "-sz", fmt.Sprint(v.S[2]),
		"-cx", fmt.Sprint(v.C[0]), "-cy", fmt.Sprint(v.C[1]), "-cz", fmt.Sprint(v.C[2]), "in.binvox"}
	r := c.Run(dir, c.Cmd("cmd/voxcut"), args...)
	big := false
	var top K
	for k := range want {
		for i := 0; i < 3; i++ {
			big = big || k[i] > 255
			top[i] = max(top[i], k[i])
		}
	}
	if big {
		if r.Code == 0 {
			return "", fmt.Errorf("a model of %v voxels does not fit into a vox file, but voxcut succeeds", top)
		}
		return "too big", nil
	}
	if len(want) == 0 {
		return "", nil // an empty model has no vox representation worth judging
	}
	if r.Code != 0 {
		return "", fmt.Errorf("voxcut: exit %d: %.500s", r.Code, r.Stderr)
	}
	size, got, err := decodeVOX(mustRead(filepath.Join(dir, "out.vox")))
	if err != nil {
		return "", err
	}
	if err := diff(got, want); err != nil {
		return "", err
	}
	for i := 0; i < 3; i++ {
		if size[i] <= top[i] || size[i] > 256 {
			return "", fmt.Errorf("the size %v does not hold voxel %v", size, top)
		}
	}
	return got.hash(), nil
}

// decodeVOX decodes a vox file strictly: MAIN around SIZE and XYZI, all byte counts exact.
func decodeVOX(b []byte) (size K, s Set, err error) {
	u32 := func(o int) int { return int(int32(binary.LittleEndian.Uint32(b[o:]))) }
	if len(b) < 20 || string(b[:4]) != "VOX " || u32(4) != 150 {
		return size, nil, fmt.Errorf("bad vox header")
	}
	if string(b[8:12]) != "MAIN" || u32(12) != 0 {
		return size, nil, fmt.Errorf("bad MAIN chunk")
	}
	if u32(16) != len(b)-20 {
		return size, nil, fmt.Errorf("MAIN announces %d bytes of children, the file has %d", u32(16), len(b)-20)
	}
	s = Set{}
	seen := map[string]bool{}
	for o := 20; o < len(b); {
		if o+12 > len(b) {
			return size, nil, fmt.Errorf("torn chunk header")
		}
		id, n, ch := string(b[o:o+4]), u32(o+4), u32(o+8)
		if n < 0 || ch != 0 || o+12+n > len(b) {
			return size, nil, fmt.Errorf("chunk %s of %d bytes does not fit", id, n)
		}
		if seen[id] {
			return size, nil, fmt.Errorf("two %s chunks", id)
		}
		seen[id] = true
		switch id {
		case "SIZE":
			if n != 12 {
				return size, nil, fmt.Errorf("SIZE of %d bytes", n)
			}
			size = K{u32(o + 12), u32(o + 16), u32(o + 20)}
		case "XYZI":
			if !seen["SIZE"] {
				return size, nil, fmt.Errorf("XYZI before SIZE")
			}
			if n < 4 || n != 4+4*u32(o+12) {
				return size, nil, fmt.Errorf("XYZI of %d bytes has %d voxels", n, u32(o+12))
			}
			for p := o + 16; p < o+12+n; p += 4 {
				k := K{int(b[p]), int(b[p+1]), int(b[p+2])}
				if s[k] {
					return size, nil, fmt.Errorf("voxel %v twice", k)
				}
				if b[p+3] == 0 {
					return size, nil, fmt.Errorf("voxel %v has color index 0 (empty)", k)
				}
				s[k] = true
			}
		}
		o += 12 + n
	}
	if !seen["SIZE"] || !seen["XYZI"] {
		return size, nil, fmt.Errorf("SIZE or XYZI is missing")
	}
	return size, s, nil
}

func init() {
	hx.Register(&hx.Check{
		ID: "C14", Level: "model_checking",
		Rule: "cases: calls of the voxcut command: rows of voxels x cuts x offsets x windows on each axis, blocks at all 3D offsets, inexact resolutions, every sequence of up to three cuts from a menu (missing, empty, overlapping, shifted, out of reach, corrupt, truncated), every window without cut, output files that replace the base or a cut, rows of 255 to 70000 voxels on each axis cut at offsets of that size, and blocks of 68921 voxels, each case with and without outputs of an earlier run; non-trivial: every case, the outcome is the resulting voxel set or refusal",
		Setup: func(c *hx.Ctx) func() {
			run := hx.Kind(c, "cut", func(v cutCase) (string, error) { return v.run(c) })
			return func() {
				c.Cmd("cmd/voxcut")
				hx.Each(c, run, func(yield func(cutCase) bool) { genCuts(c, yield) })
			}
		},
		Assumptions: []string{"base and cuts lie on one lattice of equal resolution (documented precondition)"},
	})
	hx.Register(&hx.Check{
		ID: "C15", Level: "model_checking",
		Rule: "cases: vox files written by voxcut for all voxel sets of small grids, all windows of a grid, and models whose indices reach the limits of the format (0, 1, 127, 128, 255, 256, 300) on each axis with windows that bring them into range, and full blocks of up to 131072 voxels; the file is decoded strictly; non-trivial: non-empty models",
		Setup: func(c *hx.Ctx) func() {
			run := hx.Kind(c, "vox", func(v voxOut) (string, error) { return v.run(c) })
			return func() {
				c.Cmd("cmd/voxcut")
				hx.Each(c, run, func(yield func(voxOut) bool) {
					for _, n := range []K{{2, 2, 2}, {3, 2, 1}, {1, 3, 2}, {2, 1, 3}} {
						for b := uint64(1); b < 1<<uint(n[0]*n[1]*n[2]); b++ {
							if !yield(voxOut{N: n, Bits: b}) {
								return
							}
						}
					}
					n := K{3, 3, 2}
					for s := 0; s < 18; s++ {
						for q := 0; q < 36; q++ {
							if !yield(voxOut{N: n, Bits: 0x2f5bd, S: K{s % 3, s / 3 % 3, s / 9}, C: K{q % 4, q / 4 % 3, q / 12}}) {
								return
							}
						}
					}
					edge := []int{0, 1, 127, 128, 254, 255, 256, 299}
					for a := 0; a < 3; a++ {
						n := K{2, 2, 2}
						n[a] = 300
						for i := range edge {
							for j := i; j < len(edge); j++ {
								for _, st := range []int{0, 44, 200, 256} {
									for _, ct := range []int{0, 100, 256} {
										var k, l, s, q K
										k[a], l[a], s[a], q[a] = edge[i], edge[j], st, ct
										l[(a+1)%3] = 1
										if !yield(voxOut{N: n, Vox: []K{k, l}, S: s, C: q}) {
											return
										}
									}
								}
							}
						}
					}
					// many voxels in one file: at the limits of 8, 14, 15 and 16 bits
					for _, n := range []K{{256, 2, 2}, {5, 51, 1}, {64, 256, 1}, {16, 2, 256}, {127, 129, 1}, {2, 128, 128}, {256, 256, 1}, {129, 2, 254}, {2, 256, 256}} {
						if !yield(voxOut{N: n, Full: true}) {
							return
						}
					}
				})
			}
		},
	})
}
