package checks

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"stldiceverif/hx"
)

// diceCase is one run of the stldice command. Solids are in millimeters.
type diceCase struct {
	Base   []solid
	Cuts   [][]solid `json:",omitempty"`
	MBB    *[2]V3    `json:",omitempty"`
	Dim    int
	N      K
	Diag   int      `json:",omitempty"`
	Dir    string   `json:",omitempty"` // directory of the STL files
	Script bool     `json:",omitempty"` // also run the printed script
	Smooth bool     `json:",omitempty"`
	Bin    bool     `json:",omitempty"` // binary STL files
	Names  []string `json:",omitempty"` // names of the STL files
	Fmt    string   `json:",omitempty"` // how -mbb is written, if not as the usage shows
	Refuse bool     `json:",omitempty"` // -mbb is malformed, or a number not positive
}

// files writes the STL files and returns their names, base first.
func (v diceCase) files(dir string) []string {
	var out []string
	write := func(name string, solids []solid) {
		var ts []tri
		for _, s := range solids {
			ts = append(ts, s.tris(v.Diag)...)
		}
		fn := filepath.Join(v.Dir, name+".stl")
		if v.Names != nil {
			fn = v.Names[len(out)]
		}
		os.MkdirAll(filepath.Join(dir, filepath.Dir(fn)), 0o755)
		if v.Bin {
			mustWrite(filepath.Join(dir, fn), binarySTL(ts))
		} else {
			mustWrite(filepath.Join(dir, fn), asciiSTL(ts))
		}
		out = append(out, fn)
	}
	write("base", v.Base)
	for i, c := range v.Cuts {
		write(fmt.Sprintf("cut%d", i), c)
	}
	return out
}

func (v diceCase) args(files []string) []string {
	a := []string{"-dim", fmt.Sprint(v.Dim), "-nx", fmt.Sprint(v.N[0]), "-ny", fmt.Sprint(v.N[1]), "-nz", fmt.Sprint(v.N[2])}
	if v.MBB != nil {
		m := *v.MBB
		f := "(%s,%s,%s)-(%s,%s,%s)"
		if v.Fmt != "" {
			f = v.Fmt
		}
		a = append(a, "-mbb", fmt.Sprintf(f, ff(m[0][0]), ff(m[0][1]), ff(m[0][2]), ff(m[1][0]), ff(m[1][1]), ff(m[1][2])))
	}
	if v.Smooth {
		a = append(a, "-smooth", "150")
	}
	return append(a, files...)
}

// grid returns the bounding box, the resolution and the dimensions of the whole model.
func (v diceCase) grid() (lo, hi V3, vpmm float64, n K) {
	if v.MBB != nil {
		lo, hi = v.MBB[0], v.MBB[1]
	} else {
		lo, hi = V3{1e9, 1e9, 1e9}, V3{-1e9, -1e9, -1e9}
		for _, s := range v.Base {
			for _, t := range s.tris(0) {
				for _, p := range t {
					for a := 0; a < 3; a++ {
						lo[a], hi[a] = math.Min(lo[a], p[a]), math.Max(hi[a], p[a])
					}
				}
			}
		}
	}
	vpmm = float64(v.Dim) / math.Max(hi[0]-lo[0], math.Max(hi[1]-lo[1], hi[2]-lo[2]))
	for a := 0; a < 3; a++ {
		n[a] = int(math.Ceil((hi[a]-lo[a])*vpmm - 1e-6))
	}
	return lo, hi, vpmm, n
}

// cell judges a voxel of boxes: whether it must and whether it may be set.
func boxCell(solids []solid, lo V3, vpmm float64, k K) (must, may bool) {
	const e = 1e-6
	for _, s := range solids {
		b := [2]V3{{s.Poly[0][0], s.Poly[0][1], s.Z[0]}, {s.Poly[2][0], s.Poly[2][1], s.Z[1]}}
		mu, ma := true, true
		for a := 0; a < 3; a++ {
			l, h := (b[0][a]-lo[a])*vpmm, (b[1][a]-lo[a])*vpmm
			c0, c1 := float64(k[a]), float64(k[a]+1)
			if a == 2 {
				c0, c1 = c0+0.5, c0+0.5
			}
			mu = mu && l < c1-e && h > c0+e
			ma = ma && l <= c1+e && h >= c0-e
		}
		must, may = must || mu, may || ma
	}
	return must, may
}

var tileRE = regexp.MustCompile(`^(\d+)-(\d+)-(\d+)-(\d+)-(\d+)-(\d+)-(\d+)$`)

// tiles reads the tiles of a model and returns their union in indices of the whole model.
func (v diceCase) tiles(dir, stl string, old map[string]time.Time) (Set, error) {
	lo, _, vpmm, _ := v.grid()
	pre := strings.TrimSuffix(filepath.Base(stl), ".stl") + "-"
	ents, err := os.ReadDir(filepath.Join(dir, filepath.Dir(stl)))
	if err != nil {
		return nil, err
	}
	union := Set{}
	type where struct{ idx, at K }
	var seen []where
	for _, e := range ents {
		name, ok := strings.CutPrefix(e.Name(), pre)
		if !ok {
			continue
		}
		if t, ok := old[filepath.Join(dir, filepath.Dir(stl), e.Name())]; ok && (!strings.HasSuffix(name, ".binvox") || !strings.HasPrefix(name, fmt.Sprintf("%d-%d-%d-%d-", v.Dim, v.N[0], v.N[1], v.N[2]))) {
			if fi, err := e.Info(); err != nil || !fi.ModTime().Equal(t) {
				return nil, fmt.Errorf("%q of an earlier run is changed", e.Name())
			}
			continue
		}
		name, ok = strings.CutSuffix(name, ".binvox")
		if !ok {
			return nil, fmt.Errorf("unexpected file %q", e.Name())
		}
		p := tileRE.FindStringSubmatch(name)
		if p == nil {
			return nil, fmt.Errorf("unexpected tile name %q", e.Name())
		}
		var q [7]int
		for i := range q {
			q[i], _ = strconv.Atoi(p[i+1])
		}
		idx := K{q[4], q[5], q[6]}
		if q[0] != v.Dim || (K{q[1], q[2], q[3]}) != v.N || idx[0] >= v.N[0] || idx[1] >= v.N[1] || idx[2] >= v.N[2] {
			return nil, fmt.Errorf("tile name %q does not fit", e.Name())
		}
		h, s, err := decodeBinvox(mustRead(filepath.Join(dir, filepath.Dir(stl), e.Name())))
		if err != nil {
			return nil, fmt.Errorf("%s: %v", e.Name(), err)
		}
		if len(s) == 0 {
			return nil, fmt.Errorf("%s has no voxels", e.Name())
		}
		if r := float64(max(h.N[0], h.N[1], h.N[2])) / h.Scale; math.Abs(r-vpmm) > 1e-9*vpmm {
			return nil, fmt.Errorf("%s has %v voxels per mm, want %v", e.Name(), r, vpmm)
		}
		var o K
		for a := 0; a < 3; a++ {
			f := (h.T[a] - lo[a]) * vpmm
			o[a] = int(math.Round(f))
			if math.Abs(f-float64(o[a])) > 1e-6 {
				return nil, fmt.Errorf("%s is off the lattice of the model by %v voxels", e.Name(), f-float64(o[a]))
			}
		}
		for k := range s {
			w := K{k[0] + o[0], k[1] + o[1], k[2] + o[2]}
			if union[w] {
				return nil, fmt.Errorf("%s: voxel %v of the model lies in two tiles", e.Name(), w)
			}
			union[w] = true
		}
		for _, t := range seen {
			for a := 0; a < 3; a++ {
				if (idx[a] < t.idx[a]) != (o[a] < t.at[a]) || (idx[a] > t.idx[a]) != (o[a] > t.at[a]) {
					return nil, fmt.Errorf("%s: tile %v starts at %v but tile %v at %v", e.Name(), idx, o, t.idx, t.at)
				}
			}
		}
		seen = append(seen, where{idx, o})
	}
	return union, nil
}

func allBoxes(s []solid) bool {
	for _, b := range s {
		if b.Tet != nil || !isRect(b.Poly) || b.Mid != 0 {
			return false
		}
	}
	return true
}

// judge compares the union of the tiles of one mesh with the model.
func (v diceCase) judge(solids []solid, got Set) error {
	lo, _, vpmm, n := v.grid()
	if !allBoxes(solids) {
		w := voxCase{VPMM: vpmm, T: lo, N: n, Diag: v.Diag}
		var ts []tri
		for _, s := range solids {
			ts = append(ts, s.tris(v.Diag)...)
		}
		bv := w.region(K{}, n)
		if err := bv.Voxelize(toMesh(ts, 0)); err != nil {
			return err
		}
		in := Set{}
		for k := range got {
			if k[0] < n[0] && k[1] < n[1] && k[2] < n[2] {
				in[k] = true
			}
		}
		return diff(in, fromBV(bv))
	}
	for _, k := range box(n) {
		if must, _ := boxCell(solids, lo, vpmm, k); must && !got[k] {
			return fmt.Errorf("voxel %v of the model (%v voxels) is missing", k, n)
		}
	}
	for k := range got {
		if _, may := boxCell(solids, lo, vpmm, k); !may {
			return fmt.Errorf("voxel %v is set but the model (%v voxels) does not reach it", k, n)
		}
	}
	return nil
}

func (v diceCase) run(c *hx.Ctx) (string, error) {
	dir := c.TmpDir()
	defer os.RemoveAll(dir)
	return v.runIn(c, dir)
}

// diceHistory is a sequence of runs in one directory, each followed by its script.
type diceHistory []diceCase

func (h diceHistory) run(c *hx.Ctx) (string, error) {
	dir := c.TmpDir()
	defer os.RemoveAll(dir)
	var out []string
	for i, v := range h {
		o, err := v.runIn(c, dir)
		if err != nil {
			return "", fmt.Errorf("run %d of %d: %v", i+1, len(h), err)
		}
		out = append(out, o)
	}
	return strings.Join(out, ";"), nil
}

func genDiceHistories(c *hx.Ctx, yield func(diceHistory) bool) {
	a := []solid{boxSolid(0, 0, 0, 10, 10, 10)}
	b := []solid{boxSolid(0, 0, 0, 4, 10, 7)}
	cuts := map[string][]solid{
		"hole": {boxSolid(6.5, 2.5, -1, 9.5, 6.5, 9)}, "half": {boxSolid(-5, -5, -5, 5, 20, 20)}, "all": {boxSolid(-1, -1, -1, 11, 11, 11)}, "slab": {boxSolid(-1, -1, 2.5, 11, 11, 11)},
	}
	var confs []diceCase
	for _, n := range []K{{1, 1, 1}, {1, 1, 10}, {2, 1, 1}, {2, 1, 10}} {
		for _, w := range [][]string{{"a"}, {"a", "hole"}, {"a", "half"}, {"a", "all"}, {"a", "slab", "hole"}, {"b"}, {"b", "half"}, {"b", "hole"}} {
			v := diceCase{Base: a, Dim: 10, N: n, MBB: &[2]V3{{0, 0, 0}, {10, 10, 10}}, Script: true}
			if w[0] == "b" {
				v.Base = b
			}
			for _, x := range w {
				v.Names = append(v.Names, x+".stl")
			}
			for _, x := range w[1:] {
				v.Cuts = append(v.Cuts, cuts[x])
			}
			confs = append(confs, v)
		}
	}
	for i, v := range confs {
		for j, w := range confs {
			if !c.Thorough() && v.N[0] != w.N[0] {
				continue
			}
			h := diceHistory{v, w}
			if c.Thorough() {
				h = append(h, confs[(i+j)%len(confs)])
			}
			if !yield(h) {
				return
			}
		}
	}
}

// stamps tells when each file of a directory was changed.
func stamps(dir string) map[string]time.Time {
	out := map[string]time.Time{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			out[p] = fi.ModTime()
		}
		return nil
	})
	return out
}

func (v diceCase) runIn(c *hx.Ctx, dir string) (string, error) {
	files := v.files(dir)
	args := v.args(files)
	old := stamps(dir)
	r := c.Run(dir, c.Cmd("cmd/stldice"), args...)
	if r.Hung {
		return "", fmt.Errorf("stldice hangs")
	}
	if v.Refuse {
		if r.Code == 0 {
			return "", fmt.Errorf("stldice %q accepts a malformed -mbb or a number that is not positive", args)
		}
		if m, _ := filepath.Glob(filepath.Join(dir, "*.binvox")); len(m) > 0 {
			return "", fmt.Errorf("stldice %q writes tiles for a malformed -mbb or a number that is not positive", args)
		}
		return "refused", nil
	}
	_, _, _, n := v.grid()
	for a := 0; a < 3; a++ {
		if v.Dim%v.N[a] != 0 || n[a] < v.N[a] {
			if r.Code == 0 {
				return "", fmt.Errorf("stldice %v accepts %v divisions of %v voxels", args, v.N, n)
			}
			return "refused", nil
		}
	}
	if r.Code != 0 {
		return "", fmt.Errorf("stldice %v: exit %d: %.500s", args, r.Code, r.Stderr)
	}
	var sets []Set
	for i, f := range files {
		s, err := v.tiles(dir, f, old)
		if err != nil {
			return "", fmt.Errorf("stldice %v: %v", args, err)
		}
		solids := v.Base
		if i > 0 {
			solids = v.Cuts[i-1]
		}
		if err := v.judge(solids, s); err != nil {
			return "", fmt.Errorf("stldice %v: %s: %v", args, f, err)
		}
		sets = append(sets, s)
	}
	out := fmt.Sprint(len(r.Stdout))
	for _, s := range sets {
		out += "," + s.hash()
	}
	if !v.Script {
		return out, nil
	}
	want := Set{}
	for k := range sets[0] {
		want[k] = true
	}
	for _, s := range sets[1:] {
		for k := range s {
			delete(want, k)
		}
	}
	mustWrite(filepath.Join(dir, "script.sh"), []byte(r.Stdout))
	before := stamps(dir)
	c.Cmd("cmd/merge-stl")
	sr := c.RunShell(dir, filepath.Dir(c.Cmd("cmd/voxcut")), "script.sh")
	if sr.Hung {
		return "", fmt.Errorf("the script hangs")
	}
	if len(want) == 0 {
		return out, nil
	}
	pre := "out"
	if len(files) == 1 {
		pre = strings.TrimSuffix(files[0], ".stl")
	}
	common := fmt.Sprintf("%s-%d-%d-%d-%d", pre, v.Dim, v.N[0], v.N[1], v.N[2])
	res := filepath.Join(dir, common+".stl")
	if fi, err := os.Stat(res); err != nil || fi.ModTime().Equal(before[res]) { // a single tile is not merged
		var m []string
		for p, t := range stamps(dir) {
			if strings.HasPrefix(p, filepath.Join(dir, common)+"-") && strings.HasSuffix(p, ".stl") && !t.Equal(before[p]) {
				m = append(m, p)
			}
		}
		if len(m) != 1 {
			return "", fmt.Errorf("the script writes no %s and %d tiles: %.600s", common+".stl", len(m), sr.Stderr)
		}
		res = m[0]
	}
	ts, err := readSTL(res)
	if err != nil {
		return "", err
	}
	lo, _, vpmm, _ := v.grid()
	for i := range ts {
		for j := range ts[i] {
			for a := 0; a < 3; a++ {
				ts[i][j][a] = (ts[i][j][a] - lo[a]) * vpmm
			}
		}
	}
	if err := checkMesh(ts, want, "voxel"); err != nil {
		return "", fmt.Errorf("stldice %v: result of the script: %v", args, err)
	}
	return out + ",script", nil
}

func genDice(c *hx.Ctx, yield func(diceCase) bool) {
	pal := func(x, y, z float64) []solid { return []solid{boxSolid(0.5, -1.25, 2, 0.5+x, -1.25+y, 2+z)} }
	// every number of divisions, for models whose dimensions are no multiples of it
	sizes := []V3{{8, 8, 8}, {8, 5, 3}, {3, 8, 5}, {5, 3, 8}, {6, 4.25, 2.75}, {7, 7, 1.25}}
	dimsQ := []int{4, 6, 12}
	if c.Thorough() {
		dimsQ = []int{1, 2, 4, 6, 12, 24}
	}
	for _, sz := range sizes {
		for _, d := range dimsQ {
			for nx := 1; nx <= 4; nx++ {
				for ny := 1; ny <= 4; ny++ {
					for nz := 1; nz <= 4; nz++ {
						if !c.Thorough() && (nx*5+ny*3+nz)%3 != 0 && d != 6 {
							continue
						}
						if !yield(diceCase{Base: pal(sz[0], sz[1], sz[2]), Dim: d, N: K{nx, ny, nz}, Bin: (nx+ny+nz)%2 == 0}) {
							return
						}
					}
				}
			}
		}
	}
	// a last layer of voxels that the model hardly reaches into
	for _, sz := range []V3{{8, 4 + 1./2048, 3}, {3 + 1./2048, 8, 4}, {2 + 1./4096, 2 + 1./2048, 8}} {
		for _, n := range []K{{1, 1, 1}, {3, 1, 1}, {1, 3, 2}, {2, 5, 1}} {
			if !yield(diceCase{Base: pal(sz[0], sz[1], sz[2]), Dim: 8, N: K{min(n[0], int(sz[0])), min(n[1], int(sz[1])+1), n[2]}}) {
				return
			}
		}
	}
	// a given bounding box: larger than the model, cropping it, and of another shape
	for i, m := range []([2]V3){{{0, 0, 0}, {8, 8, 8}}, {{-3, -2, -1}, {5, 6, 7}}, {{1.5, 1.25, 0.75}, {4, 6, 3}}, {{-8, 0, 0}, {0, 2, 5}}, {{0, 0, 0}, {6, 4, 3}}, {{-4, -4, -2.6}, {4, 4, 0.6}}} {
		m := m
		for _, d := range []int{6, 8, 12} {
			for nn := 0; nn < 27; nn++ {
				n := K{nn%3 + 1, nn / 3 % 3, nn/9 + 1}
				n[1]++
				if !c.Thorough() && (nn+i+d)%2 == 0 {
					continue
				}
				if !yield(diceCase{Base: []solid{boxSolid(-3.3, 0.4, -2.2, 2.7, 4.6, 2.9), boxSolid(3.1, 0.4, 0.3, 4.9, 5.2, 4.4)}, MBB: &m, Dim: d, N: n}) {
					return
				}
			}
		}
	}
	// other spellings of the bounding box, and malformed ones
	for _, f := range []string{"[%s,%s,%s]-[%s,%s,%s]", " ( %s , %s , %s ) - ( %s , %s , %s ) ", "%s,%s,%s - %s,%s,%s", "(%s, %s, %s)-(%s, %s, %s)"} {
		for _, m := range []([2]V3){{{0, 0, 0}, {8, 4, 6}}, {{-3, -2, -1}, {5, 6, 7}}, {{-8, -6, -4}, {-0.5, 2, 4}}} {
			m := m
			if !yield(diceCase{Base: pal(3, 4, 5), MBB: &m, Dim: 8, N: K{2, 1, 2}, Fmt: f}) {
				return
			}
		}
	}
	// sizes and divisions that make no tiles
	for _, d := range []int{-8, 0, 8} {
		for _, x := range []int{-8, -2, -1, 0, 1} {
			for _, y := range []int{-8, -1, 0, 1} {
				for _, z := range []int{-2, 0, 1} {
					if d > 0 && x > 0 && y > 0 && z > 0 {
						continue
					}
					if !yield(diceCase{Base: pal(3, 4, 5), Dim: d, N: K{x, y, z}, Refuse: true}) {
						return
					}
				}
			}
		}
	}
	for i := 0; i < 6; i++ {
		for _, bad := range []string{"x", "1.2.3", "--1", "1e", ""} {
			q := []string{"0", "0", "0", "8", "8", "8"}
			q[i] = bad
			f := fmt.Sprintf("(%s,%s,%s)-(%s,%s,%s)", q[0], q[1], q[2], q[3], q[4], q[5]) + strings.Repeat("%.0s", 6)
			if !yield(diceCase{Base: pal(3, 4, 5), MBB: &[2]V3{}, Dim: 8, N: K{1, 1, 1}, Fmt: f, Refuse: true}) {
				return
			}
		}
	}
	for _, f := range []string{"x%.0s%.0s%.0s%.0s%.0s%.0s", "(%s,%s,%s)%.0s%.0s%.0s", "(%s,%s)-(%s,%s)%.0s%.0s", "(%s,%s,%s)(%s,%s,%s)"} {
		if !yield(diceCase{Base: pal(3, 4, 5), MBB: &[2]V3{{}, {8, 8, 8}}, Dim: 8, N: K{1, 1, 1}, Fmt: f, Refuse: true}) {
			return
		}
	}
	// cuts and the printed script
	base := []solid{boxSolid(0, 0, 0, 8, 8, 4)}
	menu := [][]solid{
		{boxSolid(1, 1, -1, 3, 3, 9)},                              // a hole
		{boxSolid(-2, 3.5, 1.2, 9, 4.5, 2.8)},                      // a channel through the whole
		{boxSolid(-5, -5, -5, 4.2, 20, 20)},                        // half of it
		{boxSolid(20, 20, 20, 22, 22, 22)},                         // elsewhere
		{boxSolid(4.3, 4.3, -1, 7.7, 7.7, 9)},                      // a hole in the last tile
		{boxSolid(-1, -1, -1, 9, 9, 9)},                            // everything
		{{Poly: []P2{{1, 1}, {7, 2}, {3, 6}}, Z: P2{-1, 9}}},       // a triangle
		{boxSolid(0, 0, 0, 2, 2, 2), boxSolid(5, 5, 2, 9, 9, 4.5)}, // two bodies
	}
	for _, n := range []K{{1, 1, 1}, {2, 1, 1}, {1, 2, 2}, {2, 2, 1}, {4, 2, 2}} {
		for nc := 0; nc <= 2; nc++ {
			stop := false
			tuples(menu, nc, func(t [][]solid) bool {
				if nc == 2 && !c.Thorough() && n != (K{2, 2, 1}) && n != (K{1, 2, 2}) {
					return true
				}
				v := diceCase{Base: base, Cuts: t, Dim: 8, N: n, Script: true}
				if nc == 1 {
					v.Dir = "models"
				}
				stop = !yield(v)
				return !stop
			})
			if stop {
				return
			}
		}
	}
	for _, d := range []string{"", "in.stl.d", "./x"} {
		for _, n := range []K{{1, 1, 1}, {2, 3, 1}, {3, 3, 3}} {
			for i, sz := range sizes {
				if !yield(diceCase{Base: pal(sz[0], sz[1], sz[2]), Dim: 6, N: n, Script: true, Dir: d, Smooth: i == 1}) {
					return
				}
			}
		}
	}
	// names of files that differ only in a part, or not at all
	for _, n := range [][]string{
		{"part.1.stl", "part.2.stl"}, {"a.b/x.stl", "a.c/x.stl"}, {"a/x.stl", "b/x.stl"}, {"x.stl", "X.stl"}, {"base.stl", "base.stl.stl"}, {"base.stl.stl", "base.stl"},
		{"model", "model.bin"}, {"a.STL", "a.stl"}, {"out.stl", "cut.stl"}, {"cut.stl", "out.stl"}, {"./x.stl", ".//y.stl"}, {"v1.0-8-1-1.stl", "v2.0-8-1-1.stl"}, {"m.stlx", "m.stl"},
		{"x..stl", "..x.stl"}, {"test.stl", "tool.stl"}, {"still.stl"}, {"l.stl", "tl.stl", "stl.stl"}, {"sl", "s.stl"}, {"%d.stl", "%v%s.stl"}, {"a.stl", "b.stl", "a.stl"}, {"my model.stl", "the cut.stl"}, {"it's.stl", "$HOME.stl"}, {"a&b.stl", "`x`.stl"}, {"#1.stl", "(2).stl"}, {"a*.stl", "a?.stl"}, {"x;y.stl", "x|y.stl"}, {"\"q\".stl", "b\\c.stl"},
		{"~.stl", "!.stl"}, {"a [1].stl", "{b,c}.stl"}, {"d e/f g.stl", "é <1>.stl"}, {"[x].stl"}, {"a*b?.stl"}, {"b\\c.stl"}, {"m (1).stl"}, {"0.1.2.stl", "0.1.3.stl", "0.2.stl"},
	} {
		for _, k := range []K{{1, 1, 1}, {2, 1, 1}, {2, 2, 1}} {
			for i := range menu {
				v := diceCase{Base: base, Dim: 8, N: k, Names: n, Script: true, Bin: i%2 == 0}
				for j := 1; j < len(n); j++ {
					v.Cuts = append(v.Cuts, menu[(i+j-1)%len(menu)])
				}
				if len(n) > 1 && n[len(n)-1] == n[0] {
					v.Cuts[len(v.Cuts)-1] = base
				}
				if !yield(v) {
					return
				}
			}
		}
	}
	// sloped surfaces at dyadic resolutions, against the whole model in one piece
	tet := [4]V3{{0, 0, 0}, {8, 1, 0.5}, {2, 8, 1}, {3, 2, 4}}
	// few triangles, away from the origin, with the bounding box of the file
	for _, o := range []V3{{16, 16, 16}, {-24, 8, -16}, {4, -16, -32}} {
		var t [4]V3
		for i := range t {
			for a := 0; a < 3; a++ {
				t[i][a] = tet[i][a] + o[a]
			}
		}
		t[2][0] = o[0] // the box is 8 x 8 x 4 mm
		for _, d := range []int{4, 8, 16} {
			for _, n := range []K{{1, 1, 1}, {2, 1, 1}, {1, 2, 2}, {2, 2, 1}} {
				for _, bin := range []bool{false, true} {
					if !yield(diceCase{Base: []solid{{Tet: &t}}, Dim: d, N: n, Bin: bin, Smooth: bin}) {
						return
					}
				}
			}
		}
	}
	// large models, many tiles, many triangles
	var many []solid
	for i := 0; i < 90; i++ {
		x, y := float64(i%10), float64(i/10)
		many = append(many, boxSolid(x+0.125, y+0.1875, 0.0625*x, x+0.6875, y+0.625, 1+0.125*y))
	}
	wide := []solid{boxSolid(0, 0, 0, 8, 2, 1)}
	for i, v := range []diceCase{
		{Base: pal(8, 7, 6), Dim: 200, N: K{1, 1, 1}}, {Base: pal(8, 7, 6), Dim: 200, N: K{5, 2, 4}, Bin: true}, {Base: pal(6, 8, 7), Dim: 258, N: K{3, 2, 1}},
		{Base: pal(1, 1, 8), Dim: 512, N: K{1, 1, 2}}, {Base: pal(1, 8, 1), Dim: 512, N: K{1, 2, 1}}, {Base: pal(8, 1, 1), Dim: 1024, N: K{2, 1, 1}},
		{Base: wide, Dim: 240, N: K{120, 1, 1}}, {Base: pal(0.5, 8, 1), Dim: 303, N: K{1, 101, 1}}, {Base: pal(1, 0.5, 8), Dim: 1010, N: K{1, 1, 101}},
		{Base: many, Dim: 160, N: K{2, 2, 1}}, {Base: many, Dim: 160, N: K{1, 1, 1}, Bin: true}, {Base: many, Dim: 96, N: K{8, 8, 8}, Cuts: [][]solid{wide}},
		{Base: wide, Cuts: [][]solid{many}, Dim: 128, N: K{2, 2, 2}, Script: true}, {Base: many, Cuts: [][]solid{wide}, Dim: 80, N: K{4, 4, 1}, Script: true},
		{Base: pal(8, 3, 5), Dim: 64, N: K{2, 1, 2}, Script: true}, {Base: wide, Dim: 120, N: K{40, 1, 1}, Script: true},
	} {
		v.Diag = i * 37
		if !yield(v) {
			return
		}
	}
	for _, s := range [][]solid{{{Tet: &tet}}, {{Poly: []P2{{0, 0}, {8, 1}, {7, 8}, {3, 3}, {1, 7}}, Z: P2{0, 4}}}, {{Poly: []P2{{0, 0}, {8, 4}, {0, 8}}, Z: P2{0.25, 3}}, boxSolid(6, 0, 0, 8, 2, 4)}} {
		for _, d := range []int{8, 16, 32} {
			for nn := 0; nn < 36; nn++ {
				n := K{1 << (nn % 3), nn/3%4 + 1, nn/12 + 1}
				if n[1] == 3 || n[2] == 3 {
					continue
				}
				for _, smooth := range []bool{false, true} {
					if !yield(diceCase{Base: s, Dim: d, N: n, MBB: &[2]V3{{0, 0, 0}, {8, 8, 4}}, Smooth: smooth}) {
						return
					}
				}
			}
		}
	}
}

// crashCase: stldice is interrupted at one change of the file system (twice, if N2 > 0), then run again.
type crashCase struct {
	Conf      int
	Have      uint64 // tiles that exist already
	Mode      string // "crash", "fail"
	N, Torn   int
	N2, Torn2 int `json:",omitempty"`
}

var crashConfs = []diceCase{
	{Base: []solid{boxSolid(0, 0, 0, 4, 4, 2)}, Dim: 4, N: K{2, 2, 1}},
	{Base: []solid{boxSolid(0, 0, 0, 4, 4, 2)}, Cuts: [][]solid{{boxSolid(1, 1, 0, 2, 4, 2)}, {boxSolid(-9, -9, -9, -8, -8, -8)}}, Dim: 4, N: K{2, 1, 1}},
	{Base: []solid{boxSolid(0, 0, 0, 1, 30, 30)}, Dim: 30, N: K{1, 1, 1}},
	{Base: []solid{boxSolid(0, 0, 0, 4, 4, 4)}, Dim: 4, N: K{1, 1, 4}, Dir: "d"},
}

type crashRef struct {
	files  []string // STL files
	tiles  []string // names of the tiles
	bytes  map[string]string
	script string
}

func sortedLines(s string) string {
	l := strings.Split(s, "\n")
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// binvoxFiles returns the contents of all *.binvox files.
func binvoxFiles(dir string) map[string]string {
	out := map[string]string{}
	m, _ := filepath.Glob(filepath.Join(dir, "*.binvox"))
	for _, f := range m {
		// A hidden file is no tile: neither the shell nor a merge command would pick it up.
		if !strings.HasPrefix(filepath.Base(f), ".") {
			out[filepath.Base(f)] = string(mustRead(f))
		}
	}
	return out
}

func crashReference(c *hx.Ctx, conf int) (crashRef, []hx.FSOp, error) {
	v := crashConfs[conf]
	dir := c.TmpDir()
	defer os.RemoveAll(dir)
	files := v.files(dir)
	r, ops, err := c.TraceFS(dir, c.CmdFault("cmd/stldice"), v.args(files)...)
	if err != nil {
		return crashRef{}, nil, err
	}
	if r.Code != 0 {
		return crashRef{}, nil, fmt.Errorf("stldice: exit %d: %.300s", r.Code, r.Stderr)
	}
	ref := crashRef{files: files, bytes: binvoxFiles(filepath.Join(dir, v.Dir)), script: sortedLines(r.Stdout)}
	for k := range ref.bytes {
		ref.tiles = append(ref.tiles, k)
	}
	sort.Strings(ref.tiles)
	if len(ref.tiles) == 0 {
		return ref, nil, fmt.Errorf("no tiles")
	}
	return ref, ops, nil
}

func (v crashCase) run(c *hx.Ctx) (string, error) {
	conf := crashConfs[v.Conf]
	ref, _, err := crashReference(c, v.Conf)
	if err != nil {
		return "", err
	}
	dir := c.TmpDir()
	defer os.RemoveAll(dir)
	files := conf.files(dir)
	bdir := filepath.Join(dir, conf.Dir)
	for i, t := range ref.tiles {
		if v.Have>>uint(i)&1 == 1 {
			mustWrite(filepath.Join(bdir, t), []byte(ref.bytes[t]))
		}
	}
	complete := func(when string) error {
		for f, b := range binvoxFiles(bdir) {
			w, ok := ref.bytes[f]
			if !ok {
				return fmt.Errorf("%s: %s is none of the tiles", when, f)
			}
			if w != b {
				return fmt.Errorf("%s: %s is incomplete: %d of %d bytes", when, f, len(b), len(w))
			}
		}
		return nil
	}
	var out string
	for i, p := range [][2]int{{v.N, v.Torn}, {v.N2, v.Torn2}} {
		if p[0] == 0 {
			continue
		}
		env := []string{fmt.Sprintf("VERIF_FS=%s:%d:%d", v.Mode, p[0], p[1])}
		r := c.RunEnv(dir, env, c.CmdFault("cmd/stldice"), conf.args(files)...)
		if r.Hung {
			return "", fmt.Errorf("stldice hangs")
		}
		if err := complete(fmt.Sprintf("after the %s in run %d", v.Mode, i+1)); err != nil {
			return "", err
		}
		have := binvoxFiles(bdir)
		if r.Code == 0 && len(have) != len(ref.bytes) {
			return "", fmt.Errorf("stldice succeeds although only %d of %d tiles were written", len(have), len(ref.bytes))
		}
		out += fmt.Sprint(r.Code, len(have), " ")
	}
	r := c.Run(dir, c.CmdFault("cmd/stldice"), conf.args(files)...)
	if r.Hung || r.Code != 0 {
		return "", fmt.Errorf("running stldice again: exit %d: %.300s", r.Code, r.Stderr)
	}
	if err := complete("after running again"); err != nil {
		return "", err
	}
	if got := binvoxFiles(bdir); len(got) != len(ref.bytes) {
		return "", fmt.Errorf("%d of %d tiles after running again", len(got), len(ref.bytes))
	}
	if s := sortedLines(r.Stdout); s != ref.script {
		return "", fmt.Errorf("the script of the second run differs:\n%s\nwant\n%s", s, ref.script)
	}
	return out, nil
}

func genCrash(c *hx.Ctx, yield func(crashCase) bool) error {
	for conf := range crashConfs {
		ref, ops, err := crashReference(c, conf)
		if err != nil {
			return err
		}
		c.Count("changes_of_the_file_system", int64(len(ops)))
		limit := 40
		if conf == 0 || c.Thorough() {
			limit = 1 << 30
		}
		for _, mode := range []string{"crash", "fail"} {
			for n, op := range ops {
				torn := []int{0}
				if op.Op == "write" {
					torn = hx.Torn(op.N, limit)
				}
				for _, t := range torn {
					if !yield(crashCase{Conf: conf, Mode: mode, N: n + 1, Torn: t}) {
						return nil
					}
				}
			}
			// every set of tiles that exist already (the changes shift to the front)
			if len(ref.tiles) <= 4 {
				for have := uint64(1); have < 1<<uint(len(ref.tiles)); have++ {
					for n := range ops {
						if !yield(crashCase{Conf: conf, Have: have, Mode: mode, N: n + 1, Torn: 7}) {
							return nil
						}
					}
				}
			}
			// interrupted twice
			for n := range ops {
				for m := range ops {
					if !c.Thorough() && (n*7+m)%4 != 0 {
						continue
					}
					if !yield(crashCase{Conf: conf, Mode: mode, N: n + 1, Torn: 5, N2: m + 1, Torn2: 11}) {
						return nil
					}
				}
			}
		}
	}
	return nil
}

func init() {
	hx.Register(&hx.Check{
		ID: "C12", Level: "model_checking",
		Rule: "cases: runs of the stldice command: all numbers of divisions 1..4 per axis x model shapes x resolutions (also refused ones), given bounding boxes that pad, crop and move the model, in all spellings of a number and malformed, names of models and places, large models, sloped solids at dyadic resolutions with and without -smooth, base models with up to two cuts whose printed script is executed, sequences of runs with other divisions, models and cuts in one directory, names that need quoting; non-trivial: every accepted case, the outcome is the set of voxels of each model",
		Setup: func(c *hx.Ctx) func() {
			run := hx.Kind(c, "dice", func(v diceCase) (string, error) { return v.run(c) })
			again := hx.Kind(c, "again", func(h diceHistory) (string, error) { return h.run(c) })
			return func() {
				c.Cmd("cmd/stldice")
				c.Cmd("cmd/voxcut")
				c.Cmd("cmd/merge-stl")
				hx.Each(c, run, func(yield func(diceCase) bool) { genDice(c, yield) })
				hx.Each(c, again, func(yield func(diceHistory) bool) { genDiceHistories(c, yield) })
			}
		},
		Assumptions: []string{"voxels whose membership is decided by less than 1e-6 of a voxel are not judged"},
	})
	hx.Register(&hx.Check{
		ID: "C13", Level: "model_checking",
		Rule: "cases: one run of stldice interrupted (killed, or refused by the file system) at one change of the file system, at every change and after every byte of a write, from every set of already complete tiles, also twice in a row, followed by an undisturbed run; non-trivial: every case, the outcome is the exit status and the number of complete tiles",
		Setup: func(c *hx.Ctx) func() {
			run := hx.Kind(c, "interrupt", func(v crashCase) (string, error) { return v.run(c) })
			return func() {
				c.CmdFault("cmd/stldice")
				var gerr error
				hx.Each(c, run, func(yield func(crashCase) bool) { gerr = genCrash(c, yield) })
				if gerr != nil {
					// the undisturbed run fails: report it as a case
					run(crashCase{Mode: "crash"})
				}
			}
		},
		Assumptions: []string{"a crash ends the process; what was written before stays (no loss of power)"},
	})
}
