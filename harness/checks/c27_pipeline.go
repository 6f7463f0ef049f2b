package checks

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"

	gl "github.com/fogleman/fauxgl"
	"github.com/gmlewis/stldice/v4/binvox"
	"stldiceverif/hx"
)

// part is a voxel model at a place of the world.
type part struct {
	N    K
	Bits uint64 `json:",omitempty"`
	Vox  []K    `json:",omitempty"`
	Pat  string `json:",omitempty"` // a pattern that fills N
	O    K      // the index of the part's first voxel on the common lattice
}

// set returns the voxels of the part on the common lattice.
func (p part) set() Set {
	s := Set{}
	src := p.Vox
	if p.Pat != "" {
		src = pattern(p.N, p.Pat).keys()
	} else if src == nil {
		src = subset(p.N, p.Bits).keys()
	}
	for _, k := range src {
		s[K{k[0] + p.O[0], k[1] + p.O[1], k[2] + p.O[2]}] = true
	}
	return s
}

// pipeCase turns voxel models into meshes and these into voxels again.
type pipeCase struct {
	How   string // "voxel", "manifold", "marching"; with Tools the command that makes the mesh
	Parts []part // the base and its cuts
	VPMM  float64
	T     V3
	S     float64 // voxels of the result per voxel of the model
	Pad   V3      // where the origin of the models lies in the result, in voxels of the result
	Dim   int     // dimension of the result along the longest axis
	Div   K       // divisions
	Tools bool    `json:",omitempty"`
	Tight bool    `json:",omitempty"` // stldice finds the bounding box itself
}

// mesh returns the mesh of a part in the world.
func (v pipeCase) mesh(p part) *gl.Mesh {
	b := v.model(p)
	switch v.How {
	case "voxel":
		return b.ToMesh()
	case "manifold":
		return b.ManifoldMesh()
	}
	return b.MarchingCubes()
}

func (v pipeCase) origin(p part) V3 {
	return V3{v.T[0] + float64(p.O[0])/v.VPMM, v.T[1] + float64(p.O[1])/v.VPMM, v.T[2] + float64(p.O[2])/v.VPMM}
}

func (v pipeCase) model(p part) *binvox.BinVOX {
	t := v.origin(p)
	b := binvox.New(p.N[0], p.N[1], p.N[2], t[0], t[1], t[2], float64(max(p.N[0], p.N[1], p.N[2]))/v.VPMM, false)
	q := p
	q.O = K{}
	for k := range q.set() {
		b.Add(k[0], k[1], k[2])
	}
	return b
}

// grid is the region of the result.
func (v pipeCase) grid() (lo V3, vpmm float64, n K) {
	vpmm = v.VPMM * v.S
	if v.Tight {
		s := v.Parts[0].set()
		a, b := K{1 << 30, 1 << 30, 1 << 30}, K{-1 << 30, -1 << 30, -1 << 30}
		for k := range s {
			for i := range k {
				a[i], b[i] = min(a[i], k[i]), max(b[i], k[i]+1)
			}
		}
		for i := range a {
			lo[i] = v.T[i] + float64(a[i])/v.VPMM
			n[i] = int(math.Ceil(float64(b[i]-a[i])*v.S - 1e-6))
		}
		return lo, vpmm, n
	}
	for i := range lo {
		lo[i] = v.T[i] - v.Pad[i]/vpmm
		n[i] = v.Dim
	}
	return lo, vpmm, n
}

// cells returns the voxels of the result that must be and that may be set for a part.
func (v pipeCase) cells(p part) (must, may Set) {
	lo, vpmm, n := v.grid()
	must, may = Set{}, Set{}
	const e = 1e-3
	set := p.set()
	joined := 0.0 // how far the mesh may reach out of a cube
	if v.How == "manifold" && contacts(set) > 0 {
		joined = v.S / 2
	}
	for k := range set {
		var a, b V3 // the cube in voxels of the result
		for i := range k {
			a[i] = (v.T[i] + float64(k[i])/v.VPMM - lo[i]) * vpmm
			b[i] = a[i] + v.S
			if v.How == "marching" { // which fills up half of a concave corner
				a[i], b[i] = a[i]-v.S/2, b[i]+v.S/2
			}
		}
		r := joined + e
		for x := max(0, int(math.Floor(a[0]-r))); x <= int(math.Floor(b[0]+r)) && x < n[0]; x++ {
			for y := max(0, int(math.Floor(a[1]-r))); y <= int(math.Floor(b[1]+r)) && y < n[1]; y++ {
				for z := max(0, int(math.Floor(a[2]-r))); z <= int(math.Floor(b[2]+r)) && z < n[2]; z++ {
					c := V3{float64(x), float64(y), float64(z)}
					zc := c[2] + 0.5
					if zc < a[2]-r || zc > b[2]+r {
						continue
					}
					q := K{x, y, z}
					may[q] = true
					if v.How == "marching" {
						// the octahedron around the middle of a voxel is inside of the mesh
						d := 0.0
						for i := range c {
							d += math.Abs(c[i] + 0.5 - (a[i]+b[i])/2)
						}
						if d < v.S/2-e {
							must[q] = true
						}
						continue
					}
					if a[0] < c[0]+1-e && b[0] > c[0]+e && a[1] < c[1]+1-e && b[1] > c[1]+e && zc > a[2]+e && zc < b[2]-e {
						must[q] = true
					}
				}
			}
		}
	}
	return must, may
}

func (v pipeCase) judge(p part, got Set) error {
	must, may := v.cells(p)
	for k := range must {
		if !got[k] {
			return fmt.Errorf("voxel %v of the result is missing", k)
		}
	}
	for k := range got {
		if !may[k] {
			return fmt.Errorf("voxel %v of the result is set but the model does not reach it", k)
		}
	}
	return nil
}

func (v pipeCase) run(c *hx.Ctx) (string, error) {
	if v.Tools {
		return v.tools(c)
	}
	lo, vpmm, n := v.grid()
	out := ""
	for _, p := range v.Parts {
		m := v.mesh(p)
		b := binvox.New(n[0], n[1], n[2], lo[0], lo[1], lo[2], float64(max(n[0], n[1], n[2]))/vpmm, false)
		if err := b.Voxelize(m); err != nil {
			return "", err
		}
		got := fromBV(b)
		if err := v.judge(p, got); err != nil {
			return "", err
		}
		out += got.hash()
	}
	return out, nil
}

func (v pipeCase) tools(c *hx.Ctx) (string, error) {
	dir := c.TmpDir()
	defer os.RemoveAll(dir)
	var files []string
	for i, p := range v.Parts {
		name := string(rune('a' + i))
		q := p
		q.O = K{}
		mustWrite(filepath.Join(dir, name+"0.binvox"), encodeBinvox(header{p.N, v.origin(p), scaleOf(p.N, v.VPMM)}, q.set()))
		files = append(files, name+".stl")
		var r hx.Result
		switch v.How {
		case "voxel":
			r = c.Run(dir, c.Cmd("cmd/voxcut"), "-ostl", name+".stl", name+"0.binvox")
		case "manifold":
			r = c.Run(dir, c.Cmd("cmd/manifold-mesh"), name+"0.binvox", name+".stl")
		case "marching":
			r = c.Run(dir, c.Cmd("cmd/marching-cubes"), name+"0.binvox", name+".stl")
		}
		if r.Code != 0 || r.Hung {
			return "", fmt.Errorf("making the mesh of part %v: %v", i, r)
		}
	}
	lo, vpmm, n := v.grid()
	args := []string{"-dim", fmt.Sprint(max(n[0], n[1], n[2])), "-nx", fmt.Sprint(v.Div[0]), "-ny", fmt.Sprint(v.Div[1]), "-nz", fmt.Sprint(v.Div[2])}
	d := diceCase{Dim: max(n[0], n[1], n[2]), N: v.Div}
	box := [2]V3{lo, {lo[0] + float64(n[0])/vpmm, lo[1] + float64(n[1])/vpmm, lo[2] + float64(n[2])/vpmm}}
	if !v.Tight {
		args = append(args, "-mbb", fmt.Sprintf("(%s,%s,%s)-(%s,%s,%s)", ff(box[0][0]), ff(box[0][1]), ff(box[0][2]), ff(box[1][0]), ff(box[1][1]), ff(box[1][2])))
	}
	for i := range lo {
		if d.Dim%v.Div[i] != 0 || n[i] < v.Div[i] {
			return "not divisible", nil
		}
	}
	r := c.Run(dir, c.Cmd("cmd/stldice"), append(args, files...)...)
	if r.Code != 0 || r.Hung {
		return "", fmt.Errorf("stldice %v: %v", args, r)
	}
	out := ""
	common := fmt.Sprintf("-%d-%d-%d-%d", d.Dim, v.Div[0], v.Div[1], v.Div[2])
	var union []Set
	for i, p := range v.Parts {
		ts, h, err := v.tiles(dir, strings.TrimSuffix(files[i], ".stl")+common)
		if err != nil {
			return "", fmt.Errorf("stldice %v: %v", args, err)
		}
		in := Set{}
		for k := range ts { // the last tiles may reach beyond the box
			if k[0] < n[0] && k[1] < n[1] && k[2] < n[2] {
				in[k] = true
			}
		}
		if err := v.judge(p, in); err != nil {
			return "", fmt.Errorf("stldice %v: part %v: %v", args, i, err)
		}
		union = append(union, ts)
		out += ts.hash()
		if h == 0 {
			continue
		}
		// all tiles together
		pre := strings.TrimSuffix(files[i], ".stl") + common
		r := c.Run(dir, c.Cmd("cmd/merge-binvox"), "-prefix", pre)
		if r.Code != 0 || r.Hung {
			return "", fmt.Errorf("merge-binvox of part %v: %v", i, r)
		}
		hd, sh, err := decodeVShell(mustRead(filepath.Join(dir, pre+".vsh")))
		if err != nil {
			return "", err
		}
		if x := float64(max(hd.N[0], hd.N[1], hd.N[2])) / hd.Scale; math.Abs(x-vpmm) > 1e-4*vpmm {
			return "", fmt.Errorf("the merged shell has %v voxels per mm, want %v", x, vpmm)
		}
		o, err := v.lattice(hd.T)
		if err != nil {
			return "", err
		}
		got := Shell{}
		for k, nb := range sh {
			got[K{k[0] + o[0], k[1] + o[1], k[2] + o[2]}] = nb
		}
		if err := diffShell(got, exposed(ts)); err != nil {
			return "", fmt.Errorf("the merged shell of part %v: %v", i, err)
		}
	}
	// the script
	want := Set{}
	for k := range union[0] {
		want[k] = true
	}
	for _, s := range union[1:] {
		for k := range s {
			delete(want, k)
		}
	}
	mustWrite(filepath.Join(dir, "script.sh"), []byte(r.Stdout))
	sr := c.RunShell(dir, filepath.Dir(c.Cmd("cmd/voxcut")), "script.sh")
	if sr.Hung {
		return "", fmt.Errorf("the script hangs")
	}
	if len(want) == 0 {
		return out, nil
	}
	pre := "out"
	if len(files) == 1 {
		pre = "a"
	}
	res := filepath.Join(dir, pre+common+".stl")
	if _, err := os.Stat(res); err != nil { // a single tile is not merged
		m, _ := filepath.Glob(filepath.Join(dir, pre+common+"-*.stl"))
		if len(m) != 1 {
			return "", fmt.Errorf("the script writes no %s and %d tiles: %.600s", res, len(m), sr.Stderr)
		}
		res = m[0]
	}
	ts, err := readMesh(res)
	if err != nil {
		return "", err
	}
	for i := range ts {
		for j := range ts[i] {
			for a := 0; a < 3; a++ {
				ts[i][j][a] = math.Round((ts[i][j][a]-lo[a])*vpmm*1000) / 1000
			}
		}
	}
	if err := checkMesh(ts, want, "voxel"); err != nil {
		return "", fmt.Errorf("stldice %v: result of the script: %v", args, err)
	}
	return out, nil
}

// lattice returns the index of a position in the result.
func (v pipeCase) lattice(t V3) (o K, err error) {
	lo, vpmm, _ := v.grid()
	for a := range o {
		f := (t[a] - lo[a]) * vpmm
		o[a] = int(math.Round(f))
		if math.Abs(f-float64(o[a])) > 1e-3 {
			return o, fmt.Errorf("%v is off the lattice of the result by %v voxels", t, f-float64(o[a]))
		}
	}
	return o, nil
}

// tiles reads all tiles of a model.
func (v pipeCase) tiles(dir, pre string) (Set, int, error) {
	fs, _ := filepath.Glob(filepath.Join(dir, pre+"-*.binvox"))
	u := Set{}
	for _, f := range fs {
		h, s, err := decodeBinvox(mustRead(f))
		if err != nil {
			return nil, 0, err
		}
		o, err := v.lattice(h.T)
		if err != nil {
			return nil, 0, err
		}
		for k := range s {
			w := K{k[0] + o[0], k[1] + o[1], k[2] + o[2]}
			if u[w] {
				return nil, 0, fmt.Errorf("voxel %v lies in two tiles", w)
			}
			u[w] = true
		}
	}
	return u, len(fs), nil
}

func genPipes(c *hx.Ctx, yield func(pipeCase) bool) {
	places := []pipeCase{{VPMM: 1}, {VPMM: 4, T: V3{-80, 3.25, -2.5}}, {VPMM: 10, T: V3{1. / 3, -80.3, 7.1}}}
	pads := []V3{{0.25, 0.5, 0.25}, {0.75, 0.25, 0}, {1.5, 0, 1.25}, {0, 0, 0}}
	scales := []float64{1, 2, 1.5, 3, 0.75}
	hows := []string{"voxel", "manifold", "marching"}
	i := 0
	with := func(p part, f func(v pipeCase) bool) bool {
		s := p.set()
		if len(s) == 0 {
			return true
		}
		i++
		for _, how := range hows {
			v := places[i%len(places)]
			v.How, v.Parts, v.Div = how, []part{p}, K{1, 1, 1}
			if !f(v) {
				return false
			}
		}
		return true
	}
	// in one piece: all small models and all models with a hole or cavity
	inproc := func(p part) bool {
		return with(p, func(v pipeCase) bool {
			for _, pad := range pads {
				for _, s := range scales {
					if !c.Thorough() && s != 1 && s != 2 && (i+int(4*pad[0]))%3 != 0 {
						continue
					}
					v.S, v.Pad = s, pad
					v.Dim = int(math.Ceil(float64(max(p.N[0], p.N[1], p.N[2]))*s)) + 3
					if !yield(v) {
						return false
					}
				}
			}
			return true
		})
	}
	grids := []K{{2, 2, 2}, {3, 3, 1}, {3, 1, 3}, {1, 3, 3}}
	if c.Thorough() {
		grids = append(grids, K{3, 2, 2}, K{2, 3, 2}, K{2, 2, 3}, K{4, 3, 1})
	}
	for _, n := range grids {
		for b := uint64(1); b < 1<<(n[0]*n[1]*n[2]); b++ {
			if !inproc(part{N: n, Bits: b}) {
				return
			}
		}
	}
	for a := 0; a < 27; a++ { // blocks with one or two voxels missing
		for b := a; b < 27; b++ {
			if (a+b)%2 == 1 && !c.Thorough() {
				continue
			}
			if !inproc(part{N: K{3, 3, 3}, Bits: (1<<27 - 1) &^ (1 << a) &^ (1 << b)}) {
				return
			}
		}
	}
	// large models
	for j, n := range []K{{24, 20, 22}, {130, 3, 4}, {3, 130, 4}, {4, 3, 130}, {9, 9, 9}} {
		for _, pat := range []string{"full", "hollow", "comb", "bars", "dust"} {
			ok := with(part{N: n, Pat: pat}, func(v pipeCase) bool {
				for _, s := range []float64{1, 1.5} {
					v.S, v.Pad, v.Tools, v.Tight = s, pads[(i+j)%len(pads)], false, false
					v.Dim = int(math.Ceil(float64(max(n[0], n[1], n[2]))*s)) + 3
					if n[0]*n[1]*n[2] > 5000 && s != 1 && !c.Thorough() {
						continue
					}
					if !yield(v) {
						return false
					}
					if n[0]*n[1]*n[2] > 5000 && i%2 == 1 && !c.Thorough() {
						continue
					}
					v.Tools, v.Dim, v.Div = true, (v.Dim+5)/6*6, []K{{6, 3, 2}, {2, 6, 1}, {3, 2, 6}}[i%3]
					if !yield(v) {
						return false
					}
				}
				return true
			})
			if !ok {
				return
			}
		}
	}
	// with the tools: models, divisions, bounding boxes
	for _, n := range []K{{2, 2, 2}, {3, 2, 1}, {1, 3, 2}, {2, 1, 3}} {
		step := uint64(hx.Pick(c, 5, 1))
		for b := uint64(1); b < 1<<(n[0]*n[1]*n[2]); b += step {
			ok := with(part{N: n, Bits: b}, func(v pipeCase) bool {
				v.Tools = true
				for _, div := range []K{{1, 1, 1}, {2, 1, 1}, {1, 2, 2}, {2, 2, 2}, {3, 1, 2}} {
					for _, s := range []float64{1, 2} {
						v.S, v.Div = s, div
						v.Dim = 6 * int(s)
						v.Tight = false
						v.Pad = pads[(i+div[0])%len(pads)]
						if !yield(v) {
							return false
						}
						v.Tight, v.Pad, v.Dim = true, V3{}, 0
						if !yield(v) {
							return false
						}
					}
				}
				return true
			})
			if !ok {
				return
			}
		}
	}
	// a base and cuts
	base := part{N: K{3, 3, 2}, Bits: 1<<18 - 1}
	for _, n := range []K{{1, 1, 1}, {2, 2, 1}, {1, 2, 3}} {
		for x := -2; x <= 3; x++ {
			for y := -2; y <= 3; y++ {
				for z := -1; z <= 2; z++ {
					if !c.Thorough() && (x+2*y+3*z)%2 != 0 {
						continue
					}
					for j, div := range []K{{1, 1, 1}, {2, 3, 1}, {3, 1, 2}} {
						i++
						v := places[i%3]
						v.How, v.Tools, v.S, v.Dim, v.Div = hows[j%2], true, 1, 6, div
						v.Pad = pads[i%3]
						cut := part{N: n, Bits: 1<<(n[0]*n[1]*n[2]) - 1, O: K{x, y, z}}
						v.Parts = []part{base, cut}
						if !yield(v) {
							return
						}
						v.Parts = append(v.Parts, part{N: K{1, 1, 2}, Bits: 3, O: K{1, 1, 0}})
						if !yield(v) {
							return
						}
					}
				}
			}
		}
	}
}

func init() {
	hx.Register(&hx.Check{
		ID: "C27", Level: "model_checking",
		Rule: "cases: voxel models turned into meshes by ToMesh, ManifoldMesh and MarchingCubes and back into voxels at five scales and four alignments of the grids (all sets of small grids, a block with one or two missing voxels, five patterns in grids of up to 24x20x22 or 130 voxels along an axis), and through the commands: binvox file, mesh, stldice with five sets of divisions with a given and its own bounding box, merge-binvox of the tiles, and the printed script, also with one and two cuts at all offsets. " +
			"A voxel is set if and only if the solid reaches it in the plane through its middle (with marching cubes: if it lies in the octahedron around a voxel; only if the cube and half a voxel around it reach it); the merged shell is that of the union of the tiles; the script's mesh encloses exactly base minus cuts.",
		Assumptions: []string{"A face exactly on the border of two voxels counts for the one behind it, or for both, by rounding."},
		Setup: func(c *hx.Ctx) func() {
			run := hx.Kind(c, "pipe", func(v pipeCase) (string, error) { return v.run(c) })
			return func() {
				for _, n := range []string{"stldice", "voxcut", "merge-stl", "merge-binvox", "manifold-mesh", "marching-cubes"} {
					c.Cmd("cmd/" + n)
				}
				hx.Each(c, run, func(yield func(pipeCase) bool) { genPipes(c, yield) })
			}
		},
	})
}
