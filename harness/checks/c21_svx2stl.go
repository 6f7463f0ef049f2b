package checks

import (
	"archive/zip"
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"math"
	"os"
	"path/filepath"
	"strings"

	"stldiceverif/hx"
)

// svxCase is one SVX file to convert.
type svxCase struct {
	N      K
	Bits   uint64
	VS     float64 // voxel size in meters
	Format string  // name of the slices
	First  int     `json:",omitempty"` // number of the first slice
	Img    string  `json:",omitempty"` // kind of PNG image: gray, gray16, rgba, nrgba, rgba64, paletted, gray1
	Order  []int   `json:",omitempty"` // order of the entries, 0 = manifest, i = slice i-1
	Store  bool    `json:",omitempty"` // do not compress
	Mani   int     `json:",omitempty"` // variant of the manifest
	Level  []int   `json:",omitempty"` // gray levels of the voxels along x (instead of Bits)
	Color  []uint8 `json:",omitempty"` // a color for every voxel (one slice of one row)
	Break  string  `json:",omitempty"` // what is wrong with the file
	Cut    int     `json:",omitempty"`
	Period int     `json:",omitempty"` // Bits repeat after so many voxels
	Two    bool    `json:",omitempty"` // convert another file in the same run, before this one
}

// bits returns the voxels of the model.
func (v svxCase) bits() Set {
	if v.Period == 0 {
		return subset(v.N, v.Bits)
	}
	s := Set{}
	for i, k := range box(v.N) {
		if v.Bits>>uint(i%v.Period)&1 == 1 {
			s[k] = true
		}
	}
	return s
}

const maniTop = `<?xml version="1.0"?>` + "\n"

func (v svxCase) manifest() string {
	vs := ff(v.VS)
	grid := fmt.Sprintf(`<grid gridSizeX="%d" gridSizeY="%d" gridSizeZ="%d" voxelSize="%s" subvoxelBits="8" slicesOrientation="Z" >`, v.N[0], v.N[1], v.N[2], vs)
	dens := fmt.Sprintf(`<channel type="DENSITY" bits="8" slices="%s" />`, v.Format)
	ch := dens
	switch v.Mani {
	case 1:
		ch = `<channel type="MATERIAL" bits="8" slices="material/m%04d.png" />` + dens
	case 2:
		ch = dens + `<channel type="COLOR" bits="24" slices="color/c%d.png" />`
	case 3:
		ch = strings.ToLower(strings.Replace(dens, "slices=", "SLICES=", 0))
		ch = strings.Replace(dens, "DENSITY", "density", 1)
	case 4:
		grid = fmt.Sprintf("<grid  voxelSize='%s'\n originX=\"0.1\" gridSizeZ='%d' slicesOrientation=\"Z\" gridSizeX='%d' version=\"1.0\" subvoxelBits='8' gridSizeY='%d'>", vs, v.N[2], v.N[0], v.N[1])
	case 5:
		grid = "<!-- grid gridSizeX=\"99\" -->\n" + grid + "<metadata><entry key=\"author\" value=\"x &amp; y\"/></metadata>"
	case 6: // as the master of stl2svx writes it: the slices run along Y
		grid = strings.NewReplacer("gridSizeY", "gridSizeZ", "gridSizeZ", "gridSizeY", `Orientation="Z"`, `Orientation="Y"`).Replace(grid)
	}
	switch v.Break {
	case "no channels":
		return maniTop + grid + `<channels></channels></grid>`
	case "no density":
		return maniTop + grid + `<channels><channel type="MATERIAL" bits="8" slices="m%d.png" /></channels></grid>`
	case "bad xml":
		return maniTop + grid + `<channels>` + ch + `</channels></gri`
	case "bad number":
		return maniTop + strings.Replace(grid, fmt.Sprintf(`gridSizeY="%d"`, v.N[1]), `gridSizeY="many"`, 1) + `<channels>` + ch + `</channels></grid>`
	case "empty manifest":
		return ""
	}
	return maniTop + grid + "\n  <channels>\n    " + ch + "\n  </channels>\n<materials><material id=\"1\" urn=\"u\"/></materials></grid>\n"
}

func (v svxCase) slice(z int, s Set) image.Image {
	level := func(x, y int) int {
		if v.Level != nil {
			return v.Level[x]
		}
		if s[K{x, y, z}] {
			return 255
		}
		return 0
	}
	r := image.Rect(0, 0, v.N[0], v.N[1])
	each := func(set func(x, y, l int)) {
		for y := 0; y < v.N[1]; y++ {
			for x := 0; x < v.N[0]; x++ {
				set(x, y, level(x, y))
			}
		}
	}
	switch v.Img {
	case "gray16":
		m := image.NewGray16(r)
		each(func(x, y, l int) { m.SetGray16(x, y, color.Gray16{Y: uint16(l * 257)}) })
		return m
	case "rgba":
		m := image.NewRGBA(r)
		each(func(x, y, l int) { m.SetRGBA(x, y, color.RGBA{uint8(l), uint8(l), uint8(l), 255}) })
		return m
	case "nrgba":
		m := image.NewNRGBA(r)
		each(func(x, y, l int) { m.SetNRGBA(x, y, color.NRGBA{uint8(l), uint8(l), uint8(l), 255}) })
		// a pixel with alpha keeps the alpha channel in the file
		return m
	case "rgba64":
		m := image.NewRGBA64(r)
		each(func(x, y, l int) {
			c := uint16(l * 257)
			m.SetRGBA64(x, y, color.RGBA64{c, c, c, 0xffff})
		})
		return m
	case "paletted":
		var p color.Palette
		for i := 255; i >= 0; i-- { // in reverse, so that an index is not a level
			p = append(p, color.Gray{Y: uint8(i)})
		}
		m := image.NewPaletted(r, p)
		each(func(x, y, l int) { m.SetColorIndex(x, y, uint8(255-l)) })
		return m
	case "gray1":
		m := image.NewPaletted(r, color.Palette{color.White, color.Black})
		each(func(x, y, l int) {
			if l == 0 {
				m.SetColorIndex(x, y, 1)
			}
		})
		return m
	}
	m := image.NewGray(r)
	each(func(x, y, l int) { m.SetGray(x, y, color.Gray{Y: uint8(l)}) })
	return m
}

func (v svxCase) want() Set {
	s := Set{}
	if v.Level == nil {
		return v.bits()
	}
	for _, k := range box(v.N) {
		if v.Level[k[0]] >= 128 {
			s[k] = true
		}
	}
	return s
}

func (v svxCase) file() []byte {
	var buf bytes.Buffer
	w := zip.NewWriter(&buf)
	add := func(name string, b []byte) {
		h := &zip.FileHeader{Name: name, Method: zip.Deflate}
		if v.Store {
			h.Method = zip.Store
		}
		f, err := w.CreateHeader(h)
		if err != nil {
			panic(err)
		}
		if _, err := f.Write(b); err != nil {
			panic(err)
		}
	}
	s := v.bits()
	order := v.Order
	if order == nil {
		for i := 0; i <= v.N[2]; i++ {
			order = append(order, i)
		}
	}
	for _, o := range order {
		if o == 0 {
			if v.Break != "no manifest" {
				add("manifest.xml", []byte(v.manifest()))
			}
			continue
		}
		z := o - 1
		name := fmt.Sprintf(v.Format, z)
		var p bytes.Buffer
		if err := png.Encode(&p, v.slice(z, s)); err != nil {
			panic(err)
		}
		b := p.Bytes()
		if z == v.N[2]-1 {
			switch v.Break {
			case "bad name":
				name = "x" + name
			case "long name", "long name 2", "long name 3":
				name += map[string]string{"long name": "~", "long name 2": ".bak", "long name 3": "/0001.png"}[v.Break]
			case "cut slice":
				b = b[:min(len(b), v.Cut)]
			case "no image":
				b = []byte("not an image")
			}
		}
		add(name, b)
	}
	if err := w.Close(); err != nil {
		panic(err)
	}
	b := buf.Bytes()
	if v.Break == "cut file" {
		b = b[:min(len(b), v.Cut)]
	}
	return b
}

func (v svxCase) run(c *hx.Ctx) (string, error) {
	dir := c.TmpDir()
	defer os.RemoveAll(dir)
	args := []string{"model.svx"}
	if v.Break != "missing file" {
		mustWrite(filepath.Join(dir, "model.svx"), v.file())
	}
	first := svxCase{N: K{4, 4, 4}, Bits: 1<<63 | 1<<37, VS: 0.001, Format: "density/slice%04d.png"}
	if v.Two {
		mustWrite(filepath.Join(dir, "first.svx"), first.file())
		args = []string{"first.svx", "model.svx"}
	}
	r := c.Run(dir, c.Cmd("cmd/svx2stl"), args...)
	if r.Hung {
		return "", fmt.Errorf("svx2stl hangs")
	}
	out := filepath.Join(dir, "model.stl")
	if v.Break != "" {
		if r.Code == 0 {
			return "", fmt.Errorf("svx2stl accepts a file with %q", v.Break)
		}
		if strings.Contains(r.Stderr, "goroutine ") || strings.Contains(r.Stderr, "panic:") {
			return "", fmt.Errorf("svx2stl crashes on a file with %q: %.500s", v.Break, r.Stderr)
		}
		if _, err := os.Stat(out); err == nil {
			return "", fmt.Errorf("svx2stl writes an STL file for a file with %q", v.Break)
		}
		return "refused " + v.Break, nil
	}
	if r.Code != 0 {
		return "", fmt.Errorf("svx2stl: exit %d: %.500s", r.Code, r.Stderr)
	}
	if err := v.judge(out); err != nil {
		return "", err
	}
	if v.Two {
		if err := first.judge(filepath.Join(dir, "first.stl")); err != nil {
			return "", fmt.Errorf("first file: %v", err)
		}
	}
	return v.want().hash(), nil
}

func (v svxCase) judge(out string) error {
	ts, err := readMesh(out)
	if err != nil {
		return err
	}
	want := v.want()
	mm := v.VS * 1000
	for i := range ts {
		for j := range ts[i] {
			for a := 0; a < 3; a++ {
				ts[i][j][a] /= mm
			}
		}
	}
	if len(want) == 0 {
		if len(ts) != 0 {
			return fmt.Errorf("%d triangles for a model without voxels", len(ts))
		}
		return nil
	}
	return checkMesh(ts, want, "marching")
}

// grayCase converts a row of voxels of one color and compares with the luminance.
type grayCase struct {
	RGB   [][3]uint8
	Alpha []uint8 `json:",omitempty"` // of the colors, which are not multiplied by it
	Img   string
}

func luminance(r, g, b, a uint8) float64 {
	return (0.299*float64(r) + 0.587*float64(g) + 0.114*float64(b)) * float64(a) / 255
}

func (v grayCase) run(c *hx.Ctx) (string, error) {
	dir := c.TmpDir()
	defer os.RemoveAll(dir)
	n := len(v.RGB)
	var m image.Image
	r := image.Rect(0, 0, 2*n, 1)
	want := Set{}
	var rgba interface {
		image.Image
		Set(x, y int, c color.Color)
	}
	var pal *image.Paletted
	col := func(i int) color.NRGBA {
		q := v.RGB[i]
		if v.Alpha != nil {
			return color.NRGBA{q[0], q[1], q[2], v.Alpha[i]}
		}
		return color.NRGBA{q[0], q[1], q[2], 255}
	}
	if v.Img == "paletted" {
		p := color.Palette{color.Black}
		for i := range v.RGB {
			p = append(p, col(i))
		}
		pal = image.NewPaletted(r, p)
		m = pal
	} else {
		switch v.Img {
		case "nrgba":
			rgba = image.NewNRGBA(r)
		case "nrgba64":
			rgba = image.NewNRGBA64(r)
		default:
			rgba = image.NewRGBA(r)
		}
		for x := 0; x < 2*n; x++ {
			rgba.Set(x, 0, color.RGBA{0, 0, 0, 255})
		}
		m = rgba
	}
	for i, q := range v.RGB {
		if pal != nil {
			pal.SetColorIndex(2*i, 0, uint8(i+1))
		} else {
			rgba.Set(2*i, 0, col(i))
		}
		if l := luminance(q[0], q[1], q[2], col(i).A); l >= 129 {
			want[K{2 * i, 0, 0}] = true
		} else if l > 127 {
			return "", fmt.Errorf("ambiguous color %v", q)
		}
	}
	s := svxCase{N: K{2 * n, 1, 1}, VS: 0.001, Format: "slice%d.png"}
	var buf bytes.Buffer
	w := zip.NewWriter(&buf)
	f, _ := w.Create("manifest.xml")
	f.Write([]byte(s.manifest()))
	f, _ = w.Create("slice0.png")
	if err := png.Encode(f, m); err != nil {
		panic(err)
	}
	w.Close()
	mustWrite(filepath.Join(dir, "model.svx"), buf.Bytes())
	res := c.Run(dir, c.Cmd("cmd/svx2stl"), "model.svx")
	if res.Code != 0 || res.Hung {
		return "", fmt.Errorf("svx2stl: exit %d: %.500s", res.Code, res.Stderr)
	}
	ts, err := readMesh(filepath.Join(dir, "model.stl"))
	if err != nil {
		return "", err
	}
	if len(want) == 0 {
		if len(ts) > 0 {
			return "", fmt.Errorf("dark colors %v make voxels", v.RGB)
		}
		return "dark", nil
	}
	if err := checkMesh(ts, want, "marching"); err != nil {
		return "", fmt.Errorf("colors %v: %v", v.RGB, err)
	}
	return want.hash(), nil
}

var svxFormats = []string{"density/slice%04d.png", "slice%d.png", "density/%03d.png", "a b/d-%d-s.png", "%d", "s0%d.png"}
var svxImgs = []string{"gray", "gray16", "rgba", "nrgba", "rgba64", "paletted", "gray1"}

func genSVX(c *hx.Ctx, yield func(svxCase) bool) {
	base := svxCase{N: K{2, 2, 2}, VS: 0.001, Format: svxFormats[0]}
	vss := []float64{0.001, 0.0005, 0.25, 1e-6, 0.0001}
	for i, n := range []K{{2, 2, 2}, {1, 2, 3}, {3, 1, 2}, {2, 3, 1}, {1, 1, 8}, {8, 1, 1}, {1, 8, 1}, {3, 3, 1}, {1, 3, 3}} {
		vol := n[0] * n[1] * n[2]
		for b := uint64(0); b < 1<<uint(vol); b++ {
			if vol == 9 && b%4 != 1 && !c.Thorough() {
				continue
			}
			v := base
			v.N, v.Bits, v.VS = n, b, vss[(int(b)+i)%len(vss)]
			v.Store, v.Mani = b&1 == 1, int(b>>1)%7
			v.Img = svxImgs[int(b>>2)%len(svxImgs)]
			v.Format = svxFormats[int(b>>1)%len(svxFormats)]
			if !yield(v) {
				return
			}
		}
	}
	// every combination of the ways to write the file
	for _, f := range svxFormats {
		for _, im := range svxImgs {
			for m := 0; m < 7; m++ {
				for _, vs := range vss {
					for st := 0; st < 2; st++ {
						v := base
						v.N, v.Bits, v.Format, v.Img, v.Mani, v.VS, v.Store, v.Two = K{3, 2, 3}, 0x2b6d1, f, im, m, vs, st == 1, (m+st)%3 == 0
						if !yield(v) {
							return
						}
					}
				}
			}
		}
	}
	// every order of the entries
	perm := []int{0, 1, 2, 3, 4}
	if c.Thorough() {
		perm = []int{0, 1, 2, 3, 4, 5}
	}
	var rec func(k int) bool
	rec = func(k int) bool {
		if k == len(perm) {
			v := base
			v.N, v.Bits, v.Order = K{1, 2, len(perm) - 1}, 0x1b6, append([]int(nil), perm...)
			return yield(v)
		}
		for i := k; i < len(perm); i++ {
			perm[k], perm[i] = perm[i], perm[k]
			if !rec(k + 1) {
				return false
			}
			perm[k], perm[i] = perm[i], perm[k]
		}
		return true
	}
	if !rec(0) {
		return
	}
	// many slices, with numbers of two and three digits
	for _, f := range svxFormats {
		for _, n := range []int{11, 101, 120} {
			v := base
			v.N, v.Format = K{1, 1, n}, f
			v.Bits = 0x8000_0102_0000_0801
			if n == 11 {
				v.Bits = 0x601
			}
			if !yield(v) {
				return
			}
		}
	}
	for _, f := range svxFormats {
		for i, n := range []K{{1, 1, 120}, {2, 2, 101}, {1, 3, 65}, {70, 2, 2}, {2, 70, 2}} {
			v := base
			v.N, v.Format, v.Bits, v.Period, v.Img = n, f, 0x5a3c_96f1, 29+i, svxImgs[i]
			if !yield(v) {
				return
			}
		}
	}
	// large images and many slices
	for i, n := range []K{{300, 260, 3}, {257, 3, 2}, {3, 258, 2}, {65, 66, 67}, {2, 1, 1500}, {1, 1, 10003}, {70001, 1, 1}, {1, 70002, 2}, {2, 1, 66000}} {
		for j, f := range svxFormats[:3] {
			v := base
			v.N, v.Format, v.Bits, v.Period, v.Img, v.Two = n, f, 0x7f_ffff_efff, 39, svxImgs[(i+j*2)%len(svxImgs)], j == 1
			if n[2] > 1000 {
				v.Bits = 0x41_0055_efff
			}
			if n[2] > 10000 && j == 2 || max(n[0], n[1], n[2]) > 60000 && j > 0 {
				continue
			}
			if !yield(v) {
				return
			}
		}
	}
	// every gray level
	for _, im := range svxImgs {
		if im == "gray1" {
			continue
		}
		for l := 0; l < 256; l++ {
			v := base
			v.N, v.Img, v.Level = K{3, 2, 1}, im, []int{l, 0, 255}
			if !yield(v) {
				return
			}
		}
	}
	// broken files
	for _, b := range []string{"no channels", "no density", "bad xml", "bad number", "empty manifest", "no manifest", "bad name", "long name", "long name 2", "long name 3", "no image", "missing file"} {
		for _, f := range svxFormats {
			for o := 0; o < 3; o++ {
				v := base
				v.Break, v.Bits, v.Format, v.Two = b, 0xe7, f, o == 2
				if o == 1 {
					v.Order = []int{2, 1, 0}
				}
				if !yield(v) {
					return
				}
			}
		}
	}
	for _, st := range []bool{false, true} {
		v := base
		v.N, v.Bits, v.Store = K{2, 2, 2}, 0xe7, st
		n := len(v.file())
		for i := 0; i < n; i++ {
			w := v
			w.Break, w.Cut = "cut file", i
			if !yield(w) {
				return
			}
		}
		var p bytes.Buffer
		png.Encode(&p, v.slice(1, v.bits()))
		for i := 0; i < p.Len()-12; i++ { // the last chunk holds nothing
			w := v
			w.Break, w.Cut = "cut slice", i
			if !yield(w) {
				return
			}
		}
	}
}

func init() {
	hx.Register(&hx.Check{
		ID: "C21", Level: "model_checking",
		Rule: "cases: SVX files made for all voxel sets of nine grids up to 9 voxels, all combinations of slice names x image formats x manifest variants x voxel sizes x compression, all orders of the entries, all 256 gray levels in six image formats, a cube of colors, with and without transparency, images up to 300x260 and of 70002 pixels in a row, up to 66000 slices, twelve kinds of defects, every truncation of the file and of a slice; non-trivial: every case, the outcome is the set of voxels or the refused defect",
		Setup: func(c *hx.Ctx) func() {
			run := hx.Kind(c, "svx", func(v svxCase) (string, error) { return v.run(c) })
			gray := hx.Kind(c, "color", func(v grayCase) (string, error) { return v.run(c) })
			return func() {
				c.Cmd("cmd/svx2stl")
				hx.Each(c, run, func(yield func(svxCase) bool) { genSVX(c, yield) })
				hx.Each(c, gray, func(yield func(grayCase) bool) {
					lv := []uint8{0, 60, 120, 135, 200, 255}
					for _, im := range []string{"rgba", "paletted"} {
						for _, r := range lv {
							for _, g := range lv {
								var v grayCase
								v.Img = im
								for _, b := range lv {
									if math.Abs(luminance(r, g, b, 255)-128) > 1.5 {
										v.RGB = append(v.RGB, [3]uint8{r, g, b})
									}
								}
								if !yield(v) {
									return
								}
							}
						}
					}
					// colors that are transparent: the brightness of what is seen on black
					alphas := []uint8{0, 1, 64, 127, 130, 160, 200, 254, 255}
					for _, im := range []string{"nrgba", "nrgba64", "paletted", "rgba"} {
						for _, r := range lv {
							for _, g := range lv {
								for _, b := range lv {
									v := grayCase{Img: im}
									for i, a := range alphas {
										if c.Thorough() || i%3 == 0 || (r == g && g == b) {
											if math.Abs(luminance(r, g, b, a)-128) > 1.5 {
												v.RGB, v.Alpha = append(v.RGB, [3]uint8{r, g, b}), append(v.Alpha, a)
											}
										}
									}
									if !yield(v) {
										return
									}
								}
							}
						}
					}
				})
			}
		},
		Assumptions: []string{"a voxel is set when its pixel has at least half of the full brightness (luminance of a colored pixel, times its opacity)", "slices are named with a %d verb, as the format demands", "the manifest's origin and orientation are not interpreted"},
	})
}
