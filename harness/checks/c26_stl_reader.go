package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/gmlewis/stldice/v4/stl"
	pb "github.com/gmlewis/stldice/v4/stldice"
	"stldiceverif/hx"
)

// stlInput is an STL file to load.
type stlInput struct {
	What string // how it was made
	Body []byte `json:",omitempty"`
	Must bool   `json:",omitempty"` // it is written as the format wants it, so it has to be accepted
	N    int    `json:",omitempty"` // instead of Body: so many triangles
	Text bool   `json:",omitempty"` // ... in an ASCII file
}

func manyTris(n int) []tri {
	ts := make([]tri, n)
	for i := range ts {
		f := float64(i)
		ts[i] = tri{{f + 7.5, -f - 3, f * f}, {f / 4, 9 + f, -1}, {-f * 2, 0.125, 3e5 - f}}
	}
	return ts
}

func (v stlInput) body() []byte {
	if v.N == 0 {
		return v.Body
	}
	if v.Text {
		return asciiSTL(manyTris(v.N))
	}
	return binarySTL(manyTris(v.N))
}

// stlTris returns the triangles that are in the bytes of an STL file; an error if it is broken.
func stlTris(b []byte) ([]tri, error) {
	if len(b) < 84 {
		return nil, fmt.Errorf("no header")
	}
	if n := uint64(binary.LittleEndian.Uint32(b[80:])); uint64(len(b)) == 84+50*n {
		ts := make([]tri, n)
		for i := range ts {
			for j := 0; j < 9; j++ {
				f := float64(math.Float32frombits(binary.LittleEndian.Uint32(b[84+50*i+12+4*j:])))
				if math.IsNaN(f) || math.IsInf(f, 0) {
					return nil, fmt.Errorf("coordinate %v", f)
				}
				ts[i][j/3][j%3] = f
			}
		}
		return ts, nil
	}
	if !bytes.HasPrefix(bytes.TrimSpace(b), []byte("solid")) || bytes.IndexByte(b, 0) >= 0 {
		return nil, fmt.Errorf("neither an ASCII nor a binary file")
	}
	var vs []V3
	for _, line := range strings.Split(string(b), "\n") {
		f := strings.Fields(line)
		for len(f) > 0 {
			w := strings.ToLower(f[0])
			if w == "solid" || w == "endsolid" {
				break // the rest of the line is a name
			}
			f = f[1:]
			if w == "facet" { // the normal has no meaning
				for i := 0; i < 4 && len(f) > 0 && !strings.EqualFold(f[0], "outer"); i++ {
					f = f[1:]
				}
			}
			if w == "outer" && len(f) > 0 { // outer loop
				f = f[1:]
			}
			if w == "endloop" && len(vs)%3 != 0 {
				return nil, fmt.Errorf("a loop that is not a triangle")
			}
			if w != "vertex" {
				continue
			}
			var p V3
			for a := range p {
				if len(f) == 0 {
					return nil, fmt.Errorf("a vertex without three numbers")
				}
				x, err := strconv.ParseFloat(f[0], 64)
				if err != nil {
					return nil, err
				}
				if math.IsNaN(x) || math.IsInf(x, 0) {
					return nil, fmt.Errorf("coordinate %v", x)
				}
				p[a] = x
				f = f[1:]
			}
			vs = append(vs, p)
		}
	}
	if len(vs)%3 != 0 {
		return nil, fmt.Errorf("a part of a triangle")
	}
	var ts []tri
	for i := 0; i < len(vs); i += 3 {
		ts = append(ts, tri{vs[i], vs[i+1], vs[i+2]})
	}
	return ts, nil
}

// sortedTris is an order-independent form of triangles in full precision.
func sortedTris(ts []tri) string {
	var out []string
	for _, t := range ts {
		out = append(out, fmt.Sprint(t))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func (v stlInput) run(c *hx.Ctx) (string, error) {
	fn := c.Tmp(".stl")
	defer os.Remove(fn)
	b := v.body()
	mustWrite(fn, b)
	want, bad := stlTris(b)
	m, err := stl.Load(fn)
	switch {
	case err != nil && v.Must && bad == nil:
		return "", fmt.Errorf("a good file is refused: %v", err)
	case err != nil:
		return "refused", nil
	case bad != nil:
		return "", fmt.Errorf("a broken file is accepted (%v), with %v triangles", bad, len(m.Triangles))
	}
	if a, b := sortedTris(meshTris(m)), sortedTris(want); a != b {
		return "", fmt.Errorf("%v triangles, want %v: %.300s, want %.300s", len(m.Triangles), len(want), a, b)
	}
	if len(want) > 0 {
		lo, hi := V3{math.Inf(1), math.Inf(1), math.Inf(1)}, V3{math.Inf(-1), math.Inf(-1), math.Inf(-1)}
		for _, t := range want {
			for _, p := range t {
				for a := range p {
					lo[a], hi[a] = math.Min(lo[a], p[a]), math.Max(hi[a], p[a])
				}
			}
		}
		bb := m.BoundingBox()
		if (V3{bb.Min.X, bb.Min.Y, bb.Min.Z}) != lo || (V3{bb.Max.X, bb.Max.Y, bb.Max.Z}) != hi {
			return "", fmt.Errorf("the bounding box is %v, want %v %v", bb, lo, hi)
		}
	}
	if !bytes.Equal(mustRead(fn), b) {
		return "", fmt.Errorf("the file has changed")
	}
	return fmt.Sprint("loaded ", len(want)), nil
}

// stlCmd gives an STL file to a command.
type stlCmd struct {
	Cmd  string // merge-stl, base or cut of stldice, slave
	File stlInput
}

// upload sends the file to stldice-slave.
func (v stlCmd) upload(c *hx.Ctx) (res string, err error) {
	s, err := getSlave(c)
	if err != nil {
		return "", err
	}
	defer func() {
		if e := s.put(); e != nil && (err == nil || strings.Contains(err.Error(), "EOF")) {
			err = e
		}
	}()
	b := v.File.body()
	want, bad := stlTris(b)
	r := regions()[0]
	ctx, cancel := call()
	defer cancel()
	_, err = s.c.AddSTLMesh(ctx, &pb.AddSTLMeshRequest{VoxelRegion: r.pb(), StlFile: b})
	if ctx.Err() != nil || ended(s.dead) {
		return "", fmt.Errorf("the server does not answer")
	}
	files := s.files()
	if err != nil {
		if v.File.Must && bad == nil {
			return "", fmt.Errorf("the slave refuses a good file: %v", err)
		}
		if len(files) > 0 {
			return "", fmt.Errorf("the slave refuses a file but leaves another behind: %v", err)
		}
		return "refused", nil
	}
	if bad != nil {
		return "", fmt.Errorf("the slave accepts a broken file: %v", bad)
	}
	fn := c.Tmp("-up.stl")
	defer os.Remove(fn)
	mustWrite(fn, []byte(files[r.file()]))
	got, err := readSTL(fn)
	if err != nil {
		return "", err
	}
	if f32Tris(got) != f32Tris(want) {
		return "", fmt.Errorf("the slave stores %v triangles, want %v; or others", len(got), len(want))
	}
	return fmt.Sprint("stored ", len(want)), nil
}

func (v stlCmd) run(c *hx.Ctx) (string, error) {
	if v.Cmd == "slave" {
		return v.upload(c)
	}
	dir := c.TmpDir()
	defer os.RemoveAll(dir)
	b := v.File.body()
	want, bad := stlTris(b)
	good := boxTris(V3{}, V3{4, 4, 4}, 0)
	var r hx.Result
	if v.Cmd == "merge-stl" {
		mustWrite(filepath.Join(dir, "x-1.stl"), b)
		mustWrite(filepath.Join(dir, "x-2.stl"), binarySTL(good))
		r = c.Run(dir, c.Cmd("cmd/merge-stl"), "-prefix", "x-")
	} else {
		mustWrite(filepath.Join(dir, "x.stl"), b)
		mustWrite(filepath.Join(dir, "y.stl"), binarySTL(good))
		files := []string{"y.stl", "x.stl"}
		if v.Cmd == "base" {
			files = []string{"x.stl", "y.stl"}
		}
		r = c.Run(dir, c.Cmd("cmd/stldice"), append([]string{"-dim", "4", "-nx", "1", "-ny", "1", "-nz", "1"}, files...)...)
	}
	if r.Hung || strings.Contains(r.Stderr, "panic:") || strings.Contains(r.Stderr, "fatal error:") {
		return "", fmt.Errorf("%v hangs or crashes: %.400s", v.Cmd, r.Stderr)
	}
	if bad != nil {
		if r.Code == 0 {
			return "", fmt.Errorf("%v accepts a broken file: %v", v.Cmd, bad)
		}
		return "refused", nil
	}
	if r.Code != 0 {
		if v.File.Must {
			return "", fmt.Errorf("%v refuses a good file: %.400s", v.Cmd, r.Stderr)
		}
		return "refused", nil
	}
	if v.Cmd != "merge-stl" {
		return "accepted", nil
	}
	got, err := readSTL(filepath.Join(dir, "x-.stl"))
	if err != nil {
		return "", err
	}
	if f32Tris(got) != f32Tris(append(append([]tri{}, want...), good...)) {
		return "", fmt.Errorf("merge-stl writes %v triangles, want %v; or others", len(got), len(want)+len(good))
	}
	return fmt.Sprint("merged ", len(want)), nil
}

var numberMenu = []string{"", "nan", "NaN", "inf", "-Inf", "1e999", "-1e400", "1,5", "abc", "1.", "+1", ".5", "-.5e1", "1e3", "1E-3", "-0", "--1", "1-", "1e", "e1", ".", "1.2.3", "1f", "0x10", "1_0", "\"1\"", "½", "1e-400", "12345678901234567890", "vertex", "\x00", "1\x00", "\xff"}

// textEdits yields all files that differ in one place from an ASCII file.
func textEdits(b []byte, yield func(what string, b []byte) bool) bool {
	lines := strings.SplitAfter(strings.TrimSuffix(string(b), "\n"), "\n")
	lines[len(lines)-1] += "\n"
	with := func(what string, i int, s ...string) bool {
		l := append([]string{}, lines[:i]...)
		l = append(l, s...)
		l = append(l, lines[i+1:]...)
		return yield(what, []byte(strings.Join(l, "")))
	}
	for i, l := range lines {
		f := strings.Fields(l)
		if !with("delete line", i) || !with("double line", i, l, l) || !with("upper case", i, strings.ToUpper(l)) || !with("title case", i, strings.Title(l)) || !with("blank line", i, l, " \t\n") {
			return false
		}
		if i > 0 {
			m := append([]string{}, lines...)
			m[i-1], m[i] = m[i], m[i-1]
			if !yield("swap lines", []byte(strings.Join(m, ""))) || !with("join lines", i-1, strings.TrimRight(lines[i-1], "\n")+" ") {
				return false
			}
			if i > 1 && !with("join three lines", i-1, strings.TrimRight(lines[i-1], "\n")+" "+strings.TrimRight(l, "\n")+" ") {
				return false
			}
		}
		for j := range f {
			join := func(g ...string) string {
				return strings.Join(append(append(append([]string{}, f[:j]...), g...), f[j+1:]...), " ") + "\n"
			}
			if !with("delete word", i, join()) || !with("double word", i, join(f[j], f[j])) || !with("split line", i, join(f[j]+"\n")) || !with("split line before", i, join("\n"+f[j])) {
				return false
			}
			for _, n := range numberMenu {
				if !with("replace word", i, join(n)) {
					return false
				}
			}
			if j > 0 && !with("join words", i, strings.Replace(join(f[j]), f[j-1]+" "+f[j], f[j-1]+f[j], 1)) {
				return false
			}
		}
	}
	for i := range b {
		if !yield("cut", b[:i]) || !yield("delete byte", append(append([]byte{}, b[:i]...), b[i+1:]...)) {
			return false
		}
		for _, x := range []byte{0, ' ', '\n', '\r', 'v', '1', 0xff} {
			if !yield("insert byte", append(append(append([]byte{}, b[:i]...), x), b[i:]...)) {
				return false
			}
		}
	}
	return true
}

func genSTLFiles(c *hx.Ctx, yield func(stlInput) bool) {
	three := manyTris(3)
	one := []tri{{{0, 0, 0.5}, {1.25, 0, -2}, {0, 3e-2, 7}}}
	put := func(what string, b []byte) bool { return yield(stlInput{What: what, Body: append([]byte{}, b...)}) }
	must := func(what string, b []byte) bool { return yield(stlInput{What: what, Body: b, Must: true}) }
	texts := [][]byte{asciiSTL(three), asciiSTL(one)}
	for _, t := range texts {
		if !textEdits(t, put) {
			return
		}
		s := string(t)
		for what, r := range map[string]string{"CRLF": strings.ReplaceAll(s, "\n", "\r\n"), "tabs": strings.ReplaceAll(s, " ", "\t"), "flat": strings.ReplaceAll(strings.ReplaceAll(s, "\n ", "\n"), "  ", ""),
			"no name": strings.ReplaceAll(s, " verif", ""), "long name": strings.ReplaceAll(s, " verif", " a vertex loop 1 2 facet"), "two solids": s + s, "blank in front": "\n " + s, "no end of line": strings.TrimSuffix(s, "\n"),
			"wide": strings.ReplaceAll(s, " ", "        ")} {
			if !must(what, []byte(r)) {
				return
			}
		}
		for what, r := range map[string]string{"CR": strings.ReplaceAll(s, "\n", "\r"), "one line": strings.ReplaceAll(s, "\n", " "), "upper case": strings.ToUpper(s), "BOM": "\xef\xbb\xbf" + s, "UTF-16": strings.Join(strings.Split(s, ""), "\x00"),
			"comment": "solid\n# " + strings.Repeat("x", 70000) + "\n" + s, "form feed": strings.ReplaceAll(s, "\n", "\f")} {
			if !put(what, []byte(r)) {
				return
			}
		}
	}
	// two words of one file at a time
	words := strings.Fields(string(texts[1]))
	layout := func(w []string) []byte {
		var sb strings.Builder
		for _, x := range w {
			if x == "facet" || x == "outer" || x == "vertex" || x == "endloop" || x == "endfacet" || x == "endsolid" {
				sb.WriteString("\n")
			}
			sb.WriteString(x + " ")
		}
		return []byte(sb.String())
	}
	if !must("one line for each keyword", layout(words)) {
		return
	}
	for i := range words {
		for j := i + 1; j < len(words); j++ {
			for _, x := range []string{"", "vertex", "1.5", "nan", "endloop", "solid"} {
				for _, y := range []string{"", "vertex", "1.5", "inf", "endloop"} {
					w := append([]string{}, words...)
					w[i], w[j] = x, y
					if !put("two words", layout(w)) {
						return
					}
				}
			}
			w := append([]string{}, words...)
			w[i], w[j] = w[j], w[i]
			if !put("swap words", layout(w)) {
				return
			}
		}
	}
	// binary files
	for _, head := range []string{"", "solid", "solid name of the part", " solid", "COLOR=", "SOLID", strings.Repeat("solid ", 14)[:80], "solid\nfacet normal 0 0 0\nouter loop\nvertex 1 2 3\n"} {
		for _, n := range []int{0, 1, 2, 3, 4, 7, 8, 9, 10} {
			b := binarySTL(manyTris(n))
			copy(b[:80], head)
			if !must("binary "+head, append([]byte{}, b...)) {
				return
			}
			for i := 0; i < len(b) && (n < 4 || c.Thorough()); i++ {
				if !put("cut "+head, b[:i]) {
					return
				}
			}
			for _, k := range []int{1, 2, 49, 50, 51, 100, 1000} {
				if !put("longer "+head, append(append([]byte{}, b...), make([]byte, k)...)) {
					return
				}
			}
			for i := 0; i < 32; i++ {
				d := append([]byte{}, b...)
				d[80+i/8] ^= 1 << (i % 8)
				if !put("count "+head, d) {
					return
				}
			}
		}
	}
	for n := 1; n <= 3; n++ {
		for i := 0; i < n; i++ {
			for j := 0; j < 12; j++ {
				for _, x := range []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 1e-42, math.MaxFloat32, -math.MaxFloat32} {
					b := binarySTL(manyTris(n))
					binary.LittleEndian.PutUint32(b[84+50*i+4*j:], math.Float32bits(float32(x)))
					b[84+50*i+48] = byte(j) // the attribute has no meaning
					if !must("number", b) {
						return
					}
				}
			}
		}
	}
	for _, n := range []int{255, 256, 257, 1000, 32768, 65535, 65536, 65537, 70000} {
		if !yield(stlInput{What: "many", N: n, Must: true}) || !yield(stlInput{What: "many", N: n, Text: true, Must: true}) {
			return
		}
	}
	// numbers of triangles, which are shared among goroutines
	for n := 1; n < hx.Pick(c, 70, 300); n++ {
		if !yield(stlInput{What: "many", N: n, Must: true}) || !yield(stlInput{What: "many", N: n, Text: true, Must: true}) {
			return
		}
	}
}

func init() {
	hx.Register(&hx.Check{
		ID: "C26", Level: "model_checking",
		Rule: "kind \"load\": stl.Load on all files that differ in one place from an ASCII file (each line deleted, doubled, swapped, joined, split, in other case; each word deleted, doubled, replaced by 33 others; each byte deleted, or seven bytes inserted before it; every cut), all pairs of words of one facet replaced or swapped, 17 layouts, binary files with eight headers, every cut, extension and bit of the count, all special numbers in all places, and 1 to 70 (thorough: 300) and up to 70000 triangles. " +
			"kind \"command\": the single edits of a one-facet file, and binary files with cuts and special numbers, and files of 100 to 70000 triangles, uploaded to stldice-slave, and given to merge-stl and as base and cut to stldice. An independent reader says which triangles a file has; the file is loaded with exactly these and their exact bounding box, or refused; broken files are refused, and good ones in a usual layout accepted.",
		Assumptions: []string{"Text that is not part of a vertex, like a normal or a missing endfacet, may be ignored; a file that is cut between two triangles is not told from a complete one.", "An ASCII file with an unusual layout (vertexes that share a line, upper case) may be refused."},
		Setup: func(c *hx.Ctx) func() {
			load := hx.Kind(c, "load", func(v stlInput) (string, error) { return v.run(c) })
			cmd := hx.Kind(c, "command", func(v stlCmd) (string, error) { return v.run(c) })
			return func() {
				defer stopSlaves()
				c.Cmd("cmd/merge-stl")
				c.Cmd("cmd/stldice")
				hx.Each(c, load, func(yield func(stlInput) bool) { genSTLFiles(c, yield) })
				hx.Each(c, cmd, func(yield func(stlCmd) bool) {
					i := 0
					ok := textEdits(asciiSTL([]tri{{{0, 0, 0.5}, {1.25, 0, -2}, {0, 3e-2, 7}}}), func(what string, b []byte) bool {
						i++
						if !yield(stlCmd{"slave", stlInput{What: what, Body: append([]byte{}, b...)}}) {
							return false
						}
						if i%3 != 0 && strings.Contains(what, "byte") && !c.Thorough() {
							return true
						}
						f := stlInput{What: what, Body: append([]byte{}, b...)}
						if bytes.Contains(b, []byte("5678")) || bytes.Contains(b, []byte("1e3")) { // stldice would be busy for long
							return true
						}
						return yield(stlCmd{"merge-stl", f}) && (i%2 == 0 || yield(stlCmd{"cut", f})) && (i%2 == 1 || yield(stlCmd{"base", f}))
					})
					if !ok {
						return
					}
					for _, n := range []int{100, 255, 256, 1000, 32768, 65535, 65536, 70000} {
						for _, x := range []string{"slave", "merge-stl"} {
							if !yield(stlCmd{x, stlInput{What: "many", N: n, Must: true}}) || !yield(stlCmd{x, stlInput{What: "many", N: n, Text: true, Must: x != "slave" || n < 10000}}) { // gRPC limits the size
								return
							}
						}
					}
					for _, head := range []string{"", "solid x"} {
						b := binarySTL(boxTris(V3{1, 1, -1}, V3{2, 2, 9}, 3))
						copy(b, head)
						for _, n := range []string{"merge-stl", "cut", "base", "slave"} {
							if !yield(stlCmd{n, stlInput{What: "binary", Body: b, Must: true}}) {
								return
							}
							for k := 0; k < len(b); k++ {
								if !yield(stlCmd{n, stlInput{What: "cut", Body: b[:k]}}) {
									return
								}
							}
							for j := 0; j < 36; j++ {
								d := append([]byte{}, b...)
								binary.LittleEndian.PutUint32(d[84+50*(j/9)+12+4*(j%9):], math.Float32bits(float32(math.Inf(j%3-1))*float32(j%2)))
								if !yield(stlCmd{n, stlInput{What: "number", Body: d}}) {
									return
								}
							}
						}
					}
				})
			}
		},
	})
}
