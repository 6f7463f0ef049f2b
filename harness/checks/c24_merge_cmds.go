package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/gmlewis/stldice/v4/vshell"
	"stldiceverif/hx"
)

// mcase is one run of merge-binvox or merge-stl in a directory with pieces and other files.
type mcase struct {
	Cmd    string
	Prefix string // ROOT stands for the absolute path of the directory
	Names  []string
	Bad    []string `json:",omitempty"` // what is wrong with the piece ("" = nothing)
	Have   string   `json:",omitempty"` // the output exists: "valid", "garbage", "empty"
	Force  bool     `json:",omitempty"`
	Num    int      `json:",omitempty"`
	Shape  int      `json:",omitempty"`
	Many   int      `json:",omitempty"` // so many pieces
	Big    int      `json:",omitempty"` // so large pieces
}

func (v mcase) ext() string {
	if v.Cmd == "merge-stl" {
		return ".stl"
	}
	return ".binvox"
}

func (v mcase) outExt() string {
	if v.Cmd == "merge-stl" {
		return ".stl"
	}
	return ".vsh"
}

var mshapes = []piece{{N: K{2, 2, 2}, Bits: 0xff}, {N: K{3, 1, 2}, Bits: 0x2d}, {N: K{3, 3, 3}, Bits: 1<<27 - 1}}

// piece returns the content of piece i.
func (v mcase) piece(i int, m *mergeCase) ([]byte, []tri) {
	p := mshapes[(i+v.Shape)%len(mshapes)]
	p.O = K{3 * i, i % 2, -i}
	if v.Big > 0 {
		p = piece{N: K{v.Big, v.Big - 1, v.Big + 1}, Pat: []string{"full", "comb", "hollow"}[(i+v.Shape)%3], O: K{v.Big * (i / 2), (v.Big - 1) * (i % 2), i}}
		p.O[2] = (v.Big + 1) * (i % 3)
	}
	if v.Cmd == "merge-binvox" {
		m.Pieces = append(m.Pieces, p)
		b := m.bv(p)
		return encodeBinvox(header{p.N, [3]float64{b.TX, b.TY, b.TZ}, b.Scale}, p.set()), nil
	}
	ts := boxTris(V3{float64(3 * i), 0.1, -1.25}, V3{float64(3*i) + 1.5, 0.7, 1e-3}, i*7)
	for k := 1; k < v.Big*v.Big; k++ {
		ts = append(ts, boxTris(V3{float64(3 * i), float64(k), -1}, V3{float64(3*i) + 1, float64(k) + 0.5, 1}, k)...)
	}
	ts = ts[:len(ts)-(i+v.Shape)%3] // any triangles, not a closed mesh
	if (i+v.Shape)%2 == 0 {
		return asciiSTL(ts), ts
	}
	return binarySTL(ts), ts
}

// stlKeys are the triangles as the float32 values of a binary STL, sorted.
func stlKeys(ts []tri) []string {
	var out []string
	for _, t := range ts {
		var s []string
		for _, p := range t {
			s = append(s, fmt.Sprint(float32(p[0]), float32(p[1]), float32(p[2])))
		}
		// a triangle is the same whichever vertex comes first
		best := strings.Join(s, "|")
		for i := 1; i < 3; i++ {
			if r := strings.Join(append(append([]string{}, s[i:]...), s[:i]...), "|"); r < best {
				best = r
			}
		}
		out = append(out, best)
	}
	sort.Strings(out)
	return out
}

func (v mcase) run(c *hx.Ctx) (string, error) {
	for i := 0; i < v.Many; i++ {
		v.Names = append(v.Names[:i:i], fmt.Sprintf("-%d", i))
	}
	dir := c.TmpDir()
	defer os.RemoveAll(dir)
	prefix := strings.Replace(v.Prefix, "ROOT", dir, 1)
	full := prefix
	if !filepath.IsAbs(full) {
		full = dir + "/" + prefix
	}
	os.MkdirAll(filepath.Dir(full), 0o755)
	os.MkdirAll(filepath.Join(dir, "d"), 0o755)
	m := &mergeCase{VPMM: 2, T0: V3{-1, 0.5, 10}}
	outFile := filepath.Clean(full + v.outExt())
	write := func(fn string, b []byte) {
		mustWrite(fn, b)
	}
	var ts []tri
	wantFail := false
	for i, n := range v.Names {
		fn := filepath.Clean(full + n + v.ext())
		if fn == outFile {
			return "", nil // not a piece
		}
		bad := ""
		if i < len(v.Bad) {
			bad = v.Bad[i]
		}
		b, t := v.piece(i, m)
		switch bad {
		case "":
			ts = append(ts, t...)
			write(fn, b)
			continue
		case "empty":
			write(fn, nil)
		case "cut":
			write(fn, b[:len(b)-7])
		case "half":
			write(fn, b[:len(b)/2])
		case "garbage":
			write(fn, []byte(strings.Repeat("not a model\x00\x01\x02\x03", 40)))
		case "dir":
			os.Mkdir(fn, 0o755)
		case "link":
			os.Symlink("nowhere", fn)
		}
		wantFail = true
	}
	// bystanders
	other := map[string]string{
		"unrelated" + v.ext(): "other", "d/x.txt": "y", "zz.vsh": "v",
	}
	var oldTris []tri
	switch v.Have {
	case "valid":
		if v.Cmd == "merge-stl" {
			oldTris = boxTris(V3{90, 90, 90}, V3{91, 91, 91}, 0)
			write(outFile, binarySTL(oldTris))
		} else {
			write(outFile, []byte("#vshell 1\ndim 0 0 0\ntranslate 0 0 0\nscale 1\ndata\n"))
		}
	case "garbage":
		write(outFile, []byte("precious"))
	case "empty":
		write(outFile, nil)
	}
	// pieces whose names the prefix would match, were it a pattern
	if d := strings.NewReplacer("[ab]", "a", "[1]", "1", "[!x]", "y", "*", "zz", "?", "q", `\`, "").Replace(prefix); d != prefix {
		decoy := mcase{Cmd: v.Cmd}
		for i, n := range v.Names {
			fn := filepath.Clean(d + n + v.ext())
			if !filepath.IsAbs(fn) {
				fn = filepath.Join(dir, fn)
			}
			b, _ := decoy.piece(i+9, &mergeCase{VPMM: 2})
			os.MkdirAll(filepath.Dir(fn), 0o755)
			write(fn, b)
		}
	}
	for f, b := range other {
		write(filepath.Join(dir, f), []byte(b))
	}
	before := snapshot(dir)
	rel, _ := filepath.Rel(dir, outFile)

	args := []string{"-prefix", prefix}
	if v.Force {
		args = append(args, "-f")
	}
	if v.Num > 0 {
		args = append(args, "-num", fmt.Sprint(v.Num))
	}
	r := c.Run(dir, c.Cmd("cmd/"+v.Cmd), args...)
	if r.Hung {
		return "", fmt.Errorf("%s %v hangs", v.Cmd, args)
	}
	after := snapshot(dir)
	outBytes, wrote := after[rel]
	oldBytes, had := before[rel]
	delete(before, rel)
	delete(after, rel)
	if !equalMaps(before, after) {
		return "", fmt.Errorf("%s %v: other files have changed", v.Cmd, args)
	}
	what := fmt.Sprintf("%s %v (pieces %q %q, output exists: %q)", v.Cmd, args, v.Names, v.Bad, v.Have)
	if v.Have != "" && !v.Force || wantFail || len(v.Names) == 0 {
		if r.Code == 0 {
			return "", fmt.Errorf("%s succeeds", what)
		}
		if wrote != had || outBytes != oldBytes {
			return "", fmt.Errorf("%s fails but changes the output", what)
		}
		return "refused", nil
	}
	if r.Code != 0 {
		return "", fmt.Errorf("%s: exit %d: %.400s", what, r.Code, r.Stderr)
	}
	if v.Cmd == "merge-stl" {
		got, err := readSTL(outFile)
		if err != nil {
			return "", fmt.Errorf("%s: %v", what, err)
		}
		g, w := stlKeys(got), stlKeys(ts)
		if fmt.Sprint(g) != fmt.Sprint(w) {
			return "", fmt.Errorf("%s: %d triangles, want the %d of the pieces", what, len(g), len(w))
		}
		return fmt.Sprint(len(g), len(v.Names)), nil
	}
	u := Set{}
	for _, p := range m.Pieces {
		for k := range p.set() {
			u[K{k[0] + p.O[0], k[1] + p.O[1], k[2] + p.O[2]}] = true
		}
	}
	back, err := vshell.Read(outFile, 0, 0, 0, 0, 0, 0)
	if err != nil {
		return "", fmt.Errorf("%s: reading the output: %v", what, err)
	}
	if err := checkShell(*m, back, u); err != nil {
		return "", fmt.Errorf("%s: %v", what, err)
	}
	if _, s, err := decodeVShell(mustRead(outFile)); err != nil || len(s) != len(exposed(u)) {
		return "", fmt.Errorf("%s: the output holds %d of %d voxels: %v", what, len(s), len(exposed(u)), err)
	}
	return stateOf(back), nil
}

// snapshot returns the contents of all files below dir.
func snapshot(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case fi.IsDir():
			out[rel] = "directory"
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			out[rel] = "link " + l
		default:
			out[rel] = "file " + string(mustRead(p))
		}
		return nil
	})
	return out
}

func genMergeCmds(c *hx.Ctx, yield func(mcase) bool) {
	prefixes := []string{"out", "./out", "d/out", "d//out", "./d/../out", "ROOT/out", "ROOT//d/./out", "d/../d/out.v2", "out.stl",
		"o[ab]t", "d[1]/out", "o*t", "d?/*", "[", "[!x]", "out[", `o\*t`, `d\e/out\`, "ROOT/d[1]/o[ab]", "a b", "-f"}
	names := [][]string{{}, {"-0"}, {"-0", "-1"}, {"-b", "-a", "-0"}, {"x", ".y", "out", "-9"}, {"-0", "-1", "-2", "-3", "-4", "-5"}}
	for _, cmd := range []string{"merge-binvox", "merge-stl"} {
		for _, p := range prefixes {
			for _, have := range []string{"", "valid", "garbage", "empty"} {
				for _, force := range []bool{false, true} {
					for ni, n := range names {
						for sh := 0; sh < 3; sh++ {
							v := mcase{Cmd: cmd, Prefix: p, Names: n, Have: have, Force: force, Shape: sh}
							if cmd == "merge-stl" {
								v.Num = (ni + sh) % 4
							}
							if !yield(v) {
								return
							}
						}
					}
				}
			}
		}
		// one piece for which merge-binvox's prefix itself is a model: out.binvox
		if cmd == "merge-binvox" {
			for _, n := range [][]string{{""}, {"", "-1"}, {"-1", "", "-2"}} {
				for _, force := range []bool{false, true} {
					if !yield(mcase{Cmd: cmd, Prefix: "out", Names: n, Force: force}) {
						return
					}
				}
			}
		}
		// many and large pieces
		for _, n := range []int{9, 11, 33, 65, 101, 257} {
			for sh := 0; sh < 3; sh++ {
				for _, bad := range []string{"", "cut", "garbage"} {
					v := mcase{Cmd: cmd, Prefix: "out", Many: n, Shape: sh}
					if cmd == "merge-stl" {
						v.Num = []int{0, 3, 40}[sh]
					} else if n > 100 && sh > 0 {
						continue
					}
					if bad != "" {
						v.Bad = make([]string, n)
						at := []int{n - 1, n / 2, 10 % n}[sh]
						if cmd == "merge-stl" && (at+sh)%2 == 0 {
							at-- // an ASCII STL has no length
						}
						v.Bad[at] = bad
					}
					if !yield(v) {
						return
					}
				}
			}
		}
		for _, b := range []int{17, 40, hx.Pick(c, 52, 80)} {
			for n := 1; n <= 5; n++ {
				for sh := 0; sh < 3; sh++ {
					v := mcase{Cmd: cmd, Prefix: "out", Many: n, Shape: sh, Big: b}
					if cmd == "merge-stl" {
						v.Num = n - 1
					}
					if !yield(v) {
						return
					}
				}
			}
		}
		// every piece broken in every way
		bad := []string{"empty", "cut", "half", "garbage", "dir", "link"}
		for _, have := range []string{"", "valid", "garbage"} {
			for _, p := range []string{"out", "d//out"} {
				for n := 1; n <= 3; n++ {
					for at := 0; at < n; at++ {
						for _, b := range bad {
							for sh := 0; sh < 2; sh++ {
								for num := 1; num <= 3; num++ {
									if num > 1 && cmd == "merge-binvox" {
										continue
									}
									if (b == "cut" || b == "half") && cmd == "merge-stl" && (at+sh)%2 == 0 {
										continue // an ASCII STL has no length
									}
									v := mcase{Cmd: cmd, Prefix: p, Have: have, Force: true, Shape: sh, Bad: make([]string, n)}
									for i := 0; i < n; i++ {
										v.Names = append(v.Names, fmt.Sprintf("-%d", i))
									}
									if cmd == "merge-stl" {
										v.Num = num
									}
									v.Bad[at] = b
									if !yield(v) {
										return
									}
								}
							}
						}
					}
				}
			}
		}
	}
}

func init() {
	hx.Register(&hx.Check{
		ID: "C24", Level: "model_checking",
		Rule: "cases: runs of merge-binvox and merge-stl for 21 spellings of the prefix (some would be patterns) x six sets of pieces x three mixes of pieces x four states of the output x with and without -f, every piece broken in six ways, 9 to 257 pieces (with one of them broken), and up to five pieces of up to 52x51x53 voxels or 32000 triangles; non-trivial: every case, the outcome is the merged model or the refusal",
		Setup: func(c *hx.Ctx) func() {
			run := hx.Kind(c, "merge", func(v mcase) (string, error) { return v.run(c) })
			return func() {
				c.Cmd("cmd/merge-binvox")
				c.Cmd("cmd/merge-stl")
				hx.Each(c, run, func(yield func(mcase) bool) { genMergeCmds(c, yield) })
			}
		},
		Assumptions: []string{"a truncated ASCII STL file is not told from a complete one"},
	})
}
