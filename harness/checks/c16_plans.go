package checks

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"strconv"
	"strings"

	"stldiceverif/hx"
)

// planCase is one run of voxcut-dice.
type planCase struct {
	N     K
	Bits  uint64 `json:",omitempty"` // voxels of the model, 0 = header only
	Pat   string `json:",omitempty"` // a pattern that fills N
	Size  int
	BV    bool
	STL   bool
	VOX   bool
	Cuts  []cutPiece `json:",omitempty"`
	Exec  bool       `json:",omitempty"` // let it run voxcut
	Odd   string     `json:",omitempty"` // part of all names
	Again bool       `json:",omitempty"` // outputs of another run exist already
}

var flagRE = regexp.MustCompile(`^-(sx|sy|sz|cx|cy|cz|obinvox|ostl|ovox)$`)

type planLine struct {
	s, c  K
	outs  map[string]string
	files []string
}

// shellWords runs a script whose commands only record their names and arguments.
func shellWords(c *hx.Ctx, script string) ([][]string, error) {
	dir := c.TmpDir()
	defer os.RemoveAll(dir)
	if !strings.HasPrefix(script, "#!/bin/bash") && !strings.HasPrefix(script, "#!/usr/bin/env bash") && !strings.HasPrefix(script, "#!/bin/sh") {
		return nil, fmt.Errorf("the plan starts with %.40q", script)
	}
	mustWrite(filepath.Join(dir, "plan.sh"), []byte(script))
	mustWrite(filepath.Join(dir, "run.sh"), []byte(`record() { printf '%s\0' "$@" >&3; printf '\1\0' >&3; }
voxcut() { record voxcut "$@"; }
binvox() { record binvox "$@"; }
command_not_found_handle() { record "$@"; }
PATH=/nowhere
exec 3>record
. ./plan.sh 2>errors
`))
	if r := c.RunShell(dir, dir, "run.sh"); r.Hung || r.Code != 0 {
		return nil, fmt.Errorf("the plan cannot be run: exit %d: %.400s", r.Code, r.Stderr)
	}
	if e, _ := os.ReadFile(filepath.Join(dir, "errors")); len(e) > 0 {
		return nil, fmt.Errorf("the plan cannot be run: %.400s", e)
	}
	b, err := os.ReadFile(filepath.Join(dir, "record"))
	if err != nil {
		return nil, err
	}
	var out [][]string
	var line []string
	for _, w := range strings.Split(strings.TrimSuffix(string(b), "\x00"), "\x00") {
		if w == "\x01" {
			out, line = append(out, line), nil
		} else {
			line = append(line, w)
		}
	}
	return out, nil
}

// parseVoxcut parses a voxcut command line like the flag package does.
func parseVoxcut(w []string) (p planLine, err error) {
	if len(w) == 0 || w[0] != "voxcut" {
		return p, fmt.Errorf("not a voxcut command: %q", w)
	}
	p.outs = map[string]string{}
	for i := 1; i < len(w); i++ {
		name, val, eq := strings.Cut(w[i], "=")
		if strings.HasPrefix(name, "--") {
			name = name[1:]
		}
		m := flagRE.FindStringSubmatch(name)
		if m == nil {
			if strings.HasPrefix(w[i], "-") && len(w[i]) > 1 {
				return p, fmt.Errorf("unknown flag %q in %q", w[i], w)
			}
			p.files = w[i:]
			break
		}
		if !eq {
			if i++; i == len(w) {
				return p, fmt.Errorf("no value in %q", w)
			}
			val = w[i]
		}
		if strings.HasPrefix(m[1], "o") {
			p.outs[m[1][1:]] = val
			continue
		}
		n, err := strconv.Atoi(val)
		if err != nil {
			return p, err
		}
		a := int(m[1][1] - 'x')
		if m[1][0] == 's' {
			p.s[a] = n
		} else {
			p.c[a] = n
		}
	}
	return p, nil
}

func (v planCase) run(c *hx.Ctx) (string, error) {
	dir := c.TmpDir()
	defer os.RemoveAll(dir)
	t := V3{-2, 0.5, 3}
	base := subset(v.N, v.Bits)
	if v.Pat != "" {
		base = pattern(v.N, v.Pat)
	}
	h := header{v.N, t, scaleOf(v.N, 2)}
	mustWrite(filepath.Join(dir, "base"+v.Odd+".binvox"), encodeBinvox(h, base))
	args := []string{"-size", fmt.Sprint(v.Size)}
	if !v.Exec {
		args = append(args, "-n")
	}
	kinds := map[string]string{}
	if v.BV {
		args = append(args, "-obinvox", "pb"+v.Odd)
		kinds["binvox"] = "pb" + v.Odd
	}
	if v.STL {
		args = append(args, "-ostl", "ps"+v.Odd)
		kinds["stl"] = "ps" + v.Odd
	}
	if v.VOX {
		args = append(args, "-ovox", "pv"+v.Odd)
		kinds["vox"] = "pv" + v.Odd
	}
	args = append(args, "base"+v.Odd+".binvox")
	files := []string{"base" + v.Odd + ".binvox"}
	want := Set{}
	fail := false
	for k := range base {
		want[k] = true
	}
	for i, p := range v.Cuts {
		fn := fmt.Sprintf("cut%d%s.binvox", i, v.Odd)
		files = append(files, fn)
		if p.What == "missing" {
			continue
		}
		s := subset(p.N, p.Bits)
		var ct V3
		for a := 0; a < 3; a++ {
			ct[a] = t[a] + float64(p.Off[a])/2
		}
		b := encodeBinvox(header{p.N, ct, scaleOf(p.N, 2)}, s)
		if p.What == "truncated" || p.What == "corrupt" {
			fail = fail || i == 0 // after a first cut that leaves nothing, the others need not be read
			if p.What == "truncated" {
				b = b[:len(b)-1]
			} else {
				b[len(b)-2] = 7
			}
		}
		mustWrite(filepath.Join(dir, fn), b)
		for k := range s {
			delete(want, K{k[0] + p.Off[0], k[1] + p.Off[1], k[2] + p.Off[2]})
		}
	}
	args = append(args, files[1:]...)
	if v.Again { // a run of the same sections without cuts
		b := append([]string{}, args...)
		r := c.RunEnv(dir, []string{"PATH=" + filepath.Dir(c.Cmd("cmd/voxcut-dice")) + ":" + os.Getenv("PATH")}, c.Cmd("cmd/voxcut-dice"), b[:len(b)-len(files)+1]...)
		if r.Code != 0 {
			return "", fmt.Errorf("voxcut-dice %v: exit %d: %.700s", b, r.Code, r.Stderr)
		}
	}
	dice := c.Cmd("cmd/voxcut-dice")
	c.Cmd("cmd/voxcut")
	r := c.RunEnv(dir, []string{"PATH=" + filepath.Dir(dice) + ":" + os.Getenv("PATH")}, dice, args...)
	if r.Hung {
		return "", fmt.Errorf("voxcut-dice %v hangs", args)
	}
	if len(kinds) == 0 || v.Size < 1 || v.Size > max(v.N[0], v.N[1], v.N[2]) {
		if r.Code == 0 || len(r.Stdout) > 0 {
			return "", fmt.Errorf("voxcut-dice %v: exit %d, should refuse", args, r.Code)
		}
		return "refused", nil
	}
	if fail && v.Exec {
		if r.Code == 0 {
			return "", fmt.Errorf("voxcut-dice %v succeeds though a cut cannot be read", args)
		}
		return "failed", nil
	}
	if r.Code != 0 {
		return "", fmt.Errorf("voxcut-dice %v: exit %d: %.700s", args, r.Code, r.Stderr)
	}
	if v.Exec {
		return v.judgeExec(dir, want, t)
	}
	lines, err := shellWords(c, r.Stdout)
	if err != nil {
		return "", err
	}
	seen := map[string]bool{}
	cover := map[K]int{}
	for _, l := range lines {
		p, err := parseVoxcut(l)
		if err != nil {
			return "", err
		}
		if !slices.Equal(p.files, files) {
			return "", fmt.Errorf("%q cuts %v, want %v", l, p.files, files)
		}
		if len(p.outs) != len(kinds) {
			return "", fmt.Errorf("%q writes %v, want outputs %v", l, p.outs, kinds)
		}
		for k, pre := range kinds {
			o := p.outs[k]
			if !strings.HasPrefix(o, pre) || !strings.HasSuffix(o, "."+k) || seen[o] {
				return "", fmt.Errorf("%q: bad or repeated output %q", l, o)
			}
			seen[o] = true
		}
		for a := 0; a < 3; a++ {
			if p.c[a] < 1 || p.c[a] > v.Size || p.s[a] < 0 {
				return "", fmt.Errorf("%q: bad window for size %d", l, v.Size)
			}
		}
		lo, hi, ok := readWindow(v.N, p.s, p.c)
		if !ok {
			return "", fmt.Errorf("%q: window outside of the model %v", l, v.N)
		}
		n := 0
		for x := lo[0]; x < hi[0]; x++ {
			for y := lo[1]; y < hi[1]; y++ {
				for z := lo[2]; z < hi[2]; z++ {
					cover[K{x, y, z}]++
					n++
				}
			}
		}
		if n == 0 {
			return "", fmt.Errorf("%q: no voxels in the window", l)
		}
	}
	for _, k := range box(v.N) {
		if cover[k] != 1 {
			return "", fmt.Errorf("voxcut-dice %v: voxel %v lies in %d sections", args, k, cover[k])
		}
	}
	return fmt.Sprint(len(lines)), nil
}

// judgeExec puts the written sections together.
func (v planCase) judgeExec(dir string, want Set, t V3) (string, error) {
	if v.BV {
		got := Set{}
		m, _ := filepath.Glob(filepath.Join(dir, "pb*.binvox"))
		for _, f := range m {
			p := regexp.MustCompile(`-(\d+)-(\d+)-(\d+)-\d+-\d+-\d+\.binvox$`).FindStringSubmatch(f)
			if p == nil {
				return "", fmt.Errorf("unexpected output %q", f)
			}
			var o K
			for a := 0; a < 3; a++ {
				o[a], _ = strconv.Atoi(p[a+1])
			}
			_, s, err := decodeBinvox(mustRead(f))
			if err != nil {
				return "", err
			}
			for k := range s {
				w := K{k[0] + o[0], k[1] + o[1], k[2] + o[2]}
				if got[w] {
					return "", fmt.Errorf("voxel %v lies in two sections", w)
				}
				got[w] = true
			}
		}
		if err := diff(got, want); err != nil {
			return "", fmt.Errorf("the sections together: %v", err)
		}
	}
	if v.STL {
		var ts []tri
		m, _ := filepath.Glob(filepath.Join(dir, "ps*.stl"))
		for _, f := range m {
			q, err := readSTL(f)
			if err != nil {
				return "", err
			}
			ts = append(ts, q...)
		}
		for i := range ts {
			for j := range ts[i] {
				for a := 0; a < 3; a++ {
					ts[i][j][a] = (ts[i][j][a] - t[a]) * 2
				}
			}
		}
		if len(want) == 0 && len(ts) == 0 {
			return "nothing", nil
		}
		if err := checkMesh(ts, want, "voxel"); err != nil {
			return "", fmt.Errorf("the sections together: %v", err)
		}
	}
	return "run " + want.hash(), nil
}

// oddNames are parts of file names that mean something to a shell, to printf or to glob.
var oddNames = []string{" b", "  ", "'", "'\"'", "$HOME", "${x}", "$(x)", "`x`", "*", "?", "[1]", "{a,b}", " (2)", ";", "&", "|", "\"", "\\", "\\n", "#", " #x", "~", "!", "!!", "%d", "%", "%%", "%[1]v", "é", "<", ">f", "\t", "^", "=", ",", "@", "+", ":"}

func genPlans(c *hx.Ctx, yield func(planCase) bool) {
	top := 4
	if c.Thorough() {
		top = 6
	}
	for x := 1; x <= top; x++ {
		for y := 1; y <= top; y++ {
			for z := 1; z <= top; z++ {
				for s := 0; s <= max(x, y, z)+1; s++ {
					v := planCase{N: K{x, y, z}, Size: s, BV: (x+y)%2 == 0, STL: (y+z+s)%2 == 0, VOX: (x+s)%3 == 0}
					if !v.BV && !v.STL && !v.VOX {
						v.STL = true
					}
					if !yield(v) {
						return
					}
				}
			}
		}
	}
	for b := 0; b < 8; b++ {
		if !yield(planCase{N: K{5, 3, 2}, Size: 2, BV: b&1 == 1, STL: b&2 == 2, VOX: b&4 == 4, Cuts: []cutPiece{{What: "missing"}, {N: K{1, 1, 1}, Bits: 1}}}) {
			return
		}
	}
	for _, odd := range append(oddNames, "a\nb", "\r") {
		for _, x := range []bool{false, true} {
			for s := 1; s <= 3; s++ {
				if !yield(planCase{N: K{3, 2, 2}, Bits: 0xb7d, Size: s, BV: true, STL: true, VOX: true, Odd: odd, Exec: x, Cuts: []cutPiece{{N: K{2, 1, 1}, Bits: 3, Off: K{1, 0, 0}}}}) {
					return
				}
			}
		}
	}
	for _, big := range []K{{1000, 1, 1}, {1, 513, 2}, {257, 256, 1}, {2, 2, 12345}} {
		for _, s := range []int{256, 255, 257, 128, 1000} {
			if !yield(planCase{N: big, Size: s, STL: true}) {
				return
			}
		}
	}
	// large, executed
	for i, p := range []struct {
		n    K
		s    int
		pat  string
		cuts []cutPiece
	}{
		{K{130, 70, 3}, 64, "full", nil}, {K{70, 3, 130}, 65, "bars", nil}, {K{5, 300, 4}, 100, "hollow", []cutPiece{{N: K{3, 3, 3}, Bits: 1<<27 - 1, Off: K{1, 99, 1}}}},
		{K{300, 2, 2}, 30, "full", []cutPiece{{N: K{9, 2, 2}, Bits: 1<<36 - 1, Off: K{29, 0, 0}}, {N: K{30, 1, 2}, Bits: 1<<60 - 1, Off: K{60, 0, 0}}, {N: K{30, 1, 2}, Bits: 1<<60 - 1, Off: K{60, 1, 0}}}},
		{K{40, 40, 40}, 13, "dust", nil}, {K{2, 2, 260}, 256, "full", nil}, {K{260, 2, 2}, 255, "comb", nil},
	} {
		if !yield(planCase{N: p.n, Pat: p.pat, Size: p.s, BV: true, STL: true, VOX: i%2 == 0, Exec: true, Cuts: p.cuts}) {
			return
		}
	}
	// executed
	cuts := []cutPiece{
		{N: K{3, 3, 3}, Bits: 1<<27 - 1, Off: K{0, 0, 0}}, // whole sections disappear
		{N: K{1, 9, 9}, Bits: 1<<63 - 1, Off: K{2, -3, -3}},
		{N: K{2, 2, 2}, Bits: 0xff, Off: K{4, 2, 1}},
		{N: K{2, 2, 2}, Bits: 0x96, Off: K{1, 1, 1}},
		{N: K{2, 2, 2}, Bits: 0x96, Off: K{50, 1, 1}},
	}
	for i, n := range []K{{6, 3, 3}, {3, 5, 2}, {2, 2, 7}} { // a section fails
		for _, w := range []string{"truncated", "corrupt"} {
			for s := 1; s <= 3; s++ {
				for _, o := range []K{{}, {5, 2, 2}, {50, 0, 0}} {
					if !yield(planCase{N: n, Bits: 1<<20 - 1, Size: s, BV: true, STL: s == 2, VOX: i == 1, Exec: true, Cuts: []cutPiece{{What: w, N: K{2, 2, 2}, Bits: 0xff, Off: o}}}) {
						return
					}
				}
			}
		}
	}
	for _, n := range []K{{6, 3, 3}, {3, 5, 2}, {2, 2, 7}} {
		for _, bits := range []uint64{1<<54 - 1, 0x2d5a_b96d_3c71_e5b7, 0x1} {
			for s := 1; s <= 4; s++ {
				if s == 1 && !c.Thorough() {
					continue
				}
				for nc := 0; nc <= 2; nc++ {
					if !tuples(cuts, nc, func(t []cutPiece) bool {
						if nc == 2 && s != 2 && !c.Thorough() {
							return true
						}
						b := bits
						if w := n[0] * n[1] * n[2]; w < 64 {
							b &= 1<<uint(w) - 1
						}
						return yield(planCase{N: n, Bits: b, Size: s, BV: true, STL: true, Cuts: t, Exec: true}) &&
							(nc == 0 || yield(planCase{N: n, Bits: b, Size: s, BV: true, STL: true, Cuts: t, Exec: true, Again: true}))
					}) {
						return
					}
				}
			}
		}
	}
}

// bbCase is one run of binvox-dice.
type bbCase struct {
	Factor int
	Sub    [3]bool
	Lo, Hi V3
	Form   int // how the box is written
	Files  int
	Names  []string `json:",omitempty"` // instead of Files
	Bad    string   `json:",omitempty"` // a malformed bounding box
}

var bbForms = []string{
	"(%s,%s,%s)-(%s,%s,%s)",
	"[%s,%s,%s]-[%s,%s,%s]",
	" ( %s , %s , %s ) - ( %s , %s , %s ) ",
	"(%s, %s, %s) - [%s, %s, %s]",
}

func (v bbCase) run(c *hx.Ctx) (string, error) {
	args := []string{"-factor", fmt.Sprint(v.Factor)}
	for a, x := range []string{"subx", "suby", "subz"} {
		args = append(args, fmt.Sprintf("-%s=%v", x, v.Sub[a]))
	}
	f := func(x float64) string { return ff(x) }
	mbb := v.Bad
	if mbb == "" {
		mbb = fmt.Sprintf(bbForms[v.Form], f(v.Lo[0]), f(v.Lo[1]), f(v.Lo[2]), f(v.Hi[0]), f(v.Hi[1]), f(v.Hi[2]))
	}
	args = append(args, "-mbb", mbb)
	var files []string
	for i := 0; i < v.Files; i++ {
		files = append(files, fmt.Sprintf("m%d.stl", i))
	}
	if v.Names != nil {
		files = v.Names
	}
	args = append(args, files...)
	r := c.Run(c.Scratch, c.Cmd("cmd/binvox-dice"), args...)
	if r.Hung {
		return "", fmt.Errorf("binvox-dice hangs")
	}
	if len(files) == 0 || v.Bad != "" || v.Factor < 1 && (v.Sub[0] || v.Sub[1] || v.Sub[2]) {
		if r.Code == 0 || strings.Contains(r.Stdout, "voxcut") {
			return "", fmt.Errorf("binvox-dice %q: exit %d, should refuse", args, r.Code)
		}
		return "refused", nil
	}
	if r.Code != 0 {
		return "", fmt.Errorf("binvox-dice %v: exit %d: %.400s", args, r.Code, r.Stderr)
	}
	var n K
	for a := range n {
		n[a] = 1
		if v.Sub[a] {
			n[a] = v.Factor
		}
	}
	// the lines of the plan
	type bb struct {
		box  [6]float64
		file string
	}
	var group []bb
	boxes := map[K]bool{}
	outs := map[string]bool{}
	num, dim := 0, 0
	plan, err := shellWords(c, r.Stdout)
	if err != nil {
		return "", fmt.Errorf("binvox-dice %q: %v", args, err)
	}
	for _, l := range plan {
		w := l
		if w[0] == "binvox" {
			var b bb
			ok, d := false, 0
			for i := 1; i < len(w); i++ {
				switch w[i] {
				case "-bb":
					if i+6 >= len(w) {
						return "", fmt.Errorf("bad line %q", l)
					}
					for j := 0; j < 6; j++ {
						x, err := strconv.ParseFloat(w[i+1+j], 64)
						if err != nil {
							return "", fmt.Errorf("bad line %q", l)
						}
						b.box[j] = x
					}
					ok = true
					i += 6
				case "-d":
					i++
					if i < len(w) {
						d, _ = strconv.Atoi(w[i])
					}
				}
			}
			if d < 1 || d > 1024 || dim != 0 && d != dim {
				return "", fmt.Errorf("resolution %d in %q: binvox is reliable up to 1024, and all regions need the same", d, l)
			}
			dim = d
			b.file = w[len(w)-1]
			if !ok {
				return "", fmt.Errorf("no box in %q", l)
			}
			group = append(group, b)
			continue
		}
		p, err := parseVoxcut(l)
		if err != nil {
			return "", err
		}
		// one box for all files, in the order of the files
		if len(group) != len(files) || len(p.files) != len(files) {
			return "", fmt.Errorf("%d binvox commands and %d inputs for %d files before %q", len(group), len(p.files), len(files), l)
		}
		suffix := ""
		if num > 0 {
			suffix = fmt.Sprintf("_%d", num) // binvox does not overwrite its output but numbers it
		}
		for i, g := range group {
			if g.box != group[0].box || g.file != files[i] {
				return "", fmt.Errorf("binvox command %d before %q: %v", i, l, g)
			}
			if w := strings.TrimSuffix(files[i], ".stl") + suffix + ".binvox"; p.files[i] != w {
				return "", fmt.Errorf("%q reads %q, binvox wrote %q", l, p.files[i], w)
			}
		}
		if o := p.outs["stl"]; o == "" || outs[o] {
			return "", fmt.Errorf("%q: no or repeated output", l)
		}
		outs[p.outs["stl"]] = true
		// which cell of the subdivision is it?
		var k K
		for a := 0; a < 3; a++ {
			step := (v.Hi[a] - v.Lo[a]) / float64(n[a])
			tol := 1e-9 * (1 + math.Abs(v.Lo[a]) + math.Abs(v.Hi[a]))
			k[a] = int(math.Round((group[0].box[a] - v.Lo[a]) / step))
			if math.Abs(group[0].box[a]-(v.Lo[a]+float64(k[a])*step)) > tol || math.Abs(group[0].box[a+3]-(v.Lo[a]+float64(k[a]+1)*step)) > tol {
				return "", fmt.Errorf("box %v is no cell of %v-%v divided by %v", group[0].box, v.Lo, v.Hi, n)
			}
			if k[a] < 0 || k[a] >= n[a] {
				return "", fmt.Errorf("box %v lies outside", group[0].box)
			}
		}
		if boxes[k] {
			return "", fmt.Errorf("cell %v twice", k)
		}
		boxes[k] = true
		group = nil
		num++
	}
	if len(boxes) != n[0]*n[1]*n[2] || len(group) > 0 {
		return "", fmt.Errorf("%d of %d cells", len(boxes), n[0]*n[1]*n[2])
	}
	return fmt.Sprint(num), nil
}

func init() {
	hx.Register(&hx.Check{
		ID: "C16", Level: "model_checking",
		Rule: "cases: voxcut-dice plans for all grids up to 4^3 (6^3 thorough) and all section sizes, elongated grids, all output combinations, printed plans read by a shell, names with special characters, executed plans (also over outputs of an earlier run) over models x section sizes x sequences of cuts (also ones that remove whole sections, and torn or corrupt cuts, which must make the run fail); binvox-dice plans over factors 1..9, all subdivided axes, boxes (also malformed ones and other factors, which must be refused) and spellings, and 90 lists of file names, large plans; non-trivial: accepted plans",
		Setup: func(c *hx.Ctx) func() {
			run := hx.Kind(c, "voxcut-dice", func(v planCase) (string, error) { return v.run(c) })
			bb := hx.Kind(c, "binvox-dice", func(v bbCase) (string, error) { return v.run(c) })
			return func() {
				c.Cmd("cmd/voxcut-dice")
				c.Cmd("cmd/voxcut")
				c.Cmd("cmd/binvox-dice")
				hx.Each(c, run, func(yield func(planCase) bool) { genPlans(c, yield) })
				hx.Each(c, bb, func(yield func(bbCase) bool) {
					names := []string{"bolts.stl", "wall.stl", "t.stl", "a.stl.stl", "a.b.stl", "dir/l.stl", "-.stl", "stl.stl", "stl/s.t.l.stl", "50%d.stl", "%[1]v.stl"}
					for _, odd := range append(oddNames, "a\nb", "\n", "\nfalse\n", "\r") {
						for f := 1; f <= 3; f++ {
							if !yield(bbCase{Factor: f, Sub: [3]bool{true, false, true}, Hi: V3{1, 1, 1}, Names: []string{"a" + odd + ".stl", odd + "b.stl", "c.stl" + odd}[:f]}) {
								return
							}
						}
					}
					for i := 0; i < 6; i++ {
						for _, bad := range []string{"x", "1.2.3", "--1", "1e", ""} {
							q := []any{"0", "0", "0", "8", "8", "8"}
							q[i] = bad
							for s := 0; s < 8; s++ {
								if !yield(bbCase{Factor: 2, Sub: [3]bool{s&1 == 1, s&2 == 2, s&4 == 4}, Files: 1, Bad: fmt.Sprintf("(%s,%s,%s)-(%s,%s,%s)", q...)}) {
									return
								}
							}
						}
					}
					for _, bad := range []string{"x", "(0,0,0)", "(0,0)-(8,8)", "(0,0,0)(8,8,8)"} {
						if !yield(bbCase{Factor: 2, Files: 1, Bad: bad}) {
							return
						}
					}
					for s := 1; s < 8; s++ {
						for _, f := range []int{-1, 0, 16, 17} {
							if !yield(bbCase{Factor: f, Sub: [3]bool{s&1 == 1, s&2 == 2, s&4 == 4}, Hi: V3{1, 2, 3}, Files: 1 + s%2}) {
								return
							}
						}
					}
					for n := 1; n <= 2; n++ {
						if !tuples(names, n, func(t []string) bool {
							t = append([]string(nil), t...)
							return strings.HasPrefix(t[0], "-") || yield(bbCase{Factor: 2, Sub: [3]bool{true, false, false}, Hi: V3{1, 1, 1}, Names: t})
						}) {
							return
						}
					}
					boxes := [][2]V3{{{0, 0, 0}, {8, 8, 8}}, {{-80, -80, -2.6}, {80, 80, 0.6}}, {{-1e-3, 2.5e7, -7}, {1. / 3, 2.500001e7, -6.9}}}
					for _, b := range boxes {
						for f := 1; f <= hx.Pick(c, 5, 9); f++ {
							for s := 0; s < 8; s++ {
								for form := range bbForms {
									if form > 0 && s != 3 {
										continue
									}
									for nf := 0; nf <= 3; nf++ {
										if !yield(bbCase{Factor: f, Sub: [3]bool{s&1 == 1, s&2 == 2, s&4 == 4}, Lo: b[0], Hi: b[1], Form: form, Files: nf}) {
											return
										}
									}
								}
							}
						}
					}
				})
			}
		},
		Assumptions: []string{"binvox numbers its outputs name.binvox, name_1.binvox, ... (documented behaviour of that tool)"},
	})
}
