package checks

import (
	"fmt"
	"math"
	"os"
	"strings"

	"github.com/gmlewis/stldice/v4/binvox"
	"stldiceverif/hx"
)

// rdCase is one read of a file built from header lines and data bytes.
type rdCase struct {
	Lines []string `json:",omitempty"` // header lines without newline; nil: the standard header for N
	Bad   bool     `json:",omitempty"` // the header must be refused
	N     K
	Data  []byte `json:",omitempty"`
	Cut   int    `json:",omitempty"` // >0: the file is cut after Cut-1 bytes
	S, C  K
}

func stdLines(magic string, n K) []string {
	return []string{magic, fmt.Sprintf("dim %d %d %d", n[0], n[1], n[2]), "translate -80 0.25 -2.6", "scale 160", "data"}
}

// readWindow is the reference semantics of a read window: s inclusive, c voxels
// per axis, 0 or more than the model means all.
func readWindow(n, s, c K) (lo, hi K, ok bool) {
	for i := 0; i < 3; i++ {
		if s[i] < 0 || c[i] < 0 || s[i] > n[i] {
			return lo, hi, false
		}
		w := c[i]
		if w == 0 || w > n[i] {
			w = n[i]
		}
		lo[i], hi[i] = s[i], s[i]+w
	}
	return lo, hi, true
}

// refReadBinvox is the reference reader.
func refReadBinvox(r rdCase) (Set, bool) {
	if r.Bad {
		return nil, false
	}
	lo, hi, ok := readWindow(r.N, r.S, r.C)
	if !ok {
		return nil, false
	}
	s := Set{}
	n := 0
	vol := r.N[0] * r.N[1] * r.N[2]
	for d := r.Data; len(d) > 0; d = d[2:] {
		if len(d) < 2 || d[0] > 1 || d[1] == 0 {
			return nil, false
		}
		for i := 0; i < int(d[1]); i++ {
			if n >= vol {
				return nil, false
			}
			k := K{n / (r.N[1] * r.N[2]), n % r.N[1], n / r.N[1] % r.N[2]}
			n++
			in := d[0] == 1
			for a := 0; a < 3; a++ {
				in = in && k[a] >= lo[a] && k[a] < hi[a]
			}
			if in {
				s[k] = true
			}
		}
	}
	return s, true
}

func (r rdCase) file(magic string) []byte {
	l := r.Lines
	if l == nil {
		l = stdLines(magic, r.N)
	}
	b := append([]byte(strings.Join(l, "\n")+"\n"), r.Data...)
	if r.Cut > 0 {
		b = b[:r.Cut-1]
	}
	return b
}

// headerMenu: for each header line, spellings that must be refused and ones that must be read.
func headerMenu(magic string) (bad, good [5][]string) {
	bad[0] = []string{"", "#binvox 2", "#vshell 2", "binvox 1", magic + "x", "x" + magic, strings.ToUpper(magic)}
	if magic == "#binvox 1" {
		bad[0] = append(bad[0], "#vshell 1")
	} else {
		bad[0] = append(bad[0], "#binvox 1")
	}
	bad[1] = []string{"", "dim", "dim 2 2", "dim 2 2 2 2", "dim 2 2 x", "dim x 2 2", "dim 2 x 2", "dim -2 2 2", "dim 2 -2 2", "dim 2 2 -2", "dim 2.0 2 2", "dims 2 2 2", "depth 2 2 2", "dim 99999999999999999999 2 2", "dim 2 99999999999999999999 2", "dim 2 2 99999999999999999999", "translate 2 2 2"}
	bad[2] = []string{"", "translate", "translate 1 2", "translate 1 2 3 4", "translate x 2 3", "translate 1 x 3", "translate 1 2 x", "scale 160", "dim 2 2 2"}
	bad[3] = []string{"", "scale", "scale x", "scale 1 2", "scales 1", "data"}
	bad[4] = []string{"", "DATA", "datax", "dat", "scale 1", "#data"}
	good[1] = []string{"dim 2 2 2", "dim 2 2 2 ", "dim 2 2 2\r", "dim 02 2 2"}
	good[2] = []string{"translate -80 0.25 -2.6", "translate -80.0 2.5e-1 -2.60", "translate -80 0.25 -2.6  "}
	good[3] = []string{"scale 160", "scale 1.6e2", "scale 160.000 "}
	return
}

// genReads enumerates reads; alphabet and dataLen shape the data part.
func genReads(c *hx.Ctx, magic string, full func(n K) []byte, datas func(n K, yield func([]byte) bool) bool, long func(size int) (K, []byte), grids []K, yield func(rdCase) bool) {
	// data strings
	for _, n := range grids {
		ok := datas(n, func(d []byte) bool {
			return yield(rdCase{N: n, Data: d})
		})
		if !ok {
			return
		}
	}
	// all windows over full and structured grids
	for _, n := range []K{{1, 1, 1}, {2, 2, 2}, {3, 2, 1}, {1, 3, 2}, {2, 1, 3}, {3, 3, 3}, {2, 3, 4}, {2, 4, 3}, {3, 2, 4}, {3, 4, 2}, {4, 2, 3}, {4, 3, 2}} {
		for _, s := range box(K{n[0] + 2, n[1] + 2, n[2] + 2}) {
			for _, w := range box(K{n[0] + 2, n[1] + 2, n[2] + 2}) {
				if !yield(rdCase{N: n, Data: full(n), S: s, C: w}) {
					return
				}
			}
		}
	}
	// huge counts and starts, in every position
	for _, s := range box(K{4, 4, 4}) {
		for _, w := range box(K{4, 4, 4}) {
			val := func(k K, huge int) K {
				for i := range k {
					k[i] = []int{0, 1, 2, huge}[k[i]]
				}
				return k
			}
			for _, huge := range []int{1 << 31, 1 << 32, math.MaxInt64 - 1, math.MaxInt64} {
				r := rdCase{N: K{2, 3, 4}, S: val(s, huge), C: val(w, huge)}
				r.Data = full(r.N)
				if !yield(r) {
					return
				}
			}
		}
	}
	for axis := 0; axis < 3; axis++ {
		var s K
		s[axis] = -1
		for _, r := range []rdCase{{N: K{2, 2, 2}, S: s}, {N: K{2, 2, 2}, C: s}} {
			r.Data = full(r.N)
			if !yield(r) {
				return
			}
		}
	}
	// data strings under partial windows
	for _, n := range []K{{2, 2, 2}, {1, 3, 2}} {
		for _, s := range box(K{2, 2, 2}) {
			for _, w := range []K{{1, 1, 1}, {2, 1, 1}, {1, 2, 1}, {1, 1, 2}, {0, 1, 0}, {2, 2, 2}} {
				i := 0
				ok := datas(n, func(d []byte) bool {
					if i++; i%7 != 0 && !c.Thorough() {
						return true
					}
					return yield(rdCase{N: n, Data: d, S: s, C: w})
				})
				if !ok {
					return
				}
			}
		}
	}
	// files larger than any buffer, at every alignment, whole and cut inside of the last record
	for _, size := range []int{4000, 4090, 8190, hx.Pick(c, 40000, 200000)} {
		n, d := long(size)
		for pad := 0; pad < 8; pad++ {
			l := stdLines(magic, n)
			l[3] += strings.Repeat(" ", pad)
			for cut := 0; cut < 7; cut++ {
				if !yield(rdCase{Lines: l, N: n, Data: d[:len(d)-cut]}) {
					return
				}
			}
			for _, s := range []K{{1, 0, 0}, {0, 3, 2}, {2, 1, 5}} {
				if !yield(rdCase{Lines: l, N: n, Data: d, S: s, C: K{3, 4, 2}}) {
					return
				}
			}
		}
	}
	// header spellings
	bad, good := headerMenu(magic)
	n := K{2, 2, 2}
	for i := 0; i < 5; i++ {
		for _, v := range bad[i] {
			for _, d := range [][]byte{nil, full(n)} {
				l := stdLines(magic, n)
				l[i] = v
				if !yield(rdCase{Lines: l, Bad: true, N: n, Data: d}) {
					return
				}
			}
		}
		for _, v := range good[i] {
			l := stdLines(magic, n)
			l[i] = v
			if !yield(rdCase{Lines: l, N: n, Data: full(n)}) {
				return
			}
		}
		// a missing line
		l := stdLines(magic, n)
		l = append(append([]string{}, l[:i]...), l[i+1:]...)
		if !yield(rdCase{Lines: l, Bad: true, N: n, Data: full(n)}) {
			return
		}
	}
	// two lines swapped
	for i := 0; i < 5; i++ {
		for j := i + 1; j < 5; j++ {
			l := stdLines(magic, n)
			l[i], l[j] = l[j], l[i]
			if !yield(rdCase{Lines: l, Bad: true, N: n, Data: full(n)}) {
				return
			}
		}
	}
}

func init() {
	hx.Register(&hx.Check{
		ID: "C02", Level: "model_checking",
		Rule: "cases: all byte strings over {0,1,2,255,...} up to a length on small grids, every read window (inside, at and past the edge, negative), header spellings, every prefix of valid files and files of thousands of runs, against a reference decoder; non-trivial: an accepted read with its voxels, or a refusal demanded by the reference",
		Setup: func(c *hx.Ctx) func() {
			run := hx.Kind(c, "read", func(r rdCase) (string, error) {
				fn := c.Tmp(".binvox")
				mustWrite(fn, r.file("#binvox 1"))
				defer os.Remove(fn)
				want, ok := refReadBinvox(r)
				b, err := binvox.Read(fn, r.S[0], r.S[1], r.S[2], r.C[0], r.C[1], r.C[2])
				if !ok {
					if err == nil {
						return "", fmt.Errorf("read succeeded with %d voxels; the reference refuses this", len(b.WhiteVoxels))
					}
					return fmt.Sprint("refused", r), nil
				}
				if err != nil {
					return "", fmt.Errorf("refused: %v; the reference reads %d voxels", err, len(want))
				}
				if (K{b.NX, b.NY, b.NZ}) != r.N || b.TX != -80 || b.TY != 0.25 || b.TZ != -2.6 || b.Scale != 160 {
					return "", fmt.Errorf("header read as %v,%v,%v / %v,%v,%v / %v", b.NX, b.NY, b.NZ, b.TX, b.TY, b.TZ, b.Scale)
				}
				if err := diff(fromBV(b), want); err != nil {
					return "", err
				}
				return fmt.Sprint(r.N, r.S, r.C, want.hash()), nil
			})
			// truncation: every prefix of a valid file
			prefix := hx.Kind(c, "prefix", func(r rdCase) (string, error) {
				whole := r
				whole.Cut = 0
				hlen := len(whole.file("#binvox 1")) - len(r.Data)
				q := r
				if r.Cut-1 < hlen {
					q.Bad = true
				} else {
					q.Data = r.Data[:r.Cut-1-hlen]
				}
				fn := c.Tmp(".binvox")
				mustWrite(fn, r.file("#binvox 1"))
				defer os.Remove(fn)
				want, ok := refReadBinvox(q)
				b, err := binvox.Read(fn, 0, 0, 0, 0, 0, 0)
				if ok != (err == nil) {
					return "", fmt.Errorf("file cut after %d bytes: read error %v, reference accepts=%v", r.Cut-1, err, ok)
				}
				if ok {
					if err := diff(fromBV(b), want); err != nil {
						return "", err
					}
					return "part " + want.hash(), nil
				}
				return fmt.Sprint("refused ", r.Cut), nil
			})
			full := func(n K) []byte {
				var d []byte
				for t := n[0] * n[1] * n[2]; t > 0; {
					k := min(t, 255)
					d = append(d, 1, byte(k))
					t -= k
				}
				return d
			}
			datas := func(n K, yield func([]byte) bool) bool {
				for l := 0; l <= hx.Pick(c, 6, 7); l++ {
					al := []byte{0, 1, 2, 3, 255}
					if l >= 6 {
						al = []byte{0, 1, 2, 4}
					}
					if !tuples(al, l, yield) {
						return false
					}
				}
				// longer well-formed pair sequences
				return tuples([][]byte{{0, 1}, {1, 1}, {0, 2}, {1, 2}, {0, 3}, {1, 3}}, hx.Pick(c, 5, 6), func(p [][]byte) bool {
					var d []byte
					for _, v := range p {
						d = append(d, v...)
					}
					return yield(d)
				})
			}
			long := func(size int) (K, []byte) {
				var d []byte
				for i := 0; len(d) < size; i++ {
					n := i*7%11 + 1
					if i%50 == 49 {
						n = 255
					}
					d = append(d, byte(i%2), byte(n))
				}
				return K{size / 40, 13, 31}, d
			}
			grids := []K{{1, 1, 1}, {2, 1, 1}, {1, 2, 1}, {1, 1, 2}, {2, 2, 2}, {3, 2, 1}, {1, 3, 2}, {2, 1, 3}, {4, 4, 4}, {300, 1, 2}, {1, 300, 2}, {2, 2, 300}}
			return func() {
				hx.Each(c, run, func(yield func(rdCase) bool) {
					genReads(c, "#binvox 1", full, datas, long, grids, yield)
					// big values: every value and count byte
					for v := 0; v < 256; v++ {
						for w := 0; w < 256; w++ {
							if !yield(rdCase{N: K{4, 8, 8}, Data: []byte{byte(v), byte(w)}}) {
								return
							}
							if v < 2 && !yield(rdCase{N: K{16, 16, 4}, Data: []byte{0, 255, 1, byte(w), byte(v), 255, 1, 200}}) {
								return
							}
						}
					}
				})
				hx.Each(c, prefix, func(yield func(rdCase) bool) {
					for _, r := range []rdCase{{N: K{2, 2, 2}, Data: []byte{0, 3, 1, 2, 0, 1, 1, 2}}, {N: K{1, 1, 1}, Data: []byte{1, 1}}, {N: K{9, 9, 9}, Data: full(K{9, 9, 9})}, {N: K{3, 3, 3}, Data: []byte{0, 10, 1, 10, 0, 1}}} {
						for i := range len(r.file("#binvox 1")) + 1 {
							r.Cut = i + 1
							if !yield(r) {
								return
							}
						}
					}
				})
			}
		},
		Assumptions: []string{"grids with a zero dimension and data are outside the stated format and not enumerated", "data that stops early on a pair boundary is accepted by design (pinned by an existing test)"},
	})
}
