//go:build verifsched

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"

	"github.com/gmlewis/stldice/v4/stl"
	"stldiceverif/sched/drv"
)

// mergeSpec is one call of stl.Merge. Files holds a letter per file: a number of triangles,
// "m" for a missing file, "t" for a truncated binary file, "A" for an ASCII file with a
// triangle, "B" for a broken ASCII file.
type mergeSpec struct {
	Files   string
	Workers int
}

func triBytes(file, i int) []byte {
	var b bytes.Buffer
	f := float32(10*file + i)
	binary.Write(&b, binary.LittleEndian, []float32{0, 0, 1, f, 0, 0.5, f + 1, 0, 0.5, f, 1, 0.5})
	b.Write([]byte{0, 0})
	return b.Bytes()
}

func mergeScenario(v mergeSpec) *drv.Scenario {
	dir, err := os.MkdirTemp("", "merge")
	if err != nil {
		panic(err)
	}
	var files, want []string
	bad := false
	for i, k := range v.Files {
		fn := filepath.Join(dir, fmt.Sprintf("f%d.stl", i))
		files = append(files, fn)
		var out []byte
		switch {
		case k >= '0' && k <= '9':
			n := int(k - '0')
			out = make([]byte, 80)
			out = binary.LittleEndian.AppendUint32(out, uint32(n))
			for j := 0; j < n; j++ {
				out = append(out, triBytes(i, j)...)
				want = append(want, fmt.Sprint(10*i+j))
			}
		case k == 't':
			bad = true
			out = binary.LittleEndian.AppendUint32(make([]byte, 80), 2)
			out = append(out, triBytes(i, 0)...)
		case k == 'A', k == 'B':
			n := 10 * i
			out = []byte(fmt.Sprintf("solid a\n facet normal 0 0 1\n  outer loop\n   vertex %d 0 0.5\n   vertex %d 0 0.5\n   vertex %d 1 0.5\n  endloop\n endfacet\nendsolid a\n", n, n+1, n))
			if k == 'B' {
				bad = true
				out = bytes.Replace(out, []byte(fmt.Sprintf("   vertex %d 1 0.5\n", n)), nil, 1)
			} else {
				want = append(want, fmt.Sprint(n))
			}
		case k == 'm':
			bad = true
			continue
		}
		if err := os.WriteFile(fn, out, 0o644); err != nil {
			panic(err)
		}
	}
	sort.Strings(want)
	workers := max(v.Workers, 1)
	return &drv.Scenario{
		Body: func() (string, error) {
			mesh, err := stl.Merge(files, v.Workers)
			if bad || len(files) == 0 {
				if err == nil {
					return "", fmt.Errorf("a file cannot be read, but Merge reports no error")
				}
				return "error", nil
			}
			if err != nil {
				return "", fmt.Errorf("Merge: %v", err)
			}
			if mesh == nil {
				return "", fmt.Errorf("Merge returns no mesh and no error")
			}
			var got []string
			for _, t := range mesh.Triangles {
				got = append(got, fmt.Sprint(min(t.V1.Position.X, t.V2.Position.X, t.V3.Position.X)))
			}
			order := strings.Join(got, " ")
			sort.Strings(got)
			if a, b := strings.Join(got, " "), strings.Join(want, " "); a != b {
				return "", fmt.Errorf("merged triangles %v, want %v", a, b)
			}
			return order, nil
		},
		After: func(res runtime.VerifResult) error {
			if res.PeakOpen > workers {
				return fmt.Errorf("%d files are loaded at the same time by %d workers", res.PeakOpen, workers)
			}
			return nil
		},
	}
}
