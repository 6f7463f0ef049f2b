package checks

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"stldiceverif/hx"
)

// scenario is the name of a scenario with its parameters.
func scenario(kind string, v any) string {
	b, _ := json.Marshal(v)
	return kind + " " + string(b)
}

// probe explores programs with known errors and known numbers of outcomes: an explorer that
// does not find them proves nothing.
func probe(p *hx.Prog) {
	for s, want := range map[string]string{"self-lost-update": "lost", "self-deadlock": "deadlock", "self-race": "race", "self-poll": "no end"} {
		for _, bound := range []int{2, -1} {
			if _, err := p.Probe(hx.SchedCase{Scenario: s, Bound: bound}, 60); err == nil || !strings.Contains(err.Error(), want) {
				panic(fmt.Sprintf("the explorer does not find the error of %q (%v)", s, err))
			}
		}
	}
	for s, want := range map[string]int{"self-orders": 6, "self-select": 2, "self-map": 3, "self-time": 3, "self-atomic": 2} {
		out, err := p.Probe(hx.SchedCase{Scenario: s, Bound: 2}, 60)
		if err != nil || len(out) != want {
			panic(fmt.Sprintf("the explorer finds %q and %v in %q", out, err, s))
		}
	}
}

const schedRule = "A case is a small closed program over the real code, built with the race detector and run under a controlled scheduler: one goroutine runs at a time, and the explorer enumerates, depth first, all schedules with at most the stated number of deviations from running the current goroutine on (bound -1: all schedules; states with the same happens-before history are visited once). " +
	"Scheduling points are all mutex, wait group, condition, once, channel, select, close and atomic operations of the code under test and its file operations; which goroutine runs on when one blocks or ends is free. "

var schedAssumptions = []string{
	"Scheduling happens at synchronisation and file operations; between them the code is race-free, which the race detector checks on every schedule explored.",
	"The goroutines inside of fauxgl (bounding boxes, ASCII and binary parsing) are not reordered.",
}

type voxelizeSpec struct {
	Min, Max, N [3]int
	Par         int  `json:",omitempty"`
	Z           bool `json:",omitempty"`
}

type writeSpec struct {
	Kind             string
	N                [3]int
	Step, Par, Limit int
}

type shareSpec struct {
	Ops  string
	N    [3]int
	Bits uint32
}

type mergeSpec struct {
	Files   string
	Workers int
}

func init() {
	hx.Register(&hx.Check{
		ID:    "C17",
		Level: "model_checking",
		Rule: schedRule + "Each scenario is one stl.Merge of zero to four files (good, missing, truncated, ASCII, broken ASCII) with zero to four workers. On every schedule the merged triangles must be exactly those of the files, a bad file must be reported, no more files may be open at the same time than there are workers, " +
			"and the call must return without a data race and without leaving goroutines behind.",
		Assumptions: schedAssumptions,
		Setup: func(c *hx.Ctx) func() {
			p := c.SchedProg("sched/core", false)
			c.SetHang(20 * time.Minute)
			explore := p.Kinds(func() float64 { return hx.Pick(c, 150.0, 600.0) })
			return func() {
				probe(p)
				hx.One(c, 8, explore, func(yield func(hx.SchedCase) bool) {
					do := func(files string, workers, bound int) bool {
						return yield(hx.SchedCase{Scenario: scenario("merge", mergeSpec{files, workers}), Bound: bound})
					}
					// The long ones first.
					for _, s := range []mergeSpec{{"12", 2}, {"1m", 2}, {"m1", 2}, {"tB", 2}, {"12", 1}} {
						if !do(s.Files, s.Workers, -1) {
							return
						}
					}
					if c.Thorough() {
						for _, s := range []mergeSpec{{"1111", 2}, {"1111", 3}, {"1A1m", 2}, {"t111", 4}, {"111", 2}, {"1m1", 2}, {"121", 1}, {"mB1", 2}, {"m1t", 3}} {
							if !do(s.Files, s.Workers, 3) {
								return
							}
						}
					}
					for _, s := range []mergeSpec{{"111", 2}, {"111", 3}, {"1m1", 2}, {"mt1", 3}, {"1A1", 2}} {
						if !do(s.Files, s.Workers, 2) {
							return
						}
					}
					for n := 0; n <= hx.Pick(c, 3, 4); n++ {
						for k := 0; k < pow(6, n); k++ {
							files := ""
							for i, r := 0, k; i < n; i, r = i+1, r/6 {
								files += string("12mtAB"[r%6])
							}
							for w := 0; w <= max(n, 2); w++ {
								if n > 2 && (!c.Thorough() && w != 2 || n == 4 && strings.ContainsAny(files, "2t")) {
									continue
								}
								bound := 2
								if n > 2 {
									bound = 1
								}
								if n == 2 && c.Thorough() {
									bound = 3
								}
								if !do(files, w, bound) {
									return
								}
							}
						}
					}
				})
			}
		},
	})
}

func init() {
	hx.Register(&hx.Check{
		ID:    "C18",
		Level: "model_checking",
		Rule: schedRule + "Each scenario voxelizes boxes of 1 to 6 voxels (one to three z layers, whole regions or slice by slice, one or two regions of the same mesh at the same time), writes a model from one or two goroutines (with and without a write that fails), or uses one model from two or three goroutines with every pair of the operations " +
			"Write, ManifoldMesh, MarchingCubes, ToMesh, String/MBB, Get, vshell.New and vshell.Merge. On every schedule the voxels must be exactly those of the box, files and meshes those of the operation alone, failures must be reported, and no call may race, hang or change the model.",
		Assumptions: schedAssumptions,
		Setup: func(c *hx.Ctx) func() {
			p := c.SchedProg("sched/core", false)
			c.SetHang(20 * time.Minute)
			explore := p.Kinds(func() float64 { return hx.Pick(c, 150.0, 600.0) })
			return func() {
				probe(p)
				hx.One(c, 8, explore, func(yield func(hx.SchedCase) bool) {
					do := func(kind string, v any, bound int) bool {
						return yield(hx.SchedCase{Scenario: scenario(kind, v), Bound: bound})
					}
					type row struct {
						kind  string
						v     any
						bound int
					}
					var rows []row
					vox := func(min, max, n [3]int, par int, z bool, bound int) {
						rows = append(rows, row{"voxelize", voxelizeSpec{min, max, n, par, z}, bound})
					}
					K := func(x, y, z int) [3]int { return [3]int{x, y, z} }
					vox(K(0, 0, 0), K(1, 2, 2), K(1, 2, 2), 1, false, -1)
					vox(K(0, 0, 0), K(1, 1, 1), K(1, 1, 1), 2, false, -1)
					vox(K(0, 0, 0), K(1, 1, 2), K(1, 1, 2), 1, false, -1)
					vox(K(0, 0, 0), K(2, 1, 3), K(2, 1, 3), 1, false, hx.Pick(c, 2, 3))
					vox(K(0, 0, 1), K(2, 2, 3), K(2, 2, 3), 1, false, hx.Pick(c, 1, 2))
					vox(K(0, 0, 0), K(1, 1, 3), K(1, 1, 3), 1, false, -1)
					vox(K(0, 0, 0), K(1, 3, 2), K(1, 3, 2), 1, false, hx.Pick(c, 1, 2))
					vox(K(0, 0, 0), K(2, 1, 2), K(1, 1, 2), 2, false, hx.Pick(c, 1, 2))
					vox(K(0, 0, 0), K(2, 2, 2), K(1, 2, 2), 2, false, hx.Pick(c, 0, 1))
					vox(K(0, 0, 0), K(2, 2, 2), K(2, 2, 2), 1, true, 2)
					vox(K(0, 0, 0), K(2, 2, 2), K(2, 2, 2), 2, true, hx.Pick(c, 1, 2))
					vox(K(0, 1, 0), K(1, 2, 2), K(1, 3, 2), 1, false, hx.Pick(c, 2, 3))
					vox(K(0, 0, 0), K(3, 1, 1), K(1, 1, 1), 3, false, hx.Pick(c, 1, 2))
					write := func(v writeSpec, bound int) { rows = append(rows, row{"write", v, bound}) }
					for _, kind := range []string{"binvox", "vshell"} {
						write(writeSpec{kind, K(2, 2, 2), 2, 1, 0}, -1)
						write(writeSpec{kind, K(2, 2, 2), 1, 1, 0}, 2)
						write(writeSpec{kind, K(1, 2, 1), 1, 2, 0}, hx.Pick(c, 2, 3))
						write(writeSpec{kind, K(2, 2, 2), 3, 2, 0}, hx.Pick(c, 1, 2))
						write(writeSpec{kind, K(1, 230, 1), 2, 1, 0}, 1)
						for _, lim := range []int{1, 2, 5, 60} {
							write(writeSpec{kind, K(2, 2, 2), 2, 1, lim}, hx.Pick(c, 2, -1))
							write(writeSpec{kind, K(2, 1, 2), 2, 2, lim}, hx.Pick(c, 1, 2))
						}
						write(writeSpec{kind, K(1, 230, 1), 2, 1, 3}, 1)
					}
					ops := "wfctsgam"
					share := func(s string, n [3]int, bits uint32, bound int) {
						rows = append(rows, row{"share", shareSpec{s, n, bits}, bound})
					}
					for i := range ops {
						for j := i; j < len(ops); j++ {
							share(ops[i:i+1]+ops[j:j+1], K(2, 2, 2), 0xbd, hx.Pick(c, 2, 3))
							if c.Thorough() {
								share(ops[i:i+1]+ops[j:j+1], K(1, 2, 3), 0x2d, 3)
								for k := j; k < len(ops); k++ {
									share(ops[i:i+1]+ops[j:j+1]+ops[k:k+1], K(2, 1, 2), 0xb, 1)
								}
							}
						}
						share("v"+ops[i:i+1], K(1, 2, 2), 0xd, 1)
					}
					share("wfca", K(2, 2, 2), 0xff, 1)
					if c.Thorough() {
						share("vv", K(1, 1, 2), 3, 0)
					}
					for _, r := range rows {
						if !do(r.kind, r.v, r.bound) {
							return
						}
					}
				})
			}
		},
	})
}

func pow(b, n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= b
	}
	return r
}
