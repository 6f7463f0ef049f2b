package checks

import (
	"strings"
	"time"

	"stldiceverif/hx"
)

type masterSpec struct {
	Jobs     []int
	Agents   string
	LateMS   int  `json:",omitempty"`
	Twice    bool `json:",omitempty"`
	CancelMS int  `json:",omitempty"`
	Follow   int  `json:",omitempty"`
	Maps     bool `json:",omitempty"`
}

// masterRow is a scenario with its bounds in the two tiers; -2 leaves it out.
type masterRow struct {
	v        masterSpec
	quick, t int
}

func masterRows() (rows []masterRow) {
	add := func(v masterSpec, quick, t int) { rows = append(rows, masterRow{v, quick, t}) }
	// Agents that work, early and late.
	add(masterSpec{Jobs: []int{2}, Agents: "o"}, -1, -1)
	add(masterSpec{Jobs: []int{1}, Agents: "oo", Maps: true}, -1, -1)
	add(masterSpec{Jobs: []int{2}, Agents: "oo", Maps: true}, 3, 4)
	add(masterSpec{Jobs: []int{3}, Agents: "o"}, 2, 3)
	add(masterSpec{Jobs: []int{3}, Agents: "oo", Maps: true}, 2, 3)
	add(masterSpec{Jobs: []int{3}, Agents: "ooo", Maps: true}, 1, 2)
	add(masterSpec{Jobs: []int{4}, Agents: "oo"}, 1, 2)
	add(masterSpec{Jobs: []int{2}, Agents: "O"}, 3, 4)
	add(masterSpec{Jobs: []int{2}, Agents: "OO", Maps: true}, 2, 3)
	add(masterSpec{Jobs: []int{2}, Agents: "oO", Maps: true}, 2, 3)
	add(masterSpec{Jobs: []int{2}, Agents: "O", LateMS: 150}, 2, 3)
	add(masterSpec{Jobs: []int{2}, Agents: "OO", LateMS: 100}, 2, 2)
	add(masterSpec{Jobs: []int{2}, Agents: "s"}, 2, 3)
	add(masterSpec{Jobs: []int{2}, Agents: "so", Maps: true}, 2, 3)
	add(masterSpec{Jobs: []int{3}, Agents: "ss"}, 1, 2)
	add(masterSpec{Jobs: []int{2}, Agents: "o", Twice: true}, 2, 3)
	add(masterSpec{Jobs: []int{2}, Agents: "o", Follow: 1}, 2, 3)
	add(masterSpec{Jobs: []int{1}, Agents: "o", Follow: 2}, 2, 3)
	// Jobs at the same time.
	add(masterSpec{Jobs: []int{1, 1}, Agents: "o"}, 2, 3)
	add(masterSpec{Jobs: []int{1, 1}, Agents: "oo", Maps: true}, 2, 3)
	add(masterSpec{Jobs: []int{2, 1}, Agents: "o"}, 1, 2)
	add(masterSpec{Jobs: []int{2, 1}, Agents: "oo"}, 1, 2)
	add(masterSpec{Jobs: []int{2, 2}, Agents: "oo"}, 0, 1)
	add(masterSpec{Jobs: []int{1, 1, 1}, Agents: "o"}, 0, 1)
	add(masterSpec{Jobs: []int{1, 1}, Agents: "O"}, 1, 2)
	// Slices that fail.
	for _, a := range []string{"e", "u", "f", "x", "p", "ee", "eo", "uo", "fo", "xo", "uf", "ff", "uu", "su", "es", "E", "U", "oU", "F"} {
		maps := len(a) > 1
		follow := 1
		if len(strings.Trim(strings.ToLower(a), "u")) == 0 {
			follow = 0 // no agent is left
		}
		add(masterSpec{Jobs: []int{1}, Agents: a, Follow: follow, Maps: maps}, 2, 3)
		if a != "u" && a != "U" { // no agent is left for the second slice
			add(masterSpec{Jobs: []int{2}, Agents: a, Follow: follow, Maps: maps}, 2, 3)
		}
		if strings.ToLower(a) == a && len(a) == 1 && a != "u" || a == "po" || a == "fo" {
			add(masterSpec{Jobs: []int{1, 1}, Agents: a}, 1, 2)
			add(masterSpec{Jobs: []int{2, 1}, Agents: a}, 1, 2)
		}
	}
	// Agents that cannot even be dialed: other ones do their work.
	for _, a := range []string{"do", "dO", "Do", "ddo", "dso", "de"} {
		add(masterSpec{Jobs: []int{1}, Agents: a, Follow: 1, Maps: true}, 2, 3)
		add(masterSpec{Jobs: []int{2}, Agents: a, Maps: true}, 2, 2)
	}
	add(masterSpec{Jobs: []int{1, 1}, Agents: "do", Maps: true}, 1, 2)
	add(masterSpec{Jobs: []int{1}, Agents: "d", CancelMS: 150}, 2, 3)
	// The second job fares as if the first, which fails, was not there.
	add(masterSpec{Jobs: []int{1, 1}, Agents: "p"}, 2, 3)
	add(masterSpec{Jobs: []int{2, 1}, Agents: "po", Maps: true}, 0, 1)
	add(masterSpec{Jobs: []int{1, 2}, Agents: "p", Follow: 1}, 1, 1)
	// A job that is canceled.
	for _, ms := range []int{-1, 1, 150} {
		for _, a := range []string{"", "o", "s", "h", "hh", "ss", "O"} {
			if a == "" && ms == 1 {
				continue
			}
			add(masterSpec{Jobs: []int{2}, Agents: a, CancelMS: ms}, 2, 3)
			if a != "" && !strings.Contains(a, "h") {
				add(masterSpec{Jobs: []int{1}, Agents: a, CancelMS: ms, Follow: 1}, 2, 2)
				add(masterSpec{Jobs: []int{1, 1}, Agents: a, CancelMS: ms}, 1, 2)
			}
		}
	}
	return rows
}

func init() {
	hx.Register(&hx.Check{
		ID:    "C19",
		Level: "model_checking",
		Rule: schedRule + "Each scenario is the real master with up to three agents, which are stand-ins behind the gRPC client, registered before or while the jobs run: they work at once or slowly, fail always, at first or for one slice or job, are unreachable, cannot even be dialed, or hang; one to three concurrent jobs of one to four slices, possibly canceled at any point, and a job afterwards. The choice of the idle agent and virtual time are explored too. " +
			"On every schedule a job must return either the complete SVX file (manifest, blank first and last slice, every slice once, under the name that the manifest gives it, with the image that was made for this slice of this job), or an error; with working agents it must succeed, with a failed slice it must fail, a canceled job must end, one failure must not fail other jobs, no agent may have two slices at once, " +
			"and nothing may race, hang or be left behind.",
		Assumptions: append([]string{"The gRPC transport is replaced by direct calls; context cancellation reaches the agent's call."}, schedAssumptions...),
		Setup: func(c *hx.Ctx) func() {
			p := c.SchedProg("sched/svc", true)
			c.SetHang(20 * time.Minute)
			explore := p.Kinds(func() float64 { return hx.Pick(c, 150.0, 600.0) })
			return func() {
				hx.One(c, 8, explore, func(yield func(hx.SchedCase) bool) {
					for _, r := range masterRows() {
						if b := hx.Pick(c, r.quick, r.t); b > -2 && !yield(hx.SchedCase{Scenario: scenario("master", r.v), Bound: b}) {
							return
						}
					}
				})
			}
		},
	})
}
