//go:build verifsched

package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"image/png"
	"runtime"
	"strings"
	"sync"

	"github.com/gmlewis/stldice/v4/stl2svx/agent"
	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
	"google.golang.org/grpc"
	"stldiceverif/sched/drv"
)

// agentSpec is one job of an agent: a box of N voxels of a millimeter, cut by boxes.
type agentSpec struct {
	N    [3]int
	Div  [3]int64
	Cuts [][6]int
	// Z are the slices that are made at the same time.
	Z []int64
	// Bad is "" or what is wrong: "div" too many divisions, "vertex" a triangle without vertices,
	// "cut" the same in the last cut, "files" no files, "register" the master refuses the agent.
	Bad string `json:",omitempty"`
}

// boxFile is a box, smaller by the share eps.
func boxFile(lo, hi [3]int, eps float64) *pb.STLFile {
	c := func(i int) *pb.Vertex {
		var p [3]float64
		for a := 0; a < 3; a++ {
			l, h := float64(lo[a]), float64(hi[a])
			p[a] = l + (h-l)*eps
			if i>>a&1 != 0 {
				p[a] = h - (h-l)*eps
			}
		}
		return &pb.Vertex{X: p[0], Y: p[1], Z: p[2]}
	}
	f := &pb.STLFile{}
	for _, q := range [][4]int{{0, 2, 3, 1}, {4, 5, 7, 6}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 4, 6, 2}, {1, 3, 7, 5}} {
		f.Triangles = append(f.Triangles, &pb.Triangle{V1: c(q[0]), V2: c(q[1]), V3: c(q[2])}, &pb.Triangle{V1: c(q[0]), V2: c(q[2]), V3: c(q[3])})
	}
	return f
}

func agentScenario(v agentSpec) *drv.Scenario {
	grpc.VerifInvoke = func(ctx context.Context, target, method string, args, reply any) error {
		if target != "master" || method != "/stl2svx.Master/RegisterAgent" {
			return fmt.Errorf("unexpected call of %v at %v", method, target)
		}
		if in := args.(*pb.RegisterAgentRequest); in.GetAddress() != "me" {
			return fmt.Errorf("registered as %v", in)
		}
		if v.Bad == "register" {
			return errors.New("no")
		}
		return nil
	}
	in := &pb.NewJobRequest{NX: v.Div[0], NY: v.Div[1], NZ: v.Div[2], Dim: int64(max(v.N[0], v.N[1], v.N[2]))}
	in.StlFiles = append(in.StlFiles, boxFile([3]int{}, v.N, 0))
	for _, c := range v.Cuts {
		in.StlFiles = append(in.StlFiles, boxFile([3]int{c[0], c[1], c[2]}, [3]int{c[3], c[4], c[5]}, 0.01))
	}
	switch v.Bad {
	case "div":
		in.NX = int64(v.N[0]) + 1
	case "vertex":
		in.StlFiles[0].Triangles[3].V2 = nil
	case "cut":
		in.StlFiles[len(in.StlFiles)-1].Triangles[3].V2 = nil
	case "files":
		in.StlFiles = nil
	}
	want := make([]string, len(v.Z))
	for i, z := range v.Z {
		for y := -1; y <= v.N[1]; y++ {
			for x := -1; x <= v.N[0]; x++ {
				white := x >= 0 && y >= 0 && x < v.N[0] && y < v.N[1]
				my := v.N[1] - 1 - y // images have the Y axis mirrored
				for _, c := range v.Cuts {
					if x >= c[0] && x < c[3] && my >= c[1] && my < c[4] && int(z) >= c[2] && int(z) < c[5] {
						white = false
					}
				}
				if white {
					want[i] += "#"
				} else {
					want[i] += "."
				}
			}
			want[i] += "/"
		}
	}
	verdicts := map[string]string{}
	render := func(b []byte) string {
		if s, ok := verdicts[string(b)]; ok {
			return s
		}
		img, err := png.Decode(bytes.NewReader(b))
		if err != nil {
			return err.Error()
		}
		var s strings.Builder
		r := img.Bounds()
		for y := r.Min.Y; y < r.Max.Y; y++ {
			for x := r.Min.X; x < r.Max.X; x++ {
				switch g, _, _, _ := img.At(x, y).RGBA(); g {
				case 0xffff:
					s.WriteByte('#')
				case 0:
					s.WriteByte('.')
				default:
					s.WriteByte('?')
				}
			}
			s.WriteByte('/')
		}
		verdicts[string(b)] = s.String()
		return s.String()
	}
	var got [][]byte
	var errs []error
	return &drv.Scenario{
		GCEvery: 20,
		Before:  func() { got, errs = make([][]byte, len(v.Z)), make([]error, len(v.Z)) },
		Body: func() (string, error) {
			a, err := agent.New(context.Background(), "me", "master")
			if v.Bad == "register" {
				if err == nil {
					return "", errors.New("the agent does not notice that it is not registered")
				}
				return "error", nil
			}
			if err != nil {
				return "", err
			}
			var wg sync.WaitGroup
			for i, z := range v.Z {
				one := func() {
					resp, err := a.SliceJob(context.Background(), &pb.SliceJobRequest{NewJobRequest: in, Z: z})
					got[i], errs[i] = resp.GetPngFile(), err
				}
				if len(v.Z) == 1 {
					one()
					break
				}
				wg.Add(1)
				go func() { one(); wg.Done() }()
			}
			wg.Wait()
			return "", nil
		},
		After: func(runtime.VerifResult) error {
			for i, z := range v.Z {
				if v.Bad == "register" {
					break
				}
				if v.Bad != "" {
					if errs[i] == nil {
						return fmt.Errorf("slice %v of a malformed job is made", z)
					}
					continue
				}
				if errs[i] != nil {
					return fmt.Errorf("slice %v: %v", z, errs[i])
				}
				if s := render(got[i]); s != want[i] {
					return fmt.Errorf("slice %v: image %v, want %v", z, s, want[i])
				}
			}
			return nil
		},
	}
}
