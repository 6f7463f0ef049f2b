//go:build verifsched

package main

import (
	"archive/zip"
	"bytes"
	"context"
	"encoding/xml"
	"errors"
	"fmt"
	"image/png"
	"io"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/gmlewis/stldice/v4/stl2svx/master"
	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"stldiceverif/sched/drv"
)

// masterSpec is a master with agents and jobs.
type masterSpec struct {
	// Jobs has the number of slices of each concurrent job.
	Jobs []int
	// Agents has a letter per agent: o works, s takes half a second, e fails every slice,
	// u cannot be reached, h hangs until its call is canceled, f fails its first slice and works
	// then, d has an address that cannot be dialed, x fails slice 0 only, p fails the slices of job 0 only; an upper-case letter registers itself
	// concurrently with the jobs, the others before.
	Agents string
	// Late is the virtual time after which the upper-case agents register themselves.
	LateMS int `json:",omitempty"`
	// Twice registers the agents again while the jobs run (as after a restart of the agent).
	Twice bool `json:",omitempty"`
	// CancelMS > 0 cancels job 0 after that virtual time; -1 cancels it concurrently.
	CancelMS int `json:",omitempty"`
	// Follow runs another job with that many slices afterwards.
	Follow int `json:",omitempty"`
	// Maps explores the choice of the idle agent.
	Maps bool `json:",omitempty"`
}

// job is a box of 2x3xn voxels of a millimeter.
func job(n, id int) *pb.NewJobRequest {
	c := func(i int) *pb.Vertex {
		p := &pb.Vertex{}
		if i&1 != 0 {
			p.X = 2
		}
		if i&2 != 0 {
			p.Y = 3
		}
		if i&4 != 0 {
			p.Z = float64(n)
		}
		return p
	}
	f := &pb.STLFile{}
	for _, q := range [][4]int{{0, 2, 3, 1}, {4, 5, 7, 6}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 4, 6, 2}, {1, 3, 7, 5}} {
		f.Triangles = append(f.Triangles, &pb.Triangle{V1: c(q[0]), V2: c(q[1]), V3: c(q[2])}, &pb.Triangle{V1: c(q[0]), V2: c(q[2]), V3: c(q[3])})
	}
	return &pb.NewJobRequest{StlFiles: []*pb.STLFile{f}, Dim: int64(max(n, 3)), NX: 2, NY: 3, NZ: 1, OutPrefix: fmt.Sprint(id)}
}

func pngOf(job string, z int64) []byte {
	return []byte(fmt.Sprintf("image of job %v slice %v", job, z))
}

// checkSVX checks that the file holds all slices of the job under the names that its manifest gives them.
func checkSVX(buf []byte, n int, id string) error {
	zr, err := zip.NewReader(bytes.NewReader(buf), int64(len(buf)))
	if err != nil {
		return fmt.Errorf("job %v: %v", id, err)
	}
	files := map[string][]byte{}
	for _, f := range zr.File {
		if _, ok := files[f.Name]; ok {
			return fmt.Errorf("job %v: %v is twice in the SVX file", id, f.Name)
		}
		r, err := f.Open()
		if err != nil {
			return err
		}
		if files[f.Name], err = io.ReadAll(r); err != nil {
			return fmt.Errorf("job %v: %v: %v", id, f.Name, err)
		}
	}
	var m struct {
		X        int     `xml:"gridSizeX,attr"`
		Y        int     `xml:"gridSizeY,attr"`
		Z        int     `xml:"gridSizeZ,attr"`
		Size     float64 `xml:"voxelSize,attr"`
		Channels []struct {
			Type   string `xml:"type,attr"`
			Slices string `xml:"slices,attr"`
		} `xml:"channels>channel"`
	}
	if err := xml.Unmarshal(files["manifest.xml"], &m); err != nil {
		return fmt.Errorf("job %v: manifest.xml: %v", id, err)
	}
	if len(m.Channels) != 1 || m.Channels[0].Type != "DENSITY" {
		return fmt.Errorf("job %v: channels %v", id, m.Channels)
	}
	// The slices lie along gridSizeY, the manifest declares slicesOrientation Y.
	w, h := 2, 3
	if m.X != w+2 || m.Z != h+2 || m.Y != n+2 {
		return fmt.Errorf("job %v: grid %v x %v x %v in the manifest, want %v x %v x %v", id, m.X, m.Y, m.Z, w+2, n+2, h+2)
	}
	if len(files) != n+3 {
		return fmt.Errorf("job %v: %v files in the SVX file, want %v", id, len(files), n+3)
	}
	for i := 0; i < n+2; i++ {
		name := fmt.Sprintf(m.Channels[0].Slices, i)
		got, ok := files[name]
		if !ok {
			return fmt.Errorf("job %v: no slice %v (%v) in the SVX file", id, i, name)
		}
		if i > 0 && i <= n {
			if want := pngOf(id, int64(i-1)); !bytes.Equal(got, want) {
				return fmt.Errorf("job %v: %v holds %.60q, want %q", id, name, got, want)
			}
			continue
		}
		img, err := png.Decode(bytes.NewReader(got))
		if err != nil {
			return fmt.Errorf("job %v: blank slice %v: %v", id, i, err)
		}
		b := img.Bounds()
		if b.Dx() != w+2 || b.Dy() != h+2 {
			return fmt.Errorf("job %v: blank slice %v is %v", id, i, b)
		}
		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				if r, _, _, _ := img.At(x, y).RGBA(); r != 0 {
					return fmt.Errorf("job %v: blank slice %v is not blank", id, i)
				}
			}
		}
	}
	return nil
}

type outcome struct {
	resp *pb.NewJobResponse
	err  error
	took time.Duration
	set  bool
}

func masterScenario(v masterSpec) *drv.Scenario {
	var mu sync.Mutex // also orders the accesses for the race detector
	var busy, calls map[string]int
	var bad error
	var results []outcome
	var follow outcome
	fail := func(format string, args ...any) {
		if bad == nil {
			bad = fmt.Errorf(format, args...)
		}
	}
	address := func(i int) string {
		if strings.ToLower(v.Agents)[i] == 'd' {
			return "" // as if started without -addr
		}
		return fmt.Sprintf("agent%d", i)
	}
	kind := func(target string) byte {
		if target == "" {
			return 'u'
		}
		return strings.ToLower(v.Agents)[target[len(target)-1]-'0']
	}
	grpc.VerifInvoke = func(ctx context.Context, target, method string, args, reply any) error {
		if method != "/stl2svx.Agent/SliceJob" {
			return status.Error(codes.Unimplemented, method)
		}
		in, out := args.(*pb.SliceJobRequest), reply.(*pb.SliceJobResponse)
		if ctx.Err() != nil {
			return status.FromContextError(ctx.Err()).Err()
		}
		if kind(target) == 'u' {
			runtime.VerifYield()
			return status.Error(codes.Unavailable, "connection refused")
		}
		mu.Lock()
		busy[target]++
		calls[target]++
		n := calls[target]
		if busy[target] > 1 && !v.Twice {
			fail("agent %v has %v slices to make at the same time", target, busy[target])
		}
		mu.Unlock()
		var err error
		switch kind(target) {
		case 's':
			t := time.NewTimer(500 * time.Millisecond)
			select {
			case <-ctx.Done():
				err = status.FromContextError(ctx.Err()).Err()
			case <-t.C:
			}
		case 'h':
			<-ctx.Done()
			err = status.FromContextError(ctx.Err()).Err()
		case 'e':
			err = status.Error(codes.Unknown, "slice failed")
		case 'f':
			if n == 1 {
				err = status.Error(codes.Unknown, "slice failed")
			}
		case 'x':
			if in.GetZ() == 0 {
				err = status.Error(codes.Unknown, "slice failed")
			}
		case 'p':
			if in.GetNewJobRequest().GetOutPrefix() == "0" {
				err = status.Error(codes.Unknown, "slice failed")
			}
		}
		runtime.VerifYield()
		mu.Lock()
		busy[target]--
		mu.Unlock()
		if err == nil {
			out.PngFile = pngOf(in.GetNewJobRequest().GetOutPrefix(), in.GetZ())
		}
		return err
	}
	cfg := runtime.VerifConfig{}
	known := map[string]error{} // verdicts about files
	if v.Maps {
		cfg.MaxMap = 4
	}
	all := strings.ToLower(v.Agents)
	// works: agents that never fail.
	works := strings.Trim(all, "osd") == "" && strings.Trim(all, "d") != "" || all == ""
	return &drv.Scenario{
		Config:  cfg,
		GCEvery: 20,
		Before: func() {
			busy, calls = map[string]int{}, map[string]int{}
			bad = nil
			results = make([]outcome, len(v.Jobs))
			follow = outcome{}
		},
		Body: func() (string, error) {
			m := master.New()
			register := func(i int) error {
				_, err := m.RegisterAgent(context.Background(), &pb.RegisterAgentRequest{Address: address(i)})
				return err
			}
			var wg sync.WaitGroup
			for i := range v.Agents {
				if v.Agents[i] >= 'a' {
					if err := register(i); err != nil {
						return "", err
					}
					if !v.Twice {
						continue
					}
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					if v.LateMS > 0 {
						time.Sleep(time.Duration(v.LateMS) * time.Millisecond)
					}
					if err := register(i); err != nil {
						panic(err)
					}
				}()
			}
			run := func(ctx context.Context, n, id int) (o outcome) {
				t := time.Now()
				o.resp, o.err = m.NewJob(ctx, job(n, id))
				o.took = time.Since(t)
				o.set = true
				return o
			}
			for i, n := range v.Jobs {
				ctx, cancel := context.WithCancel(context.Background())
				if i == 0 && v.CancelMS != 0 {
					wg.Add(1)
					go func() {
						defer wg.Done()
						if v.CancelMS > 0 {
							time.Sleep(time.Duration(v.CancelMS) * time.Millisecond)
						}
						cancel()
					}()
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					results[i] = run(ctx, n, i)
					if i > 0 || v.CancelMS == 0 {
						cancel()
					}
				}()
			}
			wg.Wait()
			if v.Follow > 0 {
				follow = run(context.Background(), v.Follow, 9)
			}
			s := ""
			for _, o := range results {
				s += fmt.Sprint(o.err) + ";"
			}
			return s, nil
		},
		After: func(runtime.VerifResult) error {
			if bad != nil {
				return bad
			}
			judge := func(o outcome, n int, id string, must, mustFail, canceled bool) error {
				switch {
				case o.err == nil && o.resp == nil:
					return fmt.Errorf("job %v: no answer and no error", id)
				case o.err != nil && must:
					return fmt.Errorf("job %v fails although nothing else does: %v", id, o.err)
				case o.err == nil && mustFail:
					return fmt.Errorf("job %v succeeds without all slices", id)
				case o.err == nil:
					key := id + string(o.resp.GetSvxFile())
					err, ok := known[key]
					if !ok {
						err = checkSVX(o.resp.GetSvxFile(), n, id)
						known[key] = err
					}
					return err
				case o.resp != nil && len(o.resp.GetSvxFile()) > 0:
					return errors.New("a job returns a file and an error")
				}
				if lim := time.Duration(v.CancelMS+1000) * time.Millisecond; canceled && v.CancelMS > 0 && o.took > lim {
					return fmt.Errorf("job %v: canceled after %v ms, ends after %v", id, v.CancelMS, o.took)
				}
				return nil
			}
			for i, o := range results {
				canceled := i == 0 && v.CancelMS != 0
				must := works && !canceled || strings.Trim(all, "ospd") == "" && i > 0
				none := all == "" || strings.Trim(all, "euhp") == "" && i == 0 || strings.Trim(all, "eu") == ""
				if err := judge(o, v.Jobs[i], fmt.Sprint(i), must, none, canceled); err != nil {
					return err
				}
			}
			failed := 0
			for i, o := range append(append([]outcome{}, results...), follow) {
				if o.err != nil && (i > 0 || v.CancelMS == 0) {
					failed++
				}
			}
			if dead := strings.Count(all, "u") + strings.Count(all, "f"); strings.Trim(all, "osufd") == "" && failed > dead {
				return fmt.Errorf("%v jobs fail because of %v agents that fail one slice", failed, dead)
			}
			if v.Follow > 0 {
				if err := judge(follow, v.Follow, "9", strings.Trim(all, "ospd") == "", strings.Trim(all, "eu") == "", false); err != nil {
					return fmt.Errorf("a following job: %v", err)
				}
			}
			return nil
		},
	}
}
