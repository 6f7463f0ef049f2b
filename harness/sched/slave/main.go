//go:build verifsched

// Program slave runs requests at the same time at the real stldice-slave, whose sources are
// added to this package (with main renamed to slaveMain), without the network.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	pb "github.com/gmlewis/stldice/v4/stldice"
	"google.golang.org/grpc"
	"stldiceverif/sched/drv"
)

// slaveSpec are requests like "add 0 1": add or sub of a mesh (here 1) to a region, or get of a region.
// Model and Mesh are the regions that hold a voxel model or an uploaded mesh (3 of region number) before.
type slaveSpec struct {
	Ops   []string
	Model []int
	Mesh  []int
}

func main() {
	drvArgs, slaveFlags := os.Args, flag.CommandLine
	drvFlags := flag.NewFlagSet(os.Args[0], flag.ExitOnError)
	if err := slaveFlags.Set("port", "127.0.0.1:0"); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Args = os.Args[:1]
	func() {
		defer func() {
			if r := recover(); r != grpc.VerifServing {
				fmt.Fprintln(os.Stderr, "stldice-slave does not serve:", r)
				os.Exit(3)
			}
		}()
		slaveMain()
	}()
	os.Args, flag.CommandLine = drvArgs, drvFlags
	srv, ok := grpc.VerifService.(pb.STLDiceServer)
	if !ok {
		fmt.Fprintln(os.Stderr, "stldice-slave registers no STLDice server")
		os.Exit(3)
	}
	drv.Main(func(name string) *drv.Scenario {
		kind, arg, _ := strings.Cut(name, " ")
		var v slaveSpec
		if kind != "slave" || json.Unmarshal([]byte(arg), &v) != nil {
			return nil
		}
		return slaveScenario(srv, v)
	})
}

// verifMesh is a binary STL file of k+1 triangles that depend on k.
func verifMesh(k int) []byte {
	b := make([]byte, 84)
	b[80] = byte(k + 1)
	for i := 0; i <= k; i++ {
		t := make([]byte, 50)
		for j := 0; j < 9; j++ { // 1.0, 2.0, ... in the vertexes
			v := []byte{0, 0, 128, 63}
			if j%4 != 0 {
				v = []byte{0, 0, byte(16 * (j + k)), 64}
			}
			copy(t[12+4*j:], v)
		}
		t[12] = byte(k)
		t[24] = byte(i)
		b = append(b, t...)
	}
	return b
}

func verifModel(r int) []byte {
	return []byte(fmt.Sprintf("#binvox 1\ndim 2 1 1\ntranslate %d 0 0\nscale 2\ndata\n", r) + []string{"\x01\x01\x00\x01", "\x00\x01\x01\x01", "\x01\x02"}[r%3])
}

func verifRegion(r int) *pb.VoxelRegion {
	return &pb.VoxelRegion{Llx: float64(r), Urx: float64(r) + 2, Ury: 1, Urz: 1, Nx: 2, Ny: 1, Nz: 1}
}

func verifFile(r int) string {
	return fmt.Sprintf("model-%d-0-0-%d-1-1-2-1-1.binvox", r, r+2)
}

// verifTris are the vertexes of the triangles of a binary STL file, sorted.
func verifTris(b []byte) string {
	if len(b) < 84 || (len(b)-84)%50 != 0 || int(b[80])|int(b[81])<<8 != (len(b)-84)/50 {
		return fmt.Sprintf("no STL file (%d bytes)", len(b))
	}
	var t []string
	for p := b[84:]; len(p) > 0; p = p[50:] {
		t = append(t, string(p[12:48]))
	}
	sort.Strings(t)
	return fmt.Sprintf("%d triangles %x", len(t), strings.Join(t, ""))
}

func slaveScenario(srv pb.STLDiceServer, v slaveSpec) *drv.Scenario {
	const dir = "slave"
	clean := func() {
		names, _ := filepath.Glob(dir + "/*")
		for _, n := range names {
			os.Remove(n)
		}
		for _, r := range v.Model {
			os.WriteFile(filepath.Join(dir, verifFile(r)), verifModel(r), 0o644)
		}
		for _, r := range v.Mesh {
			os.WriteFile(filepath.Join(dir, verifFile(r)), verifMesh(3), 0o644)
		}
	}
	if err := os.Mkdir(dir, 0o755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	do := func(op string) string {
		var kind string
		var r, m int
		fmt.Sscan(op, &kind, &r, &m)
		var err error
		ok := "ok"
		switch kind {
		case "add":
			_, err = srv.AddSTLMesh(context.Background(), &pb.AddSTLMeshRequest{VoxelRegion: verifRegion(r), StlFile: verifMesh(m)})
		case "bad":
			_, err = srv.AddSTLMesh(context.Background(), &pb.AddSTLMeshRequest{VoxelRegion: verifRegion(r), StlFile: verifMesh(m)[:120]})
		case "sub":
			_, err = srv.SubSTLMesh(context.Background(), &pb.SubSTLMeshRequest{VoxelRegion: verifRegion(r), StlFile: verifMesh(m)})
		case "get":
			var g *pb.GetSTLMeshReply
			if g, err = srv.GetSTLMesh(context.Background(), &pb.GetSTLMeshRequest{VoxelRegion: verifRegion(r)}); err == nil {
				ok = verifTris(g.GetStlFile())
			}
		}
		if err != nil {
			return "error"
		}
		return ok
	}
	state := func() string {
		var out []string
		names, _ := filepath.Glob("*")
		for _, n := range names {
			b, _ := os.ReadFile(n)
			s := string(b)
			if !bytes.HasPrefix(b, []byte("#binvox")) {
				s = verifTris(b)
			}
			out = append(out, n+": "+s)
		}
		return strings.Join(out, "\n")
	}
	// What the requests give one after the other, in every order, follows from what each gives alone.
	clean()
	if err := os.Chdir(dir); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	alone := map[int]string{} // of "get" at a model
	for _, r := range v.Model {
		alone[r] = do(fmt.Sprint("get ", r))
		if !strings.Contains(alone[r], "triangles") {
			fmt.Fprintln(os.Stderr, "no mesh of region", r, alone[r])
		}
	}
	content := func(m map[int]string) string {
		var out []string
		for r, s := range m {
			out = append(out, verifFile(r)+": "+s)
		}
		sort.Strings(out)
		return strings.Join(out, "\n")
	}
	wants := map[string]string{}
	var permute func(done []int)
	permute = func(done []int) {
		if len(done) < len(v.Ops) {
		next:
			for i := range v.Ops {
				for _, d := range done {
					if d == i {
						continue next
					}
				}
				permute(append(done[:len(done):len(done)], i))
			}
			return
		}
		files, voxels := map[int]string{}, map[int]bool{}
		for _, r := range v.Model {
			files[r], voxels[r] = string(verifModel(r)), true
		}
		for _, r := range v.Mesh {
			files[r] = verifTris(verifMesh(3))
		}
		got := make([]string, len(v.Ops))
		for _, i := range done {
			var kind string
			var r, m int
			fmt.Sscan(v.Ops[i], &kind, &r, &m)
			got[i] = "error"
			switch {
			case kind == "add" && files[r] == "":
				files[r] = verifTris(verifMesh(m))
				got[i] = "ok"
			case kind == "get" && voxels[r]:
				got[i] = alone[r]
			}
		}
		wants[strings.Join(got, "; ")+"\n"+content(files)] = fmt.Sprint(done)
	}
	permute(nil)
	os.Chdir("..")
	var got []string
	return &drv.Scenario{
		Before: func() {
			clean()
			os.Chdir(dir)
			got = make([]string, len(v.Ops))
		},
		Body: func() (string, error) {
			var wg sync.WaitGroup
			for i := range v.Ops {
				wg.Add(1)
				go func() { got[i] = do(v.Ops[i]); wg.Done() }()
			}
			wg.Wait()
			return strings.Join(got, "; "), nil
		},
		After: func(runtime.VerifResult) error {
			s := strings.Join(got, "; ") + "\n" + state()
			os.Chdir("..")
			if _, ok := wants[s]; !ok {
				return fmt.Errorf("the requests %q at the same time give\n%s\nwhich is the result of no order of them:\n%q", v.Ops, s, wants)
			}
			return nil
		},
	}
}
