package checks

import (
	"archive/zip"
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/binary"
	"encoding/xml"
	"fmt"
	"hash/crc32"
	"image/png"
	"io"
	"math"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"stldiceverif/hx"
)

// cluster is a master and its agents, all in processes of their own. The agents are reached
// through a relay in this process, which can end them at a chosen slice.
type cluster struct {
	bin    string
	ip     string // its own loopback address, so that nothing else gets the ports of what has ended
	addr   string // of the master
	master *exec.Cmd
	mdead  chan struct{}

	front  *grpc.Server // where the agents register
	faddr  string
	port   int // of the last relay
	mu     sync.Mutex
	agents []*relay
	came   chan *relay
}

type relay struct {
	cl   *cluster
	port string // of the process
	proc *exec.Cmd
	dead chan struct{}
	srv  *grpc.Server
	addr string

	mu    sync.Mutex
	calls int
	at    int    // at this call, ...
	what  string // ... this happens
	gone  bool
	done  chan struct{} // closed when it has happened
}

const bigMessage = 1 << 30

var dialOpts = []grpc.DialOption{grpc.WithInsecure(), grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(bigMessage), grpc.MaxCallSendMsgSize(bigMessage))}

func serve(addr string, reg func(*grpc.Server)) (*grpc.Server, error) {
	lis, err := net.Listen("tcp", addr)
	if err != nil {
		return nil, err
	}
	s := grpc.NewServer(grpc.MaxRecvMsgSize(bigMessage), grpc.MaxSendMsgSize(bigMessage))
	reg(s)
	go s.Serve(lis)
	return s, nil
}

var clusters atomic.Int32

// start starts a server process; the channel is closed when it has ended.
func start(bin string, args ...string) (*exec.Cmd, chan struct{}, *bytes.Buffer, error) {
	cmd := exec.Command(bin, args...)
	var out bytes.Buffer
	cmd.Stderr = &out
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return nil, nil, nil, err
	}
	ch := make(chan struct{})
	go func() { cmd.Wait(); close(ch) }()
	return cmd, ch, &out, nil
}

func ended(ch chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

func (cl *cluster) startMaster() error {
	for try := 0; ; try++ {
		cmd, dead, out, err := start(cl.bin, "-port", cl.addr)
		if err != nil {
			return err
		}
		for t := time.Now(); !ended(dead); time.Sleep(2 * time.Millisecond) {
			if c, err := net.Dial("tcp", cl.addr); err == nil {
				c.Close()
				cl.master, cl.mdead = cmd, dead
				return nil
			}
			if time.Since(t) > 20*time.Second {
				cmd.Process.Kill()
				return fmt.Errorf("the master does not listen on %v", cl.addr)
			}
		}
		if try > 20 {
			return fmt.Errorf("the master does not start: %v", out)
		}
		time.Sleep(5 * time.Millisecond)
	}
}

func newCluster(bin string) (*cluster, error) {
	n := clusters.Add(1)
	cl := &cluster{bin: bin, came: make(chan *relay, 1), port: 10000, ip: fmt.Sprintf("127.%d.%d.%d", 64+os.Getpid()%128, n>>7, 1+n&127)}
	cl.addr, cl.faddr = cl.ip+":9999", cl.ip+":10000"
	if err := cl.startMaster(); err != nil {
		return nil, err
	}
	var err error
	cl.front, err = serve(cl.faddr, func(s *grpc.Server) { pb.RegisterMasterServer(s, front{cl: cl}) })
	return cl, err
}

func (cl *cluster) stop() {
	cl.master.Process.Kill()
	<-cl.mdead
	for _, r := range cl.agents {
		r.kill()
		<-r.dead
	}
	cl.front.Stop()
}

// front is where the agents register; it registers a relay at the master instead.
type front struct {
	pb.MasterServer
	cl *cluster
}

func (f front) RegisterAgent(ctx context.Context, in *pb.RegisterAgentRequest) (*pb.RegisterAgentResponse, error) {
	a := in.GetAddress()
	r := &relay{cl: f.cl, port: a[strings.LastIndex(a, ":")+1:], done: make(chan struct{})}
	var err error
	f.cl.mu.Lock()
	f.cl.port++
	r.addr = fmt.Sprintf("%v:%v", f.cl.ip, f.cl.port)
	f.cl.mu.Unlock()
	if r.srv, err = serve(r.addr, func(s *grpc.Server) { pb.RegisterAgentServer(s, r) }); err != nil {
		return nil, err
	}
	conn, err := grpc.Dial(f.cl.addr, dialOpts...)
	if err != nil {
		return nil, err
	}
	defer conn.Close()
	f.cl.came <- r
	return pb.NewMasterClient(conn).RegisterAgent(ctx, &pb.RegisterAgentRequest{Address: r.addr})
}

func (cl *cluster) startAgent() (*relay, error) {
	cmd, dead, out, err := start(cl.bin, "-port", "127.0.0.1:0", "-master", cl.faddr)
	if err != nil {
		return nil, err
	}
	select {
	case r := <-cl.came:
		r.proc, r.dead = cmd, dead
		cl.mu.Lock()
		cl.agents = append(cl.agents, r)
		cl.mu.Unlock()
		return r, nil
	case <-dead:
		return nil, fmt.Errorf("the agent ends at once: %v", out)
	case <-time.After(20 * time.Second):
		cmd.Process.Kill()
		return nil, fmt.Errorf("the agent does not register: %v", out)
	}
}

func (r *relay) kill() {
	r.mu.Lock()
	gone := r.gone
	r.gone = true
	r.mu.Unlock()
	if !gone {
		r.proc.Process.Kill()
		go r.srv.Stop()
	}
}

func (r *relay) SliceJob(ctx context.Context, in *pb.SliceJobRequest) (*pb.SliceJobResponse, error) {
	r.mu.Lock()
	r.calls++
	what := ""
	if r.calls == r.at {
		what = r.what
	}
	gone := r.gone
	r.mu.Unlock()
	if gone {
		return nil, status.Error(codes.Unavailable, "gone")
	}
	if what != "" {
		defer close(r.done)
	}
	switch what {
	case "before":
		r.kill()
		return nil, status.Error(codes.Unavailable, "gone")
	case "master":
		r.cl.master.Process.Kill()
		<-r.cl.mdead
	}
	conn, err := grpc.Dial("127.0.0.1:"+r.port, dialOpts...)
	if err != nil {
		return nil, err
	}
	defer conn.Close()
	if what == "during" {
		go r.kill()
	}
	resp, err := pb.NewAgentClient(conn).SliceJob(ctx, in)
	if err == nil && in.GetNewJobRequest().GetOutPrefix() == largePrefix {
		resp.PngFile = padPNG(resp.PngFile, 5<<20+int(in.GetZ()))
	}
	if what == "after" {
		go func() {
			time.Sleep(time.Millisecond)
			r.kill()
		}()
	}
	return resp, err
}

// largePrefix marks a job whose slices do not compress well.
const largePrefix = "large"

// padPNG adds n bytes that cannot be compressed to an image, which looks the same.
func padPNG(b []byte, n int) []byte {
	const end = 12 // the IEND chunk
	if len(b) < end || string(b[len(b)-8:len(b)-4]) != "IEND" {
		return b
	}
	chunk := append(binary.BigEndian.AppendUint32(nil, uint32(n)), "prVt"...)
	for x := uint32(n)*2 + 1; n > 0; n-- {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		chunk = append(chunk, byte(x))
	}
	chunk = binary.BigEndian.AppendUint32(chunk, crc32.ChecksumIEEE(chunk[4:]))
	return append(append(append([]byte(nil), b[:len(b)-end]...), chunk...), b[len(b)-end:]...)
}

// svxContent is what an SVX file of the master holds, without its frame.
type svxContent struct {
	n    K
	size float64 // of a voxel in meters
	set  Set
}

func readSVX(buf []byte) (*svxContent, error) {
	zr, err := zip.NewReader(bytes.NewReader(buf), int64(len(buf)))
	if err != nil {
		return nil, err
	}
	files := map[string][]byte{}
	for _, f := range zr.File {
		r, err := f.Open()
		if err != nil {
			return nil, err
		}
		if _, ok := files[f.Name]; ok {
			return nil, fmt.Errorf("%v is twice in the file", f.Name)
		}
		if files[f.Name], err = io.ReadAll(r); err != nil {
			return nil, fmt.Errorf("%v: %v", f.Name, err)
		}
	}
	var m struct {
		X           int     `xml:"gridSizeX,attr"`
		Y           int     `xml:"gridSizeY,attr"`
		Z           int     `xml:"gridSizeZ,attr"`
		Size        float64 `xml:"voxelSize,attr"`
		Orientation string  `xml:"slicesOrientation,attr"`
		Channels    []struct {
			Type   string `xml:"type,attr"`
			Slices string `xml:"slices,attr"`
		} `xml:"channels>channel"`
	}
	if err := xml.Unmarshal(files["manifest.xml"], &m); err != nil {
		return nil, fmt.Errorf("manifest.xml: %v", err)
	}
	if len(m.Channels) != 1 || m.Channels[0].Type != "DENSITY" || m.Orientation != "Y" {
		return nil, fmt.Errorf("manifest: %+v", m)
	}
	s := &svxContent{n: K{m.X - 2, m.Z - 2, m.Y - 2}, size: m.Size, set: Set{}}
	if len(files) != m.Y+1 {
		return nil, fmt.Errorf("%v files for a manifest of %v slices", len(files), m.Y)
	}
	for i := 0; i < m.Y; i++ {
		name := fmt.Sprintf(m.Channels[0].Slices, i)
		b, ok := files[name]
		if !ok {
			return nil, fmt.Errorf("no slice %v", name)
		}
		one := Set{}
		if m.X*m.Z > 1<<22 {
			// only the size of large slices
			cfg, err := png.DecodeConfig(bytes.NewReader(b))
			if err != nil || cfg.Width != m.X || cfg.Height != m.Z {
				return nil, fmt.Errorf("slice %v: %v %v", name, cfg, err)
			}
			continue
		}
		if err := readSlice(b, s.n, i-1, one); err != nil {
			return nil, fmt.Errorf("slice %v: %v", name, err)
		}
		if (i == 0 || i == m.Y-1) && len(one) > 0 {
			return nil, fmt.Errorf("slice %v of the frame is not blank", name)
		}
		for k := range one {
			s.set[k] = true
		}
	}
	return s, nil
}

// clientJob is one run of the client.
type clientJob struct {
	Job    jobCase
	Text   int      `json:",omitempty"` // bit i: file i is an ASCII file
	Prefix string   `json:",omitempty"`
	Big    int      `json:",omitempty"` // so many triangles more in the base, inside of the first box
	Dim    int      `json:",omitempty"` // resolution instead of one voxel per unit
	Old    bool     `json:",omitempty"` // there is an older output file
	Names  []string `json:",omitempty"` // of the files; the same name twice is the same file
}

// unified makes the contents of files with the same name the same.
func (v clientJob) unified() clientJob {
	first := map[string][]solid{}
	cuts := v.Job.Cuts
	v.Job.Cuts = nil
	for i, name := range v.Names {
		s := v.Job.Base
		if i > 0 {
			s = cuts[i-1]
		}
		if o, ok := first[name]; ok {
			s = o
		}
		first[name] = s
		if i > 0 {
			v.Job.Cuts = append(v.Job.Cuts, s)
		}
	}
	return v
}

// prepare writes the files and returns the arguments and the name of the output.
func (v clientJob) prepare(dir, master string) (args []string, out string) {
	n, dim := v.Job.size()
	if v.Dim > 0 {
		dim = v.Dim
	}
	var names []string
	for i, s := range append([][]solid{v.Job.Base}, v.Job.Cuts...) {
		ts := v.Job.vox(s, n).world()
		if i == 0 && v.Big > 0 {
			for len(ts) < v.Big {
				ts = append(ts, ts[:12]...) // the surface once more, both sides
				for _, t := range ts[:12] {
					ts = append(ts, tri{t[0], t[2], t[1]})
				}
			}
		}
		name := fmt.Sprintf("%s%d.stl", v.Prefix, i)
		if v.Names != nil {
			name = v.Names[i]
			os.MkdirAll(filepath.Dir(filepath.Join(dir, name)), 0o755)
		}
		b := binarySTL(ts)
		if v.Text>>i&1 != 0 {
			b = asciiSTL(ts)
		}
		mustWrite(filepath.Join(dir, name), b)
		names = append(names, name)
	}
	args = []string{"-stl", strings.Join(names, ","), "-dim", fmt.Sprint(dim), "-nx", fmt.Sprint(v.Job.Div[0]), "-ny", fmt.Sprint(v.Job.Div[1]), "-nz", fmt.Sprint(v.Job.Div[2]), "-master", master}
	prefix := "out"
	if v.Prefix != "" {
		prefix = v.Prefix
		args = append(args, "-prefix", prefix)
	}
	out = filepath.Join(dir, fmt.Sprintf("%v-%v-%v-%v-%v.svx", prefix, dim, v.Job.Div[0], v.Job.Div[1], v.Job.Div[2]))
	if v.Old {
		mustWrite(out, []byte("old"))
	}
	return args, out
}

// verdict judges the run of the client: nil, nil means that it has failed cleanly.
func (v clientJob) verdict(r hx.Result, out string) (*svxContent, error) {
	b, err := os.ReadFile(out)
	switch {
	case r.Hung:
		return nil, fmt.Errorf("the client hangs")
	case strings.Contains(r.Stderr, "panic:") || strings.Contains(r.Stderr, "fatal error:"):
		return nil, fmt.Errorf("the client crashes: %.500s", r.Stderr)
	case r.Code != 0 && v.Old && (err != nil || string(b) != "old"):
		return nil, fmt.Errorf("the client fails, but the old output file has changed")
	case r.Code != 0 && !v.Old && err == nil:
		return nil, fmt.Errorf("the client fails, but leaves an output file of %v bytes", len(b))
	case r.Code != 0:
		return nil, nil
	case err != nil:
		return nil, fmt.Errorf("the client succeeds without an output file: %v", err)
	}
	s, err := readSVX(b)
	if err != nil {
		return nil, err
	}
	if v.Dim > 0 {
		return s, nil
	}
	n, _ := v.Job.size()
	if s.n != n {
		return nil, fmt.Errorf("the SVX file has %v voxels, want %v", s.n, n)
	}
	if math.Abs(s.size*v.Job.VPMM*1000-1) > 1e-9 {
		return nil, fmt.Errorf("a voxel of the SVX file has %v m, want %v mm", s.size, 1/v.Job.VPMM)
	}
	want, err := v.Job.voxels()
	if err != nil {
		return nil, err
	}
	return s, diff(s.set, want)
}

// theCluster is used by all jobs that nothing disturbs.
var theClusterOnce sync.Once
var theCluster *cluster

func sharedCluster(c *hx.Ctx) *cluster {
	theClusterOnce.Do(func() {
		cl, err := newCluster(c.Cmd("stl2svx/stl2svx-server"))
		if err != nil {
			panic(err)
		}
		for i := 0; i < 8; i++ {
			if _, err := cl.startAgent(); err != nil {
				panic(err)
			}
		}
		theCluster = cl
	})
	return theCluster
}

func (v clientJob) run(c *hx.Ctx) (string, error) {
	cl := sharedCluster(c)
	dir := c.TmpDir()
	defer os.RemoveAll(dir)
	args, out := v.prepare(dir, cl.addr)
	in := filesOf(dir, out)
	r := c.Run(dir, c.Cmd("stl2svx/stl2svx-client"), args...)
	s, err := v.verdict(r, out)
	if err != nil {
		return "", err
	}
	if s == nil {
		return "", fmt.Errorf("the client fails: %.500s", r.Stderr)
	}
	if got := filesOf(dir, out); got != in {
		return "", fmt.Errorf("other files: %v, before %v", got, in)
	}
	return fmt.Sprint(s.n) + s.set.hash(), nil
}

// filesOf is the state of a directory without the file out.
func filesOf(dir, out string) string {
	var s []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && p != out {
			s = append(s, fmt.Sprintf("%v %x", fi.Name(), sha256.Sum256(mustRead(p))))
		}
		return nil
	})
	return strings.Join(s, ", ")
}

// badRun is a run of the client that cannot succeed.
type badRun struct {
	What string
	File int  `json:",omitempty"` // which of the files is bad
	Cut  int  `json:",omitempty"`
	Text bool `json:",omitempty"`
	Old  bool `json:",omitempty"`
}

func (v badRun) run(c *hx.Ctx) (string, error) {
	cl := sharedCluster(c)
	dir := c.TmpDir()
	defer os.RemoveAll(dir)
	j := clientJob{Job: simpleJob, Old: v.Old}
	j.Job.Cuts = append(j.Job.Cuts, []solid{boxSolid(0.5, 1, 0, 1, 2, 1)})
	if v.Text {
		j.Text = 7
	}
	args, out := j.prepare(dir, cl.addr)
	fn := filepath.Join(dir, fmt.Sprintf("%d.stl", v.File))
	set := func(flag, to string) {
		for i, a := range args {
			if a == flag {
				args[i+1] = to
			}
		}
	}
	switch v.What {
	case "missing":
		os.Remove(fn)
	case "directory":
		os.Remove(fn)
		os.Mkdir(fn, 0o755)
	case "cut":
		b := mustRead(fn)
		mustWrite(fn, b[:min(v.Cut, len(b)-1)])
	case "longer":
		mustWrite(fn, append(mustRead(fn), make([]byte, v.Cut)...))
	case "count":
		b := mustRead(fn)
		b[80+v.Cut%4] ^= 1 << (v.Cut / 4)
		mustWrite(fn, b)
	case "empty name":
		set("-stl", "0.stl,,2.stl")
	case "no files":
		set("-stl", "")
	case "no triangles":
		mustWrite(fn, binarySTL(nil))
	case "dim":
		set("-dim", fmt.Sprint(v.Cut))
		out = filepath.Join(dir, fmt.Sprintf("out-%v-1-1-1.svx", v.Cut))
	case "nx", "ny", "nz":
		set("-"+v.What, fmt.Sprint(v.Cut))
		d := map[string]int{"nx": 1, "ny": 1, "nz": 1}
		d[v.What] = v.Cut
		out = filepath.Join(dir, fmt.Sprintf("out-3-%v-%v-%v.svx", d["nx"], d["ny"], d["nz"]))
	case "master":
		lis, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return "", err
		}
		set("-master", lis.Addr().String())
		lis.Close()
	case "no directory":
		args = append(args, "-prefix", "no/such/dir")
		out = filepath.Join(dir, "no/such/dir-3-1-1-1.svx")
		j.Old = false
	}
	if j.Old {
		mustWrite(out, []byte("old"))
	}
	in := filesOf(dir, out)
	r := c.Run(dir, c.Cmd("stl2svx/stl2svx-client"), args...)
	s, err := j.verdict(r, out)
	if err != nil {
		return "", err
	}
	if s != nil {
		return "", fmt.Errorf("the client succeeds")
	}
	if got := filesOf(dir, out); got != in {
		return "", fmt.Errorf("other files: %v, before %v", got, in)
	}
	if ended(cl.mdead) {
		return "", fmt.Errorf("the master has ended")
	}
	for _, a := range cl.agents {
		if ended(a.dead) {
			return "", fmt.Errorf("an agent has ended")
		}
	}
	return "refused", nil
}

var simpleJob = jobCase{VPMM: 1, Base: []solid{boxSolid(0, 0, 0, 3, 2, 2)}, Cuts: [][]solid{{boxSolid(1.25, 0.5, 1, 2.5, 3, 4)}}, Div: K{1, 1, 1}}

// history is a sequence of events at a cluster with one agent:
// J a job, C two jobs at the same time, B a bad job, A an agent comes, K the oldest agent is killed,
// X Z W a job in which the oldest agent is killed before, during and after its first slice,
// Y a job in which the master is killed at a slice and started again, M the master is killed and started again.
type history struct{ Events string }

func (v history) run(c *hx.Ctx) (string, error) {
	client := c.Cmd("stl2svx/stl2svx-client")
	cl, err := newCluster(c.Cmd("stl2svx/stl2svx-server"))
	if err != nil {
		return "", err
	}
	defer cl.stop()
	var live []*relay // registered at this master and alive
	dead := 0         // at most so many agents are registered but dead
	agent := func() error {
		r, err := cl.startAgent()
		if err == nil {
			live = append(live, r)
		}
		return err
	}
	if err := agent(); err != nil {
		return "", err
	}
	res := ""
	for i, e := range v.Events {
		at := func(err error) error { return fmt.Errorf("event %d (%c): %v", i, e, err) }
		jobs := 1
		mayFail := false // because of this event
		switch e {
		case 'A':
			jobs = 0
			if err := agent(); err != nil {
				return "", at(err)
			}
		case 'K':
			jobs = 0
			if len(live) > 0 {
				live[0].kill()
				<-live[0].dead
				live = live[1:]
				dead++
			}
		case 'M':
			jobs = 0
			cl.master.Process.Kill()
			<-cl.mdead
			if err := cl.startMaster(); err != nil {
				return "", at(err)
			}
			live, dead = nil, 0
		case 'C':
			jobs = 2
		case 'X', 'Z', 'W', 'Y':
			mayFail = true
			if len(live) == 0 {
				if err := agent(); err != nil {
					return "", at(err)
				}
			}
			r := live[0]
			r.mu.Lock()
			r.at, r.what = r.calls+1, map[rune]string{'X': "before", 'Z': "during", 'W': "after", 'Y': "master"}[e]
			r.mu.Unlock()
		}
		if jobs == 0 {
			continue
		}
		if e == 'X' || e == 'Z' || e == 'W' {
			// Another agent, since the job may need it after the first one.
			if len(live) < 2 {
				if err := agent(); err != nil {
					return "", at(err)
				}
			}
		}
		var wg sync.WaitGroup
		ok := make([]bool, jobs)
		errs := make([]error, jobs)
		for k := range ok {
			wg.Add(1)
			go func() {
				defer wg.Done()
				j := clientJob{Job: simpleJob, Old: i%2 == 0}
				if k > 0 {
					j.Job.Div, j.Job.Cuts = K{2, 1, 2}, nil
				}
				dir := c.TmpDir()
				defer os.RemoveAll(dir)
				args, out := j.prepare(dir, cl.addr)
				if e == 'B' {
					args = append(args, "-nz", "3")
					out = filepath.Join(dir, "out-3-1-1-3.svx")
					mustWrite(out, []byte("old"))
					j.Old = true
				}
				r := c.Run(dir, client, args...)
				s, err := j.verdict(r, out)
				ok[k], errs[k] = s != nil, err
			}()
		}
		if len(live) == 0 && e != 'B' {
			// The jobs wait for an agent.
			time.Sleep(20 * time.Millisecond)
			if err := agent(); err != nil {
				return "", at(err)
			}
		}
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				return "", at(err)
			}
		}
		switch e {
		case 'B':
			if ok[0] {
				return "", at(fmt.Errorf("the bad job succeeds"))
			}
			continue
		case 'X', 'Z', 'W':
			r := live[0]
			r.mu.Lock()
			did := r.calls >= r.at
			r.at = 0
			r.mu.Unlock()
			if did {
				r.mu.Lock()
				done := r.done
				r.mu.Unlock()
				<-done
				<-r.dead
				live = live[1:]
				if ok[0] {
					dead++
				}
			}
			if did && e == 'X' && ok[0] {
				return "", at(fmt.Errorf("the job succeeds without one of its slices"))
			}
		case 'Y':
			r := live[0]
			r.mu.Lock()
			did := r.calls >= r.at
			r.at = 0
			r.mu.Unlock()
			if did {
				if ok[0] {
					return "", at(fmt.Errorf("the job succeeds without the master"))
				}
				<-r.done
				r.mu.Lock()
				r.done = make(chan struct{})
				r.mu.Unlock()
				if err := cl.startMaster(); err != nil {
					return "", at(err)
				}
				live, dead = nil, 0
			}
		}
		for k := range ok {
			if !ok[k] && !mayFail {
				if dead == 0 {
					return "", at(fmt.Errorf("job %d fails although all agents are well", k))
				}
				dead--
			}
			res += fmt.Sprintf("%c%v ", e, ok[k])
		}
		if ended(cl.mdead) {
			return "", at(fmt.Errorf("the master has ended"))
		}
		for _, r := range live {
			if ended(r.dead) {
				return "", at(fmt.Errorf("an agent has ended"))
			}
		}
	}
	// In the end, with a new agent and after the dead ones are gone, jobs succeed.
	return v.Events, nil
}

func genClientJobs(c *hx.Ctx, yield func(clientJob) bool) {
	i := 0
	for _, l := range []jobCase{{VPMM: 1}, {VPMM: 4, T: V3{-8, 3.25, -0.5}}} {
		for _, base := range [][]solid{
			{boxSolid(0, 0, 0, 3, 2, 2)}, {boxSolid(0, 0, 0, 1.5, 2.25, 3)}, {boxSolid(0, 0, 0, 1, 4, 2)},
			{boxSolid(0, 0, 0, 1, 1, 1), boxSolid(2, 0, 1, 4, 2, 2), boxSolid(0, 3, 2, 1, 4, 3)},
		} {
			for cuts := 0; cuts <= 2; cuts++ {
				for text := 0; text < 2<<cuts; text++ {
					n, _ := jobCase{VPMM: 1, Base: base}.size()
					for d := 0; d < 8; d++ {
						v := clientJob{Job: l, Text: text, Prefix: []string{"", "a b", "x.y-1"}[i%3], Old: i%4 == 0}
						i++
						v.Job.Base = base
						v.Job.Div = K{1 + d&1*(n[0]-1), 1 + d>>1&1*(n[1]-1), 1 + d>>2&1*(n[2]-1)}
						if d&1 == 0 && n[0] > 2 {
							v.Job.Div[0] = 2
						}
						for k := 0; k < cuts; k++ {
							v.Job.Cuts = append(v.Job.Cuts, [][]solid{{boxSolid(0.5, -1, 0.25, 1.75, 1.5, 9)}, {boxSolid(-3, 1.25, -1, 9, 1.75, 1), boxSolid(40, 40, 0, 41, 41, 1)}}[k])
						}
						if !yield(v) {
							return
						}
					}
				}
			}
		}
	}
	// names that differ little or not at all
	for _, names := range [][]string{
		{"a.stl", "a.stl"}, {"a.stl", "b.stl", "a.stl"}, {"a.stl", "b.stl", "b.stl"}, {"a.stl", "a.stl", "a.stl"}, {"a.stl", "b.stl", "c.stl", "b.stl"}, {"a.stl", "./a.stl"},
		{"a/x.stl", "b/x.stl"}, {"x.stl", "X.stl", "x.STL"}, {"x.1.stl", "x.2.stl"}, {"x", "x.stl"}, {"a b.stl", "%d%s.stl", "c;d.stl"}, {"a", "b", "c", "d", "e", "f", "g", "h", "i"},
	} {
		for d := 0; d < 4; d++ {
			v := clientJob{Names: names, Job: jobCase{VPMM: 1, Base: []solid{boxSolid(0, 0, 0, 4, 3, 2)}, Div: K{1 + d&1, 1, 1 + d>>1}}}
			for k := 1; k < len(names); k++ {
				x := float64(k-1) / 2
				v.Job.Cuts = append(v.Job.Cuts, []solid{boxSolid(x+0.25, -1, x/4+0.25, x+0.5, 1.5+x/4, 9)})
			}
			if names[len(names)-1] == "./a.stl" {
				v.Job.Cuts[0] = v.Job.Base
			}
			if !yield(v.unified()) {
				return
			}
		}
	}
	// large jobs, many slices, many files
	for j, b := range []struct {
		n V3
		d []K
	}{{V3{70, 20, 130}, []K{{1, 1, 1}, {7, 4, 13}, {3, 3, 4}}}, {V3{3, 2, 300}, []K{{1, 1, 1}, {1, 2, 300}, {3, 1, 7}}}, {V3{300, 3, 2}, []K{{1, 1, 1}, {300, 1, 1}, {11, 2, 2}}}, {V3{2, 260, 5}, []K{{2, 130, 5}}}, {V3{64, 64, 64}, []K{{2, 2, 2}, {64, 1, 1}}}} {
		for i, d := range b.d {
			v := clientJob{Job: jobCase{VPMM: 1, Base: []solid{boxSolid(0, 0, 0, b.n[0], b.n[1], b.n[2])}, Div: d}, Text: i}
			if i > 0 {
				v.Job.VPMM, v.Job.T = 4, V3{-8, 3.25, -0.5}
			}
			for k := 0; k < []int{3, 40, 1}[(i+j)%3]; k++ {
				x := float64(k%20) / 3 // on no voxel's border
				v.Job.Cuts = append(v.Job.Cuts, []solid{boxSolid(float64(k)+0.25, -1, x*x+0.25, float64(k)+1.5, 1.5+float64(k), x*x+9.75)})
			}
			if !yield(v) {
				return
			}
		}
	}
	// files and messages of more than 4 MB
	far := simpleJob // without zeros, which a message leaves out, so that the job has more than 4 MB
	far.T = V3{3.25, -80, 7.5}
	if !yield(clientJob{Job: far, Big: 60000}) || !yield(clientJob{Job: far, Big: 60000, Text: 1}) {
		return
	}
	if !yield(clientJob{Job: simpleJob, Prefix: largePrefix}) {
		return
	}
	if c.Thorough() {
		yield(clientJob{Job: jobCase{VPMM: 1, Base: []solid{boxSolid(0, 0, 0, 0.001, 0.001, 1), boxSolid(49.999, 49.999, 0, 50, 50, 1)}, Div: K{1, 1, 1}}, Dim: 6000})
	}
}

func genBadRuns(c *hx.Ctx, yield func(badRun) bool) {
	for f := 0; f < 3; f++ {
		for _, text := range []bool{false, true} {
			v := badRun{File: f, Text: text, Old: f == 1}
			for _, v.What = range []string{"missing", "directory"} {
				if !yield(v) {
					return
				}
			}
			v.What = "cut"
			size, step := 84+12*50, hx.Pick(c, 1, 1)
			if text {
				// An ASCII file that is cut between two triangles cannot be told from a complete one.
				size, step = 300, 1
			}
			for v.Cut = 0; v.Cut < size; v.Cut += step {
				if text && !brokenText(v.Cut, f) {
					continue
				}
				if !yield(v) {
					return
				}
			}
		}
		v := badRun{File: f, What: "longer"}
		for _, v.Cut = range []int{1, 2, 49, 50, 51, 100} {
			if !yield(v) {
				return
			}
		}
		v.What = "count"
		for v.Cut = 0; v.Cut < 32; v.Cut++ {
			if !yield(v) {
				return
			}
		}
	}
	for _, old := range []bool{false, true} {
		for _, w := range []string{"empty name", "no files", "no triangles", "master", "no directory"} {
			if !yield(badRun{What: w, Old: old}) {
				return
			}
		}
		for _, w := range []string{"dim", "nx", "ny", "nz"} {
			ns := []int{0, -1, -9}
			if w == "dim" { // more pixels than any image can have
				ns = append(ns, 1<<22, 1<<40, 1<<62, math.MaxInt64)
			}
			for _, n := range ns {
				if !yield(badRun{What: w, Cut: n, Old: old}) {
					return
				}
			}
		}
		for i, w := range []string{"nx", "ny", "nz"} {
			for _, n := range []int{K{3, 2, 2}[i] + 1, 1 << 20, 1 << 40, math.MaxInt64} {
				if !yield(badRun{What: w, Cut: n, Old: old}) {
					return
				}
			}
		}
	}
}

// brokenText reports whether the ASCII file f has lost a part of a triangle when it is cut at n.
func brokenText(n, f int) bool {
	j := simpleJob
	j.Cuts = append(j.Cuts, []solid{boxSolid(0.5, 1, 0, 1, 2, 1)})
	s := append([][]solid{j.Base}, j.Cuts...)[f]
	sz, _ := j.size()
	b := asciiSTL(j.vox(s, sz).world())[:n]
	full := 0
	for _, l := range strings.Split(string(b), "\n") {
		if fs := strings.Fields(l); len(fs) == 4 && fs[0] == "vertex" {
			full++
		}
	}
	return n < 84 || full%3 != 0
}

func init() {
	hx.Register(&hx.Check{
		ID:    "C23",
		Level: "model_checking",
		Rule: "The real client, master and agents run as processes that talk over the loopback network. kind \"jobs\": four bases with zero to two cuts in binary and ASCII files, all combinations, on two lattices with eight divisions each, file lists with similar and repeated names, files of 60000 triangles, slices of 5 MB, large jobs, 300 slices, 40 cuts; the SVX file is read back and compared with the reference. " +
			"kind \"refuse\": every input missing, a directory, cut at every byte (ASCII: inside of a triangle), longer, with every bit of its count flipped, invalid dimensions and divisions, unreachable master. " +
			"kind \"history\": all sequences of up to three (thorough: four) events out of ten at a cluster: jobs, concurrent jobs, bad jobs, an agent comes, is killed while idle, or before, during or after a slice, and the master is killed while idle or during a job and started again. " +
			"In each, a client either writes the exact SVX file or fails and leaves what there was before; it fails only if an agent or the master has died, every dead agent fails at most one job, and no process ends by itself.",
		Assumptions: []string{"The agents are reached through a relay that hands requests and answers on unchanged.", "An ASCII file that is cut between two triangles is not told from a complete one."},
		Setup: func(c *hx.Ctx) func() {
			jobs := hx.Kind(c, "jobs", func(v clientJob) (string, error) { return v.run(c) })
			bad := hx.Kind(c, "refuse", func(v badRun) (string, error) { return v.run(c) })
			hist := hx.Kind(c, "history", func(v history) (string, error) { return v.run(c) })
			return func() {
				c.Cmd("stl2svx/stl2svx-client")
				hx.Each(c, jobs, func(yield func(clientJob) bool) { genClientJobs(c, yield) })
				hx.Each(c, bad, func(yield func(badRun) bool) { genBadRuns(c, yield) })
				hx.Each(c, hist, func(yield func(history) bool) {
					const events = "JCBAKXZWYM"
					for n := 1; n <= hx.Pick(c, 3, 4); n++ {
						for k := 0; k < pow(len(events), n); k++ {
							s := ""
							for i, r := 0, k; i < n; i, r = i+1, r/len(events) {
								s += events[r%len(events) : r%len(events)+1]
							}
							if s[n-1] == 'A' || s[n-1] == 'K' || s[n-1] == 'M' {
								continue // a job has to show what has happened
							}
							if !yield(history{s}) {
								return
							}
						}
					}
				})
			}
		},
	})
}
