package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// PRNG is splitmix64, the only source of choices in the orchestrator.
type PRNG struct{ s uint64 }

func newPRNG(seed uint64) *PRNG { return &PRNG{seed*0x9E3779B97F4A7C15 + 0xABCDEF} }

func (p *PRNG) Next() uint64 {
	p.s += 0x9E3779B97F4A7C15
	z := p.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (p *PRNG) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(p.Next() % uint64(n))
}
func (p *PRNG) Range(lo, hi int) int         { return lo + p.Intn(hi-lo+1) }
func (p *PRNG) Float() float64               { return float64(p.Next()>>11) / (1 << 53) }
func (p *PRNG) Uniform(a, b float64) float64 { return a + (b-a)*p.Float() }
func (p *PRNG) Chance(x float64) bool        { return p.Float() < x }
func (p *PRNG) Pick(xs ...int) int           { return xs[p.Intn(len(xs))] }
func (p *PRNG) PickS(xs ...string) string    { return xs[p.Intn(len(xs))] }
func (p *PRNG) Perm(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := p.Intn(i + 1)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func mixSeed(vs ...uint64) uint64 {
	h := uint64(0x51_7C_C1_B7_27_22_0A_95)
	for _, v := range vs {
		p := PRNG{h ^ v}
		h = p.Next()
	}
	return h
}

func strSeed(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// ------------------------------------------------------------ step records

type Fault struct {
	Op    string  `json:"op"`
	Path  string  `json:"path,omitempty"`
	Nth   int     `json:"nth,omitempty"`
	Count int     `json:"count,omitempty"`
	Prob  float64 `json:"prob,omitempty"`
	Kind  string  `json:"kind"`
	Arg   int64   `json:"arg,omitempty"`
}

type IOConfig struct {
	Seed     uint64      `json:"seed,omitempty"`
	Faults   []*Fault    `json:"faults,omitempty"`
	Capacity int64       `json:"capacity,omitempty"`
	MaxFDs   int         `json:"max_fds,omitempty"`
	Stdout   bool        `json:"stdout,omitempty"`
	Stderr   bool        `json:"stderr,omitempty"`
	Gate     bool        `json:"gate,omitempty"`
	Alias    [][2]string `json:"alias,omitempty"`
}

type Decision struct {
	Pick   int   `json:"p"`
	Budget int64 `json:"b"`
	Sleep  int64 `json:"s,omitempty"`
}

type SchedConfig struct {
	Seed        uint64     `json:"seed"`
	Policy      string     `json:"policy"`
	Mean        int64      `json:"mean"`
	SleepProb   float64    `json:"sleep_prob,omitempty"`
	StartSleep  int64      `json:"start_sleep,omitempty"`
	MaxYields   int64      `json:"max_yields"`
	MaxSwitches int64      `json:"max_switches,omitempty"`
	Explicit    bool       `json:"explicit,omitempty"`
	Trace       []Decision `json:"trace,omitempty"`
}

// Proc is everything the simulator decides about one simulated process.
type Proc struct {
	Sched   SchedConfig `json:"sched"`
	IO      IOConfig    `json:"io"`
	Rand    uint64      `json:"rand"`
	NCPU    int         `json:"ncpu,omitempty"`
	Threads int         `json:"threads,omitempty"`
}

type stepFile struct {
	Kind  string          `json:"kind"`
	Args  []string        `json:"args,omitempty"`
	API   string          `json:"api,omitempty"`
	Par   json.RawMessage `json:"par,omitempty"`
	Sched SchedConfig     `json:"sched"`
	IO    IOConfig        `json:"io"`
	Rand  uint64          `json:"rand"`
	NCPU  int             `json:"ncpu,omitempty"`
	Trace bool            `json:"trace,omitempty"`
	Ops   bool            `json:"ops,omitempty"`
}

type OpRec struct {
	Op   string `json:"o"`
	Path string `json:"p"`
	N    int    `json:"n"`
	Err  string `json:"e,omitempty"`
}

type SchedStats struct {
	Yields      int64      `json:"yields"`
	Switches    int64      `json:"switches"`
	Preempts    int64      `json:"preempts"`
	Goroutines  int        `json:"goroutines"`
	MaxRunnable int        `json:"max_runnable"`
	Sleeps      int64      `json:"sleeps"`
	SimNanos    int64      `json:"sim_nanos"`
	Hash        uint64     `json:"hash"`
	Trace       []Decision `json:"trace,omitempty"`
}

type IOStats struct {
	Ops      []OpRec             `json:"ops,omitempty"`
	NOps     int                 `json:"nops"`
	Fired    map[string]int      `json:"fired"`
	MaxOpen  int                 `json:"max_open"`
	Unsynced map[string][2]int64 `json:"unsynced,omitempty"`
}

// StepResult is the observable result of one simulated process.
type StepResult struct {
	// Outcome: exit, panic, deadlock, livelock, crash, or fatal (the Go
	// runtime itself aborted the process: a panic on a worker goroutine,
	// memory exhaustion, ...).
	Outcome string          `json:"outcome"`
	Code    int             `json:"code"`
	Panic   string          `json:"panic,omitempty"`
	Sched   SchedStats      `json:"sched"`
	IO      IOStats         `json:"io"`
	Data    json.RawMessage `json:"data,omitempty"`

	Faults []string `json:"-"`
	Turns  [][2]int `json:"-"`
	Stdout string   `json:"-"`
	Stderr string   `json:"-"`
}

// OK reports whether the process claimed success.
func (r *StepResult) OK() bool { return r.Outcome == "exit" && r.Code == 0 }

func (r *StepResult) String() string {
	s := fmt.Sprintf("outcome=%s code=%d", r.Outcome, r.Code)
	if r.Panic != "" {
		s += " panic=" + strings.SplitN(r.Panic, "\n", 2)[0]
	}
	if t := strings.TrimSpace(tail(r.Stderr, 300)); t != "" && !r.OK() {
		s += " stderr=" + t
	}
	return s
}

// InfraError is trouble of the machinery, never a verdict.
type InfraError struct{ msg string }

func (e *InfraError) Error() string { return e.msg }

func infra(format string, a ...interface{}) { panic(&InfraError{fmt.Sprintf(format, a...)}) }

func check(err error) {
	if err != nil {
		infra("%v", err)
	}
}

// ------------------------------------------------------------ context

// Ctx runs the simulated processes of one scenario in a private directory.
type Ctx struct {
	bin   string
	dir   string
	n     int
	trace bool // record schedules
	steps []*StepResult
	// live, when set, receives the coverage of the run.
	cov   *Coverage
	probe map[string]int
	shape string
	guard *guard // watches the files around the commands, if set
	// refuse spoils the first command, if set; limit ends the run after so
	// many processes.
	refuse *refusal
	limit  int
	// example configures the commands by the example configurations, if set.
	example *exampleRun
	// logs directs the logs of the commands, if set.
	logs *logs
	// ways gives the commands other paths to their files, if set.
	ways *ways
}

func (x *Ctx) Probe(name string) {
	if x.probe == nil {
		x.probe = map[string]int{}
	}
	x.probe[name]++
}

func (x *Ctx) path(p ...string) string {
	return filepath.Join(append([]string{x.dir}, p...)...)
}

func (x *Ctx) write(name string, b []byte) {
	p := x.path(name)
	check(os.MkdirAll(filepath.Dir(p), 0777))
	check(os.WriteFile(p, b, 0666))
}

func (x *Ctx) read(name string) ([]byte, error) { return os.ReadFile(x.path(name)) }

func (x *Ctx) mkdir(name string) { check(os.MkdirAll(x.path(name), 0777)) }

func (x *Ctx) rename(a, b string) { check(os.Rename(x.path(a), x.path(b))) }

func (x *Ctx) remove(name string) {
	p := x.path(name)
	if !strings.HasPrefix(p, x.dir+string(filepath.Separator)) {
		infra("refusing to remove %s", p)
	}
	check(os.RemoveAll(p))
}

var errEnough = errors.New("enough processes")

const stepWall = 240 * time.Second

// Main runs the gotetra command.
func (x *Ctx) Main(p *Proc, args ...string) *StepResult {
	a := args
	if p.Threads > 0 {
		a = append([]string{"-Threads", fmt.Sprint(p.Threads)}, args...)
	}
	return x.exec(p, stepFile{Kind: "main", Args: a})
}

// API runs one of the library workloads of simnode.
func (x *Ctx) API(p *Proc, name string, par interface{}) *StepResult {
	b, err := json.Marshal(par)
	check(err)
	return x.exec(p, stepFile{Kind: "api", API: name, Par: b})
}

func (x *Ctx) exec(p *Proc, sf stepFile) *StepResult {
	n := x.begin(p, sf)
	if n.next() {
		infra("an ungated process asks for its turn")
	}
	return x.finish(n)
}

func (x *Ctx) begin(p *Proc, sf stepFile) *node {
	sf.Sched, sf.IO, sf.Rand, sf.NCPU = p.Sched, p.IO, p.Rand, p.NCPU
	if sf.Sched.MaxYields == 0 {
		sf.Sched.MaxYields = 400e6
	}
	sf.Trace = x.trace
	sf.Ops = true
	x.n++
	if x.limit > 0 && len(x.steps) >= x.limit {
		panic(errEnough)
	}
	if x.refuse != nil {
		x.refuse.spoil(x, &sf)
	}
	if x.example != nil {
		x.example.before(x, &sf)
	}
	if x.logs != nil {
		x.logs.before(x, &sf)
	}
	if x.ways != nil {
		x.ways.before(x, &sf)
	}
	if x.guard != nil {
		x.guard.before(x, &sf)
	}
	n := x.start(sf)
	if x.ways != nil {
		n.back = x.ways.back
	}
	return n
}

// node is a running simnode.
type node struct {
	cmd    *exec.Cmd
	ctx    context.Context
	cancel func()
	name   string
	pr     *os.File // events
	gw     *os.File // turns
	ev     *bufio.Reader
	lines  [][]byte
	ended  bool
	out    bytes.Buffer
	errb   bytes.Buffer
	back   [][2]string // names of results, see ways
}

func (x *Ctx) start(sf stepFile) *node {
	b, err := json.Marshal(sf)
	check(err)
	n := &node{}
	// The step file lives outside the working directory, and is reached by
	// an absolute path, so that the simulated file layer never sees it.
	n.name = x.dir + fmt.Sprintf(".step%d.json", x.n)
	check(os.WriteFile(n.name, b, 0666))
	n.ctx, n.cancel = context.WithTimeout(context.Background(), stepWall)
	cmd := exec.CommandContext(n.ctx, x.bin, n.name)
	n.cmd = cmd
	cmd.Dir = x.dir
	cmd.Env = []string{"TZ=UTC", "PATH=/usr/bin:/bin", "HOME=/nonexistent", "GOTRACEBACK=single"}
	cmd.Stdout, cmd.Stderr = &limited{b: &n.out}, &limited{b: &n.errb}
	pr, pw, err := os.Pipe()
	check(err)
	n.pr = pr
	n.ev = bufio.NewReaderSize(pr, 1<<16)
	cmd.ExtraFiles = []*os.File{pw}
	if sf.IO.Gate {
		gr, gw, err := os.Pipe()
		check(err)
		n.gw = gw
		cmd.ExtraFiles = append(cmd.ExtraFiles, gr)
		defer gr.Close()
	}
	err = cmd.Start()
	pw.Close()
	if err != nil {
		infra("starting simnode: %v", err)
	}
	return n
}

// next waits until the process asks for its turn, or ends.
func (n *node) next() bool {
	for !n.ended {
		l, err := n.ev.ReadBytes('\n')
		if bytes.HasPrefix(l, []byte("gate ")) {
			return true
		}
		if len(l) > 0 {
			n.lines = append(n.lines, bytes.TrimSuffix(l, []byte("\n")))
		}
		if err != nil {
			n.ended = true
		}
	}
	return false
}

// grant lets a process which asked do some file operations.
func (n *node) grant(ops int) {
	_, err := n.gw.Write([]byte{byte(ops), byte(ops >> 8), byte(ops >> 16), byte(ops >> 24)})
	if err != nil {
		infra("granting a turn: %v", err)
	}
}

// finish collects the result of a process which has ended.
func (x *Ctx) finish(n *node) *StepResult {
	err := n.cmd.Wait()
	n.pr.Close()
	if n.gw != nil {
		n.gw.Close()
	}
	os.Remove(n.name)
	late := n.ctx.Err() != nil
	n.cancel()
	if late {
		infra("simnode exceeded its wall-clock limit")
	}
	r := &StepResult{}
	got := false
	for _, l := range n.lines {
		if bytes.HasPrefix(l, []byte("fault ")) {
			r.Faults = append(r.Faults, string(l[6:]))
		} else if bytes.HasPrefix(l, []byte("result ")) {
			if e := json.Unmarshal(l[7:], r); e != nil {
				infra("bad result: %v", e)
			}
			got = true
		}
	}
	r.Stdout, r.Stderr = n.out.String(), n.errb.String()
	if !got {
		code := -1
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			code = ee.ExitCode()
		}
		if code == 97 {
			infra("simnode: %s", r.Stderr)
		}
		r.Outcome, r.Code = "fatal", code
		if strings.Contains(r.Stderr, "simrt:") || strings.Contains(r.Stderr, "verifnode/simrt.") && !strings.Contains(r.Stderr, "gotetra/") {
			infra("simulator failure: %s", tail(r.Stderr, 3000))
		}
	}
	x.steps = append(x.steps, r)
	if x.logs != nil {
		x.logs.after(x, r)
	}
	if x.ways != nil {
		x.ways.after(x, n.back)
	}
	if x.example != nil {
		x.example.after(x, r)
	}
	if x.guard != nil {
		x.guard.after(x, r)
	}
	return r
}

type limited struct{ b *bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

// tree returns the contents of every regular file below name.
func (x *Ctx) tree(name string) map[string][]byte {
	out := map[string][]byte{}
	filepath.Walk(x.path(name), func(p string, fi os.FileInfo, err error) error {
		if p == x.path("ways") {
			return filepath.SkipDir
		}
		if err == nil && fi.Mode().IsRegular() {
			rel, _ := filepath.Rel(x.path(name), p)
			b, e := os.ReadFile(p)
			check(e)
			out[rel] = b
		}
		return nil
	})
	return out
}

func keys[T any](m map[string]T) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// powerLoss drops data which the crashed process never synced: every
// unsynced file keeps an arbitrary prefix of its unsynced tail, or keeps its
// length but loses the contents.
func (x *Ctx) powerLoss(r *StepResult, rng *PRNG) int {
	n := 0
	for _, f := range keys(r.IO.Unsynced) {
		u := r.IO.Unsynced[f]
		p := x.path(f)
		fi, err := os.Stat(p)
		if err != nil {
			continue
		}
		size := fi.Size()
		lo := u[0]
		if lo > size {
			lo = size
		}
		switch rng.Intn(4) {
		case 0: // everything made it
		case 1: // nothing of the tail made it
			check(os.Truncate(p, lo))
			n++
		case 2: // a prefix made it
			check(os.Truncate(p, lo+int64(rng.Next()%uint64(size-lo+1))))
			n++
		case 3: // the size made it, the data did not
			cut := lo + int64(rng.Next()%uint64(size-lo+1))
			check(os.Truncate(p, cut))
			check(os.Truncate(p, size))
			n++
		}
	}
	return n
}
