package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// BoxSpec is one region of a bounds file.
type BoxSpec struct {
	Name string     `json:"name"`
	Ball bool       `json:"ball,omitempty"`
	Mult float64    `json:"mult,omitempty"`
	O    [3]float64 `json:"o"`
	W    [3]float64 `json:"w"`
	Axis string     `json:"axis,omitempty"`
}

// Scen is one generated scenario: together with the code under test it
// determines a run completely.
type Scen struct {
	Prop    string             `json:"prop"`
	Idx     int                `json:"idx"`
	Seed    uint64             `json:"seed"`
	Variant string             `json:"variant,omitempty"`
	I       map[string]int     `json:"i,omitempty"`
	F       map[string]float64 `json:"f,omitempty"`
	S       map[string]string  `json:"s,omitempty"`
	Boxes   []BoxSpec          `json:"boxes,omitempty"`
	Ops     []int              `json:"ops,omitempty"`
	Procs   []*Proc            `json:"procs"`
	// Turns is the interleaving of commands which run at the same time, if
	// it is explicit: whose turn it is, and for how many file operations.
	Turns [][2]int `json:"turns,omitempty"`
}

func (s *Scen) clone() *Scen {
	b, err := json.Marshal(s)
	check(err)
	c := &Scen{}
	check(json.Unmarshal(b, c))
	if c.I == nil {
		c.I = map[string]int{}
	}
	if c.F == nil {
		c.F = map[string]float64{}
	}
	if c.S == nil {
		c.S = map[string]string{}
	}
	return c
}

// rng returns the private stream of the scenario for one purpose.
func (s *Scen) rng(purpose string) *PRNG { return newPRNG(mixSeed(s.Seed, strSeed(purpose))) }

// Violation is a broken property, with a class that shrinking preserves.
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

func viol(class, format string, a ...interface{}) *Violation {
	return &Violation{class, fmt.Sprintf(format, a...)}
}

// Prop decides one property.
type Prop struct {
	ID       string
	Quick    int // simulated runs in the quick tier
	Thorough int
	Rule     string
	Assume   []string
	Gen      func(r *PRNG, s *Scen)
	Run      func(x *Ctx, s *Scen) *Violation
	Min      map[string]int // lower limits of shrinkable integers
	// APIs names the simnode workload files this property needs.
	APIs []string
	Real string // components which ran real code
	Stub string // components which ran a stub
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func (p *Prop) scenario(seed uint64, idx int) *Scen {
	s := &Scen{Prop: p.ID, Idx: idx, I: map[string]int{}, F: map[string]float64{}, S: map[string]string{}}
	s.Seed = mixSeed(seed, strSeed(p.ID), uint64(idx))
	r := newPRNG(mixSeed(s.Seed, strSeed("gen")))
	p.Gen(r, s)
	return s
}

// ---------------------------------------------------------------- coverage

type Coverage struct {
	mu         sync.Mutex
	runs       int
	nontrivial int
	steps      int
	yields     int64
	switches   int64
	preempts   int64
	simNanos   int64
	sleeps     int64
	maxGor     int
	nops       int64
	fired      map[string]int
	outcomes   map[string]int
	probes     map[string]int
	variants   map[string]int
	policies   map[string]int
	hashes     map[uint64]bool
	shapes     map[string]bool
	samples    []interface{}
}

func newCoverage() *Coverage {
	return &Coverage{fired: map[string]int{}, outcomes: map[string]int{}, probes: map[string]int{},
		variants: map[string]int{}, policies: map[string]int{}, hashes: map[uint64]bool{}, shapes: map[string]bool{}}
}

// runHash identifies the execution: schedules, file operations, faults and
// outcomes of all its processes.
func runHash(steps []*StepResult) uint64 {
	h := uint64(1)
	for _, r := range steps {
		h = mixSeed(h, r.Sched.Hash, uint64(r.Sched.Yields), strSeed(r.Outcome), uint64(r.Code), uint64(r.IO.NOps))
		for _, f := range r.Faults {
			h = mixSeed(h, strSeed(f))
		}
		h = mixSeed(h, strSeed(string(r.Data)))
	}
	return h
}

func (c *Coverage) add(s *Scen, x *Ctx) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.runs++
	interesting := false
	for _, r := range x.steps {
		c.steps++
		c.yields += r.Sched.Yields
		c.switches += r.Sched.Switches
		c.preempts += r.Sched.Preempts
		c.simNanos += r.Sched.SimNanos
		c.sleeps += r.Sched.Sleeps
		if r.Sched.Goroutines > c.maxGor {
			c.maxGor = r.Sched.Goroutines
		}
		c.nops += int64(r.IO.NOps)
		for k, v := range r.IO.Fired {
			c.fired[k] += v
			interesting = true
		}
		if r.Sched.MaxRunnable > 1 {
			interesting = true
		}
		c.outcomes[r.Outcome+map[bool]string{true: "-ok", false: ""}[r.OK()]]++
	}
	for k, v := range x.probe {
		c.probes[k] += v
		interesting = true
	}
	c.variants[s.Variant]++
	for _, p := range s.Procs {
		c.policies[p.Sched.Policy]++
	}
	if x.shape != "" {
		c.shapes[x.shape] = true
	}
	h := runHash(x.steps)
	if interesting && !c.hashes[h] {
		c.nontrivial++
	}
	c.hashes[h] = true
	if len(c.samples) < 4 && (interesting || s.Idx > 20) {
		var outs []string
		for _, r := range x.steps {
			o := r.String()
			if len(r.Faults) > 0 {
				o += " faults=" + strings.Join(r.Faults, ";")
			}
			if len(o) > 300 {
				o = o[:300]
			}
			outs = append(outs, o)
		}
		c.samples = append(c.samples, map[string]interface{}{"scenario": s.clone(), "processes": outs,
			"hash": fmt.Sprintf("%016x", h)})
	}
}

// ---------------------------------------------------------------- runner

type Engine struct {
	prop    *Prop
	bin     string
	scratch string
	cov     *Coverage
	mu      sync.Mutex
	n       int
}

// exec runs one scenario in a fresh directory.
func (e *Engine) exec(s *Scen, trace bool, cov *Coverage) (v *Violation, steps []*StepResult) {
	e.mu.Lock()
	e.n++
	dir := filepath.Join(e.scratch, fmt.Sprintf("run%06d", e.n))
	e.mu.Unlock()
	check(os.MkdirAll(dir, 0777))
	defer os.RemoveAll(dir)
	x := &Ctx{bin: e.bin, dir: dir, trace: trace}
	v = e.prop.Run(x, s.clone())
	if cov != nil {
		cov.add(s, x)
	}
	return v, x.steps
}

type found struct {
	s *Scen
	v *Violation
}

// explore runs scenarios 0..n-1 and returns the violations found, lowest
// index first.
func (e *Engine) explore(seed uint64, n, workers int, limit time.Duration, known func(*Scen, *Violation) bool) (out []found, done int, err error) {
	start := time.Now()
	var mu sync.Mutex
	next := 0
	stop := n
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					defer mu.Unlock()
					if ie, ok := r.(*InfraError); ok {
						if err == nil {
							err = ie
						}
						stop = 0
						return
					}
					panic(r)
				}
			}()
			for {
				mu.Lock()
				i := next
				if i >= stop || time.Since(start) > limit {
					mu.Unlock()
					return
				}
				next++
				mu.Unlock()
				s := e.prop.scenario(seed, i)
				v, _ := e.exec(s, false, e.cov)
				mu.Lock()
				done++
				if v != nil && !known(s, v) {
					out = append(out, found{s, v})
					// A little more exploration, for other classes.
					if stop > next+2*workers {
						stop = next + 2*workers
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	sort.Slice(out, func(i, j int) bool { return out[i].s.Idx < out[j].s.Idx })
	return out, done, err
}

// ---------------------------------------------------------------- shrinking

func (e *Engine) shrink(s *Scen, v *Violation, limit time.Duration) (*Scen, *Violation, int) {
	start := time.Now()
	tries := 0
	attempt := func(c *Scen) bool {
		if time.Since(start) > limit || tries > 400 {
			return false
		}
		tries++
		ok := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, isInfra := r.(*InfraError); !isInfra {
						panic(r)
					}
				}
			}()
			nv, _ := e.exec(c, false, nil)
			if nv != nil && nv.Class == v.Class {
				s, v = c, nv
				ok = true
			}
		}()
		return ok
	}
	for pass := 0; pass < 3; pass++ {
		changed := false
		// Faults.
		for pi := 0; pi < len(s.Procs); pi++ {
			for fi := 0; fi < len(s.Procs[pi].IO.Faults); {
				c := s.clone()
				f := c.Procs[pi].IO.Faults
				c.Procs[pi].IO.Faults = append(f[:fi:fi], f[fi+1:]...)
				if attempt(c) {
					changed = true
				} else {
					fi++
				}
			}
			for _, edit := range []func(p *Proc) bool{
				func(p *Proc) bool { ok := p.IO.Capacity != 0; p.IO.Capacity = 0; return ok },
				func(p *Proc) bool { ok := p.IO.MaxFDs != 0; p.IO.MaxFDs = 0; return ok },
				func(p *Proc) bool { ok := p.Sched.SleepProb != 0; p.Sched.SleepProb = 0; return ok },
				func(p *Proc) bool { ok := p.Sched.StartSleep != 0; p.Sched.StartSleep = 0; return ok },
				func(p *Proc) bool { ok := p.Sched.Policy != "run"; p.Sched.Policy = "run"; return ok },
				func(p *Proc) bool { ok := p.Threads > 1; p.Threads = 1; return ok },
				func(p *Proc) bool { ok := p.Threads > 2; p.Threads = 2; return ok },
			} {
				c := s.clone()
				if edit(c.Procs[pi]) && attempt(c) {
					changed = true
				}
			}
		}
		// Regions and operations.
		for i := 0; i < len(s.Boxes) && len(s.Boxes) > 1; {
			c := s.clone()
			c.Boxes = append(c.Boxes[:i:i], c.Boxes[i+1:]...)
			if attempt(c) {
				changed = true
			} else {
				i++
			}
		}
		for i := 0; i < len(s.Ops) && len(s.Ops) > 1; {
			c := s.clone()
			c.Ops = append(c.Ops[:i:i], c.Ops[i+1:]...)
			if attempt(c) {
				changed = true
			} else {
				i++
			}
		}
		// Sizes.
		for _, k := range keys(e.prop.Min) {
			lo := e.prop.Min[k]
			if _, ok := s.I[k]; !ok {
				continue
			}
			for s.I[k] > lo {
				c := s.clone()
				c.I[k] = lo
				if attempt(c) {
					changed = true
					break
				}
				c = s.clone()
				c.I[k] = (lo + s.I[k]) / 2
				if c.I[k] != lo && attempt(c) {
					changed = true
					continue
				}
				c = s.clone()
				c.I[k] = s.I[k] - 1
				if c.I[k] != lo && attempt(c) {
					changed = true
					continue
				}
				break
			}
		}
		if !changed || time.Since(start) > limit {
			break
		}
	}
	// Make the schedule explicit and minimise it, if it matters.
	traced := s.clone()
	needs := false
	for _, p := range traced.Procs {
		if p.Sched.Policy != "run" || p.Sched.SleepProb > 0 {
			needs = true
		}
	}
	if needs && time.Since(start) < limit {
		_, steps := e.exec(traced, true, nil)
		if len(steps) <= len(traced.Procs) {
			ok := true
			for i, r := range steps {
				if r.Outcome == "fatal" {
					ok = false // the trace is lost with the process
					break
				}
				p := traced.Procs[i]
				p.Sched.Explicit, p.Sched.Trace = true, r.Sched.Trace
				p.Sched.Policy, p.Sched.SleepProb = "run", 0
				if len(r.Sched.Trace) > 20000 {
					ok = false
				}
			}
			if ok && attempt(traced) {
				for pi := range s.Procs {
					e.shrinkTrace(&s, pi, attempt)
				}
			}
		}
	}
	if time.Since(start) < limit {
		e.shrinkTurns(&s, attempt)
	}
	return s, v, tries
}

// shrinkTrace is delta debugging over the scheduling decisions of a process.
func (e *Engine) shrinkTrace(s **Scen, pi int, attempt func(*Scen) bool) {
	for n := 2; ; {
		tr := (*s).Procs[pi].Sched.Trace
		if len(tr) == 0 {
			return
		}
		if n > len(tr) {
			return
		}
		chunk := (len(tr) + n - 1) / n
		reduced := false
		for lo := 0; lo < len(tr); lo += chunk {
			hi := lo + chunk
			if hi > len(tr) {
				hi = len(tr)
			}
			c := (*s).clone()
			c.Procs[pi].Sched.Trace = append(append([]Decision{}, tr[:lo]...), tr[hi:]...)
			if attempt(c) {
				reduced = true
				break
			}
		}
		if reduced {
			if n > 2 {
				n--
			}
		} else {
			n *= 2
			if n > 64 {
				return
			}
		}
	}
}
