package main

import (
	"fmt"
	"strings"
)

// command is one of several which run at the same time.
type command struct {
	p    *Proc
	args []string
}

// Together runs commands at the same time, in one directory. Exactly one of
// them runs at any moment; whose turn it is, and for how many file operations,
// is drawn from the scenario. The results are in the order of the commands.
func (x *Ctx) Together(s *Scen, cs []*command) []*StepResult {
	nodes := make([]*node, len(cs))
	var live []int
	for i, c := range cs {
		p := *c.p
		p.IO.Gate = true
		sf := stepFile{Kind: "main", Args: c.args}
		if p.Threads > 0 {
			sf.Args = append([]string{"-Threads", fmt.Sprint(p.Threads)}, c.args...)
		}
		nodes[i] = x.begin(&p, sf)
		if nodes[i].next() {
			live = append(live, i)
		}
	}
	r := s.rng("turns")
	mean := s.I["turn"]
	if mean < 1 {
		mean = 1
	}
	// Some start later than others, and some are slower.
	hold, weight := make([]int, len(cs)), make([]int, len(cs))
	for i := range cs {
		hold[i], weight[i] = r.Pick(0, 0, 0, r.Intn(30), r.Intn(100), r.Intn(400)), r.Pick(1, 1, 1, 4, 20)
	}
	var log [][2]int
	total := 0
	switches, last := 0, -1
	for len(live) > 0 {
		k, n := live[0], 1<<30
		if s.I["explicit"] == 1 {
			// A turn of a command which has ended is void.
			for t := len(log); t < len(s.Turns); t++ {
				log = append(log, s.Turns[t])
				if indexInt(live, s.Turns[t][0]) >= 0 {
					k, n = s.Turns[t][0], s.Turns[t][1]
					break
				}
			}
		} else {
			var ready []int
			for _, i := range live {
				if hold[i] <= total {
					for w := 0; w < weight[i]; w++ {
						ready = append(ready, i)
					}
				}
			}
			if len(ready) > 0 {
				k = ready[r.Intn(len(ready))]
			}
			n = 1
			for n < 100*mean && !r.Chance(1/float64(mean)) {
				n++
			}
			total += n
			log = append(log, [2]int{k, n})
		}
		if last >= 0 && last != k {
			switches++
		}
		last = k
		nodes[k].grant(n)
		if !nodes[k].next() {
			live = append(live[:indexInt(live, k)], live[indexInt(live, k)+1:]...)
		}
	}
	var rs []*StepResult
	for _, n := range nodes {
		rs = append(rs, x.finish(n))
	}
	rs[0].Turns = log
	for d := 1; d <= switches; d *= 4 {
		x.Probe(fmt.Sprintf("commands-alternate-%d-times", d))
	}
	return rs
}

func indexInt(xs []int, v int) int {
	for i, x := range xs {
		if x == v {
			return i
		}
	}
	return -1
}

// shrinkTurns makes the interleaving of the commands explicit, and minimises
// it.
func (e *Engine) shrinkTurns(s **Scen, attempt func(*Scen) bool) {
	_, steps := e.exec(*s, false, nil)
	for _, r := range steps {
		if r.Turns != nil {
			c := (*s).clone()
			c.I["explicit"], c.Turns = 1, r.Turns
			if !attempt(c) {
				return
			}
			break
		}
	}
	if (*s).I["explicit"] != 1 {
		return
	}
	for n := 1; n <= 64; {
		tr := (*s).Turns
		if len(tr) == 0 {
			return
		}
		if n > len(tr) {
			n = len(tr)
		}
		chunk := (len(tr) + n - 1) / n
		reduced := false
		for lo := 0; lo < len(tr); lo += chunk {
			hi := mini(lo+chunk, len(tr))
			c := (*s).clone()
			c.Turns = append(append([][2]int{}, tr[:lo]...), tr[hi:]...)
			if attempt(c) {
				reduced = true
				break
			}
		}
		if !reduced {
			if n == len(tr) {
				return
			}
			n *= 2
		} else if n > 2 {
			n--
		}
	}
}

// job is one command of a scenario with several, and what it calls for.
type job struct {
	kind  string
	sub   *Scen
	d     *dset
	rs    []region
	grid  *gtet
	sns   []*snap
	dirs  []string        // where the snapshots go
	files map[string]bool // what it may write
	command
}

// name gives the regions of a job names of its own.
func (j *job) name(n int) {
	for i := range j.sub.Boxes {
		j.sub.Boxes[i].Name = fmt.Sprintf("%c%d", "rxq"[i%3], 10*n+i)
	}
}

// install writes the configuration of a render or histogram over the
// segments in the directory in.
func (j *job) install(x *Ctx, n int, in string) {
	sub := j.sub
	x.mkdir("out")
	var cfg []byte
	ext := ".gtet"
	if j.kind == "hist" {
		ext = ".txt"
		writeOld(x, sub, ext, 60*(sub.I["bins"]+10))
		grid := fmt.Sprintf("grid%d.gtet", n)
		x.write(grid, gtetBytes(j.grid))
		cfg = histConfig(sub, "out")
		cfg = []byte(strings.Replace(string(cfg), "GridFile = grid.gtet\n", "GridFile = "+grid+"\n", 1))
	} else {
		writeOld(x, sub, ext, gtetHeaderSize+12*sub.I["px"]*sub.I["px"]*sub.I["px"])
		cfg = renderConfig(sub, "in", "out")
	}
	cfg = []byte(strings.Replace(string(cfg), "Input = in\n", "Input = "+in+"\n", 1))
	for _, f := range []string{"log", "prof"} {
		to := fmt.Sprintf("%s%d.out", f, n)
		if strings.Contains(string(cfg), f+".out") {
			j.files[to] = true
		}
		cfg = []byte(strings.Replace(string(cfg), f+".out", to, 1))
	}
	c := fmt.Sprintf("job%d.cfg", n)
	x.write(c, cfg)
	j.args = []string{map[string]string{"hist": "-TetraHist", "render": "-Render"}[j.kind], c}
	for i, b := range writeBounds(x, sub) {
		to := fmt.Sprintf("job%db%d.cfg", n, i)
		x.rename(b, to)
		j.args = append(j.args, to)
	}
	for _, b := range sub.Boxes {
		j.files["out/"+sub.outName(b.Name)+ext] = true
	}
}

// judge compares the output of a job with what it calls for.
func (j *job) judge(x *Ctx) *Violation {
	switch j.kind {
	case "hist":
		return judgeHist(x, j.sub, j.d, j.grid, "out")
	case "render":
		return judgeRender(x, j.sub, j.d, j.rs, "out")
	}
	for i, sn := range j.sns {
		if v := sn.verify(x, j.dirs[i]); v != nil {
			return v
		}
	}
	return nil
}

// convJob draws a conversion of one snapshot, or of a part of a series.
func convJob(s *Scen, op, n int) *job {
	r := newPRNG(uint64(op))
	j := &job{kind: "convert", files: map[string]bool{}}
	sub := &Scen{Prop: s.Prop, Seed: mixSeed(s.Seed, uint64(op)), I: map[string]int{}, F: map[string]float64{}, S: map[string]string{}}
	genSnap(r, sub, false)
	sub.I["cells"] = mini(sub.I["cells"], 3)
	sub.I["files"] = r.Range(1, 3)
	fixSnap(sub)
	j.sub = sub
	snaps := 1
	if r.Chance(0.4) {
		j.kind = "series"
		snaps = r.Range(1, 3)
	}
	for k := 0; k < snaps; k++ {
		sn := makeSnapN(sub, k)
		j.sns = append(j.sns, sn)
		// Neighbours in the numbering, and directories nobody made yet.
		if j.kind == "series" {
			j.dirs = append(j.dirs, fmt.Sprintf("segs/all/dir%03d", 3*n+k))
		} else {
			j.dirs = append(j.dirs, fmt.Sprintf("segs/%s%d", []string{"", "all/", "new/dir"}[op%3], n))
		}
		for f := 0; f < sn.cells*sn.cells*sn.cells; f++ {
			c := sn.cells
			j.files[fmt.Sprintf("%s/sheet%d%d%d.dat", j.dirs[k], f%c, f/c%c, f/c/c)] = true
		}
	}
	return j
}

func (j *job) installConv(x *Ctx, n int) {
	c := fmt.Sprintf("job%d.cfg", n)
	var cfg string
	if j.kind == "series" {
		for k, sn := range j.sns {
			sn.write(x, fmt.Sprintf("snaps/%03d", 3*n+k))
		}
		cfg = string(j.sns[0].config(j.sub, "in", "out"))
		cfg = strings.Replace(cfg, "Input = in\n", "IteratedInput = snaps/%03d\n", 1)
		cfg = strings.Replace(cfg, "Output = out\n", "IteratedOutput = segs/all/dir%03d\n", 1)
		cfg += fmt.Sprintf("IterationStart = %d\nIterationEnd = %d\n", 3*n, 3*n+len(j.sns)-1)
	} else {
		in := fmt.Sprintf("snap%d", n)
		j.sns[0].write(x, in)
		cfg = string(j.sns[0].config(j.sub, in, j.dirs[0]))
	}
	x.write(c, []byte(cfg))
	j.args = []string{"-ConvertSnapshot", c}
}

// runSide runs commands with separate outputs at the same time.
func runSide(x *Ctx, s *Scen) *Violation {
	var jobs []*job
	var base *Scen
	for _, op := range s.Ops {
		n := len(jobs)
		if op&3 == 0 {
			j := convJob(s, op, n)
			j.installConv(x, n)
			jobs = append(jobs, j)
			continue
		}
		b := base
		if s.I["share"] == 0 {
			b = nil
		}
		sub := mgrScen(s, op, b)
		if sub == nil {
			continue
		}
		sub.I["affix"], sub.I["files"], sub.I["old"] = op>>3&1, 1+op>>4&1, op>>5&1
		j := &job{kind: "render", sub: sub, files: map[string]bool{}}
		j.name(n)
		var ok bool
		if sub.I["hist"] == 1 {
			j.kind = "hist"
			j.d, j.grid, ok = planHist(sub)
		} else {
			j.d, j.rs, ok = plan(sub)
		}
		if !ok {
			continue
		}
		in := "in"
		if b == nil {
			in = fmt.Sprintf("in%d", n)
			if s.I["share"] == 1 {
				in = "in"
			}
			j.d.write(x, in)
		}
		if base == nil {
			base = sub
		}
		j.install(x, n, in)
		jobs = append(jobs, j)
	}
	if len(jobs) < 2 {
		return nil
	}
	before := x.tree(".")
	unlucky := -1
	var cs []*command
	shape := ""
	for i, j := range jobs {
		j.p = s.Procs[i%len(s.Procs)]
		if i == s.I["victim"]%len(jobs) && s.Variant != "clean" {
			unlucky = i
			p := *j.p
			p.IO.Faults = append(append([]*Fault{}, p.IO.Faults...), s.misfortune())
			j.p = &p
		}
		cs = append(cs, &j.command)
		shape += j.kind + " "
	}
	x.shape = shape + fmt.Sprint(s.Variant, s.I["share"], s.I["turn"])
	res := x.Together(s, cs)
	may := map[string]bool{}
	for i, j := range jobs {
		who := fmt.Sprintf("command %d of %d (%s)", i, len(jobs), j.kind)
		for f := range j.files {
			may[f] = true
		}
		if v := stuck(res[i]); v != nil {
			return v
		}
		if !res[i].OK() {
			if i != unlucky {
				return viol("command-fails", "%s fails because of the others: %s", who, res[i])
			}
			x.Probe("victim-fails")
			continue
		}
		if v := j.judge(x); v != nil {
			v.Detail = fmt.Sprintf("%s, next to others: %s", who, v.Detail)
			return v
		}
		if i == unlucky {
			x.Probe("victim-succeeds")
		}
	}
	// Nothing else has changed.
	after := x.tree(".")
	for _, f := range keys(after) {
		if old, ok := before[f]; !may[f] && (!ok || string(old) != string(after[f])) {
			if unlucky >= 0 && !ok {
				continue // which the victim could not remove any more
			}
			return viol("foreign-file", "commands at the same time leave or change the file %s", f)
		}
	}
	for _, f := range keys(before) {
		if _, ok := after[f]; !ok {
			return viol("file-removed", "commands at the same time remove the file %s", f)
		}
	}
	if unlucky < 0 || res[unlucky].OK() {
		return nil
	}
	// The victim can be run again, and disturbs nobody then either.
	j := jobs[unlucky]
	r := x.Main(plainProc(s.rng("again"), 2), j.args...)
	if !r.OK() {
		return viol("repair-fails", "re-running the %s which failed next to others fails: %s", j.kind, r)
	}
	x.Probe("victim-repaired")
	for i, j := range jobs {
		if v := j.judge(x); v != nil {
			v.Detail = fmt.Sprintf("command %d of %d (%s), after command %d was run again: %s", i, len(jobs), j.kind, unlucky, v.Detail)
			return v
		}
	}
	return nil
}

// misfortune is the fault which hits one of the commands.
func (s *Scen) misfortune() *Fault {
	r := s.rng("misfortune")
	switch s.Variant {
	case "crash":
		op := r.PickS("write", "write", "create", "closew", "mkdir", "open", "read")
		return &Fault{Op: op, Nth: r.Range(1, map[string]int{"write": 12, "create": 5, "closew": 5, "mkdir": 2, "open": 12, "read": 40}[op]), Kind: "crash", Arg: int64(r.Intn(3000))}
	case "write":
		return &Fault{Op: r.PickS("write", "write", "create", "closew"), Nth: r.Range(1, 8), Count: r.Pick(1, -1), Kind: r.PickS("EIO", "ENOSPC")}
	}
	return &Fault{Op: r.PickS("read", "read", "open"), Nth: r.Range(1, 25), Count: r.Pick(1, -1), Kind: r.PickS("EIO", "ENOENT")}
}

// runPipe renders segments while they are being converted.
func runPipe(x *Ctx, s *Scen) *Violation {
	d, _, ok := plan(s)
	if !ok {
		return nil
	}
	sn := d.snapshot(s)
	sn.write(x, "snap")
	x.write("c.cfg", sn.config(s, "snap", "in"))
	conv := []string{"-ConvertSnapshot", "c.cfg"}
	x.write("ref.cfg", sn.config(s, "snap", "ref"))
	if r := x.Main(plainProc(s.rng("first"), 1), "-ConvertSnapshot", "ref.cfg"); !r.OK() {
		return viol("convert-fails", "the conversion fails: %s", r)
	}
	x.mkdir("in")
	if s.I["fresh"] == 0 {
		// The segments were there before; perhaps not all.
		r := s.rng("gaps")
		old := x.tree("ref")
		for _, f := range keys(old) {
			if !r.Chance(s.F["gap"]) {
				x.write("in/"+f, old[f])
			}
		}
	}
	cs := []*command{{p: s.Procs[0], args: conv}}
	var jobs []*job
	for n := 0; n < s.I["readers"]; n++ {
		j := &job{kind: "render", sub: s.clone(), files: map[string]bool{}, d: d}
		j.name(n)
		if j.rs, ok = regions(j.sub, j.sub.S["q"]); !ok {
			return nil
		}
		j.p = s.Procs[1+n%(len(s.Procs)-1)]
		j.install(x, n, "in")
		jobs = append(jobs, j)
		cs = append(cs, &j.command)
	}
	x.shape = fmt.Sprint(s.I)
	res := x.Together(s, cs)
	for i, r := range res {
		if v := stuck(r); v != nil {
			return v
		}
		if i == 0 {
			if !r.OK() {
				return viol("command-fails", "a conversion fails because its output is read: %s", r)
			}
			if v := sameTree(x, "ref", "in"); v != nil {
				v.Detail = "while its output is read: " + v.Detail
				return v
			}
			continue
		}
		j := jobs[i-1]
		if !r.OK() || s.I["fresh"] == 1 || s.F["gap"] > 0 {
			// A render takes the segments which are there for all of
			// the sheet, so if there were fewer, only the next one counts.
			x.Probe(map[bool]string{true: "render-of-some-segments", false: "render-refuses-unfinished-segments"}[r.OK()])
			r = x.Main(plainProc(s.rng("again"), 2), j.args...)
			if !r.OK() {
				return viol("render-fails", "a render without real faults fails: %s", r)
			}
		} else {
			x.Probe("render-among-conversion")
		}
		if v := j.judge(x); v != nil {
			v.Detail = fmt.Sprintf("render %d next to the conversion of its input: %s", i-1, v.Detail)
			return v
		}
	}
	return nil
}

// runTwin runs one conversion several times at once.
func runTwin(x *Ctx, s *Scen) *Violation {
	j := convJob(s, s.Ops[0], 0)
	j.installConv(x, 0)
	var cs []*command
	for i := 0; i < s.I["readers"]+1; i++ {
		cs = append(cs, &command{p: s.Procs[i%len(s.Procs)], args: j.args})
	}
	x.shape = fmt.Sprint(j.kind, j.sub.I, s.I)
	for _, r := range x.Together(s, cs) {
		if v := stuck(r); v != nil {
			return v
		}
		if !r.OK() {
			x.Probe("twin-refused")
			return nil
		}
	}
	v := j.judge(x)
	if v != nil {
		v.Detail = fmt.Sprintf("after the same %s ran %d times at once: %s", j.kind, len(cs), v.Detail)
	}
	return v
}

func init() {
	register(&Prop{
		ID: "C35", Quick: 1000, Thorough: 16000,
		Rule:   "a run is two to five gotetra commands which run at the same time in one directory, exactly one of them at any moment, handed over at random file operations: conversions (of one snapshot or of parts of a series), renders and histograms with outputs of their own over separate or shared segments, one of them possibly hit by a crash, write or read fault and then run again; renders of segments which are being converted; or the same conversion several times; non-trivial if the commands alternate or a fault was hit, distinct by execution hash",
		Assume: []string{"commands interleave at file operations, where alone they can meet", "renders and histograms which run at the same time write different files", "as C01, C07 and C17 for the contents of the outputs"},
		Real:   "the complete gotetra ConvertSnapshot, Render and TetraHist commands, several of them at once, Go's os and log packages", Stub: renderStub + ", interleaving of the processes",
		Min: map[string]int{"share": 0, "turn": 1, "readers": 1, "fresh": 0, "old": 0, "files": 1, "seg": 1, "cells": 1, "px": 1, "pts": 1},
		Gen: func(r *PRNG, s *Scen) {
			s.Variant = r.PickS("clean", "clean", "clean", "crash", "crash", "write", "read", "pipe", "pipe", "twin")
			np := r.Range(2, 4)
			if s.Variant == "pipe" {
				genUntilOK(r, s, func() {
					genRender(r, s, "Density", "wave", "stair", "uniform")
					s.F["maxext"] = 0.45
					genBoxes(r, s, 1, 1, true)
				})
				s.I["px"] = mini(s.I["px"], 16)
				s.I["auto"], s.I["log"] = 0, 0
				s.I["fresh"] = r.Pick(0, 0, 0, 1)
				s.F["gap"] = []float64{0, 0, 0.1, 0.5}[r.Intn(4)]
			} else {
				s.I["share"], s.I["victim"] = r.Intn(2), r.Intn(100)
				for i, n := 0, r.Range(2, 5); i < n; i++ {
					s.Ops = append(s.Ops, r.Intn(1<<30))
				}
			}
			s.I["readers"] = r.Pick(1, 1, 2, 3)
			s.I["turn"] = r.Pick(1, 1, 2, 5, 20, 100)
			for i := 0; i < np; i++ {
				p := genProc(r, r.Range(1, 4))
				if r.Chance(0.3) {
					benign(r, p)
				}
				s.Procs = append(s.Procs, p)
			}
		},
		Run: func(x *Ctx, s *Scen) *Violation {
			switch s.Variant {
			case "pipe":
				return runPipe(x, s)
			case "twin":
				return runTwin(x, s)
			}
			return runSide(x, s)
		},
	})
}
