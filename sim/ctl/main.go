// simctl is the orchestrator of the deterministic simulation: it generates
// scenarios from one seed, runs each as one or more simulated processes,
// judges the outcome, and minimises, saves and replays what fails.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

const (
	exitOK        = 0
	exitViolation = 1
	exitTrouble   = 2
)

type knownFinding struct {
	Property string            `json:"property"`
	Class    string            `json:"class"`
	Variant  string            `json:"variant,omitempty"`
	Contains string            `json:"contains,omitempty"`
	What     string            `json:"what"`
	Where    map[string]string `json:"where,omitempty"`
}

type knownFile struct {
	Findings []knownFinding `json:"findings"`
	Fixed    []string       `json:"fixed"`
}

type replayFile struct {
	Property  string    `json:"property"`
	Violation Violation `json:"violation"`
	Seed      uint64    `json:"verif_seed"`
	Original  *Scen     `json:"original"`
	Scenario  *Scen     `json:"scenario"`
	Attempts  int       `json:"shrink_attempts"`
	Processes []string  `json:"processes"`
	Faults    []string  `json:"faults"`
	Hash      string    `json:"hash"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: simctl check|replay|build|selftest ...")
		os.Exit(exitTrouble)
	}
	code := exitTrouble
	func() {
		defer func() {
			if r := recover(); r != nil {
				if ie, ok := r.(*InfraError); ok {
					fmt.Fprintln(os.Stderr, "simctl: error:", ie.msg)
					code = exitTrouble
					return
				}
				panic(r)
			}
		}()
		switch os.Args[1] {
		case "check":
			code = cmdCheck(os.Args[2:])
		case "replay":
			code = cmdReplay(os.Args[2:])
		case "selftest":
			code = cmdSelftest(os.Args[2:])
		case "build":
			bin, err := buildNode(os.Args[2], os.Args[3], os.Args[4], nil)
			fmt.Println(bin, err)
			if err == nil {
				code = 0
			}
		}
	}()
	os.Exit(code)
}

type options struct {
	verif, repo, bin, tier string
	seed                   uint64
	workers, runs          int
	prop                   string
	scratch                string
	cleanup                func()
}

func parseOpts(name string, args []string) (*options, []string) {
	o := &options{}
	fs := flag.NewFlagSet(name, flag.ExitOnError)
	fs.StringVar(&o.verif, "verif", "/verif", "directory of the machinery")
	fs.StringVar(&o.repo, "repo", "/repo", "tree under test")
	fs.StringVar(&o.bin, "bin", "", "use this simnode instead of building one")
	fs.IntVar(&o.workers, "j", 8, "simulated executions run in parallel")
	fs.IntVar(&o.runs, "runs", 0, "number of simulated runs (default: by tier)")
	fs.StringVar(&o.prop, "prop", "", "property id")
	fs.StringVar(&o.tier, "tier", "", "quick or thorough")
	fs.Parse(args)
	if o.tier == "" {
		o.tier = os.Getenv("VERIF_TIER")
	}
	if o.tier != "thorough" {
		o.tier = "quick"
	}
	o.seed = 1
	if v := os.Getenv("VERIF_SEED"); v != "" {
		n, err := strconv.ParseUint(v, 10, 64)
		if err != nil {
			n = strSeed(v)
		}
		o.seed = n
	}
	d, err := os.MkdirTemp("", "gtsim")
	check(err)
	o.scratch = d
	o.cleanup = func() { pyStop(); os.RemoveAll(d) }
	pyInit(o.verif, o.repo)
	return o, fs.Args()
}

func (o *options) engine(p *Prop) *Engine {
	bin := o.bin
	if bin == "" {
		bd := filepath.Join(o.scratch, "build")
		check(os.MkdirAll(bd, 0777))
		var err error
		bin, err = buildNode(filepath.Join(o.verif, "sim"), o.repo, bd, func(name string) bool {
			if !strings.HasPrefix(name, "api_") {
				return true
			}
			for _, a := range p.APIs {
				if name == "api_"+a+".go" {
					return true
				}
			}
			return false
		})
		check(err)
	}
	return &Engine{prop: p, bin: bin, scratch: o.scratch, cov: newCoverage()}
}

func loadKnown(o *options, prop string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(o.verif, "known_findings.json"))
	if os.IsNotExist(err) {
		return nil
	}
	check(err)
	var k knownFile
	check(json.Unmarshal(b, &k))
	var out []knownFinding
	for _, f := range k.Findings {
		if f.Property == prop {
			out = append(out, f)
		}
	}
	return out
}

func (k *knownFinding) matches(s *Scen, v *Violation) bool {
	if k.Class != v.Class || k.Variant != "" && k.Variant != s.Variant {
		return false
	}
	return strings.Contains(v.Detail, k.Contains)
}

func cmdCheck(args []string) int {
	o, _ := parseOpts("check", args)
	defer o.cleanup()
	start := time.Now()
	p := props[o.prop]
	if p == nil {
		infra("unknown property %q", o.prop)
	}
	fmt.Printf("simctl: property=%s tier=%s seed=%d\n", p.ID, o.tier, o.seed)
	e := o.engine(p)
	buildS := time.Since(start).Seconds()
	runs, limit := p.Quick, 200*time.Second
	if o.tier == "thorough" {
		runs, limit = p.Thorough, 40*time.Minute
	}
	if o.runs > 0 {
		runs = o.runs
	}
	known := loadKnown(o, p.ID)
	knownHits := make([]int, len(known))
	isKnown := func(s *Scen, v *Violation) bool {
		for i := range known {
			if known[i].matches(s, v) {
				knownHits[i]++
				return true
			}
		}
		return false
	}
	t0 := time.Now()
	out, done, err := e.explore(o.seed, runs, o.workers, limit, isKnown)
	simS := time.Since(t0).Seconds()
	if err != nil && len(out) == 0 {
		infra("%v", err)
	}

	// Confirm and minimise, one replay per class.
	classes := map[string]bool{}
	nviol, unstable, tried := 0, "", 0
	for _, f := range out {
		if classes[f.v.Class] || nviol >= 3 || tried >= 40 {
			continue
		}
		tried++
		v1, st1 := e.exec(f.s, false, nil)
		v2, st2 := e.exec(f.s, false, nil)
		if v1 == nil || v2 == nil || v1.Class != f.v.Class || v2.Class != f.v.Class || runHash(st1) != runHash(st2) {
			// A change that smuggles in nondeterminism which the simulator
			// does not control: only an execution that repeats exactly is
			// reported.
			unstable = fmt.Sprintf("run %d does not replay: %+v, %+v, %+v", f.s.Idx, f.v, v1, v2)
			fmt.Println(unstable)
			continue
		}
		small, sv, tries := e.shrink(f.s, f.v, 45*time.Second)
		_, st := e.exec(small, false, nil)
		rf := replayFile{Property: p.ID, Violation: *sv, Seed: o.seed, Original: f.s, Scenario: small, Attempts: tries,
			Hash: fmt.Sprintf("%016x", runHash(st))}
		for _, r := range st {
			rf.Processes = append(rf.Processes, r.String())
			rf.Faults = append(rf.Faults, r.Faults...)
		}
		dir := filepath.Join(o.verif, "evidence", "replay")
		check(os.MkdirAll(dir, 0777))
		path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", p.ID, o.seed, f.s.Idx))
		b, _ := json.MarshalIndent(rf, "", " ")
		check(os.WriteFile(path, b, 0666))
		// The saved file must reproduce.
		var again replayFile
		bb, err := os.ReadFile(path)
		check(err)
		check(json.Unmarshal(bb, &again))
		av, ast := e.exec(again.Scenario, false, nil)
		if av == nil || av.Class != sv.Class || fmt.Sprintf("%016x", runHash(ast)) != rf.Hash {
			unstable = fmt.Sprintf("replay file %s does not reproduce", path)
			fmt.Println(unstable)
			continue
		}
		classes[f.v.Class] = true
		fmt.Printf("run %d (variant %q): %s: %s\n", f.s.Idx, f.s.Variant, sv.Class, sv.Detail)
		for _, fl := range rf.Faults {
			fmt.Println("  fault:", fl)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		nviol++
	}
	for i := range known {
		// Listed findings are probed directly so that the line does not
		// depend on luck.
		fmt.Printf("KNOWN-FINDING: property=%s %s (met in %d runs)\n", p.ID, known[i].What, knownHits[i])
	}

	writeEvidence(o, p, e, done, nviol, buildS, simS, time.Since(start).Seconds())
	if nviol > 0 {
		return exitViolation
	}
	if unstable != "" {
		infra("%s", unstable)
	}
	if err != nil {
		infra("%v", err)
	}
	if done < runs/20 {
		infra("only %d of %d runs finished in the time limit", done, runs)
	}
	fmt.Printf("simctl: property=%s held on %d runs (%d distinct non-trivial), %.1f s\n", p.ID, done, e.cov.nontrivial, time.Since(start).Seconds())
	return exitOK
}

func writeEvidence(o *options, p *Prop, e *Engine, done, nviol int, buildS, simS, wall float64) {
	c := e.cov
	level := "exploration"
	hourly := func(n float64) int64 { return int64(n / simS * 3600) }
	zero := []string{}
	cov := map[string]interface{}{
		"evaluations":           c.runs,
		"distinct_nontrivial":   c.nontrivial,
		"rule":                  p.Rule,
		"samples":               c.samples,
		"simulated_processes":   c.steps,
		"runs_per_hour":         hourly(float64(c.runs)),
		"seeds_per_hour":        hourly(float64(c.runs)),
		"scheduling_decisions":  c.switches,
		"preemptions":           c.preempts,
		"yield_points_executed": c.yields,
		"simulated_seconds":     float64(c.simNanos) / 1e9,
		"simulated_sleeps":      c.sleeps,
		"max_goroutines":        c.maxGor,
		"file_operations":       c.nops,
		"faults_injected":       c.fired,
		"process_outcomes":      c.outcomes,
		"probes":                c.probes,
		"variants":              c.variants,
		"scheduler_policies":    c.policies,
		"distinct_executions":   len(c.hashes),
		"distinctness_measure":  "hash over every scheduling decision (goroutine, slice length, runnable count), every file operation (kind, path, bytes), injected faults and the outcome of each process",
		"distinct_shapes":       len(c.shapes),
		"real_code":             p.Real,
		"stubbed":               p.Stub,
		"unreached_probes":      zero,
		"build_seconds":         buildS,
		"exploration_seconds":   simS,
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": o.tier, "seed": o.seed, "level": level,
		"coverage": cov, "assumptions": p.Assume, "wall_s": wall, "violations": nviol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	check(err)
	dir := filepath.Join(o.verif, "evidence")
	check(os.MkdirAll(dir, 0777))
	check(os.WriteFile(filepath.Join(dir, p.ID+".json"), b, 0666))
}

func cmdReplay(args []string) int {
	o, rest := parseOpts("replay", args)
	defer o.cleanup()
	if len(rest) != 1 {
		infra("replay needs one file")
	}
	b, err := os.ReadFile(rest[0])
	check(err)
	var rf replayFile
	check(json.Unmarshal(b, &rf))
	p := props[rf.Property]
	if p == nil {
		infra("unknown property %q", rf.Property)
	}
	e := o.engine(p)
	v, st := e.exec(rf.Scenario, false, nil)
	for i, r := range st {
		fmt.Printf("process %d: %s\n", i, r)
		for _, f := range r.Faults {
			fmt.Println("  fault:", f)
		}
	}
	h := fmt.Sprintf("%016x", runHash(st))
	fmt.Printf("execution hash %s (recorded %s)\n", h, rf.Hash)
	if v == nil {
		fmt.Println("the recorded violation does not occur on this tree")
		return exitOK
	}
	fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", v.Class, v.Detail, p.ID, rest[0])
	return exitViolation
}

// cmdSelftest proves determinism: it runs many scenarios of every property
// twice each, with different degrees of parallelism, and compares the
// executions event for event.
func cmdSelftest(args []string) int {
	o, _ := parseOpts("selftest", args)
	defer o.cleanup()
	n := o.runs
	if n == 0 {
		n = 30
	}
	all := &Prop{}
	for _, id := range keys(props) {
		all.APIs = append(all.APIs, props[id].APIs...)
	}
	eng := o.engine(all)
	bad := 0
	for _, id := range keys(props) {
		if o.prop != "" && o.prop != id {
			continue
		}
		e := &Engine{prop: props[id], bin: eng.bin, scratch: o.scratch}
		type res struct {
			h uint64
			v string
		}
		round := func(workers int) []res {
			out := make([]res, n)
			sem := make(chan bool, workers)
			doneC := make(chan interface{}, n)
			for i := 0; i < n; i++ {
				go func(i int) {
					sem <- true
					defer func() { <-sem; doneC <- recover() }()
					v, st := e.exec(e.prop.scenario(o.seed, i), false, nil)
					out[i].h = runHash(st)
					if v != nil {
						out[i].v = v.Class
					}
				}(i)
			}
			for i := 0; i < n; i++ {
				if r := <-doneC; r != nil {
					panic(r)
				}
			}
			return out
		}
		t := time.Now()
		a := round(o.workers)
		ta := time.Since(t)
		b := round(3)
		diff, nv := 0, 0
		for i := range a {
			if a[i] != b[i] {
				diff++
				fmt.Printf("  %s run %d differs: %v %v\n", id, i, a[i], b[i])
			}
			if a[i].v != "" {
				nv++
			}
		}
		bad += diff
		fmt.Printf("%s: %d runs twice, %d differ, %d violations, %.1f runs/s\n", id, n, diff, nv, float64(n)/ta.Seconds())
	}
	if bad > 0 {
		return exitTrouble
	}
	return exitOK
}
