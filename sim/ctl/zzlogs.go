package main

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
)

// logs decides where the commands of a run log to, and collects what they
// say.
type logs struct {
	r      *PRNG
	file   bool // to a LogFile
	prof   bool
	faults func() []*Fault // what befalls the log
	on     bool            // the current command is configured
	old    bool            // the side files are there already
	said   []*saying
}

// saying is what one command said.
type saying struct {
	stderr, log string
	r           *StepResult
	old         bool // what was in the side files before is still there
}

const oldLine = "left by an earlier command\n"

var oldLog = strings.Repeat(oldLine, 4000)

var sideLine = regexp.MustCompile(`(?m)^[ \t]*(LogFile|ProfileFile)[ \t]*=.*\n?`)

func (q *logs) before(x *Ctx, sf *stepFile) {
	q.on = false
	if sf.Kind != "main" {
		return
	}
	a := sf.Args
	if len(a) > 1 && a[0] == "-Threads" {
		a = a[2:]
	}
	if len(a) < 2 || a[0] == "-ExampleConfig" {
		return
	}
	b, err := x.read(a[1])
	if err != nil {
		return
	}
	t := sideLine.ReplaceAllString(string(b), "")
	i := strings.Index(t, "]\n")
	if i < 0 {
		return
	}
	more := ""
	if q.file {
		more += "LogFile = log.out\n"
	}
	if q.prof {
		more += "ProfileFile = prof.out\n"
	}
	x.write(a[1], []byte(t[:i+2]+more+t[i+2:]))
	x.remove("log.out")
	x.remove("prof.out")
	if q.old = q.file && q.r.Chance(0.5); q.old {
		x.write("log.out", []byte(oldLog))
		if q.prof {
			x.write("prof.out", []byte(oldLog))
		}
	}
	if q.faults != nil {
		sf.IO.Stderr = true
		sf.IO.Faults = append(append([]*Fault{}, q.faults()...), sf.IO.Faults...)
	}
	q.on = true
}

func (q *logs) after(x *Ctx, r *StepResult) {
	if !q.on {
		return
	}
	b, _ := x.read("log.out")
	s := &saying{stderr: r.Stderr, log: string(b), r: r}
	if q.old && s.log == oldLog && !r.OK() {
		s.log = "" // refused before it was opened
	}
	if q.old {
		p, _ := x.read("prof.out")
		if s.old = strings.Contains(s.log, oldLine); !s.old && q.prof && r.OK() {
			s.old = strings.Contains(string(p), oldLine)
		}
	}
	q.said = append(q.said, s)
}

var (
	logNumber = regexp.MustCompile(`[-+]?[0-9][0-9.e+-]*|[-+]?(NaN|Inf)`)
	logName   = regexp.MustCompile(`'[^'\n]*'`)
	logTrace  = regexp.MustCompile(`(?m)^(panic: |goroutine |fatal error: |simrt: )`)
)

// lines are the lines of a log, in which all numbers are the same.
func (s *saying) lines() []string {
	t := s.stderr
	if m := logTrace.FindStringIndex(t); m != nil {
		t = t[:m[0]]
	}
	t += s.log
	var ls []string
	for _, l := range strings.Split(logNumber.ReplaceAllString(logName.ReplaceAllString(t, "''"), "#"), "\n") {
		if l = strings.Join(strings.Fields(l), " "); l != "" {
			ls = append(ls, l)
		}
	}
	return ls
}

func contains(ls []string, l string) bool {
	for _, x := range ls {
		if x == l {
			return true
		}
	}
	return false
}

// hurt reports whether anything befell the process which is not harmless.
func hurt(r *StepResult) bool {
	for k := range r.IO.Fired {
		if !strings.HasSuffix(k, ":short") && !strings.HasSuffix(k, ":EINTR") {
			return true
		}
	}
	return r.Outcome == "crash"
}

// compareLogs runs the same commands with a LogFile and without.
func compareLogs(x *Ctx, s *Scen, run func() *Violation) *Violation {
	var said [2][]*saying
	var steps []*StepResult
	for k := range said {
		if k == 1 {
			ents, err := os.ReadDir(x.dir)
			check(err)
			for _, e := range ents {
				x.remove(e.Name())
			}
			x.guard, x.refuse, x.limit = nil, nil, 0
		}
		x.steps = nil
		x.logs = &logs{r: s.rng("logs"), file: k == 1, prof: k == 1 && s.I["sideprof"] == 1}
		v := run()
		steps = append(steps, x.steps...)
		said[k] = x.logs.said
		if v != nil {
			x.steps = steps
			v.Detail = fmt.Sprintf("logging to %s: %s", []string{"standard error", "a LogFile"}[k], v.Detail)
			return v
		}
	}
	x.steps = steps
	for i := range said[1] {
		if i >= len(said[0]) {
			break
		}
		a, b := said[0][i], said[1][i]
		if hurt(a.r) || hurt(b.r) {
			break
		}
		if b.old {
			return viol("log-stale", "command %d (%s): LogFile or ProfileFile still hold what an earlier command left in them", i, b.r)
		}
		if a.r.OK() != b.r.OK() {
			return viol("log-changes-outcome", "command %d: %s without LogFile, %s with", i, a.r, b.r)
		}
		la, lb := a.lines(), b.lines()
		reason := ""
		if len(la) > 0 {
			reason = la[len(la)-1]
		}
		// The order of the regions is arbitrary, and so is the one which a
		// refusal is about.
		sort.Strings(la)
		sort.Strings(lb)
		differ := strings.Join(la, "\n") != strings.Join(lb, "\n")
		if !a.r.OK() {
			differ = len(lb) < len(la) && !contains(lb, reason)
		}
		if differ {
			k := 0
			for k < len(la) && k < len(lb) && la[k] == lb[k] {
				k++
			}
			at := func(l []string) string {
				if k < len(l) {
					return fmt.Sprintf("'%s'", l[k])
				}
				return "over"
			}
			return viol("log-differs", "command %d (%s): of %d log lines on standard error and %d with a LogFile, numbers aside, line %d is %s there and %s here", i, b.r, len(la), len(lb), k+1, at(la), at(lb))
		}
		if !b.r.OK() && b.r.Outcome == "exit" {
			x.Probe("reason-logged")
		}
		if len(strings.TrimSpace(b.log)) > 0 {
			x.Probe("logs-agree")
		}
		if b.r.OK() && strings.TrimSpace(b.stderr) != "" {
			return viol("log-elsewhere", "with a LogFile, a successful command writes to the standard error: %s", tail(b.stderr, 300))
		}
	}
	return nil
}

func init() {
	clean := []string{"C01", "C07", "C08", "C10", "C11", "C17", "C20"}
	ids := append([]string{"C02", "C06", "C26", "C26"}, clean...)
	min := map[string]int{}
	apis := map[string]bool{}
	for _, id := range ids {
		for k, lo := range props[id].Min {
			if v, ok := min[k]; !ok || v < lo {
				min[k] = lo
			}
		}
		for _, a := range props[id].APIs {
			apis[a] = true
		}
	}
	register(&Prop{
		ID: "C38", Quick: 1200, Thorough: 15000,
		Rule:   "a run is a scenario of one of the other command properties, judged by its oracle: undisturbed ones with write faults, disk space and interruptions of the standard error or the LogFile only; or any one (also damaged inputs and impossible requests), executed twice, with and without a LogFile, whose contents must agree, numbers aside; non-trivial if the logs of a command were compared or a log fault fired",
		Assume: []string{"as the property whose scenario is used", "the profiler is a stub which writes a fixed profile when it is stopped"},
		Real:   convReal + "; " + renderReal, Stub: convStub + ", CPU profiler", Min: min, APIs: keys(apis),
		Gen: func(r *PRNG, s *Scen) {
			from := ids
			pre := "compare:"
			s.I["how"] = r.Pick(0, 0, 1, 2)
			if s.I["how"] > 0 {
				from, pre = clean, "broken:"
			}
			how := s.I["how"]
			id := from[r.Intn(len(from))]
			s.S["as"] = id
			s.Prop = id
			props[id].Gen(newPRNG(r.Next()), s)
			s.Prop = "C38"
			s.Variant = pre + id + ":" + s.Variant
			s.I["how"], s.I["sideprof"] = how, r.Intn(2)
		},
		Run: func(x *Ctx, s *Scen) *Violation {
			id := s.S["as"]
			c := s.clone()
			c.Prop = id
			c.Variant = strings.SplitN(s.Variant, ":", 3)[2]
			how := s.I["how"]
			if how == 0 {
				return compareLogs(x, s, func() *Violation { return props[id].Run(x, c.clone()) })
			}
			q := &logs{r: s.rng("logs"), file: how == 2}
			to := map[int]string{1: "@stderr", 2: "log.out"}[how]
			q.faults = func() []*Fault {
				f := []*Fault{{Op: "write", Path: to, Nth: q.r.Pick(1, 1, 2, q.r.Range(1, 12)), Count: q.r.Pick(1, 3, -1, -1), Kind: q.r.PickS("EIO", "ENOSPC", "EDQUOT", "ENOSPC")}}
				if q.r.Chance(0.4) {
					f = append(f, &Fault{Op: "write", Path: to, Prob: 0.5, Kind: "short"})
				}
				return f
			}
			x.logs = q
			v := props[id].Run(x, c)
			if v != nil {
				v.Detail = "while the log cannot be written (" + to + "): " + v.Detail
				return v
			}
			for _, t := range q.said {
				for k := range t.r.IO.Fired {
					if strings.HasPrefix(k, "write:E") && !strings.HasSuffix(k, "EINTR") {
						x.Probe("log-fault")
					}
				}
			}
			return nil
		},
	})
}
