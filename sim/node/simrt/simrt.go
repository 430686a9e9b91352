// Package simrt is the run-time half of the deterministic simulator: the
// cooperative scheduler that instrumented code yields to, and the fault layer
// that sits underneath every file system call of the code under test.
//
// Exactly one goroutine (the token holder) executes instrumented code at any
// moment. Every instrumented statement calls Y; when the holder's budget is
// used up, or when a goroutine that is not the holder reaches Y, it parks and
// the scheduler goroutine picks the next holder with the run's own PRNG.
package simrt

import (
	"runtime"
	"sort"
	"time"

	"testing/synctest"
)

// ---------------------------------------------------------------- PRNG

// PRNG is splitmix64: small, seedable, and independent of the Go release.
type PRNG struct{ s uint64 }

func NewPRNG(seed uint64) *PRNG { return &PRNG{seed*0x9E3779B97F4A7C15 + 0x1234567} }

func (p *PRNG) Next() uint64 {
	p.s += 0x9E3779B97F4A7C15
	z := p.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (p *PRNG) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(p.Next() % uint64(n))
}

func (p *PRNG) Float() float64 { return float64(p.Next()>>11) / (1 << 53) }

// ---------------------------------------------------------------- state

type gor struct {
	id     int64
	rank   int // order of first appearance by goroutine id
	park   chan struct{}
	parked bool
	prio   int
}

// Decision is one scheduling decision: which runnable goroutine (by index in
// goroutine-id order) runs next and for how many yield points. Sleep > 0 lets
// simulated time pass before the choice is made.
type Decision struct {
	Pick   int   `json:"p"`
	Budget int64 `json:"b"`
	Sleep  int64 `json:"s,omitempty"`
}

// SchedConfig fully determines a run's schedule.
type SchedConfig struct {
	Seed uint64 `json:"seed"`
	// Policy: "run" (lowest runnable goroutine, as long as possible),
	// "random", "prio" (priorities with a few change points), "rr".
	Policy string `json:"policy"`
	// Mean budget (in yield points) between preemptions.
	Mean int64 `json:"mean"`
	// Probability that simulated time passes before a decision.
	SleepProb float64 `json:"sleep_prob,omitempty"`
	// Offset of the simulated clock at the start of the run.
	StartSleep int64 `json:"start_sleep,omitempty"`
	// MaxYields bounds the run.
	MaxYields int64 `json:"max_yields"`
	// MaxSwitches bounds how many switches the configured policy may make
	// before the run degrades to long fair time slices (cost control).
	MaxSwitches int64 `json:"max_switches,omitempty"`
	// If Explicit is set, decisions come from Trace; when it runs out, the
	// "run" policy takes over.
	Explicit bool       `json:"explicit,omitempty"`
	Trace    []Decision `json:"trace,omitempty"`
}

type Stats struct {
	Yields      int64      `json:"yields"`
	Switches    int64      `json:"switches"`
	Preempts    int64      `json:"preempts"`
	Goroutines  int        `json:"goroutines"`
	MaxRunnable int        `json:"max_runnable"`
	Sleeps      int64      `json:"sleeps"`
	SimNanos    int64      `json:"sim_nanos"`
	Hash        uint64     `json:"hash"`
	Trace       []Decision `json:"trace,omitempty"`
}

var (
	on      bool
	cur     int64
	budget  int64
	granted int64
	total   int64 // yields consumed so far (updated at switches)

	gors   map[int64]*gor
	parked []*gor
	nprio  int

	cfg         SchedConfig
	rng         *PRNG
	stats       Stats
	recordTrace bool

	finished   bool
	onDeadlock func(stuck string)
)

// On reports whether simulated scheduling is active.
func On() bool { return on }

// Y is the yield point placed before every statement of the code under test.
func Y() {
	budget--
	if budget > 0 && runtime.SimGoid() == cur {
		return
	}
	slow()
}

// F asks for a scheduling decision at the next yield point. It precedes every
// statement which may wake another goroutine.
func F() {
	if budget > 1 && runtime.SimGoid() == cur {
		granted -= budget - 1
		budget = 1
	}
}

// Set stores v in *p with a yield point between the evaluation of v and the
// store, so that the lost updates which unsynchronised read-modify-write
// sequences allow are reachable.
func Set[T any](p *T, v T) {
	Y()
	*p = v
}

func slow() {
	if !on {
		budget = 1 << 40
		granted = budget
		return
	}
	id := runtime.SimGoid()
	g := gors[id]
	if g == nil {
		g = &gor{id: id, rank: len(gors), park: make(chan struct{}, 1)}
		gors[id] = g
		stats.Goroutines++
		nprio++
		g.prio = int(rng.Next() >> 33)
	}
	if id == cur {
		stats.Preempts++
	} else {
		budget++ // this goroutine did not consume the holder's budget
	}
	g.parked = true
	parked = append(parked, g)
	<-g.park
}

func mix(h, v uint64) uint64 {
	h ^= v + 0x9E3779B97F4A7C15 + (h << 6) + (h >> 2)
	return h * 0xD6E8FEB86659FD93
}

// Mix folds an observation into the run's event hash.
func Mix(v uint64) { stats.Hash = mix(stats.Hash, v) }

func settle() {
	used := granted - budget
	if used < 0 {
		used = 0
	}
	total += used
	Mix(uint64(used))
	granted, budget = 0, 0
}

// Deadline of simulated idle time after which a run with no runnable
// goroutine is declared stuck.
const idleLimit = 1000 * time.Hour

// Run executes f under the scheduler. It must be called inside a bubble.
// stuck is called (and must not return) if the run can make no progress.
func Run(c SchedConfig, record bool, f func(), stuck func(kind string)) Stats {
	cfg = c
	rng = NewPRNG(c.Seed)
	gors = map[int64]*gor{}
	recordTrace = record
	onDeadlock = stuck
	start := time.Now()
	if c.StartSleep > 0 {
		time.Sleep(time.Duration(c.StartSleep))
	}
	if cfg.MaxYields == 0 {
		cfg.MaxYields = 1 << 40
	}
	if cfg.MaxSwitches == 0 {
		cfg.MaxSwitches = 20000
	}
	on = true
	cur, budget, granted = -1, 0, 0

	go func() {
		Y() // park until first granted
		defer func() { finished = true }()
		f()
	}()

	ti := 0
	changeAt := int64(0)
	for {
		synctest.Wait()
		settle()
		stats.Yields = total
		cur = -1
		if finished {
			break
		}
		if len(parked) == 0 {
			// Nobody can run: let simulated time pass.
			before := time.Now()
			woke := false
			d := time.Millisecond
			for !woke && time.Since(before) < idleLimit {
				time.Sleep(d)
				synctest.Wait()
				if len(parked) > 0 || finished {
					woke = true
				}
				d *= 4
			}
			if finished {
				break
			}
			if !woke {
				stats.SimNanos = int64(time.Since(start))
				onDeadlock("deadlock")
			}
		}
		if total > cfg.MaxYields {
			stats.SimNanos = int64(time.Since(start))
			onDeadlock("livelock")
		}
		sort.Slice(parked, func(i, j int) bool { return parked[i].id < parked[j].id })
		if len(parked) > stats.MaxRunnable {
			stats.MaxRunnable = len(parked)
		}

		var d Decision
		if cfg.Explicit {
			if ti < len(cfg.Trace) {
				d = cfg.Trace[ti]
				ti++
			} else {
				d = Decision{Pick: 0, Budget: 1 << 16}
			}
			if total > cfg.MaxYields/2 {
				d = Decision{Pick: int(stats.Switches % int64(len(parked))), Budget: 1 << 12}
			}
		} else {
			d = decide(&changeAt)
		}
		if d.Sleep > 0 {
			time.Sleep(time.Duration(d.Sleep))
			stats.Sleeps++
			synctest.Wait()
			sort.Slice(parked, func(i, j int) bool { return parked[i].id < parked[j].id })
			Mix(uint64(d.Sleep))
		}
		if d.Pick >= len(parked) {
			d.Pick = len(parked) - 1
		}
		if d.Budget < 1 {
			d.Budget = 1
		}
		g := parked[d.Pick]
		parked = append(parked[:d.Pick], parked[d.Pick+1:]...)
		g.parked = false
		if recordTrace {
			stats.Trace = append(stats.Trace, d)
		}
		stats.Switches++
		Mix(uint64(g.rank)<<32 | uint64(len(parked)))
		cur = g.id
		budget = d.Budget + 1
		granted = budget
		g.park <- struct{}{}
	}
	on = false
	stats.SimNanos = int64(time.Since(start))
	return stats
}

// Snapshot returns the statistics so far (used when a run ends early).
func Snapshot() Stats {
	s := stats
	s.Yields = total + (granted - budget)
	return s
}

func decide(changeAt *int64) Decision {
	d := Decision{Budget: 1 << 16}
	n := len(parked)
	fair := total > cfg.MaxYields/2 || stats.Switches > cfg.MaxSwitches
	if fair {
		d.Pick = int(stats.Switches % int64(n))
		d.Budget = 1 << 12
		if stats.Switches > cfg.MaxSwitches {
			d.Budget = 1 << 16
		}
		return d
	}
	switch cfg.Policy {
	case "random":
		d.Pick = rng.Intn(n)
		d.Budget = burst()
	case "rr":
		d.Pick = int(stats.Switches % int64(n))
		d.Budget = 1 + cfg.Mean
	case "prio":
		if total >= *changeAt {
			*changeAt = total + burst()*8
			parked[rng.Intn(n)].prio = int(rng.Next() >> 33)
		}
		best := 0
		for i := range parked {
			if parked[i].prio > parked[best].prio {
				best = i
			}
		}
		d.Pick = best
		d.Budget = burst()
	default: // run
		d.Pick = 0
	}
	if cfg.SleepProb > 0 && rng.Float() < cfg.SleepProb {
		// 1 ns .. ~18 minutes, log-uniform.
		d.Sleep = int64(1) << uint(rng.Intn(40))
		d.Sleep += int64(rng.Next() % uint64(d.Sleep))
	}
	return d
}

// burst draws a slice length: mostly short, sometimes long, mean about Mean.
func burst() int64 {
	m := cfg.Mean
	if m < 1 {
		m = 1
	}
	switch rng.Intn(8) {
	case 0:
		return 1
	case 1:
		return 1 + int64(rng.Next()%uint64(4*m))
	default:
		return 1 + int64(rng.Next()%uint64(m+m/2+1))
	}
}
