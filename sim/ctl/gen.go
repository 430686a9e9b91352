package main

import "fmt"

// genProc draws everything the simulator decides about one process apart
// from faults.
func genProc(r *PRNG, threads int) *Proc {
	p := &Proc{Rand: r.Next(), Threads: threads, NCPU: threads}
	s := &p.Sched
	s.Seed = r.Next()
	s.Policy = r.PickS("random", "random", "prio", "rr", "run", "random")
	s.Mean = int64(r.Pick(2, 5, 20, 100, 500, 3000, 20000))
	s.MaxSwitches = 6000
	if r.Chance(0.3) {
		s.SleepProb = []float64{0.001, 0.01, 0.2}[r.Intn(3)]
	}
	if r.Chance(0.3) {
		s.StartSleep = int64(r.Next() % (1 << 55)) // up to about 417 days
	}
	p.IO.Seed = r.Next()
	return p
}

// plainProc is a quiet process: one scheduler slice after another, no faults.
func plainProc(r *PRNG, threads int) *Proc {
	p := &Proc{Rand: r.Next(), Threads: threads, NCPU: threads}
	p.Sched.Seed = r.Next()
	p.Sched.Policy = "run"
	p.Sched.Mean = 1 << 16
	p.IO.Seed = r.Next()
	return p
}

// benign adds faults which a correct program must absorb: short reads and
// writes, interrupted system calls, directories listed piecemeal.
func benign(r *PRNG, p *Proc) {
	if r.Chance(0.7) {
		p.IO.Faults = append(p.IO.Faults, &Fault{Op: "read", Prob: []float64{0.05, 0.3, 0.9}[r.Intn(3)], Kind: "short"})
	}
	if r.Chance(0.6) {
		p.IO.Faults = append(p.IO.Faults, &Fault{Op: "write", Prob: []float64{0.05, 0.3, 0.9}[r.Intn(3)], Kind: "short"})
	}
	for _, op := range []string{"read", "write", "open", "create", "readdir"} {
		if r.Chance(0.3) {
			p.IO.Faults = append(p.IO.Faults, &Fault{Op: op, Prob: []float64{0.05, 0.3}[r.Intn(2)], Kind: "EINTR"})
		}
	}
}

// more adds, now and then, further faults of the given kind to a process: a
// file which stays broken next to one that fails once, or a device on which
// every so many operations fail.
func more(r *PRNG, p *Proc, op, dir string, names, kinds []string) {
	if !r.Chance(0.3) {
		return
	}
	for n := r.Pick(1, 1, 2); n > 0; n-- {
		f := &Fault{Op: op, Path: dir + "/" + names[r.Intn(len(names))], Kind: kinds[r.Intn(len(kinds))]}
		if r.Chance(0.3) {
			f.Prob = []float64{0.02, 0.1, 0.5}[r.Intn(3)]
		} else {
			f.Nth, f.Count = r.Range(1, 6), r.Pick(1, 2, -1, -1)
		}
		p.IO.Faults = append(p.IO.Faults, f)
	}
}

var lastDigit = []string{"*0*", "*1*", "*00*", "*01*", "*10*", "*11*", "*"}

// pairOf is two segment files which fail at about the same stage of a
// command, one for good, the other perhaps only for a moment.
func pairOf(r *PRNG, p *Proc, dir string, cells int) {
	op, nth := r.PickS("open", "open", "read"), r.Range(1, 5)
	if op == "read" {
		nth = r.Range(1, 15)
	}
	for i := 0; i < 2; i++ {
		name := fmt.Sprintf("*%d%d%d*", r.Intn(cells), r.Intn(cells), r.Intn(cells))
		f := &Fault{Op: op, Path: dir + "/" + name, Nth: nth, Count: r.Pick(1, 2, -1), Kind: "EIO"}
		if i == 1 && r.Chance(0.7) {
			f.Count = 1
		}
		p.IO.Faults = append(p.IO.Faults, f)
	}
}

// replaceFault is a fault in the operations with which files are put in place
// of others, for commands which do that.
func replaceFault(r *PRNG, n int) *Fault {
	return &Fault{Op: r.PickS("rename", "rename", "fsync", "unlink", "truncate"), Nth: r.Range(1, n), Count: r.Pick(1, -1),
		Kind: r.PickS("EIO", "ENOSPC", "EACCES")}
}
