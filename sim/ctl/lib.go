package main

import (
	"encoding/json"
	"fmt"
)

// mgrJob mirrors the workload in node/api_mgr.go.
type mgrJob struct {
	Hist          bool
	In, Out       string
	Bounds        []string
	Q             string
	Grid, Scale   string `json:",omitempty"`
	Pts, Px, Skip int
	Bins, Workers int
	Min, Max      float64
	Order         []int
	PtsEach       []int `json:",omitempty"`
}

// mgrScen draws job number j of a library scenario. With base, the job reads
// the same sheet as another.
func mgrScen(s *Scen, op int, base *Scen) *Scen {
	r := newPRNG(uint64(op))
	for t := 0; t < 300; t++ {
		sub := &Scen{Prop: s.Prop, Seed: mixSeed(s.Seed, uint64(op)), I: map[string]int{}, F: map[string]float64{}, S: map[string]string{}}
		sub.I["hist"] = 0
		if r.Chance(0.35) {
			sub.I["hist"] = 1
			genHist(r, sub, "clump", "clump", "wave")
		} else {
			genUntilOK(r, sub, func() {
				genRender(r, sub, r.PickS("Density", "Density", "Velocity"), "clump", "clump", "stair", "wave")
				sub.I["px"] = r.Pick(1, 4, 7, 10, 13)
				genBoxes(r, sub, r.Pick(1, 1, 2), 1, true)
			})
		}
		sub.I["auto"], sub.I["affix"], sub.I["files"] = 0, 0, 1
		sub.I["workers"] = r.Range(1, 5)
		if base != nil {
			sub.Seed = base.Seed
			for _, k := range []string{"cells", "seg", "steps", "salt", "px"} {
				sub.I[k] = base.I[k]
			}
			sub.S["kind"], sub.S["vel"] = base.S["kind"], base.S["vel"]
			sub.F["L"], sub.F["amp"], sub.F["jit"], sub.F["maxext"] = base.F["L"], base.F["amp"], base.F["jit"], base.F["maxext"]
			if sub.I["seg"]%sub.I["skip"] != 0 {
				sub.I["skip"] = 1
			}
			// Bound the work.
			c := sub.I["cells"] * sub.I["seg"] / sub.I["skip"]
			if max := 12000/(c*c*c) + 1; sub.I["pts"] > max {
				sub.I["pts"] = max
			}
			genBoxes(r, sub, r.Range(1, 2), 1, sub.I["hist"] == 0)
		}
		if _, _, _, ok := planEither(sub); ok {
			return sub
		}
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C21", Quick: 1600, Thorough: 20000,
		Rule:   "a run opens one to four Managers and HistManagers in one process, over separate or shared sheets, all of them first or each when it is its turn, with different worker counts, and runs them concurrently or one after another, whole or file by file in a random order, under a random schedule; the output of each is compared with what its sheet and regions alone call for; non-trivial if two goroutines were runnable at once or a fault was hit",
		Assume: []string{"segments span less than 0.9 of the box (0.45 for histograms)", "each region belongs to one manager"},
		Real:   "packages render, render/density, render/geom, render/io and math/rand behind their exported interface", Stub: renderStub,
		APIs: []string{"mgr"},
		Gen: func(r *PRNG, s *Scen) {
			s.I["share"], s.I["staged"], s.I["serial"] = r.Intn(2), r.Intn(2), r.Pick(0, 0, 1)
			for i, n := 0, r.Range(1, 4); i < n; i++ {
				s.Ops = append(s.Ops, r.Intn(1<<30))
			}
			p := genProc(r, 1)
			if r.Chance(0.3) {
				benign(r, p)
			}
			s.Procs = []*Proc{p}
		},
		Run: func(x *Ctx, s *Scen) *Violation {
			var jobs []*mgrJob
			var subs []*Scen
			for i, op := range s.Ops {
				var base *Scen
				if s.I["share"] == 1 && i > 0 {
					base = subs[0]
				}
				sub := mgrScen(s, op, base)
				if sub == nil {
					if i == 0 {
						return nil
					}
					continue
				}
				n := len(subs)
				subs = append(subs, sub)
				d, setup, _, _ := planEither(sub)
				// Everything is set up under the names of a single
				// command, then renamed.
				setup(x)
				j := &mgrJob{Hist: sub.I["hist"] == 1, In: fmt.Sprintf("in%d", n), Out: fmt.Sprintf("out%d", n), Q: sub.S["q"],
					Pts: sub.I["pts"], Px: sub.I["px"], Skip: sub.I["skip"], Bins: sub.I["bins"], Min: sub.F["hmin"], Max: sub.F["hmax"],
					Scale: sub.S["scale"], Workers: sub.I["workers"]}
				if s.I["staged"] == 0 && s.I["serial"] == 0 {
					j.Workers = subs[0].I["workers"]
				}
				if base != nil {
					j.In = "in0"
					x.remove("in")
				} else {
					x.rename("in", j.In)
				}
				x.rename("out", j.Out)
				b := fmt.Sprintf("bounds%d.cfg", n)
				x.rename("b0.cfg", b)
				j.Bounds = []string{b}
				if j.Hist {
					j.Grid = fmt.Sprintf("grid%d.gtet", n)
					x.rename("grid.gtet", j.Grid)
				} else {
					r := s.rng(fmt.Sprint("order", n))
					if r.Chance(0.4) {
						j.Order = r.Perm(len(d.segs))
					}
					// Every region may have a number of points of its own.
					if j.Pts > 1 && r.Chance(0.5) {
						j.PtsEach = []int{j.Pts}
						for range sub.Boxes[1:] {
							j.PtsEach = append(j.PtsEach, r.Range(1, j.Pts))
						}
					}
				}
				jobs = append(jobs, j)
			}
			x.shape = fmt.Sprint(len(jobs), s.I)
			r := x.API(s.Procs[0], "mgr", map[string]interface{}{"Jobs": jobs, "Staged": s.I["staged"] == 1, "Serial": s.I["serial"] == 1})
			if v := stuck(r); v != nil {
				return v
			}
			if !r.OK() {
				return viol("managers-fail", "managers without real faults fail: %s", r)
			}
			var msg []string
			check(json.Unmarshal(r.Data, &msg))
			for i, m := range msg {
				if m != "" {
					return viol("manager-fails", "manager %d of %d fails: %s", i, len(msg), m)
				}
			}
			for i, sub := range subs {
				var v *Violation
				if sub.I["hist"] == 1 {
					d, grid, _ := planHist(sub)
					v = judgeHist(x, sub, d, grid, jobs[i].Out)
				} else {
					d, rs, _ := plan(sub)
					v = judgeRender(x, sub, d, rs, jobs[i].Out)
				}
				if v != nil {
					v.Detail = fmt.Sprintf("manager %d of %d: %s", i, len(subs), v.Detail)
					return v
				}
			}
			return nil
		},
	})
}
