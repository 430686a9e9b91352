package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Prop{
		ID: "C20", Quick: 5000, Thorough: 40000,
		Rule:   "a run is one simulated conversion of a series of one to five snapshots of different sizes, units apart, with or without a declared end, among folders outside of the range, under short reads and writes or under real faults on the listing, reading or writing of one of them; non-trivial if a fault fired or more than one snapshot was converted",
		Assume: []string{"as C01 and C02"},
		Real:   convReal, Stub: convStub, Min: map[string]int{"files": 1, "part": 0, "x64": 0, "v64": 0, "wild": 0, "snaps": 1, "start": 0, "before": 0, "gap": 0},
		Gen: func(r *PRNG, s *Scen) {
			genSnap(r, s, false)
			if s.I["cells"] > 3 {
				s.I["cells"] = 3
			}
			s.I["files"] = r.Range(1, 3)
			s.I["snaps"] = r.Range(1, 5)
			s.I["start"] = r.Pick(0, 0, 1, 7, 98)
			s.I["open"] = r.Intn(2)   // no declared end
			s.I["before"] = r.Intn(2) // a folder before the range
			s.I["gap"] = r.Intn(2)    // a folder beyond the end
			s.I["fmt"] = r.Intn(3)
			s.I["series"] = 1
			p := genProc(r, r.Range(1, 3))
			if r.Chance(0.5) {
				benign(r, p)
			}
			s.Variant = r.PickS("clean", "clean", "clean", "readdir", "read", "write", "missing")
			n := s.I["snaps"]
			switch s.Variant {
			case "readdir":
				p.IO.Faults = append(p.IO.Faults, &Fault{Op: r.PickS("readdir", "open"), Path: s.inDir(s.I["start"] + r.Intn(n)), Nth: r.Range(1, 2), Count: r.Pick(1, -1),
					Kind: r.PickS("EIO", "EACCES", "EMFILE")})
			case "read":
				p.IO.Faults = append(p.IO.Faults, &Fault{Op: "read", Path: s.inDir(s.I["start"]+r.Intn(n)) + "/*", Nth: r.Range(1, 12), Count: r.Pick(1, -1), Kind: r.PickS("EIO", "eof")})
			case "write":
				p.IO.Faults = append(p.IO.Faults, &Fault{Op: r.PickS("write", "write", "create", "mkdir"), Nth: r.Range(1, 8*n), Count: r.Pick(1, -1), Kind: r.PickS("EIO", "ENOSPC")})
			case "missing":
				s.I["hole"] = r.Intn(n)
			}
			s.Procs = []*Proc{p}
		},
		Run: func(x *Ctx, s *Scen) *Violation {
			n := s.I["snaps"]
			start := s.I["start"]
			var sns []*snap
			mk := func(k int) *snap {
				c := s.clone()
				r := s.rng(fmt.Sprintf("size%d", k))
				c.I["seg"] = r.Range(1, 4)
				c.F["width"] = r.Uniform(1, 500)
				if s.I["series"] == 1 {
					// Later snapshots are written at other times, by other
					// numbers of processes and at other precision.
					c.F["a"] = []float64{1, 0.5, 0.25, 0.04}[r.Intn(4)]
					c.I["files"], c.I["part"] = r.Range(1, 5), r.Intn(4)
					c.I["x64"], c.I["v64"] = r.Intn(2), r.Intn(2)
					c.I["wild"] = r.Intn(2)
				}
				fixSnap(c)
				return makeSnapN(c, k)
			}
			last := n // snapshots which exist in an unbroken series
			for k := 0; k < n; k++ {
				sn := mk(k)
				sns = append(sns, sn)
				if s.Variant == "missing" && k == s.I["hole"]%n {
					if k < last {
						last = k
					}
					continue
				}
				sn.write(x, s.inDir(start+k))
			}
			if s.I["before"] == 1 && start > 0 {
				mk(100).write(x, s.inDir(start-1))
			}
			if s.I["gap"] == 1 {
				mk(101).write(x, s.inDir(start+n+1))
			}
			cfg := string(sns[0].config(s, "in", "out"))
			cfg = strings.Replace(cfg, "Input = in\n", "IteratedInput = "+s.dirFmt("snap")+"\n", 1)
			cfg = strings.Replace(cfg, "Output = out\n", "IteratedOutput = "+s.dirFmt("conv")+"\n", 1)
			if !strings.Contains(cfg, "IteratedInput") || !strings.Contains(cfg, "IteratedOutput") {
				infra("cannot adapt configuration %s", cfg)
			}
			if start > 0 {
				cfg += fmt.Sprintf("IterationStart = %d\n", start)
			}
			if s.I["open"] == 0 {
				cfg += fmt.Sprintf("IterationEnd = %d\n", start+n-1)
			}
			x.write("c.cfg", []byte(cfg))
			x.shape = fmt.Sprint(s.I)
			res := x.Main(s.Procs[0], "-ConvertSnapshot", "c.cfg")
			if v := stuck(res); v != nil {
				return v
			}
			want := n
			if s.Variant == "missing" {
				// With a declared end, or at the start, this is an error.
				if s.I["open"] == 0 || last == 0 {
					if res.OK() {
						return viol("missing-snapshot-ignored", "snapshot %d of the series is missing, but the conversion reports success", start+last)
					}
					x.Probe("missing-refused")
					return nil
				}
				want = last
			}
			if !res.OK() {
				if s.Variant == "clean" || s.Variant == "missing" {
					return viol("convert-fails", "converting a series without real faults fails: %s", res)
				}
				x.Probe("refused")
				return nil
			}
			for k := 0; k < want; k++ {
				if v := sns[k].verify(x, s.outDir(start+k)); v != nil {
					v.Class = "series:" + v.Class
					v.Detail = fmt.Sprintf("the command reports success (%s, faults %v), but in snapshot %d of %d: %s", s.Variant, res.Faults, k, want, v.Detail)
					return v
				}
				if k > 0 {
					x.Probe("later-snapshot-exact")
				}
			}
			for _, k := range []int{start - 1, start + want, start + want + 1} {
				if k >= 0 && (k < start || k >= start+want) && len(x.tree(s.outDir(k))) > 0 {
					return viol("series-range", "folder %d is outside of the range %d to %d, but was converted", k, start, start+want-1)
				}
			}
			return nil
		},
	})
}

func (s *Scen) dirFmt(base string) string {
	return base + []string{"%d", "_%03d", "dir%02d/x"}[s.I["fmt"]%3]
}
func (s *Scen) inDir(k int) string  { return fmt.Sprintf(s.dirFmt("snap"), k) }
func (s *Scen) outDir(k int) string { return fmt.Sprintf(s.dirFmt("conv"), k) }
