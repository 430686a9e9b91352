package main

import (
	"fmt"
	"math"
)

// setQuantity constrains a scenario to what its quantity needs.
func derivedBoxes(r *PRNG, s *Scen) {
	if s.I["px"] < 7 {
		s.I["px"] = 7
	}
	genBoxes(r, s, r.Pick(1, 1, 2), 5, true)
}

// addPipeline decides whether the input is produced by a simulated
// conversion.
func addPipeline(r *PRNG, s *Scen) {
	s.Variant = r.PickS("sheet", "sheet", "sheet", "sheet", "pipeline")
}

func renderProcs(r *PRNG, s *Scen, withBenign bool) {
	p := genProc(r, r.Range(1, 6))
	if s.I["pts"] > 10 && r.Chance(0.5) {
		// Few workers make for strong statistics.
		p = genProc(r, r.Range(1, 2))
	}
	if withBenign && r.Chance(0.4) {
		benign(r, p)
	}
	s.Procs = []*Proc{p}
	if s.Variant == "pipeline" {
		s.Procs = append(s.Procs, plainProc(r, 1))
	}
}

// judgeLattice checks that an undistorted lattice is rendered as a uniform
// density, whatever way its cells are divided into tetrahedra.
func judgeLattice(x *Ctx, s *Scen, d *dset, g *region, vals []float32, pts int) *Violation {
	if d.kind != "aligned" || g.axis >= 0 || g.w[0] != g.px || g.w[1] != g.px || g.w[2] != g.px || g.px*s.I["skip"] != 2*d.n || pts < 100 {
		return nil
	}
	phase := func(p [3]int) int { return p[0]&1 | p[1]&1<<1 | p[2]&1<<2 }
	var sum [8]float64
	f := float64(g.px) / float64(d.n)
	skip := s.I["skip"]
	unit := f * f * f * float64(skip*skip*skip) / 6 / float64(pts)
	for i, v := range vals {
		sum[phase([3]int{i % g.px, i / g.px % g.px, i / (g.px * g.px)})] += float64(v) / unit
	}
	var es [8]expect
	perSeg := d.n / d.cells / skip
	perSeg = perSeg * perSeg * perSeg
	d.tets(skip, float64(g.px), func(i int, t *btet, v *[4][3]float64) {
		var fs [8]float64
		t.pixels(g, func(p [3]int, parts []btet) {
			for k := range p {
				p[k] = pmodi(p[k]+g.o[k], g.px)
			}
			for j := range parts {
				fs[phase(p)] += parts[j].frac()
			}
		})
		for ph, f := range fs {
			es[ph].add(pts, f, i/perSeg)
		}
	})
	for ph := range es {
		if e := &es[ph]; !e.check(x, sum[ph], s.workers()) {
			return viol("density-uniformity", "octant %d of the cells of a uniform lattice holds %.1f samples, instead of %.1f +- %.1f", ph, sum[ph], e.mean, e.tol(s.workers()))
		}
	}
	x.Probe("uniform-octants")
	return nil
}

func init() {
	register(&Prop{
		ID: "C08", Quick: 2500, Thorough: 20000,
		Rule:   "a run is one simulated density render of one to three random regions (boxes, balls and projections at random resolutions, many crossing the box edge) of a random sheet under a random worker schedule; every pixel and random parts of every region are compared with bounds computed from the sheet alone, which are exact for clumped sheets, and with their exact expectations under uniform sampling of every tetrahedron (tetrahedra clipped in barycentric coordinates); non-trivial if two workers were runnable at once or a fault or probe was hit",
		Assume: []string{"segments span less than 0.9 of the box", "no segment's outermost particle lies within 0.003 pixels of a pixel boundary, except on aligned lattices", "statistics have a threshold of seven standard deviations which allows for workers whose clock seeds make their first draws alike, and are fixed by the seed"},
		Real:   renderReal, Stub: renderStub, Min: renderMin,
		Gen: func(r *PRNG, s *Scen) {
			addPipeline(r, s)
			if r.Chance(0.12) {
				s.Variant = "lattice"
				genUntilOK(r, s, func() {
					genRender(r, s, "Density", "aligned")
					s.I["skip"] = r.Pick(1, 1, 2)
					s.I["cells"], s.I["seg"] = r.Range(2, 3), 2*s.I["skip"]
					s.I["px"] = 2 * s.I["cells"] * s.I["seg"] / s.I["skip"]
					s.I["shift"] = s.I["skip"] * r.Intn(4)
					s.I["pts"], s.I["auto"] = 100, 0
					genBoxes(r, s, 1, 1, false)
					s.Boxes[0] = BoxSpec{Name: "all", W: [3]float64{s.F["L"], s.F["L"], s.F["L"]}}
				})
				renderProcs(r, s, false)
				return
			}
			genUntilOK(r, s, func() {
				if s.Variant == "pipeline" {
					genRender(r, s, "Density", "wave", "stair", "uniform")
					s.F["maxext"] = 0.45
				} else {
					genRender(r, s, "Density", "wave", "stair", "stair", "clump", "clump", "clump", "edge")
				}
				genBoxes(r, s, r.Pick(1, 1, 2, 3), 1, true)
				if r.Chance(0.25) {
					s.I["imagepx"] = r.Range(2, 24)
				}
			})
			renderProcs(r, s, true)
		},
		Run: simpleRender,
	})

	register(&Prop{
		ID: "C09", Quick: 1800, Thorough: 14400,
		Rule:   "a run renders two to seven random regions together - of different shapes, resolutions, sample counts and projection axes, spread over one to three bounds files, some of them the same region under two names - under a random worker schedule; each must hold exactly what the sheet puts into it; non-trivial if two workers were runnable at once or a fault or probe was hit",
		Assume: []string{"as C08"},
		Real:   renderReal, Stub: renderStub, Min: renderMin,
		Gen: func(r *PRNG, s *Scen) {
			addPipeline(r, s)
			genUntilOK(r, s, func() {
				q := r.PickS("Density", "Density", "Velocity")
				if s.Variant == "pipeline" {
					genRender(r, s, q, "wave", "stair", "uniform")
					s.F["maxext"] = 0.45
				} else {
					genRender(r, s, q, "wave", "stair", "clump", "clump", "edge")
				}
				genBoxes(r, s, r.Range(2, 6), 1, true)
				if r.Chance(0.4) { // the same region twice
					b := s.Boxes[r.Intn(len(s.Boxes))]
					b.Name = "twin"
					s.Boxes = append(s.Boxes, b)
				}
				s.I["files"] = r.Range(1, 3)
				s.I["imagepx"] = 0
				if r.Chance(0.6) { // different resolutions
					s.I["imagepx"] = r.Range(2, 12)
				}
				if r.Chance(0.6) { // different sample counts
					s.I["auto"] = 1
				}
				if s.S["kind"] != "stair" && r.Chance(0.25) {
					genAuto(r, s)
				}
			})
			renderProcs(r, s, true)
		},
		Run: simpleRender,
	})

	register(&Prop{
		ID: "C10", Quick: 3000, Thorough: 24000,
		Rule:   "a run is one simulated velocity render of one or two random regions under a random worker schedule; each pixel's velocity must be zero where the sheet does not reach, lie within the range of velocities of the sheet there, and equal their mass weighted mean: exactly where the sheet determines it, else within a statistical bound of the exact mean of the clipped tetrahedra; non-trivial if two workers were runnable at once or a fault or probe was hit",
		Assume: []string{"as C08"},
		Real:   renderReal, Stub: renderStub, Min: renderMin,
		Gen: func(r *PRNG, s *Scen) {
			addPipeline(r, s)
			genUntilOK(r, s, func() {
				if s.Variant == "pipeline" {
					genRender(r, s, "Velocity", "wave", "stair", "uniform")
					s.F["maxext"] = 0.45
				} else {
					genRender(r, s, "Velocity", "wave", "stair", "uniform", "clump", "clump", "edge")
				}
				if s.S["kind"] == "uniform" && r.Chance(0.8) {
					s.S["vel"] = "linear"
				}
				genBoxes(r, s, r.Pick(1, 1, 2), 1, true)
				if r.Chance(0.2) {
					s.I["imagepx"] = r.Range(2, 20)
				}
			})
			renderProcs(r, s, true)
		},
		Run: simpleRender,
	})

	register(&Prop{
		ID: "C11", Quick: 5000, Thorough: 40000,
		Rule:   "a run is one simulated density gradient, velocity divergence or velocity curl render of one or two random regions of a sheet whose density and velocity grids are known exactly; every value is compared with an independent fourth order derivative of those grids, periodic where the region spans the box; regions too narrow for that must be refused; or velocity, divergence and curl renders of any sheet with the very same samples, whose grids must be derivatives of each other; non-trivial if two workers were runnable at once or a probe was hit",
		Assume: []string{"as C08"},
		Real:   renderReal, Stub: renderStub, Min: renderMin,
		Gen: func(r *PRNG, s *Scen) {
			s.Variant = r.PickS("wide", "wide", "wide", "wide", "wide", "wide", "narrow", "twins")
			if s.Variant == "twins" {
				genUntilOK(r, s, func() {
					genRender(r, s, "Velocity", "clump", "wave", "stair")
					s.I["pts"] = r.Pick(1, 1, 2, 4)
					derivedBoxes(r, s)
					for i := range s.Boxes {
						s.Boxes[i].Axis = ""
					}
				})
				// The same samples in every run.
				p := plainProc(r, 1)
				p.Sched.SleepProb = 0
				s.Procs = []*Proc{p}
				return
			}
			genUntilOK(r, s, func() {
				genRender(r, s, r.PickS("DensityGradient", "VelocityDivergence", "VelocityCurl"), "clump")
				s.S["vel"] = "seg"
				if s.Variant == "narrow" {
					if s.I["px"] < 7 {
						s.I["px"] = 7
					}
					genBoxes(r, s, 1, 1, false)
				} else {
					derivedBoxes(r, s)
				}
				if s.Variant == "wide" && r.Chance(0.05) {
					// The narrowest box which can be wrapped around.
					s.I["px"] = 4
					s.Boxes = []BoxSpec{{Name: "all", W: [3]float64{s.F["L"], s.F["L"], s.F["L"]}}}
				}
			})
			renderProcs(r, s, true)
		},
		Run: func(x *Ctx, s *Scen) *Violation {
			d, rs, ok := plan(s)
			if !ok {
				return nil
			}
			x.shape = fmt.Sprint(s.I, s.S)
			if s.Variant == "twins" {
				return twins(x, s, d, rs)
			}
			narrow := false
			for _, g := range rs {
				for k := range g.w {
					if g.w[k] < 5 && !(g.w[k] == 4 && g.px == 4) {
						narrow = true
					}
				}
			}
			if !narrow {
				return simpleRender(x, s)
			}
			r := x.Main(s.Procs[0], setupRender(x, s, d)...)
			if v := stuck(r); v != nil {
				return v
			}
			if r.OK() {
				// A stencil of five points exists nowhere in such a region,
				// unless it spans a box of four pixels.
				for _, g := range rs {
					for k := range g.w {
						if g.w[k] < 5 && !(g.w[k] == 4 && g.px == 4) {
							return viol("derivative-too-narrow", "a fourth order %s is reported for a region of %v pixels", s.S["q"], g.w)
						}
					}
				}
			}
			x.Probe("narrow-refused")
			return nil
		},
	})

	register(&Prop{
		ID: "C12", Quick: 5000, Thorough: 40000,
		Rule:   "a run is one simulated render during which reading the segments or configuration files fails: errors, premature ends, failing opens and directory listings, once or persistently, possibly among short reads; whenever the command claims success, every region must be exact; non-trivial if the fault fired",
		Assume: []string{"as C08"},
		Real:   renderReal, Stub: renderStub, Min: renderMin,
		Gen: func(r *PRNG, s *Scen) {
			genUntilOK(r, s, func() {
				genRender(r, s, r.PickS("Density", "Density", "Velocity"), "wave", "stair", "clump")
				genBoxes(r, s, r.Pick(1, 1, 2), 1, true)
			})
			p := genProc(r, r.Range(1, 4))
			if r.Chance(0.3) {
				benign(r, p)
			}
			c := s.I["cells"]
			nseg := c * c * c
			s.Variant = r.PickS("read", "read", "read", "eof", "eof", "open", "readdir", "config", "pair")
			f := &Fault{Op: "read", Path: "in/*", Nth: r.Range(1, 14*nseg), Count: r.Pick(1, 1, -1), Kind: r.PickS("EIO", "ESTALE")}
			switch s.Variant {
			case "eof":
				f.Kind = "eof"
			case "open":
				f.Op, f.Nth, f.Kind = "open", r.Range(1, 4*nseg+2), r.PickS("EMFILE", "EACCES", "EIO", "ENOENT")
			case "readdir":
				f = &Fault{Op: "readdir", Path: "in", Nth: r.Range(1, 2), Kind: r.PickS("EIO", "ENOENT")}
			case "config":
				f.Path, f.Nth, f.Kind = r.PickS("r.cfg", "b0.cfg", "b1.cfg"), r.Range(1, 3), r.PickS("EIO", "eof")
				if f.Kind == "eof" {
					// A configuration file cut short at a line end is a
					// valid shorter one; nobody can tell.
					f.Kind = "EIO"
				}
			}
			if s.Variant == "pair" {
				pairOf(r, p, "in", c)
				f = nil
			} else {
				p.IO.Faults = append(p.IO.Faults, f)
			}
			if f != nil && s.Variant != "config" {
				more(r, p, r.PickS("read", "read", "open"), "in", lastDigit, []string{"EIO"})
			}
			s.Procs = []*Proc{p}
		},
		Run: func(x *Ctx, s *Scen) *Violation { return faultyRender(x, s, "success-on-bad-input:") },
	})

	register(&Prop{
		ID: "C13", Quick: 10000, Thorough: 80000,
		Rule:   "a run is one simulated render of one to four regions whose output side fails: create, write or close errors at a random operation, data lost at close, a disk that fills up after a random number of bytes; whenever the command claims success, every region must be complete and exact; non-trivial if the fault fired",
		Assume: []string{"as C08", "data lost without any system call reporting it is undetectable, except that a file still open at exit loses what a close would have reported"},
		Real:   renderReal, Stub: renderStub, Min: renderMin,
		Gen: func(r *PRNG, s *Scen) {
			genUntilOK(r, s, func() {
				q := r.PickS("Density", "Density", "Velocity", "VelocityCurl", "VelocityDivergence", "DensityGradient")
				genRender(r, s, q, "clump")
				s.I["cells"], s.I["skip"], s.I["seg"] = r.Range(1, 2), 1, 1
				s.S["vel"] = "seg"
				minw := 1
				if q != "Density" && q != "Velocity" {
					minw = 5
					s.I["px"] = 10
				}
				genBoxes(r, s, r.Range(1, 4), minw, true)
				s.I["log"] = 0
			})
			p := genProc(r, r.Range(1, 3))
			if r.Chance(0.4) {
				benign(r, p)
			}
			n := len(s.Boxes)
			s.Variant = r.PickS("write", "write", "write", "full", "full", "full", "create", "create", "lost", "lost", "lost", "replace")
			switch s.Variant {
			case "write":
				p.IO.Faults = append(p.IO.Faults, &Fault{Op: "write", Path: "out/*", Nth: r.Range(1, 4*n), Count: r.Pick(1, 1, -1), Kind: r.PickS("EIO", "ENOSPC", "EDQUOT")})
			case "replace":
				p.IO.Faults = append(p.IO.Faults, replaceFault(r, n))
			case "full":
				px := s.I["px"]
				s.I["old"] = 0
				p.IO.Capacity = 1 + int64(math.Pow(r.Float(), 2)*float64(n*(gtetHeaderSize+12*px*px*px)))
			case "create":
				p.IO.Faults = append(p.IO.Faults, &Fault{Op: "create", Path: "out/*", Nth: r.Range(1, n), Count: r.Pick(1, -1), Kind: r.PickS("ENOSPC", "EMFILE", "EACCES", "EROFS")})
			case "lost":
				p.IO.Faults = append(p.IO.Faults, &Fault{Op: "closew", Path: "out/*", Nth: r.Range(1, n), Count: r.Pick(1, -1), Kind: "lost", Arg: int64(r.Range(1, 2000))})
			}
			if s.Variant == "write" || s.Variant == "create" {
				more(r, p, r.PickS("write", "write", "create"), "out", lastDigit, []string{"EIO", "ENOSPC"})
			}
			s.Procs = []*Proc{p}
		},
		Run: func(x *Ctx, s *Scen) *Violation { return faultyRender(x, s, "success-without-output:") },
	})

	register(&Prop{
		ID: "C15", Quick: 1800, Thorough: 14400,
		Rule:   "a run is an undisturbed render, a render of the same regions killed at a random file operation (writes torn at a random byte; optionally with loss of unsynced data and a second crash during the repair), and a final render, whose output directory must hold exactly the requested regions, each exact; non-trivial if the crash happened",
		Assume: []string{"as C08", "the process is killed at a file operation, where its effects become visible"},
		Real:   renderReal, Stub: renderStub, Min: renderMin,
		Gen: func(r *PRNG, s *Scen) {
			genUntilOK(r, s, func() {
				genRender(r, s, r.PickS("Density", "Density", "Velocity"), "clump", "stair")
				if s.I["cells"] > 3 {
					s.I["cells"] = 3
				}
				genBoxes(r, s, r.Range(1, 4), 1, true)
			})
			s.I["power"] = r.Intn(2)
			s.I["crashes"] = r.Pick(1, 1, 2)
			s.I["crashsel"] = r.Intn(1 << 30)
			s.Procs = []*Proc{genProc(r, r.Range(1, 3)), genProc(r, 1), genProc(r, 2)}
			benign(r, s.Procs[2])
		},
		Run: func(x *Ctx, s *Scen) *Violation {
			d, rs, ok := plan(s)
			if !ok {
				return nil
			}
			args := setupRender(x, s, d)
			x.mkdir("ref")
			x.write("ref.cfg", renderConfig(s, "in", "ref"))
			refArgs := append([]string{args[0], "ref.cfg"}, args[2:]...)
			ref := x.Main(plainProc(s.rng("ref"), 1), refArgs...)
			if !ref.OK() {
				return viol("render-fails", "a render without faults fails: %s", ref)
			}
			r := s.rng("crash")
			for i := 0; i < s.I["crashes"]; i++ {
				p := s.Procs[i]
				if f := crashFault(ref, newPRNG(mixSeed(uint64(s.I["crashsel"]), uint64(i))), "ref", "out"); f != nil {
					p.IO.Faults = append(p.IO.Faults, f)
				}
				res := x.Main(p, args...)
				if res.Outcome == "crash" {
					x.Probe("crashed")
					if s.I["power"] == 1 && x.powerLoss(res, r) > 0 {
						x.Probe("unsynced-data-lost")
					}
				} else if !res.OK() {
					return viol("render-fails", "a render over the remains of an interrupted one fails: %s", res)
				}
			}
			res := x.Main(s.Procs[2], args...)
			if v := stuck(res); v != nil {
				return v
			}
			if !res.OK() {
				return viol("repair-fails", "re-running an interrupted render fails: %s", res)
			}
			if v := judgeRender(x, s, d, rs, "out"); v != nil {
				v.Class = "repair:" + v.Class
				return v
			}
			a, b := x.tree("ref"), x.tree("out")
			for _, k := range keys(b) {
				if _, ok := a[k]; !ok {
					return viol("repair-debris", "after the repair there is a stray file %s", k)
				}
			}
			return nil
		},
	})
}

// faultyRender runs a render under real faults: it may fail, but must not
// claim success unless its output is exact.
func faultyRender(x *Ctx, s *Scen, class string) *Violation {
	d, rs, ok := plan(s)
	if !ok {
		return nil
	}
	x.shape = fmt.Sprint(s.I, s.S)
	res := x.Main(s.Procs[0], setupRender(x, s, d)...)
	if v := stuck(res); v != nil {
		return v
	}
	if !res.OK() {
		x.Probe("refused")
		return nil
	}
	if v := judgeRender(x, s, d, rs, "out"); v != nil {
		v.Class = class + v.Class
		v.Detail = fmt.Sprintf("the command reports success (%s, faults %v), but %s", s.Variant, res.Faults, v.Detail)
		return v
	}
	return nil
}

// twins renders velocities, their divergence and their curl with the same
// samples: one worker, and a clock which stands still. The derived grids have
// to be the derivatives of the first, whatever pixels the samples fell into.
// Should the draws depend on the quantity, neither would fit: then there is
// nothing to compare.
func twins(x *Ctx, s *Scen, d *dset, rs []region) *Violation {
	defer func(q string) { s.S["q"] = q }(s.S["q"])
	grids := map[string][]*gtet{}
	for _, q := range []string{"Velocity", "VelocityDivergence", "VelocityCurl"} {
		s.S["q"] = q
		r := x.Main(s.Procs[0], setupRender(x, s, d)...)
		if v := stuck(r); v != nil {
			return v
		}
		if !r.OK() {
			return viol("render-fails", "a render without real faults fails: %s", r)
		}
		for i := range rs {
			t, v := readGtet(x, s, d, &rs[i], "out")
			if v != nil {
				return v
			}
			grids[q] = append(grids[q], t)
		}
	}
	for i := range rs {
		g := &rs[i]
		sh, dx := g.shape(), d.L/float64(g.px)
		var v [3][]float64
		scale := 0.0
		for k := range v {
			for _, y := range grids["Velocity"][i].grid[k] {
				v[k] = append(v[k], float64(y))
				scale = math.Max(scale, math.Abs(float64(y))/dx)
			}
		}
		der := func(c, k int, o []float64, sg float64) {
			for j, y := range deriv5(v[c], sh, k, g.w[k] == g.px, dx) {
				o[j] += sg * y
			}
		}
		n := len(v[0])
		div, curl := make([]float64, n), [3][]float64{make([]float64, n), make([]float64, n), make([]float64, n)}
		for k := range v {
			der(k, k, div, 1)
			a, b := (k+1)%3, (k+2)%3
			der(b, a, curl[k], 1)
			der(a, b, curl[k], -1)
		}
		// compare returns the first pixel which does not fit.
		compare := func(q string, c int, want []float64) string {
			for j, y := range grids[q][i].grid[c] {
				if !(math.Abs(float64(y)-want[j]) <= 1e-3*math.Abs(want[j])+2e-4*scale) {
					return fmt.Sprintf("%s of region %s (pixels %v + %v of %d): component %d of pixel %d is %g, and %g follows from the velocities",
						q, g.spec.Name, g.o, g.w, g.px, c, j, y, want[j])
				}
			}
			return ""
		}
		e, f := compare("VelocityDivergence", 0, div), ""
		for c := range curl {
			if f == "" {
				f = compare("VelocityCurl", c, curl[c])
			}
		}
		switch {
		case e != "" && f != "":
			x.Probe("other-samples")
			return nil
		case e+f != "":
			return viol("derivative-of-other-field", "%s", e+f)
		}
		x.Probe("derivative-of-rendered")
	}
	return nil
}
