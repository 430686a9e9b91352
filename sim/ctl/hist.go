package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// histGrid draws the density grid a histogram is taken of. Every value is
// well inside one bin of the histogram, or well outside of its range.
func histGrid(s *Scen) *gtet {
	r := s.rng("grid")
	px, L := s.I["px"], s.F["L"]
	g := &gtet{}
	h := &g.hd
	h.EndiannessVersion = gtetVersionFlagLE
	h.Redshift, h.ScaleFactor, h.OmegaM, h.OmegaL, h.Hubble, h.BoxWidth = 0, 1, 0.3, 0.7, 70, L
	h.Particles, h.TotalPixels, h.SubsampleLength, h.MinProjectionDepth, h.ProjectionAxis = 1, int64(px), 1, 1, -1
	cw := L / float64(px)
	h.Loc.PixelWidth = cw
	n := 1
	for k := 0; k < 3; k++ {
		o, w := 0, px
		if s.I["part"] == 1 && r.Chance(0.7) { // the grid covers a part of the box
			o, w = r.Intn(px), r.Range(1, px)
		}
		h.Loc.PixelOrigin[k], h.Loc.PixelSpan[k] = int64(o), int64(w)
		h.Loc.Origin[k], h.Loc.Span[k] = float64(o)*cw, float64(w)*cw
		if s.I["gridaxis"]-1 != k {
			n *= w
		}
	}
	h.ProjectionAxis = int64(s.I["gridaxis"] - 1)
	vals := make([]float32, n)
	bins := s.I["bins"]
	for i := range vals {
		b := 0
		switch s.S["grid"] {
		case "const":
			b = bins / 2
		case "two":
			b = r.Intn(2) * (bins - 1)
		default:
			b = r.Range(-2, bins+1)
		}
		vals[i] = float32(s.binValue(b, r.Uniform(0.2, 0.8)))
	}
	g.grid = [][]float32{vals}
	return g
}

// binValue is a value a fraction f into bin b of the histogram.
func (s *Scen) binValue(b int, f float64) float64 {
	min, max, bins := s.F["hmin"], s.F["hmax"], float64(s.I["bins"])
	if s.S["scale"] == "Log" {
		if b == -2 {
			return 0 // empty pixels are common
		}
		min, max = math.Log10(min), math.Log10(max)
		return math.Pow(10, min+(float64(b)+f)*(max-min)/bins)
	}
	return min + (float64(b)+f)*(max-min)/bins
}

func (s *Scen) binOf(v float64) int {
	min, max, bins := s.F["hmin"], s.F["hmax"], s.I["bins"]
	if s.S["scale"] == "Log" {
		if v <= 0 {
			return -1
		}
		min, max, v = math.Log10(min), math.Log10(max), math.Log10(v)
	}
	b := math.Floor((v - min) / (max - min) * float64(bins))
	if b < 0 || b >= float64(bins) {
		return -1
	}
	return int(b)
}

// coverF classifies an interval [lo, hi] against the periodic images of
// [a, a+w]: 2 if it lies inside, 1 if it may touch, 0 if it cannot.
func coverF(lo, hi, a, w, period float64) int {
	eps := 2e-5 * period
	if w >= period*(1-1e-9) {
		return 2
	}
	res := 0
	for i := math.Floor((lo-a)/period) - 1; i <= math.Floor((hi-a)/period)+1; i++ {
		A, B := a+i*period, a+w+i*period
		if lo >= A+eps && hi <= B-eps {
			return 2
		}
		if hi >= A-eps && lo <= B+eps {
			res = 1
		}
	}
	return res
}

type histBounds struct {
	e            []expect // of every bin
	lower, upper []int
	exact        bool
	total        [2]int // counted in any bin
}

// predictHist says what the histogram of a region must be.
func predictHist(s *Scen, d *dset, grid *gtet, b *BoxSpec) *histBounds {
	bins := s.I["bins"]
	px := s.I["px"]
	h := &histBounds{lower: make([]int, bins), upper: make([]int, bins), exact: true}
	o, w := b.O, b.W
	if b.Ball {
		for k := range o {
			o[k], w[k] = pmod(b.O[k]-b.W[k], d.L), 2*b.W[k]
		}
	}
	cw := d.L / float64(px)
	loc := &grid.hd.Loc
	cs := d.cubes(s.I["skip"], px) // in pixels
	for i := range cs {
		c := &cs[i]
		in := 2
		for k := 0; k < 3; k++ {
			if v := coverF(c.lo[k]*cw, c.hi[k]*cw, o[k], w[k], d.L); v < in {
				in = v
			}
		}
		if in == 0 {
			continue
		}
		// Grid pixels which may be reached.
		var idx [3][]int
		outside := false
		for k := 0; k < 3; k++ {
			const eps = 2e-3
			a, e := int(math.Floor(c.lo[k]-eps)), int(math.Floor(c.hi[k]+eps))
			if e-a >= px {
				e = a + px - 1
			}
			for q := a; q <= e; q++ {
				p := int(pmod(float64(q-int(loc.PixelOrigin[k])), float64(px)))
				if p >= int(loc.PixelSpan[k]) {
					outside = true
					continue
				}
				if k == int(grid.hd.ProjectionAxis) {
					p = 0
				}
				idx[k] = append(idx[k], p)
			}
		}
		hit := map[int]bool{}
		if outside {
			hit[-1] = true
		}
		sh := grid.shape()
		for _, z := range idx[2] {
			for _, y := range idx[1] {
				for _, x := range idx[0] {
					hit[s.binOf(float64(grid.grid[0][x+sh[0]*(y+sh[1]*z)]))] = true
				}
			}
		}
		m := 6 * s.I["pts"]
		for q := range hit {
			if q >= 0 {
				h.upper[q] += m
				if in == 2 && len(hit) == 1 {
					h.lower[q] += m
				}
			}
		}
		if in != 2 || len(hit) != 1 {
			h.exact = false
		}
		if !(len(hit) == 1 && hit[-1]) {
			h.total[1] += m
			if in == 2 && !hit[-1] {
				h.total[0] += m
			}
		}
	}
	// What random sampling of the tetrahedra leads to.
	if d.points() {
		return h
	}
	work := 0.0
	all := region{px: px, w: [3]int{px, px, px}, axis: -1}
	d.tets(s.I["skip"], float64(px), func(i int, t *btet, v *[4][3]float64) { work += t.reach(&all) })
	if work > 20000 {
		return h
	}
	h.e = make([]expect, bins)
	sh := grid.shape()
	var oo, ww [3]float64
	for k := range oo {
		oo[k], ww[k] = o[k]/cw, w[k]/cw
	}
	d.tets(s.I["skip"], float64(px), func(i int, t *btet, v *[4][3]float64) {
		if f, _ := boxFrac(t, oo, ww, float64(px)); f == 0 {
			return
		}
		fs := map[int]float64{}
		t.pixels(&all, func(p [3]int, parts []btet) {
			for k := range p {
				p[k] = pmodi(p[k]-int(loc.PixelOrigin[k]), px)
				if p[k] >= int(loc.PixelSpan[k]) {
					return
				}
				if k == int(grid.hd.ProjectionAxis) {
					p[k] = 0
				}
			}
			q := s.binOf(float64(grid.grid[0][p[0]+sh[0]*(p[1]+sh[1]*p[2])]))
			if q < 0 {
				return
			}
			for j := range parts {
				f, _ := boxFrac(&parts[j], oo, ww, float64(px))
				fs[q] += f
			}
		})
		for q, f := range fs {
			if f > 0 {
				h.e[q].add(s.I["pts"], f, 0)
			}
		}
	})
	return h
}

// planHist resolves a histogram scenario.
func planHist(s *Scen) (*dset, *gtet, bool) {
	if s.I["skip"] < 1 || s.I["seg"]%s.I["skip"] != 0 || s.I["bins"] < 1 || s.I["px"] < 1 || s.I["pts"] < 1 {
		return nil, nil, false
	}
	d, ok := makeData(s, []int{s.I["px"]})
	if !ok {
		return nil, nil, false
	}
	for _, c := range d.cubes(s.I["skip"], s.I["px"]) {
		for k := range c.lo {
			if c.hi[k]-c.lo[k] > 0.45*float64(s.I["px"]) {
				return nil, nil, false
			}
		}
	}
	return d, histGrid(s), true
}

func setupHist(x *Ctx, s *Scen, d *dset, grid *gtet) []string {
	d.write(x, "in")
	x.mkdir("out")
	writeOld(x, s, ".txt", 60*(s.I["bins"]+10))
	x.write("grid.gtet", gtetBytes(grid))
	x.write("h.cfg", histConfig(s, "out"))
	return append([]string{"-TetraHist", "h.cfg"}, writeBounds(x, s)...)
}

func histConfig(s *Scen, out string) []byte {
	b := &strings.Builder{}
	fmt.Fprintf(b, "[TetraHist]\nQuantity = Density\nInput = in\nOutput = %s\nGridFile = grid.gtet\n", out)
	fmt.Fprintf(b, "HistMin = %.17g\nHistMax = %.17g\nHistBins = %d\nHistScale = %s\nParticles = %d\n",
		s.F["hmin"], s.F["hmax"], s.I["bins"], s.S["scale"], s.I["pts"])
	if s.I["skip"] != 1 {
		fmt.Fprintf(b, "SubsampleLength = %d\n", s.I["skip"])
	}
	if s.I["log"] == 1 {
		fmt.Fprintf(b, "LogFile = log.out\n")
		if s.I["prof"] == 1 {
			fmt.Fprintf(b, "ProfileFile = prof.out\n")
		}
	}
	if s.I["affix"] == 1 {
		fmt.Fprintf(b, "PrependName = pre_\nAppendName = _app\n")
	}
	return []byte(b.String())
}

// judgeHist compares every written histogram with the prediction.
func judgeHist(x *Ctx, s *Scen, d *dset, grid *gtet, dir string) *Violation {
	for i := range s.Boxes {
		b := &s.Boxes[i]
		name := dir + "/" + s.outName(b.Name) + ".txt"
		raw, err := x.read(name)
		if err != nil {
			return viol("output-missing", "the command succeeded without writing %s: %v", name, err)
		}
		rows, err := parseHist(raw)
		if err != nil {
			return viol("output-format", "%s: %v", name, err)
		}
		if len(rows) != s.I["bins"] {
			return viol("output-format", "%s has %d rows for %d bins", name, len(rows), s.I["bins"])
		}
		h := predictHist(s, d, grid, b)
		tot := 0
		for q, row := range rows {
			c, err := strconv.ParseFloat(row.center, 64)
			want := s.binValue(q, 0.5)
			if err != nil || math.Abs(c-want) > 1e-3*math.Max(math.Abs(want), math.Abs(c)) && math.Abs(c-want) > 1e-9*(s.F["hmax"]-s.F["hmin"]) {
				return viol("hist-centers", "%s: the centre of bin %d is %s, not %g", name, q, row.center, want)
			}
			tot += row.count
			if row.count < h.lower[q] || row.count > h.upper[q] {
				return viol("hist-count", "%s: bin %d holds %d samples; the sheet puts between %d and %d there", name, q, row.count, h.lower[q], h.upper[q])
			}
		}
		for q := range h.e {
			if e := &h.e[q]; !e.check(x, float64(rows[q].count), s.workers()) {
				return viol("hist-statistic", "%s: bin %d holds %d samples; the sheet puts %.1f +- %.1f there", name, q, rows[q].count, e.mean, e.tol(s.workers()))
			}
		}
		if tot < h.total[0] || tot > h.total[1] {
			return viol("hist-total", "%s holds %d samples; the sheet puts between %d and %d there", name, tot, h.total[0], h.total[1])
		}
		if h.exact && tot > 0 {
			x.Probe("histogram-exact")
		} else if h.total[0] == h.total[1] && tot > 0 {
			x.Probe("total-exact")
		}
	}
	return nil
}

func genHist(r *PRNG, s *Scen, kinds ...string) {
	for t := 0; t < 300; t++ {
		genRender(r, s, "Density", kinds...)
		s.I["px"] = r.Range(1, 12)
		s.I["bins"] = r.Pick(1, 2, 5, 20, 200)
		s.S["scale"] = r.PickS("Log", "Linear")
		s.F["hmin"], s.F["hmax"] = 1e-2, 1e4
		if s.S["scale"] == "Linear" {
			s.F["hmin"], s.F["hmax"] = []float64{0, -5, 100}[r.Intn(3)], []float64{1e3, 1e6}[r.Intn(2)]
		}
		s.S["grid"] = r.PickS("random", "random", "const", "two")
		s.I["part"] = r.Pick(0, 0, 1)
		s.I["gridaxis"] = r.Pick(0, 0, 0, 0, 0, 1, 2, 3)
		if s.S["kind"] == "edge" {
			s.I["px"], s.I["part"] = r.Range(1, 60), r.Pick(0, 1, 1, 1)
		}
		genBoxes(r, s, r.Pick(1, 1, 2, 3), 1, false)
		if s.I["pts"] > 10 && s.I["px"] > 4 && r.Chance(0.6) {
			// Regions as thin as before, but pixels large enough to hold
			// many samples.
			s.I["px"] = r.Range(1, 4)
		}
		if r.Chance(0.25) {
			s.Boxes[0] = BoxSpec{Name: "all", W: [3]float64{s.F["L"], s.F["L"], s.F["L"]}}
		}
		for u := 0; u < 12; u++ {
			s.I["salt"] = u
			if _, _, ok := planHist(s); ok {
				return
			}
		}
	}
	infra("no admissible %s scenario found", s.Prop)
}

const histReal = "the complete gotetra TetraHist command (flag and config parsing, segment and grid readers, HistManager and its workers, histogram writer), Go's os, log and fmt packages"

var histMin = map[string]int{"seg": 1, "cells": 1, "px": 1, "pts": 1, "files": 1, "log": 0, "affix": 0, "skip": 1, "bins": 1, "part": 0, "gridaxis": 0, "old": 0}

func init() {
	register(&Prop{
		ID: "C17", Quick: 3000, Thorough: 30000,
		Rule:   "a run is one simulated TetraHist command over a random sheet, grid and one to three regions under a random schedule of its workers, with random short reads and writes; every bin of every histogram is compared with bounds computed from the sheet and grid alone, which are exact for clumped sheets, totals with the exact number of samples, and every bin with its exact expectation under uniform sampling of every tetrahedron; non-trivial if two workers were runnable at once or a fault or probe was hit",
		Assume: []string{"segments span less than 0.9 of the box and lattice cells less than 0.45", "grid values are never within a fifth of a bin of a bin edge", "statistics have a threshold of seven standard deviations which allows for workers whose clock seeds make their first draws alike, and are fixed by the seed"},
		Real:   histReal, Stub: renderStub, Min: histMin,
		Gen: func(r *PRNG, s *Scen) {
			s.Variant = r.PickS("sheet", "sheet", "sheet", "sheet", "lattice")
			if s.Variant == "lattice" {
				genHist(r, s, "uniform")
				s.S["grid"], s.I["part"], s.I["gridaxis"] = "two", 0, 0
				s.I["px"], s.I["cells"], s.I["seg"], s.I["skip"] = 4, r.Range(2, 3), 2*s.I["skip"], s.I["skip"]
				for s.I["cells"]*s.I["seg"] > 16 {
					s.I["skip"] /= 2
					s.I["seg"] /= 2
				}
				s.I["pts"] = 60
				s.Boxes = []BoxSpec{{Name: "all", W: [3]float64{s.F["L"], s.F["L"], s.F["L"]}}}
			} else {
				genHist(r, s, "clump", "clump", "wave", "stair", "uniform", "edge")
			}
			p := genProc(r, r.Range(1, 6))
			if s.I["pts"] > 10 {
				// Few workers make for strong statistics.
				p = genProc(r, r.Pick(1, 1, 2, 3))
			}
			if r.Chance(0.5) {
				benign(r, p)
			}
			s.Procs = []*Proc{p}
		},
		Run: func(x *Ctx, s *Scen) *Violation {
			d, grid, ok := planHist(s)
			if !ok {
				return nil
			}
			x.shape = fmt.Sprint(s.I, s.S)
			r := x.Main(s.Procs[0], setupHist(x, s, d, grid)...)
			if v := stuck(r); v != nil {
				return v
			}
			if !r.OK() {
				return viol("hist-fails", "a histogram without real faults fails: %s", r)
			}
			return judgeHist(x, s, d, grid, "out")
		},
	})

	register(&Prop{
		ID: "C18", Quick: 4000, Thorough: 32000,
		Rule:   "a run is one simulated TetraHist command over one to four regions during which reading the segments, grid or configuration files, or writing the histograms, fails: errors, premature ends, truncated grid files, full disks, lost data; or which is killed at a random file operation and run again; whenever the command claims success every histogram must be complete and exact; non-trivial if the fault fired",
		Assume: []string{"as C17"},
		Real:   histReal, Stub: renderStub, Min: histMin,
		Gen: func(r *PRNG, s *Scen) {
			genHist(r, s, "clump", "clump", "wave")
			nb := len(s.Boxes)
			c := s.I["cells"]
			nseg := c * c * c
			p := genProc(r, r.Range(1, 4))
			if r.Chance(0.4) {
				benign(r, p)
			}
			s.Variant = r.PickS("crash", "crash", "read", "read", "eof", "open", "readdir", "grid", "gridcut", "write", "full", "create", "lost", "lost", "pair", "replace")
			f := &Fault{Op: "read", Path: "in/*", Nth: r.Range(1, 8*nseg*nb), Count: r.Pick(1, 1, -1), Kind: r.PickS("EIO", "ESTALE")}
			switch s.Variant {
			case "crash":
				f = nil
				s.I["power"], s.I["crashes"], s.I["crashsel"] = r.Intn(2), r.Pick(1, 1, 2), r.Intn(1<<30)
				s.Procs = append(s.Procs, plainProc(r, r.Range(1, 3)), plainProc(r, 1))
			case "eof":
				f.Kind = "eof"
			case "open":
				f.Op, f.Nth, f.Kind = "open", r.Range(1, 2*nseg*nb+3), r.PickS("EMFILE", "EACCES", "EIO", "ENOENT")
				f.Path = ""
			case "readdir":
				f = &Fault{Op: "readdir", Path: "in", Nth: r.Range(1, 2), Kind: r.PickS("EIO", "ENOENT")}
			case "grid":
				f.Path, f.Nth, f.Kind = "grid.gtet", r.Range(1, 5), r.PickS("EIO", "eof")
			case "pair":
				pairOf(r, p, "in", c)
				f = nil
			case "gridcut":
				s.I["gridcut"] = r.Range(1, 1<<20)
				f = nil
			case "write":
				f = &Fault{Op: "write", Path: "out/*", Nth: r.Range(1, (s.I["bins"]+3)*nb), Count: r.Pick(1, 1, -1), Kind: r.PickS("EIO", "ENOSPC", "EDQUOT")}
			case "replace":
				f = replaceFault(r, nb)
			case "full":
				p.IO.Capacity = 1 + int64(r.Float()*float64(nb*(150+12*s.I["bins"])))
				s.I["log"], s.I["old"] = 0, 0
				f = nil
			case "create":
				f = &Fault{Op: "create", Path: "out/*", Nth: r.Range(1, nb), Count: r.Pick(1, -1), Kind: r.PickS("ENOSPC", "EMFILE", "EACCES", "EROFS")}
			case "lost":
				f = &Fault{Op: "closew", Path: "out/*", Nth: r.Range(1, nb), Count: r.Pick(1, -1), Kind: "lost", Arg: int64(r.Range(1, 300))}
			}
			if f != nil {
				p.IO.Faults = append(p.IO.Faults, f)
			}
			switch s.Variant {
			case "read", "eof", "open", "readdir":
				more(r, p, r.PickS("read", "read", "open"), "in", lastDigit, []string{"EIO"})
			}
			s.Procs = append(s.Procs, p)
		},
		Run: func(x *Ctx, s *Scen) *Violation {
			d, grid, ok := planHist(s)
			if !ok {
				return nil
			}
			x.shape = fmt.Sprint(s.I, s.S)
			args := setupHist(x, s, d, grid)
			if c := s.I["gridcut"]; c > 0 {
				b := gtetBytes(grid)
				x.write("grid.gtet", b[:len(b)-1-c%len(b)])
				x.Probe("truncated-grid")
			}
			if s.Variant == "crash" {
				return crashHist(x, s, d, grid, args)
			}
			res := x.Main(s.Procs[0], args...)
			if v := stuck(res); v != nil {
				return v
			}
			if !res.OK() {
				x.Probe("refused")
				return nil
			}
			if s.I["gridcut"] > 0 {
				return viol("success-on-bad-grid", "the command reports success with a truncated grid")
			}
			if v := judgeHist(x, s, d, grid, "out"); v != nil {
				v.Class = "false-success:" + v.Class
				v.Detail = fmt.Sprintf("the command reports success (%s, faults %v), but %s", s.Variant, res.Faults, v.Detail)
				return v
			}
			return nil
		},
	})
}

// crashHist kills a histogram once or twice and runs it again.
func crashHist(x *Ctx, s *Scen, d *dset, grid *gtet, args []string) *Violation {
	x.mkdir("ref")
	x.write("ref.cfg", histConfig(s, "ref"))
	ref := x.Main(plainProc(s.rng("ref"), 1), append([]string{args[0], "ref.cfg"}, args[2:]...)...)
	if !ref.OK() {
		return viol("hist-fails", "a histogram without faults fails: %s", ref)
	}
	r := s.rng("crash")
	for i := 0; i < s.I["crashes"]; i++ {
		p := s.Procs[i]
		if f := crashFault(ref, newPRNG(mixSeed(uint64(s.I["crashsel"]), uint64(i))), "ref", "out"); f != nil {
			p.IO.Faults = append(p.IO.Faults, f)
		}
		res := x.Main(p, args...)
		if res.Outcome == "crash" {
			x.Probe("crashed")
			if s.I["power"] == 1 && x.powerLoss(res, r) > 0 {
				x.Probe("unsynced-data-lost")
			}
		} else if !res.OK() {
			return viol("hist-fails", "a histogram over the remains of an interrupted one fails: %s", res)
		}
	}
	res := x.Main(s.Procs[2], args...)
	if v := stuck(res); v != nil {
		return v
	}
	if !res.OK() {
		return viol("repair-fails", "re-running an interrupted histogram fails: %s", res)
	}
	if v := judgeHist(x, s, d, grid, "out"); v != nil {
		v.Class = "repair:" + v.Class
		return v
	}
	a, b := x.tree("ref"), x.tree("out")
	for _, k := range keys(b) {
		if _, ok := a[k]; !ok {
			return viol("repair-debris", "after the repair there is a stray file %s", k)
		}
	}
	return nil
}
