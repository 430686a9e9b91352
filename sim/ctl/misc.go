package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"strings"
)

// ------------------------------------------------------------- C06

// damage spoils one segment file of a finished sheet.
func damage(x *Ctx, s *Scen, d *dset) string {
	r := s.rng("damage")
	i := r.Intn(len(d.segs))
	if s.Variant == "foreign" && len(d.segs) > 1 && i == 0 {
		// The first segment says what the others have to look like.
		i = 1
	}
	g := d.segs[i]
	name := "in/" + d.segName(i)
	b := g.bytes()
	switch s.Variant {
	case "cut":
		n := r.Intn(len(b))
		switch r.Intn(4) {
		case 0: // the last bytes
			n = len(b) - 1 - r.Intn(30)
		case 1: // all of the positions, but not all of the velocities
			n = 8 + sheetHeaderSize + 12*len(g.x32) + r.Intn(12*len(g.x32))
		}
		x.write(name, b[:n])
	case "empty":
		x.write(name, nil)
	case "zeros": // the size made it to the disk, some of the data did not
		n := r.Intn(5)
		for k := n; k < 8+sheetHeaderSize; k++ {
			b[k] = 0
		}
		x.write(name, b)
	case "flag":
		binary.LittleEndian.PutUint32(b, uint32(r.Pick(1, 2, 0x1000000, 77)))
		x.write(name, b)
	case "hdsize":
		binary.LittleEndian.PutUint32(b[4:], uint32(sheetHeaderSize+r.Pick(-8, -1, 1, 8, 4096)))
		x.write(name, b)
	case "foreign": // a segment of a sheet with another geometry
		if len(d.segs) == 1 {
			x.write(name, nil)
			break
		}
		hd := g.hd
		w := int64(d.gw()) + int64(r.Pick(-1, 1, 2))
		if w < 2 {
			w = 3
		}
		hd.GridWidth, hd.SegmentWidth, hd.GridCount = w, w-1, w*w*w
		xs, vs := make([]Vec, w*w*w), make([]Vec, w*w*w)
		for j := range xs {
			xs[j], vs[j] = g.x32[j%len(g.x32)], g.v32[j%len(g.v32)]
		}
		x.write(name, sheetBytes(&hd, xs, vs, binary.LittleEndian))
	case "mixed", "leftover": // a segment of another sheet with equal segments
		hd := g.hd
		c := &hd.Cosmo
		if s.Variant == "leftover" {
			// An earlier conversion into this folder used more segments.
			hd.Cells *= 2
			hd.CountWidth *= 2
			hd.Count *= 8
			hd.Mass /= 8
			hd.Idx = int64(r.Intn(int(hd.Cells * hd.Cells * hd.Cells)))
			name = "in/" + fmt.Sprintf("sheet%d%d%d.dat", 10+hd.Idx%hd.Cells, hd.Idx/hd.Cells%hd.Cells, hd.Idx/hd.Cells/hd.Cells)
		} else {
			if len(d.segs) == 1 {
				name = "in/zz.dat"
			}
			switch r.Intn(7) {
			case 6:
				c.OmegaL += []float64{0.001, 0.01}[r.Intn(2)]
			case 0:
				c.Z += []float64{0.001, 0.01, 0.5, 3}[r.Intn(4)]
			case 1:
				c.OmegaM += []float64{0.001, 0.01}[r.Intn(2)]
			case 2:
				c.H100 += []float64{0.001, 0.01}[r.Intn(2)]
			case 3:
				hd.TotalWidth *= []float64{0.5, 0.999, 1.001, 2}[r.Intn(4)]
			case 4:
				hd.Mass *= []float64{0.125, 2, 8}[r.Intn(3)]
			case 5:
				hd.CountWidth, hd.Cells = 2*hd.CountWidth, 2*hd.Cells
			}
		}
		// Its matter is elsewhere.
		xs := append([]Vec{}, g.x32...)
		L := float32(d.L)
		for k := range hd.Origin {
			sh := float32(r.Uniform(0.1, 0.9)) * L
			hd.Origin[k] += sh
			for j := range xs {
				xs[j][k] += sh
				if xs[j][k] >= L {
					xs[j][k] -= L
				}
			}
			if hd.Origin[k] >= L {
				hd.Origin[k] -= L
			}
		}
		x.write(name, sheetBytes(&hd, xs, g.v32, binary.LittleEndian))
	case "copy": // the same segment twice
		name = "in/" + r.PickS("Copy of "+d.segName(i), d.segName(i)+"~", "a", "zz.bak")
		x.write(name, b)
	case "stray":
		name = "in/" + r.PickS("README", ".DS_Store", "sheet000.dat.gz", "zzz.log")
		x.write(name, []byte(strings.Repeat("some text\n", r.Intn(60))))
	case "strayname":
		x.mkdir("in/" + r.PickS("old", "zzz"))
	case "newer": // a header with more fields, followed by the data
		n := 8 * r.Range(1, 20)
		extra := make([]byte, n)
		for j := range extra {
			extra[j] = byte(r.Next())
		}
		if r.Chance(0.5) {
			extra = make([]byte, n)
		}
		binary.LittleEndian.PutUint32(b[4:], uint32(sheetHeaderSize+n))
		b = append(b[:8+sheetHeaderSize:8+sheetHeaderSize], append(extra, b[8+sheetHeaderSize:]...)...)
		x.write(name, b)
	}
	return name
}

func genDamage(r *PRNG, s *Scen, q string) {
	s.I["hist"] = 0
	if r.Chance(0.35) {
		s.I["hist"] = 1
		genHist(r, s, "clump", "clump", "wave")
	} else {
		genUntilOK(r, s, func() {
			genRender(r, s, q, "wave", "stair", "clump", "clump")
			if s.Prop == "C16" {
				s.I["px"] = r.Pick(1, 2, 4, 7, 8, 10) // many workers, each with a buffer
			}
			genBoxes(r, s, r.Pick(1, 1, 2), 1, true)
		})
	}
}

// runEither sets up and judges a render or a histogram.
func planEither(s *Scen) (d *dset, setup func(x *Ctx) []string, judge func(x *Ctx) *Violation, ok bool) {
	if s.I["hist"] == 1 {
		d, grid, ok := planHist(s)
		return d, func(x *Ctx) []string { return setupHist(x, s, d, grid) },
			func(x *Ctx) *Violation { return judgeHist(x, s, d, grid, "out") }, ok
	}
	d, rs, ok := plan(s)
	return d, func(x *Ctx) []string { return setupRender(x, s, d) },
		func(x *Ctx) *Violation { return judgeRender(x, s, d, rs, "out") }, ok
}

// ------------------------------------------------------------- C14

type gridHd struct {
	EndiannessVersion uint64
	Type              struct{ HeaderSize, GridType, IsVectorGrid int64 }
	Cosmo             struct {
		Redshift, ScaleFactor, OmegaM, OmegaL, Hubble, RhoMean, RhoCritical, BoxWidth float64
	}
	Render   struct{ Particles, TotalPixels, SubsampleLength, MinProjectionDepth, ProjectionAxis int64 }
	Loc, Vel gtetLoc
}

// judgeHeader checks that a grid file describes itself.
func judgeHeader(x *Ctx, s *Scen, d *dset, g *region, t *gtet, name string) *Violation {
	h := &t.hd
	bad := func(what string, got, want interface{}) *Violation {
		return viol("header-"+what, "%s: %s is %v, should be %v", name, what, got, want)
	}
	if h.EndiannessVersion != gtetVersionFlagLE {
		return bad("EndiannessVersion", h.EndiannessVersion, gtetVersionFlagLE)
	}
	types := map[string]int64{"Density": 0, "DensityGradient": 1, "Velocity": 2, "VelocityDivergence": 3, "VelocityCurl": 4}
	if h.GridType != types[s.S["q"]] {
		return bad("GridType", h.GridType, types[s.S["q"]])
	}
	c := &d.hd.Cosmo
	rc0 := 3 * 1e5 * 1e5 / (8 * math.Pi * 6.67259e-11) * 3.0856e22 / 1.989e30
	want := []struct {
		n    string
		g, w float64
	}{
		{"Redshift", h.Redshift, c.Z}, {"ScaleFactor", h.ScaleFactor, 1 / (1 + c.Z)},
		{"OmegaM", h.OmegaM, c.OmegaM}, {"OmegaL", h.OmegaL, c.OmegaL}, {"Hubble", h.Hubble, 100 * c.H100},
		{"BoxWidth", h.BoxWidth, d.L},
		{"RhoCritical", h.RhoCritical, rc0 * (c.OmegaM*math.Pow(1+c.Z, 3) + c.OmegaL)},
		{"RhoMean", h.RhoMean, rc0 * (c.OmegaM + c.OmegaL) * c.OmegaM * math.Pow(1+c.Z, 3)},
		{"PixelWidth", h.Loc.PixelWidth, d.L / float64(g.px)},
	}
	for k := 0; k < 3; k++ {
		cw := d.L / float64(g.px)
		want = append(want, struct {
			n    string
			g, w float64
		}{"Origin", h.Loc.Origin[k], float64(g.o[k]) * cw}, struct {
			n    string
			g, w float64
		}{"Span", h.Loc.Span[k], float64(g.w[k]) * cw})
	}
	for _, w := range want {
		if !closeTo(w.g, w.w, 1e-9) {
			return bad(w.n, w.g, w.w)
		}
	}
	axis := int64(g.axis)
	if h.ProjectionAxis != axis {
		return bad("ProjectionAxis", h.ProjectionAxis, axis)
	}
	if h.TotalPixels != int64(g.px) {
		return bad("TotalPixels", h.TotalPixels, g.px)
	}
	if h.SubsampleLength != int64(s.I["skip"]) {
		return bad("SubsampleLength", h.SubsampleLength, s.I["skip"])
	}
	if h.Particles < 1 {
		return bad("Particles", h.Particles, "positive")
	}
	pd := 20000 / float64(h.Particles) * math.Pow(float64(g.px)/5000, 3) / math.Pow(float64(s.I["skip"]), 3)
	if v := float64(h.MinProjectionDepth); v != math.Ceil(pd-1e-9*pd) && v != math.Ceil(pd+1e-9*pd) {
		return bad("MinProjectionDepth", v, math.Ceil(pd))
	}
	return nil
}

// ------------------------------------------------------------- checks

func init() {
	register(&Prop{
		ID: "C06", Quick: 5000, Thorough: 40000,
		Rule:   "a run is one simulated render or histogram of a sheet one of whose segment files is truncated at a random byte, emptied, zeroed, marked with another byte order or header size, replaced by a segment of another geometry or of another sheet, or accompanied by a stray file or directory, a copy of itself, or a leftover of an earlier conversion; whenever the command claims success every output must be exact; healthy segments stored in the other byte order must be accepted; non-trivial if two workers were runnable at once or a fault or probe was hit",
		Assume: []string{"a segment whose bytes changed within a well formed file is undetectable in this format", "which segments an input directory ought to hold is the user's business"},
		Real:   renderReal + "; the TetraHist command", Stub: renderStub, Min: renderMin,
		Gen: func(r *PRNG, s *Scen) {
			genDamage(r, s, r.PickS("Density", "Density", "Velocity"))
			s.Variant = r.PickS("cut", "cut", "cut", "cut", "empty", "zeros", "flag", "hdsize", "newer", "foreign", "foreign", "mixed", "mixed", "leftover", "copy", "copy", "stray", "strayname", "order", "order")
			p := genProc(r, r.Range(1, 4))
			if r.Chance(0.4) {
				benign(r, p)
			}
			s.Procs = []*Proc{p}
		},
		Run: func(x *Ctx, s *Scen) *Violation {
			d, setup, judge, ok := planEither(s)
			if !ok {
				return nil
			}
			x.shape = fmt.Sprint(s.I, s.S)
			args := setup(x)
			name := ""
			if s.Variant == "order" {
				r := s.rng("order")
				for i, g := range d.segs {
					if r.Chance(0.5) {
						x.write("in/"+d.segName(i), sheetBytes(&g.hd, g.x32, g.v32, binary.BigEndian))
						x.Probe("other-byte-order")
					}
				}
			} else {
				name = damage(x, s, d)
				x.Probe("damaged-" + s.Variant)
			}
			res := x.Main(s.Procs[0], args...)
			if v := stuck(res); v != nil {
				return v
			}
			if !res.OK() {
				if s.Variant == "order" {
					return viol("good-input-refused", "a sheet with segments in both byte orders is refused: %s", res)
				}
				x.Probe("refused")
				return nil
			}
			if v := judge(x); v != nil {
				v.Class = "success-on-damaged-segment:" + v.Class
				v.Detail = fmt.Sprintf("the command reports success (%s %s), but %s", s.Variant, name, v.Detail)
				return v
			}
			x.Probe("no-influence")
			return nil
		},
	})

	register(&Prop{
		ID: "C14", Quick: 5000, Thorough: 40000,
		Rule:   "a run is one simulated render of one to four regions of any quantity, followed by one to three concurrent clients of the grid file readers, under short, interrupted and failing reads and with some of the files truncated; every header field is compared with the sheet, configuration and region it stands for, and whatever a reader returns with what the file holds; non-trivial if a fault fired or a probe was hit",
		Assume: []string{"as C08"},
		Real:   renderReal + "; ReadGridHeader and ReadGrid", Stub: renderStub, Min: renderMin, APIs: []string{"gtet"},
		Gen: func(r *PRNG, s *Scen) {
			genUntilOK(r, s, func() {
				q := r.PickS("Density", "Density", "Velocity", "VelocityCurl", "VelocityDivergence", "DensityGradient")
				if q == "Density" || q == "Velocity" {
					genRender(r, s, q, "clump", "wave")
					genBoxes(r, s, r.Range(1, 4), 1, true)
				} else {
					genRender(r, s, q, "clump")
					s.S["vel"] = "seg"
					derivedBoxes(r, s)
				}
				if r.Chance(0.3) {
					s.I["auto"] = 1
				}
				s.I["fine"] = 0
				if (q == "Density" || q == "Velocity") && r.Chance(0.15) {
					// A small part of an image of the whole box.
					s.I["fine"], s.I["auto"], s.I["exact"] = 1, 0, 0
					s.I["px"] = r.Pick(300, 700, 1500, 2500)
					fineBoxes(r, s)
				} else if (q == "Density" || q == "Velocity") && r.Chance(0.35) {
					if r.Chance(0.5) {
						genAuto(r, s)
					} else {
						s.I["imagepx"] = r.Range(2, 24)
					}
				}
			})
			s.Variant = r.PickS("clean", "clean", "faulty", "cut")
			p := genProc(r, r.Range(1, 3))
			q := genProc(r, 1)
			benign(r, q)
			if s.Variant == "faulty" {
				q.IO.Faults = append(q.IO.Faults, &Fault{Op: r.PickS("read", "read", "open"), Nth: r.Range(1, 8), Count: r.Pick(1, 2, -1), Kind: r.PickS("EIO", "ESTALE", "EACCES")})
				if q.IO.Faults[len(q.IO.Faults)-1].Op == "read" && r.Chance(0.4) {
					q.IO.Faults[len(q.IO.Faults)-1].Kind = "eof"
				}
			}
			s.I["clients"] = r.Range(1, 3)
			for i, n := 0, r.Range(2, 10); i < n; i++ {
				s.Ops = append(s.Ops, r.Intn(1<<20))
			}
			s.Procs = []*Proc{p, q}
		},
		Run: runGtet,
	})

	register(&Prop{
		ID: "C16", Quick: 3500, Thorough: 28000,
		Rule:   "a run is one simulated render, histogram or conversion with between one and sixty workers - often more than there are cells to share - whose scheduler also stalls goroutines for random simulated times, in half of the runs under random faults anywhere; it must finish within the step bound whatever happens, and succeed exactly if no real fault was scheduled; non-trivial if two workers were runnable at once or a fault was hit",
		Assume: []string{"a run of more than 400 million yield points, or with no runnable goroutine and no pending timer, counts as stuck"},
		Real:   renderReal + "; the TetraHist and ConvertSnapshot commands", Stub: renderStub, Min: map[string]int{"seg": 1, "cells": 1, "px": 1, "pts": 1, "files": 1, "auto": 0, "log": 0, "affix": 0, "skip": 1},
		Gen: func(r *PRNG, s *Scen) {
			genDamage(r, s, r.PickS("Density", "Velocity"))
			p := genProc(r, r.Pick(1, 2, 3, 8, 16, 17, 33, 60))
			p.Sched.SleepProb = []float64{0, 0.001, 0.05, 0.3}[r.Intn(4)]
			s.Variant = r.PickS("healthy", "faulty", "threads")
			switch s.Variant {
			case "faulty":
				benign(r, p)
				for i, n := 0, r.Range(1, 3); i < n; i++ {
					f := &Fault{Op: r.PickS("read", "write", "open", "create", "readdir", "closew"), Nth: r.Range(1, 60), Count: r.Pick(1, 3, -1), Kind: r.PickS("EIO", "ENOSPC", "EMFILE", "ESTALE")}
					if f.Op == "closew" {
						f.Kind, f.Arg = "lost", 100
					}
					if f.Op == "read" && r.Chance(0.5) {
						// Configuration files cut short are valid shorter ones.
						f.Kind, f.Path = "eof", r.PickS("in/*", "in/*", "grid.gtet")
					}
					p.IO.Faults = append(p.IO.Faults, f)
				}
			case "threads":
				s.I["threads"] = r.Pick(0, 0, -1, 100)
			}
			s.Procs = []*Proc{p}
		},
		Run: func(x *Ctx, s *Scen) *Violation {
			_, setup, judge, ok := planEither(s)
			if !ok {
				return nil
			}
			x.shape = fmt.Sprint(s.I, s.S, s.Procs[0].Threads)
			args := setup(x)
			p := s.Procs[0]
			if s.Variant == "threads" {
				// A nonsensical number of workers must be refused, or work.
				p.Threads = 0
				args = append([]string{"-Threads", fmt.Sprint(s.I["threads"])}, args...)
			}
			res := x.Main(p, args...)
			if v := stuck(res); v != nil {
				return v
			}
			if !res.OK() {
				if s.Variant == "healthy" || s.Variant == "threads" && s.I["threads"] > 0 {
					return viol("healthy-run-fails", "%d workers, no faults: %s", p.Threads, res)
				}
				x.Probe("refused")
				return nil
			}
			if v := judge(x); v != nil {
				v.Class = "finished-wrong:" + v.Class
				v.Detail = fmt.Sprintf("with %d workers (%s, faults %v), %s", p.Threads+s.I["threads"], s.Variant, res.Faults, v.Detail)
				return v
			}
			return nil
		},
	})

	register(&Prop{
		ID: "C19", Quick: 4000, Thorough: 32000,
		Rule:   "a run is one simulated conversion, render or histogram of many files and regions, or a long history of healthy and failing reads of segment and grid files, in a process allowed only eight open files; it must not run out of them; non-trivial if there were more files than descriptors",
		Assume: []string{"eight descriptors besides the standard streams are enough for any command which does not leak"},
		Real:   renderReal + "; the TetraHist and ConvertSnapshot commands; the segment and grid readers", Stub: renderStub, APIs: []string{"gtet", "sheet"},
		Min: map[string]int{"seg": 1, "cells": 1, "px": 1, "pts": 1, "files": 1, "log": 0, "affix": 0, "skip": 1},
		Gen: genFDs,
		Run: runFDs,
	})
}

// fineBoxes makes every region a few pixels wide.
func fineBoxes(r *PRNG, s *Scen) {
	px := float64(s.I["px"])
	cw := s.F["L"] / px
	for i := range s.Boxes {
		b := &s.Boxes[i]
		b.Ball, b.Mult = false, 0
		for k := range b.O {
			o, w := r.Intn(s.I["px"]), r.Range(1, 6)
			a := float64(o) + r.Uniform(0.1, 0.4)
			b.O[k], b.W[k] = a*cw, (float64(o+w-1)+r.Uniform(0.6, 0.9)-a)*cw
		}
	}
}

func runGtet(x *Ctx, s *Scen) *Violation {
	d, rs, ok := plan(s)
	if !ok {
		return nil
	}
	x.shape = fmt.Sprint(s.I, s.S)
	res := x.Main(s.Procs[0], setupRender(x, s, d)...)
	if v := stuck(res); v != nil {
		return v
	}
	if !res.OK() {
		return viol("render-fails", "a render without faults fails: %s", res)
	}
	r := s.rng("files")
	var names []string
	var truth []*gtet
	var size, full []int
	for i := range rs {
		g := &rs[i]
		t, v := readGtet(x, s, d, g, "out")
		if v != nil {
			return v
		}
		name := "out/" + s.outName(g.spec.Name) + ".gtet"
		if v := judgeHeader(x, s, d, g, t, name); v != nil {
			return v
		}
		x.Probe("header-checked")
		b, _ := x.read(name)
		full = append(full, len(b))
		if s.Variant == "cut" && r.Chance(0.7) {
			b = b[:r.Intn(len(b))]
			x.write(name, b)
			x.Probe("truncated")
		}
		names, truth, size = append(names, name), append(truth, t), append(size, len(b))
	}
	type op struct{ Op, File string }
	ops := make([][]op, s.I["clients"])
	which := make([][]int, s.I["clients"])
	for _, o := range s.Ops {
		q := newPRNG(uint64(o))
		c, f := q.Intn(len(ops)), q.Intn(len(names))
		ops[c] = append(ops[c], op{q.PickS("header", "grid", "grid"), names[f]})
		which[c] = append(which[c], f)
	}
	res = x.API(s.Procs[1], "gtet", map[string]interface{}{"Ops": ops})
	if v := stuck(res); v != nil {
		return v
	}
	if !res.OK() {
		return viol("reader-aborts", "reading grids ended the process: %s", res)
	}
	var out [][]struct {
		Err, Panic string
		Hd         *gridHd
		Bits       []uint64
	}
	check(json.Unmarshal(res.Data, &out))
	for c := range ops {
		for i, o := range ops[c] {
			a, f := out[c][i], which[c][i]
			t := truth[f]
			failed := a.Err != "" || a.Panic != ""
			vector := len(t.grid) == 3
			if failed {
				x.Probe("refused-" + o.Op)
			}
			good := size[f] == full[f]
			if o.Op == "header" {
				good = size[f] >= gtetHeaderSize
			} else if vector {
				good = false
			}
			if failed {
				if good && s.Variant != "faulty" {
					return viol("good-grid-refused", "%s of %s: %s%s", o.Op, o.File, a.Err, a.Panic)
				}
				continue
			}
			if !good {
				return viol("damaged-grid-accepted", "%s of %s (%d of %d bytes, vector %v) was read without an error", o.Op, o.File, size[f], full[f], vector)
			}
			if o.Op == "header" {
				h := &t.hd
				want := &gridHd{EndiannessVersion: h.EndiannessVersion, Loc: h.Loc, Vel: h.Vel}
				want.Type.HeaderSize, want.Type.GridType, want.Type.IsVectorGrid = h.HeaderSize, h.GridType, h.IsVectorGrid
				wc := &want.Cosmo
				wc.Redshift, wc.ScaleFactor, wc.OmegaM, wc.OmegaL, wc.Hubble, wc.RhoMean, wc.RhoCritical, wc.BoxWidth = h.Redshift, h.ScaleFactor, h.OmegaM, h.OmegaL, h.Hubble, h.RhoMean, h.RhoCritical, h.BoxWidth
				wr := &want.Render
				wr.Particles, wr.TotalPixels, wr.SubsampleLength, wr.MinProjectionDepth, wr.ProjectionAxis = h.Particles, h.TotalPixels, h.SubsampleLength, h.MinProjectionDepth, h.ProjectionAxis
				if a.Hd == nil || *a.Hd != *want {
					return viol("wrong-grid-header", "header of %s reads %+v, the file holds %+v", o.File, a.Hd, *want)
				}
				continue
			}
			if len(a.Bits) != len(t.grid[0]) {
				return viol("wrong-grid", "%s reads as %d values, the file holds %d", o.File, len(a.Bits), len(t.grid[0]))
			}
			for j, b := range a.Bits {
				if math.Float64frombits(b) != float64(t.grid[0][j]) {
					return viol("wrong-grid", "%s: value %d reads as %g, the file holds %g (faults %v)", o.File, j, math.Float64frombits(b), t.grid[0][j], res.Faults)
				}
			}
			x.Probe("grid-read-back")
		}
	}
	return nil
}

// ------------------------------------------------------------- C19

const fewFDs = 8

func genFDs(r *PRNG, s *Scen) {
	s.Variant = r.PickS("convert", "render", "hist", "reads", "reads")
	p := genProc(r, r.Range(1, 4))
	p.IO.MaxFDs = fewFDs
	if r.Chance(0.5) {
		benign(r, p)
	}
	switch s.Variant {
	case "convert":
		genSnap(r, s, false)
		s.I["files"] = r.Range(8, 30)
		fixSnap(s)
	case "render", "hist":
		s.I["hist"] = 0
		gen := func() {
			if s.Variant == "hist" {
				genHist(r, s, "clump")
				s.I["hist"] = 1
			} else {
				genRender(r, s, r.PickS("Density", "Velocity"), "clump")
			}
			s.I["cells"], s.I["skip"] = r.Range(2, 4), 1
			s.I["seg"] = 1
			s.I["px"] = r.Pick(4, 7, 8)
			genBoxes(r, s, r.Range(1, 14), 1, s.Variant == "render")
		}
		if s.Variant == "render" {
			genUntilOK(r, s, gen)
		} else {
			for t := 0; ; t++ {
				gen()
				if _, _, ok := planHist(s); ok {
					break
				}
				if t > 200 {
					infra("no admissible C19 scenario")
				}
			}
		}
	case "reads":
		for i, n := 0, r.Range(20, 80); i < n; i++ {
			s.Ops = append(s.Ops, r.Intn(1<<20))
		}
		if r.Chance(0.5) {
			p.IO.Faults = append(p.IO.Faults, &Fault{Op: "read", Prob: 0.3, Kind: r.PickS("EIO", "eof")})
		}
	}
	s.Procs = []*Proc{p}
}

func runFDs(x *Ctx, s *Scen) *Violation {
	p := s.Procs[0]
	x.shape = fmt.Sprint(s.I, s.S)
	leak := func(r *StepResult, what string) *Violation {
		return viol("descriptors", "%s runs out of %d file descriptors: %s", what, fewFDs, r)
	}
	switch s.Variant {
	case "convert":
		fixSnap(s)
		sn := makeSnap(s)
		sn.write(x, "in")
		x.write("c.cfg", sn.config(s, "in", "out"))
		r := x.Main(p, "-ConvertSnapshot", "c.cfg")
		if v := stuck(r); v != nil {
			return v
		}
		if !r.OK() {
			return leak(r, fmt.Sprintf("a conversion of %d files into %d segments", len(sn.files), sn.cells*sn.cells*sn.cells))
		}
		if len(sn.files) > fewFDs || sn.cells > 2 {
			x.Probe("more-files-than-descriptors")
		}
		return sn.verify(x, "out")
	case "render", "hist":
		d, setup, judge, ok := planEither(s)
		if !ok {
			return nil
		}
		r := x.Main(p, setup(x)...)
		if v := stuck(r); v != nil {
			return v
		}
		if !r.OK() {
			return leak(r, fmt.Sprintf("a %s of %d segments and %d regions", s.Variant, len(d.segs), len(s.Boxes)))
		}
		if len(d.segs) > fewFDs || len(s.Boxes) > fewFDs {
			x.Probe("more-files-than-descriptors")
		}
		return judge(x)
	}
	// A history of reads, most of which fail.
	r := s.rng("reads")
	sh := randSheet(r, 2)
	good := sheetBytes(&sh.hd, sh.xs, sh.vs, binary.LittleEndian)
	x.write("good.dat", good)
	x.write("cut.dat", good[:r.Intn(len(good))])
	x.write("cuthd.dat", good[:r.Intn(8+sheetHeaderSize)])
	bad := append([]byte{}, good...)
	bad[0] = 3
	x.write("flag.dat", bad)
	bad = append([]byte{}, good...)
	bad[4]++
	x.write("size.dat", bad)
	gt := &gtet{}
	gt.hd.EndiannessVersion, gt.hd.ProjectionAxis = gtetVersionFlagLE, -1
	gt.hd.Loc.PixelSpan = [3]int64{2, 3, 4}
	gt.grid = [][]float32{make([]float32, 24)}
	gb := gtetBytes(gt)
	x.write("good.gtet", gb)
	x.write("cut.gtet", gb[:r.Intn(len(gb))])
	gt.hd.IsVectorGrid = 1
	x.write("vector.gtet", gtetBytes(gt))
	var sops []sheetOp
	type op struct{ Op, File string }
	var gops []op
	for _, o := range s.Ops {
		q := newPRNG(uint64(o))
		sops = append(sops, sheetOp{Op: q.PickS("header", "pos", "vel"), File: q.PickS("good", "cut", "cuthd", "flag", "size", "none") + ".dat", N: 8 + q.Pick(0, 0, 0, 1)})
		gops = append(gops, op{q.PickS("header", "grid"), q.PickS("good", "cut", "vector", "none") + ".gtet"})
	}
	full := func(e string) bool {
		e = strings.ToLower(e)
		return strings.Contains(e, "too many open files") || strings.Contains(e, "emfile")
	}
	res := x.API(p, "sheet", map[string]interface{}{"Clients": [][]sheetOp{sops}})
	if !res.OK() {
		if full(res.Stderr + res.Panic) {
			return leak(res, "reading segments")
		}
		return viol("reader-aborts", "reading segments ended the process: %s", res)
	}
	var out [][]sheetRes
	check(json.Unmarshal(res.Data, &out))
	for i, a := range out[0] {
		if full(a.Err + a.Panic) {
			return viol("descriptors", "after %d operations on segment files, %s of %s fails: %s", i, sops[i].Op, sops[i].File, a.Err+a.Panic)
		}
	}
	res = x.API(p, "gtet", map[string]interface{}{"Ops": [][]op{gops}})
	if !res.OK() {
		return leak(res, "reading grids")
	}
	var gout [][]struct{ Err, Panic string }
	check(json.Unmarshal(res.Data, &gout))
	for i, a := range gout[0] {
		if full(a.Err + a.Panic) {
			return viol("descriptors", "after %d reads of grid files, %s of %s fails: %s", i, gops[i].Op, gops[i].File, a.Err+a.Panic)
		}
	}
	x.Probe("many-reads")
	return nil
}
