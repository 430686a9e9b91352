package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"sort"
	"strings"
)

// snap is a synthetic Gadget-2 snapshot and, independently computed, what its
// conversion must look like.
type snap struct {
	n, cells   int
	width      float64 // simulation box, input units
	xu, vu, mu float64
	a, z       float64
	om, ol, h  float64
	mass       float64
	xs, vs     [][3]float64 // by particle id - 1, as written
	x64, v64   bool
	idSize     int
	reach      float64 // largest displacement from the lattice, input units
	files      []*gadgetFile
	names      []string
}

// genSnap draws the parameters of a snapshot into the scenario.
func genSnap(r *PRNG, s *Scen, big bool) {
	cells := r.Pick(1, 2, 2, 3, 4)
	seg := r.Range(1, 4)
	if big && r.Chance(0.25) {
		// More particles than the particle buffer holds.
		cells, seg = r.Pick(2, 4), r.Pick(4, 5)
		if cells == 2 {
			seg = r.Pick(8, 9)
		}
	}
	if big && r.Chance(0.03) {
		cells, seg = r.Pick(11, 12), 1
	}
	s.I["cells"], s.I["seg"] = cells, seg
	n := cells * seg
	s.I["files"] = r.Range(1, 6)
	if r.Chance(0.1) {
		s.I["files"] = r.Range(26, 60)
	}
	if s.I["files"] > n*n*n {
		s.I["files"] = n * n * n
	}
	s.I["part"] = r.Intn(4)
	s.I["x64"], s.I["v64"] = r.Intn(2), r.Intn(2)
	s.I["id64"] = r.Intn(2)
	s.I["wild"] = r.Intn(2) // positions slightly outside the box
	if r.Chance(0.2) {
		s.I["edge"] = 1 // positions exactly on its faces
	}
	s.F["width"] = []float64{1, 100, 62.5, 500, 125000}[r.Intn(5)]
	s.F["xu"] = []float64{1, 1, 1e-3, 2.5}[r.Intn(4)]
	s.F["vu"] = []float64{1, 1, 1e-3, 3}[r.Intn(4)]
	s.F["mu"] = []float64{1, 1e10}[r.Intn(2)]
	s.F["a"] = []float64{1, 0.5, 0.25, 0.01}[r.Intn(4)]
	s.F["amp"] = []float64{0, 0.3, 1, 2}[r.Intn(4)]
}

func makeSnap(s *Scen) *snap { return makeSnapN(s, 0) }

// makeSnapN makes variation k of the scenario's snapshot.
func makeSnapN(s *Scen, k int) *snap {
	r := s.rng(fmt.Sprintf("snap%d", k))
	sn := &snap{n: s.I["cells"]*s.I["seg"] + s.I["extra"], cells: s.I["cells"], width: s.F["width"],
		xu: s.F["xu"], vu: s.F["vu"], mu: s.F["mu"], a: s.F["a"]}
	sn.z = 1/sn.a - 1
	sn.om, sn.ol, sn.h = r.Uniform(0.1, 0.5), r.Uniform(0.5, 0.9), r.Uniform(0.6, 0.8)
	sn.mass = r.Uniform(0.01, 10)
	sn.x64, sn.v64 = s.I["x64"] == 1, s.I["v64"] == 1
	sn.idSize = 32 + 32*(s.I["id64"]&1)
	n := sn.n
	np := n * n * n
	sn.xs, sn.vs = make([][3]float64, np), make([][3]float64, np)
	dx := sn.width / float64(n)
	amp := s.F["amp"]
	if amp > float64(n)/4 {
		amp = float64(n) / 4
	}
	sn.reach = (amp + 0.25) * dx
	var phase [3]float64
	for j := range phase {
		phase[j] = r.Float() * 2 * math.Pi
	}
	off := [3]float64{r.Uniform(0, sn.width), r.Uniform(0, sn.width), r.Uniform(0, sn.width)}
	for z := 0; z < n; z++ {
		for y := 0; y < n; y++ {
			for x := 0; x < n; x++ {
				i := x + n*y + n*n*z
				q := [3]float64{float64(x), float64(y), float64(z)}
				for j := 0; j < 3; j++ {
					d := amp*math.Sin(2*math.Pi*q[(j+1)%3]/float64(n)+phase[j]) + r.Uniform(-0.25, 0.25)
					p := off[j] + (q[j]+d)*dx
					p = math.Mod(math.Mod(p, sn.width)+sn.width, sn.width)
					// Keep clear of the box edge, so that rounding never
					// decides on which side a particle is.
					if p < 1e-4*sn.width {
						p = 1e-4 * sn.width
					}
					if p > (1-1e-4)*sn.width {
						p = (1 - 1e-4) * sn.width
					}
					if s.I["wild"] == 1 && r.Chance(0.02) {
						// Positions just outside are meant to be wrapped.
						if p < sn.width/2 {
							p += sn.width
						} else {
							p -= sn.width
						}
					}
					if s.I["edge"] == 1 && sn.width == float64(float32(sn.width)) && r.Chance(0.05) {
						// All of these are exact in single precision.
						switch {
						case p < sn.width/2 && r.Chance(0.3):
							p = -1e-9 * sn.width
						case p < sn.width/2:
							p = 0
						case r.Chance(0.5):
							p = sn.width
						default:
							p = float64(math.Nextafter32(float32(sn.width), 0))
						}
					}
					sn.xs[i][j] = p
					sn.vs[i][j] = r.Uniform(-600, 600)
				}
			}
		}
	}

	// Partition into files.
	nf := s.I["files"]
	owner := make([]int, np)
	switch s.I["part"] {
	case 0: // contiguous blocks, uneven
		cuts := make([]int, nf-1)
		for i := range cuts {
			cuts[i] = r.Intn(np + 1)
		}
		sort.Ints(cuts)
		f := 0
		for i := range owner {
			for f < len(cuts) && i >= cuts[f] {
				f++
			}
			owner[i] = f
		}
	case 1: // round robin
		for i := range owner {
			owner[i] = i % nf
		}
	default: // random, as a domain decomposition gives
		for i := range owner {
			owner[i] = r.Intn(nf)
		}
	}
	order := r.Perm(np)
	if s.I["part"] == 0 {
		for i := range order {
			order[i] = i
		}
	}
	for f := 0; f < nf; f++ {
		g := &gadgetFile{x64: sn.x64, v64: sn.v64, idSize: sn.idSize, noTailMarker: r.Chance(0.2)}
		sn.files = append(sn.files, g)
		sn.names = append(sn.names, fmt.Sprintf("snap_%03d.%d", 7+k, f))
	}
	for _, i := range order {
		g := sn.files[owner[i]]
		g.xs = append(g.xs, sn.xs[i])
		g.vs = append(g.vs, sn.vs[i])
		g.ids = append(g.ids, int64(i+1))
	}
	for _, g := range sn.files {
		g.hd = gadgetHeader{Time: sn.a, Redshift: sn.z, BoxSize: sn.width, Omega0: sn.om,
			OmegaLambda: sn.ol, HubbleParam: sn.h, NumFiles: int32(nf)}
		g.hd.NPart[1] = uint32(len(g.ids))
		g.hd.NPartTotal[1] = uint32(np)
		g.hd.Mass[1] = sn.mass
	}
	return sn
}

func (sn *snap) write(x *Ctx, dir string) {
	x.mkdir(dir)
	for i, g := range sn.files {
		x.write(dir+"/"+sn.names[i], g.bytes(binary.LittleEndian))
	}
}

// expected returns the position and velocity of particle i (x-fastest grid
// index) in output units.
func (sn *snap) expected(i int) (x, v [3]float64) {
	for k := 0; k < 3; k++ {
		p := sn.xs[i][k]
		if !sn.x64 {
			p = float64(float32(p))
		}
		if p < 0 {
			p += sn.width
		} else if p >= sn.width {
			p -= sn.width
		}
		x[k] = p * sn.xu
		w := sn.vs[i][k]
		v[k] = w * math.Sqrt(sn.a) * sn.vu
	}
	return x, v
}

func (sn *snap) config(s *Scen, in, out string) []byte {
	b := &strings.Builder{}
	fmt.Fprintf(b, "[ConvertSnapshot]\nInput = %s\nOutput = %s\nInputFormat = %s\nCells = %d\n",
		in, out, []string{"LGadget-2", "Arepo-type-2"}[s.Seed&1], sn.cells)
	fmt.Fprintf(b, "Gadget2IDSize = %d\n", sn.idSize)
	if sn.xu != 1 {
		fmt.Fprintf(b, "XUnits = %g\n", sn.xu)
	}
	if sn.vu != 1 {
		fmt.Fprintf(b, "VUnits = %g\n", sn.vu)
	}
	if sn.mu != 1 {
		fmt.Fprintf(b, "MUnits = %g\n", sn.mu)
	}
	return []byte(b.String())
}

// verify compares a directory of converted segments with the snapshot.
func (sn *snap) verify(x *Ctx, dir string) *Violation {
	files := x.tree(dir)
	want := sn.cells * sn.cells * sn.cells
	if len(files) != want {
		return viol("segment-count", "%d segment files for Cells = %d: %v", len(files), sn.cells, trunc(keys(files)))
	}
	seg := sn.n / sn.cells
	gw := seg + 1
	L := sn.width * sn.xu
	seen := map[int64]string{}
	for _, name := range keys(files) {
		sh, err := parseSheet(files[name])
		if err != nil {
			return viol("segment-format", "%s: %v", name, err)
		}
		h := &sh.hd
		if p, ok := seen[h.Idx]; ok || h.Idx < 0 || h.Idx >= int64(want) {
			return viol("segment-index", "%s has index %d (also in %q)", name, h.Idx, p)
		}
		seen[h.Idx] = name
		if h.Cells != int64(sn.cells) || h.SegmentWidth != int64(seg) || h.GridWidth != int64(gw) ||
			h.GridCount != int64(gw*gw*gw) || h.CountWidth != int64(sn.n) {
			return viol("segment-header", "%s: geometry %+v for %d particles across", name, *h, sn.n)
		}
		if h.Cosmo != (cosmoHeader{sn.z, sn.om, sn.ol, sn.h}) {
			return viol("segment-header", "%s: cosmology %+v", name, h.Cosmo)
		}
		if !closeTo(h.Mass, sn.mass*sn.mu, 1e-9) {
			return viol("segment-header", "%s: particle mass %g, not %g", name, h.Mass, sn.mass*sn.mu)
		}
		if !closeTo(h.TotalWidth, L, 1e-6) {
			return viol("segment-boxwidth", "%s: box width %g in a snapshot whose positions span %g", name, h.TotalWidth, L)
		}
		c := int64(sn.cells)
		o := [3]int{int(h.Idx%c) * seg, int(h.Idx/c%c) * seg, int(h.Idx/(c*c)) * seg}
		for i := range sh.xs {
			g := [3]int{i % gw, i / gw % gw, i / (gw * gw)}
			p := 0
			for k := 2; k >= 0; k-- {
				p = p*sn.n + (o[k]+g[k])%sn.n
			}
			ex, ev := sn.expected(p)
			for k := 0; k < 3; k++ {
				if math.Abs(float64(sh.xs[i][k])-ex[k]) > 1e-6*L {
					return viol("particle-position", "%s: grid point %v (particle %d) is at %v, not %v", name, g, p+1, sh.xs[i], ex)
				}
				if math.Abs(float64(sh.vs[i][k])-ev[k]) > 2e-6*600*sn.vu {
					return viol("particle-velocity", "%s: grid point %v (particle %d) moves at %v, not %v", name, g, p+1, sh.vs[i], ev)
				}
				// Velocity bounds.
				v := float64(sh.vs[i][k])
				vo := float64(h.VelocityOrigin[k])
				if d := 1e-4 * 600 * sn.vu; v < vo-d || v > vo+float64(h.VelocityWidth[k])+d {
					return viol("velocity-bounds", "%s: velocity %v outside the recorded bounds %v + %v", name, sh.vs[i], h.VelocityOrigin, h.VelocityWidth)
				}
			}
		}
		// Velocity bounds are tight.
		for k := 0; k < 3; k++ {
			lo, hi := math.Inf(1), math.Inf(-1)
			for _, v := range sh.vs {
				lo, hi = math.Min(lo, float64(v[k])), math.Max(hi, float64(v[k]))
			}
			vo := float64(h.VelocityOrigin[k])
			if d := 1e-4 * 600 * sn.vu; !(math.Abs(vo-lo) <= d && math.Abs(vo+float64(h.VelocityWidth[k])-hi) <= d) {
				return viol("velocity-bounds", "%s: recorded bounds %v + %v; velocities along axis %d run from %g to %g", name, h.VelocityOrigin, h.VelocityWidth, k, lo, hi)
			}
		}
		// Position bounds: guaranteed when a segment spans less than half
		// the box.
		if (float64(seg)+2*sn.reach/sn.width*float64(sn.n))/float64(sn.n) < 0.45 {
			x.Probe("bounds-checked")
			for k := 0; k < 3; k++ {
				ow := float64(h.Origin[k])
				if !(ow >= 0 && ow < L*(1+1e-6)) {
					return viol("segment-bounds", "%s: bounding box origin %v in a box of %g", name, h.Origin, L)
				}
				ext := 0.0
				for i := range sh.xs {
					d := math.Mod(float64(sh.xs[i][k])-ow+2*L, L)
					if d > L*(1-1e-5) {
						d -= L
					}
					if d > float64(h.Width[k])+1e-5*L {
						return viol("segment-bounds", "%s: particle at %v outside the recorded bounding box %v + %v (box width %g)", name, sh.xs[i], h.Origin, h.Width, L)
					}
					if d > ext {
						ext = d
					}
				}
				if float64(h.Width[k]) > ext+1e-4*L {
					return viol("segment-bounds", "%s: bounding box width %v is not minimal (%g in dimension %d)", name, h.Width, ext, k)
				}
			}
		}
	}
	return nil
}

func trunc(s []string) []string {
	if len(s) > 12 {
		return append(s[:12:12], "...")
	}
	return s
}

func stuck(r *StepResult) *Violation {
	if r.Outcome == "deadlock" || r.Outcome == "livelock" {
		return viol("stuck", "the command neither finished nor failed: %s after %d yield points", r.Outcome, r.Sched.Yields)
	}
	return nil
}

const convReal = "the complete gotetra ConvertSnapshot command (flag and config parsing, gcfg, snapshot reader, particle buffer, segment writer), Go's os and log packages"
const convStub = "system calls below package os (fault layer over a private scratch directory), goroutine scheduler, clock, runtime random source, garbage collector, CPU count"

var convMin = map[string]int{"seg": 1, "cells": 1, "files": 1, "part": 0, "x64": 0, "v64": 0, "wild": 0, "extra": 0, "stale": 0, "edge": 0, "old": 0}

func fixSnap(s *Scen) {
	n := s.I["cells"]*s.I["seg"] + s.I["extra"]
	if s.I["files"] > n*n*n {
		s.I["files"] = n * n * n
	}
}

func init() {
	register(&Prop{
		ID: "C01", Quick: 4000, Thorough: 32000,
		Rule:   "a run is one simulated conversion (or one history of the particle buffer) of a random snapshot: random grid, file partition, particle order, precisions and units, under random short reads and writes, interrupted calls and piecemeal directory listings; non-trivial if a fault fired or a probe was hit, distinct by execution hash",
		Assume: []string{"little endian snapshot headers", "segments spanning less than half the box for the position bounds", "fewer than 2^31 particles"},
		Real:   convReal, Stub: convStub, Min: convMin, APIs: []string{"pbuf"},
		Gen: func(r *PRNG, s *Scen) {
			if r.Chance(0.2) {
				s.Variant = "buffer"
				s.I["n"] = r.Range(1, 9)
				s.I["buf"] = r.Range(1, 40)
				for i, n := 0, r.Range(1, 30); i < n; i++ {
					s.Ops = append(s.Ops, r.Pick(-1, 0, 1, 1, 2, 3, 5, 17, 40, 100))
				}
				s.Procs = []*Proc{genProc(r, 1)}
				return
			}
			s.Variant = "convert"
			genSnap(r, s, true)
			p := genProc(r, r.Range(1, 4))
			benign(r, p)
			s.I["stale"] = r.Intn(3)
			if s.I["cells"] > 1 && r.Chance(0.06) {
				s.I["extra"] = r.Range(1, s.I["cells"]-1)
			}
			s.Procs = []*Proc{p}
		},
		Run: func(x *Ctx, s *Scen) *Violation {
			if s.Variant == "buffer" {
				return runPBuf(x, s)
			}
			fixSnap(s)
			sn := makeSnap(s)
			sn.write(x, "in")
			switch s.I["stale"] {
			case 1: // output directory exists
				x.mkdir("out")
			case 2: // an older, larger result is in the way
				if sn.cells <= 4 {
					for z := 0; z < sn.cells; z++ {
						x.write(fmt.Sprintf("out/sheet%d%d%d.dat", z, 0, 0), make([]byte, 100000))
					}
				}
			}
			x.write("c.cfg", sn.config(s, "in", "out"))
			r := x.Main(s.Procs[0], "-ConvertSnapshot", "c.cfg")
			x.shape = fmt.Sprint(s.I)
			if v := stuck(r); v != nil {
				return v
			}
			if sn.n%sn.cells != 0 {
				// The sheet cannot be cut into equal segments.
				if r.OK() {
					return viol("particles-dropped", "%d particles across were converted into %d segments across; the remainder is lost", sn.n, sn.cells)
				}
				x.Probe("indivisible-refused")
				return nil
			}
			if !r.OK() {
				return viol("convert-fails", "a conversion without real faults fails: %s", r)
			}
			if sn.n*sn.n*sn.n > 4096 {
				x.Probe("buffer-overflowed")
			}
			return sn.verify(x, "out")
		},
	})

	register(&Prop{
		ID: "C02", Quick: 12000, Thorough: 96000,
		Rule:   "a run is one simulated conversion with one or two input-side faults (read errors, premature end of file, files truncated at an arbitrary byte, missing, duplicated or empty files, open and directory errors), possibly with short reads; whenever the command claims success the output must be complete and exact; non-trivial if the fault fired or the input was damaged",
		Assume: []string{"a file whose bytes changed but whose size did not is undetectable in this format"},
		Real:   convReal, Stub: convStub, Min: convMin,
		Gen: func(r *PRNG, s *Scen) {
			genSnap(r, s, r.Chance(0.2))
			p := genProc(r, 1)
			if r.Chance(0.4) {
				benign(r, p)
			}
			s.Variant = r.PickS("read-error", "read-error", "eof", "eof", "truncate", "truncate", "truncate", "missing", "duplicate", "empty", "open-error", "readdir-error", "count-lie", "count-lie", "swap", "foreign", "not-a-cube", "bad-id", "bad-value", "bad-value", "id-size", "npart-lie", "marker", "marker")
			switch s.Variant {
			case "swap", "foreign", "npart-lie":
				// Files which hold (nearly) equally many particles.
				s.I["part"] = 1
				if s.I["files"] == 1 {
					s.I["files"] = 2
				}
			}
			nf := s.I["files"]
			switch s.Variant {
			case "read-error":
				p.IO.Faults = append(p.IO.Faults, &Fault{Op: "read", Path: "in/*", Nth: r.Range(1, 14*nf+6), Count: r.Pick(1, 1, -1), Kind: r.PickS("EIO", "ESTALE")})
			case "eof":
				p.IO.Faults = append(p.IO.Faults, &Fault{Op: "read", Path: "in/*", Nth: r.Range(1, 14*nf+6), Count: r.Pick(1, -1), Kind: "eof"})
			case "open-error":
				p.IO.Faults = append(p.IO.Faults, &Fault{Op: "open", Path: "in/*", Nth: r.Range(1, 2*nf), Count: r.Pick(1, -1), Kind: r.PickS("EMFILE", "EACCES", "EIO", "ENOENT")})
			case "readdir-error":
				p.IO.Faults = append(p.IO.Faults, &Fault{Op: "readdir", Path: "in", Nth: r.Range(1, 2), Kind: "EIO"})
			}
			s.F["where"] = r.Float()
			switch s.Variant {
			case "read-error", "eof", "open-error", "readdir-error":
				more(r, p, r.PickS("read", "read", "open"), "in", lastDigit, []string{"EIO"})
			}
			s.Procs = []*Proc{p}
		},
		Run: func(x *Ctx, s *Scen) *Violation {
			fixSnap(s)
			sn := makeSnap(s)
			sn.write(x, "in")
			r := s.rng("damage")
			victim := sn.names[r.Intn(len(sn.names))]
			switch s.Variant {
			case "truncate":
				b, err := x.read("in/" + victim)
				check(err)
				cut := int(s.F["where"] * float64(len(b)))
				if r.Chance(0.3) {
					cut = len(b) - 1 - r.Intn(40)
				}
				if cut < 0 {
					cut = 0
				}
				x.write("in/"+victim, b[:cut])
				x.Probe("truncated")
			case "missing":
				if len(sn.names) == 1 || len(sn.files[indexOf(sn.names, victim)].ids) == 0 {
					return nil
				}
				check(os.Remove(x.path("in/" + victim)))
				x.Probe("missing")
			case "duplicate":
				if len(sn.files[indexOf(sn.names, victim)].ids) == 0 {
					return nil
				}
				b, err := x.read("in/" + victim)
				check(err)
				if r.Chance(0.5) && len(sn.names) > 1 {
					// In place of another file.
					other := sn.names[r.Intn(len(sn.names))]
					if other != victim && len(sn.files[indexOf(sn.names, other)].ids) > 0 && len(sn.files[indexOf(sn.names, other)].ids) != len(sn.files[indexOf(sn.names, victim)].ids) {
						x.write("in/"+other, b)
						x.Probe("replaced")
						break
					}
				}
				x.write("in/"+victim+"~", b)
				x.Probe("duplicate")
				// The same particles twice: harmless if they are accepted,
				// since the output is still exact.
			case "empty":
				x.write("in/"+victim, nil)
				x.Probe("empty")
			case "count-lie":
				// A snapshot whose total does not match what its files hold.
				kind := r.Intn(4)
				one := r.Intn(len(sn.files))
				if r.Chance(0.5) {
					one = -1
				}
				for i, g := range sn.files {
					if one >= 0 && one != i {
						continue // all files, or just one
					}
					n := sn.n + 1
					switch kind {
					case 0:
						g.hd.NPartTotal[1] = uint32(n * n * n)
					case 1: // the upper half of the 64 bit total
						g.hd.NPartTotal[0] = uint32(r.Range(1, 20))
					case 2:
						g.hd.NPartTotal[1] = uint32((n - 2) * (n - 2) * (n - 2))
					case 3:
						g.hd.NPartTotal[1] += uint32(r.Pick(-1, 1, 7))
					}
					x.write("in/"+sn.names[i], g.bytes(binary.LittleEndian))
				}
				x.Probe("count-lie")
			case "swap":
				// A copy of a file in place of another one of the same size.
				i := indexOf(sn.names, victim)
				j := (i + 1) % len(sn.names)
				if i == j || len(sn.files[i].ids) == 0 || len(sn.files[i].ids) != len(sn.files[j].ids) {
					return nil
				}
				b, err := x.read("in/" + victim)
				check(err)
				x.write("in/"+sn.names[j], b)
				x.Probe("swapped")
			case "foreign":
				// The same file of a later snapshot.
				i := indexOf(sn.names, victim)
				if len(sn.files) < 2 || len(sn.files[i].ids) == 0 {
					return nil
				}
				g := *makeSnapN(s, 1).files[i]
				g.hd = sn.files[i].hd
				// ... or of another run: one field tells the two apart.
				switch r.Intn(7) {
				case 0, 1:
					g.hd.Time *= 0.75
					g.hd.Redshift = 1/g.hd.Time - 1
				case 2:
					g.hd.Redshift += []float64{0.001, 0.004, 0.02, 0.1}[r.Intn(4)]
					g.hd.Time = 1 / (1 + g.hd.Redshift)
				case 3:
					g.hd.Omega0 += []float64{0.001, 0.01}[r.Intn(2)]
				case 4:
					g.hd.OmegaLambda += []float64{0.001, 0.01}[r.Intn(2)]
				case 5:
					g.hd.HubbleParam += []float64{0.001, 0.01}[r.Intn(2)]
				case 6:
					g.hd.Mass[1] *= []float64{0.99, 1.01, 8}[r.Intn(3)]
				}
				x.write("in/"+victim, g.bytes(binary.LittleEndian))
				x.Probe("foreign")
			case "not-a-cube":
				// Consistent, but not a lattice.
				g := sn.files[indexOf(sn.names, victim)]
				np := sn.n * sn.n * sn.n
				total := np
				if sn.n > 1 && r.Chance(0.4) {
					for _, g := range sn.files {
						for k, id := range g.ids {
							if int(id) == np {
								g.ids = append(g.ids[:k:k], g.ids[k+1:]...)
								g.xs = append(g.xs[:k:k], g.xs[k+1:]...)
								g.vs = append(g.vs[:k:k], g.vs[k+1:]...)
								break
							}
						}
					}
					total--
				} else {
					k := r.Pick(1, 1, 2, 3)
					if sn.n == 1 {
						k = r.Range(1, 2)
					}
					for i := 0; i < k; i++ {
						total++
						g.ids = append(g.ids, int64(total))
						g.xs = append(g.xs, sn.xs[r.Intn(np)])
						g.vs = append(g.vs, sn.vs[r.Intn(np)])
					}
				}
				for i, g := range sn.files {
					g.hd.NPart[1] = uint32(len(g.ids))
					g.hd.NPartTotal[1] = uint32(total)
					x.write("in/"+sn.names[i], g.bytes(binary.LittleEndian))
				}
				x.Probe("not-a-cube")
			case "bad-value":
				// A position or velocity which is not a number of this box.
				g := sn.files[indexOf(sn.names, victim)]
				if len(g.ids) == 0 {
					return nil
				}
				i, k := r.Intn(len(g.ids)), r.Intn(3)
				vals := []float64{math.NaN(), math.Inf(1), math.Inf(-1)}
				if v := vals[r.Intn(3)]; r.Chance(0.3) {
					g.vs[i][k] = v
				} else if r.Chance(0.4) {
					g.xs[i][k] = v
				} else {
					w := []float64{-300, -3, -1.5, 2.5, 3, 1e9}[r.Intn(6)]
					g.xs[i][k] = w * sn.width
				}
				x.write("in/"+victim, g.bytes(binary.LittleEndian))
				x.Probe("bad-value")
			case "marker":
				// The size which precedes or follows a block is damaged.
				g := sn.files[indexOf(sn.names, victim)]
				b, err := x.read("in/" + victim)
				check(err)
				nx, nv, ni := 12*len(g.ids), 12*len(g.ids), len(g.ids)*g.idSize/8
				if g.x64 {
					nx *= 2
				}
				if g.v64 {
					nv *= 2
				}
				at := []int{0, 260, 264, 268 + nx, 272 + nx, 276 + nx + nv, 280 + nx + nv, 284 + nx + nv + ni}
				i := at[r.Pick(r.Intn(8), 2, 4)]
				if i+4 > len(b) {
					return nil
				}
				n := int32(binary.LittleEndian.Uint32(b[i:]))
				n = []int32{0, -n, n / 2, n * 2, n + 4, n - 12, n << 8, int32(r.Next())}[r.Intn(8)]
				binary.LittleEndian.PutUint32(b[i:], uint32(n))
				x.write("in/"+victim, b)
				x.Probe("marker")
			case "id-size":
				// The configuration and the files disagree about the ids.
				sn.idSize = 96 - sn.idSize
				x.Probe("id-size")
			case "npart-lie":
				// The totals agree, but two files claim each other's particles.
				i := indexOf(sn.names, victim)
				j := (i + 1) % len(sn.names)
				if i == j || len(sn.files[i].ids) == 0 {
					return nil
				}
				n := uint32(r.Range(1, len(sn.files[i].ids)))
				sn.files[i].hd.NPart[1] -= n
				sn.files[j].hd.NPart[1] += n
				x.write("in/"+sn.names[i], sn.files[i].bytes(binary.LittleEndian))
				x.write("in/"+sn.names[j], sn.files[j].bytes(binary.LittleEndian))
				x.Probe("npart-lie")
			case "bad-id":
				g := sn.files[indexOf(sn.names, victim)]
				if len(g.ids) == 0 {
					return nil
				}
				np := sn.n * sn.n * sn.n
				k := r.Intn(len(g.ids))
				old := g.ids[k]
				for g.ids[k] == old {
					g.ids[k] = int64(r.Pick(0, -1, np+1, np+5, 1+r.Intn(np), 1<<31-1))
				}
				x.write("in/"+victim, g.bytes(binary.LittleEndian))
				x.Probe("bad-id")
			}
			x.write("c.cfg", sn.config(s, "in", "out"))
			res := x.Main(s.Procs[0], "-ConvertSnapshot", "c.cfg")
			if v := stuck(res); v != nil {
				return v
			}
			if !res.OK() {
				x.Probe("refused")
				return nil
			}
			switch s.Variant {
			case "foreign", "not-a-cube", "bad-id", "count-lie", "bad-value", "npart-lie":
				return viol("success-on-bad-input:"+s.Variant, "the command reports success for a snapshot which is not whole (%s)", s.Variant)
			}
			if v := sn.verify(x, "out"); v != nil {
				v.Class = "success-on-bad-input:" + v.Class
				v.Detail = fmt.Sprintf("the command reports success (%s, faults %v), but %s", s.Variant, res.Faults, v.Detail)
				return v
			}
			return nil
		},
	})

	register(&Prop{
		ID: "C03", Quick: 8000, Thorough: 64000,
		Rule:   "a run is one simulated conversion whose output side fails: write, create, mkdir or close errors at a random operation, data lost at close, a disk that fills up after a random number of bytes; whenever the command claims success the output must be complete and exact",
		Assume: []string{"data lost without any system call reporting it is undetectable, except that a file still open at exit loses what a close would have reported"},
		Real:   convReal, Stub: convStub, Min: convMin,
		Gen: func(r *PRNG, s *Scen) {
			genSnap(r, s, r.Chance(0.2))
			p := genProc(r, 1)
			if r.Chance(0.4) {
				benign(r, p)
			}
			c := s.I["cells"]
			nseg := c * c * c
			gw := s.I["seg"] + 1
			s.Variant = r.PickS("write-error", "write-error", "disk-full", "disk-full", "create-error", "close-lost", "close-lost", "mkdir-error", "quota", "replace-error")
			switch s.Variant {
			case "write-error":
				p.IO.Faults = append(p.IO.Faults, &Fault{Op: "write", Path: "out/*", Nth: r.Range(1, 5*nseg), Count: r.Pick(1, 1, -1), Kind: r.PickS("EIO", "ENOSPC", "EDQUOT")})
			case "disk-full":
				p.IO.Capacity = 1 + int64(r.Float()*float64(nseg*(8+sheetHeaderSize+24*gw*gw*gw)))
			case "create-error":
				p.IO.Faults = append(p.IO.Faults, &Fault{Op: "create", Path: "out/*", Nth: r.Range(1, nseg), Count: r.Pick(1, -1), Kind: r.PickS("ENOSPC", "EMFILE", "EACCES", "EROFS")})
			case "close-lost":
				p.IO.Faults = append(p.IO.Faults, &Fault{Op: "closew", Path: "out/*", Nth: r.Range(1, nseg), Kind: "lost", Arg: int64(r.Range(1, 24*gw*gw*gw))})
			case "mkdir-error":
				p.IO.Faults = append(p.IO.Faults, &Fault{Op: "mkdir", Nth: 1, Count: -1, Kind: r.PickS("ENOSPC", "EACCES")})
			case "replace-error":
				// For converters which write elsewhere first.
				p.IO.Faults = append(p.IO.Faults, replaceFault(r, nseg))
			case "quota":
				p.IO.Faults = append(p.IO.Faults, &Fault{Op: "closew", Path: "out/*", Nth: r.Range(1, nseg), Count: -1, Kind: "lost", Arg: int64(r.Range(1, 12*gw*gw*gw))},
					&Fault{Op: "write", Path: "out/*", Nth: r.Range(1, 5*nseg), Count: -1, Kind: "EDQUOT"})
			}
			if s.Variant == "write-error" || s.Variant == "create-error" {
				more(r, p, r.PickS("write", "write", "create"), "out", lastDigit, []string{"EIO", "ENOSPC"})
			}
			s.I["nested"] = r.Intn(2)
			s.Procs = []*Proc{p}
		},
		Run: func(x *Ctx, s *Scen) *Violation {
			fixSnap(s)
			sn := makeSnap(s)
			sn.write(x, "in")
			if s.Variant != "mkdir-error" {
				x.mkdir("out")
			}
			x.write("c.cfg", sn.config(s, "in", "out"))
			res := x.Main(s.Procs[0], "-ConvertSnapshot", "c.cfg")
			if v := stuck(res); v != nil {
				return v
			}
			if !res.OK() {
				x.Probe("refused")
				return nil
			}
			if v := sn.verify(x, "out"); v != nil {
				v.Class = "success-without-output:" + v.Class
				v.Detail = fmt.Sprintf("the command reports success (%s, faults %v), but %s", s.Variant, res.Faults, v.Detail)
				return v
			}
			return nil
		},
	})

	register(&Prop{
		ID: "C04", Quick: 3500, Thorough: 28000,
		Rule:   "a run is a fault-free conversion, a conversion of the same snapshot killed at a random file operation (writes torn at a random byte; optionally with loss of unsynced data, and a second crash during the repair), possibly over the output of an older conversion, and a final conversion, whose output must be byte for byte that of the first",
		Assume: []string{"the process is killed at a file operation, where its effects become visible"},
		Real:   convReal, Stub: convStub, Min: convMin,
		Gen: func(r *PRNG, s *Scen) {
			genSnap(r, s, false)
			if s.I["cells"] > 3 {
				s.I["cells"] = 3
			}
			fixSnap(s)
			s.I["power"] = r.Intn(2)
			s.I["crashes"] = r.Pick(1, 1, 2)
			s.I["crashsel"] = r.Intn(1 << 30)
			s.I["old"] = r.Intn(2) // the output directory was used before
			s.Procs = []*Proc{genProc(r, 1), genProc(r, 1), genProc(r, 2)}
		},
		Run: func(x *Ctx, s *Scen) *Violation {
			fixSnap(s)
			sn := makeSnap(s)
			sn.write(x, "in")
			x.write("ref.cfg", sn.config(s, "in", "ref"))
			x.write("c.cfg", sn.config(s, "in", "out"))
			ref := x.Main(plainProc(s.rng("ref"), 1), "-ConvertSnapshot", "ref.cfg")
			if !ref.OK() {
				return viol("convert-fails", "a conversion without faults fails: %s", ref)
			}
			if s.I["old"] == 1 && sn.cells > 1 {
				// Its one segment is larger than any of the new ones.
				one := *sn
				one.cells = 1
				x.write("old.cfg", one.config(s, "in", "out"))
				if old := x.Main(plainProc(s.rng("old"), 1), "-ConvertSnapshot", "old.cfg"); !old.OK() {
					return viol("convert-fails", "a conversion without faults fails: %s", old)
				}
				x.Probe("over-older-output")
			}
			r := s.rng("crash")
			for i := 0; i < s.I["crashes"]; i++ {
				p := s.Procs[i]
				if f := crashFault(ref, newPRNG(mixSeed(uint64(s.I["crashsel"]), uint64(i))), "ref", "out"); f != nil {
					p.IO.Faults = append(p.IO.Faults, f)
				}
				res := x.Main(p, "-ConvertSnapshot", "c.cfg")
				if res.Outcome == "crash" {
					x.Probe("crashed")
					if s.I["power"] == 1 && x.powerLoss(res, r) > 0 {
						x.Probe("unsynced-data-lost")
					}
				} else if !res.OK() {
					return viol("convert-fails", "a conversion over the remains of an interrupted one fails: %s", res)
				}
			}
			res := x.Main(s.Procs[2], "-ConvertSnapshot", "c.cfg")
			if v := stuck(res); v != nil {
				return v
			}
			if !res.OK() {
				return viol("repair-fails", "re-running an interrupted conversion fails: %s", res)
			}
			return sameTree(x, "ref", "out")
		},
	})
}

func indexOf(xs []string, x string) int {
	for i := range xs {
		if xs[i] == x {
			return i
		}
	}
	return -1
}

// sameTree compares two directories byte for byte.
func sameTree(x *Ctx, a, b string) *Violation {
	ta, tb := x.tree(a), x.tree(b)
	for _, k := range keys(ta) {
		if _, ok := tb[k]; !ok {
			return viol("repair-incomplete", "after the repair %s is missing", k)
		}
		if string(ta[k]) != string(tb[k]) {
			i := 0
			for i < len(ta[k]) && i < len(tb[k]) && ta[k][i] == tb[k][i] {
				i++
			}
			return viol("repair-differs", "after the repair %s differs from an uninterrupted run at byte %d (sizes %d and %d)", k, i, len(ta[k]), len(tb[k]))
		}
	}
	for _, k := range keys(tb) {
		if _, ok := ta[k]; !ok {
			return viol("repair-debris", "after the repair there is a stray file %s", k)
		}
	}
	return nil
}

// crashFault picks a random file operation of a recorded run as the crash
// point of another run of the same workload.
func crashFault(ref *StepResult, r *PRNG, from, to string) *Fault {
	ops := ref.IO.Ops
	if len(ops) == 0 {
		return nil
	}
	// Prefer operations which change the disk.
	var cand []int
	for i, o := range ops {
		switch o.Op {
		case "write", "create", "closew", "mkdir", "rename", "unlink", "fsync", "truncate":
			cand = append(cand, i)
		}
	}
	i := r.Intn(len(ops))
	if len(cand) > 0 && r.Chance(0.85) {
		i = cand[r.Intn(len(cand))]
	}
	nth := 0
	for _, o := range ops[:i+1] {
		if o.Op == ops[i].Op && o.Err == "" {
			nth++
		}
	}
	f := &Fault{Op: ops[i].Op, Nth: nth, Kind: "crash"}
	if ops[i].Op == "write" && ops[i].N > 0 {
		f.Arg = int64(r.Intn(ops[i].N + 1))
	}
	return f
}
