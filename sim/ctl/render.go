package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"strings"
)

// ------------------------------------------------------------- datasets

// dset is a synthetic sheet together with the exact, unwrapped positions of
// its grid points; everything a render or histogram must show follows from it.
type dset struct {
	n, cells, seg int
	L             float64
	kind          string
	segs          []*dseg
	hd            sheetHeader // common part
	linear        bool
	nudge         float64 // see makeData
	global        [][3]float64
	gvel          [][3]float64
}

type dseg struct {
	idx      int
	pu       [][3]float64 // unwrapped
	vs       [][3]float64
	lo, hi   [3]float64
	constV   bool
	x32, v32 []Vec
	hd       sheetHeader
}

// linVel is a velocity field linear in position on an undistorted lattice,
// except where the lattice wraps around.
func linVel(q [3]int, k, n int) float64 {
	return 300*float64(q[(k+1)%3])/float64(n) - 100*float64(q[k])/float64(n)
}

func pmod(x, l float64) float64 {
	x = math.Mod(x, l)
	if x < 0 {
		x += l
	}
	return x
}

// points tells whether every segment sits within one pixel.
func (d *dset) points() bool { return d.kind == "clump" || d.kind == "edge" }

// sharp tells whether grid points are put on pixel edges on purpose.
func (d *dset) sharp() bool { return d.kind == "aligned" || d.kind == "edge" }

func (d *dset) gw() int { return d.seg + 1 }

// makeData builds the dataset of a scenario. pixels lists the resolutions it
// will be looked at with; ok is false if rounding could decide something
// there.
func makeData(s *Scen, pixels []int) (*dset, bool) {
	r := s.rng(fmt.Sprintf("data%d", s.I["salt"]))
	d := &dset{cells: s.I["cells"], seg: s.I["seg"], L: s.F["L"], kind: s.S["kind"]}
	d.n = d.cells * d.seg
	d.linear = s.S["vel"] == "linear"
	n := d.n
	d.hd.Cosmo = cosmoHeader{r.Uniform(0, 3), r.Uniform(0.1, 0.5), r.Uniform(0.5, 0.9), r.Uniform(0.6, 0.8)}
	d.hd.Count, d.hd.CountWidth = int64(n*n*n), int64(n)
	d.hd.SegmentWidth, d.hd.GridWidth = int64(d.seg), int64(d.seg+1)
	d.hd.GridCount = int64(d.gw() * d.gw() * d.gw())
	d.hd.Cells = int64(d.cells)
	d.hd.Mass, d.hd.TotalWidth = r.Uniform(1, 1e10), d.L

	maxpx := 1
	for _, p := range pixels {
		if p > maxpx {
			maxpx = p
		}
	}
	exact := s.S["kind"] == "edge" && s.I["exact"] == 1 && s.I["bins"] == 0 && (d.L == 1 || d.L == 64 || d.L == 256)
	for _, p := range pixels {
		exact = exact && p&(p-1) == 0
	}
	if exact {
		// Nothing is ever rounded: points on an edge belong to the pixel
		// above it, and are expected well inside of that.
		d.nudge = 0.25 * d.L / float64(maxpx)
	}
	// Global lattice, for the continuous kinds.
	dx := d.L / float64(n)
	var off, phase [3]float64
	for k := range off {
		off[k], phase[k] = r.Uniform(0, d.L), r.Uniform(0, 2*math.Pi)
	}
	amp, jit := s.F["amp"], s.F["jit"]
	steps := s.I["steps"]
	var base [3]float64
	for k := range base {
		base[k] = r.Uniform(-300, 300)
	}
	if !d.points() {
		d.global = make([][3]float64, n*n*n)
		d.gvel = make([][3]float64, n*n*n)
		for i := range d.global {
			q := [3]int{i % n, i / n % n, i / (n * n)}
			for k := 0; k < 3; k++ {
				x := float64(q[k]) * dx
				switch d.kind {
				case "aligned":
					// Grid points fall on pixel boundaries.
					off[k] = float64(s.I["shift"]) * dx
				case "wave":
					x += dx * (amp*math.Sin(2*math.Pi*float64(q[(k+1)%3])/float64(n)+phase[k]) + r.Uniform(-1, 1)*jit)
				case "stair":
					st := math.Floor(float64(q[k]) * float64(steps) / float64(n))
					x = (st + 0.5 + r.Uniform(-0.02, 0.02)) / float64(steps) * d.L
				}
				d.global[i][k] = x + off[k]
				switch s.S["vel"] {
				case "const", "seg":
					d.gvel[i][k] = base[k]
				case "rand":
					d.gvel[i][k] = r.Uniform(-300, 300)
				case "linear":
					d.gvel[i][k] = linVel(q, k, n)
				default:
					d.gvel[i][k] = 300 * math.Sin(2*math.Pi*float64(q[k])/float64(n)+phase[k])
				}
			}
		}
	}
	for idx := 0; idx < d.cells*d.cells*d.cells; idx++ {
		g := &dseg{idx: idx, hd: d.hd}
		c := d.cells
		o := [3]int{idx % c * d.seg, idx / c % c * d.seg, idx / (c * c) * d.seg}
		w := d.gw()
		g.pu = make([][3]float64, w*w*w)
		g.vs = make([][3]float64, w*w*w)
		if d.kind == "edge" {
			// The whole segment sits on one point, which tends to be on
			// pixel edges, or as close to them as single precision goes.
			v := base
			if s.S["vel"] != "const" {
				for k := range v {
					v[k] = r.Uniform(-300, 300)
				}
			}
			for i := range g.pu {
				g.vs[i] = v
			}
			for k := 0; k < 3; k++ {
				p := pixels[r.Intn(len(pixels))]
				x := float32(float64(r.Intn(p+1)) * d.L / float64(p))
				switch r.Intn(8) {
				case 0:
					x = float32(r.Uniform(0, d.L))
				case 1:
					x = math.Nextafter32(x, 0)
				case 2:
					x = math.Nextafter32(x, float32(2*d.L))
				}
				if s.I["bins"] > 0 && r.Chance(0.4) {
					loc := &histGrid(s).hd.Loc
					x = float32(pmod(loc.Origin[k]+loc.Span[k], d.L))
				}
				if exact {
					x = float32(d.L * float64(r.Intn(2*maxpx)) / float64(2*maxpx))
				}
				if float64(x) >= d.L {
					x = 0
				}
				for i := range g.pu {
					g.pu[i][k] = float64(x)
				}
			}
			g.constV = true
		} else if d.kind == "clump" {
			// The whole segment sits well inside one pixel, at every
			// resolution.
			var ctr [3]float64
			rad := 0.12 * d.L / float64(maxpx)
			for try := 0; ; try++ {
				good := true
				for k := range ctr {
					ctr[k] = r.Uniform(0, d.L)
					for _, p := range pixels {
						f := pmod(ctr[k]/d.L*float64(p), 1)
						m := 0.15 * float64(p) / float64(maxpx)
						if f < m+0.01 || f > 0.99-m {
							good = false
						}
					}
				}
				if good {
					break
				}
				if try > 3000 {
					return nil, false
				}
			}
			v := base
			if s.S["vel"] != "const" {
				for k := range v {
					v[k] = r.Uniform(-300, 300)
				}
			}
			for i := range g.pu {
				for k := 0; k < 3; k++ {
					g.pu[i][k] = ctr[k] + r.Uniform(-rad, rad)
					g.vs[i][k] = v[k]
				}
			}
			g.constV = true
		} else {
			for i := range g.pu {
				q := [3]int{i%w + o[0], i/w%w + o[1], i/(w*w) + o[2]}
				j := q[0]%n + n*(q[1]%n) + n*n*(q[2]%n)
				for k := 0; k < 3; k++ {
					g.pu[i][k] = d.global[j][k] + float64(q[k]/n)*d.L
				}
				g.vs[i] = d.gvel[j]
			}
			g.constV = s.S["vel"] == "const" || s.S["vel"] == "seg"
		}
		// What is stored.
		for i := range g.pu {
			var x, v Vec
			for k := 0; k < 3; k++ {
				x[k] = float32(pmod(g.pu[i][k], d.L))
				if float64(x[k]) >= d.L {
					x[k] = 0
				}
				if float64(x[k]) < 1e-8*d.L && r.Chance(0.5) {
					// As a conversion may leave what rounding has
					// moved to the far face of the box.
					x[k] = float32(d.L)
				}
				v[k] = float32(g.vs[i][k])
			}
			g.x32, g.v32 = append(g.x32, x), append(g.v32, v)
		}
		g.lo, g.hi = g.pu[0], g.pu[0]
		vlo, vhi := g.vs[0], g.vs[0]
		for i := range g.pu {
			for k := 0; k < 3; k++ {
				g.lo[k], g.hi[k] = math.Min(g.lo[k], g.pu[i][k]), math.Max(g.hi[k], g.pu[i][k])
				vlo[k], vhi[k] = math.Min(vlo[k], g.vs[i][k]), math.Max(vhi[k], g.vs[i][k])
			}
		}
		g.hd.Idx = int64(idx)
		for k := 0; k < 3; k++ {
			wd := g.hi[k] - g.lo[k]
			if wd > s.F["maxext"]*d.L {
				return nil, false
			}
			org := pmod(g.lo[k], d.L)
			if org > d.L*(1-1e-5) && !d.sharp() {
				return nil, false
			}
			for _, p := range pixels {
				px := float64(p) / d.L
				for _, e := range []float64{org * px, (org + wd) * px} {
					if f := pmod(e, 1); (f < 3e-3 || f > 1-3e-3) && !d.sharp() {
						return nil, false
					}
				}
			}
			g.hd.Origin[k], g.hd.Width[k] = float32(org), float32(wd)
			if float64(g.hd.Origin[k]) >= d.L {
				g.hd.Origin[k] = 0
			}
			g.hd.VelocityOrigin[k], g.hd.VelocityWidth[k] = float32(vlo[k]), float32(vhi[k]-vlo[k])
		}
		d.segs = append(d.segs, g)
	}
	return d, true
}

func (d *dset) segName(i int) string {
	c := d.cells
	return fmt.Sprintf("sheet%d%d%d.dat", i/(c*c), i/c%c, i%c)
}

func (g *dseg) bytes() []byte { return sheetBytes(&g.hd, g.x32, g.v32, binary.LittleEndian) }

func (d *dset) write(x *Ctx, dir string) {
	x.mkdir(dir)
	for i, g := range d.segs {
		x.write(dir+"/"+d.segName(i), g.bytes())
	}
}

// snapshot returns the same sheet as a snapshot, for runs of the complete
// pipeline.
func (d *dset) snapshot(s *Scen) *snap {
	r := s.rng("snapshot")
	n := d.n
	sn := &snap{n: n, cells: d.cells, width: d.L, xu: 1, vu: 1, mu: 1, a: 1, z: 0,
		om: d.hd.Cosmo.OmegaM, ol: d.hd.Cosmo.OmegaL, h: d.hd.Cosmo.H100, mass: d.hd.Mass, idSize: 64}
	nf := r.Range(1, 3)
	for f := 0; f < nf; f++ {
		sn.files = append(sn.files, &gadgetFile{idSize: 64, x64: r.Chance(0.5), v64: r.Chance(0.5)})
		sn.names = append(sn.names, fmt.Sprintf("snap_007.%d", f))
	}
	for i := range d.global {
		g := sn.files[r.Intn(nf)]
		x := d.global[i]
		for k := range x {
			x[k] = pmod(x[k], d.L)
		}
		g.xs, g.vs = append(g.xs, x), append(g.vs, d.gvel[i])
		g.ids = append(g.ids, int64(i+1))
	}
	for _, g := range sn.files {
		g.hd = gadgetHeader{Time: sn.a, Redshift: sn.z, BoxSize: sn.width, Omega0: sn.om,
			OmegaLambda: sn.ol, HubbleParam: sn.h, NumFiles: int32(nf)}
		g.hd.NPart[1] = uint32(len(g.ids))
		g.hd.NPartTotal[1] = uint32(n * n * n)
		g.hd.Mass[1] = sn.mass
		// Every file must use one precision, which the reader infers.
		g.x64, g.v64 = sn.files[0].x64, sn.files[0].v64
	}
	return sn
}

// cube is one cell of the (subsampled) lattice, in pixel units.
type cube struct {
	lo, hi   [3]float64
	vlo, vhi [3]float64
	constV   bool
	linear   bool // velocities are linear in position across the cube
}

// cubes lists the lattice cells the renderer draws from at a resolution.
func (d *dset) cubes(skip, px int) []cube {
	var out []cube
	w := d.gw()
	sc := float64(px) / d.L
	for _, g := range d.segs {
		for z := 0; z+skip <= d.seg; z += skip {
			for y := 0; y+skip <= d.seg; y += skip {
				for x := 0; x+skip <= d.seg; x += skip {
					c := cube{constV: g.constV}
					c.linear = d.kind == "uniform" && d.linear
					for k, a := range [3]int{x, y, z} {
						o := [3]int{g.idx % d.cells, g.idx / d.cells % d.cells, g.idx / (d.cells * d.cells)}[k]
						if o*d.seg+a+skip >= d.n {
							c.linear = false
						}
					}
					for k := range c.lo {
						c.lo[k], c.hi[k] = math.Inf(1), math.Inf(-1)
						c.vlo[k], c.vhi[k] = math.Inf(1), math.Inf(-1)
					}
					for b := 0; b < 8; b++ {
						i := x + skip*(b&1) + w*(y+skip*(b>>1&1)) + w*w*(z+skip*(b>>2))
						for k := 0; k < 3; k++ {
							p := (g.pu[i][k] + d.nudge) * sc
							c.lo[k], c.hi[k] = math.Min(c.lo[k], p), math.Max(c.hi[k], p)
							c.vlo[k], c.vhi[k] = math.Min(c.vlo[k], g.vs[i][k]), math.Max(c.vhi[k], g.vs[i][k])
						}
					}
					out = append(out, c)
				}
			}
		}
	}
	return out
}

// cover classifies an interval [lo, hi] against the periodic images of
// [a, b): 2 if it lies inside, 1 if it may touch, 0 if it cannot.
func cover(lo, hi float64, a, b, period int) int {
	const eps = 2e-3
	if b-a >= period {
		return 2
	}
	P := float64(period)
	k := math.Floor((lo - float64(a)) / P)
	res := 0
	for i := k - 1; i <= k+2; i++ {
		A, B := float64(a)+i*P, float64(b)+i*P
		if lo >= A+eps && hi <= B-eps {
			return 2
		}
		if hi >= A-eps && lo <= B+eps {
			res = 1
		}
	}
	return res
}

// ------------------------------------------------------------- render jobs

type region struct {
	spec BoxSpec
	px   int // pixels across the simulation box
	o, w [3]int
	axis int
}

// regions resolves the boxes of a scenario to pixel ranges; ok is false if
// rounding could matter.
func regions(s *Scen, quantity string) ([]region, bool) {
	var out []region
	L := s.F["L"]
	for _, b := range s.Boxes {
		g := region{spec: b, px: s.I["px"], axis: -1}
		o, w := b.O, b.W
		if b.Ball {
			for k := range o {
				o[k] = pmod(b.O[k]-b.W[k], L)
				w[k] = 2 * b.W[k]
			}
		}
		if ip := s.I["imagepx"]; ip > 0 {
			mw := math.Max(w[0], math.Max(w[1], w[2]))
			v := L / mw * float64(ip)
			if f := pmod(v, 1); math.Abs(f-0.5) < 0.01 || mw > L*(1+1e-9) {
				return nil, false
			}
			g.px = int(math.Round(v))
		}
		if g.px < 1 || g.px > 200 && s.I["fine"] == 0 || g.px > 5000 {
			return nil, false
		}
		for k := 0; k < 3; k++ {
			a, e := o[k]/L*float64(g.px), (o[k]+w[k])/L*float64(g.px)
			full := o[k] == 0 && w[k] == L
			if !full {
				for _, v := range []float64{a, e} {
					if f := pmod(v, 1); (f < 0.01 || f > 0.99) && v != 0 {
						return nil, false
					}
				}
			}
			g.o[k] = int(math.Floor(a))
			g.w[k] = int(math.Floor(e)) + 1 - g.o[k]
			if full || g.w[k] > g.px {
				g.w[k] = g.px
			}
		}
		if g.w[0]*g.w[1]*g.w[2] > 1<<20 && s.I["fine"] > 1 {
			return nil, false
		}
		if g.px > 200 && s.I["fine"] < 2 && (g.w[0] > 16 || g.w[1] > 16 || g.w[2] > 16) {
			return nil, false
		}
		// Only density and velocity are ever projected; other quantities
		// are rendered as volumes whatever the region asks for.
		if b.Axis != "" && (quantity == "Density" || quantity == "Velocity") {
			g.axis = int(b.Axis[0] - 'X')
		}
		out = append(out, g)
	}
	return out, len(out) > 0
}

func pxList(rs []region) []int {
	m := map[int]bool{}
	var out []int
	for _, r := range rs {
		if !m[r.px] {
			m[r.px] = true
			out = append(out, r.px)
		}
	}
	return out
}

// genBoxes draws regions at a resolution of px pixels.
func genBoxes(r *PRNG, s *Scen, nb, minw int, proj bool) {
	px, L := s.I["px"], s.F["L"]
	cw := L / float64(px)
	s.Boxes = nil
	for i := 0; i < nb; i++ {
		b := BoxSpec{Name: fmt.Sprintf("r%d", i)}
		switch r.Intn(5) {
		case 0, 1: // everything
			for k := range b.O {
				b.W[k] = L
			}
		case 2:
			if minw <= 1 {
				b.Ball = true
				rad := r.Uniform(0.4, 0.45*float64(px)) * cw
				if r.Chance(0.3) {
					rad = L / 4
				}
				for k := range b.O {
					b.O[k], b.W[k] = r.Uniform(0, L), rad
					if r.Chance(0.3) { // touching the edge of the box
						b.O[k] = rad
					}
				}
				if r.Chance(0.3) {
					b.Mult = 2
				}
				break
			}
			fallthrough
		default:
			thin := -1 // a slab through the box
			if r.Chance(0.3) {
				thin = r.Intn(3)
			}
			for k := range b.O {
				if r.Chance(0.2) || thin >= 0 && k != thin {
					b.O[k], b.W[k] = 0, L
					continue
				}
				hi := px
				if r.Chance(0.5) {
					hi = px/3 + 1
				}
				if thin >= 0 {
					hi = px/6 + 1
				}
				if hi < minw {
					hi = minw
				}
				o, w := r.Intn(px), r.Range(minw, hi)
				if r.Chance(0.2) || k == thin && r.Chance(0.3) { // up to the edge, or across it
					o = px - 1
				}
				a := float64(o) + r.Uniform(0.1, 0.5)
				e := float64(o+w-1) + r.Uniform(0.6, 0.9)
				if o == 0 && r.Chance(0.3) {
					a = 0
				}
				b.O[k], b.W[k] = a*cw, (e-a)*cw
				if b.W[k] > L {
					b.W[k] = L
				}
			}
		}
		if proj && r.Chance(0.5) {
			b.Axis = r.PickS("X", "Y", "Z")
		}
		s.Boxes = append(s.Boxes, b)
	}
}

// genRender draws the parameters common to the render checks.
func genRender(r *PRNG, s *Scen, quantity string, kinds ...string) {
	s.I["exact"] = 0
	s.S["kind"] = kinds[r.Intn(len(kinds))]
	s.S["q"] = quantity
	s.S["vel"] = r.PickS("const", "seg", "rand", "sin")
	s.F["L"] = []float64{1, 100, 62.5, 250}[r.Intn(4)]
	s.F["maxext"] = 0.9
	s.I["skip"] = r.Pick(1, 1, 1, 2, 4)
	k := s.I["skip"]
	switch s.S["kind"] {
	case "clump", "edge":
		s.I["cells"] = r.Range(1, 4)
		s.I["seg"] = k * r.Range(1, 2)
		if s.I["cells"] == 1 {
			s.I["seg"] = k * r.Range(1, 3)
		}
	case "stair":
		s.I["cells"] = r.Range(2, 4)
		s.I["seg"] = k * r.Range(1, 4)
	default:
		s.I["cells"] = r.Range(2, 4)
		s.I["seg"] = k * r.Range(1, 3)
	}
	for s.I["cells"]*s.I["seg"] > 16 {
		s.I["cells"]--
	}
	if s.S["kind"] == "edge" {
		s.F["L"] = []float64{1, 10, 25, 62.5, 64, 100, 250, 300, 1000}[r.Intn(9)]
		if r.Chance(0.5) {
			s.I["exact"] = 1
			s.F["L"] = []float64{1, 64, 256}[r.Intn(3)]
		}
	}
	s.I["steps"] = r.Range(2, 5)
	n := float64(s.I["cells"] * s.I["seg"])
	s.F["jit"] = []float64{0.3, 0.3, 1, 2.5}[r.Intn(4)]
	s.F["amp"] = []float64{0, 0.5, 1.5, n / 6}[r.Intn(4)]
	s.I["px"] = r.Pick(4, 7, 8, 10, 13, 16, 20, 25, 32)
	if s.I["exact"] == 1 {
		s.I["px"] = r.Pick(1, 2, 4, 8, 16, 32)
	}
	s.I["imagepx"] = 0
	s.I["pts"] = r.Pick(1, 1, 2, 3, 5, 9)
	if s.S["kind"] != "clump" && s.S["kind"] != "edge" && r.Chance(0.4) { // enough for statistics
		c := int(n) / k
		s.I["pts"] = 12000/(c*c*c) + 1
		if s.I["pts"] > 1000 {
			s.I["pts"] = 1000
		}
		if r.Chance(0.6) {
			s.I["px"] = r.Pick(1, 2, 3, 4, 5, 6)
		}
	}
	s.I["auto"] = r.Pick(0, 0, 0, 0, 1)
	s.I["files"] = r.Pick(1, 1, 2) // bounds files
	s.I["log"], s.I["prof"] = r.Intn(2), r.Pick(0, 0, 1)
	s.I["affix"] = r.Intn(2)
	s.I["old"] = r.Pick(0, 0, 0, 0, 1) // longer, older output is in the way
}

// settle retries salts until the data of the scenario are admissible.
func settle(s *Scen) bool {
	rs, ok := regions(s, s.S["q"])
	if !ok {
		return false
	}
	for t := 0; t < 12; t++ {
		s.I["salt"] = t
		if _, ok := makeData(s, pxList(rs)); ok {
			return true
		}
	}
	return false
}

func (s *Scen) outName(name string) string {
	if s.I["affix"] == 1 {
		return "pre_" + name + "_app"
	}
	return name
}

func renderConfig(s *Scen, in, out string) []byte {
	b := &strings.Builder{}
	fmt.Fprintf(b, "[Render]\nQuantity = %s\nInput = %s\nOutput = %s\n", s.S["q"], in, out)
	if s.I["imagepx"] > 0 {
		fmt.Fprintf(b, "ImagePixels = %d\n", s.I["imagepx"])
	} else {
		fmt.Fprintf(b, "TotalPixels = %d\n", s.I["px"])
	}
	if s.I["auto"] == 1 {
		fmt.Fprintf(b, "AutoParticles = true\n")
	} else if s.I["pdepth"] > 0 {
		fmt.Fprintf(b, "ProjectionDepth = %d\n", s.I["pdepth"])
	} else {
		fmt.Fprintf(b, "Particles = %d\n", s.I["pts"])
	}
	if s.I["skip"] != 1 {
		fmt.Fprintf(b, "SubsampleLength = %d\n", s.I["skip"])
	}
	if s.I["log"] == 1 {
		fmt.Fprintf(b, "LogFile = log.out\n")
		if s.I["prof"] == 1 {
			fmt.Fprintf(b, "ProfileFile = prof.out\n")
		}
	}
	if s.I["affix"] == 1 {
		fmt.Fprintf(b, "PrependName = pre_\nAppendName = _app\n")
	}
	return []byte(b.String())
}

// writeBounds writes the bounds files of a scenario and returns their names.
func writeBounds(x *Ctx, s *Scen) []string {
	nf := s.I["files"]
	if nf < 1 {
		nf = 1
	}
	if nf > len(s.Boxes) {
		nf = len(s.Boxes)
	}
	bs := make([]strings.Builder, nf)
	for i, b := range s.Boxes {
		w := &bs[i%nf]
		if b.Ball {
			rad := b.W[0]
			if b.Mult != 0 {
				rad /= b.Mult
			}
			fmt.Fprintf(w, "[Ball \"%s\"]\nX = %.17g\nY = %.17g\nZ = %.17g\nRadius = %.17g\n", b.Name, b.O[0], b.O[1], b.O[2], rad)
			if b.Mult != 0 {
				fmt.Fprintf(w, "RadiusMultiplier = %g\n", b.Mult)
			}
		} else {
			fmt.Fprintf(w, "[Box \"%s\"]\nX = %.17g\nY = %.17g\nZ = %.17g\nXWidth = %.17g\nYWidth = %.17g\nZWidth = %.17g\n",
				b.Name, b.O[0], b.O[1], b.O[2], b.W[0], b.W[1], b.W[2])
		}
		if b.Axis != "" {
			fmt.Fprintf(w, "ProjectionAxis = %s\n", axisSpelling(b))
		}
	}
	var names []string
	for i := range bs {
		n := fmt.Sprintf("b%d.cfg", i)
		x.write(n, []byte(bs[i].String()))
		names = append(names, n)
	}
	return names
}

// axisSpelling is one of the ways to write the projection axis of a region:
// neither case nor surrounding blanks matter.
func axisSpelling(b BoxSpec) string {
	switch uint64(math.Float64bits(b.O[0])>>11) % 4 {
	case 0:
		return strings.ToLower(b.Axis)
	case 1:
		return "\" " + strings.ToLower(b.Axis) + " \""
	}
	return b.Axis
}

// setupRender writes everything a render needs.
func setupRender(x *Ctx, s *Scen, d *dset) []string {
	d.write(x, "in")
	return setupRenderOnly(x, s)
}

func setupRenderOnly(x *Ctx, s *Scen) []string {
	x.mkdir("out")
	writeOld(x, s, ".gtet", gtetHeaderSize+12*s.I["px"]*s.I["px"]*s.I["px"]+12*s.I["imagepx"]*s.I["imagepx"]*s.I["imagepx"])
	x.write("r.cfg", renderConfig(s, "in", "out"))
	return append([]string{"-Render", "r.cfg"}, writeBounds(x, s)...)
}

// writeOld puts older files, of more than n bytes, where some of the output
// goes.
func writeOld(x *Ctx, s *Scen, ext string, n int) {
	if s.I["old"] == 0 {
		return
	}
	r := s.rng("old")
	for i := range s.Boxes {
		if i > 0 && r.Chance(0.5) {
			continue
		}
		if n > 1<<20 {
			n = 1 << 20
		}
		b := make([]byte, n+r.Range(1, 3000))
		for j := range b {
			b[j] = "0123456789 .\n"[j%13]
		}
		x.write("out/"+s.outName(s.Boxes[i].Name)+ext, b)
	}
}

// readGtet parses the output for a region and checks that it describes
// itself correctly.
func readGtet(x *Ctx, s *Scen, d *dset, g *region, dir string) (*gtet, *Violation) {
	name := dir + "/" + s.outName(g.spec.Name) + ".gtet"
	b, err := x.read(name)
	if err != nil {
		return nil, viol("output-missing", "the render succeeded without writing %s: %v", name, err)
	}
	t, err := parseGtet(b)
	if err != nil {
		return nil, viol("output-format", "%s: %v", name, err)
	}
	for k := 0; k < 3; k++ {
		if int(t.hd.Loc.PixelOrigin[k]) != g.o[k] || int(t.hd.Loc.PixelSpan[k]) != g.w[k] {
			return nil, viol("output-span", "%s: pixels %v + %v, for a region of pixels %v + %v (%d across the box)", name,
				t.hd.Loc.PixelOrigin, t.hd.Loc.PixelSpan, g.o, g.w, g.px)
		}
	}
	planes := 1
	switch s.S["q"] {
	case "DensityGradient", "Velocity", "VelocityCurl":
		planes = 3
	}
	if len(t.grid) != planes {
		return nil, viol("output-vector-flag", "%s: a %s grid is declared with %d components", name, s.S["q"], len(t.grid))
	}
	if s.Prop == "C09" || s.Prop == "C14" {
		if v := judgePoints(s, g, t); v != nil {
			return nil, v
		}
	}
	for _, p := range t.grid {
		for i, v := range p {
			if v != v || math.IsInf(float64(v), 0) {
				return nil, viol("output-nan", "%s: value %d is %g", name, i, v)
			}
		}
	}
	return t, nil
}

// judgePoints checks the sample count recorded for a region.
func judgePoints(s *Scen, g *region, t *gtet) *Violation {
	want := []float64{float64(s.I["pts"])}
	depth := float64(s.I["pdepth"])
	if s.I["auto"] == 1 {
		depth = 1
		if g.spec.Axis != "" {
			k := int(g.spec.Axis[0] - 'X')
			w := g.spec.W[k]
			if g.spec.Ball {
				w *= 2
			}
			depth = w / s.F["L"] * float64(g.px)
		}
	}
	if depth > 0 {
		// Either side of whole numbers will do.
		want = nil
		for _, e := range []float64{-1e-6, 1e-6} {
			n := 5 * math.Pow(float64(g.px)/500*float64(s.I["skip"]), 3) / math.Max(math.Ceil(depth+e), 1)
			want = append(want, math.Ceil(n-1e-6), math.Ceil(n+1e-6))
		}
	}
	for _, w := range want {
		if float64(t.hd.Particles) == w {
			return nil
		}
	}
	return viol("sample-count", "region %s (%d pixels across the box, axis %q, SubsampleLength %d) is rendered with %d samples per tetrahedron, instead of %g", g.spec.Name,
		g.px, g.spec.Axis, s.I["skip"], t.hd.Particles, want[0])
}

// genAuto asks for sample counts which depend on resolution and depth.
func genAuto(r *PRNG, s *Scen) {
	s.I["imagepx"], s.I["auto"], s.I["pdepth"] = 0, 1, 0
	s.I["px"] = r.Range(60, 190)
	if r.Chance(0.3) {
		s.I["auto"], s.I["pdepth"] = 0, r.Range(1, 6)
	}
	cw := s.F["L"] / float64(s.I["px"])
	for i := range s.Boxes {
		b := &s.Boxes[i]
		b.Ball, b.Mult = false, 0
		for k := range b.O {
			w := r.Range(1, 9)
			if b.Axis != "" && k == int(b.Axis[0]-'X') && r.Chance(0.5) {
				w = r.Range(1, 60)
			}
			a := float64(r.Intn(s.I["px"])) + r.Uniform(0.1, 0.5)
			b.O[k], b.W[k] = a*cw, (float64(w-1)+r.Uniform(0.2, 0.4))*cw
		}
	}
}

// pixelAxes maps the coordinates of a value in the output to dimensions.
func (g *region) shape() [3]int {
	w := g.w
	if g.axis >= 0 {
		w[g.axis] = 1
	}
	return w
}

func (g *region) index(p [3]int) int {
	sh := g.shape()
	return p[0] + sh[0]*(p[1]+sh[1]*p[2])
}

// judgeDensity compares a rendered density grid with the sheet.
func judgeDensity(x *Ctx, s *Scen, d *dset, g *region, vals []float32, pts int) *Violation {
	skip := s.I["skip"]
	cs := d.cubes(skip, g.px)
	f := float64(g.px) / float64(d.n)
	mc := f * f * f * float64(skip*skip*skip)
	sh := g.shape()
	depth := 1.0
	if g.axis >= 0 {
		depth = float64(g.w[g.axis])
	}
	lower, upper := make([]float64, len(vals)), make([]float64, len(vals))
	where := fmt.Sprintf("region %s (pixels %v + %v of %d, axis %d)", g.spec.Name, g.o, g.w, g.px, g.axis)
	for i := range cs {
		addCube(g, sh, &cs[i], lower, upper, mc)
	}
	tot := 0.0
	for i, v := range vals {
		m := float64(v) * depth
		tot += m
		if m > upper[i]*(1+1e-5)+1e-12 || m < lower[i]*(1-1e-5)-1e-12 {
			return viol("density-pixel", "%s: pixel %d (of %v) holds mass %g; the sheet puts between %g and %g there", where, i, sh, m, lower[i], upper[i])
		}
		if upper[i] > 0 && lower[i] > 0.5*upper[i] {
			x.Probe("pixels-tightly-bounded")
		}
	}
	// Random parts of the region, at all scales, including the whole.
	var subs [16]struct {
		e   expect
		sum float64
		a   [3]int
		b   [3]int
		in  []int8
	}
	r := s.rng("sub" + g.spec.Name)
	for t := 0; t < 16; t++ {
		var a, b [3]int
		for k := 0; k < 3; k++ {
			a[k], b[k] = 0, g.w[k]
			if t > 0 && k != g.axis {
				a[k] = r.Intn(g.w[k])
				b[k] = r.Range(a[k]+1, g.w[k])
				if r.Chance(0.3) {
					a[k], b[k] = 0, g.w[k]
				}
			}
		}
		sum, lo, hi := 0.0, 0.0, 0.0
		var p [3]int
		e := b
		if g.axis >= 0 {
			e[g.axis] = 1
		}
		for p[2] = a[2]; p[2] < e[2]; p[2]++ {
			for p[1] = a[1]; p[1] < e[1]; p[1]++ {
				for p[0] = a[0]; p[0] < e[0]; p[0]++ {
					sum += float64(vals[g.index(p)])
				}
			}
		}
		sum *= depth
		u := &subs[t]
		u.a, u.b, u.sum, u.in = a, b, sum, make([]int8, len(cs))
		for i := range cs {
			c := 2
			for k := 0; k < 3 && c > 0; k++ {
				if v := cover(cs[i].lo[k], cs[i].hi[k], g.o[k]+a[k], g.o[k]+b[k], g.px); v < c {
					c = v
				}
			}
			u.in[i] = int8(c)
			if c == 2 {
				lo += mc
			}
			if c > 0 {
				hi += mc
			}
		}
		if lo == hi {
			x.Probe("mass-exact")
		} else if lo > 0.7*hi {
			x.Probe("mass-tight")
		}
		if sum > hi*(1+2e-5)+1e-9 || sum < lo*(1-2e-5)-1e-9 {
			return viol("density-mass", "%s: pixels [%v, %v) hold mass %g; the sheet puts between %g and %g there", where, a, b, sum, lo, hi)
		}
	}
	// What random sampling of the tetrahedra leads to.
	if d.points() || pts < 1 {
		return nil // known exactly
	}
	perSeg := len(cs) / len(d.segs)
	d.tets(skip, float64(g.px), func(i int, t *btet, v *[4][3]float64) {
		for j := range subs {
			u := &subs[j]
			switch u.in[i] {
			case 2:
				u.e.add(pts, 1, 0)
			case 1:
				var o, w [3]float64
				for k := range o {
					o[k], w[k] = float64(g.o[k]+u.a[k]), float64(u.b[k]-u.a[k])
				}
				f, _ := boxFrac(t, o, w, float64(g.px))
				u.e.add(pts, f, i/perSeg)
			}
		}
	})
	for j := range subs {
		u := &subs[j]
		if n := u.sum / mc * 6 * float64(pts); !u.e.check(x, n, s.workers()) {
			return viol("density-statistic", "%s: pixels [%v, %v) hold the mass of %.1f of %d samples per tetrahedron; the sheet puts %.1f +- %.1f there", where, u.a, u.b,
				n, pts, u.e.mean, u.e.tol(s.workers()))
		}
	}
	return nil
}

// addCube adds the mass of a cube to every pixel it may or must reach.
func addCube(g *region, sh [3]int, c *cube, lower, upper []float64, m float64) {
	var px [3][]int // pixel coordinates which may be reached
	var in [3]int   // the one which holds it all, or -1
	for k := 0; k < 3; k++ {
		in[k] = -1
		if k == g.axis {
			switch cover(c.lo[k], c.hi[k], g.o[k], g.o[k]+g.w[k], g.px) {
			case 0:
				return
			case 2:
				in[k] = 0
			}
			px[k] = []int{0}
			continue
		}
		const eps = 2e-3
		a, b := int(math.Floor(c.lo[k]-eps)), int(math.Floor(c.hi[k]+eps))
		if b-a >= g.px {
			b = a + g.px - 1
		}
		for q := a; q <= b; q++ {
			p := ((q-g.o[k])%g.px + g.px) % g.px
			if p < g.w[k] {
				px[k] = append(px[k], p)
				if a == b {
					in[k] = p
				}
			}
		}
		if len(px[k]) == 0 {
			return
		}
	}
	for _, z := range px[2] {
		for _, y := range px[1] {
			for _, x := range px[0] {
				upper[x+sh[0]*(y+sh[1]*z)] += m
			}
		}
	}
	if in[0] >= 0 && in[1] >= 0 && in[2] >= 0 {
		lower[in[0]+sh[0]*(in[1]+sh[1]*in[2])] += m
	}
}

// velModel is what the sheet says about the velocity field of a region.
type velModel struct {
	lower, upper []float64
	vlo, vhi     [3][]float64
	sum          [3][]float64
	exact        []bool
}

func velocityModel(s *Scen, d *dset, g *region) *velModel {
	cs := d.cubes(s.I["skip"], g.px)
	sh := g.shape()
	n := sh[0] * sh[1] * sh[2]
	m := &velModel{lower: make([]float64, n), upper: make([]float64, n), exact: make([]bool, n)}
	for k := 0; k < 3; k++ {
		m.vlo[k], m.vhi[k], m.sum[k] = make([]float64, n), make([]float64, n), make([]float64, n)
		for i := range m.vlo[k] {
			m.vlo[k][i], m.vhi[k][i] = math.Inf(1), math.Inf(-1)
		}
	}
	one, any := make([]float64, n), make([]float64, n)
	for i := range m.exact {
		m.exact[i] = true
	}
	for i := range cs {
		for j := range one {
			one[j], any[j] = 0, 0
		}
		addCube(g, sh, &cs[i], one, any, 1)
		for j := range any {
			if any[j] == 0 {
				continue
			}
			m.upper[j]++
			if one[j] > 0 {
				m.lower[j]++
			}
			if one[j] == 0 || !cs[i].constV {
				m.exact[j] = false
			}
			vlo, vhi := cs[i].vlo, cs[i].vhi
			if cs[i].linear {
				vlo, vhi = cs[i].clip(g, sh, j)
			}
			for k := 0; k < 3; k++ {
				m.vlo[k][j] = math.Min(m.vlo[k][j], vlo[k])
				m.vhi[k][j] = math.Max(m.vhi[k][j], vhi[k])
				m.sum[k][j] += cs[i].vlo[k]
			}
		}
	}
	return m
}

// clip returns the range of a linear velocity field over the part of a cube
// which lies in output pixel j.
func (c *cube) clip(g *region, sh [3]int, j int) (vlo, vhi [3]float64) {
	p := [3]int{j % sh[0], j / sh[0] % sh[1], j / (sh[0] * sh[1])}
	// Fractions of the way through the cube.
	var a, b [3]float64
	for k := range p {
		a[k], b[k] = 0, 1
		if k == g.axis || c.hi[k]-c.lo[k] >= float64(g.px) {
			continue
		}
		P := float64(g.px)
		lo := float64(g.o[k] + p[k])
		// A cube may reach one pixel through two of its images.
		a[k], b[k] = 1, 0
		for i := math.Floor((c.lo[k]-lo)/P) - 1; i <= math.Floor((c.hi[k]-lo)/P)+1; i++ {
			A, B := lo+i*P-2e-3, lo+1+i*P+2e-3
			if B < c.lo[k] || A > c.hi[k] {
				continue
			}
			a[k] = math.Min(a[k], math.Max(0, (A-c.lo[k])/(c.hi[k]-c.lo[k])))
			b[k] = math.Max(b[k], math.Min(1, (B-c.lo[k])/(c.hi[k]-c.lo[k])))
		}
		if a[k] > b[k] {
			a[k], b[k] = 0, 1
		}
	}
	for k := range p {
		// v_k = 300 u_{k+1} - 100 u_k, with u in units of the box.
		q := (k + 1) % 3
		sq, sk := (c.hi[q]-c.lo[q])*300/float64(g.px), -(c.hi[k]-c.lo[k])*100/float64(g.px)
		// Value at the lower corner of the cube: the smallest value has
		// u_k at its top.
		base := c.vlo[k] - sk
		vlo[k] = base + sq*a[q] + sk*b[k]
		vhi[k] = base + sq*b[q] + sk*a[k]
	}
	return vlo, vhi
}

// judgeVelocity compares a rendered velocity grid with the sheet.
func judgeVelocity(x *Ctx, s *Scen, d *dset, g *region, grid [][]float32, pts int) *Violation {
	m := velocityModel(s, d, g)
	where := fmt.Sprintf("region %s (pixels %v + %v of %d, axis %d)", g.spec.Name, g.o, g.w, g.px, g.axis)
	const tol0 = 300 * 2e-5
	const tol = tol0
	for j := range m.upper {
		for k := 0; k < 3; k++ {
			v := float64(grid[k][j])
			switch {
			case m.upper[j] == 0:
				if v != 0 {
					return viol("velocity-empty", "%s: pixel %d which the sheet does not reach moves at %g", where, j, v)
				}
			case m.exact[j]:
				x.Probe("velocity-exact")
				if e := m.sum[k][j] / m.upper[j]; math.Abs(v-e) > tol {
					return viol("velocity-value", "%s: component %d of pixel %d is %g; the mean velocity there is %g", where, k, j, v, e)
				}
			default:
				if v == 0 && m.lower[j] == 0 {
					continue
				}
				if v < m.vlo[k][j]-tol || v > m.vhi[k][j]+tol {
					return viol("velocity-range", "%s: component %d of pixel %d is %g; velocities there range from %g to %g", where, k, j, v, m.vlo[k][j], m.vhi[k][j])
				}
			}
		}
	}
	if d.points() || pts < 1 {
		return nil
	}
	// What random sampling of the tetrahedra leads to.
	skip := s.I["skip"]
	sh := g.shape()
	perSeg := d.n / d.cells / skip
	perSeg = perSeg * perSeg * perSeg
	mean := make([]velExpect, len(m.upper))
	work := 0.0
	d.tets(skip, float64(g.px), func(i int, t *btet, v *[4][3]float64) { work += t.reach(g) })
	if work > 30000 {
		return nil
	}
	d.tets(skip, float64(g.px), func(i int, t *btet, v *[4][3]float64) {
		if t.reach(g) == 0 {
			return
		}
		vs := *v
		t.pixels(g, func(p [3]int, parts []btet) {
			e := &mean[p[0]+sh[0]*(p[1]+sh[1]*p[2])]
			for q := range parts {
				f, bc := parts[q].centroid()
				e.add(pts, f, bc, &vs, i/perSeg)
			}
		})
	})
	for j := range mean {
		e := &mean[j]
		tol, ok := e.tol(s.workers())
		if !ok {
			continue
		}
		x.Probe("velocity-statistic")
		for k := 0; k < 3; k++ {
			if v := float64(grid[k][j]); math.Abs(v-e.v[k]/e.n.mean) > tol[k]+tol0 {
				return viol("velocity-statistic", "%s: component %d of pixel %d is %g; the sheet moves at %g +- %g there", where, k, j, v, e.v[k]/e.n.mean, tol[k])
			}
		}
	}
	return nil
}

// deriv is an independent five point first derivative along one dimension:
// exact for polynomials of degree four, centred where possible, periodic if
// the region spans the box.
func deriv5(vals []float64, sh [3]int, dim int, periodic bool, dx float64) []float64 {
	out := make([]float64, len(vals))
	stride := [3]int{1, sh[0], sh[0] * sh[1]}[dim]
	n := sh[dim]
	for i := range vals {
		p := i / stride % n
		base := i - p*stride
		var nodes [5]int
		for t := range nodes {
			nodes[t] = p - 2 + t
		}
		if !periodic {
			sft := 0
			if nodes[0] < 0 {
				sft = -nodes[0]
			} else if nodes[4] > n-1 {
				sft = n - 1 - nodes[4]
			}
			for t := range nodes {
				nodes[t] += sft
			}
		}
		for t, q := range nodes {
			// Derivative of the Lagrange basis polynomial at p.
			w := 0.0
			for u, qu := range nodes {
				if u == t {
					continue
				}
				pr := 1 / float64(q-qu)
				for v, qv := range nodes {
					if v != t && v != u {
						pr *= float64(p-qv) / float64(q-qv)
					}
				}
				w += pr
			}
			out[i] += w * vals[base+((q%n)+n)%n*stride] / dx
		}
	}
	return out
}

// judgeDerived checks gradient, divergence and curl grids, exactly, for data
// whose density and velocity grids are known exactly.
func judgeDerived(x *Ctx, s *Scen, d *dset, g *region, t *gtet) *Violation {
	m := velocityModel(s, d, g)
	sh := g.shape()
	dx := d.L / float64(g.px)
	n := len(m.upper)
	der := func(v []float64, k int) []float64 { return deriv5(v, sh, k, g.w[k] == g.px, dx) }
	var want [][]float64
	skip := s.I["skip"]
	f := float64(g.px) / float64(d.n)
	mc := f * f * f * float64(skip*skip*skip)
	if s.S["q"] == "DensityGradient" {
		rho := make([]float64, n)
		for i := range rho {
			rho[i] = m.upper[i] * mc
		}
		want = [][]float64{der(rho, 0), der(rho, 1), der(rho, 2)}
	} else {
		var v [3][]float64
		for k := range v {
			v[k] = make([]float64, n)
			for i := range v[k] {
				if m.upper[i] > 0 {
					v[k][i] = m.sum[k][i] / m.upper[i]
				}
			}
		}
		sub := func(a, b []float64, sg float64) []float64 {
			o := make([]float64, n)
			for i := range o {
				o[i] = a[i] + sg*b[i]
			}
			return o
		}
		if s.S["q"] == "VelocityDivergence" {
			want = [][]float64{sub(sub(der(v[0], 0), der(v[1], 1), 1), der(v[2], 2), 1)}
		} else {
			want = [][]float64{sub(der(v[2], 1), der(v[1], 2), -1), sub(der(v[0], 2), der(v[2], 0), -1), sub(der(v[1], 0), der(v[0], 1), -1)}
		}
	}
	scale := 300 / dx
	if s.S["q"] == "DensityGradient" {
		scale = mc * float64(len(d.segs)) / dx
	}
	for k := range want {
		for i := range want[k] {
			if math.Abs(float64(t.grid[k][i])-want[k][i]) > 1e-3*math.Abs(want[k][i])+5e-5*scale {
				return viol("derivative", "%s of region %s (pixels %v + %v of %d): component %d of pixel %d is %g, not %g", s.S["q"],
					g.spec.Name, g.o, g.w, g.px, k, i, t.grid[k][i], want[k][i])
			}
			if want[k][i] != 0 {
				x.Probe("derivative-nonzero")
			}
		}
	}
	return nil
}

// judgeRender checks every region of a finished render.
func judgeRender(x *Ctx, s *Scen, d *dset, rs []region, dir string) *Violation {
	for i := range rs {
		g := &rs[i]
		t, v := readGtet(x, s, d, g, dir)
		if v != nil {
			return v
		}
		switch s.S["q"] {
		case "Density":
			v = judgeDensity(x, s, d, g, t.grid[0], int(t.hd.Particles))
			if v == nil {
				v = judgeLattice(x, s, d, g, t.grid[0], int(t.hd.Particles))
			}
		case "Velocity":
			v = judgeVelocity(x, s, d, g, t.grid, int(t.hd.Particles))
		default:
			v = judgeDerived(x, s, d, g, t)
		}
		if v != nil {
			return v
		}
	}
	return nil
}

// plan resolves a render scenario; ok is false for parameters (reached while
// shrinking) at which rounding could decide the outcome.
func plan(s *Scen) (*dset, []region, bool) {
	if s.I["skip"] < 1 || s.I["seg"]%s.I["skip"] != 0 {
		return nil, nil, false
	}
	rs, ok := regions(s, s.S["q"])
	if !ok {
		return nil, nil, false
	}
	d, ok := makeData(s, pxList(rs))
	return d, rs, ok
}

const renderReal = "the complete gotetra Render command (flag and config parsing, gcfg, segment readers, Manager and its workers, Monte Carlo interpolation, grid writer), Go's os and log packages"
const renderStub = "system calls below package os (fault layer over a private scratch directory), goroutine scheduler, clock (and with it the renderer's random seed), runtime random source, garbage collector, CPU count"

var renderMin = map[string]int{"seg": 1, "cells": 1, "px": 1, "pts": 1, "files": 1, "auto": 0, "log": 0, "affix": 0, "skip": 1, "old": 0}

// simpleRender runs the render of a scenario without real faults and judges
// it.
func simpleRender(x *Ctx, s *Scen) *Violation {
	d, rs, ok := plan(s)
	if !ok {
		return nil
	}
	x.shape = fmt.Sprint(s.I, s.S)
	var args []string
	if s.Variant == "pipeline" {
		sn := d.snapshot(s)
		sn.write(x, "snap")
		x.write("c.cfg", sn.config(s, "snap", "in"))
		r := x.Main(s.Procs[1], "-ConvertSnapshot", "c.cfg")
		if !r.OK() {
			return viol("convert-fails", "the conversion fails: %s", r)
		}
		args = setupRenderOnly(x, s)
	} else {
		args = setupRender(x, s, d)
	}
	r := x.Main(s.Procs[0], args...)
	if v := stuck(r); v != nil {
		return v
	}
	if !r.OK() {
		return viol("render-fails", "a render without real faults fails: %s", r)
	}
	return judgeRender(x, s, d, rs, "out")
}

// genUntilOK draws scenarios until one is admissible.
func genUntilOK(r *PRNG, s *Scen, f func()) {
	for t := 0; t < 200; t++ {
		f()
		if settle(s) {
			return
		}
	}
	infra("no admissible %s scenario found", s.Prop)
}

func init() {
	register(&Prop{
		ID: "C07", Quick: 3000, Thorough: 24000,
		Rule:   "a run is one simulated density render (or conversion and render) of a random sheet under a random schedule of its workers, with random short reads and writes; the mass of the whole region and of random parts of it is compared with bounds computed from the sheet alone, and with its exact expectation under uniform sampling of every tetrahedron; non-trivial if two workers were runnable at once or a fault or probe was hit",
		Assume: []string{"segments span less than 0.9 of the box (0.45 when converted by the command itself)", "no segment's outermost particle lies within 0.003 pixels of a pixel boundary", "statistics have a threshold of seven standard deviations which allows for workers whose clock seeds make their first draws alike, and are fixed by the seed"},
		Real:   renderReal, Stub: renderStub, Min: renderMin,
		Gen: func(r *PRNG, s *Scen) {
			if r.Chance(0.05) {
				s.Variant = "subsample"
				genUntilOK(r, s, func() {
					genRender(r, s, "Density", "wave", "stair", "clump")
					genBoxes(r, s, 1, 1, false)
					s.Boxes[0] = BoxSpec{Name: "all", W: [3]float64{s.F["L"], s.F["L"], s.F["L"]}}
					s.I["skip"] = r.Range(2, 9)
				})
				renderProcs(r, s, true)
				return
			}
			s.Variant = r.PickS("sheet", "sheet", "sheet", "pipeline")
			genUntilOK(r, s, func() {
				if s.Variant == "pipeline" {
					genRender(r, s, "Density", "wave", "stair", "uniform")
					s.F["maxext"] = 0.45
				} else {
					genRender(r, s, "Density", "wave", "wave", "stair", "uniform", "clump", "edge")
				}
				genBoxes(r, s, 1, 1, true)
				if r.Chance(0.5) { // everything
					s.Boxes[0].Ball = false
					s.Boxes[0].O = [3]float64{}
					s.Boxes[0].W = [3]float64{s.F["L"], s.F["L"], s.F["L"]}
				}
				if r.Chance(0.2) {
					s.I["imagepx"] = r.Range(2, 24)
				}
				if s.Variant == "pipeline" && r.Chance(0.3) {
					s.S["kind"] = "aligned"
					s.I["cells"] = r.Range(3, 5)
					s.I["seg"] = s.I["skip"] * r.Range(1, 2)
					s.I["px"] = s.I["cells"] * s.I["seg"] * r.Range(1, 3)
					s.I["shift"] = r.Pick(0, 1, 5)
					s.I["imagepx"] = 0
				}
			})
			p := genProc(r, r.Range(1, 6))
			if r.Chance(0.5) {
				benign(r, p)
			}
			s.Procs = []*Proc{p}
			if s.Variant == "pipeline" {
				s.Procs = append(s.Procs, plainProc(r, 1))
			}
		},
		Run: func(x *Ctx, s *Scen) *Violation {
			if s.Variant != "subsample" {
				return simpleRender(x, s)
			}
			// A subsampling length which may not fit the segments: either
			// it is refused, or the box still holds all of the mass.
			rs, ok := regions(s, s.S["q"])
			if !ok {
				return nil
			}
			d, ok := makeData(s, pxList(rs))
			if !ok {
				return nil
			}
			x.shape = fmt.Sprint(s.I, s.S)
			res := x.Main(s.Procs[0], setupRender(x, s, d)...)
			if v := stuck(res); v != nil {
				return v
			}
			k := s.I["skip"]
			if !res.OK() {
				if k&(k-1) == 0 && d.seg%k == 0 {
					return viol("render-fails", "a render without real faults fails: %s", res)
				}
				x.Probe("subsampling-refused")
				return nil
			}
			t, v := readGtet(x, s, d, &rs[0], "out")
			if v != nil {
				return v
			}
			tot := 0.0
			for _, m := range t.grid[0] {
				tot += float64(m)
			}
			if want := math.Pow(float64(rs[0].px), 3); !closeTo(tot, want, 1e-4) {
				return viol("subsampling-loses-mass", "with SubsampleLength %d and segments of width %d, the whole box holds mass %g of %g", k, d.seg, tot, want)
			}
			return nil
		},
	})
}
