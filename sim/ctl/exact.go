package main

import (
	"fmt"
	"math"
	"os"
)

// This file predicts how many samples of the phase space sheet fall into a
// box: every lattice cell is six tetrahedra, each of which is sampled the
// same number of times, uniformly in barycentric coordinates.

// btet is a part of a tetrahedron: barycentric coordinates and positions of
// its corners.
type btet struct {
	b [4][4]float64
	p [4][3]float64
}

func (t *btet) frac() float64 {
	var m [3][3]float64
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			m[i][j] = t.b[i+1][j] - t.b[0][j]
		}
	}
	return math.Abs(m[0][0]*(m[1][1]*m[2][2]-m[1][2]*m[2][1]) -
		m[0][1]*(m[1][0]*m[2][2]-m[1][2]*m[2][0]) +
		m[0][2]*(m[1][0]*m[2][1]-m[1][1]*m[2][0]))
}

type corner struct {
	b [4]float64
	p [3]float64
}

func (t *btet) corner(i int) corner { return corner{t.b[i], t.p[i]} }

func tetOf(a, b, c, d corner) btet {
	return btet{[4][4]float64{a.b, b.b, c.b, d.b}, [4][3]float64{a.p, b.p, c.p, d.p}}
}

func between(a, b corner, f float64) corner {
	for i := range a.b {
		a.b[i] += f * (b.b[i] - a.b[i])
	}
	for i := range a.p {
		a.p[i] += f * (b.p[i] - a.p[i])
	}
	return a
}

// cutHalf appends the parts of t on the side of the plane p[k] = c where
// sg*(p[k] - c) >= 0.
func cutHalf(out []btet, t *btet, k int, sg, c float64) []btet {
	var in, ex []int
	var v [4]float64
	for i := range v {
		v[i] = sg * (t.p[i][k] - c)
		if v[i] >= 0 {
			in = append(in, i)
		} else {
			ex = append(ex, i)
		}
	}
	x := func(i, j int) corner {
		return between(t.corner(i), t.corner(j), v[i]/(v[i]-v[j]))
	}
	prism := func(a0, a1, a2, b0, b1, b2 corner) []btet {
		return append(out, tetOf(a0, a1, a2, b2), tetOf(a0, a1, b1, b2), tetOf(a0, b0, b1, b2))
	}
	switch len(in) {
	case 0:
		return out
	case 4:
		return append(out, *t)
	case 1:
		a := in[0]
		return append(out, tetOf(t.corner(a), x(a, ex[0]), x(a, ex[1]), x(a, ex[2])))
	case 2:
		a, b, c, d := in[0], in[1], ex[0], ex[1]
		return prism(t.corner(a), x(a, c), x(a, d), t.corner(b), x(b, c), x(b, d))
	default:
		o := ex[0]
		return prism(t.corner(in[0]), t.corner(in[1]), t.corner(in[2]), x(in[0], o), x(in[1], o), x(in[2], o))
	}
}

// boxFrac is the fraction of a tetrahedron inside the periodic images of
// [a, a+w), and the centroid of that part in barycentric coordinates.
func boxFrac(t *btet, a, w [3]float64, period float64) (f float64, bc [4]float64) {
	var from, to [3]int
	for k := 0; k < 3; k++ {
		if w[k] >= period*(1-1e-9) {
			continue
		}
		lo, hi := t.p[0][k], t.p[0][k]
		for i := 1; i < 4; i++ {
			lo, hi = math.Min(lo, t.p[i][k]), math.Max(hi, t.p[i][k])
		}
		from[k] = int(math.Ceil((lo - a[k] - w[k]) / period))
		to[k] = int(math.Floor((hi - a[k]) / period))
	}
	var i [3]int
	var s, q []btet
	for i[0] = from[0]; i[0] <= to[0]; i[0]++ {
		for i[1] = from[1]; i[1] <= to[1]; i[1]++ {
			for i[2] = from[2]; i[2] <= to[2]; i[2]++ {
				s = append(s[:0], *t)
				for k := 0; k < 3; k++ {
					if w[k] >= period*(1-1e-9) {
						continue
					}
					A := a[k] + float64(i[k])*period
					for side := 0; side < 2; side++ {
						q = q[:0]
						for j := range s {
							if side == 0 {
								q = cutHalf(q, &s[j], k, 1, A)
							} else {
								q = cutHalf(q, &s[j], k, -1, A+w[k])
							}
						}
						s, q = q, s
					}
				}
				for j := range s {
					g := s[j].frac()
					f += g
					for c := 0; c < 4; c++ {
						bc[c] += g * (s[j].b[0][c] + s[j].b[1][c] + s[j].b[2][c] + s[j].b[3][c]) / 4
					}
				}
			}
		}
	}
	if f > 0 {
		for c := range bc {
			bc[c] /= f
		}
	}
	return f, bc
}

// tetDirs are the two corners which tell the six tetrahedra of a cell apart;
// all have its lowest and highest corners, too.
var tetDirs = [6][2]int{{1, 3}, {1, 5}, {2, 3}, {4, 5}, {2, 6}, {4, 6}}

// tets calls f with every tetrahedron of cell i (in the order of cubes()),
// in units of L/px, and with the velocities of its corners.
func (d *dset) tets(skip int, px float64, f func(i int, t *btet, v *[4][3]float64)) {
	w := d.gw()
	sc := px / d.L
	n := 0
	for _, g := range d.segs {
		for z := 0; z+skip <= d.seg; z += skip {
			for y := 0; y+skip <= d.seg; y += skip {
				for x := 0; x+skip <= d.seg; x += skip {
					for _, dir := range tetDirs {
						var t btet
						var v [4][3]float64
						for c, b := range [4]int{0, dir[0], dir[1], 7} {
							i := x + skip*(b&1) + w*(y+skip*(b>>1&1)) + w*w*(z+skip*(b>>2))
							for k := 0; k < 3; k++ {
								t.p[c][k] = g.pu[i][k] * sc
								v[c][k] = g.vs[i][k]
							}
							t.b[c][c] = 1
						}
						f(n, &t, &v)
					}
					n++
				}
			}
		}
	}
}

// expect is the distribution of a number of samples.
type expect struct {
	mean, sv, ssd float64 // sum of means, variances, deviations
	part          int     // tetrahedra which may go either way
	segs          map[int]bool
}

func (e *expect) add(pts int, f float64, seg int) {
	e.mean += float64(pts) * f
	if f > 1e-9 && f < 1-1e-9 {
		v := float64(pts) * f * (1 - f)
		e.sv += v
		e.ssd += math.Sqrt(v)
		e.part++
		if e.segs == nil {
			e.segs = map[int]bool{}
		}
		e.segs[seg] = true
	}
}

var zstat = os.Getenv("VERIF_ZSTAT") != ""

// tol is how far the number of samples may stray. Tetrahedra share 64
// buffers of random points, and every worker draws buffers in nearly the same
// order from every segment, both of which correlate them.
func (e *expect) tol(workers int) float64 {
	if e.part == 0 {
		return 0
	}
	k := math.Min(float64(len(e.segs)*workers), float64(e.part))
	sig := math.Sqrt(k*e.sv + e.ssd*e.ssd/64)
	m := k + float64(e.part)/64
	return 7*sig + 16*m + 2e-4*float64(e.part)
}

func (e *expect) check(x *Ctx, got float64, workers int) bool {
	t := e.tol(workers) + 2 + 2e-5*e.mean // and rounding
	if zstat && e.part > 0 {
		fmt.Fprintf(os.Stderr, "ZSTAT %.3f %.3f mean %.1f part %d\n", (got-e.mean)/t, t/(e.mean+1e-3), e.mean, e.part)
	}
	if e.part > 0 && t < 0.25*e.mean {
		x.Probe("mass-statistic")
	}
	return math.Abs(got-e.mean) <= t
}

// workers is the number of workers of the largest process of a scenario.
func (s *Scen) workers() int {
	n := 1
	for _, p := range s.Procs {
		if p.Threads > n {
			n = p.Threads
		}
	}
	return n
}

func pmodi(x, n int) int { return (x%n + n) % n }

// centroid is boxFrac for a part which is inside as a whole.
func (t *btet) centroid() (f float64, bc [4]float64) {
	for c := 0; c < 4; c++ {
		bc[c] = (t.b[0][c] + t.b[1][c] + t.b[2][c] + t.b[3][c]) / 4
	}
	return t.frac(), bc
}

// span is the range of pixels a tetrahedron reaches along one dimension.
func (t *btet) span(k int) (a, e int) {
	lo, hi := t.p[0][k], t.p[0][k]
	for i := 1; i < 4; i++ {
		lo, hi = math.Min(lo, t.p[i][k]), math.Max(hi, t.p[i][k])
	}
	return int(math.Floor(lo)), int(math.Floor(hi))
}

// reach is about how many pixels of a region a tetrahedron reaches.
func (t *btet) reach(g *region) float64 {
	n := 1.0
	for k := 0; k < 3; k++ {
		c := 0
		a, e := t.span(k)
		for q := a; q <= e; q++ {
			if pmodi(q-g.o[k], g.px) < g.w[k] {
				c++
			}
		}
		n *= float64(c)
	}
	return n
}

// pixels calls f with the parts of a tetrahedron in every pixel of a region
// it reaches. It may do so more than once for a pixel.
func (t *btet) pixels(g *region, f func(p [3]int, parts []btet)) {
	var p [3]int
	var bufs [3][2][]btet
	var walk func(k int, s []btet)
	walk = func(k int, s []btet) {
		if k == 3 {
			f(p, s)
			return
		}
		a, e := s[0].span(k)
		for i := range s {
			b, c := s[i].span(k)
			if b < a {
				a = b
			}
			if c > e {
				e = c
			}
		}
		for q := a; q <= e; q++ {
			p[k] = pmodi(q-g.o[k], g.px)
			if p[k] >= g.w[k] {
				continue
			}
			if k == g.axis {
				p[k] = 0
			}
			part := bufs[k][0][:0]
			for i := range s {
				part = cutHalf(part, &s[i], k, -1, float64(q+1))
			}
			bufs[k][0] = part
			rest := bufs[k][1][:0]
			for i := range part {
				rest = cutHalf(rest, &part[i], k, 1, float64(q))
			}
			bufs[k][1] = rest
			if len(rest) > 0 {
				walk(k+1, rest)
			}
		}
	}
	walk(0, []btet{*t})
}

// velExpect is the distribution of the mean velocity of the samples in a
// pixel.
type velExpect struct {
	n     expect
	v     [3]float64 // sums over samples
	parts []velPart
}

type velPart struct {
	n float64
	v *[4][3]float64
}

func (e *velExpect) add(pts int, f float64, bc [4]float64, v *[4][3]float64, seg int) {
	if f == 0 {
		return
	}
	e.n.add(pts, f, seg)
	for k := 0; k < 3; k++ {
		for c := 0; c < 4; c++ {
			e.v[k] += float64(pts) * f * bc[c] * v[c][k]
		}
	}
	e.parts = append(e.parts, velPart{float64(pts) * f, v})
}

func (e *velExpect) tol(workers int) (t [3]float64, ok bool) {
	n := e.n.mean - e.n.tol(workers)
	if n < 0.3*e.n.mean || n < 1 {
		return t, false
	}
	c := float64(len(e.n.segs) * workers)
	if c < 1 {
		c = float64(workers)
	}
	for k := range t {
		m, sv, ssd, max := e.v[k]/e.n.mean, 0.0, 0.0, 0.0
		for i := range e.parts {
			p := &e.parts[i]
			dev := 0.0
			for c := 0; c < 4; c++ {
				dev = math.Max(dev, math.Abs(p.v[c][k]-m))
			}
			q := p.n * dev * dev
			sv += q
			ssd += math.Sqrt(q)
			max = math.Max(max, dev)
		}
		sig := math.Sqrt(c*sv + ssd*ssd/64)
		t[k] = (7*sig + 16*(c+float64(e.n.part)/64)*max) / n
	}
	return t, true
}
