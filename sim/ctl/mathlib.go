package main

import (
	"encoding/json"
	"fmt"
	"math"
)

type libOp struct {
	Obj     int
	Fn      string
	X, Y, Z []float64 `json:",omitempty"`
	R       []float64 `json:",omitempty"`
	N, M    int       `json:",omitempty"`
	Lo, Hi  float64   `json:",omitempty"`
	Un      bool      `json:"-"`
}

type libRes struct {
	Panic string
	Bits  []uint64
}

func (r *libRes) vals() []float64 {
	out := make([]float64, len(r.Bits))
	for i, b := range r.Bits {
		out[i] = math.Float64frombits(b)
	}
	return out
}

// runLib runs a library workload which must finish without real faults.
func runLib(x *Ctx, p *Proc, api string, par, out interface{}) *Violation {
	r := x.API(p, api, par)
	if v := stuck(r); v != nil {
		return v
	}
	if !r.OK() {
		return viol("library-fails", "a sequence of valid calls ends the process: %s", r)
	}
	check(json.Unmarshal(r.Data, out))
	return nil
}

// ------------------------------------------------------------- derivatives

// fdiff is the first derivative along one dimension from order+1 points:
// centred where possible, or periodic.
func fdiff(vals []float64, sh [3]int, dim, order int, periodic bool, dx float64) []float64 {
	out := make([]float64, len(vals))
	stride := [3]int{1, sh[0], sh[0] * sh[1]}[dim]
	n, m := sh[dim], order+1
	for i := range vals {
		p := i / stride % n
		base := i - p*stride
		lo := p - order/2
		if !periodic {
			if lo < 0 {
				lo = 0
			} else if lo+order > n-1 {
				lo = n - 1 - order
			}
		}
		for t := 0; t < m; t++ {
			w := 0.0
			for u := 0; u < m; u++ {
				if u == t {
					continue
				}
				pr := 1 / float64(t-u)
				for v := 0; v < m; v++ {
					if v != t && v != u {
						pr *= float64(p-lo-v) / float64(t-v)
					}
				}
				w += pr
			}
			out[i] += w * vals[base+((lo+t)%n+n)%n*stride] / dx
		}
	}
	return out
}

type derivObj struct {
	O, W     [3]int
	Cells    int
	L        float64
	Periodic bool
	Op       int
	Order    int
	Opt      int
}

func genDerivObj(r *PRNG) derivObj {
	b := derivObj{L: []float64{1, 64, 100}[r.Intn(3)], Order: r.Pick(0, 2, 2, 4, 4), Periodic: r.Chance(0.5), Op: r.Intn(3)}
	if b.Order == 0 {
		b.Periodic, b.Op = false, 2
	}
	b.Cells = r.Range(5, 9)
	if b.Periodic && r.Chance(0.2) {
		b.Cells = 4
	}
	order := b.Order
	if order == 0 {
		order = 4
	}
	for k := range b.W {
		b.O[k] = r.Intn(b.Cells)
		b.W[k] = r.Range(order+1, 9)
		if b.W[k] > b.Cells || r.Chance(0.4) {
			b.W[k] = b.Cells
		}
		if b.W[k] < order+1 {
			b.W[k] = b.Cells // 4 periodic cells
		}
	}
	return b
}

func runDeriv(x *Ctx, s *Scen) *Violation {
	r := s.rng("deriv")
	nobj, nc := 1+s.I["objs"], s.I["clients"]
	objs := make([]derivObj, nobj)
	opts := map[int]derivObj{}
	for i := range objs {
		objs[i] = genDerivObj(r)
		objs[i].Opt = r.Intn(3)
		if o, ok := opts[objs[i].Opt]; ok && o.Order != 0 && o.Order <= objs[i].Order && objs[i].Order != 0 &&
			(o.Periodic || objs[i].W[0] > o.Order && objs[i].W[1] > o.Order && objs[i].W[2] > o.Order) && objs[i].Cells > 4 {
			objs[i].Order, objs[i].Periodic, objs[i].Op = o.Order, o.Periodic, o.Op
		} else if ok {
			objs[i].Opt = 10 + i
		}
		if objs[i].Order != 0 {
			opts[objs[i].Opt] = objs[i]
		}
	}
	if s.Variant == "refused" {
		b := &objs[0]
		o := libOp{Fn: "deriv", M: r.Intn(3)}
		switch r.Intn(3) {
		case 0:
			b.Order = r.Pick(1, 3, 5, 6)
		case 1:
			o.M = r.Pick(-1, 3, 7)
		case 2: // too narrow
			b.Order, b.Cells, b.Periodic = r.Pick(2, 4), 9, r.Chance(0.5)
			b.W = [3]int{9, 9, 9}
			b.W[o.M] = r.Range(1, b.Order)
			o.Fn = r.PickS("deriv", "grad")
		}
		tabs := [][]float32{make([]float32, 729), make([]float32, 729), make([]float32, 729)}
		res := x.API(s.Procs[0], "deriv", map[string]interface{}{"Tables": tabs, "Objs": objs[:1], "Ops": [][]libOp{{o}}})
		if v := stuck(res); v != nil {
			return v
		}
		if res.OK() {
			var out struct{ Out [][]struct{ Panic string } }
			check(json.Unmarshal(res.Data, &out))
			if out.Out[0][0].Panic == "" {
				return viol("derivative-not-refused", "%+v of a grid %+v is not refused", o, *b)
			}
		}
		x.Probe("derivative-refused")
		return nil
	}
	tabs := make([][]float32, 6)
	for i := range tabs {
		tabs[i] = make([]float32, 729)
		for k := range tabs[i] {
			tabs[i][k] = float32(r.Uniform(-100, 100))
		}
	}
	ops := make([][]libOp, nc)
	for _, op := range s.Ops {
		q := newPRNG(uint64(op))
		o := libOp{Obj: q.Intn(nobj), Fn: q.PickS("deriv", "grad", "div", "curl"), N: q.Intn(4), M: q.Intn(3), Lo: q.Uniform(-50, 50)}
		c := q.Intn(nc)
		ops[c] = append(ops[c], o)
	}
	var out struct {
		Out [][]struct {
			Panic string
			Out   [][]uint32
		}
		Tables  [][]uint32
		Default []interface{}
	}
	if v := runLib(x, s.Procs[0], "deriv", map[string]interface{}{"Tables": tabs, "Objs": objs, "Ops": ops}, &out); v != nil {
		return v
	}
	for i := range tabs {
		for k := range tabs[i] {
			if math.Float32bits(tabs[i][k]) != out.Tables[i][k] {
				return viol("input-changed", "taking derivatives changed value %d of its input", k)
			}
		}
	}
	if fmt.Sprint(out.Default) != "[false 2 4]" {
		return viol("default-changed", "the default options have become %v", out.Default)
	}
	for c := range ops {
		for oi, o := range ops[c] {
			res := out.Out[c][oi]
			b := objs[o.Obj]
			if res.Panic != "" {
				return viol("derivative-panics", "call %d of client %d (%+v of %+v): %s", oi, c, o, b, res.Panic)
			}
			order := b.Order
			if order == 0 {
				order = 4
			}
			n := b.W[0] * b.W[1] * b.W[2]
			dx := b.L / float64(b.Cells)
			der := func(t, k int) []float64 {
				v := make([]float64, n)
				for i := range v {
					v[i] = float64(tabs[o.N+t][i])
				}
				return fdiff(v, b.W, k, order, b.Periodic && b.W[k] == b.Cells, dx)
			}
			comb := func(a, c []float64, sg float64) []float64 {
				for i := range a {
					a[i] += sg * c[i]
				}
				return a
			}
			var want [3][]float64
			switch o.Fn {
			case "deriv":
				want[0] = der(0, o.M)
			case "grad":
				want = [3][]float64{der(0, 0), der(0, 1), der(0, 2)}
			case "div":
				want[0] = comb(comb(der(0, 0), der(1, 1), 1), der(2, 2), 1)
			case "curl":
				want = [3][]float64{comb(der(2, 1), der(1, 2), -1), comb(der(0, 2), der(2, 0), -1), comb(der(1, 0), der(0, 1), -1)}
			}
			for k := range want {
				for i := 0; i < n; i++ {
					prev := float64(float32(o.Lo) + float32(i%3))
					w := prev
					if want[k] != nil {
						switch b.Op {
						case 0:
							w = prev + want[k][i]
						case 1:
							w = prev - want[k][i]
						case 2:
							w = want[k][i]
						}
					}
					g := float64(math.Float32frombits(res.Out[k][i]))
					if !(math.Abs(g-w) <= 1e-3/dx+1e-4) {
						return viol("derivative-"+o.Fn, "call %d of client %d (%+v of grid %+v): component %d of pixel %d is %g, not %g", oi, c, o, b, k, i, g, w)
					}
				}
			}
			x.Probe("derivatives-" + o.Fn)
		}
	}
	return nil
}

// ------------------------------------------------------------- random numbers

type randObj struct {
	Type int
	Seed uint64
	Time bool
}

// sobolRef is the generator of Press et al. (2007), section 7.8.
type sobolRef struct {
	v  [6][30]uint32
	ix [6]uint32
	n  uint32
}

func newSobolRef() *sobolRef {
	deg := [6]int{1, 2, 3, 3, 4, 4}
	pol := [6]uint32{0, 1, 1, 2, 1, 4}
	init := [24]uint32{1, 1, 1, 1, 1, 1, 3, 1, 3, 3, 1, 1, 5, 7, 7, 3, 3, 5, 15, 11, 5, 15, 13, 9}
	s := &sobolRef{}
	for k := 0; k < 6; k++ {
		for j := 0; j < 30; j++ {
			if j < deg[k] {
				s.v[k][j] = init[j*6+k] << (29 - j)
				continue
			}
			x := s.v[k][j-deg[k]]
			x ^= x >> deg[k]
			for l := 1; l < deg[k]; l++ {
				// The coefficients of the polynomial, highest power first.
				if pol[k]>>(deg[k]-1-l)&1 == 1 {
					x ^= s.v[k][j-l]
				}
			}
			s.v[k][j] = x
		}
	}
	return s
}

func (s *sobolRef) next(dim int) []float64 {
	j := 0
	for s.n>>j&1 == 1 {
		j++
	}
	s.n++
	out := make([]float64, dim)
	for k := range s.ix {
		s.ix[k] ^= s.v[k][j]
	}
	for k := range out {
		out[k] = float64(s.ix[k]) / (1 << 30)
	}
	return out
}

func runRand(x *Ctx, s *Scen) *Violation {
	r := s.rng("rand")
	nobj, nc := s.I["objs"], s.I["clients"]
	objs := make([]randObj, nobj)
	dim := make([]int, nobj)
	vary := s.rng("dims").Chance(0.4) // as many dimensions as each call asks for
	owner := make([]int, nobj)
	seeds := []uint64{0, 1, r.Next(), r.Next() >> 33}
	for i := range objs {
		objs[i] = randObj{Type: r.Pick(0, 1, 2, 2, -1), Seed: seeds[r.Intn(len(seeds))], Time: r.Chance(0.2)}
		dim[i] = r.Range(1, 6)
		owner[i] = r.Intn(nc)
		if objs[i].Type < 0 {
			objs[i].Time = false
		}
	}
	ops := make([][]libOp, nc)
	for i := range objs {
		ops[owner[i]] = append(ops[owner[i]], libOp{Obj: i, Fn: "new"})
	}
	draws := make([]int, nobj)
	for _, op := range s.Ops {
		q := newPRNG(uint64(op))
		i := q.Intn(nobj)
		o := libOp{Obj: i}
		if objs[i].Type < 0 {
			o.Fn, o.N = q.PickS("next", "nextat"), dim[i]
			if vary {
				o.N = q.Range(1, 6)
			}
			if q.Chance(0.06) {
				o.Fn = "init"
			}
		} else {
			o.Fn = q.PickS("uniform", "uniform", "int", "at", "at")
			if q.Chance(0.02) {
				o.Fn, o.N = "badtype", q.Range(3, 255)
				ops[owner[i]] = append(ops[owner[i]], o)
				continue
			}
			o.Lo, o.Hi = 0, 1
			if q.Chance(0.5) {
				o.Lo = q.Uniform(-100, 100)
				o.Hi = o.Lo + q.Uniform(0, 200)
			}
			if o.Fn == "int" {
				o.Lo = float64(q.Range(-20, 20))
				o.Hi = o.Lo + float64(q.Range(1, 50))
			}
			draws[i]++
			if o.Fn == "at" {
				o.N = q.Pick(0, 1, 2, 7, 100, 1500)
				if q.Chance(0.1) {
					o.N = 6000
				}
				draws[i] += o.N - 1
			}
		}
		ops[owner[i]] = append(ops[owner[i]], o)
	}
	var out struct {
		Out           [][]libRes
		Before, After []int64
	}
	if v := runLib(x, s.Procs[0], "rand", map[string]interface{}{"Objs": objs, "Ops": ops}, &out); v != nil {
		return v
	}
	// The stream of each generator, drawn in one go in a process of its own.
	streams := make([][]float64, nobj)
	solo := map[randObj]int{}
	for i, b := range objs {
		if b.Type < 0 || draws[i] == 0 {
			continue
		}
		if b.Time {
			if out.Before[i] != out.After[i] {
				x.Probe("clock-moved")
				continue
			}
			b.Seed, b.Time = uint64(out.Before[i]), false
			x.Probe("time-seeds")
		}
		if k, ok := solo[b]; ok && draws[k] >= draws[i] {
			streams[i] = streams[k]
			x.Probe("same-seed-twice")
			continue
		}
		var so struct{ Out [][]libRes }
		if v := runLib(x, plainProc(s.rng("solo"), 1), "rand", map[string]interface{}{"Objs": []randObj{b},
			"Ops": [][]libOp{{{Fn: "new"}, {Fn: "at", N: draws[i], Lo: 0, Hi: 1}}}}, &so); v != nil {
			return v
		}
		if so.Out[0][1].Panic != "" {
			return viol("rand-panics", "%s", so.Out[0][1].Panic)
		}
		streams[i] = so.Out[0][1].vals()
		solo[b] = i
	}
	for i, st := range streams {
		for j, u := range st {
			if !(u >= 0 && u < 1) {
				return viol("rand-range", "draw %d of generator %+v from [0, 1) is %g", j, objs[i], u)
			}
		}
		if n := float64(len(st)); n >= 1000 {
			m, m2, cr := 0.0, 0.0, 0.0
			var oct [8]float64
			for j, u := range st {
				m += u
				m2 += u * u
				if j > 0 {
					cr += (u - 0.5) * (st[j-1] - 0.5)
				}
				if j%3 == 2 {
					o := 0
					for k := 0; k < 3; k++ {
						if st[j-k] >= 0.5 {
							o |= 1 << k
						}
					}
					oct[o]++
				}
			}
			chi := 0.0
			for _, o := range oct {
				e := math.Floor(n/3) / 8
				chi += (o - e) * (o - e) / e
			}
			sd := 7 / math.Sqrt(n)
			if math.Abs(m/n-0.5) > sd*0.2887 || math.Abs(m2/n-1.0/3) > sd*0.2982 || math.Abs(cr/n)*12 > sd || chi > 80 {
				return viol("rand-uniformity", "%g draws of generator %+v: mean %g, mean square %g, correlation %g, chi square of octants %g (7 degrees of freedom)", n, objs[i], m/n, m2/n, cr/n*12, chi)
			}
			x.Probe("uniformity-tested")
		}
		for k := 0; k < i; k++ {
			a, b := objs[i], objs[k]
			if a.Type != b.Type || a.Time || b.Time || len(st) < 4 || len(streams[k]) < 4 || uint32(a.Seed) == uint32(b.Seed) {
				continue
			}
			if st[0] == streams[k][0] && st[1] == streams[k][1] && st[2] == streams[k][2] && st[3] == streams[k][3] {
				return viol("rand-seed", "generators %+v and %+v produce the same numbers", a, b)
			}
			x.Probe("seeds-differ")
		}
	}
	used := make([]int, nobj)
	refs := make([]*sobolRef, nobj)
	for c := range ops {
		for oi, o := range ops[c] {
			res := out.Out[c][oi]
			if o.Fn == "badtype" {
				if res.Panic == "" {
					return viol("rand-not-refused", "a generator of the unknown type %d is made", o.N)
				}
				x.Probe("refused")
				continue
			}
			if res.Panic != "" {
				return viol("rand-panics", "call %d of client %d, %+v: %s", oi, c, o, res.Panic)
			}
			got := res.vals()
			var want []float64
			st := streams[o.Obj]
			switch o.Fn {
			case "new", "init":
				refs[o.Obj] = newSobolRef()
				continue
			case "next", "nextat":
				want = refs[o.Obj].next(o.N)
				x.Probe("sobol-points")
			case "uniform", "int", "at":
				n := 1
				if o.Fn == "at" {
					n = o.N
				}
				if len(got) != n {
					return viol("rand-length", "call %d of client %d, %+v, returns %d numbers", oi, c, o, len(got))
				}
				for _, g := range got {
					if !(g >= o.Lo && g <= o.Hi) || o.Fn == "int" && (g >= o.Hi || g != math.Floor(g)) || g == 1 && o.Hi == 1 && o.Lo == 0 {
						return viol("rand-range", "call %d of client %d, %+v, returns %g", oi, c, o, g)
					}
				}
				if st == nil {
					continue
				}
				for j := 0; j < n; j++ {
					v := st[used[o.Obj]]*(o.Hi-o.Lo) + o.Lo
					if o.Fn == "int" {
						v = math.Floor(v)
					}
					want = append(want, v)
					used[o.Obj]++
				}
			}
			if len(got) != len(want) {
				return viol("rand-length", "call %d of client %d, %+v, returns %d numbers", oi, c, o, len(got))
			}
			for j := range got {
				tol := 1e-12 * (math.Abs(o.Lo) + math.Abs(o.Hi))
				if !(math.Abs(got[j]-want[j]) <= tol) {
					return viol("rand-stream", "call %d of client %d, %+v of generator %+v: number %d is %g; alone the generator yields %g", oi, c, o, objs[o.Obj], j, got[j], want[j])
				}
			}
		}
	}
	return nil
}

// ------------------------------------------------------------- interpolators

// splineRef is the natural cubic spline through a table.
type splineRef struct{ x, y, m []float64 }

func newSplineRef(x, y []float64) *splineRef {
	n := len(x)
	if n > 1 && x[0] > x[n-1] {
		rx, ry := make([]float64, n), make([]float64, n)
		for i := range x {
			rx[i], ry[i] = x[n-1-i], y[n-1-i]
		}
		x, y = rx, ry
	}
	s := &splineRef{x, y, make([]float64, n)}
	if n < 3 {
		return s
	}
	// Gaussian elimination on the second derivatives.
	a := make([][]float64, n-2)
	for i := range a {
		a[i] = make([]float64, n-1)
		h0, h1 := x[i+1]-x[i], x[i+2]-x[i+1]
		if i > 0 {
			a[i][i-1] = h0
		}
		a[i][i] = 2 * (h0 + h1)
		if i+1 < n-2 {
			a[i][i+1] = h1
		}
		a[i][n-2] = 6 * ((y[i+2]-y[i+1])/h1 - (y[i+1]-y[i])/h0)
	}
	for i := range a {
		for k := i + 1; k < len(a) && k <= i+1; k++ {
			f := a[k][i] / a[i][i]
			for c := i; c < n-1; c++ {
				a[k][c] -= f * a[i][c]
			}
		}
	}
	for i := len(a) - 1; i >= 0; i-- {
		v := a[i][n-2]
		if i+1 < len(a) {
			v -= a[i][i+1] * s.m[i+2]
		}
		s.m[i+1] = v / a[i][i]
	}
	return s
}

func interval(x []float64, v float64) int {
	for i := len(x) - 2; i > 0; i-- {
		if v >= x[i] {
			return i
		}
	}
	return 0
}

func (s *splineRef) deriv(v float64, order int) float64 {
	i := interval(s.x, v)
	h := s.x[i+1] - s.x[i]
	a, b := s.x[i+1]-v, v-s.x[i]
	p, q := s.y[i]/h-s.m[i]*h/6, s.y[i+1]/h-s.m[i+1]*h/6
	switch order {
	case 0:
		return s.m[i]*a*a*a/(6*h) + s.m[i+1]*b*b*b/(6*h) + p*a + q*b
	case 1:
		return -s.m[i]*a*a/(2*h) + s.m[i+1]*b*b/(2*h) - p + q
	case 2:
		return (s.m[i]*a + s.m[i+1]*b) / h
	case 3:
		return (s.m[i+1] - s.m[i]) / h
	}
	return 0
}

// integral over [lo, hi], exactly, by Simpson's rule piece by piece.
func (s *splineRef) integral(lo, hi float64) float64 {
	if lo > hi {
		return -s.integral(hi, lo)
	}
	sum := 0.0
	for i := 0; i+1 < len(s.x); i++ {
		a, b := math.Max(lo, s.x[i]), math.Min(hi, s.x[i+1])
		if a < b {
			sum += (b - a) / 6 * (s.deriv(a, 0) + 4*s.deriv((a+b)/2, 0) + s.deriv(b, 0))
		}
	}
	return sum
}

func linRef(x, y []float64, v float64) float64 {
	n := len(x)
	if x[0] > x[n-1] {
		rx, ry := make([]float64, n), make([]float64, n)
		for i := range x {
			rx[i], ry[i] = x[n-1-i], y[n-1-i]
		}
		x, y = rx, ry
	}
	i := interval(x, v)
	f := (v - x[i]) / (x[i+1] - x[i])
	return y[i]*(1-f) + y[i+1]*f
}

type interpObj struct {
	Kind    string
	X, Y, Z int
	Vals    int
	X0, DX  [3]float64
	N       [3]int
	Via     int
}

// evalRef interpolates along the last dimension first.
func (b *interpObj) evalRef(ax [3][]float64, vals []float64, p [3]float64) float64 {
	one := func(x, y []float64, v float64) float64 {
		if b.cubic() {
			return newSplineRef(x, y).deriv(v, 0)
		}
		return linRef(x, y, v)
	}
	dims := b.dims()
	for k := dims - 1; k >= 0; k-- {
		n := 1
		for j := 0; j < k; j++ {
			n *= len(ax[j])
		}
		next := make([]float64, n)
		col := make([]float64, len(ax[k]))
		for i := range next {
			for j := range col {
				col[j] = vals[j*n+i]
			}
			next[i] = one(ax[k], col, p[k])
		}
		vals = next
	}
	return vals[0]
}

func (b *interpObj) dims() int {
	switch b.Kind {
	case "linear", "ulinear", "spline":
		return 1
	case "bilinear", "ubilinear", "bicubic", "ubicubic":
		return 2
	}
	return 3
}

func (b *interpObj) cubic() bool {
	switch b.Kind {
	case "spline", "bicubic", "ubicubic", "tricubic", "utricubic":
		return true
	}
	return false
}

func (b *interpObj) uniform() bool { return b.Kind[0] == 'u' }

func runInterp(x *Ctx, s *Scen) *Violation {
	r := s.rng("interp")
	nobj, nc := s.I["objs"], s.I["clients"]
	var tables [][]float64
	var axisTables []int
	table := func(n int) int { // some n increasing or decreasing numbers
		if r.Chance(0.4) {
			for _, i := range axisTables {
				if len(tables[i]) == n {
					return i
				}
			}
		}
		t := make([]float64, n)
		t[0] = r.Uniform(-10, 10)
		even, sg := r.Chance(0.3), float64(r.Pick(1, 1, 1, -1))
		for i := 1; i < n; i++ {
			d := r.Uniform(0.2, 1.5)
			if even {
				d = 0.75
			}
			t[i] = t[i-1] + sg*d
		}
		tables = append(tables, t)
		axisTables = append(axisTables, len(tables)-1)
		return len(tables) - 1
	}
	objs := make([]interpObj, nobj)
	axes := make([][3][]float64, nobj)
	owner := make([]int, nobj)
	valTables := map[int]int{}
	ops := make([][]libOp, nc)
	for i := range objs {
		b := &objs[i]
		b.Kind = r.PickS("linear", "ulinear", "bilinear", "ubilinear", "trilinear", "utrilinear", "spline", "bicubic", "ubicubic", "tricubic", "utricubic", "bicubic", "tricubic")
		b.X, b.Y, b.Z = -1, -1, -1
		tot := 1
		for k := 0; k < b.dims(); k++ {
			n := r.Range(2, 6)
			b.N[k] = n
			tot *= n
			if b.uniform() {
				b.X0[k], b.DX[k] = float64(r.Range(-20, 20))/4, float64(r.Range(1, 8))/4
				if r.Chance(0.5) { // such that knots are rounded
					b.X0[k], b.DX[k] = r.Uniform(-5, 5), r.Uniform(0.05, 2)
				}
				if r.Chance(0.25) {
					b.DX[k] = -b.DX[k]
				}
				axes[i][k] = make([]float64, n)
				for j := range axes[i][k] {
					axes[i][k][j] = b.X0[k] + float64(j)*b.DX[k]
				}
				continue
			}
			t := table(n)
			axes[i][k] = tables[t]
			switch k {
			case 0:
				b.X = t
			case 1:
				b.Y = t
			case 2:
				b.Z = t
			}
		}
		if v, ok := valTables[tot]; ok && r.Chance(0.4) {
			b.Vals = v
		} else {
			t := make([]float64, tot)
			for j := range t {
				t[j] = r.Uniform(-100, 100)
			}
			tables = append(tables, t)
			b.Vals = len(tables) - 1
			valTables[tot] = b.Vals
		}
		b.Via = r.Intn(2)
		owner[i] = r.Intn(nc)
		ops[owner[i]] = append(ops[owner[i]], libOp{Obj: i, Fn: "new"})
	}
	first := append([]interpObj{}, objs...)
	last := make([][3]float64, nobj)
	type key struct{ c, i int }
	isBad := map[key]bool{}
	// What an object is made of may change.
	axAt := map[key][3][]float64{}
	valAt := map[key]int{}
	vals := func(n int) int {
		t := make([]float64, n)
		for j := range t {
			t[j] = r.Uniform(-100, 100)
		}
		tables = append(tables, t)
		return len(tables) - 1
	}
	for _, op := range s.Ops {
		q := newPRNG(uint64(op))
		i := q.Intn(nobj)
		b := &objs[i]
		fn := q.PickS("eval", "eval", "eval", "all", "allinto")
		if b.Kind == "spline" && q.Chance(0.4) {
			fn = q.PickS("deriv", "integ")
		}
		c := owner[i]
		switch {
		case q.Chance(0.08): // an object which cannot be
			e := *b
			n := len(tables[e.Vals])
			wrong := n + q.Pick(1, -1, 1, n)
			switch {
			case e.Kind == "ulinear" || wrong < 1:
				continue
			case e.Kind == "spline" && q.Chance(0.6):
				// A table which is out of order.
				if e.N[0] < 3 {
					continue
				}
				t := append([]float64{}, axes[i][0]...)
				j := q.Intn(len(t) - 1)
				t[j], t[j+1] = t[j+1], t[j]
				tables = append(tables, t)
				e.X = len(tables) - 1
			default:
				e.Vals = vals(wrong)
			}
			isBad[key{c, len(ops[c])}] = true
			ops[c] = append(ops[c], libOp{Obj: len(objs), Fn: "new"})
			objs = append(objs, e)
			axes = append(axes, axes[i])
			continue
		case q.Chance(0.08):
			n := q.Range(1, 7)
			t := libOp{Fn: "tridiag", N: q.Intn(2), M: n}
			for j := 0; j < n; j++ {
				t.X, t.Y, t.Z = append(t.X, q.Uniform(-1, 1)), append(t.Y, q.Uniform(2.2, 4)*float64(q.Pick(1, -1))), append(t.Z, q.Uniform(-1, 1))
				t.R = append(t.R, q.Uniform(-5, 5))
			}
			if q.Chance(0.25) {
				isBad[key{c, len(ops[c])}] = true
				switch q.Intn(5) {
				case 0:
					t.X = append(t.X, 1)
				case 1:
					t.Y = append(t.Y, 1)
				case 2:
					t.Z = append(t.Z, 1)
				case 3:
					t.R = append(t.R, 1)
				default:
					t.Y[0] = 0
				}
			}
			ops[c] = append(ops[c], t)
			continue
		case b.Kind == "spline" && q.Chance(0.15):
			if q.Chance(0.3) { // of another length
				isBad[key{c, len(ops[c])}] = true
				j := table(b.N[0] + q.Pick(1, 2))
				ops[c] = append(ops[c], libOp{Obj: i, Fn: "reinit", N: j, M: vals(b.N[0])})
				continue
			}
			b.X, b.Vals = table(b.N[0]), vals(b.N[0])
			axes[i][0] = tables[b.X]
			last[i][0] = axes[i][0][0]
			ops[c] = append(ops[c], libOp{Obj: i, Fn: "reinit", N: b.X, M: b.Vals})
			continue
		case b.Kind == "spline" && q.Chance(0.1):
			fn = "spline-interpolator"
		}
		o := libOp{Obj: i, Fn: fn}
		coord := func(k int) float64 {
			a := axes[i][k]
			lo, hi := math.Min(a[0], a[len(a)-1]), math.Max(a[0], a[len(a)-1])
			switch {
			case q.Chance(0.3):
				return last[i][k]
			case q.Chance(0.25):
				return a[q.Intn(len(a))]
			case q.Chance(0.3):
				return a[q.Pick(0, len(a)-1)]
			case q.Chance(0.2): // as close to a knot as can be
				v := a[q.Pick(0, len(a)-1, q.Intn(len(a)))]
				v = math.Nextafter(v, q.Uniform(lo, hi))
				if q.Chance(0.3) {
					v = math.Nextafter(v, q.Uniform(lo, hi))
				}
				return math.Max(lo, math.Min(hi, v))
			}
			return q.Uniform(lo, hi)
		}
		within := func(k int, v float64) bool {
			a := axes[i][k]
			return v >= math.Min(a[0], a[len(a)-1]) && v <= math.Max(a[0], a[len(a)-1])
		}
		isb := false
		point := func() (p [3]float64) {
			for k := 0; k < b.dims(); k++ {
				p[k] = coord(k)
				if !within(k, p[k]) {
					p[k] = axes[i][k][0]
				}
			}
			if q.Chance(0.2) { // outside
				k := q.Intn(b.dims())
				a := axes[i][k]
				if q.Chance(0.5) {
					p[k] = math.Max(a[0], a[len(a)-1]) + q.Uniform(0.01, 2)
				} else {
					p[k] = math.Min(a[0], a[len(a)-1]) - q.Uniform(0.01, 2)
				}
				isb = true
			}
			last[i] = p
			return
		}
		switch fn {
		case "eval", "all", "allinto":
			n := 1
			if fn != "eval" {
				n = q.Intn(5)
			}
			for j := 0; j < n; j++ {
				p := point()
				o.X, o.Y, o.Z = append(o.X, p[0]), append(o.Y, p[1]), append(o.Z, p[2])
			}
		case "spline-interpolator":
			o.X, o.N, o.M = []float64{point()[0]}, b.X, b.Vals
		case "deriv":
			o.X, o.N = []float64{point()[0]}, q.Intn(5)
		case "integ":
			o.Lo, o.Hi = point()[0], point()[0]
		}
		isBad[key{c, len(ops[c])}] = isb
		axAt[key{c, len(ops[c])}], valAt[key{c, len(ops[c])}] = axes[i], b.Vals
		ops[c] = append(ops[c], o)
	}
	var out struct {
		Out    [][]libRes
		Tables [][]uint64
	}
	made := append([]interpObj{}, objs...)
	for i := range first {
		made[i] = first[i]
	}
	if v := runLib(x, s.Procs[0], "interp", map[string]interface{}{"Tables": tables, "Objs": made, "Ops": ops}, &out); v != nil {
		return v
	}
	for i := range tables {
		for k := range tables[i] {
			if math.Float64bits(tables[i][k]) != out.Tables[i][k] {
				return viol("table-changed", "value %d of table %d was changed", k, i)
			}
		}
	}
	for c := range ops {
		for oi, o := range ops[c] {
			res := out.Out[c][oi]
			b := &objs[o.Obj]
			ax := axAt[key{c, oi}]
			what := fmt.Sprintf("call %d of client %d, %+v of a %s interpolator over %v", oi, c, o, b.Kind, ax[:b.dims()])
			if o.Fn == "new" {
				what += fmt.Sprintf(", %+v", made[o.Obj])
			}
			if isBad[key{c, oi}] {
				if res.Panic == "" {
					return viol("interp-outside", "%s: a point outside of the table is accepted, as %v", what, res.vals())
				}
				x.Probe("refused-outside")
				continue
			}
			if res.Panic != "" {
				return viol("interp-panics", "%s: %s", what, res.Panic)
			}
			got := res.vals()
			vals := tables[valAt[key{c, oi}]]
			var want []float64
			switch o.Fn {
			case "new", "reinit":
				continue
			case "tridiag":
				n := len(o.R)
				m := &matObj{n, n, make([]float64, n*n)}
				for j := 0; j < n; j++ {
					m.Vals[j*n+j] = o.Y[j]
					if j > 0 {
						m.Vals[j*n+j-1] = o.X[j]
					}
					if j < n-1 {
						m.Vals[j*n+j+1] = o.Z[j]
					}
				}
				inv, _, _ := solveRef(m)
				want = mulRef(&matObj{n, n, inv}, &matObj{1, n, o.R})
				b = &interpObj{Kind: "tridiag"}
			case "spline-interpolator":
				want = []float64{b.evalRef(ax, vals, [3]float64{o.X[0], 0, 0})}
			case "eval", "all", "allinto":
				for j := range o.X {
					want = append(want, b.evalRef(ax, vals, [3]float64{o.X[j], o.Y[j], o.Z[j]}))
				}
			case "deriv", "integ":
				sp := newSplineRef(ax[0], vals)
				if o.Fn == "integ" {
					want = []float64{sp.integral(o.Lo, o.Hi)}
					break
				}
				onKnot := false
				for _, k := range sp.x {
					onKnot = onKnot || math.Abs(k-o.X[0]) < 1e-9
				}
				if o.N == 3 && onKnot {
					continue // jumps there
				}
				want = []float64{sp.deriv(o.X[0], o.N)}
			}
			if len(got) != len(want) {
				return viol("interp-length", "%s: %d results", what, len(got))
			}
			for j := range got {
				if !(math.Abs(got[j]-want[j]) <= 1e-6) {
					return viol("interp-"+o.Fn, "%s: result %d is %.12g, not %.12g", what, j, got[j], want[j])
				}
			}
			x.Probe(b.Kind)
		}
	}
	return nil
}

const libStub = "goroutine scheduler, clock, runtime random source, garbage collector, CPU count; no I/O is involved"

func libGen(maxOps, maxObjs int) func(r *PRNG, s *Scen) {
	return func(r *PRNG, s *Scen) {
		s.I["clients"], s.I["objs"] = r.Range(1, 4), r.Range(1, maxObjs)
		for i, n := 0, r.Range(1, maxOps); i < n; i++ {
			s.Ops = append(s.Ops, r.Intn(1<<30))
		}
		s.Procs = []*Proc{genProc(r, 1)}
	}
}

func init() {
	min := map[string]int{"clients": 1, "objs": 1}
	register(&Prop{
		ID: "C22", Quick: 8000, Thorough: 64000,
		Rule: "a run is a history of derivative, gradient, divergence and curl calls by one to four concurrent clients on shared inputs, grids and options, under a random schedule, each compared with finite differences computed independently; or one call which has to be refused; non-trivial if two clients were runnable at once or a probe was hit",
		Real: "package render/geom (GridLocation and its derivatives)", Stub: libStub, APIs: []string{"deriv"}, Min: min,
		Gen: func(r *PRNG, s *Scen) {
			libGen(12, 5)(r, s)
			if r.Chance(0.1) {
				s.Variant = "refused"
			}
		},
		Run: runDeriv,
	})
	register(&Prop{
		ID: "C23", Quick: 5000, Thorough: 40000,
		Rule:   "a run is a history of draws from one to six generators of all types by one to four concurrent clients under a random schedule and clock; every number is compared with the stream the same generator yields alone in a process of its own, or with an independent Sobol generator; the streams are tested for range, uniformity and dependence on the seed; non-trivial if two clients were runnable at once or a probe was hit",
		Assume: []string{"one generator belongs to one client", "uniformity is a statistic with a 7 sigma threshold, fixed by the seed"},
		Real:   "package math/rand", Stub: libStub, APIs: []string{"rand"}, Min: min,
		Gen: libGen(40, 6), Run: runRand,
	})
	register(&Prop{
		ID: "C24", Quick: 12000, Thorough: 96000,
		Rule:   "a run is a history of evaluations of one to six interpolators over shared tables by one to four concurrent clients under a random schedule, a fifth of them at points outside of the table, which have to panic; every result is compared with an independent interpolation; non-trivial if two clients were runnable at once or a probe was hit",
		Assume: []string{"one interpolator belongs to one client"},
		Real:   "package math/interpolate (linear, bilinear, trilinear, spline, bicubic, tricubic)", Stub: libStub, APIs: []string{"interp"}, Min: min,
		Gen: libGen(40, 6), Run: runInterp,
	})
}
