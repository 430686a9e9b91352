package main

import (
	"fmt"
	"math"
	"sort"
)

type v3 [3]float64

func (a v3) sub(b v3) v3 { return v3{a[0] - b[0], a[1] - b[1], a[2] - b[2]} }
func (a v3) dot(b v3) float64 {
	return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]
}
func (a v3) cross(b v3) v3 {
	return v3{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
}
func (a v3) norm() float64 { return math.Sqrt(a.dot(a)) }

// tetModel is a tetrahedron with its longest edge and its height.
type tetModel struct {
	c         [4]v3
	vol, size float64
	fat       bool
	big       float64 // the largest coordinate
}

func newTetModel(c [4]v3) *tetModel {
	t := &tetModel{c: c}
	t.vol = math.Abs(c[1].sub(c[0]).dot(c[2].sub(c[0]).cross(c[3].sub(c[0])))) / 6
	area := 0.0
	for i := range c {
		for j := 0; j < i; j++ {
			t.size = math.Max(t.size, c[i].sub(c[j]).norm())
		}
		for k := 0; k < 3; k++ {
			t.big = math.Max(t.big, math.Abs(c[i][k]))
		}
		a, b, d := c[(i+1)%4], c[(i+2)%4], c[(i+3)%4]
		area = math.Max(area, b.sub(a).cross(d.sub(a)).norm()/2)
	}
	// The smallest height is not far below the longest edge, and far above
	// the rounding of coordinates.
	h := 0.0
	if area > 0 {
		h = 3 * t.vol / area
	}
	t.fat = h > 0.15*t.size && h > 2e-3*t.big
	return t
}

// weights are the barycentric coordinates of a point.
func (t *tetModel) weights(p v3) [4]float64 {
	var w [4]float64
	det := t.c[1].sub(t.c[0]).dot(t.c[2].sub(t.c[0]).cross(t.c[3].sub(t.c[0])))
	for i := range w {
		c := t.c
		c[i] = p
		w[i] = c[1].sub(c[0]).dot(c[2].sub(c[0]).cross(c[3].sub(c[0]))) / det
	}
	return w
}

// inside tells whether a point is in the tetrahedron, give or take rounding.
func (t *tetModel) inside(p v3) bool {
	tol := 1e-5 + 4e-6*t.big/(t.vol/(t.size*t.size))
	for _, w := range t.weights(p) {
		if !(w > -tol) {
			return false
		}
	}
	return true
}

func vecs3(x []float64) []v3 {
	out := make([]v3, len(x)/3)
	for i := range out {
		copy(out[i][:], x[3*i:])
	}
	return out
}

func f32vec(v v3) [3]float32 { return [3]float32{float32(v[0]), float32(v[1]), float32(v[2])} }

func runTetra(x *Ctx, s *Scen) *Violation {
	nc, nobj := s.I["clients"], s.I["objs"]
	r := s.rng("tetra")
	// Groups of four points for tetrahedra, and others.
	var pts [][3]float32
	var ps []v3
	add := func(v v3) {
		f := f32vec(v)
		pts = append(pts, f)
		ps = append(ps, v3{float64(f[0]), float64(f[1]), float64(f[2])})
	}
	const groups = 8
	width := []float64{1, 10, 512}[r.Intn(3)]
	var models [groups]*tetModel
	for g := 0; g < groups; g++ {
		o := v3{r.Uniform(0, width), r.Uniform(0, width), r.Uniform(0, width)}
		size := width * []float64{0.02, 0.2, 0.7}[r.Intn(3)]
		if r.Chance(0.2) {
			o = v3{}
		}
		flat := r.Chance(0.1)
		var c [4]v3
		for t := 0; t < 200; t++ {
			for i := range c {
				for k := range c[i] {
					c[i][k] = o[k] + size*r.Uniform(-0.5, 0.5)
				}
			}
			if r.Chance(0.15) { // a corner of a cube
				for i := range c {
					c[i] = o
					if i > 0 {
						c[i][i-1] += size * []float64{-0.5, 0.5}[r.Intn(2)]
					}
				}
			}
			if newTetModel(c).fat || flat {
				break
			}
		}
		for i := range c {
			add(c[i])
		}
		copy(c[:], ps[4*g:])
		models[g] = newTetModel(c)
	}
	// Points inside of and next to tetrahedra.
	for i := 0; i < 40; i++ {
		t := models[r.Intn(groups)]
		var w [4]float64
		sum := 0.0
		for k := range w {
			w[k] = -math.Log(1 - r.Float())
			sum += w[k]
		}
		for k := range w {
			w[k] /= sum
		}
		switch r.Intn(3) {
		case 0: // beyond one face, towards one corner
			a, b := r.Intn(4), r.Intn(3)
			d := r.Uniform(0, 0.5)
			w[a] += d
			w[(a+1+b)%4] -= d
		case 1: // beyond a face
			a := r.Intn(4)
			d := r.Uniform(0, 1)
			for k := range w {
				if k != a {
					w[k] += (w[a] + d) / 3
				}
			}
			w[a] = -d
		}
		var p v3
		for k := range w {
			for j := range p {
				p[j] += w[k] * t.c[k][j]
			}
		}
		add(p)
	}
	for i := 0; i < 12; i++ { // of vectors
		var p v3
		for k := range p {
			p[k] = r.Uniform(-1, 2) * width
			if r.Chance(0.2) {
				p[k] = []float64{0, width, -width, width / 2, 1.5 * width, -1e-9 * width, -1e-7 * width, width * (1 - 6e-8)}[r.Intn(8)]
			}
		}
		add(p)
	}
	nt := 4 * groups
	nv := nt + 40
	ops := make([][]libOp, nc)
	type key struct{ c, obj int }
	cur := map[key]*tetModel{}
	at := map[[2]int]*tetModel{}
	for _, op := range s.Ops {
		q := newPRNG(uint64(op))
		c := q.Intn(nc)
		o := libOp{Obj: q.Intn(nobj)}
		o.Fn = q.PickS("init", "volume", "contains", "contains", "bary", "bounds", "distribute", "tetra", "tetra64", "sample", "idxs", "idxs", "vec", "vec", "vec", "grid", "grid", "intersect", "intersect")
		k := key{c, o.Obj}
		switch o.Fn {
		case "volume", "contains", "bary", "bounds", "distribute", "tetra", "tetra64", "sample":
			if _, ok := cur[k]; !ok || q.Chance(0.1) {
				// A first use, or another one of the same object.
				g := q.Intn(groups)
				cur[k] = models[g]
				o2 := libOp{Obj: o.Obj, Fn: "init"}
				for i := 0; i < 4; i++ {
					o2.X = append(o2.X, float64(4*g+i))
				}
				ops[c] = append(ops[c], o2)
			}
			at[[2]int{c, len(ops[c])}] = cur[k]
		}
		unit := func(n int) {
			for i := 0; i < 3*n; i++ {
				u := q.Float()
				if q.Chance(0.05) {
					u = 0
				}
				o.X = append(o.X, u)
			}
		}
		ints := func(n, lo, hi int) {
			for i := 0; i < n; i++ {
				o.X = append(o.X, float64(q.Range(lo, hi)))
			}
		}
		switch o.Fn {
		case "init":
			g := q.Intn(groups)
			var c [4]v3
			for i, j := range q.Perm(4) {
				o.X = append(o.X, float64(4*g+j))
				c[i] = ps[4*g+j]
			}
			cur[k] = newTetModel(c)
		case "contains":
			for i, n := 0, q.Range(1, 8); i < n; i++ {
				o.X = append(o.X, float64(nt+q.Intn(40)))
			}
		case "bounds":
			o.Lo = width / float64(q.Pick(1, 4, 10, 64, 100))
		case "distribute", "tetra", "tetra64":
			unit(q.Pick(1, 2, 10, 10, 30, 30, 500))
		case "sample":
			o.N, o.M = q.Pick(1, 5, 30, 500), q.Intn(1<<30)
		case "idxs":
			o.M = q.Intn(4)
			w := q.Range(2, 9)
			skip := q.Range(1, w-1)
			if o.M == 2 {
				skip = 1
			}
			x0, y0, z0 := q.Intn(w-skip), q.Intn(w-skip), q.Intn(w-skip)
			if o.M == 3 {
				x0, y0, z0 = q.Intn(w), q.Intn(w), q.Intn(w)
			}
			o.X = []float64{float64(x0 + y0*w + z0*w*w), float64(w), float64(skip)}
			if o.M == 2 {
				o.X = []float64{float64(x0), float64(y0), float64(z0), float64(w)}
			}
		case "vec":
			o.M = q.Intn(6)
			o.X = []float64{float64(nv + q.Intn(12)), float64(nv + q.Intn(12))}
			o.Lo = width
			if o.M == 0 {
				o.Lo = q.Uniform(-2, 2)
			}
		case "grid":
			ints(3, -3, 5)
			ints(3, 1, 6)
			for k := 0; k < 3; k++ {
				o.X = append(o.X, o.X[k]+float64(q.Range(-1, int(o.X[3+k]))))
				if q.Chance(0.7) {
					o.X[6+k] = o.X[k] + float64(q.Intn(int(o.X[3+k])))
				}
			}
		case "intersect":
			o.N = q.Range(4, 20)
			for i := 0; i < 2; i++ {
				ints(3, 0, o.N-1)
				ints(3, 1, o.N/2)
			}
			for k := 0; k < 3; k++ {
				if q.Chance(0.4) { // so that one dimension decides
					o.X[6+k] = float64((int(o.X[k]) + q.Intn(int(o.X[3+k]))) % o.N)
				}
			}
		}
		ops[c] = append(ops[c], o)
	}
	var out struct {
		Out [][]libRes
		Pts [][3]float32
	}
	if v := runLib(x, s.Procs[0], "tetra", map[string]interface{}{"Pts": pts, "Ops": ops}, &out); v != nil {
		return v
	}
	for i := range pts {
		if pts[i] != out.Pts[i] {
			return viol("input-changed", "point %d has changed from %v to %v", i, pts[i], out.Pts[i])
		}
	}
	for c := range ops {
		for oi, o := range ops[c] {
			res := out.Out[c][oi]
			what := fmt.Sprintf("call %d of client %d, %+v", oi, c, o)
			var t *tetModel
			if m, ok := at[[2]int{c, oi}]; ok {
				t = m
				what += fmt.Sprintf(" of the tetrahedron %v", t.c)
			}
			if res.Panic != "" {
				return viol("geometry-panics", "%s: %s", what, res.Panic)
			}
			got := res.vals()
			if v := checkTetra(x, o, t, ps, got, what, width); v != nil {
				return v
			}
		}
	}
	return nil
}

func checkTetra(x *Ctx, o libOp, t *tetModel, ps []v3, got []float64, what string, width float64) *Violation {
	pt := func(i int) v3 { return ps[int(o.X[i])] }
	for _, g := range got {
		if math.IsNaN(g) || math.IsInf(g, 0) {
			return viol("geometry-nan", "%s is %v", what, got)
		}
	}
	near := func(a, b, tol float64) bool { return math.Abs(a-b) <= tol }
	switch o.Fn {
	case "init":
	case "volume":
		if !near(got[0], t.vol, 1e-5*t.size*t.size*(t.size+t.big)) {
			return viol("tetra-volume", "%s is %g, not %g", what, got[0], t.vol)
		}
		x.Probe(o.Fn)
	case "contains":
		for i := range o.X {
			if !t.fat {
				continue
			}
			in, out := true, false
			for _, w := range t.weights(pt(i)) {
				in = in && w > 0.02
				out = out || w < -0.02
			}
			if in && got[i] != 1 || out && got[i] != 0 {
				return viol("tetra-contains", "%s: point %v, with the weights %v: %v", what, pt(i), t.weights(pt(i)), got[i])
			}
			if in {
				x.Probe("inside")
			}
			if out {
				x.Probe("outside")
			}
		}
	case "bary":
		for k := 0; k < 3; k++ {
			m := (t.c[0][k] + t.c[1][k] + t.c[2][k] + t.c[3][k]) / 4
			if !near(got[k], m, 1e-6*t.big) {
				return viol("tetra-barycenter", "%s is %v, not %g along axis %d", what, got, m, k)
			}
		}
		x.Probe(o.Fn)
	case "bounds":
		for k := 0; k < 3; k++ {
			lo, hi := math.Inf(1), math.Inf(-1)
			for i := range t.c {
				lo, hi = math.Min(lo, t.c[i][k]), math.Max(hi, t.c[i][k])
			}
			e := 4e-7 * t.big
			l0, l1 := math.Floor((lo-e)/o.Lo), math.Floor((lo+e)/o.Lo)
			h0, h1 := math.Floor((hi-e)/o.Lo), math.Floor((hi+e)/o.Lo)
			last := got[k] + got[3+k] - 1
			if !(l0 <= got[k] && got[k] <= l1 && h0 <= last && last <= h1) {
				return viol("tetra-bounds", "%s: cells %g to %g along axis %d, of corners from %g to %g", what, got[k], last, k, lo, hi)
			}
		}
		x.Probe(o.Fn)
	case "distribute", "tetra", "tetra64", "sample":
		n := o.N
		if o.Fn != "sample" {
			n = len(o.X) / 3
		}
		vs := vecs3(got)
		want := n
		if o.Fn == "tetra" || o.Fn == "tetra64" {
			want = 2 * n
		}
		if len(vs) != want {
			return viol("tetra-count", "%s yields %d points", what, len(vs))
		}
		if !t.fat {
			return nil
		}
		for i := 0; i < n; i++ {
			if !t.inside(vs[i]) {
				return viol("tetra-points", "%s: point %d at %v is outside, with the weights %v", what, i, vs[i], t.weights(vs[i]))
			}
		}
		for i := n; i < want; i++ {
			u := vs[i]
			if u[0] < -1e-6 || u[1] < -1e-6 || u[2] < -1e-6 || u[0]+u[1]+u[2] > 1+1e-6 {
				return viol("tetra-unit", "%s: %v is outside of the unit tetrahedron", what, u)
			}
			// The barycentric coordinates are those of the point.
			w := t.weights(vs[i-n])
			tol := 1e-5 + 4e-6*t.big/(t.vol/(t.size*t.size))
			for k := 0; k < 3; k++ {
				if !near(w[k], u[k], tol) {
					return viol("tetra-weights", "%s: point %d has the weights %v, not %v", what, i-n, w, u)
				}
			}
		}
		// Uniform points: the means of the weights, their squares and their
		// products.
		if n >= 300 {
			var m [4]float64
			var mm [4][4]float64
			for i := 0; i < n; i++ {
				w := t.weights(vs[i])
				for j := range w {
					m[j] += w[j] / float64(n)
					for k := range w {
						mm[j][k] += w[j] * w[k] / float64(n)
					}
				}
			}
			e := 7 / math.Sqrt(float64(n))
			for j := range m {
				for k := range m {
					want, sd := 1.0/20, 0.053
					if j == k {
						want, sd = 0.1, 0.137
					}
					if !near(m[j], 0.25, 0.194*e) || !near(mm[j][k], want, sd*e) {
						return viol("tetra-uniform", "%s: the mean weights of %d points are %v, those of their products %v", what, n, m, mm)
					}
				}
			}
			x.Probe("uniform")
		}
		x.Probe(o.Fn)
	case "idxs":
		return checkIdxs(x, o, got, what)
	case "vec":
		a, b := pt(0), pt(1)
		switch o.M {
		case 0:
			for k := range a {
				if !near(got[k], a[k]*o.Lo, 1e-6*width) {
					return viol("vector-scale", "%s of %v is %v", what, a, got)
				}
			}
		case 1:
			for k := range a {
				if !(got[k] >= 0 && got[k] < width) {
					return viol("vector-mod", "%s of %v is %v, outside of the box", what, a, got)
				}
				d := math.Mod(math.Abs(got[k]-a[k]), width)
				if math.Min(d, width-d) > 3e-7*width {
					return viol("vector-mod", "%s of %v is %v", what, a, got)
				}
			}
		case 2:
			for k := range a {
				if !near(got[k], a[k]+b[k], 1e-6*width) {
					return viol("vector-add", "%s of %v and %v is %v", what, a, b, got)
				}
			}
		case 3:
			for k := range a {
				d := math.Mod(math.Abs(got[k]-(a[k]-b[k])), width)
				if math.Abs(a[k]-b[k]) > width {
					continue // not both inside of the box
				}
				if !(math.Abs(got[k]) <= width*(0.5+1e-6)) || math.Min(d, width-d) > 1e-6*width {
					return viol("vector-sub", "%s of %v and %v is %v", what, a, b, got)
				}
			}
		case 4:
			w := a.cross(b)
			for k := range a {
				if !near(got[k], w[k], 1e-5*width*width) {
					return viol("vector-cross", "%s of %v and %v is %v, not %v", what, a, b, got, w)
				}
			}
		case 5:
			d := a.dot(b)
			if !near(got[0], d, 1e-5*width*width) || got[0] != got[1] || !near(got[2], a.norm(), 1e-5*width) {
				return viol("vector-dot", "%s of %v and %v is %v, not %g and %g", what, a, b, got, d, a.norm())
			}
		}
		x.Probe(fmt.Sprint("vec", o.M))
	case "grid":
		var in [3]bool
		idx, f := 0.0, 1.0
		for k := 0; k < 3; k++ {
			d := o.X[6+k] - o.X[k]
			in[k] = d >= 0 && d < o.X[3+k]
			idx += d * f
			f *= o.X[3+k]
		}
		if in != [3]bool{true, true, true} {
			if got[0] != -1 || got[5] != 0 || got[6] != 0 {
				return viol("grid-outside", "%s is %v: the point is outside of the grid", what, got)
			}
			x.Probe("grid-outside")
			return nil
		}
		if got[0] != idx || got[4] != idx || got[5] != 1 || got[6] != 1 {
			return viol("grid-index", "%s is %v, the index is %g", what, got, idx)
		}
		for k := 0; k < 3; k++ {
			if got[1+k] != o.X[6+k]-o.X[k] {
				return viol("grid-coords", "%s is %v", what, got)
			}
		}
		x.Probe("grid")
	case "intersect":
		// Cells apart along each axis, periodic and not: negative if they
		// are shared.
		shared, apart := true, false
		unb := true
		for k := 0; k < 3; k++ {
			a0, aw, b0, bw := int(o.X[k]), int(o.X[3+k]), int(o.X[6+k]), int(o.X[9+k])
			unb = unb && a0 < b0+bw && b0 < a0+aw
			d := pmodi(b0-a0, o.N) // from the start of a to that of b
			over := d < aw || d+bw > o.N
			shared = shared && over
			if !over && d > aw && d+bw < o.N {
				apart = true
			}
		}
		if shared && (got[0] != 1 || got[1] != 1) {
			return viol("bounds-intersect", "%s is %v: the boxes share cells", what, got)
		}
		if apart && (got[0] != 0 || got[1] != 0) {
			return viol("bounds-intersect", "%s is %v: the boxes are apart", what, got)
		}
		u := 0.0
		if unb {
			u = 1
		}
		if got[2] != u || got[3] != u {
			return viol("bounds-unbounded", "%s is %v", what, got)
		}
		if shared {
			x.Probe("shared")
		}
		if apart {
			x.Probe("apart")
		}
	}
	return nil
}

// checkIdxs judges the indices of the corners of the six tetrahedra of a cube,
// or of the eight around a point. The six have to be the paths along the edges
// of the cube from its lower to its upper corner, which tile it; the eight
// have to lie in different octants, and none is left out unless it would
// leave the grid.
func checkIdxs(x *Ctx, o libOp, all []float64, what string) *Violation {
	var w, skip, x0, y0, z0 int
	if o.M == 2 {
		x0, y0, z0, w, skip = int(o.X[0]), int(o.X[1]), int(o.X[2]), int(o.X[3]), 1
	} else {
		i := int(o.X[0])
		w, skip = int(o.X[1]), int(o.X[2])
		x0, y0, z0 = i%w, i/w%w, i/w/w
	}
	base := [3]int{x0, y0, z0}
	dirs, fit := 6, 6
	if o.M == 3 {
		dirs, fit = 8, 1
		for k := range base {
			n := 0
			if base[k] >= skip {
				n++
			}
			if base[k]+skip < w {
				n++
			}
			fit *= n
		}
	}
	if len(all) != 4*dirs {
		return viol("tetra-indices", "%s is %v", what, all)
	}
	seen := map[string]bool{}
	for dir := 0; dir < dirs; dir++ {
		got := all[4*dir : 4*dir+4]
		if o.M == 3 && got[0] == -1 {
			continue
		}
		bad := func() *Violation {
			return viol("tetra-indices", "%s: number %d is %v, for the point %v", what, dir, got, base)
		}
		// The corners, as numbers of steps from the base.
		var steps [][3]int
		for _, g := range got {
			i := int(g)
			if i < 0 || i >= w*w*w {
				return bad()
			}
			p := [3]int{i % w, i / w % w, i / w / w}
			for k := range p {
				d := p[k] - base[k]
				if d%skip != 0 {
					return bad()
				}
				p[k] = d / skip
			}
			steps = append(steps, p)
		}
		sum := func(p [3]int) int { return absi(p[0]) + absi(p[1]) + absi(p[2]) }
		sort.SliceStable(steps, func(i, j int) bool { return sum(steps[i]) < sum(steps[j]) })
		var key string
		if o.M == 3 {
			var oct [3]int
			for i := range steps {
				if sum(steps[i]) != mini(i, 1) {
					return bad()
				}
				for k := range oct {
					oct[k] += steps[i][k]
				}
			}
			if sum(oct) != 3 || oct[0]*oct[1]*oct[2] == 0 {
				return bad()
			}
			key = fmt.Sprint("octant", oct)
		} else {
			for i := range steps {
				if sum(steps[i]) != i {
					return bad()
				}
				for k := 0; k < 3; k++ {
					if steps[i][k] < 0 || steps[i][k] > 1 || i > 0 && steps[i][k] < steps[i-1][k] {
						return bad()
					}
				}
			}
			key = fmt.Sprint("path", steps[1], steps[2])
		}
		if seen[key] {
			return viol("tetra-tiling", "%s: number %d is %v, like an earlier one", what, dir, got)
		}
		seen[key] = true
	}
	if len(seen) != fit {
		return viol("tetra-missing", "%s is %v: %d tetrahedra fit into the grid", what, all, fit)
	}
	x.Probe(fmt.Sprint("idxs", o.M))
	return nil
}

func mini(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func absi(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

func init() {
	min := map[string]int{"clients": 1, "objs": 1}
	register(&Prop{
		ID: "C30", Quick: 12000, Thorough: 96000,
		Rule:   "a run is a history of sorts, reversals, ranks, medians and percentiles of arrays of all shapes by one to four concurrent clients, which reuse their buffers and share the arrays they select from, under a random schedule; every result is compared with a sorted copy; non-trivial if two clients were runnable at once or a probe was hit",
		Assume: []string{"no NaNs", "an array which is sorted belongs to one client"},
		Real:   "package math/sort", Stub: libStub, APIs: []string{"sort"}, Min: min,
		Gen: libGen(24, 5), Run: runSort,
	})
	register(&Prop{
		ID: "C31", Quick: 10000, Thorough: 80000,
		Rule:   "a run is a history of products, transposes (some too long for one block), determinants, inverses, solutions and calls of the wrong shape, through matrices and through factorisations which are reused or shared, in 32 and 64 bits, by one to four concurrent clients under a random schedule; every result is compared with an elimination with full pivoting; non-trivial if two clients were runnable at once or a probe was hit",
		Assume: []string{"matrices which are inverted are conditioned better than 300", "a factorisation which is written to belongs to one client"},
		Real:   "package math/mat", Stub: libStub, APIs: []string{"mat"}, Min: min,
		Gen: func(r *PRNG, s *Scen) {
			libGen(24, 1)(r, s)
			if r.Chance(0.003) {
				s.I["big"] = 1
				s.Procs[0].Sched.Policy, s.Procs[0].Sched.Mean = "run", 1<<16
			}
		}, Run: runMat,
	})
	register(&Prop{
		ID: "C32", Quick: 10000, Thorough: 80000,
		Rule:   "a run is a history of convolutions of shared sequences with shared kernels of all kinds and boundaries, and of derivatives of sequences, by one to four concurrent clients under a random schedule; every result is compared with a direct sum over the extended sequence, weighted by a least squares fit for Savitzky-Golay kernels; non-trivial if two clients were runnable at once or a probe was hit",
		Assume: []string{"sequences are at least as long as the kernel", "points of derivatives increase"},
		Real:   "packages math/interpolate (kernels) and math/calc", Stub: libStub, APIs: []string{"kern"}, Min: min,
		Gen: libGen(24, 5), Run: runKern,
	})
	register(&Prop{
		ID: "C33", Quick: 12000, Thorough: 96000,
		Rule:   "a run is a history of operations on tetrahedra which are initialised again and again, on vectors in a periodic box, on tetrahedra of grids and on boxes of cells, by one to four concurrent clients with shared points, under a random schedule; every result is compared with its definition; non-trivial if two clients were runnable at once or a probe was hit",
		Assume: []string{"a tetrahedron belongs to one client", "containment is judged for points away from the faces of tetrahedra which are not flat", "boxes of cells which merely touch may count as intersecting", "vectors lie less than a box width outside of the box"},
		Real:   "package render/geom (vectors, tetrahedra, grids, cell bounds)", Stub: libStub, APIs: []string{"tetra"}, Min: min,
		Gen: libGen(24, 4), Run: runTetra,
	})
}
