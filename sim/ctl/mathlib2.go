package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

func sameBits(a []float64, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float64bits(a[i]) != b[i] {
			return false
		}
	}
	return true
}

// ------------------------------------------------------------- sorting

func sortValues(r *PRNG) []float64 {
	n := r.Pick(0, 1, 2, 3, 4, 5, r.Range(6, 30), r.Range(20, 60), r.Range(60, 400))
	if r.Chance(0.03) {
		n = 3000
	}
	x := make([]float64, n)
	kind := r.Intn(7)
	for i := range x {
		switch kind {
		case 0:
			x[i] = r.Uniform(-1e3, 1e3)
		case 1: // few values
			x[i] = float64(r.Intn(3))
		case 2:
			x[i] = float64(i)
		case 3:
			x[i] = float64(n - i)
		case 4:
			x[i] = 4
		case 5: // an organ pipe
			x[i] = math.Abs(float64(i) - float64(n)/2)
		case 6: // of all sizes
			x[i] = r.Uniform(-1, 1) * math.Pow(10, float64(r.Range(-300, 300)))
		}
	}
	if kind > 1 && r.Chance(0.4) && n > 0 {
		for k := 0; k < 3; k++ {
			i, j := r.Intn(n), r.Intn(n)
			x[i], x[j] = x[j], x[i]
		}
	}
	return x
}

func runSort(x *Ctx, s *Scen) *Violation {
	nc, nobj := s.I["clients"], s.I["objs"]
	r := s.rng("sort")
	tabs := make([][]float64, 3)
	for i := range tabs {
		for len(tabs[i]) == 0 {
			tabs[i] = sortValues(r)
		}
	}
	objs := make([][]float64, nobj)
	model := make([][]float64, nobj)
	owner := make([]int, nobj)
	for i := range objs {
		objs[i] = append([]float64{}, sortValues(r)...)
		model[i] = append([]float64{}, objs[i]...)
		owner[i] = r.Intn(nc)
	}
	ops := make([][]libOp, nc)
	for _, op := range s.Ops {
		q := newPRNG(uint64(op))
		o := libOp{Obj: q.Intn(nobj), Fn: q.PickS("quick", "quick", "shell", "reverse", "set", "nth", "nth", "median", "percentile"), Hi: -1}
		c := q.Intn(nc)
		switch o.Fn {
		case "nth", "median", "percentile":
			o.N = q.Intn(len(tabs))
			n := len(tabs[o.N])
			o.M = q.Range(1, n)
			if q.Chance(0.3) {
				o.M = q.Pick(1, n)
			}
			if o.Fn == "nth" && q.Chance(0.05) {
				o.M = q.Pick(0, -1, n+1, 2*n+3)
			}
			o.Lo = q.Uniform(0, 1)
			if q.Chance(0.4) {
				o.Lo = []float64{0, 1, 0.5, 0.25}[q.Intn(4)]
			}
			if q.Chance(0.6) {
				o.Hi = float64(n)
				if q.Chance(0.08) {
					o.Hi = float64(n + q.Pick(-1, 1, 5))
				}
			}
			if o.Fn == "percentile" && q.Chance(0.05) {
				o.Lo = []float64{-0.01, 1.01, 50}[q.Intn(3)]
			}
		case "set":
			o.X = sortValues(q)
			c = owner[o.Obj]
		default:
			c = owner[o.Obj]
		}
		ops[c] = append(ops[c], o)
	}
	var out struct {
		Out          [][]libRes
		Tables, Objs [][]uint64
	}
	if v := runLib(x, s.Procs[0], "sort", map[string]interface{}{"Tables": tabs, "Objs": objs, "Ops": ops}, &out); v != nil {
		return v
	}
	for i := range tabs {
		if !sameBits(tabs[i], out.Tables[i]) {
			return viol("input-changed", "selecting from an array has changed it")
		}
	}
	for c := range ops {
		for oi, o := range ops[c] {
			res := out.Out[c][oi]
			o.X = nil
			what := fmt.Sprintf("call %d of client %d, %+v", oi, c, o)
			bad := false
			switch o.Fn {
			case "nth", "median", "percentile":
				n := float64(len(tabs[o.N]))
				bad = o.Hi >= 0 && o.Hi != n || o.Fn == "percentile" && (o.Lo < 0 || o.Lo > 1) ||
					o.Fn == "nth" && (o.M < 1 || o.M > len(tabs[o.N]))
			}
			if bad {
				if res.Panic == "" {
					return viol("sort-not-refused", "%s is not refused", what)
				}
				x.Probe("refused")
				continue
			}
			if res.Panic != "" {
				return viol("sort-panics", "%s: %s", what, res.Panic)
			}
			got := res.vals()
			m := model[o.Obj]
			switch o.Fn {
			case "set":
				copy(m, ops[c][oi].X)
				continue
			case "quick", "shell":
				sort.Float64s(m)
			case "reverse":
				for i, j := 0, len(m)-1; i < j; i, j = i+1, j-1 {
					m[i], m[j] = m[j], m[i]
				}
			default:
				t := append([]float64{}, tabs[o.N]...)
				sort.Float64s(t)
				n := len(t)
				k := n - o.M
				if o.Fn == "median" {
					k = n / 2
				} else if o.Fn == "percentile" {
					k = int(o.Lo * float64(n))
					if k == n {
						k--
					}
				}
				m = t[k : k+1]
			}
			if len(got) != len(m) {
				return viol("sort-length", "%s returns %d values instead of %d", what, len(got), len(m))
			}
			for i := range m {
				if got[i] != m[i] {
					return viol("sort-"+o.Fn, "%s: value %d is %g, not %g", what, i, got[i], m[i])
				}
			}
			x.Probe(o.Fn)
		}
	}
	for i := range model {
		for k := range model[i] {
			if math.Float64frombits(out.Objs[i][k]) != model[i][k] {
				return viol("sort-array", "array %d: value %d is %g in the end, not %g", i, k, math.Float64frombits(out.Objs[i][k]), model[i][k])
			}
		}
	}
	return nil
}

// ------------------------------------------------------------- matrices

type matObj struct {
	W, H int
	Vals []float64
}

// solveRef returns the inverse and determinant of a square matrix by
// elimination with full pivoting, and its condition number in the maximum
// norm.
func solveRef(a *matObj) (inv []float64, det, cond float64) {
	n := a.W
	m := append([]float64{}, a.Vals...)
	inv = make([]float64, n*n)
	det = 1
	// Every row is brought to the same size first, exactly.
	scale := make([]float64, n)
	for i := 0; i < n; i++ {
		big := 0.0
		for j := 0; j < n; j++ {
			big = math.Max(big, math.Abs(m[i*n+j]))
		}
		if big == 0 {
			return nil, 0, math.Inf(1)
		}
		_, e := math.Frexp(big)
		scale[i] = math.Ldexp(1, -e)
		for j := 0; j < n; j++ {
			m[i*n+j] *= scale[i]
		}
		det /= scale[i]
		inv[i*n+i] = 1
	}
	sized := append([]float64{}, m...)
	perm := make([]int, n)
	for i := range perm {
		perm[i] = i
	}
	for k := 0; k < n; k++ {
		pi, pj := k, k
		for i := k; i < n; i++ {
			for j := k; j < n; j++ {
				if math.Abs(m[i*n+j]) > math.Abs(m[pi*n+pj]) {
					pi, pj = i, j
				}
			}
		}
		if m[pi*n+pj] == 0 {
			return nil, 0, math.Inf(1)
		}
		if pi != k {
			det = -det
			for j := 0; j < n; j++ {
				m[pi*n+j], m[k*n+j] = m[k*n+j], m[pi*n+j]
				inv[pi*n+j], inv[k*n+j] = inv[k*n+j], inv[pi*n+j]
			}
		}
		if pj != k {
			det = -det
			for i := 0; i < n; i++ {
				m[i*n+pj], m[i*n+k] = m[i*n+k], m[i*n+pj]
			}
			perm[pj], perm[k] = perm[k], perm[pj]
		}
		p := m[k*n+k]
		det *= p
		for j := 0; j < n; j++ {
			m[k*n+j] /= p
			inv[k*n+j] /= p
		}
		for i := 0; i < n; i++ {
			if f := m[i*n+k]; i != k && f != 0 {
				for j := 0; j < n; j++ {
					m[i*n+j] -= f * m[k*n+j]
					inv[i*n+j] -= f * inv[k*n+j]
				}
			}
		}
	}
	out := make([]float64, n*n)
	for k := 0; k < n; k++ {
		copy(out[perm[k]*n:perm[k]*n+n], inv[k*n:k*n+n])
	}
	norm := func(v []float64) float64 {
		max := 0.0
		for i := 0; i < n; i++ {
			sum := 0.0
			for j := 0; j < n; j++ {
				sum += math.Abs(v[i*n+j])
			}
			max = math.Max(max, sum)
		}
		return max
	}
	cond = norm(sized) * norm(out)
	for i := range out {
		out[i] *= scale[i%n]
	}
	return out, det, cond
}

func genMat(r *PRNG, h, w int) matObj {
	m := matObj{W: w, H: h, Vals: make([]float64, w*h)}
	for t := 0; t < 100; t++ {
		kind := r.Intn(4)
		for i := range m.Vals {
			m.Vals[i] = r.Uniform(-1, 1)
			switch kind {
			case 1: // sparse
				if r.Chance(0.5) {
					m.Vals[i] = 0
				}
			case 2: // small integers
				m.Vals[i] = float64(r.Range(-3, 3))
			}
		}
		if kind == 3 && w == h { // a permutation, scaled
			for i := range m.Vals {
				m.Vals[i] = 0
			}
			for i, j := range r.Perm(w) {
				m.Vals[i*w+j] = r.Uniform(0.5, 2)
			}
		}
		if r.Chance(0.3) {
			for i := 0; i < h; i++ {
				f := math.Pow(10, float64(r.Range(-2, 2)))
				for j := 0; j < w; j++ {
					m.Vals[i*w+j] *= f
				}
			}
		}
		if r.Chance(0.2) { // rows of very different sizes
			for i := 0; i < h; i++ {
				f := math.Ldexp(1, r.Range(-11, 11))
				for j := 0; j < w; j++ {
					m.Vals[i*w+j] *= f
				}
			}
		}
		for i := range m.Vals {
			m.Vals[i] = float64(float32(m.Vals[i])) // so that both types hold the same
		}
		if w != h {
			return m
		}
		if _, _, c := solveRef(&m); c < 300 {
			return m
		}
	}
	for i := range m.Vals {
		m.Vals[i] = 0
		if i/w == i%w {
			m.Vals[i] = 1
		}
	}
	return m
}

func mulRef(a, b *matObj) []float64 {
	out := make([]float64, a.H*b.W)
	for i := 0; i < a.H; i++ {
		for j := 0; j < b.W; j++ {
			for k := 0; k < a.W; k++ {
				out[i*b.W+j] += a.Vals[i*a.W+k] * b.Vals[k*b.W+j]
			}
		}
	}
	return out
}

func runMat(x *Ctx, s *Scen) *Violation {
	nc := s.I["clients"]
	r := s.rng("mat")
	// Square matrices of a few sizes, and others.
	var ms []matObj
	sizes := []int{r.Range(1, 3), r.Range(2, 5), r.Range(4, 9)}
	byN := map[int][]int{}
	for i := 0; i < 9; i++ {
		n := sizes[i%3]
		byN[n] = append(byN[n], len(ms))
		ms = append(ms, genMat(r, n, n))
	}
	nsq := len(ms)
	for i := 0; i < 6; i++ {
		ms = append(ms, genMat(r, r.Range(1, 6), r.Range(1, 6)))
	}
	zero := len(ms) // singular for everybody to see
	{
		m := genMat(r, sizes[1], sizes[1])
		k := r.Intn(m.H)
		for j := 0; j < m.W; j++ {
			m.Vals[k*m.W+j] = 0
		}
		ms = append(ms, m)
	}
	dup := len(ms) // singular, less obviously
	{
		m := genMat(r, sizes[2], sizes[2])
		k := r.Intn(m.H - 1)
		copy(m.Vals[k*m.W:(k+1)*m.W], m.Vals[(k+1)*m.W:(k+2)*m.W])
		ms = append(ms, m)
	}
	shared := []int{r.Intn(nsq), r.Intn(nsq)}
	ops := make([][]libOp, nc)
	type key struct{ c, obj, bits int }
	cur := map[key]int{}  // the matrix a factorisation is of
	size := map[key]int{} // its size, fixed
	of := map[[2]int]int{}
	for _, op := range s.Ops {
		q := newPRNG(uint64(op))
		c := q.Intn(nc)
		o := libOp{Hi: float64(q.Pick(0, 0, 1))}
		o.Fn = q.PickS("mult", "mult", "transpose", "matvec", "vecmat", "det", "invert", "solvevec", "solvemat",
			"factor", "factor", "lu-det", "lu-invert", "lu-solvevec", "lu-solvevec", "lu-solvemat", "lu-solvemat", "mismatch", "singular",
			"bad-new", "bad-square", "bad-factor", "bad-solvevec", "bad-solvemat", "bad-invert")
		o.N = q.Intn(nsq)
		vec := func(n int) []float64 {
			v := make([]float64, n)
			for i := range v {
				v[i] = float64(float32(q.Uniform(-2, 2)))
			}
			return v
		}
		switch o.Fn {
		case "mult":
			o.N = q.Intn(len(ms))
			var fit []int
			for i := range ms {
				if ms[i].H == ms[o.N].W {
					fit = append(fit, i)
				}
			}
			if len(fit) == 0 {
				continue
			}
			o.M, o.Lo = fit[q.Intn(len(fit))], float64(q.Intn(2))
		case "mismatch":
			o.N, o.M, o.Fn = q.Intn(len(ms)), q.Intn(len(ms)), "mult"
			if ms[o.N].W == ms[o.M].H {
				continue
			}
		case "transpose":
			o.N, o.Lo, o.Hi = q.Intn(len(ms)), float64(q.Intn(2)), 0 // 64 bits only
		case "matvec":
			o.Hi, o.N = 0, q.Intn(len(ms))
			o.X, o.Lo = vec(ms[o.N].W), float64(ms[o.N].H)
		case "vecmat":
			o.Hi, o.N = 0, q.Intn(len(ms))
			o.X, o.Lo = vec(ms[o.N].H), float64(ms[o.N].W)
		case "solvevec":
			o.X = vec(ms[o.N].W)
		case "solvemat":
			f := byN[ms[o.N].W]
			o.M = f[q.Intn(len(f))]
		case "singular":
			o.Fn = q.PickS("det", "invert")
			o.N = zero
			if q.Chance(0.5) {
				o.Fn, o.N = "det", dup
			}
		case "factor":
			o.Obj = q.Intn(3)
			k := key{c, o.Obj, int(o.Hi)}
			if n := size[k]; n != 0 {
				f := byN[n]
				o.N = f[q.Intn(len(f))]
			}
			size[k], cur[k] = ms[o.N].W, o.N
		case "bad-new":
			w, h := q.Range(0, 4), q.Range(0, 4)
			n := w*h + q.Pick(0, 1, -1, w, h)
			if n < 0 || n == w*h && n > 0 {
				n = w*h + 1
			}
			o.N, o.M, o.X = w, h, vec(n)
		case "bad-square":
			o.N, o.Lo = q.Range(nsq, len(ms)-3), float64(q.Intn(4))
			if ms[o.N].W == ms[o.N].H {
				continue
			}
		case "bad-factor", "bad-solvevec", "bad-solvemat", "bad-invert":
			o.Obj = q.Intn(3)
			k, ok := cur[key{c, o.Obj, int(o.Hi)}]
			if !ok || o.Fn == "bad-factor" && q.Chance(0.5) {
				o.Obj = -1 - q.Intn(2)
				k = shared[-1-o.Obj]
			}
			n := ms[k].W
			o.N = k
			switch o.Fn {
			case "bad-factor":
				o.N = q.Intn(len(ms))
				if ms[o.N].W == n && ms[o.N].H == n {
					continue
				}
			case "bad-solvevec":
				a, b := n, q.Pick(n-1, n+1, 2*n)
				if q.Chance(0.5) {
					a, b = b, a
				}
				o.X, o.Lo = vec(a), float64(b)
			default:
				o.M, o.Lo = q.Intn(len(ms)), float64(q.Intn(2))
				if ms[o.M].W == n && ms[o.M].H == n {
					continue
				}
			}
		case "lu-det", "lu-invert", "lu-solvevec", "lu-solvemat":
			o.Obj = q.Intn(3)
			k, ok := cur[key{c, o.Obj, int(o.Hi)}]
			if !ok {
				o.Obj = -1 - q.Intn(2)
				k = shared[-1-o.Obj]
			}
			of[[2]int{c, len(ops[c])}] = k
			f := byN[ms[k].W]
			o.N, o.M, o.Lo = f[0], f[q.Intn(len(f))], float64(q.Intn(2))
			if o.Fn == "lu-solvevec" {
				o.X = vec(ms[k].W)
			}
		}
		ops[c] = append(ops[c], o)
	}
	if s.I["big"] == 1 {
		// Longer than the blocks which matrices are transposed by.
		ops[0] = append(ops[0], libOp{Fn: "big-transpose", Lo: float64(16000001 + r.Intn(100000)), X: []float64{float64(r.Pick(1, 1, 2)), float64(r.Intn(2))}})
	}
	var out struct {
		Out          [][]libRes
		Mats, Mats32 [][]float64
	}
	if v := runLib(x, s.Procs[0], "mat", map[string]interface{}{"Mats": ms, "Shared": shared, "Ops": ops}, &out); v != nil {
		return v
	}
	for i := range ms {
		if fmt.Sprint(ms[i].Vals) != fmt.Sprint(out.Mats[i]) || fmt.Sprint(ms[i].Vals) != fmt.Sprint(out.Mats32[i]) {
			return viol("input-changed", "matrix %d has changed", i)
		}
	}
	for c := range ops {
		for oi, o := range ops[c] {
			res := out.Out[c][oi]
			if o.Fn == "bad-new" {
				if res.Panic == "" {
					return viol("matrix-not-refused", "a matrix of %d x %d values is made of %d", o.N, o.M, len(o.X))
				}
				x.Probe("refused-shape")
				continue
			}
			if o.Fn == "big-transpose" {
				if got := res.vals(); res.Panic != "" || len(got) != 1 || got[0] != 0 {
					return viol("matrix-value", "the transpose of %g x %g values: %s, %v of its values are wrong", o.Lo, o.X[0], res.Panic, got)
				}
				x.Probe("big-transpose")
				continue
			}
			a, b := &ms[o.N], &ms[o.M]
			if k, ok := of[[2]int{c, oi}]; ok {
				a = &ms[k]
			}
			what := fmt.Sprintf("call %d of client %d, %s(%+v", oi, c, o.Fn, *a)
			if o.M != 0 {
				what += fmt.Sprintf(", %+v", *b)
			}
			what += fmt.Sprintf(", %v), 32 bits: %v, factorisation %d", o.X, o.Hi != 0, o.Obj)
			refuse := strings.HasPrefix(o.Fn, "bad-") || o.Fn == "mult" && a.W != b.H || o.N == zero && (o.Fn == "det" || o.Fn == "invert")
			if refuse {
				if res.Panic == "" {
					return viol("matrix-not-refused", "%s is not refused", what)
				}
				x.Probe("refused")
				continue
			}
			if res.Panic != "" {
				return viol("matrix-panics", "%s: %s", what, res.Panic)
			}
			got := res.vals()
			tol := 1e-9
			if o.Hi != 0 {
				tol = 3e-3
			}
			var want []float64
			inverse := func() *matObj {
				inv, _, _ := solveRef(a)
				return &matObj{a.W, a.H, inv}
			}
			switch o.Fn {
			case "mult":
				want = mulRef(a, b)
			case "transpose":
				want, tol = make([]float64, len(a.Vals)), 0
				for i := 0; i < a.H; i++ {
					for j := 0; j < a.W; j++ {
						want[j*a.H+i] = a.Vals[i*a.W+j]
					}
				}
			case "matvec":
				want = mulRef(a, &matObj{1, len(o.X), o.X})
			case "vecmat":
				want = mulRef(&matObj{len(o.X), 1, o.X}, a)
			case "factor":
				continue
			case "det", "lu-det":
				_, d, _ := solveRef(a)
				scale := 1.0 // of the matrix
				for i := 0; i < a.H; i++ {
					sum := 0.0
					for j := 0; j < a.W; j++ {
						sum += math.Abs(a.Vals[i*a.W+j])
					}
					scale *= sum
				}
				if o.N == dup && o.Fn == "det" {
					d = 0
				}
				if len(got) != 1 || !(math.Abs(got[0]-d) <= tol*scale) {
					return viol("matrix-det", "%s is %v, not %g", what, got, d)
				}
				x.Probe(o.Fn)
				continue
			case "invert", "lu-invert":
				want = inverse().Vals
			case "solvevec", "lu-solvevec":
				want = mulRef(inverse(), &matObj{1, len(o.X), o.X})
				if o.Fn == "lu-solvevec" && o.Lo == 0 {
					want = append(want, o.X...) // the right hand side is left alone
				}
			case "solvemat", "lu-solvemat":
				want = mulRef(inverse(), b)
			}
			if len(got) != len(want) {
				return viol("matrix-size", "%s returns %d values instead of %d", what, len(got), len(want))
			}
			// Every column of a solution is as exact as the others.
			cols := 1
			if strings.HasSuffix(o.Fn, "invert") || strings.HasSuffix(o.Fn, "solvemat") {
				cols = a.W
			}
			big := make([]float64, cols)
			for i := range want {
				big[i%cols] = math.Max(big[i%cols], math.Abs(want[i]))
			}
			for i := range want {
				if !(math.Abs(got[i]-want[i]) <= tol*big[i%cols]) {
					return viol("matrix-"+o.Fn, "%s: value %d is %g, not %g", what, i, got[i], want[i])
				}
			}
			x.Probe(o.Fn)
		}
	}
	return nil
}

// ------------------------------------------------------------- kernels

type kernObj struct {
	Kind                string
	Width, Order, Deriv int
	Sigma, Dx           float64
}

func (b *kernObj) bad() bool {
	switch {
	case b.Width%2 != 1:
		return true
	case b.Kind == "savgol":
		return b.Width <= b.Order
	case b.Kind == "deriv":
		return b.Width <= b.Order || b.Deriv > b.Order
	}
	return false
}

// weights are what a kernel multiplies the points of its window with.
func (b *kernObj) weights() []float64 {
	n := b.Width / 2
	w := make([]float64, b.Width)
	switch b.Kind {
	case "tophat":
		for i := range w {
			w[i] = 1 / float64(b.Width)
		}
		return w
	case "gauss":
		sum := 0.0
		for i := range w {
			d := float64(i-n) * b.Dx / b.Sigma
			w[i] = math.Exp(-d * d / 2)
			sum += w[i]
		}
		for i := range w {
			w[i] /= sum
		}
		return w
	}
	// The derivative, at the centre, of the polynomial which fits the
	// window: a sum over polynomials orthogonal on its points, each of which
	// is kept as coefficients and as values.
	d := 0
	if b.Kind == "deriv" {
		d = b.Deriv
	}
	var vals [][]float64
	var coef [][]float64
	for k := 0; k <= b.Order; k++ {
		c := make([]float64, b.Order+1)
		v := make([]float64, b.Width)
		if k == 0 {
			c[0] = 1
			for i := range v {
				v[i] = 1
			}
		} else {
			// x times the previous one, in units of the half width
			for j := 0; j < b.Order; j++ {
				c[j+1] = coef[k-1][j]
			}
			for i := range v {
				v[i] = vals[k-1][i] * float64(i-n) / float64(n)
			}
			for t := 0; t < 2; t++ {
				for j := range vals {
					num, den := 0.0, 0.0
					for i := range v {
						num += v[i] * vals[j][i]
						den += vals[j][i] * vals[j][i]
					}
					for i := range v {
						v[i] -= num / den * vals[j][i]
					}
					for m := range c {
						c[m] -= num / den * coef[j][m]
					}
				}
			}
		}
		vals, coef = append(vals, v), append(coef, c)
		den := 0.0
		for i := range v {
			den += v[i] * v[i]
		}
		for i := range w {
			w[i] += v[i] / den * c[d]
		}
	}
	f := 1.0
	for k := 2; k <= d; k++ {
		f *= float64(k)
	}
	if b.Kind == "deriv" {
		f /= math.Pow(b.Dx*float64(maxi(n, 1)), float64(d))
	}
	for i := range w {
		w[i] *= f
	}
	return w
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// dividedDeriv is the derivative at p of the polynomial through the points, in
// Newton's form, and the size of the terms it is made of.
func dividedDeriv(xs, ys []float64, p float64) (d, big float64) {
	c := append([]float64{}, ys...)
	a := make([]float64, len(ys))
	for i := range a {
		a[i] = math.Abs(ys[i])
	}
	for k := 1; k < len(c); k++ {
		for i := len(c) - 1; i >= k; i-- {
			w := xs[i] - xs[i-k]
			c[i] = (c[i] - c[i-1]) / w
			a[i] = (a[i] + a[i-1]) / math.Abs(w)
		}
	}
	// basis polynomial k is the product of p - xs[j], j < k
	for k := 1; k < len(c); k++ {
		db, ab := 0.0, 0.0
		for m := 0; m < k; m++ {
			t := 1.0
			for j := 0; j < k; j++ {
				if j != m {
					t *= p - xs[j]
				}
			}
			db, ab = db+t, ab+math.Abs(t)
		}
		d += c[k] * db
		big += a[k] * ab
	}
	return d, big
}

// extended is value i of a sequence which goes on beyond its ends.
func extended(x []float64, bound, i int) float64 {
	n := len(x)
	if i >= 0 && i < n {
		return x[i]
	}
	switch bound {
	case 0: // periodic
		return x[pmodi(i, n)]
	case 1: // mirrored at the ends
		i = pmodi(i, 2*n)
		if i >= n {
			i = 2*n - 1 - i
		}
		return x[i]
	case 2:
		return 0
	}
	if i < 0 {
		return x[0]
	}
	return x[n-1]
}

func runKern(x *Ctx, s *Scen) *Violation {
	nc, nobj := s.I["clients"], s.I["objs"]
	r := s.rng("kern")
	objs := make([]kernObj, nobj)
	widest := 1
	for i := range objs {
		b := kernObj{Kind: r.PickS("tophat", "gauss", "savgol", "savgol", "deriv", "deriv"), Width: 2*r.Range(0, 8) + 1, Sigma: r.Uniform(0.3, 3), Dx: []float64{1, 0.1, 2.5}[r.Intn(3)]}
		if b.Kind == "savgol" || b.Kind == "deriv" {
			b.Width = 2*r.Range(1, 8) + 1
			b.Order = r.Range(0, 5)
			if b.Order >= b.Width {
				b.Order = b.Width - 1
			}
			b.Deriv = r.Intn(b.Order + 1)
		}
		if r.Chance(0.06) {
			switch r.Intn(3) {
			case 0:
				b.Width++
			case 1:
				b.Order = b.Width + r.Intn(3)
			case 2:
				b.Deriv = b.Order + 1
			}
		}
		objs[i] = b
		widest = maxi(widest, b.Width)
	}
	tabs := make([][]float64, 4)
	for i := range tabs {
		tabs[i] = make([]float64, widest+r.Pick(0, 1, 5, r.Intn(60)))
		kind := r.Intn(3)
		for k := range tabs[i] {
			tabs[i][k] = r.Uniform(-1, 1)
			if kind == 1 { // an impulse
				tabs[i][k] = 0
			}
		}
		if kind == 1 {
			tabs[i][r.Intn(len(tabs[i]))] = 1
		}
	}
	ops := make([][]libOp, nc)
	for _, op := range s.Ops {
		q := newPRNG(uint64(op))
		c := q.Intn(nc)
		o := libOp{Fn: q.PickS("conv", "conv", "conv", "conv", "get", "deriv", "deriv", "new"), Obj: q.Intn(nobj), N: q.Intn(len(tabs)), M: q.Intn(4), Lo: float64(q.Intn(2))}
		n := len(tabs[o.N])
		switch o.Fn {
		case "conv":
			if objs[o.Obj].bad() {
				o.Fn = "new"
			}
		case "get":
			o.Lo = float64(q.Range(-n, 2*n-1))
			if q.Chance(0.5) {
				o.Lo = float64(q.Pick(-1, -2, 0, n-1, n, n+1))
			}
			if o.Lo < float64(-n) || o.Lo >= float64(2*n) {
				o.Lo = -1
			}
		case "deriv":
			o.M = q.Pick(2, 2, 4, 4)
			x0, dx := q.Uniform(-10, 10), q.Uniform(0.01, 3)
			if q.Chance(0.3) {
				dx = -dx
			}
			o.X = make([]float64, n)
			for i := range o.X {
				o.X[i] = x0 + dx*float64(i)
			}
			if o.Un = q.Chance(0.5); o.Un { // unevenly spaced
				for i := range o.X {
					o.X[i] += dx * q.Uniform(-0.4, 0.4)
				}
			}
			o.Hi = float64(n)
			if q.Chance(0.1) {
				switch q.Intn(3) {
				case 0:
					o.Lo, o.Hi = 1, float64(n-1)
				case 1:
					o.X = o.X[:n-1]
				case 2:
					o.M = q.Pick(1, 3, 5, -2)
				}
			}
		}
		ops[c] = append(ops[c], o)
	}
	var out struct {
		Out    [][]libRes
		Tables [][]uint64
	}
	if v := runLib(x, s.Procs[0], "kern", map[string]interface{}{"Tables": tabs, "Objs": objs, "Ops": ops}, &out); v != nil {
		return v
	}
	for i := range tabs {
		if !sameBits(tabs[i], out.Tables[i]) {
			return viol("input-changed", "a sequence has changed")
		}
	}
	for c := range ops {
		for oi, o := range ops[c] {
			res := out.Out[c][oi]
			b := &objs[o.Obj]
			t := tabs[o.N]
			n := len(t)
			what := fmt.Sprintf("call %d of client %d, %s %d %g", oi, c, o.Fn, o.M, o.Lo)
			if o.Fn == "conv" || o.Fn == "new" {
				what += fmt.Sprintf(" of kernel %+v", *b)
			}
			refuse := o.Fn == "new" && b.bad() || o.Fn == "deriv" && (len(o.X) != n || o.Lo != 0 && o.Hi != float64(n) || o.M != 2 && o.M != 4 || n < o.M+1)
			if refuse {
				if res.Panic == "" {
					return viol("kernel-not-refused", "%s is not refused", what)
				}
				x.Probe("refused")
				continue
			}
			if res.Panic != "" {
				return viol("kernel-panics", "%s: %s", what, res.Panic)
			}
			got := res.vals()
			var want []float64
			tol := 1e-12
			switch o.Fn {
			case "new":
				continue
			case "get":
				want, tol = []float64{extended(t, o.M, int(o.Lo))}, 0
			case "conv":
				w := b.weights()
				big := 0.0
				for _, v := range w {
					big += math.Abs(v)
				}
				tol = 1e-7 * big
				for i := range t {
					sum := 0.0
					for j := range w {
						sum += w[j] * extended(t, o.M, i+j-len(w)/2)
					}
					want = append(want, sum)
				}
			case "deriv":
				dx := o.X[1] - o.X[0]
				tol = 1e-9 / math.Abs(dx)
				if !o.Un {
					want = fdiff(t, [3]int{n, 1, 1}, 0, o.M, false, dx)
					break
				}
				x.Probe("uneven")
				big := 0.0
				for i := range t {
					lo := i - o.M/2
					if lo > n-1-o.M {
						lo = n - 1 - o.M
					}
					if lo < 0 {
						lo = 0
					}
					d, w := dividedDeriv(o.X[lo:lo+o.M+1], t[lo:lo+o.M+1], o.X[i])
					want, big = append(want, d), math.Max(big, w)
				}
				tol = 1e-11 * big
			}
			if len(got) != len(want) {
				return viol("kernel-length", "%s returns %d values instead of %d", what, len(got), len(want))
			}
			for i := range want {
				if !(math.Abs(got[i]-want[i]) <= tol) {
					return viol("kernel-"+o.Fn, "%s of %d values: value %d is %.12g, not %.12g", what, n, i, got[i], want[i])
				}
			}
			if o.Fn == "conv" {
				x.Probe(fmt.Sprint("conv-", b.Kind))
			} else {
				x.Probe(o.Fn)
			}
		}
	}
	return nil
}
