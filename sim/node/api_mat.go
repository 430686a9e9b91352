package main

import (
	"encoding/json"
	"strings"

	"github.com/phil-mansfield/gotetra/math/mat"
)

type matObj struct {
	W, H int
	Vals []float64
}

func apiMat(par json.RawMessage) interface{} {
	var p struct {
		Mats []matObj // shared by everybody
		// Op: N and M are matrices, X a vector, Obj a factorisation of the
		// client's own (or a shared one, if negative), Lo != 0: in place,
		// Hi: 32 bits.
		Ops    [][]libOp
		Shared []int // matrices with a shared factorisation
	}
	if err := json.Unmarshal(par, &p); err != nil {
		panic(err)
	}
	f32 := func(x []float64) []float32 {
		y := make([]float32, len(x))
		for i := range x {
			y[i] = float32(x[i])
		}
		return y
	}
	f64 := func(x []float32) []float64 {
		y := make([]float64, len(x))
		for i := range x {
			y[i] = float64(x[i])
		}
		return y
	}
	ms := make([]*mat.Matrix, len(p.Mats))
	ms32 := make([]*mat.Matrix32, len(p.Mats))
	for i, m := range p.Mats {
		ms[i] = mat.NewMatrix(append([]float64{}, m.Vals...), m.W, m.H)
		ms32[i] = mat.NewMatrix32(f32(m.Vals), m.W, m.H)
	}
	var sh []*mat.LUFactors
	var sh32 []*mat.LUFactors32
	for _, k := range p.Shared {
		sh = append(sh, ms[k].LU())
		sh32 = append(sh32, ms32[k].LU())
	}
	own := make([]map[int]*mat.LUFactors, len(p.Ops))
	own32 := make([]map[int]*mat.LUFactors32, len(p.Ops))
	for i := range own {
		own[i], own32[i] = map[int]*mat.LUFactors{}, map[int]*mat.LUFactors32{}
	}
	stale := func(n int) []float64 {
		x := make([]float64, n)
		for i := range x {
			if (i+n)%3 != 0 { // some left over, some not
				x[i] = 1e3 + float64(i)
			}
		}
		return x
	}
	do64 := func(c int, o libOp) []float64 {
		if o.Fn == "bad-new" {
			return mat.NewMatrix(o.X, o.N, o.M).Vals
		}
		a := ms[o.N]
		b := ms[o.M]
		if strings.HasPrefix(o.Fn, "bad-") {
			b = mat.NewMatrix(append([]float64{}, b.Vals...), b.Width, b.Height)
		}
		lu := func() *mat.LUFactors {
			if o.Obj < 0 {
				return sh[-1-o.Obj]
			}
			return own[c][o.Obj]
		}
		switch o.Fn {
		case "big-transpose":
			// Too large for the results to be passed on.
			m := mat.NewMatrix(make([]float64, int(o.Lo)*int(o.X[0])), int(o.Lo), int(o.X[0]))
			if o.X[1] == 1 {
				m.Width, m.Height = m.Height, m.Width
			}
			for i := range m.Vals {
				m.Vals[i] = float64(i)
			}
			t := m.Transpose()
			bad := 0.0
			if t.Width != m.Height || t.Height != m.Width {
				return []float64{-1}
			}
			for i := 0; i < t.Height; i++ {
				for j := 0; j < t.Width; j++ {
					if t.Vals[i*t.Width+j] != float64(j*m.Width+i) {
						bad++
					}
				}
			}
			return []float64{bad}
		case "mult":
			if o.Lo != 0 {
				out := mat.NewMatrix(stale(a.Height*b.Width), b.Width, a.Height)
				a.MultAt(b, out)
				return out.Vals
			}
			return a.Mult(b).Vals
		case "transpose":
			if o.Lo != 0 {
				out := mat.NewMatrix(stale(len(a.Vals)), a.Height, a.Width)
				a.TransposeAt(out)
				return out.Vals
			}
			return a.Transpose().Vals
		case "matvec":
			out := stale(int(o.Lo))
			mat.MultVec(a, o.X, out)
			return out
		case "vecmat":
			out := stale(int(o.Lo))
			mat.VecMult(o.X, a, out)
			return out
		case "det":
			return []float64{a.Determinant()}
		case "invert":
			return a.Invert().Vals
		case "solvevec":
			return a.SolveVector(append([]float64{}, o.X...))
		case "solvemat":
			return a.SolveMatrix(b).Vals
		case "factor":
			l := own[c][o.Obj]
			if l == nil {
				l = mat.NewLUFactors(a.Width)
				own[c][o.Obj] = l
			}
			a.LUFactorsAt(l)
			return nil
		case "lu-det":
			return []float64{lu().Determinant()}
		case "lu-invert":
			out := mat.NewMatrix(stale(len(a.Vals)), a.Width, a.Height)
			return lu().InvertAt(out).Vals
		case "lu-solvevec":
			x := append([]float64{}, o.X...)
			if o.Lo != 0 {
				return lu().SolveVector(x, x)
			}
			out := lu().SolveVector(x, stale(len(x)))
			return append(append([]float64{}, out...), x...)
		case "lu-solvemat":
			x := mat.NewMatrix(stale(len(b.Vals)), b.Width, b.Height)
			if o.Lo != 0 {
				copy(x.Vals, b.Vals)
				return lu().SolveMatrix(x, x).Vals
			}
			return lu().SolveMatrix(b, x).Vals
		case "bad-square":
			switch int(o.Lo) {
			case 0:
				return []float64{float64(a.Determinant())}
			case 1:
				return a.Invert().Vals
			case 2:
				return a.SolveVector(stale(a.Width))
			default:
				a.LU()
				return nil
			}
		case "bad-factor":
			a.LUFactorsAt(lu())
			return nil
		case "bad-solvevec":
			return lu().SolveVector(o.X, stale(int(o.Lo)))
		case "bad-solvemat":
			x := mat.NewMatrix(stale(len(a.Vals)), a.Width, a.Height)
			if o.Lo != 0 {
				return lu().SolveMatrix(x, b).Vals
			}
			return lu().SolveMatrix(b, x).Vals
		case "bad-invert":
			return lu().InvertAt(b).Vals
		}
		panic("op " + o.Fn)
	}
	do32 := func(c int, o libOp) []float64 {
		if o.Fn == "bad-new" {
			return f64(mat.NewMatrix32(f32(o.X), o.N, o.M).Vals)
		}
		a := ms32[o.N]
		b := ms32[o.M]
		if strings.HasPrefix(o.Fn, "bad-") {
			b = mat.NewMatrix32(append([]float32{}, b.Vals...), b.Width, b.Height)
		}
		lu := func() *mat.LUFactors32 {
			if o.Obj < 0 {
				return sh32[-1-o.Obj]
			}
			return own32[c][o.Obj]
		}
		switch o.Fn {
		case "mult":
			if o.Lo != 0 {
				out := mat.NewMatrix32(f32(stale(a.Height*b.Width)), b.Width, a.Height)
				a.MultAt(b, out)
				return f64(out.Vals)
			}
			return f64(a.Mult(b).Vals)
		case "det":
			return []float64{float64(a.Determinant())}
		case "invert":
			return f64(a.Invert().Vals)
		case "solvevec":
			return f64(a.SolveVector(f32(o.X)))
		case "solvemat":
			return f64(a.SolveMatrix(b).Vals)
		case "factor":
			l := own32[c][o.Obj]
			if l == nil {
				l = mat.NewLUFactors32(a.Width)
				own32[c][o.Obj] = l
			}
			a.LUFactorsAt(l)
			return nil
		case "lu-det":
			return []float64{float64(lu().Determinant())}
		case "lu-invert":
			out := mat.NewMatrix32(f32(stale(len(a.Vals))), a.Width, a.Height)
			return f64(lu().InvertAt(out).Vals)
		case "lu-solvevec":
			x := f32(o.X)
			if o.Lo != 0 {
				return f64(lu().SolveVector(x, x))
			}
			out := lu().SolveVector(x, f32(stale(len(x))))
			return append(f64(out), f64(x)...)
		case "lu-solvemat":
			x := mat.NewMatrix32(f32(stale(len(b.Vals))), b.Width, b.Height)
			if o.Lo != 0 {
				copy(x.Vals, b.Vals)
				return f64(lu().SolveMatrix(x, x).Vals)
			}
			return f64(lu().SolveMatrix(b, x).Vals)
		case "bad-square":
			switch int(o.Lo) {
			case 0:
				return []float64{float64(a.Determinant())}
			case 1:
				return f64(a.Invert().Vals)
			case 2:
				return f64(a.SolveVector(f32(stale(a.Width))))
			default:
				a.LU()
				return nil
			}
		case "bad-factor":
			a.LUFactorsAt(lu())
			return nil
		case "bad-solvevec":
			return f64(lu().SolveVector(f32(o.X), f32(stale(int(o.Lo)))))
		case "bad-solvemat":
			x := mat.NewMatrix32(f32(stale(len(a.Vals))), a.Width, a.Height)
			if o.Lo != 0 {
				return f64(lu().SolveMatrix(x, b).Vals)
			}
			return f64(lu().SolveMatrix(b, x).Vals)
		case "bad-invert":
			return f64(lu().InvertAt(b).Vals)
		}
		panic("op " + o.Fn)
	}
	out := clients(p.Ops, func(c int, o libOp) libRes {
		return guarded(func() []float64 {
			if o.Hi != 0 {
				return do32(c, o)
			}
			return do64(c, o)
		})
	})
	var left, left32 [][]float64
	for i := range ms {
		left, left32 = append(left, ms[i].Vals), append(left32, f64(ms32[i].Vals))
	}
	return map[string]interface{}{"Out": out, "Mats": left, "Mats32": left32}
}

func init() { apis["mat"] = apiMat }
