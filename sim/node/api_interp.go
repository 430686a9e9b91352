package main

import (
	"encoding/json"

	"github.com/phil-mansfield/gotetra/math/interpolate"
)

type interpObj struct {
	Kind    string
	X, Y, Z int // tables
	Vals    int
	X0, DX  [3]float64
	N       [3]int
	Via     int // 1: the constructors of interfaces
}

type interpState struct {
	lin interpolate.Interpolator
	bi  interpolate.BiInterpolator
	tri interpolate.TriInterpolator
	sp  *interpolate.Spline
}

func apiInterp(par json.RawMessage) interface{} {
	var p struct {
		Tables [][]float64
		Objs   []interpObj
		Ops    [][]libOp
	}
	if err := json.Unmarshal(par, &p); err != nil {
		panic(err)
	}
	st := make([]interpState, len(p.Objs))
	out := clients(p.Ops, func(c int, o libOp) libRes {
		return guarded(func() []float64 {
			s := &st[o.Obj]
			if o.Fn == "new" {
				b := p.Objs[o.Obj]
				t := func(i int) []float64 {
					if i < 0 {
						return nil
					}
					return p.Tables[i]
				}
				xs, ys, zs, v := t(b.X), t(b.Y), t(b.Z), t(b.Vals)
				switch b.Kind {
				case "linear":
					if b.Via == 1 {
						s.lin = interpolate.NewLinearInterpolator(xs, v)
					} else {
						s.lin = interpolate.NewLinear(xs, v)
					}
				case "ulinear":
					if b.Via == 1 {
						s.lin = interpolate.NewUniformLinearInterpolator(b.X0[0], b.DX[0], v)
					} else {
						s.lin = interpolate.NewUniformLinear(b.X0[0], b.DX[0], v)
					}
				case "bilinear":
					if b.Via == 1 {
						s.bi = interpolate.NewBiLinearInterpolator(xs, ys, v)
					} else {
						s.bi = interpolate.NewBiLinear(xs, ys, v)
					}
				case "ubilinear":
					if b.Via == 1 {
						s.bi = interpolate.NewUniformBiLinearInterpolator(b.X0[0], b.DX[0], b.N[0], b.X0[1], b.DX[1], b.N[1], v)
					} else {
						s.bi = interpolate.NewUniformBiLinear(b.X0[0], b.DX[0], b.N[0], b.X0[1], b.DX[1], b.N[1], v)
					}
				case "trilinear":
					if b.Via == 1 {
						s.tri = interpolate.NewTriLinearInterpolator(xs, ys, zs, v)
					} else {
						s.tri = interpolate.NewTriLinear(xs, ys, zs, v)
					}
				case "utrilinear":
					if b.Via == 1 {
						s.tri = interpolate.NewUniformTriLinearInterpolator(b.X0[0], b.DX[0], b.N[0], b.X0[1], b.DX[1], b.N[1], b.X0[2], b.DX[2], b.N[2], v)
					} else {
						s.tri = interpolate.NewUniformTriLinear(b.X0[0], b.DX[0], b.N[0], b.X0[1], b.DX[1], b.N[1], b.X0[2], b.DX[2], b.N[2], v)
					}
				case "spline":
					s.sp = interpolate.NewSpline(xs, v)
					s.lin = s.sp
				case "bicubic":
					if b.Via == 1 {
						s.bi = interpolate.NewBiCubicInterpolator(xs, ys, v)
					} else {
						s.bi = interpolate.NewBiCubic(xs, ys, v)
					}
				case "ubicubic":
					if b.Via == 1 {
						s.bi = interpolate.NewUniformBiCubicInterpolator(b.X0[0], b.DX[0], b.N[0], b.X0[1], b.DX[1], b.N[1], v)
					} else {
						s.bi = interpolate.NewUniformBiCubic(b.X0[0], b.DX[0], b.N[0], b.X0[1], b.DX[1], b.N[1], v)
					}
				case "tricubic":
					if b.Via == 1 {
						s.tri = interpolate.NewTriCubicInterpolator(xs, ys, zs, v)
					} else {
						s.tri = interpolate.NewTriCubic(xs, ys, zs, v)
					}
				case "utricubic":
					if b.Via == 1 {
						s.tri = interpolate.NewUniformTriCubicInterpolator(b.X0[0], b.DX[0], b.N[0], b.X0[1], b.DX[1], b.N[1], b.X0[2], b.DX[2], b.N[2], v)
					} else {
						s.tri = interpolate.NewUniformTriCubic(b.X0[0], b.DX[0], b.N[0], b.X0[1], b.DX[1], b.N[1], b.X0[2], b.DX[2], b.N[2], v)
					}
				}
				return nil
			}
			switch o.Fn {
			case "reinit":
				s.sp.Init(p.Tables[o.N], p.Tables[o.M])
				return nil
			case "tridiag":
				if o.N == 1 {
					return interpolate.TriDiag(o.X, o.Y, o.Z, o.R)
				}
				out := make([]float64, o.M)
				for i := range out {
					out[i] = float64(i) - 3
				}
				interpolate.TriDiagAt(o.X, o.Y, o.Z, o.R, out)
				return out
			case "spline-interpolator":
				return []float64{interpolate.NewSplineInterpolator(p.Tables[o.N], p.Tables[o.M]).Eval(o.X[0])}
			case "eval":
				switch {
				case s.lin != nil:
					return []float64{s.lin.Eval(o.X[0])}
				case s.bi != nil:
					return []float64{s.bi.Eval(o.X[0], o.Y[0])}
				default:
					return []float64{s.tri.Eval(o.X[0], o.Y[0], o.Z[0])}
				}
			case "all", "allinto":
				var buf [][]float64
				if o.Fn == "allinto" {
					buf = [][]float64{make([]float64, len(o.X))}
				}
				var res []float64
				switch {
				case s.lin != nil:
					res = s.lin.EvalAll(o.X, buf...)
				case s.bi != nil:
					res = s.bi.EvalAll(o.X, o.Y, buf...)
				default:
					res = s.tri.EvalAll(o.X, o.Y, o.Z, buf...)
				}
				if buf != nil && len(buf[0]) > 0 && &buf[0][0] != &res[0] {
					return nil
				}
				return res
			case "deriv":
				return []float64{s.sp.Deriv(o.X[0], o.N)}
			case "integ":
				return []float64{s.sp.Integrate(o.Lo, o.Hi)}
			}
			panic("unknown function " + o.Fn)
		})
	})
	return map[string]interface{}{"Out": out, "Tables": tableBits(p.Tables)}
}

func tableBits(ts [][]float64) [][]uint64 {
	var out [][]uint64
	for _, t := range ts {
		out = append(out, bits(t))
	}
	return out
}

func init() { apis["interp"] = apiInterp }
