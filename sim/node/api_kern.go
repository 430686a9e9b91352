package main

import (
	"encoding/json"

	"github.com/phil-mansfield/gotetra/math/calc"
	"github.com/phil-mansfield/gotetra/math/interpolate"
)

type kernObj struct {
	Kind                string // tophat, gauss, savgol, deriv
	Width, Order, Deriv int
	Sigma, Dx           float64
}

func apiKern(par json.RawMessage) interface{} {
	var p struct {
		Tables [][]float64 // shared by everybody
		Objs   []kernObj   // kernels shared by everybody
		// Op: Obj a kernel, N a table, M boundary or order, Lo an index or
		// whether the output is given, Hi the length of the output.
		Ops [][]libOp
	}
	if err := json.Unmarshal(par, &p); err != nil {
		panic(err)
	}
	make1 := func(b kernObj) *interpolate.Kernel {
		switch b.Kind {
		case "tophat":
			return interpolate.NewTophatKernel(b.Width)
		case "gauss":
			return interpolate.NewGaussianKernel(b.Width, b.Sigma, b.Dx)
		case "savgol":
			return interpolate.NewSavGolKernel(b.Order, b.Width)
		}
		return interpolate.NewSavGolDerivKernel(b.Dx, b.Deriv, b.Order, b.Width)
	}
	ks := make([]*interpolate.Kernel, len(p.Objs))
	for i, b := range p.Objs {
		func() {
			defer func() { recover() }()
			ks[i] = make1(b)
		}()
	}
	stale := func(n int) []float64 {
		x := make([]float64, n)
		for i := range x {
			x[i] = 1e3 + float64(i)
		}
		return x
	}
	out := clients(p.Ops, func(c int, o libOp) libRes {
		return guarded(func() []float64 {
			switch o.Fn {
			case "new":
				make1(p.Objs[o.Obj])
				return nil
			case "conv":
				xs := p.Tables[o.N]
				if o.Lo != 0 {
					out := stale(len(xs))
					ks[o.Obj].ConvolveAt(xs, interpolate.BoundaryCondition(o.M), out)
					return out
				}
				return ks[o.Obj].Convolve(xs, interpolate.BoundaryCondition(o.M))
			case "get":
				return []float64{interpolate.BoundaryCondition(o.M).Get(p.Tables[o.N], int(o.Lo))}
			case "deriv":
				xs, ys := o.X, p.Tables[o.N]
				if o.Lo != 0 {
					out := stale(int(o.Hi))
					r := calc.Deriv(xs, ys, o.M, calc.Out(out))
					if len(r) > 0 && &r[0] != &out[0] {
						panic("another output than the given one")
					}
					return out
				}
				return calc.Deriv(xs, ys, o.M)
			}
			panic("op " + o.Fn)
		})
	})
	var left [][]uint64
	for _, t := range p.Tables {
		left = append(left, bits(t))
	}
	return map[string]interface{}{"Out": out, "Tables": left}
}

func init() { apis["kern"] = apiKern }
