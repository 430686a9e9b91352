package main

import (
	"encoding/json"

	"github.com/phil-mansfield/gotetra/math/sort"
)

func apiSort(par json.RawMessage) interface{} {
	var p struct {
		Tables [][]float64 // shared by everybody
		Objs   [][]float64 // each used by one client only
		Ops    [][]libOp   // N: table, M: rank or length of the buffer, Lo: fraction
	}
	if err := json.Unmarshal(par, &p); err != nil {
		panic(err)
	}
	bufs := make([]map[int][]float64, len(p.Ops))
	for i := range bufs {
		bufs[i] = map[int][]float64{}
	}
	out := clients(p.Ops, func(c int, o libOp) libRes {
		return guarded(func() []float64 {
			var buf [][]float64
			if o.Hi >= 0 {
				// A buffer with whatever was left in it.
				n := int(o.Hi)
				if bufs[c][n] == nil {
					bufs[c][n] = make([]float64, n)
				}
				buf = append(buf, bufs[c][n])
			}
			switch o.Fn {
			case "quick":
				return sort.Quick(p.Objs[o.Obj])
			case "shell":
				return sort.Shell(p.Objs[o.Obj])
			case "reverse":
				return sort.Reverse(p.Objs[o.Obj])
			case "set":
				copy(p.Objs[o.Obj], o.X)
				return nil
			case "nth":
				return []float64{sort.NthLargest(p.Tables[o.N], o.M, buf...)}
			case "median":
				return []float64{sort.Median(p.Tables[o.N], buf...)}
			case "percentile":
				return []float64{sort.Percentile(p.Tables[o.N], o.Lo, buf...)}
			}
			panic("op " + o.Fn)
		})
	})
	b := func(xs [][]float64) (u [][]uint64) {
		for _, x := range xs {
			u = append(u, bits(x))
		}
		return u
	}
	return map[string]interface{}{"Out": out, "Tables": b(p.Tables), "Objs": b(p.Objs)}
}

func init() { apis["sort"] = apiSort }
