package main

import (
	"encoding/json"

	"github.com/phil-mansfield/gotetra/math/rand"
	"github.com/phil-mansfield/gotetra/render/geom"
)

func apiTetra(par json.RawMessage) interface{} {
	var p struct {
		Pts [][3]float32 // shared by everybody
		// Op: Obj a tetrahedron of the client's own, X indices of points or
		// numbers.
		Ops [][]libOp
	}
	if err := json.Unmarshal(par, &p); err != nil {
		panic(err)
	}
	pts := make([]geom.Vec, len(p.Pts))
	for i := range pts {
		pts[i] = geom.Vec(p.Pts[i])
	}
	tets := make([]map[int]*geom.Tetra, len(p.Ops))
	for i := range tets {
		tets[i] = map[int]*geom.Tetra{}
	}
	flat := func(vs ...geom.Vec) []float64 {
		var out []float64
		for _, v := range vs {
			out = append(out, float64(v[0]), float64(v[1]), float64(v[2]))
		}
		return out
	}
	is := func(b bool) float64 {
		if b {
			return 1
		}
		return 0
	}
	ints := func(xs ...int) []float64 {
		var out []float64
		for _, x := range xs {
			out = append(out, float64(x))
		}
		return out
	}
	three := func(x []float64) [3]int { return [3]int{int(x[0]), int(x[1]), int(x[2])} }
	out := clients(p.Ops, func(c int, o libOp) libRes {
		return guarded(func() []float64 {
			t := tets[c][o.Obj]
			pt := func(i int) *geom.Vec { return &pts[int(o.X[i])] }
			switch o.Fn {
			case "init":
				if t == nil {
					tets[c][o.Obj] = geom.NewTetra(pt(0), pt(1), pt(2), pt(3))
				} else {
					t.Init(pt(0), pt(1), pt(2), pt(3))
				}
				return nil
			case "volume":
				return []float64{t.Volume()}
			case "contains":
				var r []float64
				for i := range o.X {
					r = append(r, is(t.Contains(pt(i))))
				}
				return r
			case "bary":
				return flat(*t.Barycenter())
			case "bounds":
				cb := t.CellBounds(o.Lo)
				return append(ints(cb.Origin[:]...), ints(cb.Width[:]...)...)
			case "distribute", "tetra", "tetra64":
				n := len(o.X) / 3
				xs, ys, zs := o.X[:n], o.X[n:2*n], o.X[2*n:]
				vs := make([]geom.Vec, n)
				for i := range vs {
					vs[i] = geom.Vec{7, 8, 9}
				}
				if o.Fn == "distribute" {
					t.Distribute(xs, ys, zs, vs)
					return flat(vs...)
				}
				unit := make([]geom.Vec, n)
				for i := range unit {
					unit[i] = geom.Vec{float32(xs[i]), float32(ys[i]), float32(zs[i])}
				}
				geom.DistributeUnit(unit)
				if o.Fn == "tetra" {
					t.DistributeTetra(unit, vs)
					return append(flat(vs...), flat(unit...)...)
				}
				out := make([][3]float64, n)
				t.DistributeTetra64(unit, out)
				var r []float64
				for _, v := range out {
					r = append(r, v[:]...)
				}
				return append(r, flat(unit...)...)
			case "sample":
				gen := rand.New(rand.Xorshift, uint64(o.M))
				vs := make([]geom.Vec, o.N)
				t.RandomSample(gen, make([]float64, 3*o.N), vs)
				return flat(vs...)
			case "idxs":
				// All directions, one after the other.
				x := &geom.TetraIdxs{5, 6, 7, 8}
				var r []float64
				for dir := 0; dir < 6 || o.M == 3 && dir < 8; dir++ {
					switch o.M {
					case 0:
						x = geom.NewTetraIdxs(int64(o.X[0]), int64(o.X[1]), int64(o.X[2]), dir)
					case 1:
						x.Init(int64(o.X[0]), int64(o.X[1]), int64(o.X[2]), dir)
					case 2: // x, y, z, width
						x.InitCartesian(int64(o.X[0]), int64(o.X[1]), int64(o.X[2]), int64(o.X[3]), dir)
					case 3:
						_, ok := x.InitCentered(int64(o.X[0]), int64(o.X[1]), int64(o.X[2]), dir)
						if !ok {
							r = append(r, -1, -1, -1, -1)
							continue
						}
					}
					r = append(r, float64(x[0]), float64(x[1]), float64(x[2]), float64(x[3]))
				}
				return r
			case "vec":
				// Every operation three ways; the results have to agree.
				a, b := *pt(0), *pt(1)
				a1, b1, o1, o2 := a, b, geom.Vec{1, 2, 3}, geom.Vec{1, 2, 3}
				s1 := a
				var r *geom.Vec
				switch o.M {
				case 0:
					r, _, _ = a1.Scale(o.Lo), s1.ScaleSelf(o.Lo), a1.ScaleAt(o.Lo, &o1)
				case 1:
					r, _, _ = a1.Mod(o.Lo), s1.ModSelf(o.Lo), a1.ModAt(o.Lo, &o1)
				case 2:
					r, _, _ = a1.Add(&b1), s1.AddSelf(&b1), a1.AddAt(&b1, &o1)
					o2 = b1
					a1.AddAt(&o2, &o2)
				case 3:
					r, _, _ = a1.Sub(&b1, o.Lo), s1.SubSelf(&b1, o.Lo), a1.SubAt(&b1, o.Lo, &o1)
				case 4:
					r, _, _ = a1.Cross(&b1), s1.CrossSelf(&b1), a1.CrossAt(&b1, &o1)
					o2 = b1
					a1.CrossAt(&o2, &o2)
				case 5:
					return []float64{a1.Dot(&b1), b1.Dot(&a1), a1.Norm()}
				}
				if a1 != a || b1 != b {
					panic("an operand has changed")
				}
				if *r != s1 || *r != o1 || (o.M == 2 || o.M == 4) && *r != o2 {
					panic("the variants of an operation disagree")
				}
				return flat(*r)
			case "grid":
				// X: origin, width, then coordinates
				g := geom.NewGrid(three(o.X), three(o.X[3:]))
				x, y, z := int(o.X[6]), int(o.X[7]), int(o.X[8])
				idx, ok := g.IdxCheck(x, y, z)
				cx, cy, cz := 0, 0, 0
				if ok {
					cx, cy, cz = g.Coords(idx)
				}
				return append(ints(idx, cx, cy, cz, g.Idx(x, y, z)), is(ok), is(g.BoundsCheck(x, y, z)))
			case "intersect":
				a := &geom.CellBounds{Origin: three(o.X), Width: three(o.X[3:])}
				b := &geom.CellBounds{Origin: three(o.X[6:]), Width: three(o.X[9:])}
				return []float64{is(a.Intersect(b, o.N)), is(b.Intersect(a, o.N)), is(a.IntersectUnbounded(b)), is(b.IntersectUnbounded(a))}
			}
			panic("op " + o.Fn)
		})
	})
	var left [][3]float32
	for _, v := range pts {
		left = append(left, [3]float32(v))
	}
	return map[string]interface{}{"Out": out, "Pts": left}
}

func init() { apis["tetra"] = apiTetra }
