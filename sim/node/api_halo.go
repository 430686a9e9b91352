package main

import (
	"encoding/json"
	"fmt"
	"math"

	"github.com/phil-mansfield/gotetra/render/halo"
	"github.com/phil-mansfield/gotetra/render/io"
)

type haloOp struct {
	Fn      string // convert, top, text, binary, rockstar, names
	In, Out string
	N       int
	Vals    []string
	X       []float64
}

type haloRes struct {
	Err, Panic string
	IDs        []int
	Bits       [][]uint64
	Names      []string
}

var haloVals = map[string]halo.Val{
	"Scale": halo.Scale, "ID": halo.ID, "DescScale": halo.DescScale, "DescID": halo.DescID, "NumProg": halo.NumProg,
	"PID": halo.PID, "UPID": halo.UPID, "DescPID": halo.DescPID, "Phantom": halo.Phantom, "SAMMVir": halo.SAMMVir,
	"MVir": halo.MVir, "RVir": halo.RVir, "Rs": halo.Rs, "Vrms": halo.Vrms, "MMP": halo.MMP, "ScaleOfLastMMP": halo.ScaleOfLastMMP,
	"VMax": halo.VMax, "X": halo.X, "Y": halo.Y, "Z": halo.Z, "Vx": halo.Vx, "Vy": halo.Vy, "Vz": halo.Vz,
	"Jx": halo.Jx, "Jy": halo.Jy, "Jz": halo.Jz, "Spin": halo.Spin, "BreadthFirstID": halo.BreadthFirstID,
	"DepthFirstID": halo.DepthFirstID, "TreeRootID": halo.TreeRootID, "OrigHaloID": halo.OrigHaloID, "SnapNum": halo.SnapNum,
	"NextCoprogenitorDepthFirstID": halo.NextCoprogenitorDepthFirstID, "LastProgenitorDepthFirstID": halo.LastProgenitorDepthFirstID,
	"RsKylpin": halo.RsKylpin, "MVirAll": halo.MVirAll, "M200b": halo.M200b, "M200c": halo.M200c, "M500c": halo.M500c, "M2500c": halo.M2500c,
	"XOff": halo.XOff, "Voff": halo.Voff, "SpinBullock": halo.SpinBullock, "BToA": halo.BToA, "CToA": halo.CToA,
	"Ax": halo.Ax, "Ay": halo.Ay, "Az": halo.Az, "BToA500c": halo.BToA500c, "CToA500c": halo.CToA500c,
	"Ax500c": halo.Ax500c, "Ay500c": halo.Ay500c, "Az500c": halo.Az500c, "TU": halo.TU, "MAcc": halo.MAcc, "MPeak": halo.MPeak,
	"VAcc": halo.VAcc, "VPeak": halo.VPeak, "HalfmassScale": halo.HalfmassScale, "AccRateInst": halo.AccRateInst,
	"AccRate100Myr": halo.AccRate100Myr, "AccRateTdyn": halo.AccRateTdyn,
	"RadVir": halo.RadVir, "Rad200b": halo.Rad200b, "Rad200c": halo.Rad200c, "Rad500c": halo.Rad500c, "Rad2500c": halo.Rad2500c,
}

func apiHalo(par json.RawMessage) interface{} {
	var p struct {
		Cosmo io.CosmologyHeader // shared by everybody
		Ops   [][]haloOp
	}
	if err := json.Unmarshal(par, &p); err != nil {
		panic(err)
	}
	one := func(o haloOp) (r haloRes) {
		defer func() {
			if e := recover(); e != nil {
				r = haloRes{Panic: fmt.Sprint(e)}
			}
		}()
		var err error
		var vals [][]float64
		flags := make([]halo.Val, len(o.Vals))
		for i, v := range o.Vals {
			if o.Fn != "rockstar" && o.Fn != "names" && o.Fn != "scale" {
				flags[i] = haloVals[v]
			}
		}
		switch o.Fn {
		case "convert":
			err = halo.RockstarConvert(o.In, o.Out)
		case "top":
			err = halo.RockstarConvertTopN(o.In, o.Out, o.N)
		case "text":
			r.IDs, vals, err = halo.ReadRockstarVals(o.In, &p.Cosmo, flags...)
		case "binary":
			r.IDs, vals, err = halo.ReadBinaryRockstarVals(o.In, &p.Cosmo, flags...)
		case "rockstar":
			t, ok := halo.RadiusFromString(o.Vals[0])
			if !ok {
				panic("unknown radius " + o.Vals[0])
			}
			var xs, ys, zs, ms, rs []float64
			r.IDs, xs, ys, zs, ms, rs, err = halo.ReadRockstar(o.In, t, &p.Cosmo)
			vals = [][]float64{xs, ys, zs, ms, rs}
		case "scale": // masses to radii (N bit 0: the reverse), in place (bit 1)
			t, ok := halo.RadiusFromString(o.Vals[0])
			if !ok {
				panic("unknown radius " + o.Vals[0])
			}
			xs := append([]float64{}, o.X...)
			out := xs
			if o.N&2 == 0 {
				out = make([]float64, len(xs))
			}
			if o.N&1 == 0 {
				t.Radius(&p.Cosmo, xs, out)
			} else {
				t.Mass(&p.Cosmo, xs, out)
			}
			vals = [][]float64{out, xs}
		case "names":
			for _, n := range o.Vals {
				t, ok := halo.RadiusFromString(n)
				r.Names = append(r.Names, fmt.Sprint(t, ok))
			}
		}
		if err != nil {
			return haloRes{Err: err.Error()}
		}
		for _, v := range vals {
			u := make([]uint64, len(v))
			for i := range v {
				u[i] = math.Float64bits(v[i])
			}
			r.Bits = append(r.Bits, u)
		}
		return r
	}
	out := make([][]haloRes, len(p.Ops))
	done := make(chan int, len(p.Ops))
	for c := range p.Ops {
		go func(c int) {
			for _, o := range p.Ops[c] {
				out[c] = append(out[c], one(o))
			}
			done <- c
		}(c)
	}
	for range p.Ops {
		<-done
	}
	return map[string]interface{}{"Out": out, "Cosmo": p.Cosmo}
}

type finderSet struct {
	X, Y, Z, R []float64
	L          float64
	Cells      int
}

type finderOp struct {
	Set  int
	Mult float64
	Obj  int // the finder; created when first used
}

type finderRes struct {
	Panic       string
	All         [][]int
	Hosts, Subs [][]int
	Counts      [][3]int
}

func apiFinder(par json.RawMessage) interface{} {
	var p struct {
		Sets []finderSet // shared by everybody
		Ops  [][]finderOp
	}
	if err := json.Unmarshal(par, &p); err != nil {
		panic(err)
	}
	grids := make([]*halo.Grid, len(p.Sets))
	for i, s := range p.Sets {
		grids[i] = halo.NewGrid(s.Cells, s.L, len(s.X))
		grids[i].Insert(s.X, s.Y, s.Z)
	}
	out := make([][]finderRes, len(p.Ops))
	done := make(chan int, len(p.Ops))
	for c := range p.Ops {
		go func(c int) {
			finders := map[[2]int]*halo.SubhaloFinder{}
			one := func(o finderOp) (r finderRes) {
				defer func() {
					if e := recover(); e != nil {
						r = finderRes{Panic: fmt.Sprint(e)}
					}
				}()
				s := &p.Sets[o.Set]
				k := [2]int{o.Set, o.Obj}
				if finders[k] == nil {
					finders[k] = halo.NewSubhaloFinder(grids[o.Set])
				}
				f := finders[k]
				f.FindSubhalos(s.X, s.Y, s.Z, s.R, o.Mult)
				for i := range s.R {
					cp := func(x []int) []int { return append([]int{}, x...) }
					r.All = append(r.All, cp(f.Intersects(i)))
					r.Hosts = append(r.Hosts, cp(f.Hosts(i)))
					r.Subs = append(r.Subs, cp(f.Subhalos(i)))
					r.Counts = append(r.Counts, [3]int{f.IntersectCount(i), f.HostCount(i), f.SubhaloCount(i)})
				}
				return r
			}
			for _, o := range p.Ops[c] {
				out[c] = append(out[c], one(o))
			}
			done <- c
		}(c)
	}
	for range p.Ops {
		<-done
	}
	type gridRes struct {
		Cells            [][]int
		Lengths          []int
		Max, Avg, Total  int
		Boxes            [][2][3]int
		Inside, Converts [][3]int
	}
	var gr []gridRes
	for gi, g := range grids {
		var r gridRes
		r.Max, r.Avg, r.Total = g.MaxLength(), g.AverageLength(), g.TotalCells()
		buf := make([]int, 0, r.Max)
		for i := 0; i < r.Total; i++ {
			buf = g.ReadIndexes(i, buf)
			r.Cells = append(r.Cells, append([]int{}, buf...))
			r.Lengths = append(r.Lengths, g.Length(i))
		}
		s := &p.Sets[gi]
		for i := range s.X {
			b := halo.Bounds{}
			b.SphereBounds([3]float64{s.X[i], s.Y[i], s.Z[i]}, s.R[i], s.L/float64(s.Cells), s.L)
			r.Boxes = append(r.Boxes, [2][3]int{b.Origin, b.Span})
			for c := 0; c < s.Cells; c++ {
				in := [3]int{}
				for d := range in {
					if b.Inside(c, s.Cells, d) {
						in[d] = 1
					}
				}
				r.Inside = append(r.Inside, in)
				x, y, z := b.ConvertIndices(c, c, c, s.Cells)
				r.Converts = append(r.Converts, [3]int{x, y, z})
			}
		}
		gr = append(gr, r)
	}
	return map[string]interface{}{"Out": out, "Sets": p.Sets, "Grids": gr}
}

func init() {
	apis["halo"] = apiHalo
	apis["finder"] = apiFinder
}
