package main

import (
	"encoding/json"
	"fmt"
	"math"

	"github.com/phil-mansfield/gotetra/render/geom"
)

type derivObj struct {
	O, W     [3]int
	Cells    int
	L        float64
	Periodic bool
	Op       int
	Order    int // 0: no options are given
	Opt      int // options shared by all objects with this number
}

func apiDeriv(par json.RawMessage) interface{} {
	var p struct {
		Tables [][]float32 // inputs, shared by everybody
		Objs   []derivObj
		Ops    [][]libOp // X: tables, Y: previous contents of the output
	}
	if err := json.Unmarshal(par, &p); err != nil {
		panic(err)
	}
	grids := make([]*geom.GridLocation, len(p.Objs))
	opts := map[int]*geom.DerivOptions{}
	for i, b := range p.Objs {
		grids[i] = geom.NewGridLocation(b.O, b.W, b.L, b.Cells)
		if b.Order != 0 && opts[b.Opt] == nil {
			opts[b.Opt] = &geom.DerivOptions{Periodic: b.Periodic, Op: geom.DerivOp(b.Op), Order: b.Order}
		}
	}
	type res struct {
		Panic string
		Out   [][]uint32
	}
	out := make([][]res, len(p.Ops))
	one := func(o libOp) (r res) {
		defer func() {
			if e := recover(); e != nil {
				r = res{Panic: fmt.Sprint(e)}
			}
		}()
		b, g := p.Objs[o.Obj], grids[o.Obj]
		var opt *geom.DerivOptions
		if b.Order != 0 {
			opt = opts[b.Opt]
		}
		n := b.W[0] * b.W[1] * b.W[2]
		in := func(k int) []float32 { return p.Tables[o.N+k][:n] }
		var buf [3][]float32
		for k := range buf {
			buf[k] = make([]float32, n)
			for i := range buf[k] {
				buf[k][i] = float32(o.Lo) + float32(i%3)
			}
		}
		switch o.Fn {
		case "deriv":
			g.Deriv(in(0), buf[0], o.M, opt)
		case "grad":
			g.Gradient(in(0), buf, opt)
		case "div":
			g.Divergence([3][]float32{in(0), in(1), in(2)}, buf[0], opt)
		case "curl":
			g.Curl([3][]float32{in(0), in(1), in(2)}, buf, opt)
		}
		for k := range buf {
			u := make([]uint32, n)
			for i := range u {
				u[i] = math.Float32bits(buf[k][i])
			}
			r.Out = append(r.Out, u)
		}
		return r
	}
	done := make(chan int, len(p.Ops))
	for c := range p.Ops {
		go func(c int) {
			for _, o := range p.Ops[c] {
				out[c] = append(out[c], one(o))
			}
			done <- c
		}(c)
	}
	for range p.Ops {
		<-done
	}
	var tabs [][]uint32
	for _, t := range p.Tables {
		u := make([]uint32, len(t))
		for i := range u {
			u[i] = math.Float32bits(t[i])
		}
		tabs = append(tabs, u)
	}
	d := geom.DerivOptionsDefault
	return map[string]interface{}{"Out": out, "Tables": tabs, "Default": []interface{}{d.Periodic, int(d.Op), d.Order}}
}

func init() { apis["deriv"] = apiDeriv }
