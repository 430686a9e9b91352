package main

import (
	"encoding/json"
	"time"

	"github.com/phil-mansfield/gotetra/math/rand"
)

type randObj struct {
	Type int // -1: Sobol
	Seed uint64
	Time bool
}

func apiRand(par json.RawMessage) interface{} {
	var p struct {
		Objs []randObj
		Ops  [][]libOp
	}
	if err := json.Unmarshal(par, &p); err != nil {
		panic(err)
	}
	gens := make([]*rand.Generator, len(p.Objs))
	sobs := make([]*rand.SobolSequence, len(p.Objs))
	before, after := make([]int64, len(p.Objs)), make([]int64, len(p.Objs))
	out := clients(p.Ops, func(c int, o libOp) libRes {
		return guarded(func() []float64 {
			if o.Fn == "new" {
				b := p.Objs[o.Obj]
				t := rand.GeneratorType(b.Type)
				before[o.Obj] = time.Now().UnixNano()
				switch {
				case b.Type < 0:
					sobs[o.Obj] = rand.NewSobolSequence()
				case b.Time:
					gens[o.Obj] = rand.NewTimeSeed(t)
				default:
					gens[o.Obj] = rand.New(t, b.Seed)
				}
				after[o.Obj] = time.Now().UnixNano()
				return nil
			}
			if o.Fn == "badtype" {
				rand.New(rand.GeneratorType(o.N), 1)
				return nil
			}
			g, s := gens[o.Obj], sobs[o.Obj]
			switch o.Fn {
			case "uniform":
				return []float64{g.Uniform(o.Lo, o.Hi)}
			case "int":
				return []float64{float64(g.UniformInt(int(o.Lo), int(o.Hi)))}
			case "at":
				buf := make([]float64, o.N)
				g.UniformAt(o.Lo, o.Hi, buf)
				return buf
			case "init":
				s.Init()
				return nil
			case "next":
				return s.Next(o.N)
			case "nextat":
				buf := make([]float64, o.N)
				s.NextAt(buf)
				return buf
			}
			panic("unknown function " + o.Fn)
		})
	})
	return map[string]interface{}{"Out": out, "Before": before, "After": after}
}

func init() { apis["rand"] = apiRand }
