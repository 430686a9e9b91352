package main

import (
	"encoding/json"
	"fmt"
	"math"

	"github.com/phil-mansfield/gotetra/render/io"
)

type gtetOp struct{ Op, File string }

type gtetRes struct {
	Err, Panic string
	Hd         *io.GridHeader
	Bits       []uint64
}

func gtetDo(o gtetOp) (r gtetRes) {
	defer func() {
		if p := recover(); p != nil {
			r = gtetRes{Panic: fmt.Sprint(p)}
		}
	}()
	if o.Op == "header" {
		hd, err := io.ReadGridHeader(o.File)
		if err != nil {
			return gtetRes{Err: err.Error()}
		}
		return gtetRes{Hd: hd}
	}
	vals, err := io.ReadGrid(o.File)
	if err != nil {
		return gtetRes{Err: err.Error()}
	}
	r.Bits = make([]uint64, len(vals))
	for i, v := range vals {
		r.Bits[i] = math.Float64bits(v)
	}
	return r
}

func init() {
	apis["gtet"] = func(par json.RawMessage) interface{} {
		var p struct{ Ops [][]gtetOp }
		if err := json.Unmarshal(par, &p); err != nil {
			panic(err)
		}
		out := make([][]gtetRes, len(p.Ops))
		done := make(chan int, len(p.Ops))
		for c := range p.Ops {
			go func(c int) {
				for _, o := range p.Ops[c] {
					out[c] = append(out[c], gtetDo(o))
				}
				done <- c
			}(c)
		}
		for range p.Ops {
			<-done
		}
		return out
	}
}
