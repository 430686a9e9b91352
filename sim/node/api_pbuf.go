package main

import (
	"encoding/json"
	"fmt"

	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
)

func init() {
	apis["pbuf"] = func(par json.RawMessage) interface{} {
		var p struct {
			N       int
			Buf     int
			Batches []struct {
				IDs   []int64
				Flush bool
			}
		}
		if err := json.Unmarshal(par, &p); err != nil {
			panic(err)
		}
		xs, vs := make([]geom.Vec, p.N), make([]geom.Vec, p.N)
		pb := io.NewParticleBuffer(xs, vs, p.Buf)
		// One set of arrays is reused for all batches, as the command does.
		xb, vb, ib := make([]geom.Vec, p.N), make([]geom.Vec, p.N), make([]int64, p.N)
		x := func(id int64, k int) float32 { return float32(id)*8 + float32(k) + 1 }
		for _, b := range p.Batches {
			if b.Flush {
				pb.Flush()
				continue
			}
			for i, id := range b.IDs {
				ib[i] = id
				for k := 0; k < 3; k++ {
					xb[i][k], vb[i][k] = x(id, k), -x(id, k)
				}
			}
			n := len(b.IDs)
			pb.Append(xb[:n], vb[:n], ib[:n])
			for i := range ib {
				ib[i] = 1
				xb[i], vb[i] = geom.Vec{-7, -7, -7}, geom.Vec{7, 7, 7}
			}
		}
		for i := range xs {
			for k := 0; k < 3; k++ {
				if xs[i][k] != x(int64(i+1), k) || vs[i][k] != -x(int64(i+1), k) {
					return fmt.Sprintf("particle %d is stored as %v, %v", i+1, xs[i], vs[i])
				}
			}
		}
		return ""
	}
}
