package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"

	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
)

type snapOp struct {
	Op      string   // header, read, at, all
	Files   []string // all: every one; otherwise the first
	Counts  []int    // particles in each
	Big     bool
	IDSize  int
	Variant string
	N       [3]int // at: lengths of the buffers
	Total   int    // all: particles
	Buf     int    // all: length of the particle buffer
}

type snapRes struct {
	Panic string `json:",omitempty"`
	Hd    *io.CatalogHeader
	Xs    []geom.Vec `json:",omitempty"`
	Vs    []geom.Vec `json:",omitempty"`
	IDs   []int64    `json:",omitempty"`
	Bad   bool       `json:",omitempty"` // something is no number
}

// snapBufs are reused by the reads of one client, as the command does.
type snapBufs struct {
	xs, vs []geom.Vec
	ids    []int64
}

func (b *snapBufs) get(n [3]int) ([]geom.Vec, []geom.Vec, []int64) {
	for len(b.xs) < n[0] {
		b.xs = append(b.xs, geom.Vec{-3e33, 3e33, 1e-33})
	}
	for len(b.vs) < n[1] {
		b.vs = append(b.vs, geom.Vec{-3e32, 3e32, 1e-32})
	}
	for len(b.ids) < n[2] {
		b.ids = append(b.ids, -99)
	}
	return b.xs[:n[0]], b.vs[:n[1]], b.ids[:n[2]]
}

func finite(vs []geom.Vec) bool {
	for _, v := range vs {
		for k := range v {
			if f := float64(v[k]); math.IsNaN(f) || math.IsInf(f, 0) {
				return false
			}
		}
	}
	return true
}

func snapDo(o *snapOp, b *snapBufs) (res snapRes) {
	defer func() {
		if r := recover(); r != nil {
			res = snapRes{Panic: fmt.Sprint("panic: ", r)}
		}
	}()
	var order binary.ByteOrder = binary.LittleEndian
	if o.Big {
		order = binary.BigEndian
	}
	switch o.Op {
	case "header":
		res.Hd = io.ReadGadgetHeader(o.Files[0], order, o.Variant)
	case "read":
		res.Hd, res.Xs, res.Vs, res.IDs = io.ReadGadget(o.Files[0], order, o.IDSize, o.Variant)
	case "at":
		xs, vs, ids := b.get(o.N)
		io.ReadGadgetParticlesAt(o.Files[0], order, xs, vs, ids, o.IDSize, o.Variant)
		res.Xs, res.Vs = append(res.Xs, xs...), append(res.Vs, vs...)
		res.IDs = append(res.IDs, ids...)
	case "all":
		res.Xs, res.Vs = make([]geom.Vec, o.Total), make([]geom.Vec, o.Total)
		pb := io.NewParticleBuffer(res.Xs, res.Vs, o.Buf)
		for i, f := range o.Files {
			n := o.Counts[i]
			xs, vs, ids := b.get([3]int{n, n, n})
			io.ReadGadgetParticlesAt(f, order, xs, vs, ids, o.IDSize, o.Variant)
			pb.Append(xs, vs, ids)
		}
		pb.Flush()
	}
	if !finite(res.Xs) || !finite(res.Vs) {
		return snapRes{Bad: true}
	}
	return res
}

func init() {
	apis["snap"] = func(par json.RawMessage) interface{} {
		var p struct{ Clients [][]snapOp }
		if err := json.Unmarshal(par, &p); err != nil {
			panic(err)
		}
		out := make([][]snapRes, len(p.Clients))
		done := make(chan int, len(p.Clients))
		for c := range p.Clients {
			go func(c int) {
				b := &snapBufs{}
				for i := range p.Clients[c] {
					out[c] = append(out[c], snapDo(&p.Clients[c][i], b))
				}
				done <- c
			}(c)
		}
		for range p.Clients {
			<-done
		}
		return out
	}
}
