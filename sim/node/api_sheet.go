package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"sync"

	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
)

type sheetOp struct {
	Op   string // write, header, pos, vel
	File string
	N    int // buffer length
	Hd   io.SheetHeader
	Xs   []geom.Vec
	Vs   []geom.Vec
}

type sheetRes struct {
	Err     string          `json:"err,omitempty"`
	Panic   string          `json:"panic,omitempty"`
	Hd      *io.SheetHeader `json:"hd,omitempty"`
	Data    []geom.Vec      `json:"data,omitempty"`
	Changed bool            `json:"changed,omitempty"`
}

func sheetDo(o *sheetOp, buf *[]geom.Vec) (res sheetRes) {
	defer func() {
		if r := recover(); r != nil {
			res = sheetRes{Panic: fmt.Sprint(r)}
			if res.Panic == "" {
				res.Panic = "panic"
			}
		}
	}()
	errs := func(err error) {
		if err != nil {
			res.Err = err.Error() + " "
		}
	}
	// Buffers are reused between operations, as the renderer does, so that
	// anything left in place from before is noticed.
	get := func() []geom.Vec {
		for len(*buf) < o.N {
			*buf = append(*buf, geom.Vec{-3e33, 3e33, 1e-33})
		}
		return (*buf)[:o.N]
	}
	switch o.Op {
	case "write":
		xs, vs := append([]geom.Vec{}, o.Xs...), append([]geom.Vec{}, o.Vs...)
		hd := o.Hd
		io.WriteSheet(o.File, &hd, xs, vs)
		for i := range xs {
			res.Changed = res.Changed || xs[i] != o.Xs[i] || vs[i] != o.Vs[i]
		}
		res.Changed = res.Changed || hd != o.Hd
	case "header":
		hd := io.SheetHeader{Count: -77}
		errs(io.ReadSheetHeaderAt(o.File, &hd))
		if res.Err == "" {
			res.Hd = &hd
		}
	case "pos":
		b := get()
		errs(io.ReadSheetPositionsAt(o.File, b))
		if res.Err == "" {
			res.Data = append([]geom.Vec{}, b...)
		}
	case "vel":
		b := get()
		errs(io.ReadSheetVelocitiesAt(o.File, b))
		if res.Err == "" {
			res.Data = append([]geom.Vec{}, b...)
		}
	}
	return res
}

func init() {
	apis["sheet"] = func(par json.RawMessage) interface{} {
		var p struct{ Clients [][]sheetOp }
		d := json.NewDecoder(strings.NewReader(string(par)))
		if err := d.Decode(&p); err != nil {
			panic(err)
		}
		out := make([][]sheetRes, len(p.Clients))
		var wg sync.WaitGroup
		for c := range p.Clients {
			wg.Add(1)
			go func(c int) {
				defer wg.Done()
				var buf []geom.Vec
				for i := range p.Clients[c] {
					out[c] = append(out[c], sheetDo(&p.Clients[c][i], &buf))
				}
			}(c)
		}
		wg.Wait()
		return out
	}
}
