package main

import "fmt"

// runPBuf drives the particle buffer through a history of appends and
// flushes and compares the grids with a direct placement.
func runPBuf(x *Ctx, s *Scen) *Violation {
	n := s.I["n"]
	np := n * n * n
	r := s.rng("pbuf")
	ids := r.Perm(np)
	type batch struct {
		IDs   []int64 `json:"ids"`
		Flush bool    `json:"flush"`
	}
	par := struct {
		N       int     `json:"n"`
		Buf     int     `json:"buf"`
		Batches []batch `json:"batches"`
	}{N: np, Buf: s.I["buf"]}
	for _, o := range s.Ops {
		if o < 0 {
			par.Batches = append(par.Batches, batch{Flush: true})
			continue
		}
		if o > len(ids) {
			o = len(ids)
		}
		b := batch{}
		for _, id := range ids[:o] {
			b.IDs = append(b.IDs, int64(id+1))
		}
		ids = ids[o:]
		par.Batches = append(par.Batches, b)
	}
	b := batch{}
	for _, id := range ids {
		b.IDs = append(b.IDs, int64(id+1))
	}
	par.Batches = append(par.Batches, b, batch{Flush: true})
	res := x.API(s.Procs[0], "pbuf", par)
	if v := stuck(res); v != nil {
		return v
	}
	if !res.OK() {
		return viol("buffer-fails", "appending and flushing particles fails: %s", res)
	}
	x.Probe("buffer-history")
	x.shape = fmt.Sprint(s.I, s.Ops)
	if string(res.Data) != `""` {
		return viol("buffer-placement", "%s", res.Data)
	}
	return nil
}
