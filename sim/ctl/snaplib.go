package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
)

// C36: the snapshot readers of package render/io behind their exported
// functions.

type snapOp struct {
	Op      string
	Files   []string
	Counts  []int
	Big     bool
	IDSize  int
	Variant string
	N       [3]int
	Total   int
	Buf     int
}

type catalogHeader struct {
	Cosmo             cosmoHeader
	Mass              float64
	Count, TotalCount int64
	CountWidth, Idx   int64
	GridWidth         int64
	Width, TotalWidth float64
}

type snapRes struct {
	Panic  string
	Hd     *catalogHeader
	Xs, Vs []Vec
	IDs    []int64
	Bad    bool
}

// snapFile is a file of a snapshot and what was done to it.
type snapFile struct {
	g      *gadgetFile
	name   string
	snap   int
	avail  int    // bytes present
	hdEnd  int    // bytes a header needs
	end    int    // bytes a complete read needs
	broken string // why particles cannot be read from it
	absent bool
}

func (f *snapFile) refuse(op string) bool {
	switch {
	case f.absent:
		return true
	case op == "header":
		return f.avail < f.hdEnd
	}
	return f.avail < f.end || f.broken != ""
}

// snapVal is the position or velocity a reader has to return for a stored one.
func (sn *snap) snapVal(g *gadgetFile, i, k int) (x, v float64) {
	x, v = g.xs[i][k], g.vs[i][k]
	if !g.x64 {
		x = float64(float32(x))
	}
	if x < 0 {
		x += sn.width
	} else if x >= sn.width {
		x -= sn.width
	}
	return x, v * math.Sqrt(sn.a)
}

func genSnapLib(r *PRNG, s *Scen) {
	genSnap(r, s, false)
	s.I["cells"], s.I["seg"] = r.Pick(1, 1, 2), r.Range(1, 3)
	s.I["files"] = r.Range(1, 5)
	fixSnap(s)
	s.I["snaps"] = r.Pick(1, 1, 2, 3)
	s.I["clients"] = r.Pick(1, 1, 2, 3, 4)
	s.I["big"] = r.Intn(8)
	s.Variant = r.PickS("clean", "clean", "faulty", "damaged", "damaged", "many")
	p := genProc(r, 1)
	if r.Chance(0.7) {
		benign(r, p)
	}
	switch s.Variant {
	case "faulty":
		for i, n := 0, r.Range(1, 2); i < n; i++ {
			f := &Fault{Op: r.PickS("read", "read", "read", "open"), Nth: r.Range(1, 25), Count: r.Pick(1, 1, 3, -1), Kind: r.PickS("EIO", "eof", "ESTALE")}
			if f.Op == "open" {
				f.Nth, f.Kind = r.Range(1, 6), r.PickS("EMFILE", "EACCES", "EIO")
			}
			p.IO.Faults = append(p.IO.Faults, f)
		}
	case "many":
		p.IO.MaxFDs = s.I["clients"] + 1
	}
	n := r.Range(2, 12)
	if s.Variant == "many" {
		n = r.Range(15, 40)
	}
	for i := 0; i < n; i++ {
		s.Ops = append(s.Ops, r.Intn(1<<20))
	}
	s.Procs = []*Proc{p}
}

func runSnapLib(x *Ctx, s *Scen) *Violation {
	r := s.rng("snaplib")
	var snaps []*snap
	var files []*snapFile
	var of [][]*snapFile // of each snapshot
	x.mkdir("snap")
	for k := 0; k < s.I["snaps"]; k++ {
		sn := makeSnapN(s, k)
		big := s.I["big"]>>uint(k)&1 == 1
		sn.idSize = r.Pick(32, 64)
		var order binary.ByteOrder = binary.LittleEndian
		if big {
			order = binary.BigEndian
		}
		of = append(of, nil)
		for i, g := range sn.files {
			g.x64, g.v64, g.idSize = r.Chance(0.5), r.Chance(0.5), sn.idSize
			if r.Chance(0.1) {
				// More particles than 32 bits can count, in other files.
				g.hd.NPartTotal[0] = uint32(r.Range(1, 5))
			}
			f := &snapFile{g: g, name: "snap/" + sn.names[i], snap: k, hdEnd: 260}
			n := len(g.ids)
			damage := s.Variant == "damaged" && r.Chance(0.6)
			kind := r.Intn(7)
			if damage && n > 0 {
				bad := []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[r.Intn(3)]
				j, c := r.Intn(n), r.Intn(3)
				switch kind {
				case 0:
					g.xs[j][c], f.broken = bad, "a position is no number"
				case 1:
					g.vs[j][c], f.broken = bad, "a velocity is no number"
				case 2:
					g.xs[j][c], f.broken = sn.width*float64(r.Pick(-3, 3, 5)), "a position is far outside of the box"
				}
			}
			b := g.bytes(order)
			f.end = len(b)
			if !g.noTailMarker {
				f.end -= 4
			}
			if damage {
				switch kind {
				case 3, 4:
					b = b[:r.Intn(len(b))]
				case 5:
					f.absent = true
				case 6: // a block of another length than the header announces
					at, w := 264, 12
					if g.x64 {
						w = 24
					}
					if r.Chance(0.5) {
						at += 8 + w*n
					}
					order.PutUint32(b[at:], uint32(12*(n+r.Pick(1, 2, 7))*r.Pick(1, 2)+r.Pick(0, 4)))
					f.broken = "a block has another length"
					if m := order.Uint32(b[at:]); m == uint32(12*n) || m == uint32(24*n) {
						order.PutUint32(b[at:], 4)
					}
				}
			}
			f.avail = len(b)
			if !f.absent {
				x.write(f.name, b)
			}
			files = append(files, f)
			of[k] = append(of[k], f)
		}
		snaps = append(snaps, sn)
	}
	clients := make([][]snapOp, s.I["clients"])
	about := make([][][]*snapFile, s.I["clients"])
	for _, o := range s.Ops {
		q := newPRNG(uint64(o))
		c := q.Intn(s.I["clients"])
		f := files[q.Intn(len(files))]
		op := snapOp{Op: q.PickS("header", "read", "at", "at", "all")}
		sn := snaps[f.snap]
		op.Big, op.IDSize = s.I["big"]>>uint(f.snap)&1 == 1, sn.idSize
		op.Variant = q.PickS("LGadget-2", "Arepo-type-2")
		fs := []*snapFile{f}
		n := len(f.g.ids)
		op.N = [3]int{n, n, n}
		if op.Op == "at" && q.Chance(0.2) {
			k := q.Intn(3)
			if op.N[k] += q.Pick(-1, 1, 3, n); op.N[k] < 0 {
				op.N[k] = 0
			}
		}
		if op.Op == "all" {
			all := of[f.snap]
			fs = nil
			for _, i := range q.Perm(len(all)) {
				fs = append(fs, all[i])
			}
			op.Total, op.Buf = sn.n*sn.n*sn.n, q.Pick(1, 2, 7, q.Range(1, 40), 1<<12)
		}
		for _, f := range fs {
			op.Files, op.Counts = append(op.Files, f.name), append(op.Counts, len(f.g.ids))
		}
		clients[c] = append(clients[c], op)
		about[c] = append(about[c], fs)
	}
	res := x.API(s.Procs[0], "snap", map[string]interface{}{"Clients": clients})
	x.shape = fmt.Sprint(s.Variant, s.I, s.Ops)
	if v := stuck(res); v != nil {
		return v
	}
	if !res.OK() {
		return viol("reader-aborts", "reading snapshots ended the process: %s", res)
	}
	var out [][]snapRes
	check(json.Unmarshal(res.Data, &out))
	for c := range out {
		for i := range out[c] {
			op := clients[c][i]
			if v := judgeSnapOp(x, s, op, about[c][i], snaps, &out[c][i]); v != nil {
				v.Detail = fmt.Sprintf("call %d of client %d (faults %v): %s", i, c, res.Faults, v.Detail)
				return v
			}
		}
	}
	return nil
}

func judgeSnapOp(x *Ctx, s *Scen, op snapOp, fs []*snapFile, snaps []*snap, a *snapRes) *Violation {
	f := fs[0]
	sn := snaps[f.snap]
	n := len(f.g.ids)
	refuse, why := false, ""
	for _, f := range fs {
		if f.refuse(op.Op) {
			refuse, why = true, fmt.Sprintf("%s has %d of %d bytes, absent %v, %s", f.name, f.avail, f.end, f.absent, f.broken)
		}
	}
	if op.Op == "at" && op.N != [3]int{n, n, n} {
		refuse, why = true, fmt.Sprintf("the buffers hold %v", op.N)
	}
	what := fmt.Sprintf("%s of %v (big endian %v)", op.Op, op.Files, op.Big)
	if a.Panic != "" {
		x.Probe("refused-" + op.Op)
		if !refuse && s.Variant != "faulty" {
			return viol("snapshot-refused", "%s: %s", what, a.Panic)
		}
		return nil
	}
	if refuse {
		return viol("damaged-snapshot-read", "%s succeeds although %s", what, why)
	}
	if a.Bad {
		return viol("snapshot-value", "%s returns something that is no number", what)
	}
	x.Probe("read-" + op.Op)
	if op.Op == "header" || op.Op == "read" {
		h := a.Hd
		if h == nil {
			return viol("snapshot-header", "%s returns no header", what)
		}
		if h.Count != int64(n) || h.TotalCount != int64(f.g.hd.NPartTotal[1])+int64(f.g.hd.NPartTotal[0])<<32 {
			return viol("snapshot-header", "%s: %d of %d particles, not %d of %d + %d 2^32", what, h.Count, h.TotalCount, n, f.g.hd.NPartTotal[1], f.g.hd.NPartTotal[0])
		}
		if h.Mass != sn.mass || h.TotalWidth != sn.width || h.Cosmo != (cosmoHeader{sn.z, sn.om, sn.ol, sn.h}) {
			return viol("snapshot-header", "%s: mass %g, width %g, cosmology %v instead of %g, %g, %v", what, h.Mass, h.TotalWidth, h.Cosmo, sn.mass, sn.width, cosmoHeader{sn.z, sn.om, sn.ol, sn.h})
		}
	}
	vec := func(name string, id int64, got, wx [3]float64, g *gadgetFile, vel bool) *Violation {
		for k := 0; k < 3; k++ {
			tol := 1e-6 * sn.width
			if vel {
				tol = 1e-6*math.Abs(wx[k]) + 1e-30
			}
			if !(math.Abs(got[k]-wx[k]) <= tol) {
				return viol("snapshot-"+name, "%s: particle %d has the %s %v, not %v (double precision: %v, %v)", what, id, name, got, wx, g.x64, g.v64)
			}
			if !vel && (got[k] < 0 || got[k] > sn.width*(1+1e-7)) {
				return viol("snapshot-position", "%s: particle %d is at %v in a box of %v", what, id, got, sn.width)
			}
		}
		return nil
	}
	one := func(g *gadgetFile, i int, xs, vs Vec) *Violation {
		var gx, gv, wx, wv [3]float64
		for k := 0; k < 3; k++ {
			gx[k], gv[k] = float64(xs[k]), float64(vs[k])
			wx[k], wv[k] = sn.snapVal(g, i, k)
		}
		if v := vec("position", g.ids[i], gx, wx, g, false); v != nil {
			return v
		}
		return vec("velocity", g.ids[i], gv, wv, g, true)
	}
	switch op.Op {
	case "read", "at":
		if len(a.Xs) != n || len(a.Vs) != n || len(a.IDs) != n {
			return viol("snapshot-count", "%s returns %d positions, %d velocities and %d ids of %d particles", what, len(a.Xs), len(a.Vs), len(a.IDs), n)
		}
		for i := range f.g.ids {
			if a.IDs[i] != f.g.ids[i] {
				return viol("snapshot-id", "%s: the id of particle %d is %d, not %d", what, i, a.IDs[i], f.g.ids[i])
			}
			if v := one(f.g, i, a.Xs[i], a.Vs[i]); v != nil {
				return v
			}
		}
	case "all":
		for _, f := range fs {
			for i, id := range f.g.ids {
				if v := one(f.g, i, a.Xs[id-1], a.Vs[id-1]); v != nil {
					return v
				}
			}
		}
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C36", Quick: 6000, Thorough: 60000,
		Rule:   "a run is a history of header, whole and in-place reads, and assemblies through the particle buffer, of the files of one to three random snapshots in either byte order, any mixture of precisions and either id size, by one to four concurrent clients of one process which reuse their buffers; under short, interrupted, failing and prematurely ending reads, failing opens, few file descriptors, or on cut, absent and damaged files; every value is compared with what was stored; non-trivial if a fault fired or a call was judged",
		Assume: []string{"the caller gives the byte order and id size of the file", "fewer than 2^32 particles in one file"},
		Real:   "package render/io (ReadGadgetHeader, ReadGadget, ReadGadgetParticlesAt, ParticleBuffer), package os",
		Stub:   convStub, APIs: []string{"snap"},
		Min: map[string]int{"seg": 1, "cells": 1, "files": 1, "part": 0, "x64": 0, "v64": 0, "wild": 0, "edge": 0, "clients": 1, "snaps": 1, "big": 0},
		Gen: genSnapLib,
		Run: runSnapLib,
	})
}
