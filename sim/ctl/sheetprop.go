package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
)

type sheetOp struct {
	Op, File string
	N        int
	Hd       sheetHeader
	Xs, Vs   []Vec
}

type sheetRes struct {
	Err, Panic string
	Hd         *sheetHeader
	Data       []Vec
	Changed    bool
}

func randSheet(r *PRNG, gw int) *sheet {
	s := &sheet{}
	h := &s.hd
	seg := int64(gw - 1)
	h.Cells = int64(r.Range(1, 9))
	h.SegmentWidth, h.GridWidth, h.GridCount = seg, int64(gw), int64(gw*gw*gw)
	h.CountWidth = seg * h.Cells
	h.Count = h.CountWidth * h.CountWidth * h.CountWidth
	h.Idx = int64(r.Intn(int(h.Cells * h.Cells * h.Cells)))
	h.Cosmo = cosmoHeader{r.Uniform(0, 20), r.Float(), r.Float(), r.Float()}
	h.Mass, h.TotalWidth = r.Uniform(1, 1e12), r.Uniform(1, 1000)
	n := gw * gw * gw
	for k := 0; k < 3; k++ {
		h.Origin[k], h.Width[k] = float32(r.Uniform(0, 100)), float32(r.Uniform(0, 50))
		h.VelocityOrigin[k], h.VelocityWidth[k] = float32(r.Uniform(-500, 0)), float32(r.Uniform(0, 900))
	}
	s.xs, s.vs = make([]Vec, n), make([]Vec, n)
	for i := 0; i < n; i++ {
		for k := 0; k < 3; k++ {
			s.xs[i][k] = float32(r.Uniform(0, h.TotalWidth))
			s.vs[i][k] = float32(r.Uniform(-700, 700))
		}
	}
	return s
}

func init() {
	register(&Prop{
		ID: "C05", Quick: 15000, Thorough: 120000,
		Rule:   "a run is a history of segment writes and header, position and velocity reads by one to three concurrent clients over shared files (some prepared in the opposite byte order, some damaged), under fragmented and failing system calls; every read which reports success must return exactly what the file holds",
		Assume: []string{"a concurrent writer and reader of one file are not combined"},
		Real:   "package render/io (WriteSheet, ReadSheetHeaderAt, ReadSheetPositionsAt, ReadSheetVelocitiesAt), package os",
		Stub:   convStub, APIs: []string{"sheet"},
		Min: map[string]int{"clients": 1, "files": 1},
		Gen: func(r *PRNG, s *Scen) {
			s.I["clients"] = r.Pick(1, 1, 2, 3)
			s.I["files"] = r.Range(1, 4)
			s.Variant = r.PickS("clean", "clean", "faulty", "damaged", "write")
			p := genProc(r, 1)
			if r.Chance(0.7) {
				benign(r, p)
			}
			if r.Chance(0.02) {
				s.Variant = "mismatch"
			}
			if s.Variant == "faulty" {
				for i := 0; i < r.Range(1, 2); i++ {
					p.IO.Faults = append(p.IO.Faults, &Fault{Op: r.PickS("read", "read", "read", "open"), Nth: r.Range(1, 12), Count: r.Pick(1, 1, 3, -1), Kind: r.PickS("EIO", "eof", "ESTALE")})
				}
				if p.IO.Faults[len(p.IO.Faults)-1].Op == "open" {
					p.IO.Faults[len(p.IO.Faults)-1].Kind = "EMFILE"
				}
			}
			if s.Variant == "write" && r.Chance(0.5) {
				switch r.Intn(3) {
				case 0:
					p.IO.Capacity = int64(r.Range(1, 4000))
				case 1:
					p.IO.Faults = append(p.IO.Faults, &Fault{Op: "write", Nth: r.Range(1, 12), Count: r.Pick(1, -1), Kind: "EIO"})
				case 2:
					p.IO.Faults = append(p.IO.Faults, &Fault{Op: "closew", Nth: r.Range(1, 3), Kind: "lost", Arg: int64(r.Range(1, 500))})
				}
			}
			for i, n := 0, r.Range(2, 14); i < n; i++ {
				s.Ops = append(s.Ops, r.Intn(1<<20))
			}
			s.Procs = []*Proc{p}
		},
		Run: runSheet,
	})
}

// runMismatch writes segments whose vectors are not those their header
// announces.
func runMismatch(x *Ctx, s *Scen) *Violation {
	r := s.rng("mismatch")
	t := randSheet(r, r.Pick(1, 2, 2, 3, 4))
	bad := *t
	n := len(t.xs)
	resize := func(v []Vec) []Vec {
		switch m := n + r.Pick(-1, 1, -n, n, r.Range(1, 9)); {
		case m <= n:
			return v[:m]
		default:
			return append(append([]Vec{}, v...), make([]Vec, m-n)...)
		}
	}
	kind := r.Intn(4)
	switch kind {
	case 0:
		bad.xs = resize(t.xs)
	case 1:
		bad.vs = resize(t.vs)
	case 2:
		bad.xs, bad.vs = resize(t.xs), resize(t.vs)
	case 3:
		bad.hd.GridWidth += int64(r.Pick(-1, 1))
	}
	held := r.Chance(0.5)
	var old []byte
	if held {
		o := randSheet(r, 2)
		old = sheetBytes(&o.hd, o.xs, o.vs, binary.LittleEndian)
		x.write("f.dat", old)
	}
	res := x.API(s.Procs[0], "sheet", map[string]interface{}{"Clients": [][]sheetOp{{{Op: "write", File: "f.dat", Hd: bad.hd, Xs: bad.xs, Vs: bad.vs}}}})
	x.shape = fmt.Sprint(s.Variant, s.I, s.Ops, kind)
	if v := stuck(res); v != nil {
		return v
	}
	if res.OK() {
		var out [][]sheetRes
		check(json.Unmarshal(res.Data, &out))
		if a := out[0][0]; a.Err == "" && a.Panic == "" {
			return viol("mismatch-written", "a segment of %d points (width %d) with %d positions and %d velocities is written", bad.hd.GridCount, bad.hd.GridWidth, len(bad.xs), len(bad.vs))
		}
	}
	b, err := x.read("f.dat")
	if held && (err != nil || string(b) != string(old)) || !held && err == nil {
		return viol("mismatch-touches-file", "a segment of %d points with %d positions and %d velocities is refused, but the file was touched", bad.hd.GridCount, len(bad.xs), len(bad.vs))
	}
	x.Probe("mismatch-refused")
	return nil
}

func runSheet(x *Ctx, s *Scen) *Violation {
	if s.Variant == "mismatch" {
		return runMismatch(x, s)
	}
	r := s.rng("sheets")
	nf := s.I["files"]
	truth := make([]*sheet, nf) // contents a successful read may return
	avail := make([]int, nf)    // bytes present in the file
	name := make([]string, nf)
	be := make([]bool, nf)
	broken := make([]bool, nf) // not even the header is right
	absent := make([]bool, nf)
	writer := make([]int, nf) // client which writes the file, or -1
	for f := range truth {
		truth[f] = randSheet(r, r.Pick(1, 2, 2, 3, 4))
		name[f] = fmt.Sprintf("f%d.dat", f)
		be[f] = r.Chance(0.4)
		writer[f] = -1
		if s.Variant == "write" {
			writer[f] = f % s.I["clients"]
			continue
		}
		var order binary.ByteOrder = binary.LittleEndian
		if be[f] {
			order = binary.BigEndian
		}
		b := sheetBytes(&truth[f].hd, truth[f].xs, truth[f].vs, order)
		if s.Variant == "damaged" && r.Chance(0.7) {
			switch r.Intn(6) {
			case 0, 1, 2:
				b = b[:r.Intn(len(b))]
			case 3: // header size of another version of the format
				order.PutUint32(b[4:], uint32(sheetHeaderSize+8*r.Pick(-1, 1)))
				broken[f] = true
			case 4:
				binary.LittleEndian.PutUint32(b, uint32(r.Pick(1, 2, 0x1000000, 7)))
				broken[f] = true
			case 5:
				absent[f] = true
			}
		}
		avail[f] = len(b)
		if !absent[f] {
			x.write(name[f], b)
		}
	}
	clients := make([][]sheetOp, s.I["clients"])
	owner := make([][]int, s.I["clients"])
	written := make([]bool, nf)
	for _, o := range s.Ops {
		q := newPRNG(uint64(o))
		c := q.Intn(s.I["clients"])
		f := q.Intn(nf)
		op := sheetOp{Op: q.PickS("header", "pos", "vel", "pos", "vel"), File: name[f]}
		n := int(truth[f].hd.GridCount)
		op.N = n
		if q.Chance(0.15) {
			op.N = n + q.Pick(-1, 1, 5, -n)
			if op.N < 0 {
				op.N = 0
			}
		}
		if s.Variant == "write" {
			c = writer[f]
			if !written[f] || q.Chance(0.3) {
				op = sheetOp{Op: "write", File: name[f], Hd: truth[f].hd, Xs: truth[f].xs, Vs: truth[f].vs}
				written[f] = true
			}
		}
		clients[c] = append(clients[c], op)
		owner[c] = append(owner[c], f)
	}
	res := x.API(s.Procs[0], "sheet", map[string]interface{}{"Clients": clients})
	x.shape = fmt.Sprint(s.Variant, s.I, s.Ops)
	if v := stuck(res); v != nil {
		return v
	}
	if s.Variant == "write" && !res.OK() {
		// WriteSheet ends the process when it fails; without a fault it
		// must not.
		for _, f := range s.Procs[0].IO.Faults {
			if f.Prob == 0 {
				x.Probe("write-refused")
				return nil
			}
		}
		if s.Procs[0].IO.Capacity > 0 {
			x.Probe("write-refused")
			return nil
		}
		return viol("write-fails", "writing segments fails without a real fault: %s", res)
	}
	if !res.OK() {
		return viol("reader-aborts", "reading segments ended the process: %s", res)
	}
	var out [][]sheetRes
	check(json.Unmarshal(res.Data, &out))
	real := s.Variant == "faulty"
	for c := range out {
		for i := range out[c] {
			a, op, f := out[c][i], clients[c][i], owner[c][i]
			t := truth[f]
			n := int(t.hd.GridCount)
			failed := a.Err != "" || a.Panic != ""
			if failed {
				x.Probe("refused-" + op.Op)
			}
			switch op.Op {
			case "write":
				if failed {
					return viol("write-fails", "writing %s: %s%s", op.File, a.Err, a.Panic)
				}
				if a.Changed {
					return viol("write-changes-input", "writing %s changed the caller's data", op.File)
				}
			case "header":
				need := 8 + sheetHeaderSize
				if !failed {
					if broken[f] || absent[f] || avail[f] < need && s.Variant != "write" {
						return viol("damaged-header-accepted", "header of %s (%d bytes, broken %v, absent %v) was read without an error", op.File, avail[f], broken[f], absent[f])
					}
					if *a.Hd != t.hd {
						return viol("wrong-header", "header of %s (big endian %v) reads %+v, was written as %+v", op.File, be[f], *a.Hd, t.hd)
					}
				} else if !real && !broken[f] && !absent[f] && (avail[f] >= need || s.Variant == "write") {
					return viol("good-file-refused", "header of %s: %s%s", op.File, a.Err, a.Panic)
				}
			case "pos", "vel":
				need := 8 + sheetHeaderSize + 12*n
				want := t.xs
				if op.Op == "vel" {
					need += 12 * n
					want = t.vs
				}
				if !failed {
					if op.N != n {
						return viol("wrong-size-accepted", "%s of %s (%d points) were read into a buffer of %d without an error", op.Op, op.File, n, op.N)
					}
					if broken[f] || absent[f] || avail[f] < need && s.Variant != "write" {
						return viol("damaged-data-accepted", "%s of %s (%d of %d bytes, broken %v, absent %v) were read without an error", op.Op, op.File, avail[f], need, broken[f], absent[f])
					}
					for j := range want {
						for k := 0; k < 3; k++ {
							if math.Float32bits(a.Data[j][k]) != math.Float32bits(want[j][k]) {
								return viol("wrong-data", "%s of %s (big endian %v): point %d reads %v, was written as %v (faults %v)", op.Op, op.File, be[f], j, a.Data[j], want[j], res.Faults)
							}
						}
					}
				} else if !real && op.N == n && !broken[f] && !absent[f] && (avail[f] >= need || s.Variant == "write") {
					return viol("good-file-refused", "%s of %s: %s%s", op.Op, op.File, a.Err, a.Panic)
				}
			}
		}
	}
	if s.Variant == "write" {
		for f := range truth {
			if !written[f] {
				continue
			}
			b, err := x.read(name[f])
			if err != nil {
				return viol("write-lost", "%s was written but %v", name[f], err)
			}
			sh, err := parseSheet(b)
			if err != nil {
				return viol("write-lost", "%s was written without an error but: %v (faults %v)", name[f], err, res.Faults)
			}
			sh.hd.Count = truth[f].hd.Count
			if sh.hd != truth[f].hd || fmt.Sprint(sh.xs, sh.vs) != fmt.Sprint(truth[f].xs, truth[f].vs) {
				return viol("write-wrong", "%s does not hold what was written (header %+v)", name[f], sh.hd)
			}
		}
	}
	return nil
}
