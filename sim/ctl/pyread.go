package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

// This file decides C27: gotetra's Python readers against the files which
// the simulated commands write. sim/py/worker.py runs the readers.

type pyOp struct {
	Op, File string
	From     string `json:",omitempty"`
}

type pyArr struct {
	Shape []int
	Bits  string
}

type pyRes struct {
	Err, Stuck, Text string
	Fields           map[string]string
	Arrays           map[string]pyArr
	Hit              bool
}

type pyReply struct {
	Trouble       string
	Results       []pyRes
	NOps, MaxOpen int
	Hash          uint64
	Fired         map[string]int
	Faults        []string
}

type pyWorker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

// pyPool keeps the idle Python interpreters.
var pyPool struct {
	mu                 sync.Mutex
	idle               []*pyWorker
	interp, repo, code string
}

func pyInit(verif, repo string) {
	pyPool.repo, pyPool.code = repo, filepath.Join(verif, "sim", "py", "worker.py")
}

func pyStop() {
	pyPool.mu.Lock()
	defer pyPool.mu.Unlock()
	for _, w := range pyPool.idle {
		w.in.Close()
		w.cmd.Wait()
	}
	pyPool.idle = nil
}

func pyStart() *pyWorker {
	pyPool.mu.Lock()
	if pyPool.interp == "" {
		for _, c := range []string{"/opt/veriftools/pyvenv/bin/python3", "/opt/veriftools/pyvenv/bin/python", "/usr/bin/python3"} {
			if exec.Command(c, "-E", "-c", "import numpy").Run() == nil {
				pyPool.interp = c
				break
			}
		}
	}
	ip := pyPool.interp
	pyPool.mu.Unlock()
	if ip == "" {
		infra("no Python interpreter with numpy")
	}
	cmd := exec.Command(ip, "-E", "-s", "-B", pyPool.code, filepath.Join(pyPool.repo, "python"))
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "TZ=UTC", "OMP_NUM_THREADS=1", "OPENBLAS_NUM_THREADS=1", "PYTHONHASHSEED=0"}
	cmd.Dir = "/"
	cmd.Stderr = os.Stderr
	in, err := cmd.StdinPipe()
	check(err)
	out, err := cmd.StdoutPipe()
	check(err)
	check(cmd.Start())
	return &pyWorker{cmd, in, bufio.NewReaderSize(out, 1<<20)}
}

// Py runs one simulated process of the Python readers.
func (x *Ctx) Py(p *Proc, ops []pyOp) *pyReply {
	pyPool.mu.Lock()
	var w *pyWorker
	if n := len(pyPool.idle); n > 0 {
		w, pyPool.idle = pyPool.idle[n-1], pyPool.idle[:n-1]
	}
	pyPool.mu.Unlock()
	if w == nil {
		w = pyStart()
	}
	b, err := json.Marshal(map[string]interface{}{"Dir": x.dir, "Seed": p.IO.Seed, "Faults": p.IO.Faults, "Ops": ops})
	check(err)
	type reply struct {
		b   []byte
		err error
	}
	c := make(chan reply, 1)
	go func() {
		if _, err := w.in.Write(append(b, '\n')); err != nil {
			c <- reply{nil, err}
			return
		}
		l, err := w.out.ReadBytes('\n')
		c <- reply{l, err}
	}()
	out := &pyReply{}
	r := &StepResult{Outcome: "exit"}
	select {
	case a := <-c:
		if a.err != nil {
			w.cmd.Process.Kill()
			infra("the Python worker ended: %v %v", a.err, w.cmd.Wait())
		}
		if err := json.Unmarshal(a.b, out); err != nil {
			infra("bad reply of the Python worker: %v", err)
		}
		if out.Trouble != "" {
			infra("Python worker: %s", out.Trouble)
		}
		r.Data = a.b
		pyPool.mu.Lock()
		pyPool.idle = append(pyPool.idle, w)
		pyPool.mu.Unlock()
	case <-time.After(100 * time.Second):
		w.cmd.Process.Kill()
		w.cmd.Wait()
		r.Outcome = "livelock"
		out.Results = make([]pyRes, len(ops))
		for i := range out.Results {
			out.Results[i].Stuck = "no answer within 100 s"
		}
	}
	r.Sched.Hash = out.Hash
	r.IO.NOps, r.IO.Fired, r.IO.MaxOpen, r.Faults = out.NOps, out.Fired, out.MaxOpen, out.Faults
	x.n++
	x.steps = append(x.steps, r)
	return out
}

// pyFile is a file the readers are pointed at, with what it holds.
type pyFile struct {
	name   string
	grid   *gtet
	v1     bool
	sheet  *sheet
	size   int // bytes present
	full   int // bytes of the undamaged file
	header int // bytes of its header
	// foreign files are not in a form the readers know: they may be refused.
	foreign bool
}

var gridNames = []string{"Density", "Density Gradient", "Velocity", "Velocity Divergence", "Velocity Curl"}

// bytesV1 is the grid in version 1 of the format, which has no velocity block.
func (g *gtet) bytesV1() []byte {
	b := gtetBytes(g)
	h := append([]byte{}, b[:gtetHeaderSize-13*8]...)
	binary.LittleEndian.PutUint64(h, ^uint64(0))
	binary.LittleEndian.PutUint64(h[8:], uint64(len(h)))
	return append(h, b[gtetHeaderSize:]...)
}

func bigEndianGtet(g *gtet) []byte {
	hd := g.hd
	hd.EndiannessVersion = ^gtetVersionFlagLE
	hd.HeaderSize = gtetHeaderSize
	var b bytes.Buffer
	check(binary.Write(&b, binary.BigEndian, &hd))
	for _, p := range g.grid {
		check(binary.Write(&b, binary.BigEndian, p))
	}
	return b.Bytes()
}

func randGtet(r *PRNG) *gtet {
	g := &gtet{}
	h := &g.hd
	h.EndiannessVersion, h.HeaderSize = gtetVersionFlagLE, gtetHeaderSize
	h.GridType = int64(r.Intn(5))
	planes := 1
	if h.GridType != 0 && h.GridType != 3 {
		h.IsVectorGrid, planes = 1, 3
	}
	f := func() float64 { return r.Uniform(-1, 1) * math.Pow(10, float64(r.Range(-12, 14))) }
	h.Redshift, h.ScaleFactor, h.OmegaM, h.OmegaL = f(), f(), r.Float(), r.Float()
	h.Hubble, h.RhoMean, h.RhoCritical, h.BoxWidth = f(), f(), f(), f()
	h.Particles, h.TotalPixels = int64(r.Range(0, 1<<30)), int64(r.Range(1, 1<<30))
	h.SubsampleLength, h.MinProjectionDepth = int64(r.Range(1, 64)), int64(r.Range(0, 1<<30))
	h.ProjectionAxis = int64(r.Range(-1, 2))
	for k := 0; k < 3; k++ {
		h.Loc.Origin[k], h.Loc.Span[k] = f(), f()
		h.Loc.PixelOrigin[k], h.Loc.PixelSpan[k] = int64(r.Range(0, 1<<30)), int64(r.Range(1, 7))
		if r.Chance(0.05) {
			h.Loc.PixelSpan[k] = int64(r.Range(20, 60))
		}
	}
	h.Loc.PixelWidth = f()
	n := 1
	for _, w := range g.shape() {
		n *= w
	}
	for i := 0; i < planes; i++ {
		p := make([]float32, n)
		for j := range p {
			p[j] = float32(f())
		}
		g.grid = append(g.grid, p)
	}
	return g
}

func init() {
	register(&Prop{
		ID: "C27", Quick: 16000, Thorough: 100000,
		Rule:   "a run is a history of calls of the Python readers (read_header, read_grid, gotetra.py as a command, gtet.File) on grid files from a simulated render, segment files from a simulated WriteSheet, or files of random contents, some of them truncated, missing, of an older version, foreign or replaced in between, while reads are fragmented, cut short and failing; whatever a reader returns is compared bit for bit with what the file holds, and a refusal needs a damaged file or a fault; non-trivial if a fault fired or a probe was hit",
		Assume: []string{"Python 3 with numpy, on a little endian machine", "segment arrays are compared in the order of the file, last index fastest", "a file is not replaced while it is being read"},
		Real:   "python/gotetra.py and python/gtet.py on the CPython interpreter with its array, struct and numpy modules; the Render command and WriteSheet of package render/io",
		Stub:   "the raw file layer below Python's buffered and text files; for the Go processes as C05 and C08",
		APIs:   []string{"sheet"},
		Min:    map[string]int{"seg": 1, "cells": 1, "px": 1, "pts": 1, "files": 1, "nf": 1},
		Gen: func(r *PRNG, s *Scen) {
			s.Variant = r.PickS("random", "random", "random", "sheets", "sheets", "render", "wsheet")
			py := genProc(r, 1)
			py.IO.Faults = nil
			s.I["nf"] = r.Range(1, 4)
			s.I["damage"] = r.Intn(2)
			if r.Chance(0.6) {
				py.IO.Faults = append(py.IO.Faults, &Fault{Op: "read", Prob: []float64{0.05, 0.3, 0.9}[r.Intn(3)], Kind: "short"})
			}
			if r.Chance(0.4) {
				for i, n := 0, r.Range(1, 2); i < n; i++ {
					f := &Fault{Op: r.PickS("read", "read", "read", "open"), Nth: r.Range(1, 14), Count: r.Pick(1, 1, 2, -1), Kind: r.PickS("EIO", "ESTALE", "eof", "eof")}
					if f.Op == "open" {
						f.Kind = r.PickS("EACCES", "EMFILE", "ENOENT")
					}
					py.IO.Faults = append(py.IO.Faults, f)
				}
			}
			s.Procs = []*Proc{py}
			switch s.Variant {
			case "render":
				genUntilOK(r, s, func() {
					q := r.PickS("Density", "Density", "Velocity", "VelocityCurl", "VelocityDivergence", "DensityGradient")
					if q == "Density" || q == "Velocity" {
						genRender(r, s, q, "clump", "wave")
						genBoxes(r, s, r.Range(1, 3), 1, true)
					} else {
						genRender(r, s, q, "clump")
						s.S["vel"] = "seg"
						derivedBoxes(r, s)
					}
				})
				s.Procs = append(s.Procs, genProc(r, r.Range(1, 3)))
			case "wsheet":
				s.Procs = append(s.Procs, genProc(r, 1))
			}
			for i, n := 0, r.Range(1, 10); i < n; i++ {
				s.Ops = append(s.Ops, r.Intn(1<<20))
			}
		},
		Run: runPy,
	})
}

// pyFiles makes the files of a scenario.
func pyFiles(x *Ctx, s *Scen, r *PRNG) ([]*pyFile, *Violation) {
	var files []*pyFile
	switch s.Variant {
	case "render":
		d, rs, ok := plan(s)
		if !ok {
			return nil, nil
		}
		x.shape = fmt.Sprint(s.I, s.S)
		res := x.Main(s.Procs[1], setupRender(x, s, d)...)
		if v := stuck(res); v != nil {
			return nil, v
		}
		if !res.OK() {
			return nil, viol("render-fails", "a render without faults fails: %s", res)
		}
		for i := range rs {
			t, v := readGtet(x, s, d, &rs[i], "out")
			if v != nil {
				return nil, v
			}
			name := "out/" + s.outName(rs[i].spec.Name) + ".gtet"
			b, _ := x.read(name)
			files = append(files, &pyFile{name: name, grid: t, size: len(b), header: gtetHeaderSize})
		}
		x.Probe("rendered-files")
	case "wsheet":
		var ops []sheetOp
		for i := 0; i < s.I["nf"]; i++ {
			t := randSheet(r, r.Pick(1, 2, 2, 3, 4))
			f := &pyFile{name: fmt.Sprintf("sheet%03d.dat", i), sheet: t, header: 8 + sheetHeaderSize}
			ops = append(ops, sheetOp{Op: "write", File: f.name, Hd: t.hd, Xs: t.xs, Vs: t.vs})
			files = append(files, f)
		}
		res := x.API(s.Procs[1], "sheet", map[string]interface{}{"Clients": [][]sheetOp{ops}})
		if v := stuck(res); v != nil {
			return nil, v
		}
		if !res.OK() {
			return nil, viol("write-fails", "writing segments fails without a fault: %s", res)
		}
		for _, f := range files {
			b, err := x.read(f.name)
			if err != nil {
				return nil, viol("write-fails", "%s was written but %v", f.name, err)
			}
			f.size = len(b)
		}
		x.Probe("written-segments")
	case "sheets":
		for i := 0; i < s.I["nf"]; i++ {
			t := randSheet(r, r.Pick(1, 2, 2, 3, 4, 7))
			if r.Chance(0.3) {
				t.hd.Count, t.hd.CountWidth = int64(r.Next()>>11), int64(r.Next()>>12)
			}
			f := &pyFile{name: fmt.Sprintf("sheet%03d.dat", i), sheet: t, header: 8 + sheetHeaderSize}
			var order binary.ByteOrder = binary.LittleEndian
			if r.Chance(0.1) {
				order, f.foreign = binary.BigEndian, true
			}
			b := sheetBytes(&t.hd, t.xs, t.vs, order)
			f.size = len(b)
			x.write(f.name, b)
			files = append(files, f)
		}
	default:
		for i := 0; i < s.I["nf"]; i++ {
			f := &pyFile{name: fmt.Sprintf("g%d.gtet", i), grid: randGtet(r), header: gtetHeaderSize}
			b := gtetBytes(f.grid)
			switch r.Intn(10) {
			case 0, 1, 2:
				f.v1 = true
				b = f.grid.bytesV1()
				f.header = gtetHeaderSize - 13*8
			case 3:
				f.foreign = true
				b = bigEndianGtet(f.grid)
			case 4:
				f.foreign = true
				ver := uint64(r.Range(3, 9)) // a later version
				binary.LittleEndian.PutUint64(b, ^(ver - 1))
			}
			f.size = len(b)
			x.write(f.name, b)
			files = append(files, f)
		}
	}
	for _, f := range files {
		f.full = f.size
	}
	if s.I["damage"] == 1 {
		for _, f := range files {
			if !r.Chance(0.5) {
				continue
			}
			b, err := x.read(f.name)
			check(err)
			switch r.Intn(8) {
			case 0:
				x.remove(f.name)
				f.size, f.full = -1, 0
				x.Probe("absent")
				continue
			case 1:
				x.remove(f.name)
				x.mkdir(f.name)
				f.size, f.full = -1, 0
				x.Probe("directory")
				continue
			case 2:
				f.size = r.Intn(f.header + 1)
			case 3:
				f.size = len(b) - r.Range(1, 4)
			default:
				f.size = r.Intn(len(b))
			}
			if f.size < 0 {
				f.size = 0
			}
			x.write(f.name, b[:f.size])
			x.Probe("truncated")
		}
	}
	return files, nil
}

func runPy(x *Ctx, s *Scen) *Violation {
	r := s.rng("py")
	files, v := pyFiles(x, s, r)
	if v != nil || len(files) == 0 {
		return v
	}
	sheets := files[0].sheet != nil
	var ops []pyOp
	var on []*pyFile
	at := append([]*pyFile{}, files...) // what each name holds by now
	for _, o := range s.Ops {
		q := newPRNG(uint64(o))
		i := q.Intn(len(at))
		if j := q.Intn(len(at)); q.Chance(0.15) && i != j && files[j].size >= 0 && at[i].size >= 0 {
			// The file is replaced by another (as it was at first).
			x.write(fmt.Sprintf("alt%d", j), mustRead(x, files[j].name))
			ops = append(ops, pyOp{Op: "put", File: files[i].name, From: fmt.Sprintf("alt%d", j)})
			on = append(on, nil)
			at[i] = files[j]
			x.Probe("replaced")
			continue
		}
		kind := q.PickS("header", "grid", "grid", "main")
		if sheets {
			kind = "sheet"
		}
		ops = append(ops, pyOp{Op: kind, File: files[i].name})
		on = append(on, at[i])
	}
	x.shape = fmt.Sprint(s.Variant, s.I, s.Ops)
	rep := x.Py(s.Procs[0], ops)
	if len(rep.Results) != len(ops) {
		infra("%d results for %d operations", len(rep.Results), len(ops))
	}
	for i, o := range ops {
		a, f := rep.Results[i], on[i]
		if f == nil {
			continue
		}
		what := fmt.Sprintf("%s of %s (%d of %d bytes, foreign %v, version 1 %v)", o.Op, o.File, f.size, f.full, f.foreign, f.v1)
		if a.Stuck != "" {
			return viol("reader-stuck", "%s: %s", what, a.Stuck)
		}
		need := f.full
		if o.Op == "header" || o.Op == "main" {
			need = f.header
		}
		whole := f.size >= need && f.full > 0
		if a.Err != "" {
			x.Probe("refused-" + o.Op)
			if whole && !f.foreign && !a.Hit {
				return viol("good-file-refused", "%s: %s", what, a.Err)
			}
			continue
		}
		if !whole {
			return viol("damaged-file-accepted", "%s was read without an error (faults %v)", what, rep.Faults)
		}
		x.Probe("read-" + o.Op)
		var err error
		switch {
		case o.Op == "sheet":
			err = pySheet(f.sheet, &a)
		case o.Op == "grid":
			err = pyGrid(f.grid, a.Arrays["grid"])
		case o.Op == "header":
			if err = pyHeader(f, a.Fields); err == nil {
				err = pyText(f.grid, a.Text)
			}
		default:
			err = pyText(f.grid, a.Text)
		}
		if err != nil {
			return viol("wrong-"+o.Op, "%s: %v (faults %v)", what, err, rep.Faults)
		}
	}
	return nil
}

func mustRead(x *Ctx, name string) []byte {
	b, err := x.read(name)
	check(err)
	return b
}

type pyWant map[string]interface{}

func (w pyWant) vec(name string, v [3]float64) {
	for k := range v {
		w[fmt.Sprintf("%s[%d]", name, k)] = v[k]
	}
}

func (w pyWant) ivec(name string, v [3]int64) {
	for k := range v {
		w[fmt.Sprintf("%s[%d]", name, k)] = v[k]
	}
}

func (w pyWant) fvec(name string, v Vec) {
	w.vec(name, [3]float64{float64(v[0]), float64(v[1]), float64(v[2])})
}

// match compares fields as Python spells them with what they should be.
func (w pyWant) match(got map[string]string) error {
	for _, k := range keys(w) {
		g, ok := got[k]
		if !ok {
			return fmt.Errorf("field %s is missing", k)
		}
		good := false
		switch v := w[k].(type) {
		case bool:
			good = g == fmt.Sprint(v)
		case int64:
			n, err := strconv.ParseInt(g, 10, 64)
			if err != nil { // an integer in a floating point variable
				f, e := strconv.ParseFloat(g, 64)
				good = e == nil && f == float64(v)
			} else {
				good = n == v
			}
		case float64:
			f, err := strconv.ParseFloat(g, 64)
			good = err == nil && f == v
		}
		if !good {
			return fmt.Errorf("field %s is %s, the file holds %v", k, g, w[k])
		}
	}
	return nil
}

func pyHeader(f *pyFile, got map[string]string) error {
	h := &f.grid.hd
	size := h.HeaderSize
	if f.v1 {
		size = int64(f.header)
	}
	end := int64(-1)
	if f.foreign {
		end = 0
	}
	w := pyWant{
		"type.endianness_flag": end, "type.header_size": size, "type.grid_type": h.GridType, "type.is_vector_grid": h.IsVectorGrid == 1,
		"cosmo.redshift": h.Redshift, "cosmo.scale_factor": h.ScaleFactor, "cosmo.omega_m": h.OmegaM, "cosmo.omega_l": h.OmegaL,
		"cosmo.h0": h.Hubble, "cosmo.rho_mean": h.RhoMean, "cosmo.rho_critical": h.RhoCritical, "cosmo.box_width": h.BoxWidth,
		"render.particles": h.Particles, "render.total_pixels": h.TotalPixels, "render.subsample_length": h.SubsampleLength,
		"render.min_projection_depth": h.MinProjectionDepth, "render.projection_axis": h.ProjectionAxis,
		"loc.pixel_width": h.Loc.PixelWidth, "pw": h.Loc.PixelWidth, "axis": h.ProjectionAxis,
	}
	w.vec("loc.origin", h.Loc.Origin)
	w.vec("loc.span", h.Loc.Span)
	w.ivec("loc.pixel_origin", h.Loc.PixelOrigin)
	w.ivec("loc.pixel_span", h.Loc.PixelSpan)
	w.ivec("dim", h.Loc.PixelSpan)
	return w.match(got)
}

func (a *pyArr) match(shape []int, want func(i int) float32) error {
	if fmt.Sprint(a.Shape) != fmt.Sprint(shape) {
		return fmt.Errorf("shape %v, should be %v", a.Shape, shape)
	}
	b, err := base64.StdEncoding.DecodeString(a.Bits)
	check(err)
	n := 1
	for _, k := range shape {
		n *= k
	}
	if len(b) != 8*n {
		return fmt.Errorf("%d bytes for shape %v", len(b), shape)
	}
	for i := 0; i < n; i++ {
		g := math.Float64frombits(binary.LittleEndian.Uint64(b[8*i:]))
		if g != float64(want(i)) {
			return fmt.Errorf("value %d is %g, the file holds %g", i, g, want(i))
		}
	}
	return nil
}

func pyGrid(t *gtet, a pyArr) error {
	var shape []int
	n := 1
	if len(t.grid) == 3 {
		shape = append(shape, 3)
	}
	for k := 2; k >= 0; k-- {
		if int64(k) != t.hd.ProjectionAxis {
			shape = append(shape, int(t.hd.Loc.PixelSpan[k]))
			n *= int(t.hd.Loc.PixelSpan[k])
		}
	}
	return a.match(shape, func(i int) float32 { return t.grid[i/n][i%n] })
}

func pySheet(t *sheet, a *pyRes) error {
	h := &t.hd
	w := pyWant{"z": h.Cosmo.Z, "omega_m": h.Cosmo.OmegaM, "h100": h.Cosmo.H100, "count": h.Count, "count_width": h.CountWidth,
		"x_width": h.SegmentWidth, "xn_width": h.GridWidth, "file_idx": h.Idx, "file_cells": h.Cells}
	w.fvec("x_origin", h.Origin)
	w.fvec("x_span", h.Width)
	w.fvec("v_origin", h.VelocityOrigin)
	w.fvec("v_span", h.VelocityWidth)
	if err := w.match(a.Fields); err != nil {
		return err
	}
	n := int(h.GridWidth)
	for _, k := range []string{"x", "v", "xn", "vn"} {
		from, m := t.xs, n
		if k[0] == 'v' {
			from = t.vs
		}
		if len(k) == 1 {
			m = n - 1
		}
		b := a.Arrays[k]
		if err := b.match([]int{m, m, m, 3}, func(i int) float32 {
			c, i := i%3, i/3
			return from[i%m+n*(i/m%m+n*(i/m/m))][c]
		}); err != nil {
			return fmt.Errorf("%s: %v", k, err)
		}
	}
	return nil
}

// pyText judges a printed header: four digits of everything.
func pyText(t *gtet, text string) error {
	h := &t.hd
	got := map[string]string{}
	for _, l := range strings.Split(text, "\n") {
		if k, v, ok := strings.Cut(l, "="); ok {
			got[strings.TrimSpace(k)] = strings.TrimSpace(v)
		}
	}
	axis := "None"
	if h.ProjectionAxis >= 0 {
		axis = string("XYZ"[h.ProjectionAxis])
	}
	boolName := "False"
	if h.IsVectorGrid == 1 {
		boolName = "True"
	}
	for k, v := range map[string]string{"grid_type": gridNames[h.GridType], "is_vector_grid": boolName, "projection_axis": axis} {
		if got[k] != v {
			return fmt.Errorf("printed %s is %q, should be %q", k, got[k], v)
		}
	}
	f := func(v ...float64) []float64 { return v }
	iv := func(v [3]int64) []float64 { return f(float64(v[0]), float64(v[1]), float64(v[2])) }
	want := map[string][]float64{
		"redshift": f(h.Redshift), "scale_factor": f(h.ScaleFactor), "omega_m": f(h.OmegaM), "omega_l": f(h.OmegaL), "h0": f(h.Hubble),
		"rho_mean": f(h.RhoMean), "rho_critical": f(h.RhoCritical), "box_width": f(h.BoxWidth),
		"particles": f(float64(h.Particles)), "total_pixels": f(float64(h.TotalPixels)), "subsample_length": f(float64(h.SubsampleLength)),
		"min_projection_depth": f(float64(h.MinProjectionDepth)), "pixel_width": f(h.Loc.PixelWidth),
		"origin": h.Loc.Origin[:], "span": h.Loc.Span[:], "pixel_origin": iv(h.Loc.PixelOrigin), "pixel_span": iv(h.Loc.PixelSpan),
	}
	for _, k := range keys(want) {
		p := strings.FieldsFunc(got[k], func(c rune) bool { return strings.ContainsRune("[], ()", c) })
		if len(p) != len(want[k]) {
			return fmt.Errorf("printed %s is %q, should be %v", k, got[k], want[k])
		}
		for i, v := range want[k] {
			g, err := strconv.ParseFloat(p[i], 64)
			if err != nil || !closeTo(g, v, 1e-3) {
				return fmt.Errorf("printed %s is %q, should be %v", k, got[k], want[k])
			}
		}
	}
	return nil
}
