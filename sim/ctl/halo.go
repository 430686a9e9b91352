package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// haloNames are the columns of a halo catalogue, in order.
var haloNames = strings.Fields(`Scale ID DescScale DescID NumProg PID UPID DescPID Phantom SAMMVir MVir RVir Rs Vrms MMP
	ScaleOfLastMMP VMax X Y Z Vx Vy Vz Jx Jy Jz Spin BreadthFirstID DepthFirstID TreeRootID OrigHaloID SnapNum
	NextCoprogenitorDepthFirstID LastProgenitorDepthFirstID RsKylpin MVirAll M200b M200c M500c M2500c XOff Voff
	SpinBullock BToA CToA Ax Ay Az BToA500c CToA500c Ax500c Ay500c Az500c TU MAcc MPeak VAcc VPeak HalfmassScale
	AccRateInst AccRate100Myr AccRateTdyn`)

// haloRadii are the radii which are computed from a column of masses.
var haloRadii = map[string]string{"RadVir": "MVir", "Rad200b": "M200b", "Rad200c": "M200c", "Rad500c": "M500c", "Rad2500c": "M2500c"}

type haloOp struct {
	Fn      string
	In, Out string    `json:",omitempty"`
	N       int       `json:",omitempty"`
	Vals    []string  `json:",omitempty"`
	X       []float64 `json:",omitempty"`
}

type haloRes struct {
	Err, Panic string
	IDs        []int
	Bits       [][]uint64
	Names      []string
}

type haloCosmo struct{ Z, OmegaM, OmegaL, H100 float64 }

// massToRadius is the comoving radius of a sphere of the given mass and
// overdensity; radiusToMass is its inverse.
func (c *haloCosmo) density(def string) float64 {
	const g, mpc, msun = 6.67259e-11, 3.08560e+22, 1.98900e+30
	h := 100 * 1000 / mpc // per unit of h
	crit := 3 * h * h / (8 * math.Pi * g) * mpc * mpc * mpc / msun
	z3 := math.Pow(1+c.Z, 3)
	at := crit * (c.OmegaM*z3 + c.OmegaL)
	switch def {
	case "vir":
		return 177.653 * at
	case "200c":
		return 200 * at
	case "500c":
		return 500 * at
	case "2500c":
		return 2500 * at
	}
	return 200 * crit * c.OmegaM * z3
}

func (c *haloCosmo) radius(def string, m float64) float64 {
	return math.Cbrt(m/(c.density(def)*4*math.Pi/3)) * (1 + c.Z)
}

func (c *haloCosmo) mass(def string, r float64) float64 {
	r /= 1 + c.Z
	return c.density(def) * 4 * math.Pi / 3 * r * r * r
}

type haloCat struct{ rows [][]float64 }

func genHaloCat(r *PRNG) *haloCat {
	c := &haloCat{}
	n := r.Pick(1, 2, 3, 8, 20, 50)
	ids := r.Perm(4 * n)
	w := len(haloNames) + r.Pick(0, 0, 3)
	for i := 0; i < n; i++ {
		row := make([]float64, w)
		for k := range row {
			switch {
			case k < len(haloNames) && strings.HasPrefix(haloNames[k], "M") && haloNames[k] != "MMP":
				row[k] = math.Pow(10, r.Uniform(8, 15.5))
			case k == 11 || k == 12 || k == 34:
				row[k] = r.Uniform(1, 3000)
			case k == 5 || k == 6:
				row[k] = float64(r.Pick(-1, r.Intn(1<<40)))
			default:
				row[k] = r.Uniform(-1000, 1000)
			}
		}
		row[1] = float64(ids[i] + r.Pick(0, 0, 4*n*(1+r.Intn(1<<30))))
		c.rows = append(c.rows, row)
	}
	// Every halo has an id of its own.
	seen := map[float64]bool{}
	for _, row := range c.rows {
		for seen[row[1]] {
			row[1]++
		}
		seen[row[1]] = true
	}
	return c
}

func (c *haloCat) text(r *PRNG) []byte {
	b := &bytes.Buffer{}
	b.WriteString("#" + strings.Join(haloNames, " ") + "\n")
	for _, row := range c.rows {
		if r.Chance(0.1) {
			b.WriteString(r.PickS("\n", "# a comment 1 2 3\n", "  \n"))
		}
		if r.Chance(0.2) {
			b.WriteString(" ")
		}
		for _, v := range row {
			b.WriteString(strconv.FormatFloat(v, 'g', -1, 64))
			b.WriteString(r.PickS(" ", " ", " ", "  ", "\t"))
		}
		b.WriteString("\n")
	}
	return b.Bytes()
}

func (c *haloCat) binary() []byte {
	b := &bytes.Buffer{}
	binary.Write(b, binary.LittleEndian, int64(len(c.rows)))
	for k := range haloNames {
		for _, row := range c.rows {
			binary.Write(b, binary.LittleEndian, row[k])
		}
	}
	return b.Bytes()
}

// top returns the n halos with the largest M200b.
func (c *haloCat) top(n int) *haloCat {
	t := &haloCat{rows: append([][]float64{}, c.rows...)}
	sort.SliceStable(t.rows, func(i, j int) bool { return t.rows[i][36] < t.rows[j][36] })
	if n < len(t.rows) {
		t.rows = t.rows[len(t.rows)-n:]
	}
	return t
}

func col(name string) int {
	for i, n := range haloNames {
		if n == name {
			return i
		}
	}
	return -1
}

func (c *haloCat) value(row []float64, name string, cos *haloCosmo) float64 {
	if m, ok := haloRadii[name]; ok {
		def := map[string]string{"RadVir": "vir", "Rad200b": "200m", "Rad200c": "200c", "Rad500c": "500c", "Rad2500c": "2500c"}[name]
		return cos.radius(def, row[col(m)])
	}
	v := row[col(name)]
	if name == "RVir" || name == "Rs" || name == "RsKylpin" {
		v /= 1000
	}
	return v
}

func near(a, b, rel float64) bool {
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return a == b
	}
	return math.Abs(a-b) <= rel*math.Max(math.Abs(a), math.Abs(b))
}

// judgeRead compares what a reader returned with the catalogue. Ordered says
// whether the order of the halos is given.
func (c *haloCat) judgeRead(res *haloRes, o *haloOp, cos *haloCosmo, ordered bool) *Violation {
	what := fmt.Sprintf("%s %s %v", o.Fn, o.In, o.Vals)
	if len(res.IDs) != len(c.rows) {
		return viol("catalogue-count", "%s returns %d halos instead of %d", what, len(res.IDs), len(c.rows))
	}
	if len(res.Bits) != len(o.Vals) {
		return viol("catalogue-count", "%s returns %d columns", what, len(res.Bits))
	}
	byID := map[int][]float64{}
	for _, row := range c.rows {
		byID[int(row[1])] = row
	}
	used := map[int]bool{}
	for i, id := range res.IDs {
		row := byID[id]
		if row == nil || used[id] || ordered && id != int(c.rows[i][1]) {
			return viol("catalogue-halo", "%s: halo %d has id %d", what, i, id)
		}
		used[id] = true
		for k, name := range o.Vals {
			if len(res.Bits[k]) != len(c.rows) {
				return viol("catalogue-count", "%s: column %s has %d values", what, name, len(res.Bits[k]))
			}
			g, w := math.Float64frombits(res.Bits[k][i]), c.value(row, name, cos)
			if !near(g, w, 1e-9) {
				return viol("catalogue-value", "%s: %s of halo %d is %g, not %g", what, name, id, g, w)
			}
		}
	}
	return nil
}

// judgeRockstar does the same for ReadRockstar.
func (c *haloCat) judgeRockstar(res *haloRes, o *haloOp, cos *haloCosmo) *Violation {
	what := fmt.Sprintf("%s %s %v", o.Fn, o.In, o.Vals)
	def := strings.TrimPrefix(strings.ToLower(o.Vals[0]), "r")
	k := map[string]int{"vir": 11, "200c": 37, "200m": 36, "500c": 38, "2500c": 39}[def]
	type halo struct{ x, y, z, m, r float64 }
	byID := map[int]halo{}
	for _, row := range c.rows {
		h := halo{row[17], row[18], row[19], row[k], 0}
		if def == "vir" {
			h.r = row[k] / 1000
			h.m = cos.mass(def, h.r)
		} else {
			h.r = cos.radius(def, h.m)
		}
		byID[int(row[1])] = h
	}
	if len(res.IDs) != len(c.rows) || len(res.Bits) != 5 {
		return viol("catalogue-count", "%s returns %d halos instead of %d", what, len(res.IDs), len(c.rows))
	}
	last := math.Inf(1)
	for i, id := range res.IDs {
		h, ok := byID[id]
		if !ok {
			return viol("catalogue-halo", "%s: halo %d has id %d", what, i, id)
		}
		delete(byID, id)
		var g [5]float64
		for j := range g {
			if len(res.Bits[j]) != len(c.rows) {
				return viol("catalogue-count", "%s: column %d has %d values", what, j, len(res.Bits[j]))
			}
			g[j] = math.Float64frombits(res.Bits[j][i])
		}
		w := [5]float64{h.x, h.y, h.z, h.m, h.r}
		for j := range g {
			if !near(g[j], w[j], 1e-9) {
				return viol("catalogue-value", "%s: value %d (x, y, z, mass, radius) of halo %d is %g, not %g", what, j, id, g[j], w[j])
			}
		}
		if g[4] > last {
			return viol("catalogue-order", "%s: halo %d is larger than the one before it", what, i)
		}
		last = g[4]
	}
	return nil
}

var radiusNames = []string{"200m", "R200M", "vir", "RVir", "rvir", "500c", "R2500c", "2500c", "200c", "r200c", "r500C"}

func radiusName(s string) string {
	switch strings.TrimPrefix(strings.ToLower(s), "r") {
	case "200m":
		return "R200m true"
	case "200c":
		return "R200c true"
	case "500c":
		return "R500c true"
	case "2500c":
		return "R2500c true"
	case "vir":
		return "RVir true"
	}
	return "RVir false"
}

type haloOut struct {
	Out   [][]haloRes
	Cosmo haloCosmo
}

func runHalo(x *Ctx, s *Scen) *Violation {
	r := s.rng("halo")
	nc := s.I["clients"]
	cats := make([]*haloCat, s.I["objs"])
	for i := range cats {
		q := s.rng(fmt.Sprint("cat", i))
		cats[i] = genHaloCat(q)
		x.write(fmt.Sprintf("cat%d.txt", i), cats[i].text(q))
	}
	x.mkdir("bin")
	cos := haloCosmo{Z: []float64{0, 0.5, 3}[r.Intn(3)], OmegaM: r.Uniform(0.1, 0.9), H100: r.Uniform(0.5, 0.8)}
	cos.OmegaL = 1 - cos.OmegaM
	// The conversions, and what each has to write.
	conv := make([][]haloOp, nc)
	want := map[string]*haloCat{}
	ordered := map[string]bool{}
	var outs []string
	for i, op := range s.Ops {
		q := newPRNG(uint64(op))
		if q.Intn(5) > 1 && i > 0 {
			continue // a reader, below
		}
		k := q.Intn(len(cats))
		o := haloOp{Fn: "convert", In: fmt.Sprintf("cat%d.txt", k), Out: fmt.Sprintf("bin/%d.dat", i)}
		want[o.Out], ordered[o.Out] = cats[k], true
		if q.Chance(0.5) {
			o.Fn, o.N = "top", q.Pick(1, 2, 5, len(cats[k].rows), len(cats[k].rows)+3)
			if q.Chance(0.1) {
				o.N = 0
			}
			want[o.Out], ordered[o.Out] = cats[k].top(o.N), false
		}
		if s.I["old"] == 1 && q.Chance(0.7) {
			x.write(o.Out, bytes.Repeat([]byte("old"), q.Range(1, 12000)))
		}
		outs = append(outs, o.Out)
		c := q.Intn(nc)
		conv[c] = append(conv[c], o)
	}
	x.shape = fmt.Sprint(s.Variant, nc, len(cats), len(outs))
	exec := func(p *Proc, ops [][]haloOp) (*StepResult, *haloOut, *Violation) {
		res := x.API(p, "halo", map[string]interface{}{"Cosmo": cos, "Ops": ops})
		if v := stuck(res); v != nil {
			return nil, nil, v
		}
		if !res.OK() {
			return res, nil, nil
		}
		out := &haloOut{}
		check(json.Unmarshal(res.Data, out))
		if out.Cosmo != cos {
			return nil, nil, viol("input-changed", "the cosmology has become %+v", out.Cosmo)
		}
		return res, out, nil
	}
	// intact says whether a file holds what it should.
	intact := func(name string) *Violation {
		raw, err := x.read(name)
		w := want[name]
		if err != nil {
			return viol("catalogue-missing", "a conversion reported success, but %v", err)
		}
		b := w.binary()
		if len(raw) != len(b) {
			return viol("catalogue-size", "%s of %d halos has %d bytes instead of %d", name, len(w.rows), len(raw), len(b))
		}
		if ordered[name] {
			if !bytes.Equal(raw, b) {
				return viol("catalogue-bytes", "%s does not hold the halos it was converted from", name)
			}
			return nil
		}
		// The order is free, the halos are not.
		n := len(w.rows)
		if binary.LittleEndian.Uint64(raw) != uint64(n) {
			return viol("catalogue-count", "%s says it holds %d halos, not %d", name, binary.LittleEndian.Uint64(raw), n)
		}
		left := map[string]int{}
		row := func(f func(k int) float64) string {
			var b []byte
			for k := range haloNames {
				b = binary.LittleEndian.AppendUint64(b, math.Float64bits(f(k)))
			}
			return string(b)
		}
		for _, rw := range w.rows {
			left[row(func(k int) float64 { return rw[k] })]++
		}
		for i := 0; i < n; i++ {
			left[row(func(k int) float64 {
				return math.Float64frombits(binary.LittleEndian.Uint64(raw[8+8*(k*n+i):]))
			})]--
		}
		for _, l := range left {
			if l != 0 {
				return viol("catalogue-bytes", "%s does not hold the %d most massive halos", name, n)
			}
		}
		return nil
	}
	judgeConv := func(out *haloOut, strict bool) *Violation {
		for c := range conv {
			for i, o := range conv[c] {
				res := out.Out[c][i]
				if res.Err != "" || res.Panic != "" {
					if strict {
						return viol("conversion-fails", "%+v: %s%s", o, res.Err, res.Panic)
					}
					x.Probe("conversion-refused")
					continue
				}
				if v := intact(o.Out); v != nil {
					return v
				}
				x.Probe("converted")
			}
		}
		return nil
	}

	write := s.Procs[0]
	if s.Variant == "crash" {
		ref, out, v := exec(plainProc(s.rng("ref"), 1), conv)
		if v != nil {
			return v
		}
		if !ref.OK() {
			return viol("conversion-fails", "%s", ref)
		}
		if v := judgeConv(out, true); v != nil {
			return v
		}
		for _, o := range outs {
			x.remove(o)
		}
		if f := crashFault(ref, newPRNG(uint64(s.I["crashsel"])), "bin", "bin"); f != nil {
			write.IO.Faults = append(write.IO.Faults, f)
		}
	}
	wres, wout, v := exec(write, conv)
	if v != nil {
		return v
	}
	good := map[string]bool{}
	switch {
	case s.Variant == "crash":
		lost := 0
		if wres.Outcome == "crash" {
			x.Probe("crashed")
			if s.I["power"] == 1 {
				lost = x.powerLoss(wres, s.rng("power"))
			}
		}
		if lost == 0 {
			// Whatever is there is whole or refused.
			ops := make([][]haloOp, 1)
			for _, o := range outs {
				ops[0] = append(ops[0], haloOp{Fn: "binary", In: o, Vals: []string{"X", "M200b", haloNames[r.Intn(len(haloNames))], "AccRateTdyn"}})
			}
			_, out, v := exec(plainProc(s.rng("check"), 1), ops)
			if v != nil {
				return v
			}
			if out == nil {
				x.Probe("refused")
			}
			for i, o := range ops[0] {
				if out == nil {
					break
				}
				res := &out.Out[0][i]
				if res.Err != "" || res.Panic != "" {
					x.Probe("interrupted-refused")
					continue
				}
				if v := want[o.In].judgeRead(res, &o, &cos, ordered[o.In]); v != nil {
					v.Class = "interrupted:" + v.Class
					return v
				}
			}
		} else {
			x.Probe("unsynced-data-lost")
		}
		_, out, v := exec(plainProc(s.rng("again"), 1), conv)
		if v != nil {
			return v
		}
		if out == nil {
			return viol("repair-fails", "converting again after a crash fails")
		}
		if v := judgeConv(out, true); v != nil {
			v.Class = "repair:" + v.Class
			return v
		}
		for _, o := range outs {
			good[o] = true
		}
	case !wres.OK():
		if s.Variant != "write" && s.Variant != "text" {
			return viol("conversion-fails", "%s", wres)
		}
		x.Probe("refused")
		return nil
	default:
		if v := judgeConv(wout, s.Variant != "write" && s.Variant != "text"); v != nil {
			if len(wres.Faults) > 0 {
				v.Class = "false-success:" + v.Class
				v.Detail = fmt.Sprintf("a conversion reports success (faults %v), but %s", wres.Faults, v.Detail)
			}
			return v
		}
		for c := range conv {
			for i, o := range conv[c] {
				good[o.Out] = wout.Out[c][i].Err == "" && wout.Out[c][i].Panic == ""
			}
		}
	}
	// Binary catalogues of other origin.
	for i, c := range cats {
		if r.Chance(0.3) {
			n := fmt.Sprintf("bin/own%d.dat", i)
			if r.Chance(0.2) {
				c = &haloCat{}
			}
			x.write(n, c.binary())
			want[n], ordered[n], good[n] = c, true, true
			outs = append(outs, n)
		}
	}
	cut := map[string]bool{}
	if s.Variant == "cut" {
		for _, o := range outs {
			if r.Chance(0.4) {
				continue
			}
			b, err := x.read(o)
			check(err)
			n := binary.LittleEndian.Uint64(b)
			switch r.Intn(4) {
			case 0:
				b = b[:r.Intn(len(b))]
			case 1:
				b = append(b, make([]byte, r.Pick(1, 8, 8*62, r.Range(1, 2000)))...)
			case 2:
				m := r.Pick(0, 1, int(n)-1, int(n)+1, int(n)*2, -1, -int(n), 1<<55+int(n), 1<<62, -1<<63)
				if uint64(m) == n {
					m = int(n) + 7
				}
				binary.LittleEndian.PutUint64(b, uint64(m))
			case 3: // a column is missing
				if n == 0 {
					continue
				}
				b = b[:len(b)-8*int(n)*r.Range(1, 3)]
			}
			x.write(o, b)
			cut[o] = true
		}
	}
	// The readers.
	read := make([][]haloOp, nc)
	for i, op := range s.Ops {
		q := newPRNG(uint64(op))
		if q.Intn(5) <= 1 || i == 0 {
			continue
		}
		o := haloOp{Fn: q.PickS("binary", "binary", "binary", "text", "text", "rockstar", "names", "scale"), In: fmt.Sprintf("cat%d.txt", q.Intn(len(cats)))}
		if o.Fn == "binary" {
			o.In = outs[q.Intn(len(outs))]
			if !good[o.In] {
				continue
			}
		}
		switch o.Fn {
		case "names":
			o.Vals = append(append([]string{}, radiusNames...), "", "r", "M200c", "2500", "virial")
		case "scale":
			o.Vals, o.N = []string{radiusNames[q.Intn(len(radiusNames))]}, q.Intn(4)
			for k, n := 0, q.Intn(5); k < n; k++ {
				v := math.Pow(10, q.Uniform(8, 15.5))
				if o.N&1 != 0 {
					v = math.Pow(10, q.Uniform(-3, 1))
				}
				o.X = append(o.X, v)
			}
		case "rockstar":
			o.Vals = []string{radiusNames[q.Intn(len(radiusNames))]}
		default:
			all := append(append([]string{}, haloNames...), keys(haloRadii)...)
			for k, n := 0, q.Intn(6); k < n; k++ {
				v := all[q.Intn(len(all))]
				if q.Chance(0.3) {
					v = q.PickS("RadVir", "Rad200b", "Rad200c", "Rad500c", "Rad2500c", "RVir", "Rs", "RsKylpin")
				}
				o.Vals = append(o.Vals, v)
			}
		}
		c := q.Intn(nc)
		read[c] = append(read[c], o)
		for k := 0; k < s.I["again"]; k++ {
			read[c] = append(read[c], o)
		}
	}
	rres, rout, v := exec(s.Procs[1], read)
	if v != nil {
		return v
	}
	faulty := s.Variant == "read"
	if !rres.OK() {
		if !faulty && len(cut) == 0 {
			return viol("reading-fails", "%s", rres)
		}
		x.Probe("refused")
		return nil
	}
	for c := range read {
		for i := range read[c] {
			o, res := &read[c][i], &rout.Out[c][i]
			if res.Err != "" || res.Panic != "" {
				if !faulty && !cut[o.In] {
					return viol("reading-fails", "call %d of client %d, %+v: %s%s", i, c, *o, res.Err, res.Panic)
				}
				x.Probe("read-refused")
				continue
			}
			if cut[o.In] {
				return viol("damaged-catalogue", "%+v returns %d halos from a damaged catalogue", *o, len(res.IDs))
			}
			var v *Violation
			switch o.Fn {
			case "scale":
				def := strings.TrimPrefix(strings.ToLower(o.Vals[0]), "r")
				if len(res.Bits) != 2 || len(res.Bits[0]) != len(o.X) || len(res.Bits[1]) != len(o.X) {
					v = viol("radius-mass", "%+v returns %d lists", *o, len(res.Bits))
					break
				}
				for k, in := range o.X {
					w := cos.radius(def, in)
					if o.N&1 != 0 {
						w = cos.mass(def, in)
					}
					after := in
					if o.N&2 != 0 { // written over its argument
						after = w
					}
					g, kept := math.Float64frombits(res.Bits[0][k]), math.Float64frombits(res.Bits[1][k])
					if !near(g, w, 1e-9) || !near(kept, after, 1e-9) {
						v = viol("radius-mass", "%+v turns %g into %g, not %g, and leaves %g", *o, in, g, w, kept)
					}
				}
			case "names":
				for k, n := range o.Vals {
					if res.Names[k] != radiusName(n) {
						v = viol("radius-name", "%q is understood as %s", n, res.Names[k])
					}
				}
			case "rockstar":
				v = cats[int(o.In[3]-'0')].judgeRockstar(res, o, &cos)
			case "text":
				v = cats[int(o.In[3]-'0')].judgeRead(res, o, &cos, true)
			case "binary":
				v = want[o.In].judgeRead(res, o, &cos, ordered[o.In])
			}
			if v != nil {
				v.Detail = fmt.Sprintf("call %d of client %d (faults %v): %s", i, c, rres.Faults, v.Detail)
				return v
			}
			x.Probe("read-" + o.Fn)
		}
	}
	return nil
}

// ------------------------------------------------------------- subhalos

type finderSet struct {
	X, Y, Z, R []float64
	L          float64
	Cells      int
}

type finderOp struct {
	Set  int
	Mult float64
	Obj  int
}

func genFinderSet(r *PRNG) finderSet {
	s := finderSet{L: []float64{1, 62.5, 100}[r.Intn(3)], Cells: r.Pick(1, 2, 3, 5, 8)}
	s.X, s.Y, s.Z, s.R = []float64{}, []float64{}, []float64{}, []float64{}
	n := r.Pick(0, 1, 2, 5, 10, 25)
	big := r.Chance(0.2)
	edge := r.Chance(0.5)
	for i := 0; i < n; i++ {
		var p [3]float64
		for k := range p {
			p[k] = r.Uniform(0, s.L)
			if edge && r.Chance(0.6) {
				p[k] = r.Uniform(0, 0.1*s.L)
				if r.Chance(0.5) {
					p[k] = s.L - p[k]
				}
			}
			if r.Chance(0.05) {
				p[k] = []float64{0, s.L, math.Nextafter(s.L, 0), s.L / float64(s.Cells)}[r.Intn(4)]
			}
		}
		s.X, s.Y, s.Z = append(s.X, p[0]), append(s.Y, p[1]), append(s.Z, p[2])
		rad := s.L * math.Pow(10, r.Uniform(-3, -0.7))
		if big && r.Chance(0.3) {
			rad = s.L * r.Uniform(0.2, 1.3)
		}
		s.R = append(s.R, rad)
	}
	if r.Chance(0.3) { // halos of the same size
		for i := range s.R {
			if i > 0 && r.Chance(0.5) {
				s.R[i] = s.R[r.Intn(i)]
			}
		}
	}
	if r.Chance(0.8) {
		sort.Sort(sort.Reverse(sort.Float64Slice(s.R)))
	}
	return s
}

func runFinder(x *Ctx, s *Scen) *Violation {
	nc := s.I["clients"]
	sets := make([]finderSet, s.I["objs"])
	for i := range sets {
		sets[i] = genFinderSet(s.rng(fmt.Sprint("set", i)))
	}
	ops := make([][]finderOp, nc)
	for _, op := range s.Ops {
		q := newPRNG(uint64(op))
		c := q.Intn(nc)
		ops[c] = append(ops[c], finderOp{q.Intn(len(sets)), []float64{0.5, 1, 1, 2, 3}[q.Intn(5)], q.Intn(2)})
	}
	var out struct {
		Out [][]struct {
			Panic       string
			All         [][]int
			Hosts, Subs [][]int
			Counts      [][3]int
		}
		Sets  []finderSet
		Grids []struct {
			Cells            [][]int
			Lengths          []int
			Max, Avg, Total  int
			Boxes            [][2][3]int
			Inside, Converts [][3]int
		}
	}
	if v := runLib(x, s.Procs[0], "finder", map[string]interface{}{"Sets": sets, "Ops": ops}, &out); v != nil {
		return v
	}
	if fmt.Sprint(sets) != fmt.Sprint(out.Sets) {
		return viol("input-changed", "looking for subhalos changed the positions or radii of the halos")
	}
	for i, set := range sets {
		g := out.Grids[i]
		c := set.Cells
		if g.Total != c*c*c || len(g.Cells) != g.Total {
			return viol("grid-cells", "a grid of %d cells a side has %d cells", c, g.Total)
		}
		seen := make([]int, len(set.X))
		max := 0
		cw := set.L / float64(c)
		for k, l := range g.Cells {
			if len(l) != g.Lengths[k] {
				return viol("grid-length", "cell %d holds %d halos, its length is %d", k, len(l), g.Lengths[k])
			}
			if len(l) > max {
				max = len(l)
			}
			at := [3]int{k % c, k / c % c, k / c / c}
			for _, h := range l {
				if h < 0 || h >= len(seen) {
					return viol("grid-halo", "cell %d holds halo %d of %d", k, h, len(seen))
				}
				seen[h]++
				for d, p := range [3]float64{set.X[h], set.Y[h], set.Z[h]} {
					f := p/cw - float64(at[d])
					if !(f > -1e-9 && f < 1+1e-9) && !(p == set.L && at[d] == 0) {
						return viol("grid-cell", "a halo at %g is in cell %d of width %g", p, at[d], cw)
					}
				}
			}
		}
		for h, n := range seen {
			if n != 1 {
				return viol("grid-halo", "halo %d is in %d cells", h, n)
			}
		}
		if g.Max != max || g.Avg != len(seen)/g.Total {
			return viol("grid-length", "the longest cell holds %d halos, not %d, the average %d, not %d", max, g.Max, len(seen)/g.Total, g.Avg)
		}
		for h := range set.X {
			pos := [3]float64{set.X[h], set.Y[h], set.Z[h]}
			for k := 0; k < c; k++ {
				for d, p := range pos {
					// The distance from the sphere's centre to the
					// nearest and farthest images of the cell.
					near := math.Inf(1)
					for im := -2; im <= 2; im++ {
						lo, hi := float64(k)*cw+float64(im)*set.L, float64(k+1)*cw+float64(im)*set.L
						e := math.Max(math.Max(lo-p, p-hi), 0)
						near = math.Min(near, e)
					}
					in := g.Inside[h*c+k][d] == 1
					m := 1e-9 * set.L
					if near < set.R[h]-m && !in || near > set.R[h]+m && in {
						return viol("bounds-inside", "cell %d of %d is inside the bounds of a sphere at %g of radius %g in a box of %g: %v", k, c, p, set.R[h], set.L, in)
					}
					o, span := g.Boxes[h][0][d], g.Boxes[h][1][d]
					if near < set.R[h]-m {
						b := g.Converts[h*c+k][d]
						if b < 0 || b >= span || pmodi(o+b-k, c) != 0 {
							return viol("bounds-convert", "cell %d of %d has index %d in bounds from %d over %d cells", k, c, b, o, span)
						}
					}
				}
			}
		}
	}
	for c := range ops {
		for oi, o := range ops[c] {
			res := out.Out[c][oi]
			set := &sets[o.Set]
			what := fmt.Sprintf("search %d of client %d, radii times %g", oi, c, o.Mult)
			if res.Panic != "" {
				return viol("finder-panics", "%s: %s", what, res.Panic)
			}
			for i := range set.R {
				count := func(l []int) map[int]int {
					m := map[int]int{}
					for _, j := range l {
						m[j]++
					}
					return m
				}
				all, hosts, subs := count(res.All[i]), count(res.Hosts[i]), count(res.Subs[i])
				for j := range set.R {
					d2 := 0.0
					for _, d := range [3]float64{set.X[i] - set.X[j], set.Y[i] - set.Y[j], set.Z[i] - set.Z[j]} {
						d = math.Abs(d)
						d = math.Min(d, set.L-d)
						d2 += d * d
					}
					dr := (set.R[i] + set.R[j]) * o.Mult
					w := 0
					if i != j {
						if math.Abs(math.Sqrt(d2)-dr) < 1e-9*set.L {
							continue
						}
						if math.Sqrt(d2) < dr {
							w = 1
							x.Probe("overlaps")
						}
					}
					wh, ws := 0, w
					if j < i {
						wh, ws = w, 0
					}
					if all[j] != w || hosts[j] != wh || subs[j] != ws {
						return viol("finder-pairs", "%s: halo %d is listed %d times next to halo %d (%d times as host, %d times as subhalo) at a distance of %g with radii %g", what, j, all[j], i, hosts[j], subs[j], math.Sqrt(d2), dr)
					}
				}
				if n := res.Counts[i]; n != [3]int{len(res.All[i]), len(res.Hosts[i]), len(res.Subs[i])} || len(res.All[i]) != len(res.Hosts[i])+len(res.Subs[i]) {
					return viol("finder-counts", "%s: halo %d has counts %v for lists of %d, %d and %d", what, i, n, len(res.All[i]), len(res.Hosts[i]), len(res.Subs[i]))
				}
				for j := range all {
					if j < 0 || j >= len(set.R) {
						return viol("finder-pairs", "%s: halo %d is next to halo %d of %d", what, i, j, len(set.R))
					}
				}
			}
			x.Probe("searches")
		}
	}
	return nil
}

const haloStub = "disk (errors, short transfers, full disks, lost data, crashes, power loss), goroutine scheduler, clock, runtime random source, garbage collector, CPU count; the module github.com/phil-mansfield/table, which is not available offline and is replaced by a reader of whitespace separated columns"

func init() {
	min := map[string]int{"clients": 1, "objs": 1, "old": 0, "again": 0, "power": 0}
	register(&Prop{
		ID: "C28", Quick: 5000, Thorough: 40000,
		Rule:   "a run converts one to three text halo catalogues to binary ones, whole or their most massive halos, in up to four concurrent clients of one simulated process, and reads them back with all readers in another, under short transfers; or with failing, lost or partial writes, full disks, failing reads and premature ends, damaged binary catalogues, few file descriptors, or a crash or power loss during the conversion followed by another one; every file and every returned value is compared with the catalogue; non-trivial if a fault was hit or a conversion or read was checked",
		Assume: []string{"no two halos of a catalogue have the same mass", "the text reader is a stub; premature ends of text files are not injected", "the order of the halos in a catalogue of the most massive ones is free"},
		Real:   "package render/halo (catalogue conversion, readers, radii and masses), package cosmo, Go's os and encoding/binary packages", Stub: haloStub,
		APIs: []string{"halo"}, Min: min,
		Gen: func(r *PRNG, s *Scen) {
			s.I["clients"], s.I["objs"], s.I["old"], s.I["again"] = r.Range(1, 4), r.Range(1, 3), r.Pick(0, 0, 1), 0
			for i, n := 0, r.Range(2, 14); i < n; i++ {
				s.Ops = append(s.Ops, r.Intn(1<<30))
			}
			w, q := genProc(r, 1), genProc(r, 1)
			if r.Chance(0.5) {
				benign(r, w)
			}
			if r.Chance(0.5) {
				benign(r, q)
			}
			s.Variant = r.PickS("clean", "clean", "write", "write", "text", "read", "read", "cut", "cut", "many", "crash", "crash")
			switch s.Variant {
			case "write":
				switch r.Intn(5) {
				case 0, 1:
					w.IO.Faults = append(w.IO.Faults, &Fault{Op: "write", Path: "bin/*", Nth: r.Pick(1, 64, 127, r.Range(1, 63*3), r.Range(1, 63*3)), Count: r.Pick(1, 1, -1), Kind: r.PickS("EIO", "ENOSPC", "EDQUOT")})
				case 2:
					w.IO.Capacity = 1 + int64(r.Float()*60000)
					s.I["old"] = 0
				case 3:
					w.IO.Faults = append(w.IO.Faults, &Fault{Op: "create", Path: "bin/*", Nth: r.Range(1, 3), Count: r.Pick(1, -1), Kind: r.PickS("ENOSPC", "EMFILE", "EACCES", "EROFS")})
				case 4:
					w.IO.Faults = append(w.IO.Faults, &Fault{Op: "closew", Path: "bin/*", Nth: r.Range(1, 3), Count: r.Pick(1, -1), Kind: "lost", Arg: int64(r.Range(1, 3000))})
				}
			case "text":
				w.IO.Faults = append(w.IO.Faults, &Fault{Op: r.PickS("read", "open"), Path: "cat*", Nth: r.Range(1, 6), Count: r.Pick(1, -1), Kind: r.PickS("EIO", "ESTALE", "EACCES")})
			case "read":
				f := &Fault{Op: r.PickS("read", "read", "open"), Nth: r.Range(1, 15), Count: r.Pick(1, 2, -1), Kind: r.PickS("EIO", "ESTALE", "EACCES")}
				if f.Op == "read" && r.Chance(0.5) {
					f.Kind, f.Path = "eof", "bin/*"
				}
				q.IO.Faults = append(q.IO.Faults, f)
			case "many":
				s.I["clients"], s.I["again"] = r.Range(1, 2), r.Range(4, 12)
				q.IO.MaxFDs = 12
			case "crash":
				s.I["old"] = 0
				s.I["power"], s.I["crashsel"] = r.Intn(2), r.Intn(1<<30)
			}
			s.Procs = []*Proc{w, q}
		},
		Run: runHalo,
	})
	register(&Prop{
		ID: "C29", Quick: 4000, Thorough: 32000,
		Rule:   "a run is a history of subhalo searches with different radii by one to four concurrent clients over shared catalogues and grids, with finders used once or again, under a random schedule; every list and count is compared with all pairs of halos in the periodic box, the cells of the grids and the bounds of spheres with the positions; non-trivial if two clients were runnable at once or a probe was hit",
		Assume: []string{"halos lie within the box, its upper edges included", "pairs which touch to within 1e-9 of the box are not judged"},
		Real:   "package render/halo (grid, bounds, subhalo finder)", Stub: haloStub,
		APIs: []string{"halo"}, Min: min,
		Gen: func(r *PRNG, s *Scen) {
			libGen(6, 3)(r, s)
		},
		Run: runFinder,
	})
}
