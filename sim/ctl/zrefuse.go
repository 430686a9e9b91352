package main

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
)

// A request is one way of asking for what cannot be done. edit changes the
// files or the command line of a valid request; it returns false if this one
// cannot be spoiled that way.
type request struct {
	mode string
	name string
	edit func(q *spoiler) bool
}

type spoiler struct {
	x    *Ctx
	r    *PRNG
	args *[]string
	cfg  string   // the configuration file
	bnds []string // the bounds files
	L    float64  // width of the simulation box
	n    int      // particles on one side of it
}

func (q *spoiler) text(file string) string {
	b, err := q.x.read(file)
	check(err)
	return string(b)
}

// set gives key the value in file, replacing a random occurrence, or adds it
// at the end. An empty value removes the line.
func (q *spoiler) set(file, key, val string) bool {
	t := q.text(file)
	re := regexp.MustCompile(`(?m)^` + key + ` = .*\n`)
	line := ""
	if val != "" {
		line = key + " = " + val + "\n"
	}
	m := re.FindAllStringIndex(t, -1)
	if len(m) == 0 {
		if line == "" {
			return false
		}
		q.x.write(file, []byte(t+line))
		return true
	}
	w := m[q.r.Intn(len(m))]
	q.x.write(file, []byte(t[:w[0]]+line+t[w[1]:]))
	return true
}

// bound is set on a bounds file which has the key.
func (q *spoiler) bound(key, val string) bool {
	for _, i := range q.r.Perm(len(q.bnds)) {
		if strings.Contains(q.text(q.bnds[i]), "\n"+key+" = ") {
			return q.set(q.bnds[i], key, val)
		}
	}
	return false
}

func (q *spoiler) series() bool { return strings.Contains(q.text(q.cfg), "IteratedInput") }

func (q *spoiler) anyBound() string { return q.bnds[q.r.Intn(len(q.bnds))] }

func requests() []request {
	var out []request
	add := func(mode, name string, f func(q *spoiler) bool) {
		for _, m := range strings.Fields(mode) {
			out = append(out, request{m, name, f})
		}
	}
	key := func(mode, key string, vals ...string) {
		add(mode, key, func(q *spoiler) bool {
			if q.series() && (strings.HasSuffix(key, "Input") || strings.HasSuffix(key, "Output")) {
				return false // the other one is in use
			}
			return q.set(q.cfg, key, vals[q.r.Intn(len(vals))])
		})
	}
	all := "Render TetraHist ConvertSnapshot"
	grids := "Render TetraHist"
	key("Render", "Quantity", "Mass", "Densitty", "density gradient", "-")
	key("TetraHist", "Quantity", "Mass", "Velocity", "-")
	key(grids, "SubsampleLength", "0", "-1", "-4")
	key("TetraHist", "SubsampleLength", "3", "6", "12")
	key("TetraHist", "HistScale", "Lin", "log2", "-")
	key(all, "NoSuchOption", "3")
	key(all, "Input", "nowhere", "in/nothing")
	key(grids, "Output", "nowhere", "out/deeper")
	key("ConvertSnapshot", "Cells", "0", "-1", "three", "1.5")
	key("ConvertSnapshot", "Gadget2IDSize", "0", "16", "128")
	key("ConvertSnapshot", "InputFormat", "Gadget-3", "lgadget", "-")
	key("ConvertSnapshot", "IteratedInput", "snap%d")
	key("ConvertSnapshot", "IteratedOutput", "conv%d")
	key("TetraHist", "GridFile", "nowhere.gtet", "in")
	key("TetraHist", "HistBins", "0", "-3", "many")
	key("TetraHist", "Particles", "0", "-3")
	add("ConvertSnapshot", "Cells-uneven", func(q *spoiler) bool {
		c := q.r.Pick(97, 101, 1009)
		if n := q.n; n > 1 && q.r.Chance(0.8) {
			// More or fewer than there are particles on one side.
			for c = 2 + q.r.Intn(n+4); n%c == 0; {
				c++
			}
		}
		return q.set(q.cfg, "Cells", fmt.Sprint(c))
	})
	add("Render", "no-pixels", func(q *spoiler) bool {
		k := "TotalPixels"
		if strings.Contains(q.text(q.cfg), "ImagePixels") {
			k = "ImagePixels"
		}
		return q.set(q.cfg, k, []string{"", "0", "-5"}[q.r.Intn(3)])
	})
	add("Render", "no-particles", func(q *spoiler) bool {
		t := q.text(q.cfg)
		k := "Particles"
		for _, c := range []string{"AutoParticles", "ProjectionDepth"} {
			if strings.Contains(t, c) {
				return q.set(q.cfg, c, "")
			}
		}
		return q.set(q.cfg, k, []string{"", "0", "-5"}[q.r.Intn(3)])
	})
	key("ConvertSnapshot", "XUnits", "0", "-1", "NaN", "Inf", "-Inf")
	key("ConvertSnapshot", "VUnits", "NaN", "Inf", "-Inf")
	key("ConvertSnapshot", "MUnits", "0", "-1e10", "NaN", "Inf", "-Inf")
	add("ConvertSnapshot", "empty-iteration", func(q *spoiler) bool {
		return q.series() && q.set(q.cfg, "IterationStart", "6") && q.set(q.cfg, "IterationEnd", q.r.PickS("5", "0", "3"))
	})
	key("TetraHist", "HistMin", "NaN", "-Inf", "Inf")
	key("TetraHist", "HistMax", "NaN", "-Inf", "Inf")
	add(grids, "same-name", func(q *spoiler) bool {
		f := q.anyBound()
		m := regexp.MustCompile(`\[(Box|Ball) "(.*)"\]`).FindStringSubmatch(q.text(f))
		if m == nil {
			return false
		}
		t := fmt.Sprintf("[Ball \"%s\"]\nX = 0\nY = 0\nZ = 0\nRadius = %g\n", m[2], q.L/4)
		if m[1] == "Ball" {
			t = fmt.Sprintf("[Box \"%s\"]\nX = 0\nY = 0\nZ = 0\nXWidth = %g\nYWidth = %g\nZWidth = %g\n", m[2], q.L/2, q.L/2, q.L/2)
		}
		if q.r.Chance(0.5) {
			q.x.write(f, []byte(q.text(f)+t))
			return true
		}
		q.x.write("more.cfg", []byte(t))
		*q.args = append(append([]string{}, *q.args...), "more.cfg")
		return true
	})
	add("TetraHist", "empty-range", func(q *spoiler) bool {
		v := []string{"1", "7.5"}[q.r.Intn(2)]
		return q.set(q.cfg, "HistMin", v) && q.set(q.cfg, "HistMax", []string{v, "0.5"}[q.r.Intn(2)])
	})
	add("TetraHist", "log-range", func(q *spoiler) bool {
		return q.set(q.cfg, "HistScale", "Log") && q.set(q.cfg, "HistMin", []string{"0", "-1"}[q.r.Intn(2)]) && q.set(q.cfg, "HistMax", "10")
	})
	for _, c := range []struct {
		name string
		edit func(q *spoiler, h *gtetHeader)
	}{
		{"grid-foreign-box", func(q *spoiler, h *gtetHeader) {
			f := q.r.Uniform(1.01, 3)
			if q.r.Chance(0.5) {
				f = 1 / f
			}
			h.BoxWidth *= f
		}},
		{"grid-quantity", func(q *spoiler, h *gtetHeader) { h.GridType = int64(q.r.Range(1, 4)) }},
		{"grid-vector", func(q *spoiler, h *gtetHeader) { h.IsVectorGrid = 1 }},
		{"grid-version", func(q *spoiler, h *gtetHeader) {
			h.EndiannessVersion = []uint64{0, ^uint64(0), 1 | 1<<63, ^uint64(2 | 1<<62), q.r.Next()}[q.r.Intn(5)]
		}},
	} {
		c := c
		add("TetraHist", c.name, func(q *spoiler) bool {
			f := regexp.MustCompile(`(?m)^GridFile = (.*)$`).FindStringSubmatch(q.text(q.cfg))[1]
			g, err := parseGtet([]byte(q.text(f)))
			check(err)
			c.edit(q, &g.hd)
			q.x.write(f, gtetBytes(g))
			return true
		})
	}
	add("TetraHist", "grid-is-a-sheet", func(q *spoiler) bool {
		var names []string
		for n := range q.x.tree("in") {
			names = append(names, n)
		}
		if len(names) == 0 {
			return false
		}
		sort.Strings(names)
		return q.set(q.cfg, "GridFile", "in/"+names[0])
	})
	for _, k := range []string{"Input", "Output"} {
		k := k
		add(all, "no-"+k, func(q *spoiler) bool { return !q.series() && q.set(q.cfg, k, "") })
	}
	add(all, "no-section", func(q *spoiler) bool {
		t := q.text(q.cfg)
		q.x.write(q.cfg, []byte(t[strings.Index(t, "\n")+1:]))
		return true
	})
	add(all, "other-section", func(q *spoiler) bool {
		t := q.text(q.cfg)
		q.x.write(q.cfg, []byte("[Renderer]"+t[strings.Index(t, "\n"):]))
		return true
	})
	add(all, "no-config", func(q *spoiler) bool {
		q.x.remove(q.cfg)
		return true
	})
	add(all, "empty-input", func(q *spoiler) bool {
		if q.series() {
			return false
		}
		q.x.mkdir("void")
		return q.set(q.cfg, "Input", "void")
	})
	add(all, "threads", func(q *spoiler) bool {
		a := append([]string{"-Threads", []string{"0", "-1", "x"}[q.r.Intn(3)]}, *q.args...)
		if (*q.args)[0] == "-Threads" {
			a = append(a[:2:2], a[4:]...)
		}
		*q.args = a
		return true
	})
	add(all, "two-modes", func(q *spoiler) bool {
		m := q.r.PickS("-ExampleConfig", "-TetraHist", "-Render", "-ConvertSnapshot")
		for _, a := range *q.args {
			if a == m {
				return false
			}
		}
		a := append([]string{}, *q.args...)
		if a[0] == "-Threads" {
			a = append(a[:2:2], append([]string{m, "Render"}, a[2:]...)...)
		} else {
			a = append([]string{m, "Render"}, a...)
		}
		*q.args = a
		return true
	})
	add(all, "no-mode", func(q *spoiler) bool {
		var a []string
		for _, s := range *q.args {
			if s != "-Render" && s != "-TetraHist" && s != "-ConvertSnapshot" {
				a = append(a, s)
			}
		}
		*q.args = a
		return true
	})
	add(grids, "no-bounds", func(q *spoiler) bool {
		n := len(*q.args) - len(q.bnds)
		*q.args = append([]string{}, (*q.args)[:n]...)
		return true
	})
	add(grids, "missing-bounds", func(q *spoiler) bool {
		q.x.remove(q.anyBound())
		return true
	})
	add(grids, "bounds-junk", func(q *spoiler) bool {
		f := q.anyBound()
		q.x.write(f, []byte(q.text(f)+q.r.PickS("Colour = 3\n", "[Sphere \"s\"]\nX = 1\n", "X\n= = 3\n", "X = abc\n", "[Box \"t\"\n")))
		return true
	})
	for _, k := range []string{"X", "Y", "Z"} {
		k := k
		add(grids, "origin-"+k, func(q *spoiler) bool {
			return q.bound(k, []string{"-1", "-1e-9", "1e9", "NaN", "Inf", fmt.Sprintf("%.17g", q.L), fmt.Sprintf("%.17g", 1.5*q.L)}[q.r.Intn(7)])
		})
		add(grids, "width-"+k, func(q *spoiler) bool {
			return q.bound(k+"Width", []string{"0", "-1", "-1e-9", "", "NaN", "Inf"}[q.r.Intn(6)])
		})
	}
	add(grids, "radius", func(q *spoiler) bool {
		return q.bound("Radius", []string{"0", "-1", "-2.5", "", "NaN", "Inf"}[q.r.Intn(6)])
	})
	add(grids, "multiplier", func(q *spoiler) bool {
		v := []string{"-1", "-0.25", "NaN", "Inf"}[q.r.Intn(4)]
		if q.bound("RadiusMultiplier", v) {
			return true
		}
		for _, i := range q.r.Perm(len(q.bnds)) {
			if t := q.text(q.bnds[i]); strings.Contains(t, "\nRadius = ") {
				q.x.write(q.bnds[i], []byte(strings.Replace(t, "\nRadius = ", "\nRadiusMultiplier = "+v+"\nRadius = ", 1)))
				return true
			}
		}
		return false
	})
	add(grids, "axis", func(q *spoiler) bool {
		f := q.anyBound()
		return q.set(f, "ProjectionAxis", q.r.PickS("W", "XY", "0", "-Z"))
	})
	add("Render", "image-too-wide", func(q *spoiler) bool {
		return q.bound(q.r.PickS("X", "Y", "Z")+"Width", fmt.Sprintf("%.17g", q.L*q.r.Uniform(1.001, 3))) &&
			q.set(q.cfg, "TotalPixels", "") && q.set(q.cfg, "ImagePixels", "4")
	})
	return out
}

// refusal spoils the first command of a run.
type refusal struct {
	r    *PRNG
	L    float64
	n    int
	pick string
	done bool
	what string
}

func (f *refusal) spoil(x *Ctx, sf *stepFile) {
	if f.done || sf.Kind != "main" {
		return
	}
	f.done = true
	args := append([]string{}, sf.Args...)
	q := &spoiler{x: x, r: f.r, args: &args, L: f.L, n: f.n}
	a := args
	if len(a) > 1 && a[0] == "-Threads" {
		a = a[2:]
	}
	mode := strings.TrimPrefix(a[0], "-")
	q.cfg, q.bnds = a[1], a[2:]
	var can []request
	for _, r := range requests() {
		if r.mode == mode {
			can = append(can, r)
		}
	}
	for _, i := range f.r.Perm(len(can)) {
		if f.pick != "" && can[i].name != f.pick {
			continue
		}
		if can[i].edit(q) {
			f.what = mode + ":" + can[i].name
			sf.Args = args
			return
		}
	}
}

func init() {
	ids := []string{"C08", "C09", "C11", "C17", "C17", "C20", "C02", "C03"}
	min := map[string]int{}
	for _, id := range ids {
		for k, lo := range props[id].Min {
			if v, ok := min[k]; !ok || v < lo {
				min[k] = lo
			}
		}
	}
	names := map[string]bool{}
	for _, r := range requests() {
		names[r.mode+":"+r.name] = true
	}
	register(&Prop{
		ID: "C26", Quick: 4000, Thorough: 40000,
		Rule:   fmt.Sprintf("a run takes a valid request of another property (render, histogram, conversion, series, also over earlier results, fragmented I/O and faults) and spoils it in one of %d ways (impossible, missing, unknown or contradictory settings, regions and command lines); the command must end with a failure status and leave every file as it was; non-trivial if the command was refused", len(names)),
		Assume: []string{"a refusal is any end with a failure status"},
		Real:   convReal + "; " + renderReal, Stub: convStub, Min: min,
		Gen: func(r *PRNG, s *Scen) {
			id := ids[r.Intn(len(ids))]
			s.S["as"] = id
			s.F["decoy"] = []float64{0, 1}[r.Intn(2)]
			s.Prop = id
			props[id].Gen(newPRNG(r.Next()), s)
			s.Prop = "C26"
			s.Variant = id + ":" + s.Variant
		},
		Run: func(x *Ctx, s *Scen) *Violation {
			id := s.S["as"]
			c := s.clone()
			c.Prop = id
			c.Variant = strings.TrimPrefix(s.Variant, id+":")
			x.guard = &guard{rng: s.rng("guard"), decoy: s.F["decoy"], first: true}
			x.refuse = &refusal{r: s.rng("spoil"), L: s.F["L"], n: s.I["cells"]*s.I["seg"] + s.I["extra"], pick: os.Getenv("SPOIL")}
			if id == "C20" {
				x.refuse.n = 0 // every snapshot has a size of its own
			}
			if x.refuse.L == 0 {
				x.refuse.L = 1e9
			}
			x.limit = 1
			func() {
				defer func() {
					if e := recover(); e != nil && e != errEnough {
						panic(e)
					}
				}()
				props[id].Run(x, c)
			}()
			if len(x.steps) == 0 || x.refuse.what == "" {
				return nil
			}
			x.Probe("spoiled:" + x.refuse.what)
			r := x.steps[0]
			if v := stuck(r); v != nil {
				return v
			}
			if r.OK() {
				return viol("accepted:"+x.refuse.what, "a request which cannot be honoured (%s) is reported as a success", x.refuse.what)
			}
			if x.guard.viol != nil {
				x.guard.viol.Detail = x.refuse.what + ": " + x.guard.viol.Detail
			}
			return x.guard.viol
		},
	})
}
