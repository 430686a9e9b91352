package main

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
)

// exampleRun replaces the configuration of every command of a run by what
// -ExampleConfig printed, filled in with the values of the run.
type exampleRun struct {
	r     *PRNG
	texts map[string]string
	// use holds the optional keys, by example, to be used as printed; nil
	// unless the examples are to be used as they are.
	use  map[string]map[string]bool
	side [2]bool // ask for a log file and a profile
	viol *Violation
	mode string
	n    int // commands configured
}

// An example is a sequence of lines, some of which set an option or show, as
// a comment, how to set one.
type exLine struct {
	text     string
	key, val string
	off      bool // commented out
}

var (
	exKey  = regexp.MustCompile(`^(#?)[ \t]*([A-Za-z][A-Za-z0-9]*)[ \t]*=[ \t]*(.*?)[ \t]*$`)
	exHead = regexp.MustCompile(`^[ \t]*\[([A-Za-z]+)(?:[ \t]+"(.*)")?\][ \t]*$`)
)

func parseExample(text string) (head, name string, ls []exLine) {
	for _, l := range strings.Split(text, "\n") {
		if m := exHead.FindStringSubmatch(l); m != nil && head == "" {
			head, name = m[1], m[2]
			ls = append(ls, exLine{text: l})
			continue
		}
		e := exLine{text: l}
		if m := exKey.FindStringSubmatch(l); m != nil {
			e.off, e.key, e.val = m[1] == "#", m[2], m[3]
		}
		ls = append(ls, e)
	}
	return
}

func sameValue(a, b string) bool {
	if a == b {
		return true
	}
	x, e1 := strconv.ParseFloat(a, 64)
	y, e2 := strconv.ParseFloat(b, 64)
	return e1 == nil && e2 == nil && closeTo(x, y, 1e-12)
}

// fill gives the options of an example the values of kv, and returns the
// keys it does not mention.
func (q *exampleRun) fill(kind, name string, kv [][2]string) (string, []string) {
	_, _, ls := parseExample(q.texts[kind])
	want := map[string]string{}
	done := map[string]bool{}
	for _, p := range kv {
		want[strings.ToLower(p[0])] = p[1]
	}
	use := q.use[kind]
	out := &strings.Builder{}
	for _, off := range []bool{false, true} {
		for i := range ls {
			l := &ls[i]
			k := strings.ToLower(l.key)
			if l.key == "" || l.off != off {
				continue
			}
			v, ok := want[k]
			switch {
			case ok && done[k]:
			case !ok && off:
			case !ok:
				l.text = "# " + l.text
			case sameValue(v, l.val) && !off:
				done[k] = true
			case sameValue(v, l.val) && k == "gadget2idsize" && !use[l.key]:
				// The default.
				done[k] = true
			default:
				t := v
				if sameValue(v, l.val) {
					t = l.val
				}
				l.text = l.key + " = " + t
				done[k] = true
			}
		}
	}
	for i, l := range ls {
		if i == 0 && name != "" {
			l.text = fmt.Sprintf("[%s \"%s\"]", kind, name)
		}
		fmt.Fprintln(out, l.text)
	}
	var missing []string
	for _, p := range kv {
		if !done[strings.ToLower(p[0])] {
			missing = append(missing, p[0])
		}
	}
	return out.String(), missing
}

// before rewrites the configuration of a command.
func (q *exampleRun) before(x *Ctx, sf *stepFile) {
	q.mode = ""
	if sf.Kind != "main" || q.viol != nil {
		return
	}
	a := sf.Args
	if len(a) > 1 && a[0] == "-Threads" {
		a = a[2:]
	}
	if len(a) < 2 || a[0] == "-ExampleConfig" {
		return
	}
	mode := strings.TrimPrefix(a[0], "-")
	files := append([]string{a[1]}, a[2:]...)
	for i, f := range files {
		b, err := x.read(f)
		if err != nil {
			return
		}
		out := ""
		kind, name := "", ""
		var kv [][2]string
		flush := func() {
			if kind == "" {
				return
			}
			if i == 0 {
				if q.side[0] {
					kv = append(kv, [2]string{"LogFile", "log.out"})
				}
				if q.side[1] {
					kv = append(kv, [2]string{"ProfileFile", "prof.out"})
				}
			}
			t, missing := q.fill(kind, name, kv)
			if len(missing) > 0 && q.viol == nil {
				q.viol = viol("undocumented-option", "the example configuration '%s' does not mention %v", kind, missing)
			}
			out += t
		}
		for _, l := range strings.Split(string(b), "\n") {
			if m := exHead.FindStringSubmatch(l); m != nil {
				flush()
				kind, name, kv = m[1], m[2], nil
				if _, ok := q.texts[kind]; !ok {
					return
				}
			} else if m := exKey.FindStringSubmatch(l); m != nil && m[1] == "" {
				low := strings.ToLower(m[2])
				if i == 0 && (low == "logfile" || low == "profilefile") {
					continue // decided above
				}
				kv = append(kv, [2]string{m[2], m[3]})
			}
		}
		flush()
		x.write(f, []byte(out))
	}
	x.remove("log.out")
	x.remove("prof.out")
	q.mode = mode
	q.n++
}

// after checks that the log and profile files were written.
func (q *exampleRun) after(x *Ctx, r *StepResult) {
	if q.mode == "" || q.viol != nil || !r.OK() {
		return
	}
	for i, f := range []string{"log.out", "prof.out"} {
		b, err := x.read(f)
		if !q.side[i] {
			if err == nil {
				q.viol = viol("stray-file", "%s leaves %s behind, which was not asked for", q.mode, f)
			}
			continue
		}
		if err != nil {
			q.viol = viol("side-file", "%s does not write the %s it is asked for: %v", q.mode, []string{"LogFile", "ProfileFile"}[i], err)
			return
		}
		if i == 0 {
			if strings.TrimSpace(r.Stderr) != "" {
				q.viol = viol("log-elsewhere", "with a LogFile, %s writes to the standard error: %s", q.mode, tail(r.Stderr, 300))
				return
			}
			if len(b) > 0 {
				x.Probe("log-written")
			}
		} else {
			if string(b) != "simulated profile\n" {
				q.viol = viol("side-file", "%s leaves a profile of %d bytes, which is not the one taken", q.mode, len(b))
				return
			}
			x.Probe("profile-written")
		}
	}
}

// option returns an option of an example, whether or not it is commented out.
func option(ls []exLine, key string) (string, bool) {
	for _, l := range ls {
		if strings.EqualFold(l.key, key) {
			return l.val, true
		}
	}
	return "", false
}

var examples = []string{"ConvertSnapshot", "Render", "TetraHist", "Box", "Ball"}

// printExamples asks for all the examples.
func printExamples(x *Ctx, s *Scen, q *exampleRun) *Violation {
	r := s.rng("print")
	q.texts = map[string]string{}
	for _, i := range r.Perm(len(examples)) {
		name := examples[i]
		p := plainProc(r, r.Range(1, 3))
		if r.Chance(0.5) {
			benign(r, p)
			p.IO.Stdout = true
			p.IO.Faults = append(p.IO.Faults, &Fault{Op: "write", Path: "@stdout", Prob: 0.5, Kind: "short"})
		}
		before := x.fingerprint()
		res := x.Main(p, "-ExampleConfig", name)
		if v := stuck(res); v != nil {
			return v
		}
		if !res.OK() {
			return viol("example-fails", "-ExampleConfig %s fails: %s", name, res)
		}
		if v := unchanged(before, x.fingerprint(), "-ExampleConfig "+name); v != nil {
			return v
		}
		head, sec, _ := parseExample(res.Stdout)
		if head != name || (name == "Box" || name == "Ball") != (sec != "") {
			return viol("example-section", "-ExampleConfig %s prints a section [%s \"%s\"]:\n%s", name, head, sec, tail(res.Stdout, 200))
		}
		q.texts[name] = res.Stdout
	}
	return nil
}

func unchanged(a, b map[string]string, what string) *Violation {
	for _, p := range keys(a) {
		if b[p] != a[p] {
			return viol("touches-file", "%s: %s was %s and is %s", what, p, a[p], b[p])
		}
	}
	for _, p := range keys(b) {
		if _, ok := a[p]; !ok {
			return viol("stray-file", "%s leaves %s behind", what, p)
		}
	}
	return nil
}

// asPrinted gives a scenario the values which the examples show, together
// with some of their options. It returns false if the scenario cannot have
// them.
func asPrinted(x *Ctx, s, c *Scen, q *exampleRun) bool {
	r := s.rng("as-is")
	q.use = map[string]map[string]bool{}
	var mode string
	switch c.Prop {
	case "C01":
		mode = "ConvertSnapshot"
	case "C17":
		mode = "TetraHist"
	default:
		mode = "Render"
	}
	get := map[string][]exLine{}
	for _, n := range append([]string{mode}, "Box", "Ball") {
		_, _, get[n] = parseExample(q.texts[n])
		q.use[n] = map[string]bool{}
	}
	num := func(kind, key string) float64 {
		v, _ := option(get[kind], key)
		f, err := strconv.ParseFloat(v, 64)
		if err != nil {
			return math.NaN()
		}
		return f
	}
	// take decides on an optional setting.
	take := func(kind, key string) bool {
		_, ok := option(get[kind], key)
		if !ok || !r.Chance(0.4) {
			return false
		}
		q.use[kind][key] = true
		x.Probe("as-is:" + kind + "." + key)
		return true
	}
	if mode == "ConvertSnapshot" {
		c.I["cells"], c.I["extra"] = int(num(mode, "Cells")), 0
		c.F["xu"], c.F["vu"], c.F["mu"] = 1, 1, 1
		c.I["id64"] = 1
		take(mode, "Gadget2IDSize")
		if take(mode, "XUnits") {
			c.F["xu"] = num(mode, "XUnits")
		}
		if take(mode, "VUnits") {
			c.F["vu"] = num(mode, "VUnits")
		}
		if take(mode, "MUnits") {
			c.F["mu"] = num(mode, "MUnits")
		}
		return c.I["cells"] >= 1 && c.I["cells"] <= 12
	}
	c.F["L"] = []float64{125, 160, 250, 500}[r.Intn(4)]
	c.Boxes = nil
	for _, kind := range []string{"Box", "Ball"} {
		if len(c.Boxes) > 0 && r.Chance(0.3) {
			break
		}
		_, name, _ := parseExample(q.texts[kind])
		b := BoxSpec{Name: name, Ball: kind == "Ball"}
		for k, ax := range []string{"X", "Y", "Z"} {
			b.O[k] = num(kind, ax)
			if b.Ball {
				b.W[k] = num(kind, "Radius")
			} else {
				b.W[k] = num(kind, ax+"Width")
			}
			if math.IsNaN(b.O[k]) || math.IsNaN(b.W[k]) {
				return false
			}
		}
		if b.Ball && take(kind, "RadiusMultiplier") {
			b.Mult = num(kind, "RadiusMultiplier")
			for k := range b.W {
				b.W[k] *= b.Mult
			}
		}
		if mode == "Render" && take(kind, "ProjectionAxis") {
			b.Axis, _ = option(get[kind], "ProjectionAxis")
		}
		c.Boxes = append(c.Boxes, b)
	}
	c.I["files"] = r.Range(1, 2)
	c.I["affix"] = 0
	pre, _ := option(get[mode], "PrependName")
	app, _ := option(get[mode], "AppendName")
	if pre == "pre_" && app == "_app" && take(mode, "PrependName") {
		q.use[mode]["AppendName"] = true
		c.I["affix"] = 1
	}
	c.I["skip"], c.I["imagepx"], c.I["pdepth"], c.I["auto"] = 1, 0, 0, 0
	c.I["pts"] = int(num(mode, "Particles"))
	if take(mode, "SubsampleLength") {
		c.I["skip"] = int(num(mode, "SubsampleLength"))
		c.I["seg"] += (c.I["skip"] - c.I["seg"]%c.I["skip"]) % c.I["skip"]
	}
	if mode == "TetraHist" {
		c.I["bins"] = int(num(mode, "HistBins"))
		c.F["hmin"], c.F["hmax"] = num(mode, "HistMin"), num(mode, "HistMax")
		c.S["scale"], _ = option(get[mode], "HistScale")
		for u := 0; u < 20; u++ {
			c.I["salt"] = u
			if _, _, ok := planHist(c); ok {
				return true
			}
		}
		return false
	}
	c.I["px"] = int(num(mode, "TotalPixels"))
	if take(mode, "ImagePixels") {
		c.I["imagepx"] = int(num(mode, "ImagePixels"))
	}
	if r.Chance(0.3) && take(mode, "AutoParticles") {
		c.I["auto"] = 1
	} else if r.Chance(0.3) && take(mode, "ProjectionDepth") {
		c.I["pdepth"] = int(num(mode, "ProjectionDepth"))
	}
	c.I["fine"] = 2
	return settle(c)
}

func init() {
	ids := []string{"C01", "C20", "C07", "C08", "C17", "C11"}
	min := map[string]int{}
	apis := map[string]bool{}
	for _, id := range ids {
		for k, lo := range props[id].Min {
			if v, ok := min[k]; !ok || v < lo {
				min[k] = lo
			}
		}
		for _, a := range props[id].APIs {
			apis[a] = true
		}
	}
	register(&Prop{
		ID: "C34", Quick: 1500, Thorough: 20000,
		Rule:   "a run asks for example configurations, with short and interrupted writes, and uses them: with the values of a random scenario of another property filled in, or as they are printed, with some of the options they show, over data made to fit, judged by that property's oracle; or makes the standard output fail, which must be reported, or asks for an example which does not exist; non-trivial if a command was configured by an example, an output fault fired or a request was refused",
		Assume: []string{"the profiler is a stub which writes a fixed profile when it is stopped"},
		Real:   "the complete gotetra command (-ExampleConfig, ConvertSnapshot, Render and TetraHist), gcfg, Go's os, log and fmt packages", Stub: convStub + ", CPU profiler", Min: min, APIs: keys(apis),
		Gen: func(r *PRNG, s *Scen) {
			switch w := r.Float(); {
			case w < 0.1:
				s.Variant = "stdout"
			case w < 0.15:
				s.Variant = "refuse"
			case w < 0.4:
				id := r.PickS("C01", "C17", "C08", "C07")
				s.S["as"] = id
				s.Prop = id
				for s.Variant = "convert"; ; {
					s.Boxes, s.Ops, s.Procs = nil, nil, nil
					s.I, s.F, s.S = map[string]int{}, map[string]float64{}, map[string]string{"as": id}
					props[id].Gen(newPRNG(r.Next()), s)
					if v := s.Variant; v == "convert" || v == "sheet" {
						break
					}
				}
				if id != "C01" {
					// Many small cells, and regions which are small in
					// comparison.
					s.S["kind"] = r.PickS("wave", "uniform", "stair")
					s.I["cells"], s.I["seg"] = 4, r.Range(2, 4)
					s.F["amp"] = []float64{0, 0.5, 1.5}[r.Intn(3)]
				} else {
					s.I["seg"] = r.Range(1, 2)
				}
				s.Prop = "C34"
				s.Variant = "as-is:" + id + ":" + s.Variant
				s.I["sidelog"], s.I["sideprof"] = r.Intn(2), r.Intn(2)
			default:
				id := ids[r.Intn(len(ids))]
				s.S["as"] = id
				s.Prop = id
				props[id].Gen(newPRNG(r.Next()), s)
				s.Prop = "C34"
				s.Variant = "filled:" + id + ":" + s.Variant
				s.I["sidelog"], s.I["sideprof"] = r.Intn(2), r.Intn(2)
			}
		},
		Run: func(x *Ctx, s *Scen) *Violation {
			switch s.Variant {
			case "stdout":
				return brokenOutput(x, s)
			case "refuse":
				return unknownExample(x, s)
			}
			q := &exampleRun{r: s.rng("example"), side: [2]bool{s.I["sidelog"] == 1, s.I["sideprof"] == 1}}
			if v := printExamples(x, s, q); v != nil {
				return v
			}
			id := s.S["as"]
			c := s.clone()
			c.Prop = id
			f := strings.SplitN(s.Variant, ":", 3)
			c.Variant = f[2]
			if f[0] == "as-is" {
				if !asPrinted(x, s, c, q) {
					x.Probe("as-is-unsettled")
					return nil
				}
				x.Probe("as-is:" + id)
			}
			for _, p := range c.Procs {
				if p.IO.Capacity > 0 {
					q.side = [2]bool{} // they take up room
				}
			}
			x.example = q
			v := props[id].Run(x, c)
			if q.viol != nil {
				return q.viol
			}
			if v != nil {
				v.Class = f[0] + ":" + v.Class
				v.Detail = "configured by the example configurations: " + v.Detail
				return v
			}
			if q.n > 0 {
				x.Probe("configured-by-example")
			}
			return nil
		},
	})
}

// brokenOutput prints an example to an output which does not take it.
func brokenOutput(x *Ctx, s *Scen) *Violation {
	r := s.rng("stdout")
	p := plainProc(r, 1)
	p.IO.Stdout = true
	name := examples[r.Intn(len(examples))]
	if r.Chance(0.5) {
		p.IO.Faults = append(p.IO.Faults, &Fault{Op: "write", Path: "@stdout", Prob: 0.9, Kind: "short"})
	}
	switch r.Intn(3) {
	case 0:
		p.IO.Capacity = int64(r.Range(1, 300))
	case 1:
		p.IO.Faults = append([]*Fault{{Op: "write", Path: "@stdout", Nth: 1, Count: -1, Kind: r.PickS("EIO", "ENOSPC", "EDQUOT")}}, p.IO.Faults...)
	default:
		p.IO.Faults = append(p.IO.Faults, &Fault{Op: "closew", Path: "@stdout", Nth: 1, Kind: r.PickS("EIO", "ENOSPC", "EDQUOT", "lost"), Arg: int64(r.Range(1, 100))})
	}
	res := x.Main(p, "-ExampleConfig", name)
	if v := stuck(res); v != nil {
		return v
	}
	if len(res.IO.Fired) == 0 {
		return nil
	}
	bad := false
	for k := range res.IO.Fired {
		if !strings.HasSuffix(k, ":short") {
			bad = true
		}
	}
	if bad && res.OK() {
		return viol("false-success", "-ExampleConfig %s reports success, but its output fails: %v %v", name, res.IO.Fired, res.Faults)
	}
	if bad {
		x.Probe("output-failure-reported")
	}
	return nil
}

// unknownExample asks for an example which does not exist.
func unknownExample(x *Ctx, s *Scen) *Violation {
	r := s.rng("refuse")
	name := r.PickS("Bounds", "Sphere", "Renderer", "-", "Box Ball", "Velocity", "All", "Convert-Snapshot", "TetraHistogram", "Balls", "")
	args := []string{"-ExampleConfig", name}
	before := x.fingerprint()
	res := x.Main(plainProc(r, 1), args...)
	if v := stuck(res); v != nil {
		return v
	}
	if res.OK() {
		return viol("accepted", "-ExampleConfig '%s' is reported as a success", name)
	}
	x.Probe("unknown-refused")
	return unchanged(before, x.fingerprint(), "-ExampleConfig "+name)
}
