package main

import (
	"crypto/sha256"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"strings"
)

// guard watches what the simulated commands do to the files around them. It
// derives from the command line and the configuration which files a command
// may write, and compares the whole tree before and after every process.
type guard struct {
	rng   *PRNG
	decoy float64
	first bool
	viol  *Violation
	cur   *guardCall
	calls int
}

type guardCall struct {
	mode    string
	outs    []string         // output directories, patterns
	outRE   []*regexp.Regexp // the same
	names   *regexp.Regexp   // admissible base names of outputs
	side    map[string]bool  // log and profile files
	before  map[string]string
	iterate bool
}

var (
	cfgLine = regexp.MustCompile(`(?m)^[ \t]*([A-Za-z0-9]+)[ \t]*=[ \t]*(.*?)[ \t]*$`)
	boxLine = regexp.MustCompile(`(?m)^[ \t]*\[(?:Box|Ball)[ \t]+"(.*)"\]`)
	verbRE  = regexp.MustCompile(`%[0-9]*d`)
)

func (g *guard) call(x *Ctx, args []string) *guardCall {
	c := &guardCall{side: map[string]bool{}}
	if len(args) > 1 && args[0] == "-Threads" {
		args = args[2:]
	}
	if len(args) < 2 {
		return nil
	}
	c.mode = strings.TrimPrefix(args[0], "-")
	cfg := map[string]string{}
	b, err := x.read(args[1])
	if err != nil {
		return nil
	}
	for _, m := range cfgLine.FindAllStringSubmatch(string(b), -1) {
		cfg[strings.ToLower(m[1])] = strings.Trim(m[2], `"`)
	}
	for _, k := range []string{"logfile", "profilefile"} {
		if cfg[k] != "" {
			c.side[path.Clean(cfg[k])] = true
		}
	}
	out := cfg["output"]
	if it := cfg["iteratedoutput"]; it != "" && c.mode == "ConvertSnapshot" {
		out, c.iterate = it, true
	}
	if out == "" {
		return nil
	}
	out = path.Clean(out)
	c.outs = []string{out}
	re := ""
	last := 0
	for _, m := range verbRE.FindAllStringIndex(out, -1) {
		re += regexp.QuoteMeta(out[last:m[0]]) + `[0-9]+`
		last = m[1]
	}
	re += regexp.QuoteMeta(out[last:])
	c.outRE = append(c.outRE, regexp.MustCompile(`^`+re+`$`))
	switch c.mode {
	case "ConvertSnapshot":
		c.names = regexp.MustCompile(`^sheet[0-9]+\.dat$`)
	case "Render", "TetraHist":
		ext := map[string]string{"Render": ".gtet", "TetraHist": ".txt"}[c.mode]
		var alt []string
		for _, bf := range args[2:] {
			b, _ := x.read(bf)
			for _, m := range boxLine.FindAllStringSubmatch(string(b), -1) {
				alt = append(alt, regexp.QuoteMeta(cfg["prependname"]+m[1]+cfg["appendname"]+ext))
			}
		}
		c.names = regexp.MustCompile(`^(?:` + strings.Join(alt, "|") + `)$`)
		if len(alt) == 0 {
			c.names = regexp.MustCompile(`^$`)
		}
	default:
		return nil
	}
	return c
}

// inOut reports whether p lies directly in an output directory, is one, or
// leads to one.
func (c *guardCall) inOut(p string) (in, lead bool) {
	for _, re := range c.outRE {
		if re.MatchString(path.Dir(p)) {
			return true, false
		}
		if re.MatchString(p) {
			return false, true
		}
	}
	// Ancestors: compare element by element.
	for _, o := range c.outs {
		oe, pe := strings.Split(o, "/"), strings.Split(p, "/")
		if len(pe) < len(oe) {
			ok := true
			for i := range pe {
				e := verbRE.ReplaceAllString(regexp.QuoteMeta(oe[i]), "[0-9]+")
				if m, _ := regexp.MatchString("^"+e+"$", pe[i]); !m {
					ok = false
				}
			}
			if ok {
				return false, true
			}
		}
	}
	return false, false
}

func (x *Ctx) fingerprint() map[string]string {
	out := map[string]string{}
	filepath.Walk(x.dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(x.dir, p)
		if rel == "." {
			return nil
		}
		switch {
		case fi.IsDir():
			out[rel] = "directory " + fi.Mode().String()
		case fi.Mode().IsRegular():
			b, e := os.ReadFile(p)
			check(e)
			out[rel] = fmt.Sprintf("%d bytes %x %s", len(b), sha256.Sum256(b), fi.Mode())
		default:
			out[rel] = fi.Mode().String()
		}
		return nil
	})
	return out
}

func (g *guard) before(x *Ctx, sf *stepFile) {
	g.cur = nil
	if sf.Kind != "main" || g.viol != nil {
		return
	}
	c := g.call(x, sf.Args)
	if c == nil {
		return
	}
	if g.first {
		g.first = false
		if g.rng.Chance(g.decoy) {
			g.plant(x, c)
		}
	}
	c.before = x.fingerprint()
	g.cur = c
	g.calls++
}

// plant puts older results and foreign files into the output directory.
func (g *guard) plant(x *Ctx, c *guardCall) {
	if c.iterate {
		return
	}
	put := func(p string) {
		if _, err := os.Lstat(x.path(p)); err == nil {
			return
		}
		b := make([]byte, g.rng.Pick(0, 1, 100, 1024, 5000, 100000))
		for i := range b {
			b[i] = byte(g.rng.Next())
		}
		x.write(p, b)
	}
	o := c.outs[0]
	if _, err := os.Stat(x.path(o)); err != nil && c.mode != "ConvertSnapshot" {
		return
	}
	if g.rng.Chance(0.5) {
		put(o + "/notes.txt")
	}
	if c.mode == "ConvertSnapshot" {
		put(o + "/sheet000.dat")
		if g.rng.Chance(0.3) {
			put(o + "/sheet999.dat")
		}
		return
	}
	put(o + "/older.gtet")
	for _, n := range []string{"a", "r0", "r1", "pre_r0_app", "box"} {
		if g.rng.Chance(0.5) {
			put(o + "/" + n + map[string]string{"Render": ".gtet", "TetraHist": ".txt"}[c.mode])
		}
	}
}

// refused reports whether the process gave up on its own account: not killed,
// and nothing it tried to write failed.
func refused(r *StepResult) bool {
	if r.OK() || r.Outcome == "crash" {
		return false
	}
	for k := range r.IO.Fired {
		op := strings.SplitN(k, ":", 2)[0]
		kind := k[len(op)+1:]
		switch op {
		case "read", "readdir", "close":
		case "open":
			if kind == "EMFILE" || kind == "ENFILE" {
				return false
			}
		default:
			if kind != "short" && kind != "EINTR" {
				return false
			}
		}
	}
	return true
}

func (g *guard) after(x *Ctx, r *StepResult) {
	c := g.cur
	if c == nil || g.viol != nil {
		return
	}
	now := x.fingerprint()
	say := func(class, format string, a ...interface{}) {
		if g.viol == nil {
			g.viol = viol(class, "%s (%s, faults %v): %s", c.mode, r, r.Faults, fmt.Sprintf(format, a...))
		}
	}
	ref := refused(r)
	all := map[string]bool{}
	for p := range c.before {
		all[p] = true
	}
	for p := range now {
		all[p] = true
	}
	for _, p := range keys(all) {
		was, had := c.before[p]
		is, has := now[p]
		if was == is && had == has || c.side[p] {
			continue
		}
		in, lead := c.inOut(p)
		switch {
		case lead && !had && c.mode == "ConvertSnapshot" && strings.HasPrefix(is, "directory"):
			// The directory of the output.
		case in && c.names.MatchString(path.Base(p)):
			if ref && !c.iterate {
				if had {
					say("refusal-harms-output", "the command is refused for its input, but the earlier result %s (%s) is %s afterwards", p, was, orGone(is, has))
				} else {
					say("refusal-leaves-output", "the command is refused for its input, but leaves the result %s (%s)", p, is)
				}
			} else if r.OK() && !has {
				say("removes-file", "%s (%s) is gone", p, was)
			}
		case in && !had:
			if r.OK() {
				say("stray-file", "%s (%s) is left behind in the output directory, and is none of the results", p, is)
			}
		case !had:
			say("stray-file", "%s (%s) is left behind, outside of the output directory", p, is)
		default:
			say("touches-file", "%s was %s and is %s, but is none of the outputs", p, was, orGone(is, has))
		}
	}
	for _, o := range r.IO.Ops {
		if o.Op != "create" && o.Op != "unlink" && o.Op != "rename" {
			continue
		}
		p := path.Clean(o.Path)
		if _, had := c.before[p]; !had || c.side[p] {
			continue
		}
		if in, _ := c.inOut(p); in {
			if !c.names.MatchString(path.Base(p)) {
				say("writes-input", "%s is opened for writing, removed or renamed, but is none of the outputs", p)
			}
			continue
		}
		say("writes-input", "the input %s is opened for writing, removed or renamed", p)
	}
	switch {
	case ref:
		x.Probe("refused-intact")
	case r.Outcome == "crash":
		x.Probe("crash-intact")
	case r.OK():
		x.Probe("success-intact")
	default:
		x.Probe("failure-intact")
	}
}

func orGone(s string, has bool) string {
	if !has {
		return "gone"
	}
	return s
}

func init() {
	ids := []string{"C02", "C03", "C04", "C06", "C09", "C11", "C12", "C13", "C15", "C16", "C17", "C18", "C20"}
	min := map[string]int{}
	apis := map[string]bool{}
	for _, id := range ids {
		for k, lo := range props[id].Min {
			if v, ok := min[k]; !ok || v < lo {
				min[k] = lo
			}
		}
		for _, a := range props[id].APIs {
			apis[a] = true
		}
	}
	register(&Prop{
		ID: "C25", Quick: 3500, Thorough: 30000,
		Rule:   "a run is a scenario of one of the other command properties (conversions, series, renders, histograms, undisturbed, with damaged inputs, under read and write faults, full disks, crashes and re-runs), optionally over an output directory which holds earlier results and foreign files; the whole file tree is compared before and after every simulated process; non-trivial if at least one command ran to its end or was refused, crashed or failed, with its inputs compared",
		Assume: []string{"commands may write their outputs, their log and profile files, and unfinished files in the output directory if they fail or crash there"},
		Real:   convReal + "; " + renderReal, Stub: convStub, Min: min, APIs: keys(apis),
		Gen: func(r *PRNG, s *Scen) {
			id := ids[r.Intn(len(ids))]
			s.S["as"] = id
			s.F["decoy"] = []float64{0, 0.6}[r.Intn(2)]
			s.Prop = id
			props[id].Gen(newPRNG(r.Next()), s)
			s.Prop = "C25"
			s.Variant = id + ":" + s.Variant
		},
		Run: func(x *Ctx, s *Scen) *Violation {
			id := s.S["as"]
			c := s.clone()
			c.Prop = id
			c.Variant = strings.TrimPrefix(s.Variant, id+":")
			g := &guard{rng: s.rng("guard"), decoy: s.F["decoy"], first: true}
			x.guard = g
			props[id].Run(x, c) // judged by that property's own check
			return g.viol
		},
	})
}
