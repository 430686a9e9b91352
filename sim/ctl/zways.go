package main

import (
	"fmt"
	"os"
	"path"
	"regexp"
	"strconv"
	"strings"
)

// ways makes commands reach every file and directory they are given in
// another way: by an absolute path, with redundant elements, through links to
// the directory, to one above it or to every single file in it, or by a name
// with unusual characters.
type ways struct {
	r *PRNG
	n int // commands
	k int // links
	// back leads from the names which results have for a command to those
	// which the scenario expects.
	back [][2]string
}

// cwd names the directory of a run in a way which is the same in every run.
const cwd = "/proc/self/cwd"

var oddNames = []string{"a b", " ", "#5", "x;y", "ü-é", "[1]", "*", "?", "100%", "%d", "%s%s", "a=b", "sheet000.dat", ".hidden", "-Render",
	"in.gtet", `b\c`, `"q"`, "'", "$HOME", "~", "a,b", "{x}", "...", "out", "(1)", "null", "[Render]", "a|b", "&", "Input = in", "x%20y", "日本", strings.Repeat("n", 60)}

func (w *ways) dir() string { return fmt.Sprintf("ways/%d", w.n) }

// odd is a fresh path which ends in an odd name.
func (w *ways) odd(x *Ctx, plain bool) string {
	w.k++
	d := fmt.Sprintf("%s/%d", w.dir(), w.k)
	x.mkdir(d)
	if plain {
		return d + "/" + w.r.PickS("a b", "x", "ü", "in", "cell1", ".hidden", "-q", "50")
	}
	return d + "/" + oddNames[w.r.Intn(len(oddNames))]
}

// link makes name a link to the path to below the directory of the run.
func (w *ways) link(x *Ctx, name, to string) {
	target := strings.Repeat("../", strings.Count(name, "/")) + to
	if w.r.Chance(0.3) {
		target = cwd + "/" + to
	}
	check(os.Symlink(target, x.path(name)))
}

// farm makes name a directory whose files are links to those of p.
func (w *ways) farm(x *Ctx, name, p string) {
	x.mkdir(name)
	ents, err := os.ReadDir(x.path(p))
	check(err)
	mode := w.r.Intn(3)
	for _, e := range ents {
		to := name + "/" + e.Name()
		switch {
		case mode == 0 && e.Type().IsRegular():
			check(os.Link(x.path(p, e.Name()), x.path(to)))
		case mode == 1 && w.r.Chance(0.3):
			chain := fmt.Sprintf("%s/chain%d", w.dir(), w.k)
			w.k++
			w.link(x, chain, p+"/"+e.Name())
			w.link(x, to, chain)
		default:
			w.link(x, to, p+"/"+e.Name())
		}
	}
}

// reach returns another way to p. In sf it notes which path it stands for.
func (w *ways) reach(x *Ctx, sf *stepFile, p string, input, pattern bool) string {
	alias := func(a, b string) { sf.IO.Alias = append(sf.IO.Alias, [2]string{a, path.Clean(b)}) }
	if path.IsAbs(p) {
		return p
	}
	fi, err := os.Stat(x.path(p))
	there := err == nil && !pattern
	dir := there && fi.IsDir()
	kind := ""
	q := p
	if w.r.Chance(0.6) {
		switch {
		case there && (!dir || w.r.Chance(0.5)):
			kind = "link"
			q = w.odd(x, false)
			w.link(x, q, p)
			alias(q, p)
		case dir && input:
			kind = "linked-files"
			q = w.odd(x, false)
			w.farm(x, q, p)
			alias(q, p)
		default:
			kind = "linked-parent"
			up := w.odd(x, pattern)
			w.link(x, up, ".")
			alias(up, ".")
			q = up + "/" + p
		}
	}
	if w.r.Chance(0.5) {
		switch w.r.Intn(3) {
		case 0:
			kind += "+absolute"
			q = cwd + "/" + q
		case 1:
			kind += "+dots"
			q = "./" + q
		case 2:
			kind += "+detour"
			q = "ways/../" + w.dir() + "/./../../" + q
		}
	}
	if i := strings.LastIndex(q, "/"); i > 0 && w.r.Chance(0.15) {
		kind += "+slashes"
		q = q[:i] + "//" + q[i+1:]
	}
	if (dir || pattern || !there && !input && !strings.Contains(path.Base(p), ".out")) && w.r.Chance(0.25) {
		kind += "+trailing"
		q += w.r.PickS("/", "/", "/.", "//")
	}
	for _, k := range strings.Split(strings.TrimPrefix(kind, "+"), "+") {
		if k != "" {
			x.Probe("way-" + k)
		}
	}
	return q
}

// series gives the directories of a pattern other names, and returns the
// pattern of those.
func (w *ways) series(x *Ctx, sf *stepFile, p string, first, last int) string {
	if strings.Count(p, "%") != 1 || !w.r.Chance(0.5) {
		return w.reach(x, sf, p, true, true)
	}
	w.k++
	d := fmt.Sprintf("%s/%d", w.dir(), w.k)
	x.mkdir(d)
	pat := d + "/" + w.r.PickS("%d", "%03d", "s%dx", "%x.snap", "a b%5d")
	if first < 0 && strings.Contains(pat, "%x") {
		return w.reach(x, sf, p, true, true)
	}
	for i := first; i <= last; i++ {
		from, to := fmt.Sprintf(p, i), fmt.Sprintf(pat, i)
		if _, err := os.Stat(x.path(from)); err != nil {
			continue
		}
		if w.r.Chance(0.5) {
			w.link(x, to, from)
		} else {
			w.farm(x, to, from)
		}
		sf.IO.Alias = append(sf.IO.Alias, [2]string{to, path.Clean(from)})
	}
	x.Probe("way-linked-series")
	return pat
}

var (
	plainValue = regexp.MustCompile(`^[A-Za-z0-9_./%-]+$`)
	wayLine    = regexp.MustCompile(`(?m)^(Input|Output|IteratedInput|IteratedOutput|GridFile|LogFile|ProfileFile) = ([^"\n]+)$`)
)

func quoteValue(v string) string {
	if plainValue.MatchString(v) {
		return v
	}
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(v) + `"`
}

// rename gives the regions of a command, and its results, unusual names.
func (w *ways) rename(x *Ctx, sf *stepFile, args []string, orig, text, ext string) string {
	odd := func() string {
		if w.r.Chance(0.3) {
			return ""
		}
		return oddNames[w.r.Intn(len(oddNames))]
	}
	get := func(key string) string {
		if m := regexp.MustCompile(`(?m)^` + key + ` = (.*)$`).FindStringSubmatch(orig); m != nil {
			return m[1]
		}
		return ""
	}
	pre, app, out := get("PrependName"), get("AppendName"), get("Output")
	newPre, newApp := pre, app
	if w.r.Chance(0.6) {
		newPre, newApp = odd(), odd()
		text = regexp.MustCompile(`(?m)^(PrependName|AppendName) = .*\n`).ReplaceAllString(text, "")
		for _, kv := range [][2]string{{"PrependName", newPre}, {"AppendName", newApp}} {
			if kv[1] != "" {
				text += kv[0] + " = " + quoteValue(kv[1]) + "\n"
			}
		}
	}
	region := regexp.MustCompile(`(?m)^\[(Box|Ball) "(.*)"\]$`)
	used, given := map[string]bool{}, map[string]string{}
	for i, f := range args {
		b, err := x.read(f)
		if err != nil {
			return text
		}
		t := region.ReplaceAllStringFunc(string(b), func(l string) string {
			m := region.FindStringSubmatch(l)
			name, ok := given[m[2]]
			if !ok {
				name = oddNames[w.r.Intn(len(oddNames))]
				for used[name] {
					name += w.r.PickS("'", " ", "x", "%")
				}
				used[name], given[m[2]] = true, name
				w.back = append(w.back, [2]string{out + "/" + newPre + name + newApp + ext, out + "/" + pre + m[2] + app + ext})
			}
			return "[" + m[1] + ` "` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(name) + `"]`
		})
		to := fmt.Sprintf("%s/bounds%d", w.dir(), i)
		x.write(to, []byte(t))
		sf.IO.Alias = append(sf.IO.Alias, [2]string{to, path.Clean(f)})
		args[i] = to
	}
	for _, m := range w.back {
		if _, err := os.Lstat(x.path(m[1])); err == nil {
			x.rename(m[1], m[0])
		}
		x.Probe("way-named")
	}
	return text
}

// after gives the results the names which the scenario expects.
func (w *ways) after(x *Ctx, back [][2]string) {
	for _, m := range back {
		if _, err := os.Lstat(x.path(m[0])); err == nil {
			x.rename(m[0], m[1])
		}
	}
}

func (w *ways) before(x *Ctx, sf *stepFile) {
	w.back = nil
	if sf.Kind != "main" {
		return
	}
	at := 0
	if len(sf.Args) > 1 && sf.Args[0] == "-Threads" {
		at = 2
	}
	if len(sf.Args) < at+2 || sf.Args[at] == "-ExampleConfig" {
		return
	}
	args := append([]string{}, sf.Args...)
	sf.IO.Alias = nil
	b, err := x.read(args[at+1])
	if err != nil {
		return
	}
	x.mkdir(w.dir())
	text := string(b)
	number := func(key string, def int) int {
		if m := regexp.MustCompile(`(?m)^` + key + ` = (-?[0-9]+)$`).FindStringSubmatch(text); m != nil {
			n, err := strconv.Atoi(m[1])
			check(err)
			return n
		}
		return def
	}
	first := number("IterationStart", 0)
	last := number("IterationEnd", first+20)
	text = wayLine.ReplaceAllStringFunc(text, func(l string) string {
		if w.r.Chance(0.25) {
			return l
		}
		m := wayLine.FindStringSubmatch(l)
		key, p := m[1], m[2]
		switch key {
		case "IteratedInput":
			p = w.series(x, sf, p, first, last)
		case "IteratedOutput":
			p = w.reach(x, sf, p, false, true)
		default:
			p = w.reach(x, sf, p, key == "Input" || key == "GridFile", false)
		}
		return key + " = " + quoteValue(p)
	})
	if ext := map[string]string{"-Render": ".gtet", "-TetraHist": ".txt"}[args[at]]; ext != "" && w.r.Chance(0.5) {
		text = w.rename(x, sf, args[at+2:], string(b), text, ext)
		// Last, when the directory is called what it is.
		for _, m := range w.back {
			sf.IO.Alias = append(sf.IO.Alias, m)
		}
	}
	// The file itself stays as it is, so that it can be used again.
	cfg := w.dir() + "/cfg"
	x.write(cfg, []byte(text))
	sf.IO.Alias = append(sf.IO.Alias, [2]string{cfg, path.Clean(args[at+1])})
	args[at+1] = cfg
	for i := at + 1; i < len(args); i++ {
		if w.r.Chance(0.5) {
			args[i] = w.reach(x, sf, args[i], true, false)
		}
	}
	sf.Args = args
	w.n++
	x.Probe("reached-another-way")
}

func init() {
	ids := []string{"C01", "C02", "C03", "C04", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C15", "C16", "C17", "C18", "C20", "C35"}
	min := map[string]int{}
	apis := map[string]bool{}
	for _, id := range ids {
		for k, lo := range props[id].Min {
			if v, ok := min[k]; !ok || v < lo {
				min[k] = lo
			}
		}
		for _, a := range props[id].APIs {
			apis[a] = true
		}
	}
	register(&Prop{
		ID: "C37", Quick: 2000, Thorough: 20000,
		Rule:   "a run is a scenario of one of the other command properties (conversions, series, renders, histograms, several commands at once; undisturbed, with damaged inputs, read and write faults, full disks, crashes and re-runs) in which the commands reach configurations, bounds, inputs and outputs in other ways than directly: by absolute paths, redundant separators and dots, links to files, to directories, to directories above them or to every file of an input directory, and names with unusual characters; judged by that property's oracle; non-trivial if at least one command was given its files that way",
		Assume: []string{"as the property whose scenario is used", "outputs are not themselves links"},
		Real:   convReal + "; " + renderReal, Stub: convStub, Min: min, APIs: keys(apis),
		Gen: func(r *PRNG, s *Scen) {
			id := ids[r.Intn(len(ids))]
			s.S["as"] = id
			s.Prop = id
			props[id].Gen(newPRNG(r.Next()), s)
			s.Prop = "C37"
			s.Variant = id + ":" + s.Variant
		},
		Run: func(x *Ctx, s *Scen) *Violation {
			id := s.S["as"]
			c := s.clone()
			c.Prop = id
			c.Variant = strings.TrimPrefix(s.Variant, id+":")
			x.ways = &ways{r: s.rng("ways")}
			v := props[id].Run(x, c)
			if v != nil {
				v.Detail = "reaching its files in other ways (" + id + "): " + v.Detail
			}
			return v
		},
	})
}
