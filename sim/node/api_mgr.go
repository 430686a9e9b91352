package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path"

	"github.com/phil-mansfield/gotetra/render"
	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/io"
)

// mgrJob is one use of the library: what the Render or TetraHist command does
// between reading its configuration and exiting.
type mgrJob struct {
	Hist           bool
	In, Out, Affix string
	Bounds         []string
	Q, Grid, Scale string
	Pts, Px, Skip  int
	Bins, Workers  int
	Min, Max       float64
	Order          []int // files in this order, one call each
	PtsEach        []int // the points of each region, instead of Pts
	man            *render.Manager
	hman           *render.HistManager
	boxes          []render.Box
	hboxes         []render.HistBox
	cfg            []io.BoxConfig
	hd             io.SheetHeader
	files          []string
}

func (j *mgrJob) open() error {
	infos, err := os.ReadDir(j.In)
	if err != nil {
		return err
	}
	for _, i := range infos {
		j.files = append(j.files, path.Join(j.In, i.Name()))
	}
	if err := io.ReadSheetHeaderAt(j.files[0], &j.hd); err != nil {
		return err
	}
	for _, b := range j.Bounds {
		cs, err := io.ReadBoundsConfig(b, j.hd.TotalWidth)
		if err != nil {
			return err
		}
		j.cfg = append(j.cfg, cs...)
	}
	if j.Hist {
		for i := range j.cfg {
			j.hboxes = append(j.hboxes, render.NewHistBox(&j.cfg[i], j.Bins))
		}
		j.hman, err = render.NewHistManager(j.files, j.hboxes, j.Pts, j.Q, j.Grid)
		if err != nil {
			return err
		}
		j.hman.Subsample(j.Skip)
		return nil
	}
	q, ok := density.QuantityFromString(j.Q)
	if !ok {
		return fmt.Errorf("quantity %s", j.Q)
	}
	for i := range j.cfg {
		pts := j.Pts
		if len(j.PtsEach) > 0 {
			pts = j.PtsEach[i%len(j.PtsEach)]
		}
		j.boxes = append(j.boxes, render.NewBox(j.hd.TotalWidth, pts, j.Px, q, &j.cfg[i]))
	}
	j.man, err = render.NewManager(j.files, j.boxes, false, q)
	if err != nil {
		return err
	}
	j.man.Subsample(j.Skip)
	return nil
}

func (j *mgrJob) work() error {
	if j.Hist {
		return j.hman.Hist(&render.HistInfo{Min: j.Min, Max: j.Max, Bins: j.Bins, Scale: j.Scale})
	}
	if len(j.Order) == 0 {
		return j.man.RenderDensity()
	}
	for _, i := range j.Order {
		if err := j.man.RenderDensityFromFile(j.files[i]); err != nil {
			return err
		}
	}
	return nil
}

func (j *mgrJob) write() error {
	for i := range j.cfg {
		ext := ".gtet"
		if j.Hist {
			ext = ".txt"
		}
		f, err := os.Create(path.Join(j.Out, j.cfg[i].Name+ext))
		if err != nil {
			return err
		}
		if j.Hist {
			b := &j.hboxes[i]
			for k := range b.Counts {
				fmt.Fprintf(f, "%8.4g %d\n", b.Centers[k], b.Counts[k])
			}
		} else {
			b := j.boxes[i]
			axis := ""
			if _, ok := b.ProjectionAxis(); ok {
				axis = j.cfg[i].ProjectionAxis
			}
			c := j.hd.Cosmo
			err = io.WriteBuffer(b.Vals(), io.NewCosmoInfo(c.H100*100, c.OmegaM, c.OmegaL, c.Z, j.hd.TotalWidth),
				io.NewRenderInfo(b.Points(), b.Cells(), j.Skip, axis),
				io.NewLocationInfo(b.CellOrigin(), b.CellSpan(), b.CellWidth()), f)
			if err != nil {
				return err
			}
		}
		if err := f.Close(); err != nil {
			return err
		}
	}
	return nil
}

func (j *mgrJob) step(f func() error) (msg string) {
	defer func() {
		if p := recover(); p != nil {
			msg = fmt.Sprint("panic: ", p)
		}
	}()
	if err := f(); err != nil {
		return "error: " + err.Error()
	}
	return ""
}

func init() {
	apis["mgr"] = func(par json.RawMessage) interface{} {
		var p struct {
			Jobs   []*mgrJob
			Staged bool // open all of them first, in one goroutine
			Serial bool // work one after another
		}
		if err := json.Unmarshal(par, &p); err != nil {
			panic(err)
		}
		out := make([]string, len(p.Jobs))
		for i, j := range p.Jobs {
			render.NumCores = j.Workers
			if p.Staged {
				out[i] = j.step(j.open)
			}
		}
		done := make(chan int, len(p.Jobs))
		for i := range p.Jobs {
			one := func(i int) {
				j := p.Jobs[i]
				if p.Serial {
					render.NumCores = j.Workers
				}
				if !p.Staged {
					out[i] = j.step(j.open)
				}
				if out[i] == "" {
					out[i] = j.step(j.work)
				}
				if out[i] == "" {
					out[i] = j.step(j.write)
				}
				done <- i
			}
			if p.Serial {
				one(i)
			} else {
				go one(i)
			}
		}
		for range p.Jobs {
			<-done
		}
		return out
	}
}
