package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"strings"
)

// This file holds independent implementations of the file formats, written
// from their documentation; nothing here is shared with the code under test.

type Vec [3]float32

// ---------------------------------------------------------------- Gadget-2

type gadgetHeader struct {
	NPart                                     [6]uint32
	Mass                                      [6]float64
	Time, Redshift                            float64
	FlagSfr, FlagFeedback                     int32
	NPartTotal                                [6]uint32
	FlagCooling, NumFiles                     int32
	BoxSize, Omega0, OmegaLambda, HubbleParam float64
	FlagStellarAge, HashTabSize               int32
	Padding                                   [88]byte
}

type gadgetFile struct {
	hd           gadgetHeader
	xs, vs       [][3]float64
	ids          []int64
	x64, v64     bool
	idSize       int
	noTailMarker bool
}

func (g *gadgetFile) bytes(order binary.ByteOrder) []byte {
	b := &bytes.Buffer{}
	w := func(v interface{}) { check(binary.Write(b, order, v)) }
	w(int32(256))
	w(&g.hd)
	w(int32(256))
	vecs := func(v [][3]float64, dbl bool) {
		n := int32(12 * len(v))
		if dbl {
			n *= 2
		}
		w(n)
		if dbl {
			w(v)
		} else {
			f := make([]Vec, len(v))
			for i := range v {
				for k := 0; k < 3; k++ {
					f[i][k] = float32(v[i][k])
				}
			}
			w(f)
		}
		w(n)
	}
	vecs(g.xs, g.x64)
	vecs(g.vs, g.v64)
	w(int32(len(g.ids) * g.idSize / 8))
	if g.idSize == 64 {
		w(g.ids)
	} else {
		s := make([]int32, len(g.ids))
		for i := range s {
			s[i] = int32(g.ids[i])
		}
		w(s)
	}
	if !g.noTailMarker {
		w(int32(len(g.ids) * g.idSize / 8))
	}
	return b.Bytes()
}

// ---------------------------------------------------------------- sheets

type cosmoHeader struct{ Z, OmegaM, OmegaL, H100 float64 }

type sheetHeader struct {
	Cosmo                              cosmoHeader
	Count, CountWidth                  int64
	SegmentWidth, GridWidth, GridCount int64
	Idx, Cells                         int64
	Mass, TotalWidth                   float64
	Origin, Width                      Vec
	VelocityOrigin, VelocityWidth      Vec
}

const sheetHeaderSize = 4*8 + 7*8 + 2*8 + 4*12

func sheetBytes(h *sheetHeader, xs, vs []Vec, order binary.ByteOrder) []byte {
	b := &bytes.Buffer{}
	w := func(v interface{}) { check(binary.Write(b, order, v)) }
	if order == binary.ByteOrder(binary.LittleEndian) {
		w(int32(0))
	} else {
		w(int32(-1))
	}
	w(int32(sheetHeaderSize))
	w(h)
	w(xs)
	w(vs)
	return b.Bytes()
}

type sheet struct {
	hd     sheetHeader
	xs, vs []Vec
}

func parseSheet(b []byte) (*sheet, error) {
	if len(b) < 8+sheetHeaderSize {
		return nil, fmt.Errorf("segment file has only %d bytes", len(b))
	}
	var order binary.ByteOrder = binary.LittleEndian
	switch int32(binary.LittleEndian.Uint32(b)) {
	case 0:
	case -1:
		order = binary.BigEndian
	default:
		return nil, fmt.Errorf("segment file has byte order flag %x", b[:4])
	}
	if n := order.Uint32(b[4:]); n != sheetHeaderSize {
		return nil, fmt.Errorf("segment file declares a header of %d bytes", n)
	}
	s := &sheet{}
	r := bytes.NewReader(b[8:])
	check(binary.Read(r, order, &s.hd))
	n := s.hd.GridCount
	if n < 0 || n > 1<<24 || int64(len(b)) != 8+sheetHeaderSize+24*n {
		return nil, fmt.Errorf("segment file of %d bytes declares %d grid points", len(b), n)
	}
	s.xs, s.vs = make([]Vec, n), make([]Vec, n)
	check(binary.Read(r, order, s.xs))
	check(binary.Read(r, order, s.vs))
	return s, nil
}

// ---------------------------------------------------------------- .gtet

type gtetLoc struct {
	Origin, Span           [3]float64
	PixelOrigin, PixelSpan [3]int64
	PixelWidth             float64
}

type gtetHeader struct {
	EndiannessVersion                                                             uint64
	HeaderSize, GridType, IsVectorGrid                                            int64
	Redshift, ScaleFactor, OmegaM, OmegaL, Hubble, RhoMean, RhoCritical, BoxWidth float64
	Particles, TotalPixels, SubsampleLength, MinProjectionDepth, ProjectionAxis   int64
	Loc, Vel                                                                      gtetLoc
}

const gtetHeaderSize = 8 + 3*8 + 8*8 + 5*8 + 2*(13*8)

type gtet struct {
	hd   gtetHeader
	grid [][]float32 // one (scalar) or three (vector) planes
}

// pixels returns the number of values per component and the projected shape.
func (g *gtet) shape() [3]int {
	s := [3]int{}
	for k := 0; k < 3; k++ {
		s[k] = int(g.hd.Loc.PixelSpan[k])
	}
	if a := g.hd.ProjectionAxis; a >= 0 && a < 3 {
		s[a] = 1
	}
	return s
}

func parseGtet(b []byte) (*gtet, error) {
	if len(b) < gtetHeaderSize {
		return nil, fmt.Errorf("grid file has only %d bytes", len(b))
	}
	g := &gtet{}
	check(binary.Read(bytes.NewReader(b), binary.LittleEndian, &g.hd))
	if g.hd.HeaderSize != gtetHeaderSize {
		return nil, fmt.Errorf("grid file declares a header of %d bytes", g.hd.HeaderSize)
	}
	n := int64(1)
	for k, w := range g.hd.Loc.PixelSpan {
		if w <= 0 || w > 1<<16 {
			return nil, fmt.Errorf("grid file has pixel span %v", g.hd.Loc.PixelSpan)
		}
		if int64(k) != g.hd.ProjectionAxis {
			n *= w
		}
	}
	planes := int64(1)
	if g.hd.IsVectorGrid == 1 {
		planes = 3
	} else if g.hd.IsVectorGrid != 0 {
		return nil, fmt.Errorf("grid file has vector flag %d", g.hd.IsVectorGrid)
	}
	if int64(len(b)) != gtetHeaderSize+4*n*planes {
		return nil, fmt.Errorf("grid file has %d bytes; its header (span %v, axis %d, vector %d) describes %d",
			len(b), g.hd.Loc.PixelSpan, g.hd.ProjectionAxis, g.hd.IsVectorGrid, gtetHeaderSize+4*n*planes)
	}
	r := bytes.NewReader(b[gtetHeaderSize:])
	for i := int64(0); i < planes; i++ {
		p := make([]float32, n)
		check(binary.Read(r, binary.LittleEndian, p))
		g.grid = append(g.grid, p)
	}
	return g, nil
}

func gtetBytes(g *gtet) []byte {
	b := &bytes.Buffer{}
	g.hd.HeaderSize = gtetHeaderSize
	check(binary.Write(b, binary.LittleEndian, &g.hd))
	for _, p := range g.grid {
		check(binary.Write(b, binary.LittleEndian, p))
	}
	return b.Bytes()
}

// version and byte order flag of version 2 files: the version minus one and
// its bit reversal, inverted in little endian files.
const gtetVersionFlagLE = ^uint64(1 | 1<<63)

// ---------------------------------------------------------------- .txt

type histRow struct {
	center string
	count  int
}

// parseHist parses a histogram output file.
func parseHist(b []byte) ([]histRow, error) {
	var rows []histRow
	s := string(b)
	if s != "" && !strings.HasSuffix(s, "\n") {
		return nil, fmt.Errorf("histogram file ends in an unterminated line")
	}
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		f := strings.Fields(l)
		if len(f) != 2 {
			return nil, fmt.Errorf("histogram line %q", l)
		}
		var n int
		if _, err := fmt.Sscanf(f[1], "%d", &n); err != nil {
			return nil, fmt.Errorf("histogram line %q", l)
		}
		rows = append(rows, histRow{f[0], n})
	}
	return rows, nil
}

func closeTo(a, b, rel float64) bool {
	if a == b {
		return true
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}
	return math.Abs(a-b) <= rel*math.Max(math.Abs(a), math.Abs(b))
}
