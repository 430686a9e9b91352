// Package table stands in for github.com/phil-mansfield/table, which is not
// available offline: it reads columns of a whitespace separated text file.
package table

import (
	"fmt"
	"os"
	"strconv"
	"strings"
)

type TextConfig struct {
	Separator, Comment   byte
	SkipLines, ColumnLen int
}

// ReadTable returns the given columns of a text file. Everything from a # to
// the end of a line is ignored, and so are empty lines.
func ReadTable(file string, colIdxs []int, config *TextConfig) ([][]float64, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	out := make([][]float64, len(colIdxs))
	for i := range out {
		out[i] = []float64{}
	}
	for n, l := range strings.Split(string(b), "\n") {
		if i := strings.IndexByte(l, '#'); i >= 0 {
			l = l[:i]
		}
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		for i, c := range colIdxs {
			if c < 0 || c >= len(f) {
				return nil, fmt.Errorf("line %d of %s has no column %d", n+1, file, c)
			}
			v, err := strconv.ParseFloat(f[c], 64)
			if err != nil {
				return nil, fmt.Errorf("line %d of %s: %v", n+1, file, err)
			}
			out[i] = append(out[i], v)
		}
	}
	return out, nil
}
