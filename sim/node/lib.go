package main

import (
	"fmt"
	"math"
)

// libOp is one call of one client. Obj names an object of its own.
type libOp struct {
	Obj     int
	Fn      string
	X, Y, Z []float64
	R       []float64
	N, M    int
	Lo, Hi  float64
}

type libRes struct {
	Panic string   `json:",omitempty"`
	Bits  []uint64 `json:",omitempty"`
}

func bits(xs []float64) []uint64 {
	out := make([]uint64, len(xs))
	for i, x := range xs {
		out[i] = math.Float64bits(x)
	}
	return out
}

func guarded(f func() []float64) (r libRes) {
	defer func() {
		if p := recover(); p != nil {
			r = libRes{Panic: fmt.Sprint(p)}
		}
	}()
	return libRes{Bits: bits(f())}
}

// clients runs every client in a goroutine of its own.
func clients(ops [][]libOp, f func(client int, o libOp) libRes) [][]libRes {
	out := make([][]libRes, len(ops))
	done := make(chan int, len(ops))
	for c := range ops {
		go func(c int) {
			for _, o := range ops[c] {
				out[c] = append(out[c], f(c, o))
			}
			done <- c
		}(c)
	}
	for range ops {
		<-done
	}
	return out
}
