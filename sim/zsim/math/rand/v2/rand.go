// Package rand draws from the simulation's generator.
package rand

import (
	real "math/rand/v2"

	simrt "github.com/bazelbuild/buildtools/zsim/simrt"
)

type src struct{}

func (src) Uint64() uint64 { return simrt.Rand() }

var g = real.New(src{})

func Int() int                           { return g.Int() }
func IntN(n int) int                     { return g.IntN(n) }
func Int64() int64                       { return g.Int64() }
func Int64N(n int64) int64               { return g.Int64N(n) }
func Int32() int32                       { return g.Int32() }
func Int32N(n int32) int32               { return g.Int32N(n) }
func Uint32() uint32                     { return g.Uint32() }
func Uint64() uint64                     { return g.Uint64() }
func Float64() float64                   { return g.Float64() }
func Float32() float32                   { return g.Float32() }
func Perm(n int) []int                   { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g.Shuffle(n, swap) }
