// Package rand is math/rand/v2 with the global source owned by the simulator.
package rand

import (
	"math/rand/v2"

	"verifsim/simrt"
)

type (
	Rand   = rand.Rand
	Source = rand.Source
	PCG    = rand.PCG
)

type src struct{}

func (src) Uint64() uint64 { return simrt.AuxUint64() }

var g = rand.New(src{})

func New(s Source) *Rand                 { return rand.New(s) }
func NewPCG(a, b uint64) *PCG            { return rand.NewPCG(a, b) }
func Int() int                           { return g.Int() }
func IntN(n int) int                     { return g.IntN(n) }
func Int64() int64                       { return g.Int64() }
func Int64N(n int64) int64               { return g.Int64N(n) }
func Int32N(n int32) int32               { return g.Int32N(n) }
func Uint32() uint32                     { return g.Uint32() }
func Uint64() uint64                     { return g.Uint64() }
func Float64() float64                   { return g.Float64() }
func Perm(n int) []int                   { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g.Shuffle(n, swap) }
