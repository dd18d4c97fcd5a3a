// Package simrand2 stands in for math/rand/v2 inside the simulated code: the simulator's generator.
package simrand2

import (
	"math/rand/v2"

	"github.com/amarin/query/zz_verif/simrt"
)

type (
	Rand    = rand.Rand
	Source  = rand.Source
	PCG     = rand.PCG
	ChaCha8 = rand.ChaCha8
	Zipf    = rand.Zipf
)

type src struct{}

func (src) Uint64() uint64 { return simrt.Random() }

var global = rand.New(src{})

func New(s Source) *Rand                 { return rand.New(s) }
func NewPCG(a, b uint64) *PCG            { return rand.NewPCG(a, b) }
func NewChaCha8(seed [32]byte) *ChaCha8  { return rand.NewChaCha8(seed) }
func Int() int                           { return global.Int() }
func IntN(n int) int                     { return global.IntN(n) }
func Int32() int32                       { return global.Int32() }
func Int32N(n int32) int32               { return global.Int32N(n) }
func Int64() int64                       { return global.Int64() }
func Int64N(n int64) int64               { return global.Int64N(n) }
func Uint32() uint32                     { return global.Uint32() }
func Uint32N(n uint32) uint32            { return global.Uint32N(n) }
func Uint64() uint64                     { return global.Uint64() }
func Uint64N(n uint64) uint64            { return global.Uint64N(n) }
func UintN(n uint) uint                  { return global.UintN(n) }
func Float64() float64                   { return global.Float64() }
func Float32() float32                   { return global.Float32() }
func Perm(n int) []int                   { return global.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { global.Shuffle(n, swap) }

// N is a random number below n.
func N[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n T) T {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return T(global.Uint64N(uint64(n)))
}
