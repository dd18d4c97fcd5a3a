// Package simrand stands in for math/rand inside the simulated code: the simulator's generator.
package simrand

import (
	"math/rand"

	"github.com/amarin/query/zz_verif/simrt"
)

type (
	Rand   = rand.Rand
	Source = rand.Source
)

type src struct{}

func (src) Int63() int64   { return int64(simrt.Random() >> 1) }
func (src) Uint64() uint64 { return simrt.Random() }
func (src) Seed(int64)     {}

var global = rand.New(src{})

func New(s Source) *Rand                 { return rand.New(s) }
func NewSource(seed int64) Source        { return rand.NewSource(seed) }
func Seed(int64)                         {}
func Int() int                           { return global.Int() }
func Intn(n int) int                     { return global.Intn(n) }
func Int31() int32                       { return global.Int31() }
func Int31n(n int32) int32               { return global.Int31n(n) }
func Int63() int64                       { return global.Int63() }
func Int63n(n int64) int64               { return global.Int63n(n) }
func Uint32() uint32                     { return global.Uint32() }
func Uint64() uint64                     { return global.Uint64() }
func Float64() float64                   { return global.Float64() }
func Float32() float32                   { return global.Float32() }
func Perm(n int) []int                   { return global.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { global.Shuffle(n, swap) }
