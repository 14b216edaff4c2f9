// Package simrand stands in for math/rand in the code under test.
package simrand

import (
	"math/rand"

	"verif.local/sim/simrt"
)

type Rand = rand.Rand
type Source = rand.Source

var g = simrt.NewRNG(1)

// Reset makes what follows depend on the seed alone.
//
//go:noinline
func Reset(seed uint64) { g = simrt.NewRNG(seed) }

//go:noinline
func New(s Source) *Rand { return rand.New(s) }

//go:noinline
func NewSource(int64) Source { return rand.NewSource(int64(g.U64() >> 1)) }

//go:noinline
func Seed(int64) {}

//go:noinline
func Int() int { return int(g.U64() >> 1) }

//go:noinline
func Intn(n int) int { return g.N(n) }

//go:noinline
func IntN(n int) int { return g.N(n) }

//go:noinline
func N(n int) int { return g.N(n) }

//go:noinline
func Int63() int64 { return int64(g.U64() >> 1) }

//go:noinline
func Int63n(n int64) int64 { return int64(g.U64()>>1) % n }

//go:noinline
func Int31n(n int32) int32 { return int32(g.N(int(n))) }

//go:noinline
func Int31() int32 { return int32(g.U64() >> 33) }

//go:noinline
func Uint32() uint32 { return uint32(g.U64() >> 32) }

//go:noinline
func Uint64() uint64 { return g.U64() }

//go:noinline
func Float64() float64 { return g.F() }

//go:noinline
func Perm(n int) []int { return g.Perm(n) }

//go:noinline
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, g.N(i+1))
	}
}

//go:noinline
func Int64() int64 { return int64(g.U64() >> 1) }

//go:noinline
func Int64N(n int64) int64 { return int64(g.U64()>>1) % n }

//go:noinline
func Int32() int32 { return int32(g.U64() >> 33) }

//go:noinline
func Int32N(n int32) int32 { return int32(g.N(int(n))) }

//go:noinline
func Uint32N(n uint32) uint32 { return uint32(g.U64() % uint64(n)) }

//go:noinline
func Uint64N(n uint64) uint64 { return g.U64() % n }

//go:noinline
func UintN(n uint) uint { return uint(g.U64() % uint64(n)) }

//go:noinline
func Float32() float32 { return float32(g.F()) }
