// Package simrand2 stands in for math/rand/v2 as simrand does for math/rand.
package simrand2

import (
	"math/rand/v2"
	"simworld/rt"
)

type (
	Rand   = rand.Rand
	Source = rand.Source
	Zipf   = rand.Zipf
)

type lib struct{}

func (lib) Uint64() uint64 { return rt.LibRand.U64() }

var g = rand.New(lib{})

// PCG and ChaCha8 can be interrupted between reading and writing their state.
type PCG struct{ r rt.Rng }

func (s *PCG) Uint64() uint64 {
	r := s.r
	x := r.U64()
	rt.Yield()
	s.r = r
	return x
}
func (s *PCG) Seed(a, b uint64) { s.r = rt.NewRng(rt.Mix(a, b)) }

type ChaCha8 struct{ PCG }

func NewPCG(a, b uint64) *PCG { return &PCG{rt.NewRng(rt.Mix(a, b))} }
func NewChaCha8(seed [32]byte) *ChaCha8 {
	h := uint64(3)
	for _, b := range seed {
		h = rt.Mix(h, uint64(b))
	}
	return &ChaCha8{PCG{rt.NewRng(h)}}
}

func New(s Source) *Rand                               { return rand.New(s) }
func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf { return rand.NewZipf(r, s, v, imax) }
func Uint32() uint32                                   { return g.Uint32() }
func Uint64() uint64                                   { return g.Uint64() }
func Uint() uint                                       { return g.Uint() }
func Int64() int64                                     { return g.Int64() }
func Int32() int32                                     { return g.Int32() }
func Int() int                                         { return g.Int() }
func Int64N(n int64) int64                             { return g.Int64N(n) }
func Int32N(n int32) int32                             { return g.Int32N(n) }
func IntN(n int) int                                   { return g.IntN(n) }
func Uint64N(n uint64) uint64                          { return g.Uint64N(n) }
func Uint32N(n uint32) uint32                          { return g.Uint32N(n) }
func UintN(n uint) uint                                { return g.UintN(n) }
func Float64() float64                                 { return g.Float64() }
func Float32() float32                                 { return g.Float32() }
func NormFloat64() float64                             { return g.NormFloat64() }
func ExpFloat64() float64                              { return g.ExpFloat64() }
func Perm(n int) []int                                 { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int))               { g.Shuffle(n, swap) }

// N is rand.N.
func N[T interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n T) T {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return T(g.Uint64N(uint64(n)))
}
