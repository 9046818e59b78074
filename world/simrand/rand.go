// Package simrand stands in for math/rand: the top-level functions draw from
// one seeded stream per run, and a source of one's own is a generator without
// any lock that can be interrupted between reading and writing its state.
package simrand

import (
	"math/rand"
	"simworld/rt"
)

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

type lib struct{}

func (lib) Uint64() uint64  { return rt.LibRand.U64() }
func (lib) Int63() int64    { return int64(rt.LibRand.U64() >> 1) }
func (lib) Seed(seed int64) { rt.SeedLib(seed) }

var g = rand.New(lib{})

type source struct{ r rt.Rng }

func (s *source) Uint64() uint64 {
	r := s.r
	x := r.U64()
	rt.Yield()
	s.r = r
	return x
}
func (s *source) Int63() int64    { return int64(s.Uint64() >> 1) }
func (s *source) Seed(seed int64) { s.r = rt.NewRng(rt.Mix(uint64(seed), 77)) }

func New(s rand.Source) *rand.Rand { return rand.New(s) }
func NewSource(seed int64) rand.Source {
	s := &source{}
	s.Seed(seed)
	return s
}
func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf { return rand.NewZipf(r, s, v, imax) }
func Seed(seed int64)                                  { rt.SeedLib(seed) }
func Uint32() uint32                                   { return g.Uint32() }
func Uint64() uint64                                   { return g.Uint64() }
func Int63() int64                                     { return g.Int63() }
func Int31() int32                                     { return g.Int31() }
func Int() int                                         { return g.Int() }
func Int63n(n int64) int64                             { return g.Int63n(n) }
func Int31n(n int32) int32                             { return g.Int31n(n) }
func Intn(n int) int                                   { return g.Intn(n) }
func Float64() float64                                 { return g.Float64() }
func Float32() float32                                 { return g.Float32() }
func NormFloat64() float64                             { return g.NormFloat64() }
func ExpFloat64() float64                              { return g.ExpFloat64() }
func Perm(n int) []int                                 { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int))               { g.Shuffle(n, swap) }
func Read(p []byte) (int, error)                       { return g.Read(p) }
