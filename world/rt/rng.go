package rt

import "math"

// Rng is splitmix64: small, fast and the same everywhere.
type Rng struct{ s uint64 }

func NewRng(seed uint64) Rng { return Rng{seed*0x9E3779B97F4A7C15 + 0x1234567} }

func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *Rng) U32() uint32 { return uint32(r.U64() >> 32) }
func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) Float() float64      { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rng) Bool(p float64) bool { return r.Float() < p }
func (r *Rng) Exp() float64        { return -math.Log(1 - r.Float()) }
func (r *Rng) Pick(v ...int) int   { return v[r.Intn(len(v))] }

// Mix derives a seed from parts.
func Mix(parts ...uint64) uint64 {
	h := uint64(0x51_7c_c1_b7_27_22_0a_95)
	for _, p := range parts {
		r := Rng{h ^ p}
		h = r.U64()
	}
	return h
}
