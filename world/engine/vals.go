package engine

import (
	"simworld/rt"
	"sort"
)

// Vals says how a sequence of integers is made.
type Vals struct {
	Seed   uint64 `json:"seed"`
	Prof   int    `json:"prof"`
	Sorted bool   `json:"sorted,omitempty"`
	Tweak  uint64 `json:"tweak,omitempty"` // some integers altered afterwards, the ends excepted
}

const nProf = 14

var edges = []uint32{0, 1, 2, 0x7f, 0x80, 0xfe, 0xff, 0x100, 0x101, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff, 0x10000, 0x10001,
	0x10100, 0x7fffff, 0x800000, 0xff0000, 0xff00ff, 0xfffffe, 0xffffff, 0x1000000, 0x1000001, 0x1000100, 0x1010000, 0x7f000000, 0x7fffffff,
	0x80000000, 0x80000001, 0xff000000, 0xff0000ff, 0xffff0000, 0xfffffffe, 0xffffffff}

func rndLen(r *rt.Rng, n int) uint32 {
	switch n {
	case 1:
		return r.U32() >> 24
	case 2:
		return 0x100 + r.U32()%(0x10000-0x100)
	case 3:
		return 0x10000 + r.U32()%(0x1000000-0x10000)
	}
	return 0x1000000 + r.U32()%0xff000000
}

// Make returns n integers.
func (v Vals) Make(n int) []uint32 {
	out := v.make(n)
	if v.Tweak != 0 && n > 2 {
		r := rt.NewRng(v.Tweak)
		for k := r.Intn(3); k >= 0; k-- {
			i := 1 + r.Intn(n-2)
			if v.Sorted {
				if lo, hi := out[i-1], out[i+1]; lo <= hi {
					out[i] = lo + uint32(r.U64()%(uint64(hi-lo)+1))
				}
			} else if r.Bool(0.5) {
				out[i] ^= 1 << uint(r.Intn(8)) // most likely as long as before
			} else {
				out[i] = rndLen(&r, 1+r.Intn(4))
			}
		}
	}
	return out
}

func (v Vals) make(n int) []uint32 {
	r := rt.NewRng(v.Seed)
	out := make([]uint32, n)
	if v.Prof%nProf == 11 { // stretches of unlike kinds
		for i := 0; i < n; {
			w := Vals{Seed: r.U64(), Prof: r.Intn(11)}
			l := 4 * (1 + r.Intn(16))
			if r.Bool(0.2) {
				l = 1 + r.Intn(60)
			}
			if l > n-i {
				l = n - i
			}
			copy(out[i:], w.make(l))
			i += l
		}
		if v.Sorted {
			sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
		}
		return out
	}
	period := make([]uint32, 1+r.Intn(9))
	for i := range period {
		period[i] = rndLen(&r, 1+r.Intn(4))
	}
	c := rndLen(&r, 1+r.Intn(4))
	step := r.U32() >> uint(r.Intn(32))
	grp := [4]int{}
	for i := range out {
		switch v.Prof % nProf {
		case 0:
			out[i] = rndLen(&r, 1+r.Intn(4))
		case 1:
			out[i] = rndLen(&r, 1)
		case 2:
			out[i] = rndLen(&r, 4)
		case 3:
			out[i] = edges[r.Intn(len(edges))]
		case 4:
			out[i] = 1 << uint(r.Intn(32))
			if r.Bool(0.5) {
				out[i] |= 1 << uint(r.Intn(32))
			}
		case 5:
			out[i] = r.U32() & 0xff000000 >> uint(8*r.Intn(4))
			if r.Bool(0.3) {
				out[i] |= r.U32() & 0xff
			}
		case 6:
			out[i] = c
		case 7:
			out[i] = c + uint32(i)*step
		case 8:
			if i%4 == 0 {
				for k := range grp {
					grp[k] = 1 + r.Intn(4)
				}
			}
			out[i] = rndLen(&r, grp[i%4])
		case 9:
			out[i] = rndLen(&r, 2+r.Intn(2))
		case 12: // periodic
			out[i] = period[i%len(period)]
		case 13: // differences of chosen lengths, in either direction
			d := rndLen(&r, 1+r.Intn(4))
			if r.Bool(0.2) {
				d = -d
			}
			if i > 0 {
				d += out[i-1]
			}
			out[i] = d
		case 10:
			if r.Bool(0.9) {
				out[i] = rndLen(&r, 1)
			} else {
				out[i] = rndLen(&r, 4)
			}
		}
	}
	if v.Sorted {
		sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	}
	return out
}

// GenVals draws a value profile.
func GenVals(r *rt.Rng) Vals {
	p := r.Intn(nProf)
	if r.Bool(0.3) {
		p = 0
	}
	return Vals{Seed: r.U64(), Prof: p, Sorted: r.Bool(0.4)}
}

// GenPrev draws a delta base.
func GenPrev(r *rt.Rng) uint32 {
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return edges[r.Intn(len(edges))]
	}
	return rndLen(r, 1+r.Intn(4))
}

// GenN draws a count of at most max.
func GenN(r *rt.Rng, max int) int {
	n := 0
	switch {
	case r.Bool(0.5):
		n = r.Intn(41)
	case r.Bool(0.4):
		n = 41 + r.Intn(160)
	case r.Bool(0.5):
		n = 1<<uint(3+r.Intn(9)) + r.Intn(11) - 5
	default:
		// log-uniform
		lim := 1
		for m := max; m > 1; m >>= 1 {
			lim++
		}
		n = int(r.U64() % (1 << uint(1+r.Intn(lim))))
	}
	if n < 0 {
		n = 0
	}
	if n > max {
		n %= max + 1
	}
	return n
}
