package engine

import (
	"fmt"
	"math"
	"sort"
	"unsafe"

	"simworld/rt"
)

// Draw is a run in which tasks draw random test numbers.
type Draw struct {
	Per int `json:"numbersPerCaller"` // every task repeats its calls until it has drawn that many
}

// tally counts drawn numbers.
type tally struct {
	n    int64
	lens [4]int64
	next [16]int64         // length and length of the number drawn before by the same caller
	low  [4 * 16 * 4]int64 // length and lowest bits of the number before, and length
	one  [256]int64
	part [4][256]int64
	at   [len(marks)]int64
}

// marks are the numbers at the borders of the ranges.
var marks = [...]uint32{0, 1, 127, 128, 254, 255, 256, 257, 511, 512, 65534, 65535, 65536, 65537, 1<<24 - 1, 1 << 24, 1<<24 + 1, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1}

var (
	lenLow  = [4]uint64{0, 1 << 8, 1 << 16, 1 << 24}
	lenSize = [4]uint64{1 << 8, 1<<16 - 1<<8, 1<<24 - 1<<16, 1<<32 - 1<<24}
)

func lenOf(v uint32) int {
	switch {
	case v < 1<<8:
		return 0
	case v < 1<<16:
		return 1
	case v < 1<<24:
		return 2
	}
	return 3
}

func (t *tally) add(v uint32, prev int64) {
	t.n++
	l := lenOf(v)
	t.lens[l]++
	if prev >= 0 {
		p := lenOf(uint32(prev))
		t.next[p*4+l]++
		t.low[(p*16+int(prev&15))*4+l]++
	}
	if l == 0 {
		t.one[v]++
	}
	t.part[l][(uint64(v)-lenLow[l])*256/lenSize[l]]++
	// the marks are close to powers of 256, or to 128 and 2^31
	if w := v + 2; w&0xff <= 4 || v>>7 <= 4 || v>>16 == 0x7fff || v>>16 == 0x8000 {
		for i, m := range marks {
			if v == m {
				t.at[i]++
			}
		}
	}
}

// few reports that k hits are too many to believe with mean at most m: the
// chance is below 1e-13.
func few(k int64, m float64) bool {
	if float64(k) <= m || k < 2 {
		return true
	}
	// Chernoff: P(X >= k) <= exp(-m) (e m / k)^k
	return -m+float64(k)*(1+math.Log(m/float64(k))) > math.Log(1e-13)
}

// off reports that a count is further from its mean than chance explains.
func off(c int64, n int64, p float64) bool {
	e := float64(n) * p
	return math.Abs(float64(c)-e) > 8*math.Sqrt(e*(1-p))+8
}

func (t *tally) judge(who string) string {
	for l, c := range t.lens {
		if off(c, t.n, 0.25) {
			return fmt.Sprintf("%s: %d of %d numbers take %d bytes; expected is one in four", who, c, t.n, l+1)
		}
	}
	var pairs int64
	for _, c := range t.next {
		pairs += c
	}
	for i, c := range t.next {
		if off(c, pairs, 1./16) {
			return fmt.Sprintf("%s: %d of %d numbers that follow a number of %d bytes take %d bytes; expected is one in four", who, c, t.next[i/4*4]+t.next[i/4*4+1]+t.next[i/4*4+2]+t.next[i/4*4+3], i/4+1, i%4+1)
		}
	}
	uneven := func(c int64, e float64) bool {
		return float64(c) > 2.2*e+8*math.Sqrt(e)+8 || float64(c) < 0.4*e-8*math.Sqrt(e)-1
	}
	for i := 0; i < len(t.low); i += 4 {
		c := t.low[i : i+4]
		for l := range c {
			if n := c[0] + c[1] + c[2] + c[3]; off(c[l], n, 0.25) {
				return fmt.Sprintf("%s: %d of %d numbers that follow a number of %d bytes with the low bits %04b take %d bytes; expected is one in four", who, c[l], n, i/64+1, i/4%16, l+1)
			}
		}
	}
	e := float64(t.n) / 4 / 256
	for v, c := range t.one {
		if uneven(c, e) || c == 0 && e > 60 {
			return fmt.Sprintf("%s: the number %d came %d times in %d draws", who, v, c, t.n)
		}
	}
	for l := range t.part {
		for i, c := range t.part[l] {
			if uneven(c, e) {
				return fmt.Sprintf("%s: %d of %d numbers of %d bytes lie in part %d of 256 of their range", who, c, t.lens[l], l+1, i+1)
			}
		}
	}
	for i, c := range t.at {
		m := marks[i]
		if l := lenOf(m); !few(c, 2*float64(t.n)/4/float64(lenSize[l])) {
			return fmt.Sprintf("%s: the number %d came %d times in %d draws", who, m, c, t.n)
		}
	}
	return ""
}

// copies judges how often the same number was drawn again.
func copies(who string, all []uint32) string {
	s := append([]uint32(nil), all...)
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	var n, pairs [4]float64
	for i := 0; i < len(s); {
		j := i
		for j < len(s) && s[j] == s[i] {
			j++
		}
		l := lenOf(s[i])
		c := float64(j - i)
		n[l] += c
		pairs[l] += c * (c - 1) / 2
		i = j
	}
	for l := 1; l < 4; l++ {
		e := n[l] * n[l] / 2 / float64(lenSize[l])
		if pairs[l] > 2.2*e+10*math.Sqrt(e)+6 {
			return fmt.Sprintf("%s: among %d numbers of %d bytes %d pairs are equal; chance gives about %.1f", who, int64(n[l]), l+1, int64(pairs[l]), e)
		}
	}
	return ""
}

type drawn struct {
	by   map[string]*tally // per task and per function
	mine [][][]uint32      // what GenUint32 has returned, by task
	sums [][]uint64
	all  []uint32
}

const (
	firstOf = "first number of a call of GenUint32"
	lastOf  = "last number of a call of GenUint32"
)

const copiesMax = 600000

func (r *run) drawTask(ti int) {
	t := &r.sp.Tasks[ti]
	d := r.draw
	ty := &tally{}
	d.by[fmt.Sprintf("caller %d", ti)] = ty
	k, prev := 0, int64(-1)
	take := func(fn string, v uint32) {
		ty.add(v, prev)
		prev = int64(v)
		d.by[fn].add(v, -1)
		if len(d.all) < copiesMax {
			d.all = append(d.all, v)
		}
	}
	for round := 0; round == 0 || round < 20000 && ty.n < int64(r.sp.Draw.Per); round++ {
		for i := range t.Ops {
			o := &t.Ops[i]
			a := &Nodes[o.Node]
			r.st[ti].cur = desc(k, o)
			r.c.Ops++
			r.c.Fn[o.F]++
			rt.Begin(k, 50000+1000*int64(o.N), "takes more statements than drawing that many numbers can need: "+r.st[ti].cur)
			switch o.F {
			case "RandUint32":
				var v uint32
				for j := 0; j < o.N; j++ {
					r.must(o, func() { v = a.Rand() })
					take(o.F, v)
				}
			case "GenUint32":
				var v []uint32
				r.must(o, func() { v = a.Gen(o.N) })
				if len(v) != o.N {
					r.bad("wrong", "asked for %d numbers, got %d", o.N, len(v))
				}
				for _, x := range v {
					take(o.F, x)
				}
				if o.N > 1 {
					d.by[firstOf].add(v[0], -1)
					d.by[lastOf].add(v[o.N-1], -1)
				}
				d.mine[ti] = append(d.mine[ti], v)
				d.sums[ti] = append(d.sums[ti], hashBytes(rt.U8(v)))
			}
			rt.End()
			k++
		}
	}
	r.st[ti].cur = ""
	if s := ty.judge("one caller"); s != "" {
		r.bad("unfit", "%s", s)
	}
}

func (d *drawn) final() (string, string) {
	type span struct{ lo, hi uintptr }
	var sp []span
	for t := range d.mine {
		for i, v := range d.mine[t] {
			if hashBytes(rt.U8(v)) != d.sums[t][i] {
				return "disturbed", fmt.Sprintf("numbers returned by call %d of task%d have changed", i, t)
			}
			if cap(v) > 0 {
				lo := uintptr(unsafe.Pointer(&v[:1][0]))
				sp = append(sp, span{lo, lo + 4*uintptr(cap(v))})
			}
		}
	}
	sort.Slice(sp, func(i, j int) bool { return sp[i].lo < sp[j].lo })
	for i := 1; i < len(sp); i++ {
		if sp[i].lo < sp[i-1].hi {
			return "shared", "two calls of GenUint32 have returned the same memory"
		}
	}
	sum := tally{}
	for _, fn := range []string{firstOf, lastOf, "RandUint32", "GenUint32"} {
		t := d.by[fn]
		if s := t.judge(fn); s != "" {
			return "unfit", s
		}
		if fn == firstOf || fn == lastOf {
			continue
		}
		sum.n += t.n
		for i := range t.at {
			sum.at[i] += t.at[i]
		}
		for i := range t.one {
			sum.one[i] += t.one[i]
		}
		for l := range t.part {
			sum.lens[l] += t.lens[l]
			for i := range t.part[l] {
				sum.part[l][i] += t.part[l][i]
			}
		}
	}
	if s := sum.judge("all callers"); s != "" {
		return "unfit", s
	}
	if s := copies("all callers", d.all); s != "" {
		return "unfit", s
	}
	return "", ""
}
