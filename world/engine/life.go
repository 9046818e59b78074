package engine

import (
	"runtime"
	"sort"

	"simworld/ref"
	"simworld/rt"
)

// Life is a long history of one process: rounds of calls by all tasks, and a
// look at what the library keeps after each. All memory the calls are given is
// ordinary memory of the process, so that whatever the library still refers to
// stays alive.
type Life struct {
	Per int    `json:"callsPerRound"`  // of every task
	Big int    `json:"big,omitempty"`  // log2 of the length of two very long calls at the end
	Fn  string `json:"bigF,omitempty"` // what is called with it
}

const (
	lifeRounds = 8
	leakBytes  = 2 << 10   // growth over half of the rounds that is looked into
	bigBytes   = 256 << 10 // what a very long call may leave behind more than one an eighth as long
	allocSlack = 4 << 20
)

type life struct {
	at      []int // rounds each task has finished
	round   int   // rounds that are over
	rounds  int   // rounds to do
	mem     []int64
	tasks   []int
	samples int
	alloc   int64 // allocated by the calls looked at
	allowed int64
	k       []int
}

func (r *run) lifeTask(ti int) {
	l := r.life
	t := &r.sp.Tasks[ti]
	for {
		if len(t.Ops) > 0 {
			for i := 0; i < r.sp.Life.Per; i++ {
				o := t.Ops[l.k[ti]%len(t.Ops)]
				o.V.Seed = rt.Mix(o.V.Seed, uint64(l.k[ti]))
				if o.N > 1 {
					o.N = int(rt.Mix(o.V.Seed, 3) % uint64(2*o.N))
				}
				if o.Bad != "" {
					r.c.Ops++
					r.st[ti].cur = desc(l.k[ti], &o)
					r.badOp(ti, l.k[ti], &o, fnByName[o.F])
				} else {
					r.lifeOp(ti, l.k[ti], &o, r.serial() && i%37 == 5)
				}
				l.k[ti]++
			}
		}
		r.st[ti].cur = ""
		l.at[ti]++
		round := l.at[ti]
		all := true
		for _, n := range l.at {
			all = all && n >= round
		}
		if all {
			r.endRound()
			l.round = round
		} else {
			rt.Block(func() bool { return l.round >= round })
		}
		if l.round >= l.rounds {
			break
		}
	}
	if ti == 0 && r.sp.Life.Big > 0 {
		r.bigCalls()
	}
}

func (r *run) serial() bool { return r.sp.Pol.Mode == "serial" }

// endRound looks at what is left when no call is in progress.
func (r *run) endRound() {
	l := r.life
	// what the library started for its calls may take its time to end
	r.settle()
	l.mem = append(l.mem, r.kept())
	l.tasks = append(l.tasks, r.s.LibAlive())
	n := len(l.mem)
	if n < l.rounds {
		return
	}
	h := n / 2
	if d := l.tasks[n-1] - l.tasks[h-1]; d >= 4 && l.tasks[h-1] > l.tasks[h/2] {
		if l.rounds < 4*lifeRounds {
			l.rounds *= 2
			return
		}
		r.bad("leak", "goroutines or timers the library started for calls that have returned do not end; their number grows with the number of calls")
	}
	if l.mem[n-1]-l.mem[h-1] > leakBytes {
		if l.rounds < 32*lifeRounds {
			// A cache or a table that fills up has an end; a leak has none.
			l.rounds *= 2
			r.probe("more memory in use after some rounds; looked into")
			return
		}
		grown := func(n int) int64 { return l.mem[n-1] - l.mem[n/2-1] }
		for i := n; i > lifeRounds; i /= 2 {
			if grown(i) <= leakBytes {
				return
			}
		}
		if 5*grown(n) < 6*grown(n/2) { // twice as many calls, less than twice as much
			return
		}
		r.bad("leak", "the memory the library keeps alive after its calls have returned grows with the number of calls")
	}
	if l.samples >= 64 && l.alloc > l.allowed+allocSlack {
		r.bad("leak", "calls allocate more memory than is in proportion to their size")
	}
}

// settle lets what the library has started run until it ends or waits.
func (r *run) settle() {
	end := rt.Now() + 1000000
	rt.Settling = true
	defer func() { rt.Settling = false }()
	rt.Block(func() bool { return !r.s.LibRunnable() || rt.Now() > end })
}

// kept is the memory that is in use with no call in progress.
func (r *run) kept() int64 {
	if n := rt.Collect(); n > 0 {
		r.c.Fault["garbage collection that ran finalizers"]++
		r.settle()
	}
	rt.DropPools()
	r.c.Fault["garbage collection"]++
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc) - r.s.Own()
}

// bigCalls makes three very long calls, the last ones eight times as long as
// the first.
func (r *run) bigCalls() {
	f, ok := fnByName[r.sp.Life.Fn]
	if !ok {
		return
	}
	l := r.life
	call := func(n int) {
		o := Op{F: f.Name, Node: r.sp.Tasks[0].Ops[0].Node, N: n, V: Vals{Seed: r.sp.Seed}}
		l.k[0]++
		r.st[0].cur = desc(l.k[0], &o)
		r.lifeOp(0, l.k[0], &o, true)
	}
	a0, w0 := l.alloc, l.allowed
	call(1 << uint(r.sp.Life.Big-3))
	small := r.kept()
	call(1 << uint(r.sp.Life.Big))
	big := r.kept()
	if big-small > bigBytes {
		r.bad("leak", "the memory the library keeps alive after a call has returned is in proportion to the size of the call")
	}
	if l.alloc-a0 > l.allowed-w0+allocSlack {
		r.bad("leak", "a very long call allocates more memory than is in proportion to its size")
	}
	r.probe("very long calls looked into")
}

var drawFns = map[string]Fn{"RandUint32": {Name: "RandUint32", Kind: "Rand"}, "GenUint32": {Name: "GenUint32", Kind: "Gen"}}

// marathon makes a great number of short calls: enough for a counter of 8 or 16
// bits to start over. What one call leaves behind may matter exactly so many
// calls later, so that most of the time nearly all calls in between are the same.
func (r *run) marathon(ti, k int, o *Op) {
	rnd := rt.NewRng(o.V.Seed ^ 77)
	q := Op{F: o.F, Node: o.Node}
	lap, edge := o.Times, o.Times
	if rnd.Bool(0.7) {
		lap += rnd.Intn(9) - 2
		edge = 1 + rnd.Intn(12)
		if rnd.Bool(0.2) {
			edge = 1 + rnd.Intn(o.Times/3+1)
		}
	}
	n := 3 * o.Times
	if o.Times < 1000 {
		n = 20 * o.Times
	}
	kinds := []int{rnd.Intn(nProf), rnd.Intn(nProf), rnd.Intn(nProf)}
	max := 4 + rnd.Intn(12)
	for i := 0; i < n; i++ {
		if p := i % lap; p <= edge {
			q.V = Vals{Seed: rnd.U64(), Prof: kinds[rnd.Intn(3)]}
			q.N = rnd.Intn(max)
			q.Prev = o.Prev
			if rnd.Bool(0.1) {
				q.Prev = rnd.U32()
			}
		}
		r.lifeOp(ti, k, &q, false)
	}
	if o.Times < 1000 {
		r.c.Fault["calls enough for an 8-bit counter to start over"]++
	} else {
		r.c.Fault["calls enough for a 16-bit counter to start over"]++
	}
	r.st[ti].cur = desc(k, o)
}

// lifeOp makes one call with ordinary memory and drops all of it.
func (r *run) lifeOp(ti, k int, o *Op, sample bool) {
	f := fnByName[o.F]
	if f.Kind == "" {
		f = drawFns[o.F]
	}
	r.st[ti].cur = desc(k, o)
	r.c.Ops++
	if f.Kind != "Rand" && f.Kind != "Gen" && !r.usable(o, f) {
		r.c.Skipped++
		return
	}
	r.c.Fn[o.F]++
	a := &Nodes[o.Node]
	n := o.N
	switch f.Kind {
	case "P8", "P8D", "P4", "P4D", "PN", "PND", "G8", "G8D", "G4", "G4D", "GN", "GND":
		n = blockN(f.Kind, n)
	}
	nums := o.V.Make(n)
	src := nums
	if f.Delta {
		src = ref.Deltas(nums, o.Prev)
	}
	var (
		enc  []byte
		got  []byte
		outv []uint32
		fn   func()
	)
	block := func() (uint16, []byte) {
		c, d := ref.Split(src)
		var ctrl uint16
		for i, x := range c {
			ctrl |= uint16(x) << (8 * uint(i))
		}
		return ctrl, d
	}
	switch f.Kind {
	case "E":
		enc = ref.Encode(src)
		fn = func() { got = a.E[o.F](nums) }
	case "ED":
		enc = ref.Encode(src)
		fn = func() { got = a.ED[o.F](nums, o.Prev) }
	case "D":
		s := ref.Encode(src)
		outv = make([]uint32, n)
		fn = func() { a.D[o.F](n, s, outv) }
	case "DD":
		s := ref.Encode(src)
		outv = make([]uint32, n)
		fn = func() { a.DD[o.F](n, s, outv, o.Prev) }
	case "P8", "P8D", "P4", "P4D", "PN", "PND":
		_, enc = block()
		buf := make([]byte, 32)
		got = buf[:len(enc)]
		fn = func() {
			switch f.Kind {
			case "P8":
				a.P8[o.F](nums, buf)
			case "P8D":
				a.P8D[o.F](nums, buf, o.Prev)
			case "P4":
				a.P4[o.F](nums, buf)
			case "P4D":
				a.P4D[o.F](nums, buf, o.Prev)
			case "PN":
				a.PN[o.F](nums, buf, n)
			case "PND":
				a.PND[o.F](nums, buf, n, o.Prev)
			}
		}
	case "G8", "G8D", "G4", "G4D", "GN", "GND":
		ctrl, d := block()
		s := make([]byte, 32)
		copy(s, d)
		outv = make([]uint32, n)
		fn = func() {
			switch f.Kind {
			case "G8":
				a.G8[o.F](s, outv, ctrl)
			case "G8D":
				a.G8D[o.F](s, outv, ctrl, o.Prev)
			case "G4":
				a.G4[o.F](s, outv, uint8(ctrl))
			case "G4D":
				a.G4D[o.F](s, outv, uint8(ctrl), o.Prev)
			case "GN":
				a.GN[o.F](s, outv, uint8(ctrl), n)
			case "GND":
				a.GND[o.F](s, outv, uint8(ctrl), n, o.Prev)
			}
		}
	case "VP", "VPD":
		enc = ref.Varint(src)
		buf := make([]byte, 5*n)
		got = buf[:len(enc)]
		fn = func() {
			if f.Delta {
				a.VPD(nums, buf, o.Prev)
			} else {
				a.VP(nums, buf)
			}
		}
	case "VG", "VGD":
		s := ref.Varint(src)
		outv = make([]uint32, n)
		fn = func() {
			if f.Delta {
				a.VGD(s, outv, o.Prev)
			} else {
				a.VG(s, outv)
			}
		}
	case "Delta":
		outv = make([]uint32, n)
		src := nums
		nums = ref.Deltas(src, 0)
		fn = func() { a.Delta(src, outv) }
	case "Sort":
		outv = append([]uint32(nil), nums...)
		sort.Slice(nums, func(i, j int) bool { return nums[i] < nums[j] })
		fn = func() { a.Sort(outv) }
	case "Rand":
		fn = func() {
			for i := 0; i < n; i++ {
				a.Rand()
			}
		}
	case "Gen":
		fn = func() { a.Gen(n) }
	default:
		return
	}
	rt.Begin(k, stepLimit(n), "takes more statements than any input of this size can need: "+r.st[ti].cur)
	var m0, m1 runtime.MemStats
	if sample {
		runtime.ReadMemStats(&m0)
	}
	r.must(o, fn)
	if sample {
		runtime.ReadMemStats(&m1)
		l := r.life
		l.samples++
		l.alloc += int64(m1.TotalAlloc - m0.TotalAlloc)
		l.allowed += 4096 + 64*int64(n)
	}
	rt.End()
	if f.Kind == "Rand" || f.Kind == "Gen" {
		return
	}
	if f.Kind[0] == 'G' || f.Kind[0] == 'D' || f.Kind == "Sort" || f.Kind[0] == 'V' && f.Kind[1] == 'G' {
		if d := intsDiff(outv, nums); d != "" {
			r.bad("wrong", "wrong integers: %s", d)
		}
		r.digest(hashBytes(rt.U8(outv)))
		return
	}
	if d := bytesDiff(got, enc); d != "" {
		r.bad("wrong", "wrong stream: %s", d)
	}
	r.digest(hashBytes(got))
}
