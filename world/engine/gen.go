package engine

import (
	"simworld/rt"
)

// Gen makes the run with the given seed for a property. Everything about the
// run follows from the seed: the calls, their arguments, where their buffers
// lie, the faults, and the scheduling policy.
func Gen(prop string, seed uint64) *Spec {
	g := &gen{r: rt.NewRng(seed), sp: &Spec{Prop: prop, Seed: rt.Mix(seed, 1), Arena: true}, box: 1}
	g.fns = usableFns()
	switch prop {
	case "C01":
		g.c01()
	case "C02":
		g.c02()
	case "C03":
		g.c03()
	case "C04":
		g.c04()
	case "C05":
		g.c05()
	case "C06":
		g.c06()
	case "C07":
		g.c07()
	case "C08":
		g.c08()
	case "C10":
		g.c10()
		return g.sp
	case "C11":
		g.c11()
		return g.sp
	default:
		panic("no generator for " + prop)
	}
	if g.sp.Pol.Mode == "" {
		g.policy()
	}
	if g.r.Intn(giants) == 0 {
		g.giant()
	} else if g.r.Intn(marathons) == 0 {
		g.marathon()
	}
	return g.sp
}

// One run in so many has a call with a sequence of a million integers or so.
const giants = 10000

// One run in so many makes calls in such numbers that a counter of 8 bits
// starts over, and one in so many of those a counter of 16 bits.
const (
	marathons = 1500
	longOnes  = 100
)

func (g *gen) marathon() {
	n, times := 1+g.r.Intn(3), 256
	if g.r.Intn(longOnes) == 0 {
		n, times = 1, 65536
	}
	at := g.r.Intn(len(g.sp.Tasks) + 1)
	for try := 0; try < 50 && n > 0 && len(g.sp.Tasks) > 0; try++ {
		t := &g.sp.Tasks[(at+try)%len(g.sp.Tasks)]
		if len(t.Ops) == 0 {
			continue
		}
		o := &t.Ops[g.r.Intn(len(t.Ops))]
		if _, ok := fnByName[o.F]; !ok || o.Times > 0 {
			continue
		}
		o.Times = times
		n--
	}
	if times > 256 && (g.sp.Pol.Mode == "uniform" || g.sp.Pol.Mode == "pct") {
		g.sp.Pol.Mode = "uniform"
		g.sp.Pol.Mean = []float64{1000, 20000, 100000}[g.r.Intn(3)]
	}
}

// giant makes one call of the run, or two, very long.
func (g *gen) giant() {
	k := 1 + g.r.Intn(4)/3
	for try := 0; try < 50 && k > 0 && len(g.sp.Tasks) > 0; try++ {
		t := &g.sp.Tasks[g.r.Intn(len(g.sp.Tasks))]
		if len(t.Ops) == 0 || len(t.Ops) > 20 {
			continue
		}
		o := &t.Ops[g.r.Intn(len(t.Ops))]
		if f, ok := fnByName[o.F]; !ok || !isStream(f) || o.Buf > 0 || o.Src > 0 || o.Pub > 0 || o.N > 1<<15 {
			continue
		}
		o.N = 1<<uint(16+g.r.Intn(5)) + g.r.Intn(9) - 4
		if g.r.Bool(0.5) {
			o.N += g.r.Intn(1 << 20)
		}
		if g.r.Intn(12) == 0 {
			o.N = 1<<uint(21+g.r.Intn(3)) + g.r.Intn(9) - 4
		}
		k--
	}
	if g.sp.Pol.Mode == "uniform" || g.sp.Pol.Mode == "pct" {
		g.sp.Pol.Mode = "uniform"
		g.sp.Pol.Mean = []float64{200, 1000, 20000}[g.r.Intn(3)]
	}
}

type gen struct {
	r   rt.Rng
	sp  *Spec
	fns []Fn
	sub []Fn
	max int
	box int
}

func usableFns() []Fn { return Fns }

func (g *gen) policy() {
	p := rt.Policy{Seed: g.r.U64()}
	switch x := g.r.Intn(100); {
	case x < 12:
		p.Mode = "pct"
		p.Mean = g.mean()
	case x < 45:
		p.Mode = "hot"
		p.HotP = []float64{0.02, 0.1, 0.3, 0.6, 1}[g.r.Intn(5)]
		if g.r.Bool(0.6) {
			p.Mean = g.mean() * 4
		}
	default:
		p.Mode = "uniform"
		p.Mean = g.mean()
	}
	g.sp.Pol = p
}

// mean is log-uniform between 1 and 1000 statements.
func (g *gen) mean() float64 {
	return []float64{1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1000}[g.r.Intn(11)]
}

func (g *gen) node() int {
	if g.r.Bool(0.45) {
		return 0
	}
	return g.r.Intn(len(Nodes))
}

// has reports whether the node offers the function.
func has(node int, f Fn) bool {
	a := &Nodes[node]
	switch f.Kind {
	case "E":
		return a.E[f.Name] != nil
	case "ED":
		return a.ED[f.Name] != nil
	case "D":
		return a.D[f.Name] != nil
	case "DD":
		return a.DD[f.Name] != nil
	case "P8":
		return a.P8[f.Name] != nil
	case "P8D":
		return a.P8D[f.Name] != nil
	case "G8":
		return a.G8[f.Name] != nil
	case "G8D":
		return a.G8D[f.Name] != nil
	}
	return true
}

// pick draws a function the node offers.
func (g *gen) pick(node int, ok func(Fn) bool) Fn {
	l := g.sub
	if len(l) == 0 || g.r.Bool(0.15) {
		l = g.fns
	}
	for try := 0; try < 200; try++ {
		if try == 50 {
			l = g.fns
		}
		f := l[g.r.Intn(len(l))]
		if f.Fast && !has(node, f) {
			continue
		}
		if ok == nil || ok(f) {
			return f
		}
	}
	return fnByName["WriteAll"]
}

// focus restricts most picks to a few functions, so that calls of one run
// meet in the same code.
func (g *gen) focus(ok func(Fn) bool) {
	if g.r.Bool(0.35) {
		return
	}
	var l []Fn
	for _, f := range g.fns {
		if ok == nil || ok(f) {
			l = append(l, f)
		}
	}
	k := 1 + g.r.Intn(3)
	for i := 0; i < k; i++ {
		g.sub = append(g.sub, l[g.r.Intn(len(l))])
	}
}

// isStream: whole-stream functions.
func isStream(f Fn) bool { return f.Kind == "E" || f.Kind == "ED" || f.Kind == "D" || f.Kind == "DD" }
func isEnc(f Fn) bool    { return f.Kind == "E" || f.Kind == "ED" }
func isDec(f Fn) bool    { return f.Kind == "D" || f.Kind == "DD" }
func isBlockDec(f Fn) bool {
	return f.Kind[0] == 'G'
}

func (g *gen) n() int {
	switch x := g.r.Intn(1000); {
	case x < 3:
		return 1<<12 + g.r.Intn(1<<uint(13+g.r.Intn(5)))
	case x < 15:
		return GenN(&g.r, 5000)
	}
	return GenN(&g.r, g.max)
}

// op draws a call of f with fresh private arguments.
func (g *gen) op(node int, f Fn) Op {
	o := Op{F: f.Name, Node: node, N: g.n(), V: GenVals(&g.r), In: g.place(), Out: g.place()}
	if f.Kind == "PN" || f.Kind == "PND" || f.Kind == "GN" || f.Kind == "GND" {
		o.N = g.r.Intn(5)
	}
	if f.Delta {
		o.Prev = GenPrev(&g.r)
	}
	o.RO = g.r.Bool(0.3)
	if g.r.Bool(0.2) {
		o.Extra = 1 + g.r.Intn(40)
	}
	if g.r.Bool(0.2) {
		o.Spare = 4 * g.r.Intn(30)
	}
	o.Exact = g.r.Bool(0.5)
	if isDec(f) {
		if g.r.Bool(0.25) {
			o.Rest = 1 + g.r.Intn(70)
		}
		if g.r.Bool(0.1) {
			o.Less = 1 + g.r.Intn(3)
		}
	}
	if g.r.Bool(0.1) && (isDec(f) || isBlockDec(f)) {
		o.Synth = true
	}
	return o
}

func (g *gen) place() int {
	switch x := g.r.Intn(10); {
	case x < 5:
		return rt.FlushEnd
	case x < 7:
		return rt.FlushStart
	}
	return rt.Middle
}

// shareBufs adds inputs that several calls read at the same time.
func (g *gen) shareBufs() {
	k := g.r.Intn(4)
	for i := 0; i < k; i++ {
		b := Buf{N: g.n(), V: GenVals(&g.r), Place: g.place(), RO: g.r.Bool(0.5)}
		b.Kind = []string{"ints", "ints", "stream", "deltas"}[g.r.Intn(4)]
		if b.Kind == "deltas" {
			b.Prev = GenPrev(&g.r)
		}
		if b.N > 3000 {
			b.N %= 3000
		}
		if b.Kind != "ints" && g.r.Bool(0.3) {
			b.Rest = 1 + g.r.Intn(70)
		}
		g.sp.Bufs = append(g.sp.Bufs, b)
	}
}

// share makes an operation use a shared input where one fits.
func (g *gen) share(o *Op) {
	f := fnByName[o.F]
	for try := 0; try < 3 && len(g.sp.Bufs) > 0; try++ {
		i := g.r.Intn(len(g.sp.Bufs))
		b := g.sp.Bufs[i]
		switch {
		case b.Kind == "ints" && (f.Kind == "E" || f.Kind == "ED" || f.Kind[0] == 'P' || f.Kind == "VP" || f.Kind == "VPD" || f.Kind == "Delta"):
			need := o.N
			if f.Kind[0] == 'P' {
				need = blockN(f.Kind, o.N)
			}
			if b.N < need || f.Kind[0] != 'P' && g.r.Bool(0.5) {
				if f.Kind[0] == 'P' {
					continue
				}
				o.N = g.r.Intn(b.N + 1)
				if g.r.Bool(0.5) {
					o.N = b.N
				}
				need = o.N
			}
			o.Buf = i + 1
			o.Off = g.r.Intn(b.N - need + 1)
			return
		case b.Kind == "stream" && f.Kind == "D", b.Kind == "deltas" && f.Kind == "DD":
			o.Buf = i + 1
			o.N = b.N
			o.Prev = b.Prev
			o.Synth = false
			return
		}
	}
}

func (g *gen) freeze(ops int, crash float64) rt.Fault {
	f := rt.Fault{Op: g.r.Intn(ops), Step: int64(g.r.U64() % (1 << uint(g.r.Intn(12))))}
	if g.r.Bool(0.4) {
		f.Hot = true
		f.Step = int64(g.r.Intn(6))
	}
	if g.r.Bool(0.5) {
		f.Dur = 1 << uint(g.r.Intn(14))
	}
	f.Crash = g.r.Bool(crash)
	return f
}

// C01: calls of several goroutines of one process at the same time.
func (g *gen) c01() {
	g.max = 600
	if g.r.Bool(0.5) {
		g.max = 70
	}
	g.focus(nil)
	g.shareBufs()
	node := g.node()
	nt := 2 + g.r.Intn(3)
	if g.r.Bool(0.1) {
		nt = 5 + g.r.Intn(6)
	}
	g.sp.Hold = g.r.Bool(0.3)
	g.sp.Pool = []float64{0, 0.1, 0.5}[g.r.Intn(3)]
	seg := g.r.Bool(0.6)
	for t := 0; t < nt; t++ {
		var ts TaskSpec
		for k := 1 + g.r.Intn(4); k > 0; k-- {
			f := g.pick(node, nil)
			o := g.op(node, f)
			if g.r.Bool(0.5) {
				g.share(&o)
			}
			o.Seg = seg && g.r.Bool(0.6)
			if o.Seg {
				o.Tail = []int{0, 1, 1, 2}[g.r.Intn(4)]
			}
			o.Reuse = g.r.Bool(0.2)
			ts.Ops = append(ts.Ops, o)
		}
		if g.r.Bool(0.15) {
			ts.Ops = append(ts.Ops, Op{F: "@recheck"})
		}
		if g.r.Bool(0.1) {
			ts.Faults = append(ts.Faults, g.freeze(len(ts.Ops), 0))
		}
		g.sp.Tasks = append(g.sp.Tasks, ts)
	}
}

// C02: long histories of calls and of what their callers do with the memory.
func (g *gen) c02() {
	g.max = 300
	if g.r.Bool(0.6) {
		g.max = 50
	}
	focus := func(f Fn) bool { return isStream(f) || g.r.Bool(0.3) }
	g.focus(focus)
	node := g.node()
	nt := 1 + g.r.Intn(3)
	if nt > 1 {
		g.shareBufs()
	}
	g.sp.Hold = true
	g.sp.Pool = []float64{0, 0, 0.2, 0.7}[g.r.Intn(4)]
	same := g.r.Bool(0.3) // repeat the same arguments
	long := g.r.Bool(0.03)
	if long {
		g.max = 40
	}
	big := 0
	if same && g.r.Bool(0.15) {
		big = 1 << uint(8+g.r.Intn(7))
		nt = 1
	}
	for t := 0; t < nt; t++ {
		var ts TaskSpec
		var last []Op
		k := 2 + g.r.Intn(8)
		if long {
			k = 20 + g.r.Intn(100)
		}
		for ; k > 0; k-- {
			if len(last) > 0 && g.r.Bool(0.4) {
				a := []string{"@scribble", "@append", "@scribbleIn", "@scribbleOut", "@recheck", "@yield", "@gc"}[g.r.Intn(7)]
				ts.Ops = append(ts.Ops, Op{F: a, N: g.r.Intn(64), V: Vals{Seed: g.r.U64()}})
				continue
			}
			f := g.pick(node, nil)
			o := g.op(node, f)
			o.Reuse = g.r.Bool(0.4)
			o.RO = g.r.Bool(0.5)
			if big > 0 && isStream(f) {
				o.N = big + g.r.Intn(64)
			}
			if len(last) > 0 && (same || g.r.Bool(0.15)) {
				// the same arguments again, or nearly
				p := last[g.r.Intn(len(last))]
				q := fnByName[p.F]
				if q.Kind == f.Kind || g.r.Bool(0.5) {
					o = p
					switch g.r.Intn(6) {
					case 0, 1:
						o.V.Seed = g.r.U64()
					case 2, 3:
						o.V.Tweak = g.r.U64()
					}
					if g.r.Bool(0.2) {
						o.Prev = GenPrev(&g.r)
					}
					o.Reuse = g.r.Bool(0.6)
				} else {
					o.N, o.V = p.N, p.V
				}
			}
			if g.r.Bool(0.3) {
				g.share(&o)
			}
			last = append(last, o)
			ts.Ops = append(ts.Ops, o)
		}
		if g.r.Bool(0.1) {
			ts.Faults = append(ts.Faults, g.freeze(len(ts.Ops), 0))
		}
		g.sp.Tasks = append(g.sp.Tasks, ts)
	}
	if nt == 1 {
		g.sp.Pol = rt.Policy{Mode: "serial", Seed: g.r.U64()}
	}
}

// few makes one or two tasks.
func (g *gen) few(p float64) int {
	if g.r.Bool(p) {
		return 2
	}
	g.sp.Pol = rt.Policy{Mode: "serial", Seed: g.r.U64()}
	return 1
}

// C03: buffers of exact size, wherever they may lie.
func (g *gen) c03() {
	g.max = 900
	if g.r.Bool(0.5) {
		g.max = 48
	}
	ok := func(f Fn) bool { return f.Kind != "Sort" && f.Kind != "Delta" }
	g.focus(ok)
	node := g.node()
	for t := g.few(0.15); t > 0; t-- {
		var ts TaskSpec
		for k := 2 + g.r.Intn(5); k > 0; k-- {
			f := g.pick(node, func(f Fn) bool { return ok(f) && (isStream(f) || g.r.Bool(0.4)) })
			o := g.op(node, f)
			o.In = g.r.Intn(3)
			o.Out = g.r.Intn(3)
			if g.r.Bool(0.6) {
				o.In = rt.FlushEnd
			}
			if g.r.Bool(0.6) {
				o.Out = rt.FlushEnd
			}
			o.Synth = g.r.Bool(0.3) && (isDec(f) || isBlockDec(f))
			if o.Synth && g.r.Bool(0.3) {
				o.V.Prof = 1
			}
			o.Spare = 0
			if g.r.Bool(0.25) {
				o.Spare = 1 + g.r.Intn(40)
			}
			if o.In == rt.FlushEnd && o.Spare == 0 {
				o.Open = g.r.Bool(0.2)
			}
			o.Exact = g.r.Bool(0.8)
			if g.r.Bool(0.6) {
				o.Rest = 0
			}
			ts.Ops = append(ts.Ops, o)
		}
		g.sp.Tasks = append(g.sp.Tasks, ts)
	}
}

func (g *gen) cut() *Cut {
	c := &Cut{P: g.r.U64(), Stale: g.r.Intn(4), InCap: g.r.Bool(0.5)}
	c.K = []string{"any", "any", "end", "end", "end", "ctrl", "empty"}[g.r.Intn(7)]
	if c.K == "empty" && g.r.Bool(0.7) {
		c.K = "any"
	}
	return c
}

// C04: stored streams that end early.
func (g *gen) c04() {
	g.max = 700
	if g.r.Bool(0.6) {
		g.max = 48
	}
	ok := func(f Fn) bool { return isDec(f) || isBlockDec(f) && !f.Fast && !f.Gen }
	g.focus(ok)
	node := g.node()
	for t := g.few(0.15); t > 0; t-- {
		var ts TaskSpec
		for k := 2 + g.r.Intn(6); k > 0; k-- {
			f := g.pick(node, ok)
			o := g.op(node, f)
			o.In = rt.FlushEnd
			if g.r.Bool(0.2) {
				o.In = g.r.Intn(3)
			}
			o.Synth = g.r.Bool(0.2)
			o.Extra = 0
			if g.r.Bool(0.85) {
				o.Cut = g.cut()
				if o.N == 0 {
					o.N = 1 + g.r.Intn(12)
				}
			}
			ts.Ops = append(ts.Ops, o)
		}
		g.sp.Tasks = append(g.sp.Tasks, ts)
	}
}

func (g *gen) muts() []Mut {
	var ms []Mut
	k := 1 + g.r.Intn(3)
	if g.r.Bool(0.05) {
		k = 10
	}
	for i := 0; i < k; i++ {
		kinds := []string{"flip", "cflip", "cflip", "set", "cset", "swap", "dup", "drop", "pad", "tail", "crand"}
		m := Mut{K: kinds[g.r.Intn(len(kinds))], P: g.r.U64(), A: g.r.U64() & 0xff}
		if m.K == "crand" && g.r.Bool(0.5) {
			m.K = "pad"
		}
		ms = append(ms, m)
	}
	return ms
}

// C05: stored bytes that were altered.
func (g *gen) c05() {
	g.max = 500
	if g.r.Bool(0.6) {
		g.max = 48
	}
	ok := func(f Fn) bool { return isDec(f) || isBlockDec(f) }
	g.focus(ok)
	for t := g.few(0.1); t > 0; t-- {
		var ts TaskSpec
		for k := 1 + g.r.Intn(4); k > 0; k-- {
			node := g.node()
			f := g.pick(node, ok)
			o := g.op(node, f)
			o.In = rt.FlushEnd
			if o.N == 0 {
				o.N = 1 + g.r.Intn(20)
			}
			if g.r.Bool(0.4) {
				o.Synth = true
			}
			if !o.Synth || g.r.Bool(0.4) {
				o.Muts = g.muts()
			}
			o.Extra = 0
			ts.Ops = append(ts.Ops, o)
			// the same stored bytes, read by other decoders
			for x := g.r.Intn(3); x > 0; x-- {
				p := o
				p.Node = g.node()
				for try := 0; try < 20; try++ {
					h := g.fns[g.r.Intn(len(g.fns))]
					if !ok(h) || h.Delta != f.Delta || h.Fast && !has(p.Node, h) {
						continue
					}
					if h.Kind[0] == 'G' != (f.Kind[0] == 'G') {
						continue
					}
					if h.Kind[0] == 'G' && blockN(h.Kind, p.N) != blockN(f.Kind, o.N) {
						continue
					}
					p.F = h.Name
					break
				}
				ts.Ops = append(ts.Ops, p)
			}
		}
		g.sp.Tasks = append(g.sp.Tasks, ts)
	}
}

// C06: unlike machines that exchange streams.
func (g *gen) c06() {
	g.max = 400
	if g.r.Bool(0.6) {
		g.max = 60
	}
	ok := func(f Fn) bool { return f.Gen || f.Fast || !isStream(f) && g.r.Bool(0.3) }
	nt := 1 + g.r.Intn(4)
	for t := 0; t < nt; t++ {
		var ts TaskSpec
		node := g.r.Intn(len(Nodes))
		for k := 1 + g.r.Intn(4); k > 0; k-- {
			if g.r.Bool(0.3) {
				node = g.r.Intn(len(Nodes))
			}
			f := g.pick(node, ok)
			o := g.op(node, f)
			if isEnc(f) && g.r.Bool(0.6) {
				o.Pub = g.box
				g.box++
			}
			ts.Ops = append(ts.Ops, o)
		}
		g.sp.Tasks = append(g.sp.Tasks, ts)
	}
	// readers of what was written, elsewhere
	var boxes []Op
	for _, t := range g.sp.Tasks {
		for _, o := range t.Ops {
			if o.Pub > 0 {
				boxes = append(boxes, o)
			}
		}
	}
	for k := 1 + g.r.Intn(3); k > 0 && len(boxes) > 0; k-- {
		var ts TaskSpec
		for x := 1 + g.r.Intn(3); x > 0; x-- {
			b := boxes[g.r.Intn(len(boxes))]
			node := g.r.Intn(len(Nodes))
			f := g.pick(node, func(f Fn) bool { return isDec(f) && f.Delta == fnByName[b.F].Delta })
			if !isDec(f) || f.Delta != fnByName[b.F].Delta {
				continue
			}
			o := g.op(node, f)
			o.N, o.Prev, o.V = b.N, b.Prev, b.V
			o.Src = b.Pub
			o.Muts, o.Cut, o.Synth = nil, nil, false
			ts.Ops = append(ts.Ops, o)
		}
		if len(ts.Ops) > 0 {
			g.sp.Tasks = append(g.sp.Tasks, ts)
		}
	}
}

// C07: calls that fail, stall or never end, and calls beside them.
func (g *gen) c07() {
	g.max = 200
	if g.r.Bool(0.6) {
		g.max = 40
	}
	g.focus(nil)
	if g.r.Bool(0.5) {
		g.shareBufs()
	}
	node := g.node()
	nt := 2 + g.r.Intn(3)
	if g.r.Bool(0.15) {
		nt = 1
	}
	storm, wave := false, false
	switch g.r.Intn(20) {
	case 0: // one failure after another
		storm = true
		g.max = 30
		nt = 1 + g.r.Intn(3)
	case 1: // many calls that are never heard of again
		wave = true
		g.max = 60
		nt = 5 + g.r.Intn(30)
	}
	g.sp.Strict = true
	g.sp.Hold = g.r.Bool(0.4)
	g.sp.Pool = []float64{0, 0.1, 0.5}[g.r.Intn(3)]
	for t := 0; t < nt; t++ {
		var ts TaskSpec
		k := 1 + g.r.Intn(5)
		bad := 0.35
		if storm {
			k = 8 << uint(g.r.Intn(6))
			bad = 0.9
		}
		if wave {
			k = 1 + g.r.Intn(2)
			bad = 0.1
		}
		for ; k > 0; k-- {
			f := g.pick(node, nil)
			o := g.op(node, f)
			if g.r.Bool(bad) && f.Kind != "Sort" {
				o.Bad = []string{"torn", "shortout", "garbage", "nilstream", "negcount", "shortin"}[g.r.Intn(6)]
				if isEnc(f) {
					o.Bad = ""
				}
			} else if g.r.Bool(0.3) {
				g.share(&o)
			} else {
				o.Reuse = g.r.Bool(0.2)
			}
			if o.Bad == "" && isDec(f) && g.r.Bool(0.15) && o.N > 0 && o.Buf == 0 {
				o.Cut = g.cut()
			}
			ts.Ops = append(ts.Ops, o)
		}
		if wave {
			if t < nt-1 && g.r.Bool(0.9) {
				ts.Faults = append(ts.Faults, g.freeze(1, 0.7))
			}
		} else if g.r.Bool(0.6) && nt > 1 {
			ts.Faults = append(ts.Faults, g.freeze(len(ts.Ops), 0.4))
			if g.r.Bool(0.2) {
				f := g.freeze(len(ts.Ops), 0.2)
				if f.Op >= ts.Faults[0].Op {
					ts.Faults = append(ts.Faults, f)
				}
			}
		}
		g.sp.Tasks = append(g.sp.Tasks, ts)
	}
	if nt == 1 {
		g.sp.Pol = rt.Policy{Mode: "serial", Seed: g.r.U64()}
	}
}

// C10: long lives of one process.
func (g *gen) c10() {
	g.max = 200
	if g.r.Bool(0.5) {
		g.max = 30
	}
	g.sp.Arena = false
	ok := func(f Fn) bool { return true }
	if g.r.Bool(0.3) {
		g.focus(ok)
	}
	node := g.node()
	l := &Life{Per: 400}
	g.sp.Life = l
	nt := 1
	bad := []float64{0, 0.1, 0.5}[g.r.Intn(3)]
	if g.r.Bool(0.35) {
		nt = 2 + g.r.Intn(3)
		l.Per = 100
		g.policy()
	} else {
		g.sp.Pol = rt.Policy{Mode: "serial", Seed: g.r.U64()}
		if g.r.Bool(0.15) {
			l.Big = 17 + g.r.Intn(4)
		}
	}
	for t := 0; t < nt; t++ {
		var ts TaskSpec
		for k := 1 + g.r.Intn(10); k > 0; k-- {
			f := g.pick(node, ok)
			o := g.op(node, f)
			if o.N > 3*g.max {
				o.N %= g.max
			}
			if g.r.Bool(bad) && !isEnc(f) {
				o.Bad = []string{"torn", "shortout", "garbage", "nilstream", "negcount", "shortin"}[g.r.Intn(6)]
			}
			if g.r.Intn(20) == 0 {
				o = Op{F: []string{"GenUint32", "GenUint32", "RandUint32"}[g.r.Intn(3)], Node: node, N: g.r.Intn(2 * g.max), V: o.V}
			}
			if l.Big > 0 && isStream(f) && l.Fn == "" {
				l.Fn = f.Name
			}
			ts.Ops = append(ts.Ops, o)
		}
		if nt > 1 {
			for k := g.r.Intn(3); k > 0; k-- {
				ts.Faults = append(ts.Faults, g.freeze(100, 0))
			}
		}
		g.sp.Tasks = append(g.sp.Tasks, ts)
	}
	g.sp.Pool = []float64{0, 0.1, 0.5}[g.r.Intn(3)]
}

// C08: sessions over several pieces, workers and machines.
func (g *gen) c08() {
	k := 1
	if g.r.Bool(0.35) {
		k = 2 + g.r.Intn(2)
	}
	// Lost workers take their whole process with them, so a node that loses
	// one must not serve others at the same time.
	free := make([]int, 0, len(Nodes))
	for n := range Nodes {
		free = append(free, n)
	}
	for i := len(free) - 1; i > 0; i-- {
		j := g.r.Intn(i + 1)
		free[i], free[j] = free[j], free[i]
	}
	shared := g.r.Bool(0.4) // everything on one node, no crashes
	one := g.node()
	for i := 0; i < k; i++ {
		s := Session{V: GenVals(&g.r), Delta: g.r.Bool(0.75), Sync: 1 + g.r.Intn(4)}
		s.N = 1 + GenN(&g.r, 400)
		if g.r.Bool(0.02) {
			s.N = 2000 + g.r.Intn(6000)
		}
		large := g.r.Intn(3000) == 0
		if large {
			s.N = 1 << uint(13+g.r.Intn(7))
		}
		if s.Delta {
			s.Prev = GenPrev(&g.r)
		}
		for c := 1 + g.r.Intn(5); c > 0; c-- {
			switch g.r.Intn(5) {
			case 0:
				s.Cuts = append(s.Cuts, 1+g.r.Intn(8))
			case 1:
				s.Cuts = append(s.Cuts, 8*(1+g.r.Intn(8)))
			case 2:
				s.Cuts = append(s.Cuts, 4*(1+g.r.Intn(8)))
			case 3:
				s.Cuts = append(s.Cuts, 1+g.r.Intn(120))
			case 4:
				s.Cuts = append(s.Cuts, 1+g.r.Intn(30))
			}
		}
		if large {
			for i := range s.Cuts {
				s.Cuts[i] = s.Cuts[i]*s.N/300 + g.r.Intn(8)
			}
		}
		s.Queue = g.r.Bool(0.3)
		crash := 0.6
		var nodes []int
		switch {
		case shared:
			nodes = []int{one}
			crash = 0
		case len(free) >= 2:
			nodes = free[:2]
			free = free[2:]
		case len(free) == 1:
			nodes = free
			free = nil
			crash = 0
		default:
			nodes = []int{one}
			crash = 0
		}
		ne := 1 + g.r.Intn(3)
		if s.Queue {
			ne = 2 + g.r.Intn(3)
		}
		nd := 1 + g.r.Intn(3)
		pieces := 2 + s.N/20
		if large {
			pieces = 5
		}
		for w := 0; w < ne; w++ {
			x := Worker{Node: nodes[0], API: g.r.U64()}
			if s.Queue && len(nodes) > 1 {
				crash = 0 // several live workers per process
				x.Node = nodes[g.r.Intn(len(nodes))]
			}
			if w < ne-1 {
				x.Faults = append(x.Faults, g.freeze(pieces, crash))
			}
			s.Enc = append(s.Enc, x)
		}
		for w := 0; w < nd; w++ {
			x := Worker{Node: nodes[len(nodes)-1], API: g.r.U64()}
			if w < nd-1 {
				x.Faults = append(x.Faults, g.freeze(pieces, crash))
			}
			s.Dec = append(s.Dec, x)
		}
		if !s.Queue && !shared && len(nodes) > 1 && g.r.Bool(0.6) && len(free) > 0 {
			// the encoder moves to another machine
			m := free[0]
			free = free[1:]
			s.Enc[len(s.Enc)-1].Node = m
		}
		g.sp.Sess = append(g.sp.Sess, s)
	}
	g.sp.Pool = []float64{0, 0.3}[g.r.Intn(2)]
	g.sp.Hold = g.r.Bool(0.3)
}

// c11 makes runs that draw random numbers.
func (g *gen) c11() {
	g.sp.Arena = false
	nt := 1 + g.r.Intn(5)
	total := 1 << uint(9+g.r.Intn(7)) // all callers together
	if nt == 1 {
		g.sp.Pol = rt.Policy{Mode: "serial", Seed: g.r.U64()}
		total = 1 << uint(10+g.r.Intn(9))
		if g.r.Intn(25) == 0 {
			total = 1 << 22
		}
	} else {
		g.policy()
		if g.sp.Pol.Mean > 20 {
			total <<= 2
		}
	}
	node := g.node()
	g.sp.Draw = &Draw{Per: total / nt}
	for t := 0; t < nt; t++ {
		var ts TaskSpec
		for k := 1 + g.r.Intn(4); k > 0; k-- {
			o := Op{F: "GenUint32", Node: node, N: g.r.Intn(1 << uint(1+g.r.Intn(11)))}
			if g.r.Intn(30) == 0 && g.sp.Pol.Mean != 1 {
				o.N = 1<<uint(11+g.r.Intn(7)) + g.r.Intn(9) - 4
			}
			if g.r.Bool(0.4) {
				o.F = "RandUint32"
			}
			ts.Ops = append(ts.Ops, o)
		}
		if nt > 1 {
			for k := g.r.Intn(3); k > 0; k-- {
				ts.Faults = append(ts.Faults, g.freeze(100, 0))
			}
		}
		g.sp.Tasks = append(g.sp.Tasks, ts)
	}
}
