package engine

import (
	"bytes"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"unsafe"

	"simworld/ref"
	"simworld/rt"
)

// Counters accumulate over a batch.
type Counters struct {
	Runs, Ops, Steps int64
	Fn               map[string]int64
	Fault            map[string]int64
	Probe            map[string]int64
	AsmCalls         [16]int64
	Hashes           map[uint64]struct{} // interleavings
	Pairs            map[uint64]struct{} // (preempted at, resumed at)
	Logs             map[uint64]struct{} // whole observed histories, of runs with an injected fault
	Nontrivial       int64
	Held             int64
	Skipped          int64
}

// Injected is the number of faults injected so far.
func (c *Counters) Injected() (n int64) {
	for _, x := range c.Fault {
		n += x
	}
	return n
}

func NewCounters() *Counters {
	return &Counters{Fn: map[string]int64{}, Fault: map[string]int64{}, Probe: map[string]int64{},
		Hashes: map[uint64]struct{}{}, Pairs: map[uint64]struct{}{}, Logs: map[uint64]struct{}{}}
}

type held struct {
	got  []byte
	want []byte
	full []byte // got up to its capacity, for returned streams
	desc string
	task int
	mem  *rt.Mem
}

type shared struct {
	b    Buf
	want []uint32
	enc  []byte
	mem  *rt.Mem
}

type box struct {
	done bool
	none bool
	b    []byte
	n    int
	prev uint32
	want []uint32
}

// run is one execution of a Spec.
type run struct {
	sp     *Spec
	s      *rt.Sched
	c      *Counters
	sh     []*shared
	held   []held
	boxes  map[int]*box
	segMem *rt.Mem
	segOff map[*Op]int
	log    uint64 // digest of everything observed
	st     []*tstate
	sess   []*sessRun
	life   *life
	draw   *drawn
}

type tstate struct {
	lastInts *rt.Mem
	lastStr  *rt.Mem
	lastOut  *rt.Mem
	lastBuf  *rt.Mem
	cur      string
	ops      int
}

// Result of a run.
type Result struct {
	V     *rt.Violation
	Trace []rt.Ev
	St    rt.Stats
	Log   uint64
}

func (r *run) digest(parts ...uint64) {
	for _, p := range parts {
		r.log = (r.log ^ p) * 1099511628211
	}
}

func hashBytes(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for len(b) >= 8 {
		h = (h ^ *(*uint64)(unsafe.Pointer(&b[0]))) * 1099511628211
		h ^= h >> 29
		b = b[8:]
	}
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return h
}

// Exec executes a run. decisions: the scheduler's recorded decisions, or nil
// to follow the seeded policy.
func Exec(sp *Spec, decisions []rt.Ev, replay bool, c *Counters, siteOf func(int32) string) *Result {
	rt.Reset()
	rt.SeedRun(sp.Seed)
	rt.PoolForgetP = sp.Pool
	rt.ArenaReset(sp.Seed)
	rt.ArenaOn(sp.Arena)
	used := map[int]bool{0: true}
	for _, t := range sp.Tasks {
		for _, o := range t.Ops {
			used[o.Node] = true
		}
	}
	for i := range sp.Sess {
		for _, ws := range [][]Worker{sp.Sess[i].Enc, sp.Sess[i].Dec} {
			for _, w := range ws {
				used[w.Node] = true
			}
		}
	}
	for n := range Nodes {
		if used[n] {
			rt.Init(n, Nodes[n].Reset)
		}
	}
	r := &run{sp: sp, c: c, boxes: map[int]*box{}, segOff: map[*Op]int{}, log: 14695981039346656037}
	r.s = rt.NewSched(sp.Pol, decisions, replay)
	r.s.SiteOf = siteOf
	r.s.CheckWait = sp.Strict
	if sp.Life == nil {
		r.s.SetPairs(c.Pairs)
	} else {
		r.life = &life{at: make([]int, len(sp.Tasks)), k: make([]int, len(sp.Tasks)), rounds: lifeRounds}
	}
	if sp.Draw != nil {
		r.draw = &drawn{by: map[string]*tally{"RandUint32": {}, "GenUint32": {}, firstOf: {}, lastOf: {}}, mine: make([][][]uint32, len(sp.Tasks)), sums: make([][]uint64, len(sp.Tasks))}
	}
	r.setup()
	for i := range sp.Tasks {
		i := i
		r.st = append(r.st, &tstate{})
		body := r.task
		if r.life != nil {
			body = r.lifeTask
		}
		if r.draw != nil {
			body = r.drawTask
		}
		t := r.s.Add(fmt.Sprintf("task%d", i), 0, func() { body(i) })
		t.SetFaults(append([]rt.Fault(nil), sp.Tasks[i].Faults...))
	}
	r.startSessions()
	v := r.s.Run(2000000000)
	if v == nil {
		v = r.final()
	}
	res := &Result{V: v, St: r.s.St}
	if v != nil {
		res.Trace = r.s.Trace()
	}
	r.digest(r.s.St.Hash, uint64(r.s.St.Steps), uint64(r.s.St.Switches))
	res.Log = r.log
	c.Runs++
	c.Steps += r.s.St.Steps
	if len(c.Hashes) < 4000000 {
		c.Hashes[r.s.St.Hash] = struct{}{}
	}
	if r.s.St.Freezes > 0 {
		c.Fault["task suspended inside a call"] += int64(r.s.St.Freezes)
	}
	if r.s.St.Crashes > 0 {
		c.Fault["task lost inside a call"] += int64(r.s.St.Crashes)
	}
	if r.s.St.Switches > 0 {
		c.Fault["preemption between statements"] += int64(r.s.St.Switches)
	}
	for i, n := range rt.AsmCalls {
		c.AsmCalls[i] += n
	}
	return res
}

func (r *run) setup() {
	for i := range r.sp.Bufs {
		b := r.sp.Bufs[i]
		s := &shared{b: b, want: b.V.Make(b.N)}
		switch b.Kind {
		case "ints":
			s.mem = rt.Alloc(fmt.Sprintf("shared input %d", i), 4*b.N, 4*b.N, b.Place, 4)
			copy(s.mem.RW(), rt.U8(s.want))
		case "stream":
			s.enc = ref.Encode(s.want)
		case "deltas":
			s.enc = ref.Encode(ref.Deltas(s.want, b.Prev))
		}
		if s.enc != nil {
			s.enc = withRest(s.enc, b.Rest, b.V.Seed)
			s.mem = rt.Alloc(fmt.Sprintf("shared stream %d", i), len(s.enc), len(s.enc), b.Place, 1)
			copy(s.mem.RW(), s.enc)
		}
		r.sh = append(r.sh, s)
	}
	total := 0
	for i := range r.sp.Tasks {
		for j := range r.sp.Tasks[i].Ops {
			o := &r.sp.Tasks[i].Ops[j]
			if o.Pub > 0 {
				r.boxes[o.Pub] = &box{}
			}
			if o.Seg {
				if n := segSize(o); n > 0 {
					total = (total + 3) &^ 3
					r.segOff[o] = total
					total += n
				}
			}
		}
	}
	if total > 0 {
		r.segMem = rt.Alloc("common output buffer", total, total, rt.FlushEnd, 4)
		b := r.segMem.RW()
		for i := range b {
			b[i] = 0x5b
		}
	}
}

// withRest puts n arbitrary bytes behind a stream.
func withRest(b []byte, n int, seed uint64) []byte {
	rnd := rt.NewRng(seed ^ 80)
	for ; n > 0; n-- {
		b = append(b, byte(rnd.U32()))
	}
	return b
}

// segSize is the room an operation's output takes in the common buffer.
func segSize(o *Op) int {
	f := fnByName[o.F]
	switch f.Kind {
	case "D", "DD", "Delta", "VG", "VGD":
		return 4 * o.N
	case "G8", "G8D":
		return 32
	case "G4", "G4D":
		return 16
	case "GN", "GND":
		return 4 * (o.N % 5)
	case "P8", "P8D":
		return 32
	case "P4", "P4D":
		return 16
	case "PN", "PND":
		return 4 * (o.N % 5)
	}
	return 0
}

func (r *run) task(i int) {
	t := &r.sp.Tasks[i]
	for k := range t.Ops {
		r.op(i, k, &t.Ops[k])
	}
}

// call runs one library call and returns the panic it ended with, if any.
func call(fn func()) (p interface{}) {
	defer func() {
		p = recover()
	}()
	fn()
	return nil
}

func (r *run) usable(o *Op, f Fn) bool {
	if !f.Fast {
		return true
	}
	if f.Enc {
		return Nodes[o.Node].EncFast()
	}
	return Nodes[o.Node].DecFast()
}

func (r *run) bad(kind string, format string, a ...interface{}) {
	t := rt.Cur()
	id := -1
	if t != nil {
		id = t.ID
	}
	desc := ""
	if id >= 0 && id < len(r.st) {
		desc = r.st[id].cur
	}
	msg := fmt.Sprintf(format, a...)
	if desc != "" {
		msg = desc + ": " + msg
	}
	rt.Violate(kind, "%s", msg)
	runtime.Goexit()
}

func faultText(p interface{}) (string, bool) {
	if e, ok := p.(interface{ Addr() uintptr }); ok {
		return "memory fault " + rt.Locate(e.Addr()), true
	}
	return "", false
}

// guard executes a call that has to succeed.
func (r *run) must(o *Op, fn func()) {
	if p := call(fn); p != nil {
		if s, ok := faultText(p); ok {
			r.bad("memory", "%s", s)
		}
		r.bad("panic", "panic: %v", p)
	}
}

// mustPanic executes a call that must not return normally.
func (r *run) mustPanic(o *Op, why string, fn func()) {
	p := call(fn)
	if p == nil {
		r.bad("torn", "returned normally although %s", why)
	}
	if s, ok := faultText(p); ok {
		r.bad("memory", "%s (%s)", s, why)
	}
	if _, ok := p.(runtime.Error); !ok {
		r.probe("ended with a panic that is no run-time error")
	}
}

func (r *run) probe(s string) { r.c.Probe[s]++ }

// stepLimit bounds what a call on n integers may execute. All calls of a run
// together may exceed it by a constant, and one-time initialisation does not
// count.
func stepLimit(n int) int64 { return 50000 + 400*int64(n+8) }

func bytesDiff(got, want []byte) string {
	if len(got) != len(want) {
		n := len(got)
		if len(want) < n {
			n = len(want)
		}
		for i := 0; i < n; i++ {
			if got[i] != want[i] {
				return fmt.Sprintf("got %d bytes, want %d; first difference at byte %d: got %#x, want %#x", len(got), len(want), i, got[i], want[i])
			}
		}
		return fmt.Sprintf("got %d bytes, want %d", len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("byte %d of %d: got %#x, want %#x", i, len(got), got[i], want[i])
		}
	}
	return ""
}

func intsDiff(got, want []uint32) string {
	for i := range want {
		if got[i] != want[i] {
			return fmt.Sprintf("integer %d of %d: got %d, want %d", i, len(want), got[i], want[i])
		}
	}
	return ""
}

func overlap(a, b []byte) bool {
	if cap(a) == 0 || cap(b) == 0 {
		return false
	}
	x, y := uintptr(unsafe.Pointer(unsafe.SliceData(a))), uintptr(unsafe.Pointer(unsafe.SliceData(b)))
	return x < y+uintptr(cap(b)) && y < x+uintptr(cap(a))
}

// hold keeps a result under observation until the run ends.
func (r *run) hold(h held) {
	r.held = append(r.held, h)
	r.c.Held++
}

func (r *run) unholdMem(m *rt.Mem) {
	k := 0
	for _, h := range r.held {
		if h.mem != m || m == nil {
			r.held[k] = h
			k++
		}
	}
	r.held = r.held[:k]
}

func (r *run) checkHeld(task int, when string) {
	for _, h := range r.held {
		if task >= 0 && h.task != task {
			continue
		}
		if !bytes.Equal(h.got, h.want) {
			r.bad("disturbed", "%s, %s of task%d has changed: %s", when, h.desc, h.task, bytesDiff(h.got, h.want))
		}
	}
}

func (r *run) checkMems(when string) {
	for _, m := range rt.Mems() {
		if err := m.Canaries(); err != nil {
			r.bad("memory", "%s: %v", when, err)
		}
	}
}

func (r *run) checkShared(when string) {
	for i, s := range r.sh {
		want := s.enc
		if want == nil {
			want = rt.U8(s.want)
		}
		if !bytes.Equal(s.mem.RW(), want) {
			r.bad("disturbed", "%s, shared input %d has changed: %s", when, i, bytesDiff(s.mem.RW(), want))
		}
	}
}

// final checks the whole history's results once more after the last task.
func (r *run) final() (v *rt.Violation) {
	defer func() {
		if p := recover(); p != nil {
			if f, ok := p.(finalViolation); ok {
				v = f.v
				return
			}
			panic(p)
		}
	}()
	fail := func(kind, format string, a ...interface{}) {
		panic(finalViolation{&rt.Violation{Kind: kind, Msg: "at the end of the run: " + fmt.Sprintf(format, a...), Task: -1}})
	}
	for _, h := range r.held {
		if !bytes.Equal(h.got, h.want) {
			fail("disturbed", "%s of task%d has changed: %s", h.desc, h.task, bytesDiff(h.got, h.want))
		}
	}
	for _, m := range rt.Mems() {
		if err := m.Canaries(); err != nil {
			fail("memory", "%v", err)
		}
	}
	for i, s := range r.sh {
		want := s.enc
		if want == nil {
			want = rt.U8(s.want)
		}
		if !bytes.Equal(s.mem.RW(), want) {
			fail("disturbed", "shared input %d has changed: %s", i, bytesDiff(s.mem.RW(), want))
		}
	}
	for _, x := range r.sess {
		if msg := x.finish(); msg != "" {
			fail("session", "%s", msg)
		}
	}
	if r.draw != nil {
		if kind, msg := r.draw.final(); msg != "" {
			fail(kind, "%s", msg)
		}
	}
	return nil
}

type finalViolation struct{ v *rt.Violation }

func place(p int) int { return p % 3 }

// intsIn prepares an integer input and returns what it holds, the view handed
// to the library, and its buffer.
func (r *run) intsIn(ti int, o *Op, n int) (want []uint32, view []uint32, m *rt.Mem) {
	if o.Buf > 0 && o.Buf <= len(r.sh) && r.sh[o.Buf-1].b.Kind == "ints" {
		s := r.sh[o.Buf-1]
		off := o.Off
		if off > s.b.N {
			off = s.b.N
		}
		end := off + n
		if end > s.b.N {
			end = s.b.N
		}
		if end-off == n {
			b := s.mem.RW()
			if s.b.RO {
				b = s.mem.RO()
			}
			return s.want[off:end], rt.U32(b)[off:end:end], s.mem
		}
	}
	want = o.V.Make(n)
	spare := o.Spare &^ 3
	st := r.st[ti]
	if o.Reuse && st.lastInts != nil && st.lastInts.Cap >= 4*n {
		m = st.lastInts
		r.probe("input buffer reused with new contents")
		b := m.RW()
		b = b[:cap(b)]
		copy(b, rt.U8(want))
		if o.RO {
			b = m.RO()
			b = b[:cap(b)]
		}
		return want, rt.U32(b)[:n], m
	}
	m = rt.Alloc("the input", 4*n, 4*n+spare, place(o.In), 4)
	b := m.RW()
	copy(b, rt.U8(want))
	rnd := rt.NewRng(o.V.Seed ^ 77)
	for i, x := 0, b[len(b):cap(b)]; i < len(x); i++ {
		x[i] = byte(rnd.U32())
	}
	st.lastInts = m
	if o.RO {
		b = m.RO()
	}
	if o.Open {
		b = m.Open(b)
	}
	return want, rt.U32(b), m
}

// bytesIn prepares a byte input: content, then spare bytes of foreign content
// within the capacity.
func (r *run) bytesIn(ti int, o *Op, name string, content []byte, spare int) ([]byte, *rt.Mem) {
	st := r.st[ti]
	var m *rt.Mem
	if o.Reuse && st.lastStr != nil && st.lastStr.Cap >= len(content) && o.Cut == nil {
		m = st.lastStr
		r.probe("stream buffer reused with new contents")
		b := m.RW()
		b = b[:cap(b)]
		copy(b, content)
		if o.RO {
			b = m.RO()
			b = b[:cap(b)]
		}
		return b[:len(content)], m
	}
	m = rt.Alloc(name, len(content), len(content)+spare, place(o.In), 1)
	b := m.RW()
	copy(b, content)
	rnd := rt.NewRng(o.V.Seed ^ 78)
	for i, x := 0, b[len(b):cap(b)]; i < len(x); i++ {
		x[i] = byte(rnd.U32())
	}
	st.lastStr = m
	if o.RO {
		b = m.RO()
	}
	if o.Open && o.Cut == nil {
		b = m.Open(b)
		r.probe("capacity of the input reaches into unmapped memory")
	}
	return b, m
}

// out prepares an output of n bytes plus extra; the library gets a slice of
// n+extra bytes.
func (r *run) out(ti int, o *Op, n, extra, align int, name string) (b []byte, m *rt.Mem, check func()) {
	if off, ok := r.segOff[o]; ok && r.segMem != nil && n <= segSize(o) {
		all := r.segMem.RW()
		b = all[off : off+n : off+n]
		for i := range b {
			if b[i] != 0x5b {
				r.bad("disturbed", "output region (byte %d of the common buffer) was written to by another call before this one began", off+i)
			}
		}
		if len(all) > off+n {
			// what lies behind the region belongs to other calls, as it does
			// for a user who decodes into out[i:] of an array
			switch o.Tail {
			case 1:
				b = all[off:]
				r.probe("output slice runs on over the regions of other calls")
			case 2:
				b = all[off : off+n]
				r.probe("output capacity runs on over the regions of other calls")
			}
		}
		return b, nil, func() {}
	}
	st := r.st[ti]
	last := &st.lastOut
	if align == 1 {
		last = &st.lastBuf
	}
	if o.Reuse && *last != nil && (*last).Cap >= n+extra && (*last).Len >= n+extra {
		m = *last
		r.unholdMem(m)
		r.probe("output buffer reused")
	} else {
		m = rt.Alloc(name, n+extra, n+extra, place(o.Out), align)
		*last = m
	}
	b = m.RW()[:n+extra]
	for i := range b {
		b[i] = 0x5b
	}
	full := b
	return b, m, func() {
		for i := n; i < len(full); i++ {
			if full[i] != 0x5b {
				r.bad("memory", "wrote %#x to the output %d bytes past what the call asks for", full[i], i-n)
			}
		}
	}
}

func desc(k int, o *Op) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "call %d %s", k, o.F)
	f := fnByName[o.F]
	if o.F[0] != '@' {
		fmt.Fprintf(&sb, "(n=%d", o.N)
		if f.Delta {
			fmt.Fprintf(&sb, ", prev=%d", o.Prev)
		}
		sb.WriteString(")")
	}
	if o.Node < len(Nodes) {
		fmt.Fprintf(&sb, " on %s", Nodes[o.Node].Name)
	}
	if o.Bad != "" {
		fmt.Fprintf(&sb, " [%s]", o.Bad)
	}
	return sb.String()
}

func (r *run) op(ti, k int, o *Op) {
	st := r.st[ti]
	st.cur = desc(k, o)
	r.c.Ops++
	if o.F[0] == '@' {
		r.action(ti, k, o)
		return
	}
	f, ok := fnByName[o.F]
	if !ok {
		panic("unknown function " + o.F)
	}
	if o.Bad != "" {
		r.badOp(ti, k, o, f)
		return
	}
	if !r.usable(o, f) {
		r.c.Skipped++
		if b := r.boxes[o.Pub]; b != nil {
			b.done, b.none = true, true
		}
		return
	}
	if o.Times > 0 {
		r.marathon(ti, k, o)
	}
	r.c.Fn[o.F]++
	if place(o.In) == rt.FlushEnd && o.Spare == 0 && o.Buf == 0 && !o.Reuse {
		r.c.Fault["input flush against unmapped memory"]++
	}
	if place(o.Out) == rt.FlushEnd && !isEnc(f) && !o.Seg && !o.Reuse {
		r.c.Fault["output flush against unmapped memory"]++
	}
	if o.RO {
		r.c.Fault["input in read-only memory"]++
	}
	rt.Begin(k, stepLimit(o.N), "takes more statements than any input of this size can need: "+st.cur)
	switch f.Kind {
	case "E", "ED":
		r.encStream(ti, o, f)
	case "D", "DD":
		r.decStream(ti, o, f)
	case "P8", "P8D", "P4", "P4D", "PN", "PND":
		r.encBlock(ti, o, f)
	case "G8", "G8D", "G4", "G4D", "GN", "GND":
		r.decBlock(ti, o, f)
	default:
		r.util(ti, o, f)
	}
	rt.End()
	if r.sp.Hold {
		r.checkHeld(-1, "after it")
		r.checkShared("after it")
	}
	st.cur = ""
}

func (r *run) checkInts(o *Op, want, view []uint32, m *rt.Mem) {
	if d := intsDiff(view, want); d != "" {
		r.bad("disturbed", "its input has changed: %s", d)
	}
	if err := m.Canaries(); err != nil {
		r.bad("memory", "%v", err)
	}
}

func (r *run) encStream(ti int, o *Op, f Fn) {
	want, in, m := r.intsIn(ti, o, o.N)
	a := &Nodes[o.Node]
	var got []byte
	if f.Delta {
		fn := a.ED[o.F]
		r.must(o, func() { got = fn(in, o.Prev) })
	} else {
		fn := a.E[o.F]
		r.must(o, func() { got = fn(in) })
	}
	nums := want
	if f.Delta {
		nums = ref.Deltas(want, o.Prev)
	}
	exp := ref.Encode(nums)
	r.digest(hashBytes(got), uint64(len(got)))
	if d := bytesDiff(got, exp); d != "" {
		r.bad("wrong", "wrong stream: %s", d)
	}
	r.checkInts(o, want, in, m)
	if w := rt.Owner(got); w != nil {
		if err := w.Canaries(); err != nil {
			r.bad("memory", "%v", err)
		}
	}
	full := got[:cap(got)]
	if overlap(full, m.RW()) || overlap(full, m.RO()) {
		r.bad("shared", "the returned stream shares memory with the input")
	}
	for _, h := range r.held {
		if overlap(full, h.full) {
			r.bad("shared", "the returned stream shares memory with %s of task%d", h.desc, h.task)
		}
	}
	r.hold(held{got: got, want: exp, full: full, desc: "the stream returned by " + r.st[ti].cur, task: ti})
	if o.Pub > 0 {
		if b := r.boxes[o.Pub]; b != nil {
			b.b, b.n, b.prev, b.want, b.done = append([]byte(nil), got...), o.N, o.Prev, want, true
		}
	}
}

func (r *run) decStream(ti int, o *Op, f Fn) {
	a := &Nodes[o.Node]
	n := o.N
	prev := o.Prev
	var content []byte
	var view []byte
	var m *rt.Mem
	var shm *shared
	if o.Src > 0 && r.boxes[o.Src] != nil {
		b := r.boxes[o.Src]
		rt.Block(func() bool { return b.done })
		if b.none {
			return
		}
		content, n, prev = append([]byte(nil), b.b...), b.n, b.prev
		rt.Begin(rtIdx(r, ti, o), stepLimit(n), "takes more statements than any input of this size can need: "+r.st[ti].cur)
		r.c.Fault["stream handed from node to node"]++
	} else if kind := map[bool]string{false: "stream", true: "deltas"}[f.Delta]; o.Buf > 0 && o.Buf <= len(r.sh) && r.sh[o.Buf-1].b.Kind == kind {
		shm = r.sh[o.Buf-1]
		content, n, prev = shm.enc, shm.b.N, shm.b.Prev
	} else {
		content = o.stream(f.Delta)
	}
	if less := o.Less; less > 0 && less < n && (n-less+3)/4 == (n+3)/4 {
		n -= less
		r.probe("fewer integers of the last group wanted than it holds")
	}
	if shm == nil && o.Cut == nil && o.Rest > 0 {
		content = withRest(content, o.Rest, o.V.Seed)
		r.probe("other bytes follow the stream")
	}
	full := content
	cut := -1
	if o.Cut != nil && shm == nil && o.Src == 0 && n > 0 {
		need, err := ref.Need(n, content)
		if err == nil && need <= len(content) {
			cut = o.Cut.pos(n, need)
			content = content[:cut]
		}
	}
	need, err := ref.Need(n, content)
	short := err != nil || need > len(content)
	wild := short && (f.Fast || f.Gen) // may be accelerated: only promised inside a larger readable buffer
	switch {
	case shm != nil:
		m = shm.mem
		view = m.RW()
		if shm.b.RO {
			view = m.RO()
		}
	case cut >= 0 || wild:
		// What lies behind the end: stale bytes, as the cut says.
		tail := 0
		stale := 0
		inCap := false
		if o.Cut != nil {
			stale, inCap = o.Cut.Stale, o.Cut.InCap
			if inCap {
				tail = len(full) - len(content)
			}
		}
		if wild {
			tail = len(full) - len(content) + 64
		}
		buf := make([]byte, len(content)+tail)
		rnd := rt.NewRng(o.V.Seed ^ 79)
		for i := range buf {
			switch {
			case i < len(content):
				buf[i] = content[i]
			case stale == 0 && i < len(full):
				buf[i] = full[i]
			case stale == 2:
				buf[i] = 0
			case stale == 3:
				buf[i] = 0xff
			default:
				buf[i] = byte(rnd.U32())
			}
		}
		var b []byte
		b, m = r.bytesIn(ti, o, "the stored stream", buf, 0)
		if inCap {
			view = b[:len(content)]
			r.c.Fault["stale bytes within the capacity"]++
		} else {
			view = b[:len(content):len(content)]
			if tail > 0 {
				r.c.Fault["stale bytes behind the capacity"]++
			}
		}
	default:
		view, m = r.bytesIn(ti, o, "the stream", content, o.Spare)
	}
	if cut >= 0 {
		r.c.Fault["stream cut short"]++
	}
	if len(o.Muts) > 0 && shm == nil && o.Src == 0 {
		r.c.Fault["stored bytes altered"] += int64(len(o.Muts))
		if short {
			r.probe("altered stream calls for more data than there is")
		} else {
			r.probe("altered stream still well-formed")
		}
	}
	if o.Synth {
		r.c.Fault["control bytes replaced by arbitrary ones"]++
	}
	oo := *o
	oo.N = n
	ob, om, check := r.out(ti, o, 4*n, 4*o.Extra, 4, "the output")
	if len(ob) != 4*(n+o.Extra) && r.segOff[o] == 0 && om != nil {
		panic("harness: output size")
	}
	outv := rt.U32(ob)
	do := func() {
		if f.Delta {
			a.DD[o.F](n, view, outv, prev)
		} else {
			a.D[o.F](n, view, outv)
		}
	}
	in0 := hashBytes(m.RW())
	if short {
		why := fmt.Sprintf("the stream holds %d of the %d bytes that its control bytes call for", len(content), need)
		if err != nil {
			why = fmt.Sprintf("the stream holds %d of its %d control bytes", len(content), (n+3)/4)
		}
		r.mustPanic(o, why, do)
		check()
		if om != nil {
			if err := om.Canaries(); err != nil {
				r.bad("memory", "%v", err)
			}
		}
		if hashBytes(m.RW()) != in0 {
			r.bad("disturbed", "its input stream has changed")
		}
		r.digest(hashBytes(view), 1)
		// what a failed decode leaves in its output is unspecified
		return
	}
	r.must(o, do)
	exp, _ := ref.Decode(n, content)
	if f.Delta {
		exp = ref.Sums(exp, prev)
	}
	r.digest(hashBytes(rt.U8(outv[:n])), uint64(n))
	if d := intsDiff(outv, exp); d != "" {
		r.bad("wrong", "wrong integers: %s", d)
	}
	check()
	if hashBytes(m.RW()) != in0 {
		r.bad("disturbed", "its input stream has changed")
	}
	if err := m.Canaries(); err != nil {
		r.bad("memory", "%v", err)
	}
	if om != nil {
		if err := om.Canaries(); err != nil {
			r.bad("memory", "%v", err)
		}
	}
	if n%4 != 0 && place(o.In) == rt.FlushEnd && o.Spare == 0 {
		r.probe("partial last group flush against the end of memory")
	}
	r.hold(held{got: rt.U8(outv[:n:n]), want: append([]byte(nil), rt.U8(exp)...), desc: "the integers decoded by " + r.st[ti].cur, task: ti, mem: om})
}

func rtIdx(r *run, ti int, o *Op) int {
	for k := range r.sp.Tasks[ti].Ops {
		if &r.sp.Tasks[ti].Ops[k] == o {
			return k
		}
	}
	return 0
}

func blockN(kind string, n int) int {
	switch kind {
	case "P8", "P8D", "G8", "G8D":
		return 8
	case "P4", "P4D", "G4", "G4D":
		return 4
	}
	return n % 5
}

// askFor is the count given to a call that handles up to four integers; a larger
// one means four.
func askFor(o *Op, n int) int {
	if n == 4 && o.N > 4 {
		return 4 + o.N/5%9
	}
	return n
}

func (r *run) encBlock(ti int, o *Op, f Fn) {
	a := &Nodes[o.Node]
	n := blockN(f.Kind, o.N)
	want, in, m := r.intsIn(ti, o, n)
	nums := want
	if f.Delta {
		nums = ref.Deltas(want, o.Prev)
	}
	ctrl, data := ref.Split(nums)
	size := 4 * n
	if o.Exact && !f.Fast && !f.Gen && !o.Seg {
		size = len(data)
	}
	ob, om, check := r.out(ti, o, size, o.Extra, 1, "the output")
	var got uint64
	r.must(o, func() {
		switch f.Kind {
		case "P8":
			got = uint64(a.P8[o.F](in, ob))
		case "P8D":
			got = uint64(a.P8D[o.F](in, ob, o.Prev))
		case "P4":
			got = uint64(a.P4[o.F](in, ob))
		case "P4D":
			got = uint64(a.P4D[o.F](in, ob, o.Prev))
		case "PN":
			got = uint64(a.PN[o.F](in, ob, askFor(o, n)))
		case "PND":
			got = uint64(a.PND[o.F](in, ob, askFor(o, n), o.Prev))
		}
	})
	var wc uint64
	for i, c := range ctrl {
		wc |= uint64(c) << (8 * uint(i))
	}
	r.digest(got, hashBytes(ob[:len(data)]))
	if got != wc {
		r.bad("wrong", "wrong control value: got %#x, want %#x", got, wc)
	}
	if d := bytesDiff(ob[:len(data)], data); d != "" {
		r.bad("wrong", "wrong data: %s", d)
	}
	r.checkInts(o, want, in, m)
	check()
	if om != nil {
		if err := om.Canaries(); err != nil {
			r.bad("memory", "%v", err)
		}
	}
	if a.Size1 != nil && n == 4 {
		r.must(o, func() { got = uint64(a.Size1(uint8(wc))) })
		if int(got) != len(data) {
			r.bad("wrong", "ControlByteToSize(%#x) = %d, want %d", wc, got, len(data))
		}
	}
	if a.Size2 != nil && n == 8 {
		r.must(o, func() { got = uint64(a.Size2(uint16(wc))) })
		if int(got) != len(data) {
			r.bad("wrong", "ControlByteToSizeTwo(%#x) = %d, want %d", wc, got, len(data))
		}
	}
	r.hold(held{got: ob[:len(data):len(data)], want: data, desc: "the block written by " + r.st[ti].cur, task: ti, mem: om})
}

func (r *run) decBlock(ti int, o *Op, f Fn) {
	a := &Nodes[o.Node]
	n := blockN(f.Kind, o.N)
	oo := *o
	oo.N = n
	s := oo.stream(f.Delta)
	nc := (n + 3) / 4
	var ctrl uint16
	for i := 0; i < nc && i < len(s); i++ {
		ctrl |= uint16(s[i]) << (8 * uint(i))
	}
	need, err := ref.Need(n, s)
	if err != nil {
		return
	}
	data := s[nc:]
	need -= nc
	if n%4 != 0 && o.Synth { // unused bits of the control byte
		ctrl |= uint16(o.V.Seed>>40) << (2 * uint(n%4)) & 0xff
	}
	short := len(data) < need
	if o.Cut != nil && n > 0 && need > 0 {
		cut := o.Cut.pos(0, need)
		data = data[:cut]
		short = true
		r.c.Fault["stream cut short"]++
	}
	// the accelerated and general block decoders are given a 32-byte buffer
	buf := data
	if f.Fast || f.Gen {
		if short {
			return // not promised for these
		}
		for len(buf) < 32 {
			buf = append(buf, byte(0x31+len(buf)))
		}
		buf = buf[:32]
	}
	var view []byte
	var m *rt.Mem
	if short && o.Cut != nil && o.Cut.InCap {
		full := append(append([]byte(nil), data...), s[nc+len(data):]...)
		view, m = r.bytesIn(ti, o, "the block", full, 0)
		view = view[:len(data)]
		r.c.Fault["stale bytes within the capacity"]++
	} else {
		view, m = r.bytesIn(ti, o, "the block", buf, o.Spare)
	}
	ob, om, check := r.out(ti, o, 4*n, 4*o.Extra, 4, "the output")
	outv := rt.U32(ob)
	ret := -1
	do := func() {
		switch f.Kind {
		case "G8":
			a.G8[o.F](view, outv, ctrl)
		case "G8D":
			a.G8D[o.F](view, outv, ctrl, o.Prev)
		case "G4":
			a.G4[o.F](view, outv, uint8(ctrl))
		case "G4D":
			a.G4D[o.F](view, outv, uint8(ctrl), o.Prev)
		case "GN":
			ret = a.GN[o.F](view, outv, uint8(ctrl), askFor(o, n))
		case "GND":
			ret = a.GND[o.F](view, outv, uint8(ctrl), askFor(o, n), o.Prev)
		}
	}
	in0 := hashBytes(m.RW())
	if short {
		r.mustPanic(o, fmt.Sprintf("the block holds %d of the %d bytes that its control value %#x calls for", len(data), need, ctrl), do)
		check()
		return
	}
	r.must(o, do)
	full := append(append([]byte(nil), s[:nc]...), data...)
	exp, _ := ref.Decode(n, full)
	if f.Delta {
		exp = ref.Sums(exp, o.Prev)
	}
	r.digest(hashBytes(ob[:4*n]), uint64(ret))
	if d := intsDiff(outv, exp); d != "" {
		r.bad("wrong", "wrong integers (control value %#x): %s", ctrl, d)
	}
	if (f.Kind == "GN" || f.Kind == "GND") && ret != need {
		r.bad("wrong", "returned %d bytes read, want %d", ret, need)
	}
	check()
	if hashBytes(m.RW()) != in0 {
		r.bad("disturbed", "its input has changed")
	}
	if err := m.Canaries(); err != nil {
		r.bad("memory", "%v", err)
	}
	if om != nil {
		if err := om.Canaries(); err != nil {
			r.bad("memory", "%v", err)
		}
	}
	r.hold(held{got: ob[: 4*n : 4*n], want: append([]byte(nil), rt.U8(exp)...), desc: "the integers decoded by " + r.st[ti].cur, task: ti, mem: om})
}

func (r *run) util(ti int, o *Op, f Fn) {
	a := &Nodes[o.Node]
	n := o.N
	switch f.Kind {
	case "VP", "VPD":
		want, in, m := r.intsIn(ti, o, n)
		nums := want
		if f.Delta {
			nums = ref.Deltas(want, o.Prev)
		}
		exp := ref.Varint(nums)
		size := 5 * n
		if o.Exact {
			size = len(exp)
		}
		ob, om, _ := r.out(ti, o, size, o.Extra, 1, "the output")
		got := -1
		r.must(o, func() {
			if f.Delta {
				got = a.VPD(in, ob, o.Prev)
			} else {
				got = a.VP(in, ob)
			}
		})
		if got != len(exp) {
			r.bad("wrong", "wrote %d bytes, want %d", got, len(exp))
		}
		if d := bytesDiff(ob[:len(exp)], exp); d != "" {
			r.bad("wrong", "wrong varints: %s", d)
		}
		r.checkInts(o, want, in, m)
		for i, x := range ob[len(exp):] {
			if x != 0x5b {
				r.bad("memory", "wrote %#x to the output %d bytes past what it reports", x, i)
			}
		}
		r.digest(hashBytes(ob))
		r.hold(held{got: ob[:len(exp):len(exp)], want: exp, desc: "the varints written by " + r.st[ti].cur, task: ti, mem: om})
		if om != nil {
			if err := om.Canaries(); err != nil {
				r.bad("memory", "%v", err)
			}
		}
	case "VG", "VGD":
		nums := o.V.Make(n)
		src := nums
		if f.Delta {
			src = ref.Deltas(nums, o.Prev)
		}
		content := ref.Varint(src)
		view, m := r.bytesIn(ti, o, "the varints", content, o.Spare)
		ob, om, check := r.out(ti, o, 4*n, 4*o.Extra, 4, "the output")
		outv := rt.U32(ob)
		got := -1
		in0 := hashBytes(m.RW())
		r.must(o, func() {
			if f.Delta {
				got = a.VGD(view, outv, o.Prev)
			} else {
				got = a.VG(view, outv)
			}
		})
		if got != len(content) {
			r.bad("wrong", "read %d bytes, want %d", got, len(content))
		}
		if d := intsDiff(outv, nums); d != "" {
			r.bad("wrong", "wrong integers: %s", d)
		}
		check()
		if hashBytes(m.RW()) != in0 {
			r.bad("disturbed", "its input has changed")
		}
		r.digest(hashBytes(ob[:4*n]))
		if om != nil {
			if err := om.Canaries(); err != nil {
				r.bad("memory", "%v", err)
			}
		}
		r.hold(held{got: rt.U8(outv[:n:n]), want: append([]byte(nil), rt.U8(nums)...), desc: "the integers decoded by " + r.st[ti].cur, task: ti, mem: om})
	case "Delta":
		want, in, m := r.intsIn(ti, o, n)
		ob, om, check := r.out(ti, o, 4*n, 4*o.Extra, 4, "the output")
		outv := rt.U32(ob)
		r.must(o, func() { a.Delta(in, outv) })
		exp := ref.Deltas(want, 0)
		if d := intsDiff(outv, exp); d != "" {
			r.bad("wrong", "wrong differences: %s", d)
		}
		check()
		r.checkInts(o, want, in, m)
		r.digest(hashBytes(ob[:4*n]))
		r.hold(held{got: rt.U8(outv[:n:n]), want: rt.U8(exp), desc: "the differences made by " + r.st[ti].cur, task: ti, mem: om})
	case "Sort":
		want := o.V.Make(n)
		ob, om, check := r.out(ti, o, 4*n, 4*o.Extra, 4, "the array")
		outv := rt.U32(ob)[:n]
		copy(outv, want)
		exp := append([]uint32(nil), want...)
		sort.Slice(exp, func(i, j int) bool { return exp[i] < exp[j] })
		r.must(o, func() { a.Sort(outv) })
		if d := intsDiff(outv, exp); d != "" {
			r.bad("wrong", "not sorted: %s", d)
		}
		check()
		r.digest(hashBytes(ob[:4*n]))
		r.hold(held{got: rt.U8(outv[:n:n]), want: rt.U8(exp), desc: "the array sorted by " + r.st[ti].cur, task: ti, mem: om})
	}
}

// action is something a caller does with memory it owns.
func (r *run) action(ti, k int, o *Op) {
	rnd := rt.NewRng(o.V.Seed)
	mine := func() *held {
		var idx []int
		for i := range r.held {
			if r.held[i].task == ti && r.held[i].full != nil {
				idx = append(idx, i)
			}
		}
		if len(idx) == 0 {
			return nil
		}
		return &r.held[idx[rnd.Intn(len(idx))]]
	}
	rt.Yield()
	switch o.F {
	case "@recheck":
		r.checkHeld(-1, "later")
		r.checkShared("later")
	case "@scribble": // overwrite a returned stream, spare capacity included
		if h := mine(); h != nil {
			for i := range h.full {
				h.full[i] = byte(rnd.U32())
			}
			h.want = append([]byte(nil), h.got...)
			r.c.Fault["caller overwrote a returned stream"]++
		}
	case "@append":
		if h := mine(); h != nil {
			for i := 0; i < 1+o.N%64; i++ {
				h.got = append(h.got, byte(rnd.U32()))
			}
			h.want = append([]byte(nil), h.got...)
			if len(h.got) <= len(h.full) {
				r.c.Fault["caller appended within a returned stream's capacity"]++
			}
			h.full = h.got[:cap(h.got)]
		}
	case "@scribbleIn": // overwrite input buffers handed to earlier calls
		st := r.st[ti]
		for _, m := range []*rt.Mem{st.lastInts, st.lastStr} {
			if m != nil {
				b := m.RW()
				b = b[:cap(b)]
				for i := range b {
					b[i] = byte(rnd.U32())
				}
				r.c.Fault["caller overwrote an earlier input"]++
			}
		}
	case "@scribbleOut": // overwrite output buffers handed to earlier calls
		st := r.st[ti]
		for _, m := range []*rt.Mem{st.lastOut, st.lastBuf} {
			if m != nil {
				r.unholdMem(m)
				b := m.RW()
				for i := range b {
					b[i] = byte(rnd.U32())
				}
				r.c.Fault["caller overwrote an earlier output"]++
			}
		}
	case "@gc":
		if n := rt.Collect(); n > 0 {
			r.c.Fault["garbage collection that ran finalizers"]++
		}
	case "@yield":
	}
	rt.Yield()
}

// badOp makes a call on arguments that are undersized or malformed. Its own
// outcome is not judged; it gets private buffers with room around them.
func (r *run) badOp(ti, k int, o *Op, f Fn) {
	a := &Nodes[o.Node]
	if !r.usable(o, f) {
		return
	}
	n := o.N
	rnd := rt.NewRng(o.V.Seed ^ 5)
	nums := o.V.Make(n)
	src := nums
	if f.Delta {
		src = ref.Deltas(nums, o.Prev)
	}
	rt.Begin(k, stepLimit(n), "takes more statements than any input of this size can need: "+r.st[ti].cur)
	slackOut := make([]uint32, n+64)
	slackBytes := make([]byte, 5*n+256)
	var fn func()
	short := func(max int) int {
		if max <= 0 {
			return 0
		}
		return rnd.Intn(max)
	}
	in := make([]uint32, n+64)
	copy(in, nums)
	in = in[:n]
	switch f.Kind {
	case "D", "DD":
		enc := ref.Encode(src)
		st := make([]byte, len(enc)+128)
		copy(st, enc)
		view := st[:len(enc)]
		out := slackOut[:n]
		cnt := n
		switch o.Bad {
		case "torn":
			view = st[:short(len(enc))]
		case "nilstream":
			view = nil
			if f.Fast || f.Gen {
				view = st[:0]
			}
		case "negcount":
			cnt = -1 - rnd.Intn(100)
		case "garbage":
			for i := range view {
				view[i] = byte(rnd.U32())
			}
		default: // short output
			out = slackOut[:short(n)]
		}
		if f.Delta {
			fn = func() { a.DD[o.F](cnt, view, out, o.Prev) }
		} else {
			fn = func() { a.D[o.F](cnt, view, out) }
		}
	case "P8", "P8D", "P4", "P4D", "PN", "PND":
		if f.Fast || f.Gen {
			break
		}
		b := blockN(f.Kind, n)
		inb := in
		if len(inb) > b {
			inb = inb[:b]
		}
		out := slackBytes[:32]
		if o.Bad == "shortin" {
			inb = inb[:short(len(inb))]
		} else {
			out = slackBytes[:short(4)]
		}
		cnt := b
		fn = func() {
			switch f.Kind {
			case "P8":
				a.P8[o.F](inb, out)
			case "P8D":
				a.P8D[o.F](inb, out, o.Prev)
			case "P4":
				a.P4[o.F](inb, out)
			case "P4D":
				a.P4D[o.F](inb, out, o.Prev)
			case "PN":
				a.PN[o.F](inb, out, cnt)
			case "PND":
				a.PND[o.F](inb, out, cnt, o.Prev)
			}
		}
	case "G8", "G8D", "G4", "G4D", "GN", "GND":
		if f.Fast || f.Gen {
			break
		}
		b := blockN(f.Kind, n)
		ctrl := uint16(rnd.U32())
		view := slackBytes[:short(3*b+1)]
		out := slackOut[:b]
		if o.Bad != "torn" {
			view = slackBytes[:32]
			out = slackOut[:short(b)]
		}
		fn = func() {
			switch f.Kind {
			case "G8":
				a.G8[o.F](view, out, ctrl)
			case "G8D":
				a.G8D[o.F](view, out, ctrl, o.Prev)
			case "G4":
				a.G4[o.F](view, out, uint8(ctrl))
			case "G4D":
				a.G4D[o.F](view, out, uint8(ctrl), o.Prev)
			case "GN":
				a.GN[o.F](view, out, uint8(ctrl), b)
			case "GND":
				a.GND[o.F](view, out, uint8(ctrl), b, o.Prev)
			}
		}
	case "VP":
		fn = func() { a.VP(in, slackBytes[:short(n)]) }
	case "VPD":
		fn = func() { a.VPD(in, slackBytes[:short(n)], o.Prev) }
	case "VG":
		fn = func() { a.VG(ref.Varint(nums), slackOut[:short(n)]) }
	case "VGD":
		fn = func() { a.VGD(ref.Varint(src), slackOut[:short(n)], o.Prev) }
	case "Delta":
		fn = func() { a.Delta(in, slackOut[:short(n)]) }
	}
	if fn == nil {
		rt.End()
		return
	}
	p := call(fn)
	rt.End()
	if p != nil {
		r.c.Fault["call that panicked on bad arguments"]++
		r.digest(2)
	} else {
		r.probe("bad arguments tolerated")
	}
	r.st[ti].cur = ""
}
