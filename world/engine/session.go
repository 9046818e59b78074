package engine

import (
	"fmt"

	"simworld/ref"
	"simworld/rt"
)

// Session is one long sequence that is encoded, stored and decoded piece by
// piece by workers that may stall or crash and be replaced.
type Session struct {
	N     int      `json:"n"`
	V     Vals     `json:"v"`
	Prev  uint32   `json:"prev,omitempty"`
	Delta bool     `json:"delta,omitempty"`
	Cuts  []int    `json:"cuts"`            // sizes of the pieces, used in turn
	Queue bool     `json:"queue,omitempty"` // encoders share the pieces instead of standing by
	Sync  int      `json:"sync"`            // a piece is durable only after this many more
	Enc   []Worker `json:"enc"`
	Dec   []Worker `json:"dec"`
}

// Worker is one process that serves a session.
type Worker struct {
	Node   int        `json:"node"`
	API    uint64     `json:"api"` // which calls it uses
	Faults []rt.Fault `json:"faults,omitempty"`
}

type piece struct {
	lo, hi int
	base   uint32
	exp    []byte
	store  []byte // what was put last; nil: missing
	by     int
	dur    bool
	taken  bool
}

type sessRun struct {
	r      *run
	sp     *Session
	idx    int
	want   []uint32
	pieces []piece
	out    *rt.Mem
	outDur int // pieces decoded durably
	enc    []*rt.Task
	dec    []*rt.Task
	lost   map[*rt.Task]bool
}

func (r *run) startSessions() {
	for i := range r.sp.Sess {
		sp := &r.sp.Sess[i]
		s := &sessRun{r: r, sp: sp, idx: i, want: sp.V.Make(sp.N), lost: map[*rt.Task]bool{}}
		prev := sp.Prev
		for lo, k := 0, 0; lo < sp.N; k++ {
			n := 1
			if len(sp.Cuts) > 0 {
				n = sp.Cuts[k%len(sp.Cuts)]
			}
			if n < 1 {
				n = 1
			}
			hi := lo + n
			if hi > sp.N {
				hi = sp.N
			}
			p := piece{lo: lo, hi: hi, base: prev}
			nums := s.want[lo:hi]
			if sp.Delta {
				nums = ref.Deltas(nums, prev)
			}
			p.exp = ref.Encode(nums)
			prev = s.want[hi-1]
			s.pieces = append(s.pieces, p)
			lo = hi
		}
		s.out = rt.Alloc("the decoded sequence", 4*sp.N, 4*sp.N, rt.FlushEnd, 4)
		r.sess = append(r.sess, s)
		add := func(role string, k int, last bool, w *Worker, fn func()) *rt.Task {
			t := r.s.Add(fmt.Sprintf("session%d/%s%d", i, role, k), w.Node, fn)
			fs := append([]rt.Fault(nil), w.Faults...)
			if last {
				fs = nil // somebody has to finish
			}
			for j := range fs {
				if fs[j].Crash && r.shares(i, role, w.Node) {
					fs[j].Crash, fs[j].Dur = false, 0
				}
			}
			t.SetFaults(fs)
			r.st = append(r.st, &tstate{})
			return t
		}
		for k := range sp.Enc {
			k := k
			s.enc = append(s.enc, add("enc", k, k == len(sp.Enc)-1, &sp.Enc[k], func() { s.encoder(k) }))
		}
		for k := range sp.Dec {
			k := k
			s.dec = append(s.dec, add("dec", k, k == len(sp.Dec)-1, &sp.Dec[k], func() { s.decoder(k) }))
		}
	}
}

// shares reports whether somebody who does not stand by for the workers of a
// chain lives on their node: a process that is lost takes all its threads with
// it, so a worker among others is stalled instead.
func (r *run) shares(sess int, role string, node int) bool {
	if len(r.sp.Tasks) > 0 {
		return true
	}
	for i := range r.sp.Sess {
		x := &r.sp.Sess[i]
		for _, c := range []struct {
			role string
			ws   []Worker
		}{{"enc", x.Enc}, {"dec", x.Dec}} {
			same := i == sess && c.role == role
			if same && !(role == "enc" && x.Queue) {
				continue
			}
			n := 0
			for _, w := range c.ws {
				if w.Node == node {
					n++
				}
			}
			if n > 1 || n == 1 && !same {
				return true
			}
		}
	}
	return false
}

// takeOver waits until the k-th worker of a chain has to step in, and
// restarts its node if the one before it was lost there.
func (s *sessRun) takeOver(chain []*rt.Task, ws []Worker, k int, enc bool) {
	if k == 0 {
		return
	}
	p := chain[k-1]
	rt.Block(func() bool {
		susp, _ := p.Suspended()
		return susp || p.Finished()
	})
	// everything lost so far takes its unsynced pieces with it
	for j := 0; j < k; j++ {
		_, gone := chain[j].Suspended()
		if !gone {
			continue
		}
		if enc {
			for i := range s.pieces {
				if q := &s.pieces[i]; q.by == j+1 && q.store != nil && !q.dur {
					q.store, q.taken = nil, false
					s.r.c.Fault["stored piece lost in a crash before it was synced"]++
				}
				if q := &s.pieces[i]; q.by == j+1 && q.taken && q.store == nil {
					q.taken = false
				}
			}
		}
		if n := ws[j].Node; !s.lost[chain[j]] {
			rt.KillNode(n)
			if s.alone(n) {
				rt.Init(n, func() { rt.Atomic(Nodes[n].Reset) })
				s.r.c.Fault["node restarted after a crash"]++
			}
		}
		s.lost[chain[j]] = true
	}
	s.r.probe("session taken over by another worker")
	if ws[k].Node != ws[k-1].Node {
		s.r.probe("session moved to an unlike node")
	}
}

// alone reports whether no task on node n but the running one is alive.
func (s *sessRun) alone(n int) bool {
	cur := rt.Cur()
	for _, x := range s.r.sess {
		for _, c := range [][]*rt.Task{x.enc, x.dec} {
			for _, t := range c {
				_, gone := t.Suspended()
				if t != cur && t.Node == n && !t.Finished() && !gone && t.Started() {
					return false
				}
			}
		}
	}
	return len(s.r.sp.Tasks) == 0
}

func (s *sessRun) encoder(k int) {
	w := &s.sp.Enc[k]
	ti := rt.Cur().ID
	rnd := rt.NewRng(w.API)
	if !s.sp.Queue {
		s.takeOver(s.enc, s.sp.Enc, k, true)
	} else if k == len(s.sp.Enc)-1 {
		// the last one of a pool also finishes what lost ones left behind
		defer s.sweep(k, ti, &rnd)
	}
	for i := range s.pieces {
		p := &s.pieces[i]
		if s.sp.Queue {
			if p.taken {
				continue
			}
			p.taken = true
			p.by = k + 1
		} else if p.dur {
			continue
		}
		s.encodePiece(i, k, ti, &rnd)
		if !s.sp.Queue && s.sp.Sync > 0 {
			if i%s.sp.Sync == s.sp.Sync-1 {
				s.sync(i)
			}
		} else if s.pieces[i].store != nil {
			s.pieces[i].dur = true
		}
	}
	s.sync(len(s.pieces) - 1)
}

func (s *sessRun) sync(upto int) {
	rt.Yield()
	for i := 0; i <= upto; i++ {
		if s.pieces[i].store == nil {
			return
		}
		s.pieces[i].dur = true
	}
}

func (s *sessRun) sweep(k, ti int, rnd *rt.Rng) {
	if rt.Dying() {
		return
	}
	rt.Block(func() bool {
		for _, t := range s.enc[:k] {
			_, gone := t.Suspended()
			if !gone && !t.Finished() {
				return false
			}
		}
		return true
	})
	for i := range s.pieces {
		if s.pieces[i].store == nil {
			s.r.probe("piece of a lost worker done again")
			s.pieces[i].by = k + 1
			s.encodePiece(i, k, ti, rnd)
		}
		s.pieces[i].dur = true
	}
}

func (s *sessRun) pick(rnd *rt.Rng, node int, enc bool, gen, scalar, fast string) string {
	usable := Nodes[node].DecFast
	if enc {
		usable = Nodes[node].EncFast
	}
	switch x := rnd.Intn(3); {
	case x == 0:
		return scalar
	case x == 1 && usable():
		return fast
	}
	return gen
}

func (s *sessRun) begin(ti, op int, n int, format string, a ...interface{}) {
	st := s.r.st[ti]
	st.cur = fmt.Sprintf(format, a...)
	s.r.c.Ops++
	rt.Begin(op, stepLimit(n), "takes more statements than any input of this size can need: "+st.cur)
}

func (s *sessRun) end(ti int) {
	rt.End()
	s.r.st[ti].cur = ""
}

func (s *sessRun) opNo(ti int) int {
	st := s.r.st[ti]
	st.ops++
	return st.ops - 1
}

func (s *sessRun) fn(name string) string {
	if s.sp.Delta {
		for _, suf := range []string{"Scalar", "Fast"} {
			if len(name) > len(suf) && name[len(name)-len(suf):] == suf {
				return name[:len(name)-len(suf)] + "Delta" + suf
			}
		}
		return name + "Delta"
	}
	return name
}

func (s *sessRun) encodePiece(i, k, ti int, rnd *rt.Rng) {
	w := &s.sp.Enc[k]
	p := &s.pieces[i]
	r := s.r
	node := &Nodes[w.Node]
	n := p.hi - p.lo
	base := p.base
	// The base comes from the caller's input, or is recovered from the piece
	// stored before.
	if s.sp.Delta && i > 0 && s.pieces[i-1].store != nil && rnd.Bool(0.3) {
		q := s.pieces[i-1]
		got := s.decodePiece(i-1, w.Node, q.store, q.base, ti, rnd, nil)
		base = got[len(got)-1]
		r.probe("delta base recovered from the stored piece before")
	}
	nums := s.want[p.lo:p.hi]
	m := rt.Alloc("the piece", 4*n, 4*n, rnd.Intn(3), 4)
	copy(m.RW(), rt.U8(nums))
	in := rt.U32(m.RW())
	if rnd.Bool(0.3) {
		in = rt.U32(m.RO())
	}
	var got []byte
	if rnd.Bool(0.5) {
		f := s.fn(s.pick(rnd, w.Node, true, "WriteAll", "WriteAllScalar", "WriteAllFast"))
		s.begin(ti, s.opNo(ti), n, "piece %d (%d integers, base %d): %s on %s", i, n, base, f, node.Name)
		r.c.Fn[f]++
		r.must(nil, func() {
			if s.sp.Delta {
				got = node.ED[f](in, base)
			} else {
				got = node.E[f](in)
			}
		})
		s.end(ti)
	} else {
		got = s.encodeBlocks(i, w.Node, in, base, ti, rnd)
	}
	r.digest(hashBytes(got))
	if d := bytesDiff(got, p.exp); d != "" {
		r.bad("wrong", "session %d: piece %d differs from that of an uninterrupted run: %s", s.idx, i, d)
	}
	r.hold(held{got: got, want: p.exp, full: got[:cap(got)], desc: fmt.Sprintf("piece %d of session %d", i, s.idx), task: ti})
	rt.Yield()
	// put
	if p.store != nil {
		r.probe("piece stored twice")
	}
	p.store = append([]byte{}, got...)
	p.by = k + 1
	rt.Yield()
}

func (s *sessRun) encodeBlocks(i, node int, in []uint32, base uint32, ti int, rnd *rt.Rng) []byte {
	r := s.r
	a := &Nodes[node]
	var ctrl, data []byte
	for len(in) > 0 {
		var m *rt.Mem
		var size, take int
		var c uint64
		switch {
		case len(in) >= 8 && rnd.Bool(0.9):
			f := s.fn(s.pick(rnd, node, true, "Put8uint32", "Put8uint32Scalar", "Put8uint32Fast"))
			m = rt.Alloc("the block buffer", 32, 32, rnd.Intn(3), 1)
			take = 8
			s.begin(ti, s.opNo(ti), 8, "piece %d: %s on %s", i, f, a.Name)
			r.c.Fn[f]++
			r.must(nil, func() {
				if s.sp.Delta {
					c = uint64(a.P8D[f](in, m.RW(), base))
				} else {
					c = uint64(a.P8[f](in, m.RW()))
				}
			})
			s.end(ti)
			size = a.Size2(uint16(c))
			ctrl = append(ctrl, byte(c), byte(c>>8))
		case len(in) >= 4:
			f := s.fn("Put4uint32Scalar")
			m = rt.Alloc("the block buffer", 16, 16, rnd.Intn(3), 1)
			take = 4
			s.begin(ti, s.opNo(ti), 4, "piece %d: %s on %s", i, f, a.Name)
			r.c.Fn[f]++
			r.must(nil, func() {
				if s.sp.Delta {
					c = uint64(a.P4D[f](in, m.RW(), base))
				} else {
					c = uint64(a.P4[f](in, m.RW()))
				}
			})
			s.end(ti)
			size = a.Size1(uint8(c))
			ctrl = append(ctrl, byte(c))
		default:
			f := s.fn("PutUint32Scalar")
			take = len(in)
			m = rt.Alloc("the block buffer", 4*take, 4*take, rnd.Intn(3), 1)
			s.begin(ti, s.opNo(ti), take, "piece %d: %s on %s", i, f, a.Name)
			r.c.Fn[f]++
			r.must(nil, func() {
				if s.sp.Delta {
					c = uint64(a.PND[f](in, m.RW(), take, base))
				} else {
					c = uint64(a.PN[f](in, m.RW(), take))
				}
			})
			s.end(ti)
			for k := 0; k < take; k++ {
				size += int(c>>(2*uint(k))&3) + 1
			}
			ctrl = append(ctrl, byte(c))
		}
		if size > len(m.RW()) {
			r.bad("wrong", "session %d: piece %d: control value %#x for %d integers", s.idx, i, c, take)
		}
		data = append(data, m.RW()[:size]...)
		base = in[take-1]
		in = in[take:]
		rt.Yield()
	}
	return append(ctrl, data...)
}

func (s *sessRun) decoder(k int) {
	w := &s.sp.Dec[k]
	ti := rt.Cur().ID
	rnd := rt.NewRng(w.API)
	s.takeOver(s.dec, s.sp.Dec, k, false)
	for i := s.outDur; i < len(s.pieces); i++ {
		p := &s.pieces[i]
		rt.Block(func() bool { return p.dur })
		base := s.sp.Prev
		all := rt.U32(s.out.RW())
		if p.lo > 0 {
			base = all[p.lo-1] // carried over from what was decoded before
		}
		got := s.decodePiece(i, w.Node, p.store, base, ti, &rnd, all[p.lo:p.hi:p.hi])
		if d := intsDiff(got, s.want[p.lo:p.hi]); d != "" {
			s.r.bad("wrong", "session %d: decoding piece %d (base %d) on %s: %s", s.idx, i, base, Nodes[w.Node].Name, d)
		}
		if err := s.out.Canaries(); err != nil {
			s.r.bad("memory", "%v", err)
		}
		rt.Yield()
		if i+1 > s.outDur {
			s.outDur = i + 1
		}
	}
}

// decodePiece decodes a stored piece into dst, or into a buffer of its own.
func (s *sessRun) decodePiece(i, nodeN int, stored []byte, base uint32, ti int, rnd *rt.Rng, dst []uint32) []uint32 {
	r := s.r
	a := &Nodes[nodeN]
	p := &s.pieces[i]
	n := p.hi - p.lo
	if dst == nil {
		dst = make([]uint32, n)
	}
	m := rt.Alloc("the stored piece", len(stored), len(stored), rnd.Intn(3), 1)
	copy(m.RW(), stored)
	b := m.RW()
	if rnd.Bool(0.3) {
		b = m.RO()
	}
	if rnd.Bool(0.5) {
		f := s.fn(s.pick(rnd, nodeN, false, "ReadAll", "ReadAllScalar", "ReadAllFast"))
		s.begin(ti, s.opNo(ti), n, "decoding piece %d (%d integers, base %d): %s on %s", i, n, base, f, a.Name)
		r.c.Fn[f]++
		r.must(nil, func() {
			if s.sp.Delta {
				a.DD[f](n, b, dst, base)
			} else {
				a.D[f](n, b, dst)
			}
		})
		s.end(ti)
		return dst
	}
	ctrl, data := b[:(n+3)/4], b[(n+3)/4:]
	out := dst
	for len(out) > 0 {
		switch {
		case len(out) >= 8 && rnd.Bool(0.9):
			f := s.fn(s.pick(rnd, nodeN, false, "Get8uint32", "Get8uint32Scalar", "Get8uint32Fast"))
			c := uint16(ctrl[0]) | uint16(ctrl[1])<<8
			blk := data
			if len(blk) < 32 && f != s.fn("Get8uint32Scalar") {
				bm := rt.Alloc("the block buffer", 32, 32, rnd.Intn(3), 1)
				copy(bm.RW(), data)
				blk = bm.RW()
			}
			s.begin(ti, s.opNo(ti), 8, "decoding piece %d: %s on %s", i, f, a.Name)
			r.c.Fn[f]++
			r.must(nil, func() {
				if s.sp.Delta {
					a.G8D[f](blk, out, c, base)
				} else {
					a.G8[f](blk, out, c)
				}
			})
			s.end(ti)
			ctrl, data = ctrl[2:], data[a.Size2(c):]
			base = out[7]
			out = out[8:]
		case len(out) >= 4:
			f := s.fn("Get4uint32Scalar")
			c := ctrl[0]
			s.begin(ti, s.opNo(ti), 4, "decoding piece %d: %s on %s", i, f, a.Name)
			r.c.Fn[f]++
			r.must(nil, func() {
				if s.sp.Delta {
					a.G4D[f](data, out, c, base)
				} else {
					a.G4[f](data, out, c)
				}
			})
			s.end(ti)
			ctrl, data = ctrl[1:], data[a.Size1(c):]
			base = out[3]
			out = out[4:]
		default:
			f := s.fn("GetUint32Scalar")
			k := len(out)
			s.begin(ti, s.opNo(ti), k, "decoding piece %d: %s on %s", i, f, a.Name)
			r.c.Fn[f]++
			got := 0
			r.must(nil, func() {
				if s.sp.Delta {
					got = a.GND[f](data, out, ctrl[0], k, base)
				} else {
					got = a.GN[f](data, out, ctrl[0], k)
				}
			})
			s.end(ti)
			if got != len(data) {
				r.bad("wrong", "session %d: decoding piece %d: %s read %d bytes of %d", s.idx, i, f, got, len(data))
			}
			out = nil
		}
		rt.Yield()
	}
	return dst
}

// finish checks the whole session once every worker has ended.
func (s *sessRun) finish() string {
	for i := range s.pieces {
		p := &s.pieces[i]
		if !p.dur {
			return fmt.Sprintf("session %d: piece %d was never stored durably", s.idx, i)
		}
		if d := bytesDiff(p.store, p.exp); d != "" {
			return fmt.Sprintf("session %d: stored piece %d: %s", s.idx, i, d)
		}
	}
	if s.outDur != len(s.pieces) {
		return fmt.Sprintf("session %d: only %d of %d pieces were decoded", s.idx, s.outDur, len(s.pieces))
	}
	if d := intsDiff(rt.U32(s.out.RW()), s.want); d != "" {
		return fmt.Sprintf("session %d: decoded sequence: %s", s.idx, d)
	}
	return ""
}
