package engine

import (
	"simworld/ref"
	"simworld/rt"
)

// Spec is one simulated run: everything except the scheduler's decisions.
type Spec struct {
	Prop   string     `json:"prop"`
	Seed   uint64     `json:"seed"`
	Pol    rt.Policy  `json:"policy"`
	Bufs   []Buf      `json:"bufs,omitempty"`
	Tasks  []TaskSpec `json:"tasks"`
	Sess   []Session  `json:"sessions,omitempty"`
	Pool   float64    `json:"poolForgets,omitempty"`
	Arena  bool       `json:"arena"`
	Strict bool       `json:"noWaiting,omitempty"`
	Life   *Life      `json:"life,omitempty"`
	Draw   *Draw      `json:"draw,omitempty"`
	Hold   bool       `json:"recheckAfterEveryCall,omitempty"`
}

// TaskSpec is one thread of control: a list of calls, and what befalls it.
type TaskSpec struct {
	Ops    []Op       `json:"ops,omitempty"`
	Faults []rt.Fault `json:"faults,omitempty"`
}

// Buf is an input shared by several calls: integers, or their encoding.
type Buf struct {
	N     int    `json:"n"`
	V     Vals   `json:"v"`
	Kind  string `json:"kind"` // ints, stream, deltas
	Prev  uint32 `json:"prev,omitempty"`
	Place int    `json:"place"`
	RO    bool   `json:"ro,omitempty"`
	Rest  int    `json:"rest,omitempty"` // bytes that follow the stream within the slice
}

// Mut is one alteration of stored bytes.
type Mut struct {
	K string `json:"k"`
	P uint64 `json:"p"`
	A uint64 `json:"a,omitempty"`
}

// Cut says where a stored stream ends early.
type Cut struct {
	K     string `json:"k"` // any, end, ctrl, empty
	P     uint64 `json:"p"`
	Stale int    `json:"stale"` // what follows in memory: 0 the lost bytes, 1 random, 2 zeros, 3 0xff
	InCap bool   `json:"inCap,omitempty"`
}

// Op is one call of the library or one action of its caller.
type Op struct {
	F     string `json:"f"`
	Node  int    `json:"node,omitempty"`
	N     int    `json:"n"`
	V     Vals   `json:"v"`
	Prev  uint32 `json:"prev,omitempty"`
	In    int    `json:"in,omitempty"`  // placement of the input
	Out   int    `json:"out,omitempty"` // placement of the output
	RO    bool   `json:"ro,omitempty"`
	Extra int    `json:"extra,omitempty"` // output longer than needed
	Spare int    `json:"spare,omitempty"` // capacity beyond the input's length
	Open  bool   `json:"open,omitempty"`  // of a flush input: the capacity reaches into the unmapped memory behind it
	Rest  int    `json:"rest,omitempty"`  // bytes that follow the stream within the slice
	Less  int    `json:"less,omitempty"`  // decode that many integers of the last group less than were encoded
	Buf   int    `json:"buf,omitempty"`   // 1 + index of the shared input
	Off   int    `json:"off,omitempty"`   // start within a shared input of integers
	Seg   bool   `json:"seg,omitempty"`   // output is a segment of the common output buffer
	Tail  int    `json:"tail,omitempty"`  // of a segment: 1 the slice, 2 its capacity runs on to the end of the buffer
	Reuse bool   `json:"reuse,omitempty"` // use the task's previous buffers again, with new contents
	Pub   int    `json:"pub,omitempty"`   // publish the produced stream in this mailbox
	Src   int    `json:"src,omitempty"`   // decode the stream from this mailbox
	Exact bool   `json:"exact,omitempty"` // block encoders: output exactly as long as the encoding
	Synth bool   `json:"synth,omitempty"` // block/stream decoders: arbitrary control bytes over arbitrary data
	Cut   *Cut   `json:"cut,omitempty"`
	Muts  []Mut  `json:"muts,omitempty"`
	Bad   string `json:"bad,omitempty"`
	Times int    `json:"times,omitempty"` // before it, some rounds of so many short calls of the same function
}

func (c Cut) pos(count, total int) int {
	if total <= 0 {
		return 0
	}
	nc := (count + 3) / 4
	switch c.K {
	case "end":
		k := 1 + int(c.P%8)
		if k > total {
			k = total
		}
		return total - k
	case "ctrl":
		p := nc - 3 + int(c.P%7)
		if p < 0 {
			p = 0
		}
		if p >= total {
			p = total - 1
		}
		return p
	case "empty":
		return 0
	}
	return int(c.P % uint64(total))
}

func applyMuts(b []byte, count int, ms []Mut) []byte {
	nc := (count + 3) / 4
	for _, m := range ms {
		n := len(b)
		if n == 0 {
			break
		}
		i := int(m.P % uint64(n))
		if m.K[0] == 'c' && nc > 0 { // aimed at the control bytes
			i = int(m.P % uint64(nc))
		}
		switch m.K {
		case "flip", "cflip":
			b[i] ^= 1 << (m.A & 7)
		case "set", "cset":
			b[i] = byte(m.A)
		case "swap":
			j := int(m.A % uint64(n))
			b[i], b[j] = b[j], b[i]
		case "dup":
			b = append(b[:i+1], b[i:]...)
		case "drop":
			b = append(b[:i], b[i+1:]...)
		case "pad": // unused bits of the last control byte
			if nc > 0 && count%4 != 0 {
				b[nc-1] |= byte(m.A) << (2 * uint(count%4))
			}
		case "tail": // more bytes after the end
			r := rt.NewRng(m.P)
			for k := 0; k < int(m.A%9); k++ {
				b = append(b, byte(r.U32()))
			}
		case "crand": // all control bytes
			r := rt.NewRng(m.P)
			for k := 0; k < nc && k < len(b); k++ {
				b[k] = byte(r.U32())
			}
		}
	}
	return b
}

// stream returns the stored bytes of a decode operation before any cut.
func (o Op) stream(delta bool) []byte {
	if o.Synth {
		r := rt.NewRng(o.V.Seed)
		nc := (o.N + 3) / 4
		b := make([]byte, nc, nc+4*o.N+16)
		for i := range b {
			switch o.V.Prof % 3 {
			case 0:
				b[i] = byte(r.U32())
			case 1:
				b[i] = byte(r.Pick(0, 0xff, 0x55, 0xaa, 0x03, 0xc0, 0x0c, 0x30))
			case 2:
				b[i] = byte(o.V.Seed) + byte(i)
			}
		}
		need, _ := ref.Need(o.N, b)
		for len(b) < need {
			x := r.U32()
			if x&3 == 0 {
				b = append(b, 0)
			} else {
				b = append(b, byte(x>>8))
			}
		}
		return applyMuts(b, o.N, o.Muts)
	}
	v := o.V.Make(o.N)
	if delta {
		v = ref.Deltas(v, o.Prev)
	}
	return applyMuts(ref.Encode(v), o.N, o.Muts)
}
