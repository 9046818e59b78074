package rt

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"syscall"
	"unsafe"
)

// The arena hands out buffers that lie exactly where the simulator wants them:
// flush against an inaccessible page at their end or start, or anywhere
// between canary bytes. Every buffer exists twice: the harness writes through
// Mem.RW, and callers can be given the read-only alias Mem.RO, on which any
// store faults.

const page = 4096
const canary = 0xA7

// Place says where in its slot a buffer lies.
const (
	FlushEnd = iota
	FlushStart
	Middle
)

type slotClass struct {
	size  int
	n     int
	rw    []byte
	ro    []byte
	used  int
	dirty []int // per slot: bytes that need to be refilled: lo, hi
}

// Mem is one buffer of the arena.
type Mem struct {
	Len, Cap int
	Name     string
	cls      int
	slot     int
	off      int // of the buffer in the slot
	heap     []byte
	heapOff  int
	live     bool
}

var (
	classes  []slotClass
	mems     []*Mem
	arenaOn  bool
	arenaRng Rng
	memPool  []*Mem
)

// ArenaOn switches the placement of the library's own allocations.
func ArenaOn(on bool) { arenaOn = on }

const (
	mfdName = "svb-arena"
)

func memfd(size int) (int, error) {
	name := append([]byte(mfdName), 0)
	nr := uintptr(319)
	if runtime.GOARCH == "386" {
		nr = 356
	}
	fd, _, e := syscall.Syscall(nr, uintptr(unsafe.Pointer(&name[0])), 1, 0)
	if e != 0 {
		f, err := os.CreateTemp("", mfdName)
		if err != nil {
			return -1, e
		}
		os.Remove(f.Name())
		nfd, err := syscall.Dup(int(f.Fd()))
		f.Close()
		if err != nil {
			return -1, err
		}
		fd = uintptr(nfd)
	}
	if err := syscall.Ftruncate(int(fd), int64(size)); err != nil {
		return -1, err
	}
	return int(fd), nil
}

func mapRegion(size, n int) (rw, ro []byte) {
	stride := size + page
	total := stride*n + page
	fd, err := memfd(total)
	if err != nil {
		panic(err)
	}
	defer syscall.Close(fd)
	rw, err = syscall.Mmap(fd, 0, total, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	ro, err = syscall.Mmap(fd, 0, total, syscall.PROT_READ, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	for i := 0; i <= n; i++ {
		for _, m := range [][]byte{rw, ro} {
			if err := syscall.Mprotect(m[i*stride:i*stride+page], syscall.PROT_NONE); err != nil {
				panic(err)
			}
		}
	}
	return rw, ro
}

// InitArena maps the slots; once per process.
func InitArena() {
	for _, c := range []struct{ size, n int }{
		{1 * page, 192}, {4 * page, 64}, {16 * page, 48}, {64 * page, 24}, {256 * page, 16}, {1280 * page, 8}, {2600 * page, 6},
	} {
		rw, ro := mapRegion(c.size, c.n)
		classes = append(classes, slotClass{size: c.size, n: c.n, rw: rw, ro: ro, dirty: make([]int, 2*c.n)})
	}
	// first use of every slot fills its canaries lazily
	for i := range classes {
		for j := range classes[i].dirty {
			if j%2 == 1 {
				classes[i].dirty[j] = classes[i].size
			}
		}
	}
}

func (c *slotClass) slot(buf []byte, i int) []byte {
	o := i*(c.size+page) + page
	return buf[o : o+c.size : o+c.size]
}

// ArenaReset forgets all buffers of the previous run.
func ArenaReset(seed uint64) {
	memPool = append(memPool, mems...)
	mems = mems[:0]
	for i := range classes {
		classes[i].used = 0
	}
	arenaRng = NewRng(seed)
}

func newMem() *Mem {
	if n := len(memPool); n > 0 {
		m := memPool[n-1]
		memPool = memPool[:n-1]
		*m = Mem{}
		return m
	}
	return &Mem{}
}

// Alloc returns a buffer of length n and capacity c. Its capacity is flush
// with the end of the slot (FlushEnd), its start with the start (FlushStart),
// or it lies in the middle. When no slot is left it lies on the Go heap between
// canaries.
func Alloc(name string, n, c, place, align int) *Mem {
	m := newMem()
	m.Len, m.Cap, m.Name, m.live = n, c, name, true
	m.cls = -1
	for i := range classes {
		k := &classes[i]
		if c > k.size || k.used == k.n {
			continue
		}
		m.cls, m.slot = i, k.used
		k.used++
		room := k.size - c
		switch place {
		case FlushEnd:
			m.off = room
		case FlushStart:
			m.off = 0
		default:
			m.off = room / 2
			if room > 64 {
				m.off = room/2 + arenaRng.Intn(64)
				if m.off > room {
					m.off = room
				}
			}
		}
		if align > 1 {
			m.off &^= align - 1
		}
		// Only a window around the buffer is watched and refilled: enough for
		// any access that is off by less than 512 bytes.
		s := k.slot(k.rw, m.slot)
		lo, hi := k.dirty[2*m.slot], k.dirty[2*m.slot+1]
		fill(s[lo:hi])
		lo, hi = m.window(k.size)
		fill(s[lo:hi])
		k.dirty[2*m.slot], k.dirty[2*m.slot+1] = lo, hi
		zero(s[m.off : m.off+c])
		break
	}
	if m.cls < 0 {
		m.heap = make([]byte, c+256)
		m.heapOff = 128
		fill(m.heap)
		zero(m.heap[128 : 128+c])
	}
	mems = append(mems, m)
	return m
}

func (m *Mem) window(size int) (int, int) {
	lo, hi := m.off-512, m.off+m.Cap+512
	if lo < 0 {
		lo = 0
	}
	if hi > size {
		hi = size
	}
	return lo, hi
}

var canaries = func() (b [4096]byte) {
	for i := range b {
		b[i] = canary
	}
	return
}()

func fill(b []byte) {
	for len(b) > 0 {
		b = b[copy(b, canaries[:]):]
	}
}

func zero(b []byte) { clear(b) }

// RW is the writable view.
func (m *Mem) RW() []byte {
	if m.cls < 0 {
		return m.heap[m.heapOff : m.heapOff+m.Len : m.heapOff+m.Cap]
	}
	k := &classes[m.cls]
	s := k.slot(k.rw, m.slot)
	return s[m.off : m.off+m.Len : m.off+m.Cap]
}

// RO is the read-only view (the writable one for buffers on the heap).
func (m *Mem) RO() []byte {
	if m.cls < 0 {
		return m.RW()
	}
	k := &classes[m.cls]
	s := k.slot(k.ro, m.slot)
	return s[m.off : m.off+m.Len : m.off+m.Cap]
}

// Open gives a view a capacity that reaches into the unmapped page behind it,
// when the buffer lies flush against one: the mapping of a file that has become
// shorter looks like that.
func (m *Mem) Open(b []byte) []byte {
	if m.cls < 0 || m.off+m.Cap != classes[m.cls].size || m.Cap != m.Len || len(b) == 0 {
		return b
	}
	return unsafe.Slice(&b[0], len(b)+64)[:len(b)]
}

// Guarded reports whether the buffer lies in the arena proper.
func (m *Mem) Guarded() bool { return m.cls >= 0 }

// Canaries returns an error when a byte next to the buffer has changed.
func (m *Mem) Canaries() error {
	var s []byte
	off := m.off
	lo, hi := 0, 0
	if m.cls < 0 {
		s, off = m.heap, m.heapOff
		hi = len(s)
	} else {
		k := &classes[m.cls]
		s = k.slot(k.rw, m.slot)
		lo, hi = m.window(k.size)
	}
	if bytes.Equal(s[lo:off], canaries[:off-lo]) && bytes.Equal(s[off+m.Cap:hi], canaries[:hi-off-m.Cap]) {
		return nil
	}
	for i := lo; i < off; i++ {
		if s[i] != canary {
			return fmt.Errorf("byte %d before %s was overwritten with %#x", off-i, m.Name, s[i])
		}
	}
	for i := off + m.Cap; i < hi; i++ {
		if s[i] != canary {
			return fmt.Errorf("byte %d after the end of %s was overwritten with %#x", i-off-m.Cap, m.Name, s[i])
		}
	}
	return nil
}

// Mems returns the live buffers.
func Mems() []*Mem { return mems }

// Locate names the buffer nearest to a faulting address.
func Locate(addr uintptr) string {
	best, bestD := "", int64(1)<<40
	for _, m := range mems {
		if m.cls < 0 || m.Cap == 0 && m.Len == 0 {
			continue
		}
		k := &classes[m.cls]
		for v, base := range [][]byte{k.rw, k.ro} {
			s := k.slot(base, m.slot)
			lo := uintptr(unsafe.Pointer(&s[0])) + uintptr(m.off)
			hi := lo + uintptr(m.Cap)
			view := ""
			if v == 1 {
				view = " (read-only view)"
			}
			switch {
			case addr >= lo && addr < hi:
				return fmt.Sprintf("inside %s at byte %d%s", m.Name, addr-lo, view)
			case addr >= hi && int64(addr-hi) < bestD:
				bestD = int64(addr - hi)
				best = fmt.Sprintf("%d bytes past the end of %s (%d bytes)%s", addr-hi, m.Name, m.Len, view)
			case addr < lo && int64(lo-addr) < bestD:
				bestD = int64(lo - addr)
				best = fmt.Sprintf("%d bytes before %s%s", lo-addr, m.Name, view)
			}
		}
	}
	if bestD > 2*page {
		return fmt.Sprintf("address %#x, near no buffer", addr)
	}
	return best
}

// U32 views a byte buffer as integers.
func U32(b []byte) []uint32 {
	if cap(b) < 4 {
		return []uint32{}
	}
	return unsafe.Slice((*uint32)(unsafe.Pointer(unsafe.SliceData(b))), cap(b)/4)[:len(b)/4]
}

// U8 views integers as bytes.
func U8(v []uint32) []byte {
	if cap(v) == 0 {
		return []byte{}
	}
	return unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(v))), cap(v)*4)[:len(v)*4]
}

// Num are the element types whose make() calls the arena serves.
type Num interface {
	~uint8 | ~uint16 | ~uint32 | ~uint64 | ~int8 | ~int16 | ~int32 | ~int64 | ~int | ~uint
}

// Make replaces make([]T, n) and make([]T, n, c) in the library.
func Make[T Num](nc ...int) []T {
	n := nc[0]
	c := n
	if len(nc) > 1 {
		c = nc[1]
	}
	if !arenaOn || !Running() || n < 0 || c < n || c == 0 || c > 1<<24 {
		return make([]T, n, c)
	}
	var z T
	sz := int(unsafe.Sizeof(z))
	if AllocFail != nil {
		AllocFail(c * sz)
	}
	// The Go allocator rounds sizes up; a buffer that ends flush with a page
	// is one of the placements it can choose.
	m := Alloc("an allocation of the library", n*sz, c*sz, FlushEnd, sz)
	if !m.Guarded() {
		return make([]T, n, c)
	}
	b := m.RW()
	return unsafe.Slice((*T)(unsafe.Pointer(unsafe.SliceData(b))), c)[:n]
}

// AllocFail, when set, may refuse an allocation by panicking.
var AllocFail func(bytes int)

// Owner finds the arena buffer a slice lies in.
func Owner(b []byte) *Mem {
	if cap(b) == 0 {
		return nil
	}
	p := uintptr(unsafe.Pointer(unsafe.SliceData(b)))
	for _, m := range mems {
		if m.cls < 0 {
			continue
		}
		k := &classes[m.cls]
		for _, base := range [][]byte{k.rw, k.ro} {
			s := k.slot(base, m.slot)
			lo := uintptr(unsafe.Pointer(&s[0]))
			if p >= lo && p < lo+uintptr(k.size) {
				return m
			}
		}
	}
	return nil
}
