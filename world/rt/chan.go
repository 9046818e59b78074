package rt

import (
	"fmt"
	"sort"
	"unsafe"
)

// Channels of the library stay real channels, but are polled, so that a task
// that would block hands over to another one instead of stopping the
// simulator. An unbuffered channel gets one slot, and its sender waits until
// the slot has been emptied.

// What is known of a channel must not keep it alive.

var recvC = map[uintptr]int{} // how many wait to receive

// unbufT is a hash table of the channels made so far: the address, plus one if
// the channel is unbuffered.
var (
	unbufT [1 << 16]uintptr
	unbufN int
)

func unbufAt(p uintptr) *uintptr {
	for i := (p >> 4) * 0x9E3779B1; ; i++ {
		if e := &unbufT[i%uintptr(len(unbufT))]; *e == 0 || *e&^1 == p {
			return e
		}
	}
}

func note(c unsafe.Pointer, unbuf uintptr) {
	if 2*unbufN > len(unbufT) {
		unbufT, unbufN = [1 << 16]uintptr{}, 0
	}
	e := unbufAt(uintptr(c))
	if *e == 0 {
		unbufN++
	}
	*e = uintptr(c) | unbuf
}

func unbuffered(c unsafe.Pointer) bool { return *unbufAt(uintptr(c)) == uintptr(c)|1 }

// closedOff is where the runtime keeps whether a channel is closed.
var closedOff = func() uintptr {
	c := make(chan int, 1)
	p := ptr(c)
	var old [8]uint32
	for i := range old {
		old[i] = *(*uint32)(unsafe.Add(p, 4*i))
	}
	close(c)
	off := -1
	for i := range old {
		if x := *(*uint32)(unsafe.Add(p, 4*i)); x != old[i] {
			if off >= 0 || x != 1 {
				panic("simulator: unknown layout of channels")
			}
			off = 4 * i
		}
	}
	if off < 0 {
		panic("simulator: unknown layout of channels")
	}
	return uintptr(off)
}()

func ptr[C any](c C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

func closed(c unsafe.Pointer) bool { return *(*uint32)(unsafe.Add(c, closedOff)) != 0 }

func waitRecv(p uintptr, d int) {
	if recvC[p] += d; recvC[p] == 0 {
		delete(recvC, p)
	}
}

func resetChans() {
	pending = nil
	if unbufN > 0 {
		unbufT, unbufN = [1 << 16]uintptr{}, 0
	}
	if len(recvC) > 0 {
		recvC = map[uintptr]int{}
	}
}

func MakeChan[T any](n int) chan T {
	if n == 0 {
		c := make(chan T, 1)
		note(ptr(c), 1)
		return c
	}
	c := make(chan T, n)
	note(ptr(c), 0)
	return c
}

func Send[T any](c chan<- T, v T) {
	p := ptr(c)
	for {
		if c != nil {
			select {
			case c <- v:
				if unbuffered(p) {
					BlockAt(PSend, func() bool { return len(c) == 0 })
				} else {
					YH(PSend)
				}
				return
			default:
			}
		}
		if Dying() {
			return
		}
		BlockAt(PSend, func() bool { return c != nil && (closed(p) || len(c) < cap(c)) })
	}
}

func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

func Recv2[T any](c <-chan T) (T, bool) {
	p := ptr(c)
	for {
		if c != nil {
			select {
			case v, ok := <-c:
				YH(PRecv)
				return v, ok
			default:
			}
		}
		if Dying() {
			var z T
			return z, false
		}
		waitRecv(uintptr(p), 1)
		BlockAt(PRecv, func() bool { return c != nil && (closed(p) || len(c) > 0) })
		waitRecv(uintptr(p), -1)
	}
}

func Close[T any](c chan<- T) {
	YH(PSend)
	close(c)
}

// Gosched replaces runtime.Gosched.
func Gosched() {
	if Running() {
		Poll()
	}
}

// Poll is the default case added to a select statement that has none: the
// task lets others run and tries again. After many fruitless rounds in which
// nothing else ran, it counts as blocked.
func Poll(recv ...unsafe.Pointer) {
	for _, p := range recv {
		waitRecv(uintptr(p), 1)
		defer waitRecv(uintptr(p), -1)
	}
	s := S
	if s == nil || s.cur == nil {
		if s != nil && s.dying {
			Exit()
		}
		panic("simulator: select blocked for ever outside a run")
	}
	t := s.cur
	s.account()
	start := s.gsteps
	if t.pollAt != start {
		t.pollAt, t.polls = start, 0
	}
	t.polls++
	if t.polls < 64 {
		others := false
		for _, x := range s.tasks {
			if x != t && x.st != done && x.st != crashed {
				others = true
			}
		}
		if others {
			first := true
			Block(func() bool { f := first; first = false; return !f })
			return
		}
	}
	Block(func() bool { return s.gsteps != start })
}

// Forever is select{}.
func Forever() { Block(func() bool { return false }) }

// orderRng decides where Go leaves the order open: which of several cases of
// a select statement proceeds, and in which order a map is walked.
var orderRng = NewRng(1)

// CanSend and CanRecv tell whether case i of a select statement can proceed;
// -1 means that it cannot.
func CanSend[T any](i int, c chan<- T) int {
	if c != nil && (closed(ptr(c)) || len(c) < cap(c)) {
		return i
	}
	return -1
}

// TrySend is CanSend for a select statement that does not wait: an
// unbuffered channel then takes a value only if somebody waits for it.
func TrySend[T any](i int, c chan<- T) int {
	p := ptr(c)
	if unbuffered(p) && recvC[uintptr(p)] == 0 && !closed(p) {
		return -1
	}
	return CanSend(i, c)
}

func ChanID[T any](c <-chan T) unsafe.Pointer { return ptr(c) }

func CanRecv[T any](i int, c <-chan T) int {
	if c != nil && (closed(ptr(c)) || len(c) > 0) {
		return i
	}
	return -1
}

// Pick chooses one of the cases that can proceed; -1 if none can.
func Pick(cases ...int) int {
	n := 0
	for _, c := range cases {
		if c >= 0 {
			cases[n] = c
			n++
		}
	}
	if n == 0 {
		return -1
	}
	return cases[orderRng.Intn(n)]
}

// Case is c if case i was picked, or if none was: then the channel may still
// be one that is closed by a package the simulator does not know.
func Case[C any](k, i int, c C) C {
	if k >= 0 && k != i {
		var no C
		return no
	}
	return c
}

// CaseSend is c if case i was picked.
func CaseSend[C any](k, i int, c C) C {
	if k != i {
		var no C
		return no
	}
	return c
}

// RangeChan prepares a loop over a channel.
func RangeChan[T any](c <-chan T) (<-chan T, T) {
	var z T
	return c, z
}

// MapIt walks a map in an order of the simulator's choice.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
}

func RangeMap[K comparable, V any](m map[K]V) (*MapIt[K, V], K, V) {
	it := &MapIt[K, V]{m: m}
	names := map[K]string{}
	for k := range m {
		it.keys = append(it.keys, k)
		names[k] = fmt.Sprint(k)
	}
	sort.Slice(it.keys, func(i, j int) bool { return names[it.keys[i]] < names[it.keys[j]] })
	for i := len(it.keys) - 1; i > 0; i-- {
		j := orderRng.Intn(i + 1)
		it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
	}
	var k K
	var v V
	return it, k, v
}

func (it *MapIt[K, V]) Next(k *K, v *V) bool {
	for len(it.keys) > 0 {
		key := it.keys[0]
		it.keys = it.keys[1:]
		x, ok := it.m[key]
		if !ok {
			continue // deleted meanwhile
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = x
		}
		return true
	}
	return false
}
