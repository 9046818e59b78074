// Package simsync stands in for package sync in the instrumented copy of the
// library: the same semantics, but blocking hands over to the simulator's
// scheduler, and sync.Pool's choices are seeded.
package simsync

import (
	"simworld/rt"
	"sync"
)

type Locker = sync.Locker

type Mutex struct {
	locked bool
}

func (m *Mutex) Lock() {
	rt.YieldAt(rt.PLock)
	for m.locked {
		if rt.Dying() {
			return
		}
		rt.BlockAt(rt.PLock, func() bool { return !m.locked })
	}
	m.locked = true
	rt.YieldAt(rt.PLock)
}

func (m *Mutex) TryLock() bool {
	rt.YieldAt(rt.PLock)
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if rt.Dying() {
		m.locked = false
		return
	}
	if !m.locked {
		rt.Violate("fatal", "fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	rt.YieldAt(rt.PUnlock)
}

type RWMutex struct {
	w       bool
	readers int
	waiting int
}

func (m *RWMutex) Lock() {
	rt.YieldAt(rt.PRW)
	for m.w || m.readers > 0 {
		if rt.Dying() {
			return
		}
		m.waiting++
		rt.BlockAt(rt.PRW, func() bool { return !m.w && m.readers == 0 })
		m.waiting--
	}
	m.w = true
	rt.YieldAt(rt.PRW)
}

func (m *RWMutex) TryLock() bool {
	rt.YieldAt(rt.PRW)
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	if rt.Dying() {
		m.w = false
		return
	}
	if !m.w {
		rt.Violate("fatal", "fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	rt.YieldAt(rt.PRW)
}

func (m *RWMutex) RLock() {
	rt.YieldAt(rt.PRW)
	for m.w || m.waiting > 0 {
		if rt.Dying() {
			return
		}
		rt.BlockAt(rt.PRW, func() bool { return !m.w && m.waiting == 0 })
	}
	m.readers++
	rt.YieldAt(rt.PRW)
}

func (m *RWMutex) TryRLock() bool {
	rt.YieldAt(rt.PRW)
	if m.w || m.waiting > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	if rt.Dying() {
		return
	}
	if m.readers == 0 {
		rt.Violate("fatal", "fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	rt.YieldAt(rt.PRW)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	rt.YieldAt(rt.POnce)
	if o.done {
		return
	}
	rt.EnterOnce()
	defer rt.LeaveOnce()
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var (
		once  Once
		valid bool
		p     any
	)
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		f()
		f = nil
		valid = true
	}
	return func() {
		once.Do(g)
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var v T
	g := OnceFunc(func() { v = f() })
	return func() T { g(); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var (
		a A
		b B
	)
	g := OnceFunc(func() { a, b = f() })
	return func() (A, B) { g(); return a, b }
}

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	rt.YieldAt(rt.PWait)
	w.n += d
	if w.n < 0 && !rt.Dying() {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	rt.BlockAt(rt.PWait, func() bool { return w.n <= 0 })
	rt.YieldAt(rt.PWait)
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() {
		defer w.Done()
		f()
	})
}

type Cond struct {
	L       Locker
	waiters []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	w := new(bool)
	c.waiters = append(c.waiters, w)
	c.L.Unlock()
	rt.BlockAt(rt.PCond, func() bool { return *w })
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.waiters) > 0 {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
	}
	rt.YieldAt(rt.PCond)
}
func (c *Cond) Broadcast() {
	for _, w := range c.waiters {
		*w = true
	}
	c.waiters = nil
	rt.YieldAt(rt.PCond)
}

// Pool hands out the item put back last, so that reuse is as eager as the real
// pool ever gets, and now and then forgets items, as the garbage collector
// makes the real one do.
type Pool struct {
	New   func() any
	items []any
	gen   int
}

func (p *Pool) Get() any {
	rt.YieldAt(rt.PGet)
	if n := len(p.items); n > 0 {
		if rt.PoolForgets() {
			p.items = nil
		} else {
			x := p.items[n-1]
			p.items = p.items[:n-1]
			return x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil || rt.Dying() {
		return
	}
	p.items = append(p.items, x)
	if g := rt.PoolGen(); p.gen != g {
		p.gen = g
		rt.OnDropPools(func() { p.items = nil })
	}
	rt.YieldAt(rt.PPut)
}

// Map keeps insertion order, so Range is repeatable.
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) Load(k any) (any, bool) { rt.YieldAt(rt.PMap); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any) {
	rt.YieldAt(rt.PMap)
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	rt.YieldAt(rt.PMap)
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	rt.YieldAt(rt.PMap)
	if old, ok := m.m[k]; ok {
		return old, true
	}
	m.Store(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	rt.YieldAt(rt.PMap)
	v, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i := range m.keys {
			if m.keys[i] == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	old, ok := m.Load(k)
	m.Store(k, v)
	return old, ok
}
func (m *Map) CompareAndSwap(k, old, new any) bool {
	rt.YieldAt(rt.PMap)
	if v, ok := m.m[k]; ok && v == old {
		m.m[k] = new
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old any) bool {
	rt.YieldAt(rt.PMap)
	if v, ok := m.m[k]; ok && v == old {
		m.LoadAndDelete(k)
		return true
	}
	return false
}
func (m *Map) Clear() { m.m, m.keys = nil, nil }
func (m *Map) Range(f func(k, v any) bool) {
	for _, k := range append([]any(nil), m.keys...) {
		rt.YieldAt(rt.PMap)
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}
