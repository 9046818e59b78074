package rt

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"sync"
	"time"
)

// Finalizers run when the simulator says so: the real collector decides what
// is garbage, Collect decides when.
var (
	finMu  sync.Mutex
	finGen int
	finSeq int
	finQ   []finalizer
)

type finalizer struct {
	seq, node int
	fn        func()
}

func resetFinalizers() {
	finMu.Lock()
	finGen++
	finSeq = 0
	finQ = nil
	finMu.Unlock()
}

// SetFinalizer replaces runtime.SetFinalizer.
func SetFinalizer(obj, fn interface{}) {
	if fn == nil {
		runtime.SetFinalizer(obj, nil)
		return
	}
	finMu.Lock()
	finSeq++
	seq, gen := finSeq, finGen
	finMu.Unlock()
	node := initNode
	if t := Cur(); t != nil && node < 0 {
		node = t.Node
	}
	f := reflect.ValueOf(fn)
	typ := reflect.FuncOf([]reflect.Type{reflect.TypeOf(obj)}, nil, false)
	w := reflect.MakeFunc(typ, func(args []reflect.Value) []reflect.Value {
		finMu.Lock()
		defer finMu.Unlock()
		if gen == finGen {
			finQ = append(finQ, finalizer{seq, node, func() { f.Call(args) }})
		}
		return nil
	})
	runtime.SetFinalizer(obj, w.Interface())
}

// Collect is a garbage collection: what the library registered finalizers for
// and nobody refers to any more is finalised.
func Collect() int {
	finMu.Lock()
	n := finSeq
	finMu.Unlock()
	if n == 0 || S == nil || S.cur == nil {
		return 0
	}
	for i := 0; i < 2; i++ {
		ran := make(chan struct{})
		sentinel(ran)
		runtime.GC()
		select {
		case <-ran:
		case <-time.After(5 * time.Second):
		}
		time.Sleep(time.Millisecond)
	}
	finMu.Lock()
	q := finQ
	finQ = nil
	finMu.Unlock()
	sort.Slice(q, func(i, j int) bool { return q[i].seq < q[j].seq })
	if len(q) == 0 {
		return 0
	}
	s := S
	s.account()
	t := s.Add(fmt.Sprintf("finalizers%d", len(s.tasks)), q[0].node, func() {
		for _, f := range q {
			f.fn()
		}
	})
	t.Lib = true
	YH(PGo)
	return len(q)
}

//go:noinline
func sentinel(ran chan struct{}) {
	x := new([64]byte)
	runtime.SetFinalizer(x, func(*[64]byte) { close(ran) })
}
