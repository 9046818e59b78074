// Package rt is the simulator's run-time. The instrumented copy of the library
// calls it before every statement (Y), around every assembly routine (Asm), for
// every plain make() of numbers (Make), and for goroutines and channels; the
// simulated sync package blocks through it. Exactly one task runs at a time and
// the seeded policy in here decides which, so one (spec, policy seed) pair, or
// one spec plus a recorded list of decisions, is one exactly repeatable run.
package rt

import (
	"fmt"
	"math"
	"runtime"
	"runtime/debug"
	"sync"
	"unsafe"
)

const idle = math.MaxInt64 / 4

// cnt counts down the running task's statements to its next decision point.
var cnt int64 = idle

// hotOn makes statements that touch mutable package-level state decision points.
var hotOn bool

// S is the scheduler of the current run, nil outside runs.
var S *Sched

// Y is called before every statement of the library.
func Y(site int32) {
	cnt--
	if cnt <= 0 {
		slow(site, false)
	}
}

// YH is Y for statements that touch mutable package-level state.
func YH(site int32) {
	cnt--
	if cnt <= 0 || hotOn {
		slow(site, true)
	}
}

// YB is YH in expressions.
func YB(site int32) bool {
	YH(site)
	return true
}

type state uint8

const (
	runnable state = iota
	blocked
	frozen
	crashed
	done
)

// Task is one simulated thread of control.
type Task struct {
	ID     int
	Name   string
	Node   int
	Lib    bool // started by a go statement of the library
	fn     func()
	wake   chan struct{}
	exited chan struct{}
	st     state
	thawAt int64
	pred   func() bool
	steps  int64
	gap    int64
	site   int32
	killed bool
	limit  int64
	limMsg string
	// position in the replayed decisions
	ents  []Ev // switch, freeze, crash
	epos  int
	nexts []Ev // who runs when this task cannot
	npos  int
	// pending planned faults, in the policy mode
	faults []Fault
	opBase int64
	opIdx  int
	prio   float64
	pollAt int64
	polls  int
	inOnce int // depth of one-time initialisations
	onceAt int64
}

// Ev is one recorded decision of the scheduler.
type Ev struct {
	T int    `json:"t"`           // task it concerns
	S int64  `json:"s"`           // that task's own statement count
	K string `json:"k"`           // switch, freeze, crash, next
	N int    `json:"n"`           // task that runs next
	D int64  `json:"d,omitempty"` // freeze: global statements until thaw; 0: until nothing else can run
	W string `json:"where,omitempty"`

	site int32
}

// Fault is a planned suspension or loss of a task.
type Fault struct {
	Op    int   `json:"op"`   // index of the operation within the task
	Step  int64 `json:"step"` // statement within that operation
	Hot   bool  `json:"hot,omitempty"`
	Crash bool  `json:"crash,omitempty"`
	Dur   int64 `json:"dur,omitempty"`
}

// Policy is the seeded scheduling policy of one run.
type Policy struct {
	Mode string  `json:"mode"` // serial, uniform, hot, pct
	Mean float64 `json:"mean,omitempty"`
	HotP float64 `json:"hotp,omitempty"`
	Seed uint64  `json:"seed"`
}

// Violation is what a run is stopped for.
type Violation struct {
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
	Task int    `json:"task"`
}

// Stats are counted per run.
type Stats struct {
	Switches  int
	Freezes   int
	Crashes   int
	Thaws     int
	Blocks    int
	Spawned   int
	Steps     int64
	Hash      uint64 // of the interleaving: (site, next task, where it stands) at every switch
	MidCall   int    // switches taken with the task inside a library call
	HotSwitch int
}

type Sched struct {
	tasks  []*Task
	cur    *Task
	rng    Rng
	pol    Policy
	replay bool
	dying  bool
	doneCh chan struct{}
	fail   *Violation
	gsteps int64
	gmax   int64
	grant  int64 // what all calls of a run together may exceed their limits by
	trace  []Ev
	St     Stats
	SiteOf func(int32) string
	pairs  map[uint64]struct{}
	// CheckWait reports tasks that can only go on when a suspended or lost
	// task does.
	CheckWait bool
}

// NewSched prepares a run. decisions nil: follow pol; otherwise replay.
func NewSched(pol Policy, decisions []Ev, replay bool) *Sched {
	s := &Sched{pol: pol, rng: NewRng(pol.Seed), doneCh: make(chan struct{}, 1), replay: replay,
		gmax: math.MaxInt64 / 8, grant: grantTotal, St: Stats{Hash: 14695981039346656037}}
	if replay {
		s.trace = append(s.trace, decisions...)
	}
	return s
}

// Add adds a task; only before Run or from a running task.
func (s *Sched) Add(name string, node int, fn func()) *Task {
	t := &Task{ID: len(s.tasks), Name: name, Node: node, fn: fn,
		wake: make(chan struct{}, 1), exited: make(chan struct{}), limit: math.MaxInt64 / 8, opIdx: -1}
	t.prio = s.rng.Float()
	if s.replay {
		for _, e := range s.trace {
			if e.T == t.ID {
				if e.K == "next" {
					t.nexts = append(t.nexts, e)
				} else {
					t.ents = append(t.ents, e)
				}
			}
		}
	}
	s.tasks = append(s.tasks, t)
	go t.main(s)
	return t
}

func (t *Task) SetFaults(f []Fault) { t.faults = f }

func (t *Task) main(s *Sched) {
	<-t.wake
	defer close(t.exited)
	defer s.finish(t)
	if t.killed {
		return
	}
	debug.SetPanicOnFault(true)
	defer func() {
		if r := recover(); r != nil && !s.dying {
			s.note(t, "panic", fmt.Sprintf("panic outside any call: %v", r))
		}
	}()
	t.fn()
}

// note records a violation and starts the shutdown of the run. The caller's
// goroutine must exit soon after.
func (s *Sched) note(t *Task, kind, msg string) {
	if s.fail == nil {
		id := -1
		if t != nil {
			id = t.ID
		}
		s.fail = &Violation{Kind: kind, Msg: msg, Task: id}
	}
	s.die()
}

func (s *Sched) die() {
	if !s.dying {
		s.account()
		s.dying = true
		cnt = idle
		hotOn = false
		s.doneCh <- struct{}{}
	}
}

// Violate stops the run with a violation; it does not return when called from
// a task.
func Violate(kind, format string, args ...interface{}) {
	s := S
	if s == nil {
		panic("violation outside a run: " + kind + ": " + fmt.Sprintf(format, args...))
	}
	if s.dying {
		return
	}
	s.note(s.cur, kind, fmt.Sprintf(format, args...))
	runtime.Goexit()
}

func (s *Sched) finish(t *Task) {
	if s.dying {
		t.st = done
		return
	}
	s.account()
	t.st = done
	if t.Lib {
		t.fn = nil
	}
	n := s.pick(t)
	if n == nil {
		s.stuck()
		return
	}
	s.record(Ev{T: t.ID, S: t.steps, K: "next", N: n.ID}, t.site)
	s.resume(n)
}

func (s *Sched) account() {
	if t := s.cur; t != nil {
		d := t.gap - cnt
		t.steps += d
		s.gsteps += d
		t.gap = cnt
	}
}

func (s *Sched) candidates(t *Task) []*Task {
	var c []*Task
	for _, x := range s.tasks {
		switch x.st {
		case frozen:
			if x.thawAt > 0 && x.thawAt <= s.gsteps {
				s.thaw(x)
				c = append(c, x)
			}
		case blocked:
			if x.pred() {
				c = append(c, x)
			}
		case runnable:
			c = append(c, x)
		}
	}
	return c
}

func (s *Sched) thaw(x *Task) {
	x.st = runnable
	if x.pred != nil {
		x.st = blocked
	}
	s.St.Thaws++
}

// pick chooses the task that goes on when t (blocked, suspended or done)
// cannot.
func (s *Sched) pick(t *Task) *Task {
	c := s.candidates(t)
	if len(c) == 0 {
		if s.CheckWait {
			s.checkWait()
			if s.fail != nil {
				return nil
			}
		}
		// Nothing else can run: suspended tasks go on, earliest first.
		var f *Task
		for _, x := range s.tasks {
			if x.st == frozen && (f == nil || x.thawAt < f.thawAt) {
				f = x
			}
		}
		if f == nil {
			return nil
		}
		s.thaw(f)
		if f.st == blocked && !f.pred() {
			return s.pick(t)
		}
		return f
	}
	if s.replay {
		for t.npos < len(t.nexts) && t.nexts[t.npos].S < t.steps {
			t.npos++
		}
		if t.npos < len(t.nexts) && t.nexts[t.npos].S == t.steps {
			e := t.nexts[t.npos]
			t.npos++
			for _, x := range c {
				if x.ID == e.N {
					return x
				}
			}
		}
		return c[0]
	}
	return s.choose(c)
}

func (s *Sched) choose(c []*Task) *Task {
	switch s.pol.Mode {
	case "serial":
		return c[0]
	case "pct":
		b := c[0]
		for _, x := range c[1:] {
			if x.prio > b.prio {
				b = x
			}
		}
		return b
	}
	return c[s.rng.Intn(len(c))]
}

// checkWait is called when no task can run although some are suspended or
// lost: then no task may be waiting.
func (s *Sched) checkWait() {
	var bad *Task
	susp := ""
	for _, x := range s.tasks {
		switch x.st {
		case blocked:
			if bad == nil && !x.Lib {
				bad = x
			}
		case frozen, crashed:
			susp += fmt.Sprintf(" %s@%s", x.Name, s.where(x.site))
		}
	}
	if bad != nil && susp != "" {
		s.note(bad, "waits", fmt.Sprintf("%s waits at %s for suspended or lost:%s", bad.Name, s.where(bad.site), susp))
	}
}

func (s *Sched) where(site int32) string {
	if s.SiteOf == nil {
		return fmt.Sprint(site)
	}
	return s.SiteOf(site)
}

// stuck ends the run: nothing can run and nothing is suspended.
func (s *Sched) stuck() {
	if s.dying {
		return
	}
	for _, x := range s.tasks {
		if x.st == blocked && !x.Lib {
			s.note(x, "deadlock", fmt.Sprintf("%s is blocked for ever at %s", x.Name, s.where(x.site)))
			return
		}
	}
	s.dying = true
	cnt = idle
	hotOn = false
	s.doneCh <- struct{}{}
}

func (s *Sched) record(e Ev, site int32) {
	if !s.replay {
		e.site = site
		s.trace = append(s.trace, e)
	}
}

// resume makes n the running task. The caller must then stop running.
func (s *Sched) resume(n *Task) {
	s.cur = n
	n.st = runnable
	n.pred = nil
	s.setGap(n)
	h := s.St.Hash
	h = (h ^ uint64(n.ID)) * 1099511628211
	h = (h ^ uint64(n.site)) * 1099511628211
	s.St.Hash = h
	n.wake <- struct{}{}
}

func (s *Sched) setGap(n *Task) {
	g := s.nextGap(n)
	if l := n.limit - n.steps; l < g {
		g = l
	}
	if g < 1 {
		g = 1
	}
	n.gap = g
	cnt = g
	hotOn = !s.replay && (s.pol.HotP > 0 || n.hotFault())
}

func (t *Task) hotFault() bool {
	return len(t.faults) > 0 && t.faults[0].Hot && t.faults[0].Op <= t.opIdx
}

func (s *Sched) nextGap(n *Task) int64 {
	if s.replay {
		for n.epos < len(n.ents) && n.ents[n.epos].S <= n.steps {
			n.epos++
		}
		if n.epos < len(n.ents) {
			return n.ents[n.epos].S - n.steps
		}
		return idle
	}
	g := int64(idle)
	switch s.pol.Mode {
	case "serial":
	default:
		if s.pol.Mean > 0 {
			g = 1 + int64(s.rng.Exp()*s.pol.Mean)
		}
	}
	if len(n.faults) > 0 && !n.faults[0].Hot && n.faults[0].Op <= n.opIdx {
		f := n.faults[0]
		at := n.opBase + f.Step
		if f.Op < n.opIdx {
			at = n.steps + 1
		}
		if d := at - n.steps; d < g {
			g = d
		}
	}
	return g
}

// slow is the decision point.
func slow(site int32, hot bool) {
	s := S
	if s == nil || s.cur == nil || s.dying {
		cnt = idle
		return
	}
	t := s.cur
	expired := cnt <= 0
	s.account()
	t.site = site
	if t.steps >= t.limit && s.grant > 0 && t.inOnce == 0 {
		// tables that are built when they are first needed
		s.grant -= grantStep
		t.limit += grantStep
	}
	if t.steps >= t.limit {
		s.note(t, "steps", fmt.Sprintf("%s %s (at %s)", t.Name, t.limMsg, s.where(site)))
		runtime.Goexit()
	}
	if s.gsteps > s.gmax {
		s.note(t, "steps", fmt.Sprintf("run exceeded %d statements, at %s", s.gmax, s.where(site)))
		runtime.Goexit()
	}
	if s.replay {
		for t.epos < len(t.ents) && t.ents[t.epos].S < t.steps {
			t.epos++
		}
		if t.epos < len(t.ents) && t.ents[t.epos].S == t.steps {
			e := t.ents[t.epos]
			t.epos++
			switch e.K {
			case "freeze", "crash":
				if t.inOnce > 0 {
					s.setGap(t)
					return
				}
				s.suspend(t, e.K == "crash", e.D, &e)
			case "switch":
				if n := s.tasks; e.N < len(n) && e.N != t.ID {
					for _, x := range s.candidates(t) {
						if x.ID == e.N {
							s.switchTo(t, x, hot)
							return
						}
					}
				}
				s.setGap(t)
			}
			return
		}
		s.setGap(t)
		return
	}
	// planned faults
	if len(t.faults) > 0 && t.faults[0].Op <= t.opIdx && t.inOnce == 0 {
		f := t.faults[0]
		if (f.Hot && hot) || (!f.Hot && (f.Op < t.opIdx || t.steps >= t.opBase+f.Step)) {
			if !(f.Hot && f.Step > 0) {
				t.faults = t.faults[1:]
				s.suspend(t, f.Crash, f.Dur, nil)
				return
			}
			t.faults[0].Step--
		}
	}
	sw := expired && s.pol.Mode != "serial" && s.pol.Mean > 0
	if hot && !sw && s.pol.HotP > 0 && s.rng.Float() < s.pol.HotP {
		sw = true
	}
	if sw {
		c := s.candidates(t)
		var n *Task
		if s.pol.Mode == "pct" {
			t.prio = s.rng.Float() * 0.5
			n = s.choose(c)
		} else if len(c) > 1 {
			n = c[s.rng.Intn(len(c)-1)]
			if n == t {
				n = c[len(c)-1]
			}
		}
		if n != nil && n != t {
			s.record(Ev{T: t.ID, S: t.steps, K: "switch", N: n.ID}, site)
			s.switchTo(t, n, hot)
			return
		}
	}
	if expired {
		s.setGap(t)
	} else {
		t.gap = cnt
		hotOn = s.pol.HotP > 0 || t.hotFault()
	}
}

func (s *Sched) switchTo(t, n *Task, hot bool) {
	s.St.Switches++
	if hot {
		s.St.HotSwitch++
	}
	s.St.Hash = (s.St.Hash ^ uint64(t.site)) * 1099511628211
	if s.pairs != nil {
		s.pairs[uint64(uint32(t.site))<<32|uint64(uint32(n.site))] = struct{}{}
	}
	s.resume(n)
	t.wait(s)
}

// SetPairs makes the scheduler collect the (suspended at, goes on at) pairs.
func (s *Sched) SetPairs(m map[uint64]struct{}) { s.pairs = m }

func (t *Task) wait(s *Sched) {
	<-t.wake
	if t.killed {
		runtime.Goexit()
	}
}

// suspend stops t for d global statements (0: until nothing else can run), or
// for ever.
func (s *Sched) suspend(t *Task, crash bool, d int64, rep *Ev) {
	e := Ev{T: t.ID, S: t.steps, K: "freeze", D: d}
	if crash {
		t.st = crashed
		e.K = "crash"
		s.St.Crashes++
	} else {
		t.st = frozen
		t.thawAt = math.MaxInt64
		if d > 0 {
			t.thawAt = s.gsteps + d
		}
		s.St.Freezes++
	}
	n := s.pick2(t, rep)
	if n == t {
		s.record(e, t.site)
		t.st = runnable
		s.setGap(t)
		return
	}
	if n == nil {
		s.record(e, t.site)
		if s.fail == nil {
			s.stuck()
		}
		if t.st == done {
			return
		}
		// wait to be killed
		<-t.wake
		runtime.Goexit()
	}
	e.N = n.ID
	s.record(e, t.site)
	s.St.Switches++
	s.resume(n)
	t.wait(s)
}

func (s *Sched) pick2(t *Task, rep *Ev) *Task {
	if rep != nil {
		for _, x := range s.candidates(t) {
			if x.ID == rep.N {
				return x
			}
		}
		c := s.candidates(t)
		if len(c) > 0 {
			return c[0]
		}
	}
	return s.pick(t)
}

// Block stops the running task until pred holds. It returns at once while the
// run is being torn down.
func Block(pred func() bool) { BlockAt(0, pred) }

// BlockAt is Block at a named primitive.
func BlockAt(site int32, pred func() bool) {
	s := S
	if s == nil || s.cur == nil {
		if pred() || (s != nil && s.dying) {
			return
		}
		panic("simulator: blocked for ever outside a run")
	}
	for !s.dying && !pred() {
		t := s.cur
		s.account()
		if site != 0 {
			t.site = site
		}
		t.st = blocked
		t.pred = pred
		s.St.Blocks++
		n := s.pick(t)
		if n == t {
			t.st = runnable
			t.pred = nil
			s.setGap(t)
			continue
		}
		if n == nil {
			if s.fail == nil {
				s.stuck()
			}
			runtime.Goexit()
		}
		s.record(Ev{T: t.ID, S: t.steps, K: "next", N: n.ID}, t.site)
		s.resume(n)
		t.wait(s)
	}
}

// Dying reports that the run is being torn down.
func Dying() bool { return S != nil && S.dying }

// Running reports whether a task is running.
func Running() bool { return S != nil && S.cur != nil && !S.dying }

// Yield is a decision point of the simulated primitives.
func Yield() { YH(0) }

// Names of decision points inside the simulated primitives.
var prims = []string{"?", "sync.Mutex.Lock", "sync.Mutex.Unlock", "sync.RWMutex", "sync.Once.Do", "sync.Pool.Get", "sync.Pool.Put",
	"channel send", "channel receive", "sync.WaitGroup", "sync.Map", "go statement", "sync.Cond", "sync/atomic"}

const (
	PLock = -1 - iota
	PUnlock
	PRW
	POnce
	PGet
	PPut
	PSend
	PRecv
	PWait
	PMap
	PGo
	PCond
	PAtomic
)

// PrimName names a decision point that is not a statement of the library.
func PrimName(site int32) string {
	if i := int(-site); i < len(prims) {
		return prims[i]
	}
	return "?"
}

// YieldAt is Yield at a named primitive.
func YieldAt(p int32) { YH(p) }

// EnterOnce and LeaveOnce enclose one-time initialisation: everybody else has
// to wait for it, so the running task is neither suspended nor lost there.
func EnterOnce() {
	if t := Cur(); t != nil && !S.dying {
		if S.account(); t.inOnce == 0 {
			t.onceAt = t.steps
			t.limit += onceLimit
		}
		t.inOnce++
	}
}

func LeaveOnce() {
	if t := Cur(); t != nil && t.inOnce > 0 && !S.dying {
		t.inOnce--
		if S.account(); t.inOnce == 0 {
			t.limit += t.steps - t.onceAt - onceLimit
			if left := max(t.limit-t.steps, 1); left < cnt {
				t.gap, cnt = left, left
			}
		}
	}
}

const (
	onceLimit  = 20000000
	grantTotal = 1000000
	grantStep  = 100000
)

// pending are goroutines started while packages were initialised.
var pending []initGo

type initGo struct {
	node int
	fn   func()
}

var initNode = -1

// Init executes fn, the initialisation of a node's packages.
func Init(node int, fn func()) {
	defer func() { initNode = -1 }()
	initNode = node
	fn()
}

// KillNode ends everything that runs on a node but the running task: the
// process it belongs to is gone.
func KillNode(node int) {
	s := S
	for _, t := range s.tasks {
		if t.Node != node || t == s.cur || t.st == done || !t.Lib && t.steps == 0 {
			continue
		}
		t.st = crashed
		dropMapWrites(t.ID)
	}
}

// Go replaces the library's go statements.
func Go(fn func()) {
	s := S
	if s == nil || s.cur == nil {
		if s == nil {
			pending = append(pending, initGo{initNode, fn})
		}
		return
	}
	s.account()
	p := s.cur
	node := p.Node
	if initNode >= 0 {
		node = initNode
	}
	t := s.Add(fmt.Sprintf("%s/go%d", p.Name, len(s.tasks)), node, fn)
	t.Lib = true
	t.limit = t.steps + 50000000
	t.limMsg = "started by the library does not end"
	s.St.Spawned++
	YH(PGo)
}

// Atomic executes fn without decision points and without counting statements.
func Atomic(fn func()) {
	c, h := cnt, hotOn
	cnt, hotOn = idle, false
	defer func() { cnt, hotOn = c, h }()
	fn()
}

// Begin marks the start of operation idx of the running task, which may take
// at most limit statements.
func Begin(idx int, limit int64, msg string) {
	s := S
	t := s.cur
	s.account()
	t.opIdx = idx
	t.opBase = t.steps
	t.limit = t.steps + limit
	t.limMsg = msg
	s.setGap(t)
}

// End marks the end of the running task's operation and returns the number of
// statements it took.
func End() int64 {
	s := S
	t := s.cur
	s.account()
	if len(mapBusy) > 0 {
		dropMapWrites(t.ID) // of a call that panicked
	}
	t.limit = math.MaxInt64 / 8
	return t.steps - t.opBase
}

// Cur returns the running task.
func Cur() *Task {
	if S == nil {
		return nil
	}
	return S.cur
}

// Suspended reports whether t is frozen or crashed, and whether it is lost.
func (t *Task) Suspended() (bool, bool) { return t.st == frozen || t.st == crashed, t.st == crashed }

// Finished reports whether t has ended.
func (t *Task) Finished() bool { return t.st == done }

// Started reports whether t has executed a statement of the library.
func (t *Task) Started() bool { return t.steps > 0 }

// Now is the number of statements executed in this run.
func Now() int64 {
	if S == nil {
		return 0
	}
	S.account()
	return S.gsteps
}

var runMu sync.Mutex

// Run executes all tasks under the policy and returns the violation, if any.
func (s *Sched) Run(gmax int64) *Violation {
	runMu.Lock()
	defer runMu.Unlock()
	if gmax > 0 {
		s.gmax = gmax
	}
	S = s
	for _, g := range pending {
		t := s.Add(fmt.Sprintf("init/go%d", len(s.tasks)), g.node, g.fn)
		t.Lib = true
		s.St.Spawned++
	}
	pending = nil
	n := s.firstPick()
	s.resume(n)
	<-s.doneCh
	// Tear down: every task that has not ended exits by Goexit.
	s.St.Steps = s.gsteps
	for _, t := range s.tasks {
		select {
		case <-t.exited:
			continue
		default:
		}
		t.killed = true
		select {
		case t.wake <- struct{}{}:
		default:
		}
		<-t.exited
	}
	S = nil
	cnt = idle
	hotOn = false
	return s.fail
}

func (s *Sched) firstPick() *Task {
	if s.replay {
		for _, e := range s.trace {
			if e.K == "first" {
				if e.N < len(s.tasks) {
					return s.tasks[e.N]
				}
			}
		}
		return s.tasks[0]
	}
	n := s.choose(s.tasks)
	s.trace = append(s.trace, Ev{T: -1, K: "first", N: n.ID})
	return n
}

// Trace returns the recorded decisions.
func (s *Sched) Trace() []Ev {
	if !s.replay {
		for i := range s.trace {
			if s.trace[i].K != "next" && s.trace[i].K != "first" {
				s.trace[i].W = s.where(s.trace[i].site)
			}
		}
	}
	return s.trace
}

// Exit ends the running goroutine.
func Exit() { runtime.Goexit() }

// LibRunnable reports whether a goroutine of the library could go on.
func (s *Sched) LibRunnable() bool {
	for _, x := range s.tasks {
		if x.Lib && (x.st == runnable && x != s.cur || x.st == blocked && x.pred()) {
			return true
		}
	}
	return false
}

// LibAlive counts the goroutines of the library that have not ended.
func (s *Sched) LibAlive() int {
	n := 0
	for _, x := range s.tasks {
		if x.Lib && x.st != done {
			n++
		}
	}
	return n
}

// Own estimates the memory that the simulator itself has taken in this run.
func (s *Sched) Own() int64 {
	return int64(cap(s.trace))*int64(unsafe.Sizeof(Ev{})) + 768*int64(s.St.Spawned)
}
