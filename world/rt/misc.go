package rt

import "time"

// LibRand feeds the library's use of math/rand.
var LibRand = NewRng(1)

var poolRng = NewRng(1)

// PoolForgetP is how often a simulated sync.Pool drops its items.
var PoolForgetP float64

func PoolForgets() bool { return PoolForgetP > 0 && poolRng.Float() < PoolForgetP }

var runSeed uint64

// SeedLib stands for rand.Seed: the numbers that follow are a function of the
// run and of seed.
func SeedLib(seed int64) { LibRand = NewRng(Mix(runSeed, 13, uint64(seed))) }

// SeedRun seeds the per-run streams.
func SeedRun(seed uint64) {
	runSeed = seed
	orderRng = NewRng(Mix(seed, 15))
	LibRand = NewRng(Mix(seed, 11))
	poolRng = NewRng(Mix(seed, 12))
	clockAdd = 0
	Settling = false
	maxProcs = map[int]int{}
}

var clockAdd time.Duration

// Clock is the simulated time since the run began: one microsecond per
// executed statement, plus what sleeping skipped.
func Clock() time.Duration { return time.Duration(Now())*time.Microsecond + clockAdd }

// SleepFor lets other tasks run, then moves the simulated clock on by d.
func SleepFor(d time.Duration) {
	if !Running() {
		return
	}
	end := Clock() + d
	first := true
	Block(func() bool { f := first; first = false; return !f })
	if c := Clock(); c < end {
		clockAdd += end - c
	}
}

var cpuCounts = [...]int{1, 1, 2, 2, 3, 4, 4, 5, 6, 7, 8, 8, 12, 16, 24, 32, 48, 64, 65, 96, 128, 192, 256}

var maxProcs = map[int]int{}

func node() int {
	if initNode >= 0 {
		return initNode
	}
	if S != nil && S.cur != nil {
		return S.cur.Node
	}
	return 0
}

// NumCPU is the number of processors of the node in this run.
func NumCPU() int {
	r := NewRng(Mix(runSeed, 14, uint64(node())))
	return cpuCounts[r.Intn(len(cpuCounts))]
}

func GOMAXPROCS(n int) int {
	k := node()
	old, ok := maxProcs[k]
	if !ok {
		old = NumCPU()
	}
	if n > 0 {
		maxProcs[k] = n
	}
	return old
}

func NumGoroutine() int {
	n := 1
	if S != nil {
		for _, t := range S.tasks {
			if t.st != done && t.st != crashed {
				n++
			}
		}
	}
	return n
}

// Timer runs fn, which waits for a timer of the library, as a task.
func Timer(fn func()) { Go(fn) }

// Settling is set while no call is in progress and what the library has
// started gets time to end: some seconds, not minutes.
var Settling bool

// TimerWait lets a timer wait. It fires at any time, or is stopped.
func TimerWait(d time.Duration, stopped func() bool) {
	first := true
	Block(func() bool {
		if stopped() {
			return true
		}
		f := first
		first = false
		return !f && (!Settling || d < time.Minute)
	})
	if !stopped() && Running() {
		clockAdd += d
	}
}

// CallersAlive reports whether a task that calls the library has not ended,
// and CallerSteps how much those tasks have done.
func CallersAlive() bool {
	if S != nil {
		for _, t := range S.tasks {
			if !t.Lib && t.st != done && t.st != crashed {
				return true
			}
		}
	}
	return false
}

func CallerSteps() int64 {
	n := int64(0)
	if S != nil {
		for _, t := range S.tasks {
			if !t.Lib {
				n += t.steps
			}
		}
	}
	return n
}

var (
	poolDrops []func()
	poolGen   int
)

// PoolGen changes from run to run.
func PoolGen() int { return poolGen }

// OnDropPools registers what empties a pool.
func OnDropPools(f func()) { poolDrops = append(poolDrops, f) }

// DropPools empties all pools, as two garbage collections do.
func DropPools() {
	for _, f := range poolDrops {
		f()
	}
}

func resetPools() {
	poolDrops = nil
	poolGen++
}
