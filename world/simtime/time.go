// Package simtime stands in for package time: the clock counts executed
// statements, and sleeping lets other tasks run. A timer is a task that
// sleeps: it may fire at any moment after it was started, as on a machine
// that is arbitrarily slow.
package simtime

import (
	"simworld/rt"
	"time"
)

type (
	Duration   = time.Duration
	Time       = time.Time
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RFC822      = time.RFC822
	RFC1123     = time.RFC1123
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
)

var (
	UTC   = time.UTC
	Local = time.UTC

	epoch = time.Unix(1600000000, 0).UTC()
)

func Now() Time                                { return epoch.Add(rt.Clock()) }
func Since(t Time) Duration                    { return Now().Sub(t) }
func Until(t Time) Duration                    { return t.Sub(Now()) }
func Unix(s, n int64) Time                     { return time.Unix(s, n).UTC() }
func UnixMilli(ms int64) Time                  { return time.Unix(ms/1000, ms%1000*1000000).UTC() }
func UnixMicro(us int64) Time                  { return time.Unix(us/1000000, us%1000000*1000).UTC() }
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }
func Parse(layout, v string) (Time, error)     { return time.Parse(layout, v) }
func Date(y int, m Month, d, h, mi, s, ns int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, ns, l)
}
func Sleep(d Duration) { rt.SleepFor(d) }

type Timer struct {
	C  <-chan Time
	c  chan Time
	fn func()
	g  *int // the current setting; nil once it has fired or was stopped
}

func (t *Timer) start(d Duration) {
	g := new(int)
	t.g = g
	rt.Timer(func() {
		rt.TimerWait(d, func() bool { return t.g != g })
		if t.g != g || rt.Dying() {
			return
		}
		t.g = nil
		if t.fn != nil {
			t.fn()
			return
		}
		select {
		case t.c <- Now():
		default:
		}
	})
}

func (t *Timer) Stop() bool {
	rt.Yield()
	on := t.g != nil
	t.g = nil
	return on
}

func (t *Timer) Reset(d Duration) bool {
	on := t.Stop()
	t.start(d)
	return on
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{fn: f}
	t.start(d)
	return t
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

// A Ticker ticks again only once its last tick has been taken, and not for
// ever while nothing but the goroutine that takes the ticks runs.
type Ticker struct {
	C <-chan Time
	c chan Time
	g *int
}

func (t *Ticker) start(d Duration) {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	g := new(int)
	t.g = g
	rt.Timer(func() {
		idle, last := 0, rt.CallerSteps()
		for {
			rt.SleepFor(d)
			rt.Block(func() bool {
				if t.g != g {
					return true
				}
				return len(t.c) == 0 && (idle < 200 && rt.CallersAlive() || rt.CallerSteps() != last)
			})
			if t.g != g || rt.Dying() {
				return
			}
			if n := rt.CallerSteps(); n != last {
				idle, last = 0, n
			} else {
				idle++
			}
			select {
			case t.c <- Now():
			default:
			}
		}
	})
}

func (t *Ticker) Stop()            { rt.Yield(); t.g = nil }
func (t *Ticker) Reset(d Duration) { t.Stop(); t.start(d) }

func NewTicker(d Duration) *Ticker {
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c}
	t.start(d)
	return t
}

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
