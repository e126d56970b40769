// Package simtime replaces package time in instrumented code. Everything but
// the identifiers below is re-exported from the real package (generated file).
package simtime

import (
	"time"

	"zntr.io/solid/zz_verif/simrt"
)

func Now() time.Time {
	simrt.Y()
	return time.Unix(0, simrt.NowNanos())
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { simrt.Sleep(int64(d)) }

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Timer fires in simulated time.
type Timer struct {
	C <-chan time.Time
	c chan time.Time
	f func()
	t *simrt.Timer
}

//go:norace
func (t *Timer) start(d time.Duration) {
	if simrt.Active() {
		t.t = simrt.NewTimer(int64(d), t.fire)
	}
}

//go:norace
func (t *Timer) fire() {
	if t.f != nil {
		t.f()
		return
	}
	simrt.Offer(t.c, Now())
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

//go:norace
func (t *Timer) Stop() bool {
	was := t.t != nil && t.t.Stop()
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
	return was
}

func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.start(d)
	return was
}

// Ticker ticks in simulated time.
type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	d time.Duration
	t *simrt.Timer
}

//go:norace
func (t *Ticker) start(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t.d = d
	if simrt.Active() {
		t.t = simrt.NewTimer(int64(d), t.fire)
	}
}

//go:norace
func (t *Ticker) fire() {
	t.start(t.d)
	simrt.Offer(t.c, Now())
}

func NewTicker(d time.Duration) *Ticker {
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c}
	t.start(d)
	return t
}

//go:norace
func (t *Ticker) Stop() {
	if t.t != nil {
		t.t.Stop()
	}
}

func (t *Ticker) Reset(d time.Duration) { t.Stop(); t.start(d) }

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
