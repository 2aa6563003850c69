// Package time puts the simulated clock behind the time API.
package time

import (
	real "time"

	"verif.local/simrt"
)

func Now() real.Time                  { return real.Unix(0, simrt.Epoch+simrt.ClockNs()).UTC() }
func Since(t real.Time) real.Duration { return Now().Sub(t) }
func Until(t real.Time) real.Duration { return t.Sub(Now()) }

func Sleep(d real.Duration) {
	if d <= 0 {
		simrt.YieldNow()
		return
	}
	var w simrt.Waiter
	simrt.AfterNs(int64(d), w.Wake)
	w.Wait()
}

// Timer fires once.
type Timer struct {
	C <-chan real.Time
	c chan real.Time
	f func()
	t *simrt.Timer
	n int32
}

func (t *Timer) arm(d real.Duration) {
	t.t = simrt.AfterNs(int64(d), func() {
		if t.f != nil {
			simrt.SpawnAs(t.n, t.f)
			return
		}
		select {
		case t.c <- Now():
		default:
		}
	})
}

func (t *Timer) Stop() bool {
	r := t.t.Stop()
	t.drain()
	return r
}

func (t *Timer) drain() {
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
}

func (t *Timer) Reset(d real.Duration) bool {
	r := t.t.Stop()
	t.drain()
	t.arm(d)
	return r
}

func NewTimer(d real.Duration) *Timer {
	c := make(chan real.Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

func AfterFunc(d real.Duration, f func()) *Timer {
	t := &Timer{f: f, n: simrt.NodeIndex()}
	t.arm(d)
	return t
}

func After(d real.Duration) <-chan real.Time { return NewTimer(d).C }

// Ticker fires repeatedly.
type Ticker struct {
	C    <-chan real.Time
	c    chan real.Time
	d    real.Duration
	t    *simrt.Timer
	stop bool
}

func (t *Ticker) arm() {
	t.t = simrt.AfterNs(int64(t.d), func() {
		if t.stop {
			return
		}
		select {
		case t.c <- Now():
		default:
		}
		t.arm()
	})
}

func (t *Ticker) Stop() { t.stop = true; t.t.Stop() }
func (t *Ticker) Reset(d real.Duration) {
	t.t.Stop()
	t.d, t.stop = d, false
	t.arm()
}

func NewTicker(d real.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan real.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}

func Tick(d real.Duration) <-chan real.Time { return NewTicker(d).C }
