// Package context puts deadlines on the simulated clock.
package context

import (
	real "context"
	"time"

	"verif.local/simrt"
)

type deadline struct {
	real.Context
	at  time.Time
	hit *bool
}

func (d deadline) Deadline() (time.Time, bool) { return d.at, true }
func (d deadline) Err() error {
	if e := d.Context.Err(); e != nil && *d.hit {
		return real.DeadlineExceeded
	} else {
		return e
	}
}

func WithTimeout(p real.Context, d time.Duration) (real.Context, real.CancelFunc) {
	c, cancel := real.WithCancel(p)
	hit := new(bool)
	t := simrt.AfterNs(int64(d), func() { *hit = true; cancel() })
	return deadline{c, time.Unix(0, simrt.Epoch+simrt.ClockNs()+int64(d)), hit}, func() { t.Stop(); cancel() }
}

func WithDeadline(p real.Context, at time.Time) (real.Context, real.CancelFunc) {
	return WithTimeout(p, time.Duration(at.UnixNano()-simrt.Epoch-simrt.ClockNs()))
}

func WithTimeoutCause(p real.Context, d time.Duration, _ error) (real.Context, real.CancelFunc) {
	return WithTimeout(p, d)
}

func WithDeadlineCause(p real.Context, at time.Time, _ error) (real.Context, real.CancelFunc) {
	return WithDeadline(p, at)
}
