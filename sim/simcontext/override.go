// Package simcontext replaces package context in instrumented code: deadlines
// pass in simulated time. Everything else is re-exported (generated file).
package simcontext

import (
	"context"
	"time"

	"zntr.io/solid/zz_verif/simrt"
	"zntr.io/solid/zz_verif/simtime"
)

type dctx struct {
	context.Context
	at     time.Time
	out    bool
	cause  error
	cancel context.CancelCauseFunc
}

//go:norace
func (c *dctx) late() {
	if c.Context.Err() == nil {
		c.out = true
		c.cancel(c.cause)
	}
}

func (c *dctx) Deadline() (time.Time, bool) { return c.at, true }

//go:norace
func (c *dctx) Err() error {
	err := c.Context.Err()
	if err != nil && c.out {
		return context.DeadlineExceeded
	}
	return err
}

func WithTimeout(p context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(p, simtime.Now().Add(d), nil)
}

func WithTimeoutCause(p context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(p, simtime.Now().Add(d), cause)
}

func WithDeadline(p context.Context, at time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(p, at, nil)
}

func WithDeadlineCause(p context.Context, at time.Time, cause error) (context.Context, context.CancelFunc) {
	if !simrt.Active() {
		return context.WithDeadlineCause(p, at, cause)
	}
	if old, ok := p.Deadline(); ok && old.Before(at) {
		at = old
	}
	in, cancel := context.WithCancelCause(p)
	if cause == nil {
		cause = context.DeadlineExceeded
	}
	c := &dctx{Context: in, at: at, cause: cause, cancel: cancel}
	d := simtime.Until(at)
	if d <= 0 {
		c.late()
		return c, func() {}
	}
	t := simtime.AfterFunc(d, c.late)
	return c, func() { t.Stop(); cancel(nil) }
}
