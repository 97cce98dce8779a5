// Package vcontext mirrors context's timers and cancellation in virtual time.
package vcontext

import (
	"context"
	"time"

	"github.com/strangelove-ventures/horcrux/vsim/vsched"
	"github.com/strangelove-ventures/horcrux/vsim/vtime"
)

type ctx struct {
	parent   context.Context
	deadline time.Time
	hasDL    bool
	done     chan struct{}
	err      error
	kids     []*ctx
	stop     func() bool
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error {
	if c.err == nil && c.parent != nil {
		return c.parent.Err()
	}
	return c.err
}
func (c *ctx) Value(k interface{}) interface{} { return c.parent.Value(k) }

func (c *ctx) cancel(err error) {
	if c.err != nil {
		return
	}
	c.err = err
	close(c.done)
	if c.stop != nil {
		c.stop()
	}
	for _, k := range c.kids {
		k.cancel(err)
	}
}

func derive(parent context.Context) *ctx {
	c := &ctx{parent: parent, done: make(chan struct{})}
	for p := parent; p != nil; {
		if pc, ok := p.(*ctx); ok {
			if pc.err != nil {
				c.cancel(pc.err)
			} else {
				pc.kids = append(pc.kids, c)
			}
		}
		break
	}
	return c
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := derive(parent)
	return c, func() { c.cancel(context.Canceled) }
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, vtime.Now().Add(d))
}

func WithDeadline(parent context.Context, t time.Time) (context.Context, context.CancelFunc) {
	c := derive(parent)
	if pd, ok := parent.Deadline(); ok && pd.Before(t) {
		t = pd
	}
	c.deadline, c.hasDL = t, true
	if c.err == nil {
		c.stop = vsched.AddTimer(t.Sub(vtime.Now()), func() { c.cancel(context.DeadlineExceeded) })
	}
	return c, func() { c.cancel(context.Canceled) }
}
