// Package vtime mirrors the clock dependent part of package time in virtual time.
package vtime

import (
	"time"

	"github.com/strangelove-ventures/horcrux/vsim/vsched"
)

func Now() time.Time                         { return vsched.Epoch.Add(time.Duration(vsched.Now())) }
func Since(t time.Time) time.Duration        { return Now().Sub(t) }
func Until(t time.Time) time.Duration        { return t.Sub(Now()) }
func Sleep(d time.Duration)                  { vsched.Sleep(d) }
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

type Timer struct {
	C    <-chan time.Time
	c    chan time.Time
	f    func()
	stop func() bool
}

func (t *Timer) arm(d time.Duration) {
	node := vsched.Node()
	t.stop = vsched.AddTimer(d, func() {
		if t.f != nil {
			vsched.Spawn(node, "afterfunc", t.f)
			return
		}
		select {
		case t.c <- Now():
		default:
		}
	})
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

func (t *Timer) Stop() bool { return t.stop() }
func (t *Timer) Reset(d time.Duration) bool {
	r := t.stop()
	t.arm(d)
	return r
}

type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	d    time.Duration
	stop func() bool
	off  bool
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}
func (t *Ticker) arm() {
	t.stop = vsched.AddTimer(t.d, func() {
		select {
		case t.c <- Now():
		default:
		}
		if !t.off {
			t.arm()
		}
	})
}
func (t *Ticker) Stop() { t.off = true; t.stop() }
func (t *Ticker) Reset(d time.Duration) {
	t.stop()
	t.off, t.d = false, d
	t.arm()
}
