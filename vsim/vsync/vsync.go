// Package vsync mirrors package sync on top of the cooperative scheduler.
package vsync

import (
	"github.com/strangelove-ventures/horcrux/vsim/vsched"
)

// Locker mirrors sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct {
	locked bool
	run    int
	owner  string
}

func (m *Mutex) fresh() {
	if m.run != vsched.RunID {
		m.run, m.locked = vsched.RunID, false
	}
}

func (m *Mutex) Lock() {
	m.fresh()
	if !vsched.Active() {
		if m.locked {
			panic("vsync: deadlock outside a managed task")
		}
		m.locked = true
		return
	}
	if vsched.Killed() {
		return
	}
	vsched.Yield()
	vsched.Block(func() bool { return !m.locked }, "mutex held by "+m.owner)
	m.locked = true
	m.owner = vsched.TaskName()
}

func (m *Mutex) TryLock() bool {
	m.fresh()
	vsched.Yield()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	m.fresh()
	if vsched.Killed() {
		m.locked = false
		return
	}
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
}

type RWMutex struct {
	w       bool
	r       int
	waiting int
	run     int
}

func (m *RWMutex) fresh() {
	if m.run != vsched.RunID {
		m.run, m.w, m.r, m.waiting = vsched.RunID, false, 0, 0
	}
}
func (m *RWMutex) Lock() {
	m.fresh()
	if vsched.Killed() {
		return
	}
	vsched.Yield()
	m.waiting++
	vsched.Block(func() bool { return !m.w && m.r == 0 }, "rwmutex lock")
	m.waiting--
	m.w = true
}
func (m *RWMutex) Unlock() {
	m.fresh()
	if vsched.Killed() {
		m.w = false
		return
	}
	if !m.w {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.w = false
}
func (m *RWMutex) RLock() {
	m.fresh()
	if vsched.Killed() {
		return
	}
	vsched.Yield()
	vsched.Block(func() bool { return !m.w && m.waiting == 0 }, "rwmutex rlock")
	m.r++
}
func (m *RWMutex) RUnlock() {
	m.fresh()
	if vsched.Killed() {
		if m.r > 0 {
			m.r--
		}
		return
	}
	if m.r <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.r--
}
func (m *RWMutex) TryLock() bool {
	m.fresh()
	vsched.Yield()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) TryRLock() bool {
	m.fresh()
	vsched.Yield()
	if m.w || m.waiting > 0 {
		return false
	}
	m.r++
	return true
}

type rlocker struct{ m *RWMutex }

func (l rlocker) Lock()            { l.m.RLock() }
func (l rlocker) Unlock()          { l.m.RUnlock() }
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	if vsched.Killed() {
		return
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if vsched.Killed() {
		return
	}
	vsched.Yield()
	vsched.Block(func() bool { return w.n == 0 }, "waitgroup")
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() { defer w.Done(); f() })
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	vsched.Yield()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc mirrors sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue mirrors sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

type Cond struct {
	L   Locker
	tix []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	b := new(bool)
	c.tix = append(c.tix, b)
	c.L.Unlock()
	vsched.Yield()
	vsched.Block(func() bool { return *b }, "cond")
	c.L.Lock()
}
func (c *Cond) Signal() {
	vsched.Yield()
	if len(c.tix) > 0 {
		*c.tix[0] = true
		c.tix = c.tix[1:]
	}
}
func (c *Cond) Broadcast() {
	vsched.Yield()
	for _, b := range c.tix {
		*b = true
	}
	c.tix = nil
}

// Map mirrors sync.Map (operations are atomic with a scheduling point before each).
type Map struct {
	m map[interface{}]interface{}
}

func (m *Map) init() {
	vsched.Yield()
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
}
func (m *Map) Load(k interface{}) (v interface{}, ok bool) { m.init(); v, ok = m.m[k]; return }
func (m *Map) Store(k, v interface{})                      { m.init(); m.m[k] = v }
func (m *Map) Delete(k interface{})                        { m.init(); delete(m.m, k) }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.init()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (v interface{}, ok bool) {
	m.init()
	v, ok = m.m[k]
	delete(m.m, k)
	return
}
func (m *Map) Swap(k, v interface{}) (p interface{}, ok bool) {
	m.init()
	p, ok = m.m[k]
	m.m[k] = v
	return
}
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	m.init()
	if m.m[k] == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.init()
	for _, k := range vsched.Keys(m.m) {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}
