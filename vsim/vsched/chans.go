package vsched

import (
	"fmt"
	"reflect"
	"sort"
)

// Unbuffered channels need a rendezvous; real channels carry everything else.
type offer struct {
	v     interface{}
	taken bool
}

type chanState struct {
	offers  []*offer
	waiters int
	closed  bool
}

var chans map[uintptr]*chanState
var chanKeep []interface{}

func chanReset() { chans = map[uintptr]*chanState{}; chanKeep = nil }

func cs(ch interface{}) *chanState {
	p := reflect.ValueOf(ch).Pointer()
	c := chans[p]
	if c == nil {
		c = &chanState{}
		chans[p] = c
		chanKeep = append(chanKeep, ch) // keep alive so that addresses stay unique
	}
	return c
}

func tryRecv[T any](ch <-chan T) (v T, ok, ready bool) {
	if ch == nil {
		return
	}
	if cap(ch) == 0 {
		c := cs(ch)
		if len(c.offers) > 0 {
			o := c.offers[0]
			c.offers = c.offers[1:]
			o.taken = true
			return o.v.(box[T]).v, true, true
		}
	}
	select {
	case v, ok = <-ch:
		return v, ok, true
	default:
		return v, false, false
	}
}

type box[T any] struct{ v T }

func recvReady[T any](ch <-chan T) bool {
	if ch == nil {
		return false
	}
	if cap(ch) == 0 {
		c := cs(ch)
		if len(c.offers) > 0 || c.closed {
			return true
		}
		// closed by code outside the scheduler
		select {
		case _, ok := <-ch:
			if !ok {
				c.closed = true
				return true
			}
			return false
		default:
			return false
		}
	}
	if len(ch) > 0 {
		return true
	}
	c := cs(ch)
	if c.closed {
		return true
	}
	select {
	case _, ok := <-ch:
		if !ok {
			c.closed = true
			return true
		}
		panic("vsched: value lost")
	default:
		return false
	}
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if Killed() {
		var z T
		return z, false
	}
	Yield()
	if ch != nil && !recvReady(ch) {
		c := cs(ch)
		c.waiters++
		defer func() { c.waiters-- }()
		Block(func() bool { return recvReady(ch) }, "chan receive")
	} else if ch == nil {
		Block(func() bool { return false }, "receive on nil channel")
	}
	v, ok, _ := tryRecv(ch)
	return v, ok
}

// Send is ch <- v.
func Send[T any](ch chan<- T, v T) {
	if Killed() {
		return
	}
	Yield()
	if ch == nil {
		Block(func() bool { return false }, "send on nil channel")
		return
	}
	c := cs(ch)
	if cap(ch) > 0 {
		Block(func() bool { return len(ch) < cap(ch) || c.closed }, "chan send")
		ch <- v // panics if closed, as it should
		return
	}
	if c.closed {
		panic("send on closed channel")
	}
	o := &offer{v: box[T]{v}}
	c.offers = append(c.offers, o)
	Block(func() bool { return o.taken || c.closed }, "chan send")
	if !o.taken && !Killed() {
		panic("send on closed channel")
	}
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	if Killed() {
		return
	}
	Yield()
	if ch != nil && s != nil {
		cs(ch).closed = true
	}
	close(ch)
}

// Case of a select.
type Case interface {
	ready() bool
	commit()
	enter()
	leave()
}

type RC[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

func RecvCase[T any](ch <-chan T) *RC[T] { return &RC[T]{ch: ch} }
func (c *RC[T]) ready() bool             { return recvReady(c.ch) }
func (c *RC[T]) commit()                 { c.V, c.OK, _ = tryRecv(c.ch) }
func (c *RC[T]) enter() {
	if c.ch != nil {
		cs(c.ch).waiters++
	}
}
func (c *RC[T]) leave() {
	if c.ch != nil {
		cs(c.ch).waiters--
	}
}

type SC[T any] struct {
	ch chan<- T
	v  T
}

func SendCase[T any](ch chan<- T, v T) *SC[T] { return &SC[T]{ch: ch, v: v} }
func (c *SC[T]) ready() bool {
	if c.ch == nil {
		return false
	}
	st := cs(c.ch)
	if st.closed {
		return true
	}
	if cap(c.ch) > 0 {
		return len(c.ch) < cap(c.ch)
	}
	return st.waiters > len(st.offers)
}
func (c *SC[T]) commit() {
	st := cs(c.ch)
	if st.closed {
		panic("send on closed channel")
	}
	if cap(c.ch) > 0 {
		c.ch <- c.v
		return
	}
	o := &offer{v: box[T]{c.v}}
	st.offers = append(st.offers, o)
	Block(func() bool { return o.taken }, "select send")
}
func (c *SC[T]) enter() {}
func (c *SC[T]) leave() {}

// Select picks a ready case; -1 is the default clause.
func Select(hasDefault bool, cases ...Case) int {
	if Killed() {
		panic(killSentinel)
	}
	Yield()
	readyCases := func() (out []int) {
		for i, c := range cases {
			if c.ready() {
				out = append(out, i)
			}
		}
		return
	}
	r := readyCases()
	if len(r) == 0 {
		if hasDefault {
			return -1
		}
		for _, c := range cases {
			c.enter()
		}
		Block(func() bool { return len(readyCases()) > 0 }, "select")
		for _, c := range cases {
			c.leave()
		}
		r = readyCases()
	}
	if len(r) == 0 {
		panic(killSentinel)
	}
	k := 0
	if len(r) > 1 {
		k = chooseCost(len(r), KSelect, "select", nil)
	}
	cases[r[k]].commit()
	return r[k]
}

// Keys returns the keys of a map in a deterministic order.
func Keys[K comparable, V any](m map[K]V) []K {
	out := make([]K, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	if len(out) < 2 {
		return out
	}
	sort.SliceStable(out, func(i, j int) bool { return lessVal(out[i], out[j]) })
	if MapOrder() == 1 {
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

// Unordered counts map iterations whose order could not be made deterministic.
var Unordered int

func lessVal(a, b interface{}) bool {
	if x, ok := a.(interface{ GetID() int }); ok {
		if y, ok := b.(interface{ GetID() int }); ok {
			return x.GetID() < y.GetID()
		}
	}
	return cmpRV(reflect.ValueOf(a), reflect.ValueOf(b)) < 0
}

func cmpRV(a, b reflect.Value) int {
	if a.Kind() != b.Kind() {
		return int(a.Kind()) - int(b.Kind())
	}
	switch a.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return cmp3(a.Int() < b.Int(), a.Int() > b.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return cmp3(a.Uint() < b.Uint(), a.Uint() > b.Uint())
	case reflect.String:
		return cmp3(a.String() < b.String(), a.String() > b.String())
	case reflect.Bool:
		return cmp3(!a.Bool() && b.Bool(), a.Bool() && !b.Bool())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if c := cmpRV(a.Field(i), b.Field(i)); c != 0 {
				return c
			}
		}
		return 0
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if c := cmpRV(a.Index(i), b.Index(i)); c != 0 {
				return c
			}
		}
		return 0
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return cmp3(a.IsNil() && !b.IsNil(), !a.IsNil() && b.IsNil())
		}
		return cmpRV(a.Elem(), b.Elem())
	default:
		Unordered++
		return cmp3(fmt.Sprint(a) < fmt.Sprint(b), fmt.Sprint(a) > fmt.Sprint(b))
	}
}

func cmp3(l, g bool) int {
	if l {
		return -1
	}
	if g {
		return 1
	}
	return 0
}

// SendTo is ch <- v with the element type taken from the channel.
func SendTo[T any](ch chan<- T) func(T) { return func(v T) { Send(ch, v) } }

// SendCaseTo is a send case with the element type taken from the channel.
func SendCaseTo[T any](ch chan<- T) func(T) *SC[T] {
	return func(v T) *SC[T] { return SendCase(ch, v) }
}

// Forever is select{}.
func Forever() { Block(func() bool { return false }, "select{}") }

// Entry of a map being iterated.
type Entry[K comparable, V any] struct {
	m map[K]V
	K K
}

func (e Entry[K, V]) Live() bool { _, ok := e.m[e.K]; return ok }
func (e Entry[K, V]) V() V       { return e.m[e.K] }

// Entries iterates a map in a deterministic order.
func Entries[K comparable, V any](m map[K]V) []Entry[K, V] {
	MapR(m)
	ks := Keys(m)
	out := make([]Entry[K, V], len(ks))
	for i, k := range ks {
		out[i] = Entry[K, V]{m, k}
	}
	return out
}
