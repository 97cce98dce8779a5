// Package vnet mirrors the dialing and listening part of package net with
// in-memory connections driven by the cooperative scheduler.
package vnet

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"strconv"
	"time"

	"github.com/strangelove-ventures/horcrux/vsim/vsched"
	"github.com/strangelove-ventures/horcrux/vsim/vtime"
)

var listeners map[string]*Listener

// DialHook, if set, decides a dial before the registry is consulted.
var DialHook func(addr string) error

// Reset clears the network.
func Reset() { listeners = map[string]*Listener{}; DialHook = nil }

func init() { Reset() }

func portOf(addr string) string {
	_, p, err := net.SplitHostPort(addr)
	if err != nil {
		return addr
	}
	return p
}

type Addr string

func (a Addr) Network() string { return "tcp" }
func (a Addr) String() string  { return string(a) }

// Listener accepts in-memory connections; it also marks a port as in use for RPC servers.
type Listener struct {
	Port   string
	Node   string
	queue  []*Conn
	closed bool
}

func Listen(network, addr string) (net.Listener, error) {
	p := portOf(addr)
	key := p // on every address of the machine
	if h, _, err := net.SplitHostPort(addr); err == nil && h != "" && h != "0.0.0.0" && h != "::" {
		key = addr
	}
	if l := listeners[key]; l != nil && !l.closed && !vsched.IsCrashed(l.Node) {
		return nil, &net.OpError{Op: "listen", Net: network, Err: errors.New("address already in use")}
	}
	if n, err := strconv.Atoi(p); err != nil || n < 0 || n > 65535 {
		return nil, &net.OpError{Op: "listen", Net: network, Err: errors.New("invalid port")}
	}
	l := &Listener{Port: p, Node: vsched.Node()}
	listeners[key] = l
	return l, nil
}

// Lookup returns the live listener of an address.
func Lookup(addr string) *Listener {
	l := listeners[addr]
	if l == nil || l.closed {
		l = listeners[portOf(addr)]
	}
	if l == nil || l.closed || vsched.IsCrashed(l.Node) {
		return nil
	}
	return l
}

func (l *Listener) Accept() (net.Conn, error) {
	vsched.Block(func() bool { return len(l.queue) > 0 || l.closed }, "accept "+l.Port)
	if l.closed || vsched.Killed() {
		return nil, net.ErrClosed
	}
	c := l.queue[0]
	l.queue = l.queue[1:]
	return c, nil
}
func (l *Listener) Close() error   { l.closed = true; return nil }
func (l *Listener) Addr() net.Addr { return Addr(":" + l.Port) }

type half struct {
	buf    []byte
	closed bool // no more data will arrive
	reset  bool
}

// Conn is one end of an in-memory connection.
type Conn struct {
	r, w   *half
	name   string
	closed bool
	rdl    time.Time
	wdl    time.Time
	// MaxRead limits a single Read (fragmentation); 0 no limit.
	MaxRead func() int
	// WriteErr, if set, fails the next write after n bytes.
	WriteErr func(n int) (int, error)
	peer     *Conn
}

// Pipe returns two connected ends.
func Pipe(a, b string) (*Conn, *Conn) {
	x, y := &half{}, &half{}
	c := &Conn{r: x, w: y, name: a}
	d := &Conn{r: y, w: x, name: b}
	c.peer, d.peer = d, c
	return c, d
}

func (c *Conn) Peer() *Conn { return c.peer }

func (c *Conn) Read(b []byte) (int, error) {
	if vsched.Killed() {
		return 0, net.ErrClosed
	}
	vsched.Yield()
	if c.closed {
		return 0, net.ErrClosed
	}
	var cancel func() bool
	if !c.rdl.IsZero() {
		cancel = vsched.AddTimer(c.rdl.Sub(vtime.Now()), func() {})
	}
	vsched.Block(func() bool {
		return len(c.r.buf) > 0 || c.r.closed || c.r.reset || c.closed || (!c.rdl.IsZero() && !vtime.Now().Before(c.rdl))
	}, "conn read "+c.name)
	if cancel != nil {
		cancel()
	}
	if c.closed || vsched.Killed() {
		return 0, net.ErrClosed
	}
	if len(c.r.buf) == 0 {
		if c.r.reset {
			return 0, errors.New("read: connection reset by peer")
		}
		if c.r.closed {
			return 0, io.EOF
		}
		return 0, os.ErrDeadlineExceeded
	}
	n := len(b)
	if c.MaxRead != nil {
		if m := c.MaxRead(); m > 0 && m < n {
			n = m
		}
	}
	n = copy(b[:n], c.r.buf)
	c.r.buf = c.r.buf[n:]
	return n, nil
}

func (c *Conn) Write(b []byte) (int, error) {
	if vsched.Killed() {
		return 0, net.ErrClosed
	}
	vsched.Yield()
	if c.closed {
		return 0, net.ErrClosed
	}
	if c.peer.closed || c.w.closed {
		return 0, errors.New("write: broken pipe")
	}
	if c.WriteErr != nil {
		if n, err := c.WriteErr(len(b)); err != nil {
			c.w.buf = append(c.w.buf, b[:n]...)
			return n, err
		}
	}
	c.w.buf = append(c.w.buf, b...)
	return len(b), nil
}

func (c *Conn) Close() error {
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	c.w.closed = true
	return nil
}

// Abort resets the connection in both directions.
func (c *Conn) Abort() {
	c.closed = true
	c.w.reset = true
	c.w.buf = nil
}

// Buffered data waiting to be read on this end.
func (c *Conn) Buffered() []byte { return c.r.buf }

// PeerClosed reports that the other end closed.
func (c *Conn) PeerClosed() bool { return c.peer.closed }

func (c *Conn) LocalAddr() net.Addr                { return Addr(c.name) }
func (c *Conn) RemoteAddr() net.Addr               { return Addr(c.peer.name) }
func (c *Conn) SetDeadline(t time.Time) error      { c.rdl, c.wdl = t, t; return nil }
func (c *Conn) SetReadDeadline(t time.Time) error  { c.rdl = t; return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { c.wdl = t; return nil }

// Dialer mirrors net.Dialer.
type Dialer struct {
	Timeout       time.Duration
	Deadline      time.Time
	LocalAddr     net.Addr
	DualStack     bool
	FallbackDelay time.Duration
	KeepAlive     time.Duration
	Resolver      *net.Resolver
	Cancel        <-chan struct{}
}

func (d *Dialer) Dial(network, addr string) (net.Conn, error) {
	vsched.Yield()
	if DialHook != nil {
		if err := DialHook(addr); err != nil {
			return nil, &net.OpError{Op: "dial", Net: network, Err: err}
		}
	}
	l := Lookup(addr)
	if l == nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: errors.New("connect: connection refused")}
	}
	a, b := Pipe("dialer>"+addr, addr)
	l.queue = append(l.queue, b)
	return a, nil
}

func (d *Dialer) DialContext(_ context.Context, network, addr string) (net.Conn, error) {
	return d.Dial(network, addr)
}

func Dial(network, addr string) (net.Conn, error) { return (&Dialer{}).Dial(network, addr) }
func DialTimeout(network, addr string, t time.Duration) (net.Conn, error) {
	return (&Dialer{Timeout: t}).Dial(network, addr)
}

// SecretConnErr, if set, decides the handshake.
var SecretConnErr func() error

// MakeSecretConnection stands in for the encrypted transport handshake.
func MakeSecretConnection(c io.ReadWriteCloser, _ interface{}) (net.Conn, error) {
	vsched.Yield()
	if SecretConnErr != nil {
		if err := SecretConnErr(); err != nil {
			return nil, err
		}
	}
	return c.(net.Conn), nil
}

// CloseNode drops the listeners of a crashed node.
func CloseNode(node string) {
	for _, l := range listeners {
		if l.Node == node {
			l.closed = true
		}
	}
}

// Pending is the number of connections waiting to be accepted.
func (l *Listener) Pending() int { return len(l.queue) }
