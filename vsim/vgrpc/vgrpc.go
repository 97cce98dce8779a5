// Package vgrpc mirrors the used part of google.golang.org/grpc in memory:
// unary calls, protobuf round trips, deadlines, and injectable faults.
package vgrpc

import (
	"context"
	"fmt"
	"net"
	"strings"
	"time"

	"github.com/strangelove-ventures/horcrux/vsim/vcontext"
	"github.com/strangelove-ventures/horcrux/vsim/vnet"
	"github.com/strangelove-ventures/horcrux/vsim/vsched"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/connectivity"
	"google.golang.org/grpc/encoding"
	_ "google.golang.org/grpc/encoding/proto"
	"google.golang.org/grpc/status"
)

// Call describes one unary call for the fault hook.
type Call struct {
	Src, Dst string // nodes
	Addr     string
	Method   string // last path element
	Args     interface{}
}

// Fault is what happens to a call.
type Fault struct {
	Refuse      bool          // fails at once, not delivered
	Hang        bool          // never delivered; the caller waits for its deadline
	Delay       time.Duration // before delivery
	LoseReply   bool          // executed, the caller gets Unavailable
	HangReply   bool          // executed, the reply never arrives
	DelayReply  time.Duration
	MutateReq   func(interface{}) interface{}
	MutateReply func(interface{}) error
	Err         error // answered by the server with an error, not executed
	CrashBefore bool  // the server crashes on receipt
	CrashAfter  bool  // the server crashes after executing, before replying
	Twice       bool  // delivered twice (first reply is used)
}

// Hook decides the fate of each call.
var Hook func(c *Call) Fault

// Observe sees each completed call.
var Observe func(c *Call, reply interface{}, err error)

// Calls counts calls.
var Calls int

var servers map[string]*Server // by port

// Reset clears the registry.
func Reset() { servers = map[string]*Server{}; Hook = nil; Observe = nil; Calls = 0 }

func init() { Reset() }

type svc struct {
	desc *grpc.ServiceDesc
	impl interface{}
}

type Server struct {
	svcs    map[string]svc
	stopped bool
	Node    string
}

func NewServer(_ ...grpc.ServerOption) *Server { return &Server{svcs: map[string]svc{}} }

func (s *Server) RegisterService(d *grpc.ServiceDesc, impl interface{}) {
	s.svcs[d.ServiceName] = svc{d, impl}
}
func (s *Server) GetServiceInfo() map[string]grpc.ServiceInfo { return nil }
func (s *Server) Serve(l net.Listener) error {
	vl, ok := l.(*vnet.Listener)
	if !ok {
		return fmt.Errorf("vgrpc: unknown listener %T", l)
	}
	s.Node = vsched.Node()
	servers[vl.Port] = s
	vsched.Yield()
	vsched.Block(func() bool { return s.stopped }, "grpc serve")
	return nil
}
func (s *Server) Stop()         { s.stopped = true }
func (s *Server) GracefulStop() { s.stopped = true }

// Serving reports a live server at an address.
func Serving(addr string) bool { return find(addr) != nil }

func find(addr string) *Server {
	a := strings.TrimPrefix(strings.TrimPrefix(addr, "dns:///"), "passthrough:///")
	_, p, err := net.SplitHostPort(a)
	if err != nil {
		return nil
	}
	s := servers[p]
	if s == nil || s.stopped || vsched.IsCrashed(s.Node) || vnet.Lookup(a) == nil {
		return nil
	}
	return s
}

type ClientConn struct {
	target string
	closed bool
}

func Dial(target string, _ ...grpc.DialOption) (*ClientConn, error) {
	return &ClientConn{target: target}, nil
}
func NewClient(target string, o ...grpc.DialOption) (*ClientConn, error) { return Dial(target, o...) }
func DialContext(_ context.Context, target string, o ...grpc.DialOption) (*ClientConn, error) {
	return Dial(target, o...)
}
func (c *ClientConn) Close() error {
	if c.closed {
		return status.Error(codes.Canceled, "grpc: the client connection is closing")
	}
	c.closed = true
	return nil
}
func (c *ClientConn) Target() string               { return c.target }
func (c *ClientConn) GetState() connectivity.State { return connectivity.Ready }
func (c *ClientConn) NewStream(context.Context, *grpc.StreamDesc, string, ...grpc.CallOption) (grpc.ClientStream, error) {
	return nil, status.Error(codes.Unimplemented, "vgrpc: streams")
}

func ctxErr(ctx context.Context) error {
	if ctx.Err() == context.DeadlineExceeded {
		return status.Error(codes.DeadlineExceeded, "context deadline exceeded")
	}
	return status.Error(codes.Canceled, "context canceled")
}

var codec = encoding.GetCodec("proto")

func done(ctx context.Context) func() bool {
	d := ctx.Done()
	return func() bool {
		if d == nil {
			return false
		}
		select {
		case <-d:
			return true
		default:
			return false
		}
	}
}

func (c *ClientConn) Invoke(ctx context.Context, method string, args, reply interface{}, _ ...grpc.CallOption) error {
	if vsched.Killed() {
		return status.Error(codes.Canceled, "killed")
	}
	Calls++
	vsched.Yield()
	if c.closed {
		return status.Error(codes.Canceled, "grpc: the client connection is closing")
	}
	parts := strings.Split(method, "/")
	call := &Call{Src: vsched.Node(), Addr: c.target, Method: parts[len(parts)-1], Args: args}
	srv := find(c.target)
	if srv != nil {
		call.Dst = srv.Node
	}
	err := c.invoke(ctx, call, srv, parts, args, reply)
	if Observe != nil && !vsched.Killed() {
		Observe(call, reply, err)
	}
	return err
}

func (c *ClientConn) invoke(ctx context.Context, call *Call, srv *Server, parts []string, args, reply interface{}) error {
	expired := done(ctx)
	unavailable := func() error {
		return status.Error(codes.Unavailable, "connection error: desc = \"transport: Error while dialing dial tcp "+c.target+": connect: connection refused\"")
	}
	var f Fault
	if Hook != nil {
		f = Hook(call)
	}
	vsched.Log("rpc %s -> %s(%s) %s fault=%+v", call.Src, c.target, call.Dst, call.Method, f)
	if f.Refuse {
		return unavailable()
	}
	if expired() {
		return ctxErr(ctx)
	}
	if f.Hang {
		vsched.Block(expired, "rpc "+call.Method+" to "+c.target+" (never answered)")
		return ctxErr(ctx)
	}
	if srv == nil {
		return unavailable()
	}
	if f.MutateReq != nil {
		args = f.MutateReq(args)
	}
	wire, err := codec.Marshal(args)
	if err != nil {
		return status.Error(codes.Internal, "grpc: error while marshaling: "+err.Error())
	}
	sv, ok := srv.svcs[parts[1]]
	if !ok {
		return status.Error(codes.Unimplemented, "unknown service "+parts[1])
	}
	var md *grpc.MethodDesc
	for i := range sv.desc.Methods {
		if sv.desc.Methods[i].MethodName == parts[2] {
			md = &sv.desc.Methods[i]
		}
	}
	if md == nil {
		return status.Error(codes.Unimplemented, "unknown method "+parts[2])
	}
	var out []byte
	var herr error
	finished := false
	run := func(record bool) func() {
		return func() {
			if f.Delay > 0 {
				vsched.Sleep(f.Delay)
			}
			if f.CrashBefore {
				vsched.Crash(srv.Node)
			}
			if f.Err != nil {
				herr, finished = f.Err, true
				return
			}
			var sctx context.Context = context.Background()
			var cancel context.CancelFunc = func() {}
			if dl, ok := ctx.Deadline(); ok {
				sctx, cancel = vcontext.WithDeadline(sctx, dl)
			} else {
				sctx, cancel = vcontext.WithCancel(sctx)
			}
			defer cancel()
			res, err := md.Handler(sv.impl, sctx, func(v interface{}) error { return codec.Unmarshal(wire, v) }, nil)
			if vsched.Killed() {
				return
			}
			if f.CrashAfter {
				vsched.Crash(srv.Node)
			}
			if f.DelayReply > 0 {
				vsched.Sleep(f.DelayReply)
			}
			if !record || finished {
				return
			}
			if err != nil {
				if _, ok := status.FromError(err); !ok {
					switch err {
					case context.DeadlineExceeded:
						err = status.Error(codes.DeadlineExceeded, err.Error())
					case context.Canceled:
						err = status.Error(codes.Canceled, err.Error())
					default:
						err = status.Error(codes.Unknown, err.Error())
					}
				}
				herr, finished = err, true
				return
			}
			if f.MutateReply != nil {
				if e := f.MutateReply(res); e != nil {
					herr, finished = e, true
					return
				}
			}
			b, e := codec.Marshal(res)
			if e != nil {
				herr, finished = status.Error(codes.Internal, "grpc: error while marshaling: "+e.Error()), true
				return
			}
			out, finished = b, true
		}
	}
	t := vsched.GoOn(srv.Node, "rpc."+call.Method+"."+srv.Node, run(!f.HangReply && !f.LoseReply))
	if f.Twice {
		vsched.GoOn(srv.Node, "rpc2."+call.Method+"."+srv.Node, run(false))
	}
	died := func() bool { return (t == nil || t.Done()) && !finished }
	vsched.Block(func() bool { return finished || expired() || (died() && !f.HangReply) }, "rpc "+call.Method+" to "+c.target)
	if vsched.Killed() {
		return status.Error(codes.Canceled, "killed")
	}
	if finished {
		if herr != nil {
			return herr
		}
		if err := codec.Unmarshal(out, reply); err != nil {
			return status.Error(codes.Internal, "grpc: failed to unmarshal the received message "+err.Error())
		}
		return nil
	}
	if expired() {
		return ctxErr(ctx)
	}
	return status.Error(codes.Unavailable, "transport is closing")
}

// Register stands in for registrations that need a concrete grpc.Server.
func Register(_ ...interface{}) {}
