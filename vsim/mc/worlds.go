package main

import (
	"fmt"
	"time"

	"github.com/strangelove-ventures/horcrux/signer/proto"
	"github.com/strangelove-ventures/horcrux/vsim/vgrpc"
	"github.com/strangelove-ventures/horcrux/vsim/vsched"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// Families of cluster executions shared by the cluster properties; each check
// applies its own oracles to them.

// nf is a named network fault.
type nf struct {
	name    string
	methods string // methods it applies to, "" all
	f       vgrpc.Fault
}

const (
	mGet  = "GetEphemeralSecretParts"
	mSet  = "SetEphemeralSecretPartsAndSign"
	mSign = "SignBlock"
)

// netFaults are the failures of an honest but unreliable environment.
func netFaults() []nf {
	return []nf{
		{"refused", "", vgrpc.Fault{Refuse: true}},
		{"lost request", "", vgrpc.Fault{Hang: true}},
		{"lost connection after execution", "", vgrpc.Fault{LoseReply: true}},
		{"lost reply", "", vgrpc.Fault{HangReply: true}},
		{"late by 3 s", "", vgrpc.Fault{Delay: 3 * time.Second}},
		{"late by 6 s", "", vgrpc.Fault{Delay: 6 * time.Second}},
		{"reply late by 3 s", "", vgrpc.Fault{DelayReply: 3 * time.Second}},
		{"reply late by 6 s", "", vgrpc.Fault{DelayReply: 6 * time.Second}},
		{"delivered twice", "", vgrpc.Fault{Twice: true}},
		{"server error", "", vgrpc.Fault{Err: status.Error(codes.Unknown, "no metadata at HRS")}},
		{"server crashes before", "", vgrpc.Fault{CrashBefore: true}},
		{"server crashes after", "", vgrpc.Fault{CrashAfter: true}},
	}
}

func mutSet(f func(r *proto.CosignerGRPCSetEphemeralSecretPartsAndSignResponse)) func(interface{}) error {
	return func(v interface{}) error {
		if r, ok := v.(*proto.CosignerGRPCSetEphemeralSecretPartsAndSignResponse); ok {
			f(r)
		}
		return nil
	}
}

func mutGet(f func(r *proto.CosignerGRPCGetEphemeralSecretPartsResponse)) func(interface{}) error {
	return func(v interface{}) error {
		if r, ok := v.(*proto.CosignerGRPCGetEphemeralSecretPartsResponse); ok {
			f(r)
		}
		return nil
	}
}

// wrongShares are wrong answers of a peer in the signing phase.
func wrongShares() []nf {
	m := func(name string, f func(r *proto.CosignerGRPCSetEphemeralSecretPartsAndSignResponse)) nf {
		return nf{name, mSet, vgrpc.Fault{MutateReply: mutSet(f)}}
	}
	return []nf{
		m("share bit flipped", func(r *proto.CosignerGRPCSetEphemeralSecretPartsAndSignResponse) { r.Signature[0] ^= 1 }),
		m("share emptied", func(r *proto.CosignerGRPCSetEphemeralSecretPartsAndSignResponse) { r.Signature = nil }),
		m("ephemeral key altered", func(r *proto.CosignerGRPCSetEphemeralSecretPartsAndSignResponse) { r.EphemeralPublic[3] ^= 1 }),
	}
}

// envOf lets the environment choose a fault for every call.
func envOf(s *ClSys, menu []nf) {
	s.env = func(c *vgrpc.Call) vgrpc.Fault {
		var m []nf
		for _, f := range menu {
			if f.methods == "" || f.methods == c.Method {
				m = append(m, f)
			}
		}
		i := vsched.Choose(len(m)+1, c.Method+" "+c.Src+">"+c.Addr)
		if i == 0 {
			return vgrpc.Fault{}
		}
		s.x.Note("%s %s -> %s: %s", c.Method, c.Src, c.Addr, m[i-1].name)
		return m[i-1].f
	}
}

type rq struct {
	node int
	p    P
}

func (r rq) String() string { return fmt.Sprintf("n%d:%s", r.node, r.p) }

// faultWorld makes the requests one after the other while the environment
// picks up to bound faults; crashed nodes come back between the requests.
func (w world) faults(bound int, menu []nf, reqs []rq) Job {
	j := w.conc(bound, map[byte]int{vsched.KSched: 0}, "", func(s *ClSys) {
		s.noRef = false
		envOf(s, menu)
		for _, r := range reqs {
			s.sign(r.node, r.p)
			s.repair()
		}
		s.env = nil
		// afterwards everything works
		s.sign(2, P{prevote, 9, 0, 0, 0})
	})
	return j
}

// conflict payloads of one position and its neighbours.
var (
	pA  = P{prevote, 5, 0, 0, 0}
	pAt = P{prevote, 5, 0, 0, 1}
	pB  = P{prevote, 5, 0, 1, 0}
	pN  = P{prevote, 5, 0, 2, 0}
	pC  = P{precommit, 5, 0, 1, 0}
	pD  = P{prevote, 6, 0, 0, 0}
	pL  = P{prevote, 4, 0, 0, 0}
	pQ  = P{proposal, 5, 0, 0, 0}
	pQt = P{proposal, 5, 0, 0, 1}
	pQ2 = P{proposal, 5, 0, 1, 1}
	pR  = P{prevote, 5, 1, 1, 0}
)

// at starts the requests concurrently, with statement level scheduling points if stmt.
func at(s *ClSys, stmt bool, reqs ...rq) {
	vsched.Idle()
	vsched.SetStmtYield(stmt)
	for _, r := range reqs {
		oAsync(r.node, r.p).f(s)
	}
	vsched.Join(s.pend...)
	vsched.SetStmtYield(false)
	vsched.Idle()
}

// races are concurrent requests under one true leader.
func (w world) race(stmt bool, bound int, setup func(s *ClSys), reqs []rq, post []rq) Job {
	return w.conc(bound, nil, "", func(s *ClSys) {
		if setup != nil {
			setup(s)
		}
		at(s, stmt, reqs...)
		s.settle()
		s.repair()
		s.noRef = false
		for _, r := range post {
			s.sign(r.node, r.p)
		}
	})
}

// dual makes node 2 the leader while node 1 still believes to be it.
func dual(s *ClSys) { oStale(2).f(s) }

var (
	fHang = vgrpc.Fault{Hang: true}
	fLate = vgrpc.Fault{DelayReply: 6 * time.Second}
)
