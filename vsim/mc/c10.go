package main

import (
	"fmt"
	"math/big"
	"time"

	"github.com/strangelove-ventures/horcrux/signer/proto"
	"github.com/strangelove-ventures/horcrux/vsim/vgrpc"
	"github.com/strangelove-ventures/horcrux/vsim/vraft"
	"github.com/strangelove-ventures/horcrux/vsim/vsched"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// C10: any threshold of responsive cosigners suffices, and every request ends.

// must is a request that has to succeed.
func (s *ClSys) must(why string, node int, p P) *Res {
	r := s.sign(node, p)
	if r.Err != nil {
		s.fail("C10", "request with a responsive threshold fails", "the request for %s at node %d failed although %s: %v", p, node, why, r.Err)
	}
	return r
}

// behaviour of a cosigner towards the calls it receives.
type behaviour struct {
	name string
	good bool
	f    func(method string) vgrpc.Fault
}

func behaviours() []behaviour {
	all := func(f vgrpc.Fault) func(string) vgrpc.Fault { return func(string) vgrpc.Fault { return f } }
	nonce := func(f vgrpc.Fault) func(string) vgrpc.Fault {
		return func(m string) vgrpc.Fault {
			if m == mGet {
				return f
			}
			return vgrpc.Fault{}
		}
	}
	return []behaviour{
		{"answers", true, all(vgrpc.Fault{})},
		{"answers after 1 s", true, all(vgrpc.Fault{DelayReply: time.Second})},
		{"is down", false, all(vgrpc.Fault{Refuse: true})},
		{"never answers", false, all(vgrpc.Fault{Hang: true})},
		{"answers with errors", false, all(vgrpc.Fault{Err: status.Error(codes.Unknown, "internal failure")})},
		{"answers the nonce exchange with errors", false, nonce(vgrpc.Fault{Err: status.Error(codes.Unknown, "internal failure")})},
		{"answers after 3 s", false, all(vgrpc.Fault{DelayReply: 3 * time.Second})},
		{"answers after 5 s", false, all(vgrpc.Fault{Delay: 5 * time.Second})},
		{"loses every reply", false, all(vgrpc.Fault{LoseReply: true})},
	}
}

// staticJob: every assignment of behaviours to the other cosigners that leaves a responsive threshold.
func staticJob(t, n int, weight float64, tier string) Job {
	name := fmt.Sprintf("%d of %d: every mix of responsive and failing cosigners", t, n)
	return Job{Name: name, Weight: weight, Run: func(c *Ctx) {
		bs := behaviours()
		if n > 4 && !isThorough(tier) {
			bs = append(append([]behaviour{}, bs[0]), bs[2], bs[3], bs[4], bs[6], bs[7])
		}
		type cs struct {
			b    []int
			node int
		}
		var cases []cs
		total := 1
		for i := 1; i < n; i++ {
			total *= len(bs)
		}
		for k := 0; k < total; k++ {
			b := []int{0}
			good, slow := 0, 0
			for i, r := 1, k; i < n; i, r = i+1, r/len(bs) {
				b = append(b, r%len(bs))
				if bs[r%len(bs)].good {
					good++
				} else if bs[r%len(bs)].name == "answers after 3 s" {
					slow++
				}
			}
			_ = slow
			if good >= t-1 {
				cases = append(cases, cs{b, 1})
				for i := 1; i < n; i++ {
					if bs[b[i]].good {
						cases = append(cases, cs{b, i + 1})
						break
					}
				}
			}
		}
		EnumSim(c, len(cases), vsched.Config{MaxSteps: 300000}, func(i int, x *X) {
			resetWorld()
			w := world{prop: "C10", t: t, n: n}
			s := w.start(x)
			k := cases[i]
			for j := 1; j < n; j++ {
				x.Note("n%d %s", j+1, bs[k.b[j]].name)
			}
			s.env = func(c *vgrpc.Call) vgrpc.Fault {
				if c.Method == mSign {
					return vgrpc.Fault{}
				}
				for j := range s.Nodes {
					if c.Addr == fmt.Sprintf("node%d:%d", j+1, 2221+j) {
						return bs[k.b[j]].f(c.Method)
					}
				}
				return vgrpc.Fault{}
			}
			why := "a threshold of cosigners answers"
			s.must(why, k.node, P{prevote, 5, 0, 0, 0})
			s.must(why, k.node, P{precommit, 5, 0, 0, 0})
			s.must(why, 1, P{proposal, 6, 0, 0, 0})
			vsched.IdleFor(10 * time.Second)
			s.must(why, k.node, P{prevote, 6, 0, 1, 0})
			x.Out("ok")
			w.end(s)
		}, func(i int, x *X, r *vsched.Result) { world{prop: "C10"}.after(x, r) })
	}}
}

// wideJob: every size of cluster that create-shares deals, with as many members
// down as the threshold allows: the lowest, the highest, every other or none.
func wideJob(tier string) Job {
	type cs struct{ t, n, lead, down int }
	var cases []cs
	for n := 2; n <= 20; n++ {
		for t := n/2 + 1; t <= n; t++ {
			if limit := new(big.Int).MulRange(2, int64(n)); !limit.Mul(limit, new(big.Int).MulRange(int64(n-t+2), int64(n))).IsInt64() {
				continue // not dealt: the library cannot combine them
			}
			for lead := 1; lead <= n; lead++ {
				for down := 0; down < 4; down++ {
					if (down == 0 || t < n) && (isThorough(tier) || n < 5 || lead == 1 || lead == n || lead == n/2) {
						cases = append(cases, cs{t, n, lead, down})
					}
				}
			}
		}
	}
	return Job{Name: "every size of cluster", Weight: 2, Run: func(c *Ctx) {
		EnumSim(c, len(cases), vsched.Config{MaxSteps: 30000000}, func(i int, x *X) {
			k := cases[len(cases)-1-i]
			resetWorld()
			left := k.n - k.t
			isDown := map[int]bool{}
			for j := 1; j <= k.n; j++ {
				id := map[int]int{0: k.lead, 1: j, 2: k.n + 1 - j, 3: (2*j-2)%k.n + 1}[k.down]
				if id != k.lead && !isDown[id] && left > 0 {
					isDown[id] = true
					left--
				}
			}
			ask := k.lead
			for j := 1; j <= k.n; j++ {
				if j != k.lead && !isDown[j] {
					ask = j
				}
			}
			x.Note("%d of %d, n%d leads, down %v, n%d asked", k.t, k.n, k.lead, isDown, ask)
			l := NewCluster(x, k.t, k.n)
			for id := range isDown {
				l.Crash(id)
			}
			vraft.C.SetLeader(fmt.Sprint(k.lead))
			vsched.Idle()
			for j, p := range []P{{prevote, 5, 0, 0, 0}, {proposal, 6, 0, 1, 0}} {
				r := l.Sign([]int{k.lead, ask}[j], p)
				if !r.Done || r.Err != nil {
					x.Failf("request with a responsive threshold fails", "the request for %s at node %d failed although a threshold of cosigners answers: %v", p, r.Node, r.Err)
				} else if !l.Verify(r.ReturnedBytes(), r.Sig) {
					x.Failf("invalid signature", "%s at node %d", p, r.Node)
				}
				vsched.IdleFor(10 * time.Second)
			}
			x.Out("ok")
		}, func(i int, x *X, r *vsched.Result) { failPanics(x, r) })
	}}
}

// sparseJob: clusters whose peer lists leave out some of the dealt share IDs.
func sparseJob(tier string) Job {
	type cs struct {
		t, n, lead int
		mem        []int
	}
	var cases []cs
	for n := 3; n <= pick(tier, 7, 9); n++ {
		for t := n/2 + 1; t < n; t++ {
			for m := 1; m < 1<<uint(n); m++ {
				var mem []int
				for id := 1; id <= n; id++ {
					if m>>uint(id-1)&1 != 0 {
						mem = append(mem, id)
					}
				}
				if len(mem) >= t && len(mem) < n {
					cases = append(cases, cs{t, n, mem[0], mem}, cs{t, n, mem[len(mem)-1], mem})
				}
			}
		}
	}
	return Job{Name: "peer lists that leave out members", Weight: 1, Run: func(c *Ctx) {
		EnumSim(c, len(cases), vsched.Config{MaxSteps: 30000000}, func(i int, x *X) {
			k := cases[i]
			resetWorld()
			members = k.mem
			x.Note("%d of %d, members %v, n%d leads", k.t, k.n, k.mem, k.lead)
			l := NewCluster(x, k.t, k.n)
			vraft.C.SetLeader(fmt.Sprint(k.lead))
			vsched.Idle()
			for j, p := range []P{{prevote, 5, 0, 0, 0}, {proposal, 6, 0, 1, 0}, {precommit, 6, 0, 1, 0}} {
				r := l.Sign(k.mem[j*(len(k.mem)-1)/2], p)
				if !r.Done || r.Err != nil {
					x.Failf("request with a responsive threshold fails", "the request for %s at node %d failed although a threshold of cosigners answers: %v", p, r.Node, r.Err)
				} else if !l.Verify(r.ReturnedBytes(), r.Sig) {
					x.Failf("invalid signature", "%s at node %d", p, r.Node)
				}
				vsched.IdleFor(10 * time.Second)
			}
			x.Out("ok")
		}, func(i int, x *X, r *vsched.Result) { failPanics(x, r) })
	}}
}

// wrongParts are wrong answers in the nonce exchange.
func wrongParts() []nf {
	type R = proto.CosignerGRPCGetEphemeralSecretPartsResponse
	m := func(name string, f func(r *R)) nf { return nf{name, mGet, vgrpc.Fault{MutateReply: mutGet(f)}} }
	return []nf{
		m("no parts", func(r *R) { r.EncryptedSecrets = nil }),
		m("nil part", func(r *R) {
			r.EncryptedSecrets = append([]*proto.EphemeralSecretPart{{}}, r.EncryptedSecrets...)
		}),
		m("parts with a wrong source", func(r *R) {
			for _, p := range r.EncryptedSecrets {
				p.SourceID = 7
			}
		}),
		m("parts with an altered signature", func(r *R) {
			for _, p := range r.EncryptedSecrets {
				p.SourceSig[0] ^= 1
			}
		}),
	}
}

func c10Jobs(tier string) []Job {
	w := func(name string, weight float64) world {
		return world{prop: "C10", name: name, weight: weight, t: 2, n: 3}
	}
	menu := append(append(netFaults(), wrongShares()...), wrongParts()...)
	after := func(s *ClSys) {
		// everything healed: the next position is signed
		s.env, s.fault = nil, nil
		oHeal().f(s)
		s.repair()
		s.noRef = true
		s.must("every node is up", 1, P{prevote, 20, 0, 0, 0})
		s.must("every node is up", 3, P{precommit, 20, 0, 0, 0})
		s.bounded()
	}
	wa := func(name string, weight float64) world { v := w(name, weight); v.check = after; return v }
	ops := []clop{oSign(1, pA), oSign(2, pA), oSign(3, pB), oSign(1, pC), oSign(2, pD), oSign(3, P{proposal, 7, 0, 0, 0}), oAsync(1, pD), oAsync(2, P{prevote, 8, 0, 0, 0}),
		oLeader(0), oLeader(1), oLeader(2), oLeader(3), oStale(2), oHeal(), oCut(2), oCrash(1), oCrash(2), oCrash(3), oRestart(1), oRestart(3),
		oFault("never delivered", mSign, "n1", 0, fHang), oFault("never delivered", mGet, "n2", 0, fHang), oFault("never answered", mSet, "n2", 0, vgrpc.Fault{HangReply: true})}
	jobs := []Job{
		staticJob(2, 2, 0.5, tier), staticJob(2, 3, 1, tier), staticJob(3, 4, 2, tier), staticJob(3, 5, 6, tier), staticJob(4, 5, 1, tier),
		wideJob(tier), sparseJob(tier), ascendJob("C10", pick(tier, 3, 4)), wornJob(pick(tier, 300, 2000)),
		wa("requests, leaders, crashes", 5).seq(nil, ops, pick(tier, 3, 4)),
		wa("faults, two requests", 5).faults(2, menu, []rq{{1, pA}, {2, pC}}),
		wa("faults, no leader at first", 2).conc(2, map[byte]int{vsched.KSched: 0}, "", func(s *ClSys) {
			oLeader(0).f(s)
			envOf(s, menu)
			oAsync(2, pA).f(s)
			oAsync(3, pB).f(s)
			vsched.Sleep(time.Duration(vsched.Choose(3, "election takes seconds")) * 1500 * time.Millisecond)
			oLeader(3).f(s)
			vsched.Join(s.pend...)
			s.env = nil
		}),
		wa("concurrent, same leader", 1).race(true, 1, nil, []rq{{1, pA}, {1, pB}, {1, pC}}, []rq{{1, pD}}),
		wa("concurrent, every node", 2).race(true, 1, nil, []rq{{1, pA}, {2, pA}, {3, pC}}, []rq{{1, pD}}),
		wa("concurrent, two leaders", 3).race(true, 1, dual, []rq{{1, pA}, {2, pC}}, []rq{{2, pD}}),
		wa("concurrent, coarse", 3).race(false, pick(tier, 1, 2), nil, []rq{{1, pA}, {2, pC}}, []rq{{1, pD}}),
		wa("one request, fine", 3).first(true, pick(tier, 1, 2)),
		wa("one request, one late peer", 3).late(true, pick(tier, 1, 2)),
	}
	wm := func(name string, weight float64) world {
		v := w("maps, "+name, weight)
		v.maps, v.check = true, after
		return v
	}
	jobs = append(jobs,
		wm("one request", 1).first(false, pick(tier, 1, 2)),
		wm("one late peer", 1).late(false, pick(tier, 1, 2)),
		wm("concurrent, same leader", 1).race(false, pick(tier, 1, 2), nil, []rq{{1, pA}, {1, pB}, {1, pC}}, []rq{{1, pD}}),
		wm("concurrent, every node", 2).race(false, pick(tier, 1, 2), nil, []rq{{1, pA}, {2, pA}, {3, pC}}, []rq{{1, pD}}),
		wm("concurrent, two leaders", 2).race(false, pick(tier, 1, 2), dual, []rq{{1, pA}, {2, pC}}, []rq{{2, pD}}))
	w35 := world{prop: "C10", name: "3 of 5, one request, coarse", weight: 3, t: 3, n: 5}
	jobs = append(jobs, w35.first(false, pick(tier, 1, 2)))
	w35b := world{prop: "C10", name: "3 of 5, faults", weight: 3, t: 3, n: 5, check: after}
	jobs = append(jobs, w35b.faults(pick(tier, 2, 2), menu, []rq{{1, pA}}))
	if isThorough(tier) {
		jobs = append(jobs, wa("concurrent, two leaders, coarse", 5).race(false, 2, dual, []rq{{1, pA}, {2, pC}}, []rq{{2, pD}}),
			wa("3 faults, one request", 8).faults(3, menu, []rq{{2, pA}}))
	}
	return jobs
}

// first: the first request for a position succeeds whatever the schedule.
func (w world) first(stmt bool, bound int) Job {
	return w.conc(bound, nil, "", func(s *ClSys) {
		at(s, stmt, rq{1, pA})
		for _, r := range s.all {
			if r.Done && r.Err != nil {
				s.fail("C10", "request with a responsive threshold fails", "the request for %s at node %d failed although every node answers: %v", r.P, r.Node, r.Err)
			}
		}
		s.settle()
		s.must("every node answers", 2, pC)
	})
}

// late: a peer answers the nonce exchange at the same time as the signing goes on.
func (w world) late(stmt bool, bound int) Job {
	return w.conc(bound, nil, "", func(s *ClSys) {
		s.env = func(c *vgrpc.Call) vgrpc.Fault {
			switch {
			case c.Method == mGet && c.Dst == "n3":
				return vgrpc.Fault{DelayReply: 1500 * time.Millisecond}
			case c.Method == mGet && c.Dst == "n2":
				return vgrpc.Fault{DelayReply: 1500 * time.Millisecond}
			}
			return vgrpc.Fault{}
		}
		vsched.Idle()
		oAsync(1, pA).f(s)
		vsched.Sleep(1490 * time.Millisecond)
		vsched.SetStmtYield(stmt)
		vsched.Join(s.pend...)
		vsched.SetStmtYield(false)
		for _, r := range s.all {
			if r.Done && r.Err != nil {
				s.fail("C10", "request with a responsive threshold fails", "the request for %s at node %d failed although every node answers: %v", r.P, r.Node, r.Err)
			}
		}
	})
}

func init() {
	register(&Check{ID: "C10", Jobs: c10Jobs, Assumptions: []string{"hashicorp/raft and gRPC are replaced by models of their contracts; virtual time"}})
}
