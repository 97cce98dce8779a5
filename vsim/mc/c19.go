package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/strangelove-ventures/horcrux/signer/proto"
	"github.com/strangelove-ventures/horcrux/vsim/vgrpc"
	"github.com/strangelove-ventures/horcrux/vsim/vos"
	"github.com/strangelove-ventures/horcrux/vsim/vraft"
	"github.com/strangelove-ventures/horcrux/vsim/vsched"
)

// C19: a request at a follower is answered exactly as at the leader.

// effects of everything so far: what every node recorded.
func (s *ClSys) effects() string {
	var b strings.Builder
	for i := 1; i <= s.K.N; i++ {
		for _, f := range []string{shareFile(i), pvFile(i)} {
			d, err := parseDisk(vos.Get(f))
			fmt.Fprintf(&b, "n%d %v %s %v;", i, d.HRS(), d.SignBytes, err != nil)
		}
	}
	for i := range vraft.C.Log {
		if p, _, ok := s.entry(i); ok {
			fmt.Fprintf(&b, "log %s;", p)
		}
	}
	return b.String()
}

// shutdown stops every node, so that another world can start in the same execution.
func (s *ClSys) shutdown() {
	for i := range s.up {
		if s.up[i] {
			vsched.Crash(nodeName(i + 1))
		}
	}
	vsched.Idle()
}

// viaStep is a request with the node it is sent to decided by the mode.
type viaStep struct {
	p      P
	leader int // >0: move leadership instead
	other  int // >0: restart that node instead
}

func (v viaStep) String() string {
	switch {
	case v.leader > 0:
		return fmt.Sprintf("leader n%d", v.leader)
	case v.other > 0:
		return fmt.Sprintf("restart n%d", v.other)
	}
	return v.p.String()
}

// checkRPCs: what the calls of one request look like.
func (s *ClSys) checkRPCs(from int, r *Res, lead string) {
	for _, e := range s.rpcs[from:] {
		switch e.method {
		case mGet, mSet:
			if e.src != lead {
				s.fail("C19", "a follower drives the cosigners", "%s asked %s for %s while %s leads (request for %s at node %d)", e.src, e.dst, e.method, lead, r.P, r.Node)
			}
		case mSign:
			if e.dst != lead {
				s.fail("C19", "request sent to another node than the leader", "%s sent %s to %s while %s leads", e.src, r.P, e.dst, lead)
			}
			q, ok := e.args.(*proto.CosignerGRPCSignBlockRequest)
			if !ok {
				continue
			}
			b := q.Block
			if b == nil || q.ChainID != chain || b.Height != r.P.H || b.Round != int64(r.P.R) || b.Step != int32(r.P.Step()) || b.Timestamp != r.P.Time().UnixNano() || !bytes.Equal(b.SignBytes, r.P.SignBytes()) {
				s.fail("C19", "request altered on the way to the leader", "the leader got %v for %s (time %d)", q, r.P, r.P.Time().UnixNano())
			}
		}
	}
}

// via runs the steps with every request sent to the node mode picks.
func via(x *X, t, n int, steps []viaStep, pickNode func(i, lead int) int) (answers []string, effects []string) {
	resetWorld()
	w := world{prop: "C19 C05 C04", t: t, n: n}
	s := w.start(x)
	first := map[string][]byte{}
	for i, st := range steps {
		switch {
		case st.leader > 0:
			oLeader(st.leader).f(s)
			answers = append(answers, "")
		case st.other > 0:
			oRestart(st.other).f(s)
			s.repair()
			answers = append(answers, "")
		default:
			lead := 0
			for k := 1; k <= n; k++ {
				if vraft.C.Leader == fmt.Sprint(k) {
					lead = k
				}
			}
			node := pickNode(i, lead)
			from := len(s.rpcs)
			r := s.sign(node, st.p)
			s.checkRPCs(from, r, nodeName(lead))
			a := r.Class()
			if r.Done {
				a += fmt.Sprintf(" %d", r.Time.UnixNano())
			}
			if r.Err == nil && r.Done {
				a += fmt.Sprintf(" valid=%v", s.Verify(r.ReturnedBytes(), r.Sig))
				// an answer that repeats an earlier one is identified by it
				for k := 0; k <= i; k++ {
					id := fmt.Sprint(k)
					if bytes.Equal(first[id], r.Sig) {
						a += " as step " + id
						break
					}
				}
				first[fmt.Sprint(i)] = r.Sig
			}
			answers = append(answers, a)
		}
		effects = append(effects, s.effects())
	}
	s.settle()
	s.checkLog()
	s.shutdown()
	return
}

// compare the same steps at the leader and through followers.
func compareVia(x *X, t, n int, steps []viaStep) {
	la, le := via(x, t, n, steps, func(i, lead int) int { return lead })
	x.Out("%s", classes(la))
	modes := []struct {
		name string
		f    func(i, lead int) int
	}{
		{"the next node", func(i, lead int) int { return lead%n + 1 }},
		{"the node before", func(i, lead int) int { return (lead+n-2)%n + 1 }},
		{"leader and followers in turn", func(i, lead int) int { return (lead-1+i)%n + 1 }},
		{"followers and leader in turn", func(i, lead int) int { return (lead-1+i+1)%n + 1 }},
	}
	for _, m := range modes {
		fa, fe := via(x, t, n, steps, m.f)
		for i := range steps {
			if la[i] != fa[i] {
				x.Failf("another answer through a follower", "step %d (%s): the leader answers %q, through %s the answer is %q", i, steps[i], la[i], m.name, fa[i])
				return
			}
			if le[i] != fe[i] {
				x.Failf("another effect through a follower", "step %d (%s) through %s: %s instead of %s", i, steps[i], m.name, fe[i], le[i])
				return
			}
		}
	}
}

func classes(a []string) string {
	var o []string
	for _, s := range a {
		if i := strings.IndexByte(s, ' '); i > 0 {
			s = s[:i] + s[strings.LastIndexByte(s, ' '):]
		}
		o = append(o, s)
	}
	return strings.Join(o, ",")
}

// viaSeq: all sequences of requests and leader moves.
func viaSeq(name string, weight float64, t, n, depth int, pre, steps []viaStep) Job {
	return Job{Name: name, Weight: weight, Run: func(c *Ctx) {
		var names []string
		for _, s := range steps {
			names = append(names, s.String())
		}
		q := &Seq{Name: name, Ops: names, Depth: depth, Cfg: vsched.Config{MaxSteps: 1000000}, Before: func(x *X) {},
			Run: func(x *X, seq []int) int {
				all := append([]viaStep{}, pre...)
				for _, i := range seq {
					all = append(all, steps[i])
				}
				compareVia(x, t, n, all)
				return len(seq)
			}}
		q.Explore(c)
	}}
}

// extremeTimes are timestamp indexes of unusual times.
var extremeTimes = []int{0, 1, 20, 21, 22, 23, 24}

func viaFields(tier string) Job {
	var ps []P
	hs := []int64{1, 255, 1 << 31, 1 << 32, 1<<53 + 1, math.MaxInt64}
	for _, ty := range []int{prevote, precommit, proposal} {
		for _, h := range hs {
			for _, r := range []int32{0, 1, 300, math.MaxInt32} {
				for _, v := range []int{0, 2, 3, 5, 10, 11, 12} {
					if v == 5 && ty != proposal {
						continue
					}
					for _, t := range extremeTimes {
						if !isThorough(tier) && (h > 1<<31 && h < math.MaxInt64 && v > 2 || t > 20 && r == 300) {
							continue
						}
						ps = append(ps, P{ty, h, r, v, t})
					}
				}
			}
		}
	}
	return Job{Name: "payload fields", Weight: 3, Run: func(c *Ctx) {
		EnumSim(c, len(ps), vsched.Config{MaxSteps: 1000000}, func(i int, x *X) {
			x.Note("%s", ps[i])
			q := ps[i]
			q.T = 2
			compareVia(x, 2, 3, []viaStep{{p: ps[i]}, {p: ps[i]}, {p: q}})
		}, nil)
	}}
}

// unreachable: every way in which a follower fails to reach a leader, then recovery.
func unreachable(tier string) Job {
	type how struct {
		name string
		// set up; returns what ends the trouble
		f func(s *ClSys) func()
		// executed: the leader may have got the request
		executed bool
	}
	none := func(s *ClSys) func() { oLeader(0).f(s); return func() { oLeader(1).f(s) } }
	faulty := func(f vgrpc.Fault) func(s *ClSys) func() {
		return func(s *ClSys) func() {
			s.env = func(c *vgrpc.Call) vgrpc.Fault {
				if c.Method == mSign {
					return f
				}
				return vgrpc.Fault{}
			}
			return func() { s.env = nil }
		}
	}
	hows := []how{
		{"no leader", none, false},
		{"no leader, another one later", func(s *ClSys) func() { oLeader(0).f(s); return func() { oLeader(3).f(s) } }, false},
		{"leader refuses connections", faulty(vgrpc.Fault{Refuse: true}), false},
		{"requests to the leader are lost", faulty(vgrpc.Fault{Hang: true}), false},
		{"replies of the leader are lost", faulty(vgrpc.Fault{HangReply: true}), true},
		{"connection breaks after execution", faulty(vgrpc.Fault{LoseReply: true}), true},
		{"reply too late", faulty(vgrpc.Fault{DelayReply: 6 * time.Second}), true},
		{"request too late", faulty(vgrpc.Fault{Delay: 6 * time.Second}), true},
		{"leader crashed unnoticed", func(s *ClSys) func() {
			vraft.C.Held["2"], vraft.C.Held["3"] = true, true
			s.Cluster.Crash(1)
			s.up[0] = false
			return func() { oHeal().f(s); s.repair(); oLeader(3).f(s) }
		}, false},
		{"believed leader is no leader", func(s *ClSys) func() {
			// node 2 still believes in node 1, which knows that nobody leads
			vraft.C.Held["2"], vraft.C.Held["3"] = true, true
			vraft.C.SetLeader("")
			return func() { vraft.C.Held = map[string]bool{}; oLeader(1).f(s); oHeal().f(s) }
		}, false},
	}
	ps := []P{pA, pQ, {precommit, 7, 2, 2, 1}}
	befores := []string{"fresh", "earlier position signed", "same position signed", "conflicting payload signed"}
	n := len(hows) * len(ps) * len(befores)
	return Job{Name: "unreachable leader", Weight: 1, Run: func(c *Ctx) {
		EnumSim(c, n, vsched.Config{MaxSteps: 400000}, func(i int, x *X) {
			h, p, b := hows[i%len(hows)], ps[i/len(hows)%len(ps)], befores[i/len(hows)/len(ps)]
			resetWorld()
			w := world{prop: "C19 C05 C04 C10", t: 2, n: 3}
			s := w.start(x)
			s.noRef = true
			switch b {
			case "earlier position signed":
				s.sign(1, pL)
			case "same position signed":
				s.sign(1, p)
			case "conflicting payload signed":
				q := p
				q.V = 1 - q.V&1
				s.sign(1, q)
			}
			x.Note("%s, %s, %s", h.name, b, p)
			end := h.f(s)
			vsched.Idle()
			eff, from := s.effects(), len(s.rpcs)
			r := s.sign(2, p)
			x.Out("%s", r.Class())
			if !r.Done {
				s.fail("C19", "request without a reachable leader does not end", "%s: %s at node 2 is not answered", h.name, p)
			} else if r.Dur > 15*time.Second {
				s.fail("C19", "request without a reachable leader takes too long", "%s: %s at node 2 took %v", h.name, p, r.Dur)
			}
			if !h.executed {
				if r.Done && r.Err == nil {
					s.fail("C19", "request answered without a leader", "%s: %s at node 2 was answered", h.name, p)
				}
				vsched.IdleFor(10 * time.Second)
				if s.effects() != eff {
					s.fail("C19", "failed request has effects", "%s: the failed request for %s at node 2 changed %s to %s", h.name, p, eff, s.effects())
				}
				for _, e := range s.rpcs[from:] {
					if e.method != mSign {
						s.fail("C19", "a node that is not the leader drives the cosigners", "%s: %s called %s at %s", h.name, e.src, e.method, e.dst)
					}
				}
			} else if r.Done && r.Err == nil && h.name != "request too late" {
				s.fail("C19", "request answered without an answer of the leader", "%s: %s at node 2 was answered", h.name, p)
			}
			vsched.IdleFor(10 * time.Second)
			end()
			vsched.Idle()
			if b != "conflicting payload signed" {
				r2 := s.sign(2, p)
				if r2.Err != nil || !r2.Done {
					s.fail("C19", "request fails although a leader is known", "%s ended, but %s at node 2 fails: %v", h.name, p, r2.Err)
				}
			}
			s.must("a leader is known again", 2, P{prevote, 20, 0, 0, 0})
			s.must("a leader is known again", 3, P{precommit, 20, 0, 0, 0})
			w.end(s)
		}, func(i int, x *X, r *vsched.Result) { world{prop: "C10"}.after(x, r) })
	}}
}

// waiting: a request made while there is no leader is answered once one appears in time.
func waiting(tier string) Job {
	ps := []P{pA, pQ}
	delays := []time.Duration{0, 50, 99, 100, 101, 500, 1000, 2000, 2800}
	n := len(ps) * len(delays) * 9
	return Job{Name: "leader appears while the request waits", Weight: 1, Run: func(c *Ctx) {
		EnumSim(c, n, vsched.Config{MaxSteps: 400000}, func(i int, x *X) {
			p, d, k := ps[i%2], delays[i/2%len(delays)], i/2/len(delays)
			node, next := 1+k%3, 1+k/3
			resetWorld()
			w := world{prop: "C19 C05 C04 C10", t: 2, n: 3}
			s := w.start(x)
			oLeader(0).f(s)
			x.Note("%s at node %d, node %d leads after %v ms", p, node, next, int64(d))
			from := len(s.rpcs)
			r, t := s.begin(node, p)
			vsched.Sleep(d * time.Millisecond)
			oLeader(next).f(s)
			vsched.Join(t)
			x.Out("%s", r.Class())
			s.judge(r)
			if r.Err != nil {
				s.fail("C19", "request fails although a leader appeared in time", "%s at node %d failed although node %d leads after %v ms: %v", p, node, next, int64(d), r.Err)
			}
			if node != next {
				s.checkRPCs(from, r, nodeName(next))
			}
			w.end(s)
		}, func(i int, x *X, r *vsched.Result) { world{prop: "C10"}.after(x, r) })
	}}
}

// identical concurrent requests at all nodes.
func (w world) everywhere(stmt bool, bound int, reqs []rq) Job {
	return w.conc(bound, nil, "", func(s *ClSys) {
		at(s, stmt, reqs...)
		for _, e := range s.rpcs {
			if e.method != mSign && e.src != "n1" {
				s.fail("C19", "a follower drives the cosigners", "%s asked %s for %s while n1 leads", e.src, e.dst, e.method)
			}
		}
		var first *Res
		for _, r := range s.all {
			if !r.Done || r.Err != nil {
				s.fail("C19", "concurrent request at another node fails", "%s at node %d failed although every node answers: %v", r.P, r.Node, r.Err)
				continue
			}
			if first != nil && first.P == r.P && !bytes.Equal(first.Sig, r.Sig) {
				s.fail("C19", "another signature through a follower", "nodes %d and %d answered %s with different signatures", first.Node, r.Node, r.P)
			}
			first = r
		}
		s.settle()
		s.noRef = false
		for n := 1; n <= 3; n++ {
			s.sign(n, reqs[0].p)
		}
	})
}

func init() {
	register(&Check{ID: "C19", Assumptions: []string{"hashicorp/raft and gRPC are replaced by models of their contracts; virtual time", "the leader is honest"}, Jobs: func(tier string) []Job {
		reqs := []viaStep{{p: pA}, {p: pAt}, {p: pB}, {p: pN}, {p: pC}, {p: pQ}, {p: pQ2}, {p: pQt}, {p: pL}, {p: pD}, {p: pR}}
		moves := []viaStep{{leader: 1}, {leader: 2}, {leader: 3}}
		w := func(name string, weight float64) world {
			return world{prop: "C19 C05 C04", name: name, weight: weight, t: 2, n: 3}
		}
		jobs := []Job{
			viaFields(tier),
			viaSeq("requests", 4, 2, 3, pick(tier, 3, 4), nil, reqs),
			viaSeq("requests and leader moves", 3, 2, 3, pick(tier, 3, 4), []viaStep{{p: pA}}, append([]viaStep{{p: pA}, {p: pB}, {p: pAt}, {p: pC}, {p: pQ2}, {p: pD}, {other: 2}}, moves...)),
			viaSeq("3 of 5: requests and leader moves", 2, 3, 5, pick(tier, 2, 3), []viaStep{{p: pA}}, append([]viaStep{{p: pA}, {p: pB}, {p: pAt}, {p: pC}, {p: pQ2}, {p: pD}, {leader: 5}, {leader: 4}}, moves...)),
			viaSeq("2 of 2: requests and leader moves", 1, 2, 2, pick(tier, 3, 4), nil, []viaStep{{p: pA}, {p: pB}, {p: pAt}, {p: pC}, {p: pQ}, {p: pQ2}, {leader: 1}, {leader: 2}}),
			unreachable(tier),
			waiting(tier),
			w("concurrent, identical", 3).everywhere(true, pick(tier, 1, 2), []rq{{2, pA}, {3, pA}}),
			w("concurrent, identical, coarse", 2).everywhere(false, pick(tier, 2, 3), []rq{{2, pA}, {3, pA}, {1, pA}}),
		}
		return jobs
	}})
}
