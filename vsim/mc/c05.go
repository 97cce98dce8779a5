package main

import (
	"bytes"
	"fmt"

	"github.com/strangelove-ventures/horcrux/vsim/vsched"
)

// C04, C05, C06: what the cluster as a whole answers.

func isThorough(tier string) bool { return tier == "thorough" }

func pick(tier string, q, t int) int {
	if isThorough(tier) {
		return t
	}
	return q
}

// ---- C05: success means a valid signature for exactly the returned payload ----

func c05Jobs(tier string) []Job {
	w := func(name string, weight float64) world {
		return world{prop: "C05", name: name, weight: weight, t: 2, n: 3}
	}
	var ops []clop
	for _, p := range []P{pA, pB, pAt, pN, {precommit, 5, 0, 2, 0}, pQ, pQ2, pD} {
		for n := 1; n <= 2; n++ {
			ops = append(ops, oSign(n, p))
		}
	}
	ops = append(ops, oLeader(1), oLeader(2), oLeader(0), oRestart(1), oRestart(2), oCrash(3))
	menu := append(netFaults(), wrongShares()...)
	jobs := []Job{
		w("requests, leaders and restarts", 3).seq(nil, ops, pick(tier, 3, 4)),
		w("faults, votes", 3).faults(2, menu, []rq{{1, pA}, {1, pA}, {2, P{precommit, 5, 0, 0, 0}}}),
		w("faults, proposals", 3).faults(2, menu, []rq{{2, pQ}, {1, pQ2}, {3, pA}}),
		w("faults, timestamps", 3).faults(2, menu, []rq{{2, pA}, {1, pAt}, {3, pA}}),
		w("concurrent, same leader", 1).race(true, 1, nil, []rq{{1, pA}, {1, pB}}, []rq{{1, pA}, {2, pB}}),
		w("concurrent, leader and follower", 1).race(true, 1, nil, []rq{{1, pQ}, {2, pQ2}}, []rq{{1, pQ}, {2, pQ2}}),
		w("concurrent, timestamps", 2).race(true, 1, nil, []rq{{1, pA}, {2, pAt}}, []rq{{1, pA}, {2, pAt}}),
		w("concurrent, two leaders", 2).race(true, 1, dual, []rq{{1, pA}, {2, pB}}, []rq{{1, pA}, {2, pB}}),
		w("concurrent, same leader, coarse", 2).race(false, 2, nil, []rq{{1, pA}, {2, pA}, {1, pB}}, []rq{{1, pA}, {2, pB}}),
	}
	// every field of the payloads at unusual values
	jobs = append(jobs, fieldJob(tier))
	w5 := world{prop: "C05", name: "3 of 5: requests, leaders and restarts", weight: 1, t: 3, n: 5}
	jobs = append(jobs, w5.seq(nil, []clop{oSign(1, pA), oSign(2, pA), oSign(5, pB), oSign(4, pAt), oSign(3, pQ), oSign(2, pQ2), oSign(2, pD), oLeader(1), oLeader(4), oCrash(5), oCrash(3), oRestart(1)}, pick(tier, 3, 4)))
	if isThorough(tier) {
		jobs = append(jobs,
			w("concurrent, two leaders, coarse", 5).race(false, 2, dual, []rq{{1, pA}, {2, pB}}, []rq{{1, pA}, {2, pB}}),
			w("concurrent, timestamps, fine", 10).race(true, 2, nil, []rq{{1, pA}, {2, pAt}}, []rq{{1, pA}, {2, pAt}}),
		)
	}
	return jobs
}

// fieldJob signs payloads with every combination of unusual field values, on
// the leader and through a follower.
func fieldJob(tier string) Job {
	var ps []P
	for _, ty := range []int{prevote, precommit, proposal} {
		for _, h := range []int64{1, 127, 128, 1 << 31, 1<<63 - 1} {
			for _, r := range []int32{0, 1, 255, 1<<31 - 1} {
				for _, v := range []int{0, 2, 3, 10, 11, 12, 5} {
					for _, t := range []int{0, 7} {
						if v == 5 && ty != proposal {
							continue
						}
						ps = append(ps, P{ty, h, r, v, t})
					}
				}
			}
		}
	}
	n := len(ps) * 2
	return Job{Name: "payload fields", Weight: 1, Run: func(c *Ctx) {
		EnumSim(c, n, vsched.Config{MaxSteps: 200000}, func(i int, x *X) {
			resetWorld()
			w := world{prop: "C05", t: 2, n: 3}
			s := w.start(x)
			r := s.sign(1+i%2, ps[i/2])
			x.Note("%s", ps[i/2])
			x.Out("%s", r.Class())
			s.sign(1+i%2, ps[i/2])
			w.end(s)
		}, nil)
	}}
}

// ---- C06: repeated requests get the recorded answer ----

func c06Jobs(tier string) []Job {
	w := func(name string, weight float64) world {
		return world{prop: "C06", name: name, weight: weight, t: 2, n: 3}
	}
	var ops []clop
	for _, p := range []P{pA, pB, pAt, pC, pQ, pQ2, pD} {
		ops = append(ops, oSign(1, p), oSign(3, p))
	}
	ops = append(ops, oSign(2, pL), oSign(2, P{prevote, 5, 0, 3, 0}), oSign(2, P{precommit, 5, 0, 1, 1}))
	ops = append(ops, oLeader(1), oLeader(2), oLeader(3), oRestart(1), oRestart(2))
	// heights drop out of the records one by one
	var hist []clop
	for h := int64(3); h <= 9; h++ {
		hist = append(hist, oSign(1, P{prevote, h, 0, 0, 0}))
	}
	hops := []clop{oSign(1, P{proposal, 10, 0, 0, 0}), oSign(2, P{proposal, 12, 0, 0, 0}), oSign(1, P{prevote, 14, 0, 0, 0}), oLeader(2), oLeader(3), oRestart(2)}
	var ask []clop
	for h := int64(3); h <= 14; h++ {
		ask = append(ask, oSign(3, P{prevote, h, 0, 0, 0}))
		if h%2 == 0 {
			ask = append(ask, oSign(1, P{prevote, h, 0, 1, 0}))
		} else {
			ask = append(ask, oSign(2, P{proposal, h, 0, 1, 0}))
		}
	}
	jobs := []Job{
		w("repeats, leaders and restarts", 4).seq(nil, ops, pick(tier, 3, 4)),
		w("kept heights", 1).seq(hist, hops, pick(tier, 3, 4), ask...),
		wornRepeats(pick(tier, 24, 80)),
		w("faults then repeats", 3).c06faults(2),
		w("stale leader", 2).seq([]clop{oSign(1, pA), oStale(2)}, []clop{oSign(1, pA), oSign(2, pA), oSign(1, pC), oSign(2, pC), oSign(2, pB), oSign(3, P{precommit, 5, 0, 2, 0}), oSign(1, pD), oHeal(), oLeader(3)}, pick(tier, 4, 5)),
		w("concurrent repeats", 2).same(true, 1, []rq{{1, pA}, {1, pA}, {2, pA}}),
		w("concurrent repeats, proposal", 2).same(true, 1, []rq{{1, pQ}, {2, pQ}, {3, pQ}}),
		w("concurrent repeats, coarse", 2).same(false, 2, []rq{{1, pA}, {2, pA}, {3, pA}}),
		w("concurrent repeat and leader move", 2).moving(true, 1, pA),
		w("concurrent repeat and leader move, proposal", 1).moving(true, 1, pQ),
		w("first signature while leadership moves, vote", 1).movingFirst(true, 1, pA),
		w("first signature while leadership moves, proposal", 1).movingFirst(true, 1, pQ),
	}
	if isThorough(tier) {
		jobs = append(jobs, w("concurrent repeats, fine", 8).same(true, 2, []rq{{1, pA}, {2, pA}}),
			w("concurrent repeat and leader move, coarse", 5).moving(false, 3, pA),
			w("first signature while leadership moves, coarse", 5).movingFirst(false, 3, pQ))
	}
	return jobs
}

// c06faults: a request hit by faults, then repeats and conflicts on every node.
func (w world) c06faults(bound int) Job {
	return w.conc(bound, map[byte]int{vsched.KSched: 0}, "", func(s *ClSys) {
		s.noRef = false
		envOf(s, netFaults())
		s.sign(1, pA)
		s.sign(2, pC)
		s.env = nil
		s.repair()
		for _, r := range []rq{{2, pA}, {3, pC}, {1, pC}, {1, pB}, {2, P{precommit, 5, 0, 2, 0}}, {3, pA}} {
			s.sign(r.node, r.p)
		}
		oLeader(2).f(s)
		for _, r := range []rq{{2, pA}, {3, pC}, {1, pC}, {1, pB}, {2, P{precommit, 5, 0, 2, 0}}} {
			s.sign(r.node, r.p)
		}
	})
}

// same: identical requests arriving at once get one signature.
func (w world) same(stmt bool, bound int, reqs []rq) Job {
	return w.conc(bound, nil, "", func(s *ClSys) {
		at(s, stmt, reqs...)
		var first *Res
		for _, r := range s.all {
			if !r.Done || r.Err != nil {
				continue
			}
			if first != nil && !bytes.Equal(first.Sig, r.Sig) {
				s.fail("C06", "identical requests got different signatures", "nodes %d and %d answered %s with different signatures", first.Node, r.Node, r.P)
			}
			first = r
		}
		s.settle()
		s.noRef = false
		for n := 1; n <= 3; n++ {
			s.sign(n, reqs[0].p)
		}
		q := reqs[0].p
		q.V = 1
		s.sign(2, q)
		if first != nil {
			r := s.sign(3, reqs[0].p)
			if r.Err == nil && !bytes.Equal(r.Sig, first.Sig) {
				s.fail("C06", "another signature instead of the recorded one", "a repeat of %s got another signature", r.P)
			}
		}
	})
}

// moving: requests while leadership moves.
func (w world) moving(stmt bool, bound int, p P) Job {
	return w.conc(bound, nil, "", func(s *ClSys) {
		s.noRef = false
		r0 := s.sign(1, p)
		s.noRef = true
		vsched.SetStmtYield(stmt)
		oAsync(1, p).f(s)
		t := vsched.GoOn("env", "mover", func() { oLeader(2).f(s) })
		oAsync(3, p).f(s)
		vsched.Join(append(s.pend, t)...)
		vsched.SetStmtYield(false)
		for _, r := range s.all[1:] {
			if r.Done && r.Err == nil && r0.Err == nil && !bytes.Equal(r.Sig, r0.Sig) {
				s.fail("C06", "another signature instead of the recorded one", "node %d answered the repeat of %s with another signature while leadership moved", r.Node, r.P)
			}
		}
		s.settle()
		s.noRef = false
		s.sign(1, p)
		s.sign(2, pB)
		s.sign(2, pC)
	})
}

// movingFirst: a payload is signed for the first time while leadership moves,
// and everybody asks for it again afterwards. A leader that lost its office
// before it could record the signature on the others answers all the same; the
// repeat is then refused, for the shares are spent, but never answered with
// another signature.
func (w world) movingFirst(stmt bool, bound int, p P) Job {
	return w.conc(bound, nil, "", func(s *ClSys) {
		s.noRef = false
		s.sign(1, P{prevote, 4, 0, 0, 0})
		s.noRef = true
		vsched.SetStmtYield(stmt)
		oAsync(1, p).f(s)
		t := vsched.GoOn("env", "mover", func() { oLeader(2).f(s) })
		vsched.Join(append(s.pend, t)...)
		vsched.SetStmtYield(false)
		r0 := s.all[len(s.all)-1]
		s.x.Out("first:%s ", r0.Class())
		s.settle()
		s.noRef = false
		for n := 1; n <= 3; n++ {
			r := s.sign(n, p)
			if r0.Done && r0.Err == nil && r.Done && (r.Err == nil && !bytes.Equal(r.Sig, r0.Sig) || r.Err != nil && s.logged(p)) {
				s.fail("C06", "another signature instead of the recorded one", "%s was answered with a signature while leadership moved; node %d answers the repeat %s", p, n, r.Class())
			}
			s.x.Out("n%d:%s ", n, r.Class())
		}
		q := p
		q.V = 1
		s.sign(2, q)
		s.sign(2, pC)
	})
}

// ---- C04: never conflicting ----

func c04Jobs(tier string) []Job {
	w := func(name string, weight float64) world {
		return world{prop: "C04", name: name, weight: weight, t: 2, n: 3}
	}
	var ops []clop
	for _, p := range []P{pA, pB, pAt, pC} {
		for n := 1; n <= 2; n++ {
			ops = append(ops, oSign(n, p))
		}
	}
	ops = append(ops, oSign(3, pN), oSign(3, pD), oSign(1, pL), oSign(2, pR))
	ops = append(ops, oLeader(1), oLeader(2), oStale(2), oStale(3), oHeal(), oCut(3), oRestart(1), oRestart(2), oRestart(3),
		oFault("never delivered", mSet, "n3", 0, fHang), oFault("never delivered", mSet, "n2", 0, fHang), oFault("late by 6 s", mSet, "", 0, fLate))
	variants := []clop{}
	for _, p := range []P{pA, {prevote, 5, 0, 3, 0}, {prevote, 5, 0, 4, 0}, pN, pB, pAt, pQ, {proposal, 5, 0, 5, 0}, {proposal, 5, 0, 3, 0}, pQ2, pQt, pC, {precommit, 5, 0, 2, 0}} {
		variants = append(variants, oSign(1, p), oSign(2, p))
	}
	variants = append(variants, oStale(2), oHeal(), oLeader(2), oRestart(1))
	jobs := []Job{
		w("requests, two leaders, partitions, restarts", 6).seq(nil, ops, pick(tier, 3, 4)),
		w("two leaders from the start", 4).seq([]clop{oStale(2)}, []clop{oSign(1, pA), oSign(2, pB), oSign(1, pAt), oSign(2, pC), oSign(1, pC), oSign(3, pD), oSign(1, pL), oSign(3, pL), oHeal(), oRestart(1), oRestart(3), oFault("never delivered", mSet, "n3", 0, fHang), oLeader(3)}, pick(tier, 4, 5)),
		w("payload variants", 4).seq(nil, variants, pick(tier, 2, 3)),
		w("heights far apart", 3).seq([]clop{oSign(1, pA), oSign(1, P{prevote, 6, 0, 0, 0}), oSign(1, P{prevote, 7, 0, 0, 0}), oSign(1, P{prevote, 8, 0, 0, 0})},
			[]clop{oSign(1, pB), oSign(2, pB), oSign(1, P{prevote, 9, 0, 0, 0}), oSign(2, P{prevote, 8, 0, 1, 0}), oSign(2, P{precommit, 8, 1, 0, 0}), oSign(3, P{prevote, 30, 0, 0, 0}), oSign(1, P{prevote, 29, 5, 0, 0}),
				oLeader(2), oLeader(3), oStale(2), oHeal(), oRestart(1), oRestart(2), oRestart(3), oCut(3)}, pick(tier, 3, 4)),
		w("faults, conflicting requests", 3).faults(2, netFaults(), []rq{{1, pA}, {2, pB}, {3, pC}, {1, P{precommit, 5, 0, 2, 0}}}),
		w("faults and two leaders", 3).dualFaults(2),
		w("concurrent, same leader", 2).race(true, 1, nil, []rq{{1, pA}, {1, pB}}, []rq{{1, pB}, {2, pA}}),
		w("concurrent, leader and follower", 2).race(true, 1, nil, []rq{{1, pA}, {2, pB}}, []rq{{1, pB}, {2, pA}}),
		w("concurrent, two leaders", 3).race(true, 1, dual, []rq{{1, pA}, {2, pB}}, []rq{{1, pB}, {2, pA}}),
		w("concurrent, two leaders, later position", 3).race(true, 1, dual, []rq{{1, pA}, {2, pC}}, []rq{{1, pB}, {2, pA}}),
		w("concurrent, two leaders, coarse", 4).race(false, pick(tier, 1, 2), dual, []rq{{1, pA}, {2, pB}}, []rq{{1, pB}, {2, pA}}),
		w("concurrent crash", 4).crashing(pick(tier, 2, 3)),
	}
	w5 := world{prop: "C04", name: "3 of 5: requests, two leaders, restarts", weight: 2, t: 3, n: 5}
	jobs = append(jobs, w5.seq(nil, []clop{oSign(1, pA), oSign(2, pB), oSign(5, pB), oSign(4, pC), oSign(3, pL), oStale(2), oStale(5), oHeal(), oCrash(4), oCrash(3), oRestart(1), oRestart(5)}, pick(tier, 3, 4)))
	w2 := world{prop: "C04", name: "2 of 2: requests, two leaders, restarts", weight: 1, t: 2, n: 2}
	jobs = append(jobs, w2.seq(nil, []clop{oSign(1, pA), oSign(2, pB), oSign(2, pA), oSign(2, pC), oSign(1, pL), oStale(2), oHeal(), oRestart(1), oRestart(2), oLeader(1)}, pick(tier, 4, 4)))
	if isThorough(tier) {
		jobs = append(jobs, w("concurrent, two leaders, fine", 10).race(true, 2, dual, []rq{{1, pA}, {2, pB}}, []rq{{1, pB}, {2, pA}}))
	}
	return jobs
}

// dualFaults: two believing leaders asked for conflicting payloads one after the other, with faults.
func (w world) dualFaults(bound int) Job {
	return w.conc(bound, map[byte]int{vsched.KSched: 0}, "", func(s *ClSys) {
		dual(s)
		envOf(s, netFaults())
		s.sign(1, pA)
		s.sign(2, pB)
		s.sign(1, pC)
		s.sign(3, P{precommit, 5, 0, 2, 0})
		s.env = nil
		s.repair()
		oHeal().f(s)
		for n := 1; n <= 3; n++ {
			s.sign(n, pB)
			s.sign(n, pA)
		}
	})
}

// crashing: a node crashes at any scheduling point of two conflicting requests and comes back.
func (w world) crashing(bound int) Job {
	return w.conc(bound, nil, "", func(s *ClSys) {
		victim := vsched.Choose(3, "who crashes") + 1
		oAsync(1, pA).f(s)
		oAsync(2, pB).f(s)
		at := vsched.GoOn("env", "crash", func() {
			vsched.Yield()
			s.crash(victim)
			vsched.Yield()
			s.restart(victim)
			if v := fmt.Sprint(victim); s.isLeaderless() {
				oLeader(1 + victim%3).f(s)
				_ = v
			}
		})
		vsched.Join(append(s.pend, at)...)
		s.settle()
		s.repair()
		for n := 1; n <= 3; n++ {
			s.sign(n, pB)
			s.sign(n, pA)
		}
	})
}

func init() {
	asm := []string{
		"crypto/rsa is replaced by an ideal (symbolic) implementation; ed25519 and the threshold library are the real ones",
		"hashicorp/raft is replaced by a model of its contract: one committed log applied in order, possibly stale leadership beliefs",
		"gRPC is replaced by an in-memory transport with deadlines and injected faults; messages are really encoded and decoded",
	}
	register(&Check{ID: "C04", Jobs: c04Jobs, Assumptions: asm})
	register(&Check{ID: "C05", Jobs: c05Jobs, Assumptions: asm})
	register(&Check{ID: "C06", Jobs: c06Jobs, Assumptions: asm})
}
