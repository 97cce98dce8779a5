package main

import (
	"fmt"
	"strings"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/vsim/vos"
	"github.com/strangelove-ventures/horcrux/vsim/vsched"
)

var two = []string{"2"}

func full(p P) cop             { return cop{"F", p, two, -1} }
func get(p P) cop              { return cop{"G", p, nil, -1} }
func tell(p P) cop             { return cop{"L", p, nil, -1} }
func sgn(p P, n ...string) cop { return cop{"S", p, n, -1} }

// coSeq builds the enumeration of operation sequences with oracle check.
func coSeq(name string, ops []cop, depth int, check func(s *CoSys)) Job {
	return coSeqN(name, 2, 3, ops, depth, check)
}

func coSeqN(name string, t, n int, ops []cop, depth int, check func(s *CoSys)) Job {
	return Job{Name: name, Run: func(c *Ctx) {
		q := &Seq{Name: name, Ops: copNames(ops), Depth: depth, Before: func(x *X) { resetWorld() },
			Run: func(x *X, seq []int) int {
				s := newCoSys(x, t, n)
				for _, i := range seq {
					x.Out("%s", s.do(ops[i]))
				}
				check(s)
				return len(seq)
			},
			After: func(x *X, r *vsched.Result) { failPanics(x, r) },
		}
		q.Explore(c)
	}}
}

func failPanics(x *X, r *vsched.Result) {
	for _, p := range r.Panics {
		x.Failf("crash", "task %s on %s crashed: %s at %s", p.Task, p.Node, p.Value, p.Stack)
	}
	if r.Deadlock {
		x.Failf("deadlock", "deadlock: %s", strings.Join(r.Blocked, "; "))
	}
	if r.HorizonHit && !r.MainDone {
		x.Failf("never ends", "something never ends: after %v of virtual time it is still waited for", r.Now)
	}
}

// coConc explores interleavings of tasks, each a list of operations.
func coConc(name string, pre []cop, tasks [][]cop, post []cop, bound int, check func(s *CoSys)) Job {
	return Job{Name: name, Run: func(c *Ctx) {
		sc := &Scn{Name: name, Bound: bound, Before: func(x *X) { resetWorld() },
			Body: func(x *X) {
				s := newCoSys(x, 2, 3)
				for _, o := range pre {
					s.do(o)
				}
				// parts of the peers are prepared beforehand: their code is not under test here
				for _, t := range tasks {
					for _, o := range t {
						for _, n := range o.peers {
							s.part(n, o.key())
						}
					}
				}
				vsched.Idle()
				vsched.SetStmtYield(true)
				var ts []*vsched.Task
				res := make([][]string, len(tasks))
				for i, t := range tasks {
					i, t := i, t
					ts = append(ts, vsched.GoOn("n1", fmt.Sprintf("req%d", i), func() {
						for _, o := range t {
							s.do(o)
							res[i] = append(res[i], o.kind)
						}
					}))
				}
				vsched.Join(ts...)
				vsched.SetStmtYield(false)
				vsched.Idle()
				for _, o := range post {
					s.do(o)
				}
				var ps []string
				for _, r := range s.rel {
					ps = append(ps, r.p.String())
				}
				x.Out("released[%s] %s", strings.Join(ps, ","), s.last)
				check(s)
			},
			After: func(x *X, r *vsched.Result) { failPanics(x, r) }}
		sc.Explore(c)
	}}
}

func c01check(s *CoSys) {
	s.checkShares()
	// the file is never behind what was released once everything settled
	vsched.Idle()
	d, err := parseDisk(vos.Get(s.path))
	if err != nil {
		s.x.Failf("state file unreadable", "state file unreadable: %v", err)
		return
	}
	for _, r := range s.rel {
		if d.HRS().Less(r.p.HRS()) {
			s.x.Failf("state file behind released share", "state file at %v, released %s", d.HRS(), r.p)
		}
	}
	for _, t := range s.told {
		if d.HRS().Less(t.p.HRS()) {
			s.x.Failf("state file behind told position", "state file at %v, told %s", d.HRS(), t.p)
		}
	}
}

func c01Alphabet() []cop {
	a := P{prevote, 5, 0, 0, 0}
	b := P{prevote, 5, 0, 1, 0}
	at := P{prevote, 5, 0, 0, 1}
	return []cop{
		full(a), full(b), full(at),
		full(P{precommit, 5, 0, 0, 0}),
		full(P{prevote, 5, 1, 1, 0}),
		full(P{precommit, 4, 2, 0, 0}),
		full(P{prevote, 6, 0, 1, 0}),
		full(P{proposal, 5, 0, 0, 0}),
		full(P{proposal, 5, 0, 1, 0}),
		tell(b), tell(P{precommit, 5, 0, 1, 0}), tell(P{prevote, 6, 1, 0, 0}),
		{kind: "R", t: -1},
	}
}

func init() {
	register(&Check{ID: "C01", Assumptions: []string{
		"RSA encryption and signatures are symbolic (perfect); ed25519 arithmetic is real",
		"statement-level interleaving with sequentially consistent memory; preemptions bounded as reported",
	}, Jobs: func(tier string) []Job {
		depth, bound := 4, 2
		if tier == "thorough" {
			depth, bound = 5, 3
		}
		a := P{prevote, 5, 0, 0, 0}
		b := P{prevote, 5, 0, 1, 0}
		hi := P{prevote, 6, 0, 0, 0}
		jobs := []Job{
			pairJob(),
			{Name: "refusals change nothing", Weight: 3, Run: func(c *Ctx) { refusalJob(c, depth) }},
			coConc("two conflicting sign requests", []cop{get(a)}, [][]cop{{sgn(a, "2")}, {sgn(b, "2")}}, []cop{full(a), full(b)}, bound, c01check),
			coConc("sign higher and lower", []cop{get(a), get(hi)}, [][]cop{{sgn(a, "2")}, {sgn(hi, "2")}}, []cop{full(a), full(b)}, bound, c01check),
			coConc("sign against conflicting notification", []cop{get(a)}, [][]cop{{sgn(a, "2")}, {tell(b)}}, []cop{full(a), full(b)}, bound, c01check),
			coConc("sign against higher notification", []cop{get(a)}, [][]cop{{sgn(a, "2")}, {tell(hi)}}, []cop{full(a), full(b)}, bound, c01check),
			coConc("exchange and sign, twice", nil, [][]cop{{full(a)}, {full(b)}}, []cop{full(a), full(b)}, bound, c01check),
			coConc("three at once", []cop{get(a), get(hi)}, [][]cop{{sgn(a, "2")}, {sgn(b, "2")}, {sgn(hi, "2")}}, []cop{full(a), full(b)}, bound-1, c01check),
		}
		sj := coSeq("request histories", c01Alphabet(), depth, c01check)
		sj.Weight = 4
		return append(jobs, sj)
	}})
}

// pairJob: every ordered pair of payloads at one position, directly, after a
// restart, and when the first is only told.
func pairJob() Job {
	var ps []P
	for _, t := range []int{prevote, precommit, proposal} {
		for _, v := range []int{0, 1, 2, 3, 4, 5, 6} {
			if v == 5 && t != proposal {
				continue
			}
			for _, ts := range []int{0, 1} {
				ps = append(ps, P{t, 5, 1, v, ts})
			}
		}
	}
	modes := []string{"direct", "restart", "told", "told+restart"}
	n := len(ps) * len(ps) * len(modes)
	return Job{Name: "payload pairs", Run: func(c *Ctx) {
		EnumSim(c, n, vsched.Config{}, func(i int, x *X) {
			resetWorld()
			m := modes[i%len(modes)]
			p, q := ps[i/len(modes)%len(ps)], ps[i/len(modes)/len(ps)]
			x.Note("%s then %s (%s)", p, q, m)
			s := newCoSys(x, 2, 3)
			if strings.HasPrefix(m, "told") {
				s.do(tell(p))
			} else {
				s.do(full(p))
			}
			first := s.last
			if strings.HasSuffix(m, "restart") {
				s.Restart()
			}
			s.do(full(q))
			x.Out("%s %s", first, s.last)
			c01check(s)
		}, func(i int, x *X, r *vsched.Result) { failPanics(x, r) })
	}}
}

// refusalJob: removing a refused request from a history changes no other answer.
func refusalJob(c *Ctx, depth int) {
	a := P{prevote, 5, 0, 0, 0}
	b := P{prevote, 5, 0, 1, 0}
	ops := []cop{get(a), sgn(a, "2"), sgn(b, "2"), sgn(b), get(P{precommit, 5, 0, 0, 0}), sgn(P{precommit, 5, 0, 0, 0}, "2"), sgn(P{prevote, 4, 0, 0, 0}, "2"), get(P{prevote, 4, 0, 0, 0}),
		sgn(P{prevote, 6, 0, 0, 0}, "2"), tell(P{prevote, 4, 0, 0, 0}), tell(b), {"S", P{prevote, 7, 0, 0, 0}, []string{"bad"}, -1}, {"S", a, []string{"3", "bad"}, -1}, {kind: "R", t: -1}, full(P{prevote, 5, 0, 0, 1})}
	q := &Seq{Name: c.rep.Name, Ops: copNames(ops), Depth: depth, Before: func(x *X) {}, Run: func(x *X, seq []int) int {
		run := func(skip int) ([]string, string) {
			resetWorld()
			s := newCoSys(x, 2, 3)
			var out []string
			for j, i := range seq {
				if j == skip {
					out = append(out, "")
					continue
				}
				o := ops[i]
				if n := len(o.peers); n > 0 && o.peers[n-1] == "bad" {
					// an altered part, possibly after a good one
					pt := *s.part("2", o.key())
					pt.enc.SourceEphemeralSecretPublicKey = append([]byte{pt.enc.SourceEphemeralSecretPublicKey[0] ^ 0x40}, pt.enc.SourceEphemeralSecretPublicKey[1:]...)
					req := badReq(o, pt)
					if n > 1 {
						req.EncryptedSecrets = append([]signer.CosignerEphemeralSecretPart{s.part(o.peers[0], o.key()).enc}, req.EncryptedSecrets...)
					}
					s.send(o.p, req)
				} else {
					s.do(o)
				}
				out = append(out, s.last)
			}
			s.checkShares()
			s.checkSets()
			vsched.Idle()
			d, err := parseDisk(vos.Get(s.path))
			if err != nil {
				x.Failf("state file unreadable", "%v", err)
			}
			return out, fmt.Sprint(d.HRS(), d.SignBytes, len(d.Signature))
		}
		out, fin := run(-1)
		x.Out("%s", strings.Join(out, " "))
		for j := range seq {
			if j+1 < len(seq)+1 && strings.HasSuffix(out[j], "-") {
				o2, f2 := run(j)
				for l := j + 1; l < len(seq); l++ {
					if norm(out[l]) != norm(o2[l]) {
						x.Failf("a refused request changed a later answer", "refused %s; then %s answered %s instead of %s", ops[seq[j]], ops[seq[l]], out[l], o2[l])
					}
				}
				if fin != f2 {
					x.Failf("a refused request changed the stored state", "refused %s: state %s instead of %s", ops[seq[j]], fin, f2)
				}
			}
		}
		return len(seq)
	}, After: func(x *X, r *vsched.Result) { failPanics(x, r) }}
	q.Explore(c)
}

// norm drops the index of an identical earlier answer.
func norm(o string) string {
	if strings.HasPrefix(o, "S=") || o == "S*" {
		return "S+"
	}
	return o
}
