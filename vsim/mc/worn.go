package main

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/vsim/vgrpc"
	"github.com/strangelove-ventures/horcrux/vsim/vnet"
	"github.com/strangelove-ventures/horcrux/vsim/vsched"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// Wear: what goes wrong once leaves a node as it was, and so does what goes
// wrong hundreds of times. Every kind of failure is repeated, then the cause is
// removed and service is required.

// wornJob: failing requests of every kind, many times, then everything works.
func wornJob(n int) Job {
	to := func(method string, f vgrpc.Fault) func(s *ClSys) {
		return func(s *ClSys) {
			s.env = func(c *vgrpc.Call) vgrpc.Fault {
				if method == "" || c.Method == method {
					return f
				}
				return vgrpc.Fault{}
			}
		}
	}
	broken := vgrpc.Fault{Err: status.Error(codes.Unknown, "internal failure")}
	kinds := []struct {
		name  string
		setup func(s *ClSys)
		p     func(k int) P
	}{
		{"conflicting requests", nil, func(k int) P { return pB }},
		{"nil votes for a signed position", nil, func(k int) P { return pN }},
		{"requests below the last position", nil, func(k int) P { return pL }},
		{"repeated requests", nil, func(k int) P { return pA }},
		{"other timestamps", nil, func(k int) P { return pAt }},
		{"no leader", func(s *ClSys) { oLeader(0).f(s) }, func(k int) P { return P{prevote, 100 + int64(k), 0, 0, 0} }},
		{"peers refuse connections", to("", vgrpc.Fault{Refuse: true}), func(k int) P { return P{prevote, 100 + int64(k), 0, 0, 0} }},
		{"peers refuse connections, same position", to("", vgrpc.Fault{Refuse: true}), func(k int) P { return P{prevote, 100, 0, 0, 0} }},
		{"nonces refused", to(mGet, broken), func(k int) P { return P{prevote, 100 + int64(k), 0, 0, 0} }},
		{"nonces never answered", to(mGet, fHang), func(k int) P { return P{prevote, 100 + int64(k), 0, 0, 0} }},
		{"signing refused", to(mSet, broken), func(k int) P { return P{prevote, 100 + int64(k), 0, 0, 0} }},
		{"signing never answered", to(mSet, fHang), func(k int) P { return P{prevote, 100 + int64(k), 0, 0, 0} }},
		{"wrong shares", to(mSet, wrongShares()[0].f), func(k int) P { return P{prevote, 100 + int64(k), 0, 0, 0} }},
		{"empty shares", to(mSet, wrongShares()[1].f), func(k int) P { return P{prevote, 100 + int64(k), 0, 0, 0} }},
		{"leader never answers", to(mSign, fHang), func(k int) P { return P{prevote, 100 + int64(k), 0, 0, 0} }},
		{"leader answers with errors", to(mSign, broken), func(k int) P { return P{prevote, 100 + int64(k), 0, 0, 0} }},
		{"lost connections", to("", vgrpc.Fault{LoseReply: true}), func(k int) P { return P{prevote, 100 + int64(k), 0, 0, 0} }},
		{"everything twice", to("", vgrpc.Fault{Twice: true}), func(k int) P { return P{prevote, 100 + int64(k), 0, 0, 0} }},
		{"nothing wrong", nil, func(k int) P { return P{prevote, 100 + int64(k), 0, 0, 0} }},
		{"nothing wrong, in one height", nil, func(k int) P { return P{precommit, 100, int32(k), 0, 0} }},
	}
	return Job{Name: "the same many times", Weight: 2, Run: func(c *Ctx) {
		EnumSim(c, len(kinds)*2, vsched.Config{MaxSteps: 6000000, Horizon: 1000 * time.Hour}, func(i int, x *X) {
			resetWorld()
			k := kinds[i/2]
			node := i%2 + 1
			x.Note("%d times at n%d: %s", n, node, k.name)
			w := world{prop: "C10", t: 2, n: 3}
			s := w.start(x)
			s.sign(1, pA)
			if k.setup != nil {
				k.setup(s)
			}
			for j := 0; j < n; j++ {
				s.sign(node, k.p(j))
			}
			s.bounded()
			s.env = nil
			oLeader(1).f(s)
			vsched.IdleFor(30 * time.Second)
			why := fmt.Sprintf("every node answers again (before, %d times: %s)", n, k.name)
			s.must(why, 1, P{prevote, 9000, 0, 0, 0})
			s.must(why, 2, P{precommit, 9000, 0, 0, 0})
			oLeader(2).f(s)
			vsched.Idle()
			s.must(why, 3, P{proposal, 9001, 0, 0, 0})
			s.must(why, 1, P{prevote, 9001, 0, 0, 0})
			x.Out("%s", k.name)
			w.end(s)
		}, func(i int, x *X, r *vsched.Result) { world{prop: "C10"}.after(x, r) })
	}}
}

// wornHostile: all hostile requests one after the other to one node.
func wornHostile(rounds int) Job {
	hs := hostiles()
	return Job{Name: "all hostile requests in a row", Weight: 1, Run: func(c *Ctx) {
		EnumSim(c, 8, vsched.Config{MaxSteps: 20000000, Horizon: 1000 * time.Hour}, func(i int, x *X) {
			resetWorld()
			target := i%2 + 1
			w := world{prop: "C18 C05 C10", t: 2, n: 3}
			s := w.start(x)
			if i&2 != 0 {
				s.sign(1, pA)
			}
			x.Note("to n%d", target)
			n := 0
			t := vsched.GoOn("evil", "evil", func() {
				for j := 0; j < rounds; j++ {
					for k := range hs {
						h := hs[k]
						if i&4 != 0 {
							h = hs[len(hs)-1-k]
						}
						if h.ok {
							continue
						}
						evil(target, h.make(s, target))
						n++
					}
				}
			})
			vsched.Join(t)
			vsched.Idle()
			why := "only malformed requests were sent before"
			s.must(why, 1, pC)
			s.must(why, 2, pD)
			oLeader(2).f(s)
			vsched.Idle()
			s.must(why, 1, P{precommit, 6, 0, 0, 0})
			x.Out("%d", n)
			w.end(s)
		}, func(i int, x *X, r *vsched.Result) { world{prop: "C10"}.after(x, r) })
	}}
}

// wornSentry: the same request, good or not, many times over one or many connections.
func wornSentry(backend string, n int) Job {
	rs := append(append([]req{}, goodReqs()...), nonsense()...)
	return Job{Name: "the same request many times, " + backend, Weight: 1, Run: func(c *Ctx) {
		EnumSim(c, len(rs), vsched.Config{MaxSteps: 6000000, Horizon: 1000 * time.Hour}, func(i int, x *X) {
			resetWorld()
			s := newSeSys(x, 1, backend)
			e := s.se[0]
			r := rs[i]
			x.Note("%d times: %s", n, r.name)
			m := map[string]bool{}
			for j := 0; j < n; j++ {
				o := e.exchange([]req{r})
				m[o] = true
				if o == "gone" || o == "dead" || o == "none" {
					break
				}
			}
			e.quiet()
			for _, r := range []req{goodReq("a final ping", pingReq()), goodReq("a final key request", keyReq()), goodReq("a final vote", voteReq(fullVote(P{prevote, 1 << 31, 0, 0, 0})))} {
				if o := e.exchange([]req{r}); o != "pong" && o != "sig" && o != "key" {
					x.Failf("no service afterwards", "%s is answered with %s", r.name, o)
				}
			}
			x.Out("%v", sortedKeys(m))
		}, func(i int, x *X, r *vsched.Result) { failPanics(x, r) })
	}}
}

// wornMarks: long records within and across heights, against the model.
func wornMarks(rounds int) Job {
	return Job{Name: "long records", Weight: 1, Run: func(c *Ctx) {
		// how many positions are recorded per height, and the step between heights
		shapes := [][2]int{{1, 1}, {2, 1}, {7, 1}, {7, 2}, {60, 1}, {60, 4}, {rounds, 1}, {rounds, 50}}
		EnumSim(c, 2*len(shapes), vsched.Config{MaxSteps: 6000000, Horizon: 1000 * time.Hour}, func(i int, x *X) {
			resetWorld()
			per, step, locked := shapes[i/2][0], int64(shapes[i/2][1]), i%2 == 0
			x.Note("%d positions in every height, heights %d apart, lock %v", per, step, locked)
			w := newWM(x)
			h, n := int64(5), 0
			var uni []HRS
			for n < rounds {
				for k := 0; k < per; k++ {
					p := HRS{h, int64(k / 3), int8(k%3 + 1)}
					w.save(p, locked)
					uni = append(uni, p)
					n++
					if n%5 == 0 { // what is not above the record is refused
						w.save(uni[n*7%len(uni)], locked)
						w.save(p, locked)
					}
				}
				h += step
				if n%3 == 0 || per > 50 {
					w.check(uni)
				}
			}
			w.save(HRS{h - step, 0, 1}, locked)
			w.check(uni)
			x.Out("%d records", len(w.model.cache))
			w.reload()
			w.check(uni)
		}, func(i int, x *X, r *vsched.Result) { failPanics(x, r) })
	}}
}

// wornRepeats: everything signed in long rounds is asked for again.
func wornRepeats(rounds int) Job {
	return Job{Name: "long rounds then repeats", Weight: 2, Run: func(c *Ctx) {
		EnumSim(c, 6, vsched.Config{MaxSteps: 6000000, Horizon: 1000 * time.Hour}, func(i int, x *X) {
			resetWorld()
			w := world{prop: "C06", t: 2, n: 3}
			s := w.start(x)
			heights := []int64{1, 2, 4}[i/2]
			var ps []P
			for h := int64(5); h < 5+heights; h++ {
				for r := 0; r < rounds; r++ {
					v := r % 2
					ps = append(ps, P{proposal, h, int32(r), v, 0}, P{prevote, h, int32(r), v, 0}, P{precommit, h, int32(r), v, 0})
				}
			}
			x.Note("%d heights of %d rounds", heights, rounds)
			for j, p := range ps {
				s.must("nothing is wrong", j%3+1, p)
				if i%2 == 1 && j%50 == 49 {
					oLeader(j/50%3 + 1).f(s)
					vsched.Idle()
				}
			}
			for turn := 0; turn < 2; turn++ {
				for j, p := range ps {
					s.sign((j+turn)%3+1, p)
					q := p
					q.V = 1 - q.V
					s.sign((j+turn+1)%3+1, q)
				}
				oLeader(2 + turn).f(s)
				vsched.Idle()
			}
			s.bounded()
			x.Out("%d positions", len(ps))
			w.end(s)
		}, func(i int, x *X, r *vsched.Result) { world{prop: "C06"}.after(x, r) })
	}}
}

// wornParts: parts of many positions are dealt, then asked for again.
func wornParts(n int) Job {
	return Job{Name: "parts of many positions", Weight: 2, Run: func(c *Ctx) {
		EnumSim(c, 6, vsched.Config{MaxSteps: 6000000, Horizon: 1000 * time.Hour}, func(i int, x *X) {
			resetWorld()
			s := newCoSys(x, 2, 3)
			nth := func(j int) P {
				p := P{precommit, 5, 0, 0, 0}
				switch i % 3 {
				case 0:
					p.T = j + 100
				case 1:
					p.R = int32(j)
				default:
					p.H += int64(j)
				}
				return p
			}
			x.Note("%d positions that differ in the %s", n, []string{"timestamp", "round", "height"}[i%3])
			seen := map[string]int{}
			var first []*signer.CosignerEphemeralSecretPartsResponse
			for j := 0; j < n; j++ {
				r, err := s.lc.GetEphemeralSecretParts(nth(j).Key())
				if err != nil {
					x.Failf("no parts", "parts of position %d are refused: %v", j, err)
					return
				}
				first = append(first, r)
				pub := string(r.EncryptedSecrets[0].SourceEphemeralSecretPublicKey)
				if o, ok := seen[pub]; ok {
					x.Failf("one secret for different positions", "positions %d and %d", o, j)
				}
				seen[pub] = j
			}
			if i >= 3 { // time passes
				vsched.IdleFor(2 * time.Hour)
			}
			for j := 0; j < n; j++ {
				r, _ := s.lc.GetEphemeralSecretParts(nth(j).Key())
				checkDealt(x, s.k, 1, []*signer.CosignerEphemeralSecretPartsResponse{first[j], r})
			}
			x.Out("%d positions", n)
		}, func(i int, x *X, r *vsched.Result) { failPanics(x, r) })
	}}
}

// wornDials: a sentry that cannot be reached for a long time is served when it is back.
func wornDials() Job {
	outages := []time.Duration{time.Minute, 10 * time.Minute, time.Hour, 5 * time.Hour}
	return Job{Name: "long outages of a sentry", Weight: 0.5, Run: func(c *Ctx) {
		EnumSim(c, 6*len(outages), vsched.Config{MaxSteps: 6000000, Horizon: 1000 * time.Hour}, func(i int, x *X) {
			resetWorld()
			out, kind, lost := outages[i/6], i%3, i%6 >= 3
			x.Note("%v of %s, an earlier connection %v", out, []string{"refused connections", "failing handshakes", "connections lost at once"}[kind], lost)
			down, mine := !lost, false
			vnet.DialHook = func(addr string) error {
				mine = strings.Contains(addr, "1230")
				if mine && down && kind == 0 {
					return errors.New("connect: connection refused")
				}
				return nil
			}
			vnet.SecretConnErr = func() error {
				if mine && down && kind == 1 {
					return errors.New("handshake failed")
				}
				return nil
			}
			s := newSeSys(x, 2, "stub")
			e := s.se[0]
			serve := func() bool {
				for try := 0; try < 8; try++ {
					if e.c == nil && !e.accept() {
						return false
					}
					r := goodReqs()[0]
					e.write(r.raw)
					m, closed, err := e.read(5 * time.Second)
					if !closed && err == nil {
						return e.judge(r, m) != ""
					}
					e.c.Close() // one abandoned after a failed handshake
					e.c = nil
				}
				return false
			}
			if lost {
				if !serve() {
					x.Failf("no service", "before the outage")
					return
				}
				down = true
				e.c.Close()
				e.c = nil
			}
			for t := time.Duration(0); t < out; t += 500 * time.Millisecond {
				vsched.IdleFor(500 * time.Millisecond)
				for e.l.Pending() > 0 { // whatever is dialled meanwhile is lost
					if a, err := e.l.Accept(); err == nil {
						a.Close()
					}
				}
			}
			down = false
			if o := s.se[1].exchange([]req{goodReqs()[2]}); o != "sig" {
				x.Failf("no service", "the other sentry's vote is answered with %s", o)
			}
			if !serve() {
				x.Failf("does not reconnect", "no service for a minute after an outage of %v", out)
			}
			x.Out("served")
		}, func(i int, x *X, r *vsched.Result) { failPanics(x, r) })
	}}
}
