package main

import (
	"errors"
	"fmt"
	"strings"
	"syscall"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/vsim/vos"
	"github.com/strangelove-ventures/horcrux/vsim/vsched"
)

// C02: what a released share covers is on disk before it leaves.

// crashScan examines every device content a crash could have left behind after
// every prefix of the device log.
func crashScan(s *CoSys, probe bool) {
	x := s.x
	type img struct {
		k     int
		files map[string][]byte
		rel   []*release
	}
	var imgs []img
	var rel []*release
	existed := false
	seen := map[string]bool{}
	for k := 0; k <= len(vos.Log); k++ {
		if k > 0 {
			if r, ok := vos.Log[k-1].Mark.(*release); ok {
				rel = append(rel, r)
			}
		}
		for _, f := range vos.Images(k) {
			b, ok := f[s.path]
			if !ok {
				if existed || len(rel) > 0 {
					x.Failf("crash loses the state file", "after %d device operations a crash leaves no state file", k)
				}
				continue
			}
			key := fmt.Sprintf("%d %s", len(rel), b)
			if seen[key] {
				continue
			}
			seen[key] = true
			imgs = append(imgs, img{k, map[string][]byte{s.path: b}, append([]*release{}, rel...)})
		}
		if vos.Images(k)[0][s.path] != nil {
			existed = true
		}
	}
	x.Out("images:%d", len(imgs))
	for _, im := range imgs {
		vos.SetImage(im.files)
		st, err := signer.LoadSignState(s.path)
		if err != nil {
			x.Failf("crash leaves an unreadable state file", "a crash after device operation %d leaves a state file that does not load: %v (%d bytes)", im.k, err, len(im.files[s.path]))
			continue
		}
		have := HRS{st.Height, st.Round, st.Step}
		for _, r := range im.rel {
			if have.Less(r.p.HRS()) {
				x.Failf("released share not durable", "a crash after device operation %d leaves the state at %v although a share for %s was released", im.k, have, r.p)
			}
		}
		if !probe || len(im.rel) == 0 {
			continue
		}
		// the restarted cosigner refuses conflicting and lower requests
		t := newCoSys(x, s.k.T, s.k.N)
		for _, r := range im.rel {
			q := *r
			q.start, q.end = 0, 0
			t.rel = append(t.rel, &q)
		}
		t.told = nil
		t.clock = 1
		last := im.rel[len(im.rel)-1].p
		c := last
		c.V = 1 - c.V%2
		low := last
		low.H--
		for _, p := range []P{c, low, {precommit, last.H - 1, 3, 1, 0}} {
			t.do(full(p))
		}
		t.checkShares()
	}
}

func c02Ops() []cop {
	a := P{prevote, 5, 0, 0, 0}
	return []cop{full(a), full(P{prevote, 5, 0, 1, 0}), full(P{prevote, 5, 0, 0, 1}), full(P{precommit, 5, 0, 1, 0}), full(P{proposal, 5, 1, 0, 0}), full(P{prevote, 6, 0, 0, 0}),
		tell(P{precommit, 5, 0, 0, 0}), tell(P{prevote, 7, 0, 1, 0}), {kind: "R", t: -1}}
}

var errDisk = errors.New("input/output error")

var diskErrs = []struct {
	kind string
	err  error
}{{"EIO", syscall.EIO}, {"ENOSPC", syscall.ENOSPC}, {"EACCES", syscall.EACCES}, {"EROFS", syscall.EROFS}}

// faultJob: every device operation of every save fails once.
func faultJob(depth int) Job {
	name := "failing storage"
	return Job{Name: name, Weight: 2, Run: func(c *Ctx) {
		ops := c02Ops()[:8]
		const maxOps = 24
		type fk struct {
			kind string
			n    int
			all  bool
		}
		var faults []fk
		for _, all := range []bool{false, true} {
			for n := 0; n < maxOps; n++ {
				faults = append(faults, fk{"err", n, all})
			}
		}
		for _, e := range diskErrs {
			for n := 0; n < 8; n++ {
				faults = append(faults, fk{e.kind, n, false}, fk{e.kind, n, true})
			}
		}
		for n := 0; n < 8; n++ {
			faults = append(faults, fk{"slow", n, false}, fk{"slow", n, true})
		}
		for n := 0; n < 4; n++ {
			faults = append(faults, fk{"short", n, false}, fk{"short", n, true})
		}
		nSeq := 1
		for i := 0; i < depth; i++ {
			nSeq *= len(ops)
		}
		EnumSim(c, nSeq*len(faults), vsched.Config{}, func(i int, x *X) {
			resetWorld()
			f := faults[i%len(faults)]
			v := i / len(faults)
			s := newCoSys(x, 2, 3)
			for _, p := range []string{"2"} {
				s.peer(p)
			}
			n := 0
			var seq []cop
			for j := 0; j < depth; j++ {
				seq = append(seq, ops[v%len(ops)])
				v /= len(ops)
			}
			for _, o := range seq {
				for _, p := range o.peers {
					s.part(p, o.key())
				}
			}
			x.Note("%s fault %s at %d all=%v", strings.Join(copNames(seq), "; "), f.kind, f.n, f.all)
			hit := func(path string) bool {
				if !strings.HasPrefix(path, "/n1/") {
					return false
				}
				n++
				return n-1 == f.n || (f.all && n-1 > f.n)
			}
			if f.kind != "short" {
				err := errDisk
				for _, e := range diskErrs {
					if e.kind == f.kind {
						err = e.err
					}
				}
				vos.Fault = func(op, path string) error {
					if !hit(path) {
						return nil
					}
					if f.kind == "slow" {
						vsched.Sleep(15 * time.Second)
						return nil
					}
					return err
				}
			} else {
				vos.Partial = func(path string, l int) int {
					if hit(path) {
						return l / 2
					}
					return l
				}
			}
			t := vsched.GoOn("n1", "req", func() {
				for _, o := range seq {
					s.do(o)
					x.Out("%s", s.last)
				}
			})
			vsched.Join(t)
			vsched.Idle()
			vos.Fault, vos.Partial = nil, nil
			died := vsched.IsCrashed("n1")
			x.Out("died=%v faults=%v", died, n > f.n)
			vsched.Revive("n1")
			s.checkShares()
			crashScan(s, true)
		}, nil)
	}}
}

func init() {
	register(&Check{ID: "C02", Assumptions: []string{
		"device model: directory operations are atomic and durable in order; file data is durable once written through an O_SYNC descriptor or synced; other data may be lost or torn at a crash",
		"statement-level interleaving with sequentially consistent memory; preemptions bounded as reported",
		"RSA encryption and signatures are symbolic (perfect)",
	}, Jobs: func(tier string) []Job {
		depth, bound, fd := 4, 2, 2
		if tier == "thorough" {
			depth, bound, fd = 5, 3, 3
		}
		a := P{prevote, 5, 0, 0, 0}
		pc := P{precommit, 5, 0, 0, 0}
		hi := P{prevote, 6, 0, 0, 0}
		ck := func(s *CoSys) { vsched.Idle(); crashScan(s, false) }
		h := coSeq("crash points of request histories", c02Ops(), depth, func(s *CoSys) { s.checkShares(); crashScan(s, true) })
		h.Weight = 3
		return []Job{
			h, faultJob(fd),
			coConc("crash points while signing against a notification", []cop{get(a)}, [][]cop{{sgn(a, "2")}, {tell(pc)}}, nil, bound, ck),
			coConc("crash points while signing two positions", []cop{get(a), get(hi)}, [][]cop{{sgn(a, "2")}, {sgn(hi, "2")}}, nil, bound, ck),
			coConc("crash points of two conflicting requests", []cop{get(a)}, [][]cop{{sgn(a, "2")}, {sgn(P{prevote, 5, 0, 1, 0}, "2")}}, nil, bound, ck),
			coConc("crash points while told twice", nil, [][]cop{{tell(hi)}, {full(pc)}, {tell(P{prevote, 7, 0, 0, 0})}}, nil, bound-1, ck),
		}
	}})
}
