//go:build vsimprog

package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/strangelove-ventures/horcrux/vsim/vsched"
)

// pairProg: a single signer with two sentries that ask for something at the same time.
func pairProg(id string, bound int) Job {
	menu := []P{{prevote, 7, 0, 0, 0}, {prevote, 7, 0, 1, 0}, {prevote, 7, 0, 0, 1}, {prevote, 7, 0, 2, 0}, {precommit, 7, 0, 1, 0}, {proposal, 7, 0, 0, 0}, {proposal, 7, 0, 1, 0}, {prevote, 8, 0, 0, 0}}
	return Job{Name: "program: two sentries of a single signer at once", Weight: 2, Run: func(c *Ctx) {
		one := *c
		one.N, one.Shard = 1, 0
		n := -1
		for i := range menu {
			for j := i; j < len(menu); j++ {
				if n++; c.replay == nil && n%c.N != c.Shard {
					continue
				}
				a, b := menu[i], menu[j]
				(&Scn{Name: fmt.Sprintf("%s and %s", a, b), Bound: bound, Cfg: vsched.Config{MaxSteps: 600000}, Body: func(x *X) {
					vsched.Quiet(true)
					s := newProgSys(x)
					s.sentries = 2
					s.prepareSingle(stateText(6, 0, 3))
					s.exec("n1", "signer", "start")
					if !s.up(1) {
						return
					}
					es := []*sentry{s.se[1], s.se[11]}
					for _, e := range es {
						if e.c == nil && !e.accept() {
							return
						}
					}
					vsched.Idle()
					var rel []answer
					var outs [2]string
					judge := func(p P, o string, sig []byte) {
						if o != "sig" {
							return
						}
						for _, r := range rel {
							switch {
							case r.p.HRS() == p.HRS() && !r.p.Same(p):
								x.Failf("conflict", "%s is signed after %s", p, r.p)
							case r.p == p && !bytes.Equal(r.sig, sig):
								x.Failf("repeat differs", "%s is signed with two signatures", p)
							}
						}
						rel = append(rel, answer{p, sig})
					}
					vsched.Quiet(false)
					vsched.SetStmtYield(true)
					var ts []*vsched.Task
					for k, p := range []P{a, b} {
						k, p := k, p
						ts = append(ts, vsched.GoOn("sentry", es[k].name, func() {
							o, sig := s.askAt(es[k], p)
							outs[k] = o
							judge(p, o, sig)
						}))
					}
					vsched.Join(ts...)
					vsched.SetStmtYield(false)
					vsched.Quiet(true)
					vsched.Idle()
					x.Out("%s", strings.Join(outs[:], " "))
					if outs[0] != "sig" && outs[1] != "sig" {
						x.Failf("no service", "two sentries ask at once for %s and %s and get %s and %s", a, b, outs[0], outs[1])
					}
					high := HRS{}
					for _, r := range rel {
						if high.Less(r.p.HRS()) {
							high = r.p.HRS()
						}
					}
					for k, e := range es {
						for _, p := range menu {
							o, sig := s.askAt(e, p)
							if o == "sig" && p.HRS().Less(high) {
								x.Failf("regress", "%s is signed after %v", p, high)
							}
							judge(p, o, sig)
							if o == "sig" && high.Less(p.HRS()) {
								high = p.HRS()
							}
						}
						p := P{prevote, 20 + int64(k), 0, 0, 0}
						o, sig := s.askAt(e, p)
						if o != "sig" {
							x.Failf("no service", "a new vote is answered with %s", o)
						}
						judge(p, o, sig)
						high = p.HRS()
					}
					s.alive()
				}, After: func(x *X, r *vsched.Result) { failPanics(x, r) }}).Explore(&one)
			}
		}
	}}
}
