package main

import (
	"fmt"
	"math"

	"github.com/strangelove-ventures/horcrux/vsim/vsched"
)

// ascendJob: whatever was signed before, a request for any higher position is
// signed while all cosigners answer: the next step, the next round of the same
// height (a height can take many rounds), a later height, with gaps. Every
// ascending sequence of a menu of positions is asked for, at the leader, at
// alternating nodes, while leadership moves, and with a restart in between.
func ascendJob(prop string, depth int) Job {
	var menu []HRS
	for _, h := range []int64{5, 6} {
		for _, r := range []int64{0, 1, 3} {
			for st := int8(1); st <= 3; st++ {
				menu = append(menu, HRS{h, r, st})
			}
		}
	}
	var seqs [][]HRS
	var rec func(from int, s []HRS)
	rec = func(from int, s []HRS) {
		if len(s) == depth {
			seqs = append(seqs, append([]HRS{}, s...))
			return
		}
		for i := from; i < len(menu); i++ {
			rec(i+1, append(s, menu[i]))
		}
	}
	rec(0, nil)
	far := []HRS{{5, 0, 2}, {5, 1, 1}, {5, math.MaxInt32, 3}, {6, 0, 1}, {7, 0, 3}, {1 << 40, 0, 1}, {1 << 40, 7, 2}, {math.MaxInt64 - 1, 0, 3}, {math.MaxInt64, 0, 1}, {math.MaxInt64, math.MaxInt32, 3}}
	types := []int{0, proposal, prevote, precommit}
	for i := range far {
		for j := i + 1; j < len(far); j++ {
			for k := j + 1; k < len(far); k++ {
				seqs = append(seqs, []HRS{far[i], far[j], far[k]})
			}
		}
	}
	modes := []string{"at the leader", "at alternating nodes", "while leadership moves", "with the leader restarted"}
	return Job{Name: "any ascending positions", Weight: 2, Run: func(c *Ctx) {
		EnumSim(c, len(seqs)*len(modes), vsched.Config{MaxSteps: 400000}, func(i int, x *X) {
			resetWorld()
			w := world{prop: prop, t: 2, n: 3}
			s := w.start(x)
			mode := i % len(modes)
			for k, h := range seqs[i/len(modes)] {
				p := P{Typ: types[h.S], H: h.H, R: int32(h.R), V: k % 3}
				if p.Typ == proposal && p.V == 2 {
					p.V = 1
				}
				node := 1
				switch {
				case mode == 1:
					node = k%3 + 1
				case mode == 2 && k > 0:
					oLeader(k%3 + 1).f(s)
					vsched.Idle()
					node = (k+1)%3 + 1
				case mode == 3 && k == 1:
					oCrash(1).f(s)
					oRestart(1).f(s)
					oLeader(1).f(s)
					vsched.Idle()
				}
				s.must(fmt.Sprintf("every node answers (%s)", modes[mode]), node, p)
				vsched.Idle()
			}
			x.Out("%s", modes[mode])
			w.end(s)
		}, func(i int, x *X, r *vsched.Result) { world{prop: prop}.after(x, r) })
	}}
}
