package main

// C07: nonces are used once and contain the cosigner's own part.

func kt(kind string, p P, t int, peers ...string) cop { return cop{kind, p, peers, t} }

func init() {
	register(&Check{ID: "C07", Assumptions: []string{
		"RSA encryption and signatures are symbolic (perfect); ed25519 arithmetic is real",
		"an own nonce contribution is identified as the released nonce share minus every subset sum of the foreign parts handed to the cosigner; accidental coincidences have negligible probability",
		"statement-level interleaving with sequentially consistent memory; preemptions bounded as reported",
	}, Jobs: func(tier string) []Job {
		depth, bound := 4, 2
		if tier == "thorough" {
			depth, bound = 5, 3
		}
		v := P{prevote, 5, 0, 0, 0}
		vt := P{prevote, 5, 0, 0, 1}
		v1 := P{prevote, 5, 0, 1, 0}
		nc := P{prevote, 5, 0, vNonCanon, 0}
		w := P{prevote, 5, 0, 0, tWrap}
		pc := P{precommit, 5, 0, 0, 0}
		check := func(s *CoSys) { s.checkNonces() }
		alpha := []cop{get(v), get(vt),
			sgn(v, "2"), sgn(v, "3"), sgn(v, "2", "3"), sgn(v), sgn(v, "2b"),
			sgn(vt, "2"), sgn(vt), sgn(v1, "2"), sgn(nc, "2"), sgn(w, "2"),
			kt("S", v, 1, "2"), kt("S", vt, 0, "2"), get(pc), sgn(pc, "2"), tell(v), {kind: "R", t: -1}}
		seq := coSeq("exchange and sign histories", alpha, depth, check)
		seq.Weight = 5
		small := []cop{get(v), get(vt), sgn(v, "2"), sgn(v, "3"), sgn(vt, "2"), sgn(nc, "2"), sgn(w, "3"), kt("S", v, 1, "2"), {kind: "R", t: -1}}
		deep := coSeq("exchange and sign histories, deeper", small, depth+1, check)
		deep.Weight = 5
		ent := coSeq("failing entropy", []cop{{"E", v, nil, 0}, {"E", v, nil, 1}, {"E", v, nil, 2}, get(v), sgn(v, "2"), sgn(v, "2", "3"), sgn(vt, "2"), get(vt)}, depth, check)
		big := coSeqN("3 of 5: exchange and sign histories", 3, 5, []cop{get(v), sgn(v, "2", "3"), sgn(v, "4", "5"), sgn(v, "2"), sgn(vt, "2", "3"), get(vt), sgn(nc, "2", "4"), kt("S", v, 1, "2", "3"), {kind: "R", t: -1}}, depth, check)
		return []Job{
			seq, deep, ent, big,
			coConc("two timestamps at once", []cop{get(v), get(vt)}, [][]cop{{sgn(v, "2")}, {sgn(vt, "2")}}, []cop{sgn(v1, "2"), sgn(vt, "3")}, bound, check),
			coConc("two encodings at once", []cop{get(v)}, [][]cop{{sgn(v, "2")}, {sgn(nc, "2")}}, []cop{sgn(w, "2")}, bound, check),
			coConc("exchange against signing", nil, [][]cop{{get(v)}, {sgn(v, "2")}}, []cop{get(v), sgn(vt, "2"), sgn(nc, "2")}, bound, check),
			coConc("exchange and sign against sign", []cop{get(v)}, [][]cop{{sgn(v, "2")}, {get(v), sgn(nc, "2")}}, []cop{sgn(w, "2")}, bound, check),
			coConc("two exchanges at once", nil, [][]cop{{get(v)}, {get(v)}}, []cop{sgn(v, "2"), sgn(nc, "2"), sgn(vt, "2")}, bound, check),
		}
	}})
}
