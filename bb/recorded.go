package main

import (
	"fmt"
	"time"
)

// ---- C16: a node that starts uses the state recorded for its chain ----

// the chains that nodes are configured for, each with another one whose state lies beside
var chains16 = map[string]string{"c1": "c2", "c2": "c1", "cosmoshub-4": "cosmoshub-40", "Test_net.1": "test_net.1", "x%d-1": "x%d", "a b": "a"}

func pvText(h, r int64, s int8) string {
	return fmt.Sprintf(`{"height":"%d","round":%d,"step":%d}`, h, r, s)
}

func singleRecorded(s *Slot, chain string, byHorcrux bool, other int64) (hist []string, oc string, fails []Fail) {
	add := func(key, g string, a ...interface{}) { fails = append(fails, Fail{key, fmt.Sprintf(g, a...)}) }
	e := newSentry()
	defer e.close()
	own, oth := pvText(5, 1, 2), pvText(other, 0, 3)
	if byHorcrux {
		own, oth = St{H: 5, R: 1, S: 2}.text(), St{H: other, S: 3}.text()
	}
	c := singleHome("tcp://127.0.0.1:" + e.port)
	c.Chain = chain
	oc2 := chains16[chain]
	pre := files(c, ".horcrux/priv_validator_key.json", fixture("priv_validator_key.json"), pvPath(".horcrux", chain), own, pvPath(".horcrux", oc2), oth)
	s.put(pre)
	p := s.start(Opt{}, "signer", "start")
	defer p.kill()
	k, err := e.link(p, 20*time.Second)
	if err != nil {
		add("does not start", "%v: %s", err, clip(p.out.String()))
		return
	}
	defer k.close()
	for _, q := range []struct {
		r    Req
		sign bool
	}{{Req{"V", 5, 1, 1, 1}, false}, {Req{"P", 5, 1, 1, 1}, false}, {Req{"C", 4, 7, 1, 1}, false}, {Req{"C", 5, 0, 1, 1}, false}, {Req{"C", 5, 1, 1, 1}, true}, {Req{"P", 6, 0, 1, 1}, true}} {
		m, err := k.ask(q.r.msg(chain), 20*time.Second)
		if err != nil {
			add("no answer", "%s: %v", q.r, err)
			return
		}
		sb, sig, _, refused, err := q.r.answer(chain, m)
		if err != nil {
			add("wrong answer", "%v", err)
			return
		}
		signed := refused == "" && len(sig) > 0
		hist = append(hist, fmt.Sprintf("%s -> signed %v", q.r, signed))
		if signed && !q.sign {
			add("signs at or below the recorded position", "chain %s recorded 5/1/2: %s", chain, q.r)
		}
		if !signed && q.sign {
			add("refuses above the recorded position", "chain %s recorded 5/1/2: %s: %s", chain, q.r, refused)
		}
		if signed && !valKey.PubKey().VerifySignature(sb, sig) {
			add("the signature is not valid for the chain", "%s", q.r)
		}
	}
	post := s.get(pre)
	own2 := pvPath(".horcrux", chain)
	if d := pre.without(own2).diff(post.without(own2)); d != "" {
		add("other files changed", "%s", d)
	}
	return hist, "single signer", fails
}

type rec16 struct {
	chain string
	share [3]int64
	pv    string // missing, or a height
	other int64
}

func (k rec16) run(s *Slot) (hist []string, oc string, fails []Fail) {
	add := func(key, g string, a ...interface{}) { fails = append(fails, Fail{key, fmt.Sprintf(g, a...)}) }
	oth := chains16[k.chain]
	st := Files{}
	low := 0
	for i := 0; i < 3; i++ {
		h := home(i + 1)
		st[shPath(h, k.chain)] = St{H: k.share[i], R: 1, S: 2}.text()
		st[shPath(h, oth)] = St{H: k.other, R: 1, S: 2}.text()
		st[pvPath(h, oth)] = St{H: k.other, R: 1, S: 2}.text()
		st[pvPath(h, k.chain)] = "-"
		if k.pv != "missing" {
			var n int64
			fmt.Sscan(k.pv, &n)
			st[pvPath(h, k.chain)] = St{H: n, R: 0, S: 0}.text()
		}
		if k.share[i] < 7 {
			low++
		}
	}
	want := either
	switch {
	case k.pv == "9" || low < 2:
		want = mustFail
	case low == 3:
		want = mustOK
	}
	f := newFleet(s, 2, 3, k.chain, st)
	defer f.close()
	for i := 0; i < 3; i++ {
		f.start(i)
	}
	hist = append(hist, fmt.Sprintf("chain %s, recorded heights %v, cached %s, the other chain at %d", k.chain, k.share, k.pv, k.other))
	if f.leader(20*time.Second) < 0 {
		add("no leader", "within 20 s")
		return
	}
	rel := released{}
	ask := func(via int, r Req, want int) {
		for end := time.Now().Add(20 * time.Second); ; time.Sleep(50 * time.Millisecond) {
			sb, g, ts, refused, err := f.ask(via, r, 20*time.Second)
			if err != nil {
				add("no answer", "%s: %v", r, err)
				return
			}
			if refused == "" && len(g) > 0 {
				hist = append(hist, fmt.Sprintf("node %d: %s -> signed", via+1, r))
				fails = append(fails, f.judge(r, sb, g, ts, rel)...)
				if want == mustFail {
					add("signs at or below the recorded position", "%s", r)
				}
				return
			}
			if want == mustOK && time.Now().Before(end) {
				continue
			}
			hist = append(hist, fmt.Sprintf("node %d: %s -> refused: %s", via+1, r, refused))
			if want == mustOK {
				add("refuses above the recorded position", "%s: %s", r, refused)
			}
			return
		}
	}
	ask(0, Req{"V", 4, 0, 1, 1}, mustFail)
	ask(1, Req{"V", 7, 0, 1, 1}, want)
	if len(fails) == 0 {
		ask(2, Req{"P", 12, 0, 1, 1}, mustOK)
		ask(0, Req{"V", 12, 0, 2, 1}, mustOK)
	}
	at := 0
	for i := 0; i < 3; i++ {
		f.kill(i)
		now, _, err := stateOf(f.state(shPath(home(i+1), k.chain)))
		if err != nil {
			add("the recorded state was lost", "node %d: %v", i+1, err)
		}
		if now[0] < k.share[i] {
			add("the recorded state moved back", "node %d: %v", i+1, now)
		}
		if now == [3]int64{12, 0, 2} {
			at++
		}
		for _, p := range []string{shPath(home(i+1), oth), pvPath(home(i+1), oth)} {
			if f.state(p) != st[p] {
				add("the state of the other chain changed", "node %d: %s", i+1, p)
			}
		}
	}
	if len(fails) == 0 && at < 2 {
		add("a signature was released before its position was recorded", "by %d members", at)
	}
	oc = []string{"must refuse", "must sign", "either"}[want]
	return
}

func init() {
	register("C16", "recorded", func(c *Ctx) {
		var fs []func(s *Slot) ([]string, string, []Fail)
		for _, chain := range []string{"c1", "c2", "cosmoshub-4", "Test_net.1", "x%d-1", "a b"} {
			chain := chain
			odd := len(chain) > 2
			for _, b := range []bool{true, false} {
				b := b
				for _, o := range []int64{1, 100} {
					o := o
					fs = append(fs, func(s *Slot) ([]string, string, []Fail) { return singleRecorded(s, chain, b, o) })
				}
			}
			for a := 0; a < 8; a++ {
				for pi, pv := range []string{"missing", "0", "5", "9"} {
					for oi, o := range []int64{1, 100} {
						if tier != "thorough" && (odd || (a+pi+oi)%2 == 1) && (a != 3 || pi != 1 || oi != 1) {
							continue
						}
						k := rec16{chain: chain, pv: pv, other: o}
						for i := range k.share {
							k.share[i] = 5 + 4*int64(a>>i&1)
						}
						fs = append(fs, k.run)
					}
				}
			}
		}
		Cases(c, "recorded", len(fs), func(i int, s *Slot) ([]string, string, []Fail) { return fs[i](s) })
	})
}
