package main

import (
	"bytes"
	"crypto"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/vsim/vrsa"
	"github.com/strangelove-ventures/horcrux/vsim/vsched"
	tmJson "github.com/tendermint/tendermint/libs/json"
	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"
)

// C08: nonce parts are authenticated, confidential and dealt once.

func toLE32(v *big.Int) []byte {
	out := make([]byte, 32)
	b := v.Bytes()
	for i := range b {
		out[len(b)-1-i] = b[i]
	}
	return out
}

// interpolate the secret at 0 from shares at the given ids.
func interpolate(ids []int, shares []*big.Int) *big.Int {
	sum := new(big.Int)
	for i, id := range ids {
		num, den := big.NewInt(1), big.NewInt(1)
		for j, o := range ids {
			if j != i {
				num.Mod(num.Mul(num, big.NewInt(int64(o))), orderL)
				den.Mod(den.Mul(den, big.NewInt(int64(o-id))), orderL)
			}
		}
		t := new(big.Int).Mul(shares[i], num)
		t.Mul(t, new(big.Int).ModInverse(den.Mod(den, orderL), orderL))
		sum.Mod(sum.Add(sum, t), orderL)
	}
	return sum
}

// subsets of size k of 0..n-1
func subsets(n, k int) (out [][]int) {
	var rec func(start int, cur []int)
	rec = func(start int, cur []int) {
		if len(cur) == k {
			out = append(out, append([]int{}, cur...))
			return
		}
		for i := start; i < n; i++ {
			rec(i+1, append(cur, i))
		}
	}
	rec(0, nil)
	return
}

// dealt checks one or more answers to part requests of one position.
func checkDealt(x *X, k *Keys, src int, answers []*signer.CosignerEphemeralSecretPartsResponse) {
	var first map[int]*big.Int
	var pub []byte
	for _, res := range answers {
		if res == nil {
			continue
		}
		got := map[int]*big.Int{}
		raw, _ := json.Marshal(res)
		for _, e := range res.EncryptedSecrets {
			if e.SourceID != src {
				x.Failf("part names a wrong source", "source %d instead of %d", e.SourceID, src)
			}
			if e.DestinationID == src || e.DestinationID < 1 || e.DestinationID > k.N || got[e.DestinationID] != nil {
				x.Failf("part for a wrong or repeated destination", "destination %d", e.DestinationID)
				continue
			}
			for j := 1; j <= k.N; j++ {
				rk := k.Shares[j-1].RSAKey
				b, err := vrsa.DecryptOAEP(sha256.New(), nil, &rk, e.EncryptedSharePart, nil)
				if j == e.DestinationID {
					if err != nil {
						x.Failf("part cannot be opened by its addressee", "destination %d: %v", j, err)
						continue
					}
					if len(b) != 32 {
						x.Failf("part has a wrong size", "%d bytes", len(b))
					}
					got[j] = le(b)
					enc, _ := json.Marshal(b)
					if bytes.Contains(raw, bytes.Trim(enc, "\"")) {
						x.Failf("part is readable in the answer", "destination %d", j)
					}
				} else if err == nil {
					x.Failf("part can be opened by somebody else", "destination %d opened by %d", e.DestinationID, j)
				}
			}
			if pub == nil {
				pub = e.SourceEphemeralSecretPublicKey
			} else if !bytes.Equal(pub, e.SourceEphemeralSecretPublicKey) {
				x.Failf("parts of one position have different public values", "%x and %x", pub, e.SourceEphemeralSecretPublicKey)
			}
			m := signer.CosignerEphemeralSecretPart{SourceID: e.SourceID, SourceEphemeralSecretPublicKey: e.SourceEphemeralSecretPublicKey, EncryptedSharePart: e.EncryptedSharePart}
			jb, _ := tmJson.Marshal(m)
			d := sha256.Sum256(jb)
			pk := k.Shares[src-1].RSAKey.PublicKey
			if vrsa.VerifyPSS(&pk, crypto.SHA256, d[:], e.SourceSig, nil) != nil {
				// another way of authenticating is acceptable as long as receivers accept it (checked elsewhere)
				x.Out("othersig")
			}
		}
		if len(got) != k.N-1 {
			x.Failf("part missing", "%d parts for %d other members", len(got), k.N-1)
			continue
		}
		if first == nil {
			first = got
		} else {
			for id, v := range got {
				if first[id].Cmp(v) != 0 {
					x.Failf("parts of one position differ between requests", "destination %d", id)
				}
			}
		}
	}
	if first == nil {
		x.Failf("no parts", "no request for parts was answered")
		return
	}
	// any threshold of parts yields one secret, and its public value matches
	var ids []int
	for j := 1; j <= k.N; j++ {
		if first[j] != nil {
			ids = append(ids, j)
		}
	}
	if len(ids) < k.T {
		return
	}
	var secret *big.Int
	for _, sub := range subsets(len(ids), k.T) {
		var is []int
		var ss []*big.Int
		for _, i := range sub {
			is = append(is, ids[i])
			ss = append(ss, first[ids[i]])
		}
		s := interpolate(is, ss)
		if secret == nil {
			secret = s
		} else if secret.Cmp(s) != 0 {
			x.Failf("parts are not shares of one secret", "members %v", is)
		}
	}
	if !bytes.Equal(tsed25519.ScalarMultiplyBase(toLE32(secret)), pub) {
		x.Failf("public value does not match the secret", "public value %x", pub)
	}
	if k.T > 1 {
		for _, sub := range subsets(len(ids), k.T-1) {
			var is []int
			var ss []*big.Int
			for _, i := range sub {
				is = append(is, ids[i])
				ss = append(ss, first[ids[i]])
			}
			if interpolate(is, ss).Cmp(secret) == 0 {
				x.Failf("fewer parts than the threshold reveal the secret", "members %v", is)
			}
		}
	}
}

// flow runs a complete signature among the given members and verifies it.
func flow(x *X, k *Keys, who []int, p P) {
	resetFast := vrsa.Fast
	defer func() { vrsa.Fast = resetFast }()
	lcs := map[int]*signer.LocalCosigner{}
	parts := map[int][]signer.CosignerEphemeralSecretPart{}
	for _, id := range who {
		st, err := loadState(shareFile(id))
		if err != nil {
			panic(err)
		}
		lcs[id] = newLocal(k, id, st)
		res, err := lcs[id].GetEphemeralSecretParts(p.Key())
		if err != nil {
			x.Failf("no parts", "member %d: %v", id, err)
			return
		}
		parts[id] = res.EncryptedSecrets
	}
	var ids []int
	var sigs [][]byte
	var eph []byte
	for _, id := range who {
		req := signer.CosignerSetEphemeralSecretPartsAndSignRequest{HRST: p.Key(), SignBytes: p.SignBytes()}
		for _, o := range who {
			for _, e := range parts[o] {
				if e.DestinationID == id {
					req.EncryptedSecrets = append(req.EncryptedSecrets, e)
				}
			}
		}
		res, err := lcs[id].SetEphemeralSecretPartsAndSign(req)
		if err != nil {
			x.Failf("genuine parts rejected", "member %d among %v: %v", id, who, err)
			return
		}
		ids = append(ids, id)
		sigs = append(sigs, res.Signature)
		eph = res.EphemeralPublic
	}
	sig := append(append([]byte{}, eph...), tsed25519.CombineShares(uint8(k.N), ids, sigs)...)
	if !k.Priv.PubKey().VerifySignature(p.SignBytes(), sig) {
		x.Failf("genuine parts do not give a valid signature", "members %v", who)
	}
	x.Out("signed")
}

type mutation struct {
	name string
	f    func(s *CoSys, e *signer.CosignerEphemeralSecretPart, key signer.HRSTKey)
}

func flip(b []byte, i, v int) []byte {
	o := append([]byte{}, b...)
	o[i] ^= byte(v)
	return o
}

func partMutations(thorough bool) (ms []mutation) {
	field := map[string]func(e *signer.CosignerEphemeralSecretPart) *[]byte{
		"public":     func(e *signer.CosignerEphemeralSecretPart) *[]byte { return &e.SourceEphemeralSecretPublicKey },
		"ciphertext": func(e *signer.CosignerEphemeralSecretPart) *[]byte { return &e.EncryptedSharePart },
		"signature":  func(e *signer.CosignerEphemeralSecretPart) *[]byte { return &e.SourceSig },
	}
	for _, n := range []string{"public", "ciphertext", "signature"} {
		n, get := n, field[n]
		max := 128
		if n == "public" {
			max = 32
		}
		for i := 0; i < max; i++ {
			for bit := 0; bit < 8; bit++ {
				if !thorough && bit != i%8 && bit != (i+4)%8 {
					continue
				}
				i, v := i, 1<<bit
				ms = append(ms, mutation{fmt.Sprintf("%s byte %d ^%02x", n, i, v), func(s *CoSys, e *signer.CosignerEphemeralSecretPart, _ signer.HRSTKey) {
					p := get(e)
					*p = flip(*p, i%len(*p), v)
				}})
			}
		}
		for _, cut := range []int{0, 1, 31, 64, 127} {
			cut := cut
			ms = append(ms, mutation{fmt.Sprintf("%s cut to %d", n, cut), func(s *CoSys, e *signer.CosignerEphemeralSecretPart, _ signer.HRSTKey) {
				p := get(e)
				if cut < len(*p) {
					*p = (*p)[:cut]
				} else {
					*p = nil
				}
			}})
		}
		ms = append(ms, mutation{n + " missing", func(s *CoSys, e *signer.CosignerEphemeralSecretPart, _ signer.HRSTKey) { *get(e) = nil }})
		ms = append(ms, mutation{n + " extended", func(s *CoSys, e *signer.CosignerEphemeralSecretPart, _ signer.HRSTKey) {
			*get(e) = append(append([]byte{}, *get(e)...), 0)
		}})
		ms = append(ms, mutation{n + " zeroed", func(s *CoSys, e *signer.CosignerEphemeralSecretPart, _ signer.HRSTKey) {
			*get(e) = make([]byte, len(*get(e)))
		}})
		ms = append(ms, mutation{n + " taken from member 3", func(s *CoSys, e *signer.CosignerEphemeralSecretPart, key signer.HRSTKey) {
			o := s.part("3", key).enc
			*get(e) = *get(&o)
		}})
		ms = append(ms, mutation{n + " taken from another position", func(s *CoSys, e *signer.CosignerEphemeralSecretPart, key signer.HRSTKey) {
			key.Height++
			o := s.part("2", key).enc
			*get(e) = *get(&o)
		}})
	}
	for _, id := range []int{-1, 0, 1, 3, 4, 5, 1 << 20, -1 << 31} {
		id := id
		ms = append(ms, mutation{fmt.Sprintf("claims source %d", id), func(s *CoSys, e *signer.CosignerEphemeralSecretPart, _ signer.HRSTKey) { e.SourceID = id }})
	}
	// re-encrypted by somebody who does not have member 2's key
	resign := func(e *signer.CosignerEphemeralSecretPart, rk *rsa.PrivateKey) {
		m := signer.CosignerEphemeralSecretPart{SourceID: e.SourceID, SourceEphemeralSecretPublicKey: e.SourceEphemeralSecretPublicKey, EncryptedSharePart: e.EncryptedSharePart}
		jb, _ := tmJson.Marshal(m)
		d := sha256.Sum256(jb)
		sig, err := vrsa.SignPSS(zeroReader{}, rk, crypto.SHA256, d[:], nil)
		if err != nil {
			panic(err)
		}
		e.SourceSig = sig
	}
	for name, key := range map[string]func(s *CoSys) *rsa.PrivateKey{
		"member 3":        func(s *CoSys) *rsa.PrivateKey { return &s.k.Shares[2].RSAKey },
		"member 1 itself": func(s *CoSys) *rsa.PrivateKey { return &s.k.Shares[0].RSAKey },
		"a stranger":      func(s *CoSys) *rsa.PrivateKey { return vrsa.Key(40) },
	} {
		key := key
		for _, src := range []int{2, 3, 4, 0} {
			src := src
			if name == "member 3" && src == 3 {
				continue // that is genuine
			}
			ms = append(ms, mutation{fmt.Sprintf("signed by %s claiming source %d", name, src), func(s *CoSys, e *signer.CosignerEphemeralSecretPart, _ signer.HRSTKey) {
				e.SourceID = src
				resign(e, key(s))
			}})
		}
	}
	// genuine sender, but not encrypted to this cosigner
	ms = append(ms, mutation{"encrypted to member 3", func(s *CoSys, e *signer.CosignerEphemeralSecretPart, key signer.HRSTKey) {
		res, err := s.peer("2").GetEphemeralSecretParts(key)
		if err != nil {
			panic(err)
		}
		for _, o := range res.EncryptedSecrets {
			if o.DestinationID == 3 {
				o.DestinationID = 1
				*e = o
			}
		}
	}})
	for _, sg := range []string{"the old signature", "no signature", "the signature of another part"} {
		sg := sg
		ms = append(ms, mutation{"another share encrypted to this cosigner under " + sg, func(s *CoSys, e *signer.CosignerEphemeralSecretPart, key signer.HRSTKey) {
			b, err := vrsa.EncryptOAEP(sha256.New(), zeroReader{}, &s.k.Shares[0].RSAKey.PublicKey, bytes.Repeat([]byte{1}, 32), nil)
			if err != nil {
				panic(err)
			}
			e.EncryptedSharePart = b
			switch sg {
			case "no signature":
				e.SourceSig = nil
			case "the signature of another part":
				o := s.part("3", key).enc
				e.SourceSig = o.SourceSig
			}
		}})
	}
	ms = append(ms, mutation{"plain text instead of a ciphertext, signed by member 2", func(s *CoSys, e *signer.CosignerEphemeralSecretPart, _ signer.HRSTKey) {
		e.EncryptedSharePart = bytes.Repeat([]byte{1}, 32)
		resign(e, &s.k.Shares[1].RSAKey)
	}})
	return
}

type zeroReader struct{}

func (zeroReader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = 0
	}
	return len(b), nil
}

func init() {
	register(&Check{ID: "C08", Assumptions: []string{
		"alterations are the enumerated ones (every byte of every field, cuts, swaps, foreign keys); RSA itself is trusted",
		"statement-level interleaving with sequentially consistent memory; preemptions bounded as reported",
	}, Jobs: func(tier string) []Job {
		depth, bound := 4, 2
		if tier == "thorough" {
			depth, bound = 5, 3
		}
		a := P{prevote, 5, 0, 0, 0}
		a1, b6 := P{prevote, 5, 0, 0, 1}, P{precommit, 6, 0, 0, 0}
		sys := [][2]int{{2, 2}, {2, 3}, {3, 4}, {3, 5}, {4, 7}}
		jobs := []Job{
			{Name: "altered parts", Weight: 4, Run: func(c *Ctx) {
				ms := partMutations(tier == "thorough")
				EnumSim(c, len(ms)*6, vsched.Config{}, func(i int, x *X) {
					resetWorld()
					vrsa.Fast = false
					m, mode := ms[i/6], i%6
					s := newCoSys(x, 2, 3)
					s.Get(a.Key())
					if mode == 1 {
						// an earlier genuine part together with a payload that is refused
						req := signer.CosignerSetEphemeralSecretPartsAndSignRequest{HRST: a.Key(), SignBytes: []byte{1}, EncryptedSecrets: []signer.CosignerEphemeralSecretPart{s.part("2", a.Key()).enc}}
						if _, err := s.lc.SetEphemeralSecretPartsAndSign(req); err == nil {
							x.Failf("nonsense signed", "sign bytes 01 accepted")
						}
					}
					if mode == 3 {
						// the genuine part arrived in a request that was refused for another part
						bad := s.part("3", a.Key()).enc
						bad.SourceSig = flip(bad.SourceSig, 5, 1)
						req := signer.CosignerSetEphemeralSecretPartsAndSignRequest{HRST: a.Key(), SignBytes: a.SignBytes(), EncryptedSecrets: []signer.CosignerEphemeralSecretPart{s.part("2", a.Key()).enc, bad}}
						if _, err := s.send(a, req); err == nil {
							x.Failf("altered part accepted", "signature of member 3 altered")
						}
					}
					e := s.part("2", a.Key()).enc
					m.f(s, &e, a.Key())
					req := signer.CosignerSetEphemeralSecretPartsAndSignRequest{HRST: a.Key(), SignBytes: a.SignBytes()}
					if mode == 2 {
						req.EncryptedSecrets = append(req.EncryptedSecrets, s.part("3", a.Key()).enc)
					}
					if mode == 4 {
						// among more parts than any request needs
						for _, n := range []string{"2", "3", "2", "3"} {
							req.EncryptedSecrets = append(req.EncryptedSecrets, s.part(n, a.Key()).enc)
						}
					}
					req.EncryptedSecrets = append(req.EncryptedSecrets, e)
					if mode == 5 {
						req.EncryptedSecrets = append(req.EncryptedSecrets, s.part("3", a.Key()).enc, s.part("2", a.Key()).enc)
					}
					x.Note("%s (mode %d)", m.name, mode)
					if _, err := s.send(a, req); err == nil {
						x.Failf("altered part accepted", "%s", m.name)
					}
					// genuine parts still work afterwards and nothing of the altered one is used
					s.Sign(a, a.Key(), "2")
					x.Out("%s", s.last)
					if s.last != "S+" {
						x.Failf("genuine part refused afterwards", "after %s: %s", m.name, s.last)
					}
					s.checkSets()
				}, func(i int, x *X, r *vsched.Result) { failPanics(x, r) })
			}},
			{Name: "shares of histories", Weight: 3, Run: coSeq("shares of histories", []cop{
				get(a), sgn(a, "2"), sgn(a, "2", "3"), {"B", a, []string{"3", "2"}, -1}, {"B", a, []string{"2", "3"}, -1}, {"D", a, []string{"2"}, -1}, {kind: "R", t: -1},
				get(b6), sgn(b6, "2"), tell(b6), sgn(a1, "2"), full(a1), tell(a)}, depth, func(s *CoSys) { s.checkSets() }).Run},
			{Name: "parts handed out", Weight: 2, Run: func(c *Ctx) {
				keys := []P{a, {prevote, 5, 0, 0, 1}, {precommit, 5, 0, 0, 0}, {proposal, 1 << 40, 7, 0, 0}, {prevote, 5, 0, 0, tWrap}}
				modes := []string{"once", "three times", "after a foreign part", "mixed with other positions", "after signing another"}
				EnumSim(c, len(sys)*7*len(keys)*len(modes)*2, vsched.Config{}, func(i int, x *X) {
					resetWorld()
					vrsa.Fast = i%2 == 0
					i /= 2
					m := modes[i%len(modes)]
					i /= len(modes)
					p := keys[i%len(keys)]
					i /= len(keys)
					sy := sys[i%len(sys)]
					src := i/len(sys) + 1
					if src > sy[1] {
						return
					}
					k := keysFor(sy[0], sy[1])
					st, _ := loadState(shareFile(src))
					lc := newLocal(k, src, st)
					var ans []*signer.CosignerEphemeralSecretPartsResponse
					get := func(p P) *signer.CosignerEphemeralSecretPartsResponse {
						r, err := lc.GetEphemeralSecretParts(p.Key())
						if err != nil {
							x.Failf("no parts", "%v", err)
							return nil
						}
						return r
					}
					x.Note("%d of %d, member %d, %s, %s", sy[0], sy[1], src, p, m)
					foreign := func(p P) {
						o := src%sy[1] + 1
						ost, _ := loadState("/peer/x.json")
						res, err := newLocal(k, o, ost).GetEphemeralSecretParts(p.Key())
						if err != nil {
							return
						}
						req := signer.CosignerSetEphemeralSecretPartsAndSignRequest{HRST: p.Key(), SignBytes: []byte{0}}
						for _, e := range res.EncryptedSecrets {
							if e.DestinationID == src {
								req.EncryptedSecrets = append(req.EncryptedSecrets, e)
							}
						}
						_, _ = lc.SetEphemeralSecretPartsAndSign(req)
					}
					switch m {
					case "once":
						ans = append(ans, get(p))
					case "three times":
						ans = append(ans, get(p), get(p), get(p))
					case "after a foreign part":
						foreign(p)
						ans = append(ans, get(p))
						foreign(p)
						ans = append(ans, get(p))
					case "mixed with other positions":
						q := p
						q.H++
						ans = append(ans, get(p))
						get(q)
						foreign(q)
						ans = append(ans, get(p))
					case "after signing another":
						q := p
						q.H--
						ans = append(ans, get(p))
						get(q)
						foreign(q)
						_, _ = lc.SetEphemeralSecretPartsAndSign(signer.CosignerSetEphemeralSecretPartsAndSignRequest{HRST: q.Key(), SignBytes: q.SignBytes()})
						ans = append(ans, get(p))
					}
					checkDealt(x, k, src, ans)
					x.Out("ok")
				}, func(i int, x *X, r *vsched.Result) { failPanics(x, r) })
			}},
			{Name: "every threshold subset signs with genuine parts", Run: func(c *Ctx) {
				type cs struct {
					t, n int
					who  []int
				}
				var cases []cs
				for _, sy := range sys {
					for k := sy[0]; k <= sy[1]; k++ {
						for _, sub := range subsets(sy[1], k) {
							var who []int
							for _, i := range sub {
								who = append(who, i+1)
							}
							cases = append(cases, cs{sy[0], sy[1], who})
						}
					}
				}
				EnumSim(c, len(cases), vsched.Config{}, func(i int, x *X) {
					resetWorld()
					vrsa.Fast = false
					flow(x, keysFor(cases[i].t, cases[i].n), cases[i].who, a)
				}, func(i int, x *X, r *vsched.Result) { failPanics(x, r) })
			}},
		}
		conc := func(name string, other []cop) Job {
			return Job{Name: name, Run: func(c *Ctx) {
				(&Scn{Name: name, Bound: bound, Before: func(x *X) { resetWorld() }, Body: func(x *X) {
					s := newCoSys(x, 2, 3)
					for _, o := range other {
						for _, n := range o.peers {
							s.part(n, o.key())
						}
					}
					vsched.SetStmtYield(true)
					ans := make([]*signer.CosignerEphemeralSecretPartsResponse, 3)
					get := func(i int) { ans[i], _ = s.lc.GetEphemeralSecretParts(a.Key()) }
					ts := []*vsched.Task{vsched.GoOn("n1", "get0", func() { get(0) })}
					if other == nil {
						ts = append(ts, vsched.GoOn("n1", "get1", func() { get(1) }))
					} else {
						ts = append(ts, vsched.GoOn("n1", "other", func() {
							for _, o := range other {
								s.do(o)
							}
						}))
					}
					vsched.Join(ts...)
					vsched.SetStmtYield(false)
					get(2)
					checkDealt(x, s.k, 1, ans)
					x.Out("%d", len(s.rel))
				}, After: func(x *X, r *vsched.Result) { failPanics(x, r) }}).Explore(c)
			}}
		}
		ops := []cop{get(a), get(P{prevote, 5, 0, 0, 1}), sgn(a, "2"), sgn(P{precommit, 4, 0, 0, 0}, "2"), {"S", a, []string{"3", "bad"}, -1}, sgn(P{prevote, 5, 0, 0, 1}, "3"), {kind: "R", t: -1}, sgn(P{prevote, 6, 0, 0, 0}, "2")}
		return append(jobs,
			wornParts(pick(tier, 150, 1200)),
			conc("two part requests at once", nil),
			conc("part request against foreign part", []cop{sgn(P{proposal, 5, 0, 0, 0}, "2"), kt("S", P{proposal, 5, 0, 0, 0}, -1, "3")}),
			conc("part request against signing below", []cop{get(P{proposal, 5, 0, 0, 0}), sgn(P{proposal, 5, 0, 0, 0}, "2")}),
			Job{Name: "histories: one secret per position", Weight: 2, Run: func(c *Ctx) {
				(&Seq{Name: "h", Ops: copNames(ops), Depth: depth, Before: func(x *X) { resetWorld() }, Run: func(x *X, seq []int) int {
					s := newCoSys(x, 2, 3)
					pubs := map[string]map[string]bool{}
					var ans = map[string][]*signer.CosignerEphemeralSecretPartsResponse{}
					var epoch int
					for _, i := range seq {
						o := ops[i]
						if o.kind == "G" {
							r, err := s.lc.GetEphemeralSecretParts(o.key())
							if err == nil && len(r.EncryptedSecrets) > 0 {
								// a restart or a signature over the position starts a new secret
								k := fmt.Sprintf("%d %v", epoch, o.key())
								ans[k] = append(ans[k], r)
								pub := string(r.EncryptedSecrets[0].SourceEphemeralSecretPublicKey)
								if pubs[pub] == nil {
									pubs[pub] = map[string]bool{}
								}
								pubs[pub][fmt.Sprint(o.key())] = true
								s.own[o.key()] = []byte(pub)
							}
							continue
						}
						if n := len(o.peers); n > 0 && o.peers[n-1] == "bad" {
							pt := *s.part("2", o.key())
							pt.enc.SourceSig = flip(pt.enc.SourceSig, 3, 1)
							req := badReq(o, pt)
							req.EncryptedSecrets = append([]signer.CosignerEphemeralSecretPart{s.part("3", o.key()).enc}, req.EncryptedSecrets...)
							s.send(o.p, req)
						} else {
							s.do(o)
						}
						if o.kind == "R" || strings.HasPrefix(s.last, "S+") {
							epoch++
							s.own = map[signer.HRSTKey][]byte{}
						}
					}
					for _, as := range ans {
						checkDealt(x, s.k, 1, as)
					}
					for p, ks := range pubs {
						if len(ks) > 1 {
							x.Failf("one secret for different positions", "public value %x serves %d positions", head([]byte(p)), len(ks))
						}
					}
					x.Out("%d", len(ans))
					return len(seq)
				}, After: func(x *X, r *vsched.Result) { failPanics(x, r) }}).Explore(c)
			}},
		)
	}})
}
