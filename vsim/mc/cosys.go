package main

import (
	"bytes"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/vsim/vos"
	"github.com/strangelove-ventures/horcrux/vsim/vrand"
	"github.com/strangelove-ventures/horcrux/vsim/vrsa"
	"github.com/strangelove-ventures/horcrux/vsim/vsched"
	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"
)

// A system of one real cosigner under test (id 1) and real peers that provide
// genuine nonce parts.

var orderL, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)

func le(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

// challenge is H(R, A, m) mod L.
func challenge(r, a, m []byte) *big.Int {
	h := sha512.New()
	h.Write(r)
	h.Write(a)
	h.Write(m)
	v := le(h.Sum(nil))
	return v.Mod(v, orderL)
}

// release is a signature share that left the cosigner.
type release struct {
	p          P
	r, s       []byte
	k          *big.Int // nonce share s - h x
	h          *big.Int
	start, end int
	full       bool // a 64 byte answer (already combined signature)
}

type told struct {
	p   P
	end int
}

// part of a nonce as known to the harness.
type part struct {
	src   int
	enc   signer.CosignerEphemeralSecretPart
	plain *big.Int
	pub   []byte
}

type CoSys struct {
	x     *X
	k     *Keys
	lc    *signer.LocalCosigner
	peers map[string]*signer.LocalCosigner // "2", "3", "2b", ...
	parts map[string]*part                 // peer name / hrst -> part for id 1
	given []*part                          // every foreign part offered to the cosigner
	rel   []*release
	told  []told
	clock int
	own   map[signer.HRSTKey][]byte // own public nonce part as last handed out
	wrong []string                  // shares whose nonce is not made of exactly the request's parts
	last  string                    // outcome of the last operation
	path  string
}

func newCoSys(x *X, t, n int) *CoSys {
	s := &CoSys{x: x, k: keysFor(t, n), peers: map[string]*signer.LocalCosigner{}, parts: map[string]*part{}, own: map[signer.HRSTKey][]byte{}, path: shareFile(1)}
	old := vsched.SetNode("n1")
	st, err := loadState(s.path)
	if err != nil {
		panic(err)
	}
	s.lc = newLocal(s.k, 1, st)
	vsched.SetNode(old)
	return s
}

func (s *CoSys) peer(name string) *signer.LocalCosigner {
	if p := s.peers[name]; p != nil {
		return p
	}
	id := int(name[0] - '0')
	f := "/peer" + name + "/state.json"
	st, err := loadState(f)
	if err != nil {
		panic(err)
	}
	s.peers[name] = newLocal(s.k, id, st)
	return s.peers[name]
}

// part from a peer for the cosigner under test.
func (s *CoSys) part(name string, key signer.HRSTKey) *part {
	ck := fmt.Sprintf("%s %+v", name, key)
	if p := s.parts[ck]; p != nil {
		return p
	}
	fa := vrand.FailAfter
	vrand.FailAfter = -1
	res, err := s.peer(name).GetEphemeralSecretParts(key)
	vrand.FailAfter = fa
	if err != nil {
		panic(err)
	}
	for _, e := range res.EncryptedSecrets {
		if e.DestinationID != 1 {
			continue
		}
		rk := s.k.Shares[0].RSAKey
		b, err := vrsa.DecryptOAEP(sha256.New(), nil, &rk, e.EncryptedSharePart, nil)
		if err != nil {
			panic(err)
		}
		p := &part{src: e.SourceID, enc: e, plain: le(b), pub: e.SourceEphemeralSecretPublicKey}
		s.parts[ck] = p
		return p
	}
	panic("peer gave no part for cosigner 1")
}

// Get performs the nonce exchange request.
func (s *CoSys) Get(key signer.HRSTKey) error {
	res, err := s.lc.GetEphemeralSecretParts(key)
	s.last = "G+"
	if err == nil && len(res.EncryptedSecrets) > 0 {
		s.own[key] = res.EncryptedSecrets[0].SourceEphemeralSecretPublicKey
	}
	if err != nil {
		s.last = "G-"
	} else if len(res.EncryptedSecrets) != s.k.N-1 {
		s.last = fmt.Sprintf("G%d", len(res.EncryptedSecrets))
	}
	return err
}

// Sign asks for a share over p with parts of the named peers exchanged for key.
func (s *CoSys) Sign(p P, key signer.HRSTKey, peers ...string) (*signer.CosignerSignResponse, error) {
	req := signer.CosignerSetEphemeralSecretPartsAndSignRequest{HRST: key, SignBytes: p.SignBytes()}
	for _, n := range peers {
		pt := s.part(n, key)
		s.given = append(s.given, pt)
		req.EncryptedSecrets = append(req.EncryptedSecrets, pt.enc)
	}
	return s.send(p, req)
}

func (s *CoSys) send(p P, req signer.CosignerSetEphemeralSecretPartsAndSignRequest) (*signer.CosignerSignResponse, error) {
	s.clock++
	start := s.clock
	res, err := s.lc.SetEphemeralSecretPartsAndSign(req)
	if vsched.Killed() {
		return nil, fmt.Errorf("killed")
	}
	s.clock++
	s.last = "S-"
	if err == nil && res != nil {
		s.last = "S0"
	}
	if err == nil && res != nil && len(res.Signature) > 0 {
		rl := &release{p: p, r: res.EphemeralPublic, s: append([]byte{}, res.Signature...), start: start, end: s.clock}
		s.last = "S+"
		if len(res.Signature) == 32 {
			rl.h = challenge(res.EphemeralPublic, s.k.Priv.PubKey().Bytes(), req.SignBytes)
			hx := new(big.Int).Mul(rl.h, le(s.k.Shares[0].ShareKey))
			rl.k = new(big.Int).Sub(le(res.Signature), hx)
			rl.k.Mod(rl.k, orderL)
		} else {
			rl.full = true
			s.last = "S*"
			s.wrong = append(s.wrong, fmt.Sprintf("the answer for %s is no share but has %d bytes", p, len(res.Signature)))
		}
		for i, q := range s.rel {
			if bytes.Equal(q.s, rl.s) && bytes.Equal(q.r, rl.r) {
				s.last = fmt.Sprintf("S=%d", i)
			} else if bytes.Equal(q.s, rl.s) {
				s.wrong = append(s.wrong, fmt.Sprintf("the answer for %s repeats the share for %s with another ephemeral public key", p, q.p))
			}
		}
		if own := s.own[p.Key()]; s.last == "S+" && own != nil && req.HRST == p.Key() {
			els := []tsed25519.Element{own}
			for _, e := range req.EncryptedSecrets {
				els = append(els, e.SourceEphemeralSecretPublicKey)
			}
			if !bytes.Equal(tsed25519.AddElements(els), res.EphemeralPublic) {
				s.wrong = append(s.wrong, fmt.Sprintf("share for %s with %d parts has a nonce made of something else", p, len(req.EncryptedSecrets)))
			}
		}
		s.rel = append(s.rel, rl)
		vos.Mark(rl)
	}
	return res, err
}

// Told notifies the cosigner that the cluster signed p.
func (s *CoSys) Told(p P) error {
	sig, err := s.k.Priv.Sign(p.SignBytes())
	if err != nil {
		panic(err)
	}
	err = s.lc.SaveLastSignedState(signer.SignStateConsensus{Height: p.H, Round: int64(p.R), Step: p.Step(), Signature: sig, SignBytes: p.SignBytes()})
	s.clock++
	s.last = "L-"
	if err == nil {
		s.last = "L+"
		s.told = append(s.told, told{p, s.clock})
	}
	return err
}

// Restart reloads the cosigner from its files.
func (s *CoSys) Restart() {
	vsched.Idle()
	old := vsched.SetNode("n1")
	defer vsched.SetNode(old)
	st, err := loadState(s.path)
	s.last = "R+"
	if err != nil {
		s.last = "R-"
		s.x.Failf("state does not load after clean restart", "state file does not load after a clean restart: %v", err)
		return
	}
	s.lc = newLocal(s.k, 1, st)
}

// checkShares: conflicts and regressions among what was released and told.
func (s *CoSys) checkShares() {

	for i, a := range s.rel {
		for _, b := range s.rel[:i] {
			if a.p.HRS() == b.p.HRS() && !a.p.Same(b.p) {
				s.x.Failf("conflicting shares", "released shares for %s and %s", b.p, a.p)
			}
			lo, hi := a, b
			if b.p.HRS().Less(a.p.HRS()) {
				lo, hi = b, a
			}
			if lo.p.HRS().Less(hi.p.HRS()) && hi.end < lo.start {
				s.x.Failf("regressing share", "released a share for %s after one for %s", lo.p, hi.p)
			}
		}
		for _, t := range s.told {
			if t.end < a.start && a.p.HRS().Less(t.p.HRS()) {
				s.x.Failf("share below told position", "released a share for %s after being told %s was signed", a.p, t.p)
			}
			if t.end < a.start && a.p.HRS() == t.p.HRS() && !a.p.Same(t.p) {
				s.x.Failf("share conflicts with told payload", "released a share for %s after being told %s was signed", a.p, t.p)
			}
		}
	}
}

// checkSets: shares are made of the own part and exactly the parts of the request (sequential use only).
func (s *CoSys) checkSets() {
	if len(s.wrong) > 0 {
		s.x.Failf("share not made of the parts of its request", "%s", s.wrong[0])
	}
}

// checkNonces: own contribution present and never used with two challenges.
func (s *CoSys) checkNonces() {
	uniq := map[string]*big.Int{}
	for _, p := range s.given {
		uniq[p.plain.String()] = p.plain
	}
	var ks []string
	for k := range uniq {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) > 10 {
		ks = ks[:10]
	}
	sums := []*big.Int{new(big.Int)}
	for _, k := range ks {
		n := len(sums)
		for i := 0; i < n; i++ {
			sums = append(sums, new(big.Int).Mod(new(big.Int).Add(sums[i], uniq[k]), orderL))
		}
	}
	own := map[string]*release{}
	for _, r := range s.rel {
		if r.k == nil {
			continue
		}
		for _, sm := range sums {
			o := new(big.Int).Sub(r.k, sm)
			o.Mod(o, orderL)
			if o.Sign() == 0 {
				s.x.Failf("share without own nonce contribution", "share for %s was made only from parts of others: key share leaks", r.p)
			}
			if q := own[o.String()]; q != nil && q != r && q.h.Cmp(r.h) != 0 {
				s.x.Failf("nonce reused", "shares for %s and %s (R %x and %x) use the same own nonce: key share leaks", q.p, r.p, head(q.r), head(r.r))
			}
			if own[o.String()] == nil {
				own[o.String()] = r
			}
		}
	}
}

// checkValid: every released share is a correct share for the claimed nonce parts.
func (s *CoSys) checkValid(r *release) {}

type diskState struct {
	Height    json.Number `json:"height"`
	Round     json.Number `json:"round"`
	Step      int         `json:"step"`
	SignBytes string      `json:"signbytes"`
	Signature []byte      `json:"signature"`
}

func (d diskState) HRS() HRS {
	h, _ := d.Height.Int64()
	r, _ := d.Round.Int64()
	return HRS{h, r, int8(d.Step)}
}

func parseDisk(b []byte) (diskState, error) {
	var d diskState
	// heights are written as JSON strings
	var m map[string]json.RawMessage
	if err := json.Unmarshal(b, &m); err != nil {
		return d, err
	}
	unq := func(k string) json.Number {
		return json.Number(strings.Trim(string(m[k]), "\" "))
	}
	d.Height, d.Round = unq("height"), unq("round")
	fmt.Sscanf(string(m["step"]), "%d", &d.Step)
	json.Unmarshal(m["signbytes"], &d.SignBytes)
	json.Unmarshal(m["signature"], &d.Signature)
	return d, nil
}

// cop is an operation on the system.
type cop struct {
	kind  string // G, S, F (=G+S), L, R
	p     P
	peers []string
	t     int // timestamp index of the HRST key; -1: that of p
}

func (o cop) key() signer.HRSTKey {
	q := o.p
	if o.t >= 0 {
		q.T = o.t
	}
	return q.Key()
}

func (o cop) String() string {
	switch o.kind {
	case "R":
		return "restart"
	case "E":
		return fmt.Sprintf("entropy fails after %d reads", o.t)
	case "L":
		return "told(" + o.p.String() + ")"
	case "G":
		return fmt.Sprintf("nonce-exchange(%d/%d/%d t%d)", o.p.H, o.p.R, o.p.Step(), o.p.T)
	}
	s := fmt.Sprintf("%s{%s}", o.p, strings.Join(o.peers, ","))
	if o.t >= 0 {
		s += fmt.Sprintf(" key-t%d", o.t)
	}
	if o.kind == "F" {
		return "exchange+sign(" + s + ")"
	}
	if o.kind == "B" {
		return "sign-last-part-altered(" + s + ")"
	}
	if o.kind == "D" {
		return "sign-misaddressed(" + s + ")"
	}
	return "sign(" + s + ")"
}

func (s *CoSys) do(o cop) string {
	switch o.kind {
	case "G":
		s.Get(o.key())
	case "S":
		s.Sign(o.p, o.key(), o.peers...)
	case "F":
		s.Get(o.key())
		g := s.last
		s.Sign(o.p, o.key(), o.peers...)
		if g != "G+" {
			s.last = g + s.last
		}
	case "B": // the last part is altered
		req := signer.CosignerSetEphemeralSecretPartsAndSignRequest{HRST: o.key(), SignBytes: o.p.SignBytes()}
		for _, n := range o.peers {
			req.EncryptedSecrets = append(req.EncryptedSecrets, s.part(n, o.key()).enc)
		}
		e := &req.EncryptedSecrets[len(o.peers)-1]
		e.SourceSig = append([]byte{e.SourceSig[0] ^ 1}, e.SourceSig[1:]...)
		s.send(o.p, req)
	case "D": // addressed to member 3, as far as the unsigned field says
		req := signer.CosignerSetEphemeralSecretPartsAndSignRequest{HRST: o.key(), SignBytes: o.p.SignBytes()}
		for _, n := range o.peers {
			e := s.part(n, o.key()).enc
			e.DestinationID = 3
			req.EncryptedSecrets = append(req.EncryptedSecrets, e)
		}
		s.send(o.p, req)
	case "L":
		s.Told(o.p)
	case "R":
		s.Restart()
	case "E":
		vrand.FailAfter = o.t
		s.last = "E"
		return s.last
	}
	vrand.FailAfter = -1
	return s.last
}

func copNames(ops []cop) (out []string) {
	for _, o := range ops {
		out = append(out, o.String())
	}
	return
}

var _ = rsa.PublicKey{}

func badReq(o cop, pt part) signer.CosignerSetEphemeralSecretPartsAndSignRequest {
	return signer.CosignerSetEphemeralSecretPartsAndSignRequest{HRST: o.key(), SignBytes: o.p.SignBytes(), EncryptedSecrets: []signer.CosignerEphemeralSecretPart{pt.enc}}
}
