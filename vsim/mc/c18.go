package main

import (
	"bytes"
	"context"
	"crypto"
	"crypto/rsa"
	"crypto/sha256"
	"fmt"
	"math"
	"sort"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/signer/proto"
	"github.com/strangelove-ventures/horcrux/vsim/vcontext"
	"github.com/strangelove-ventures/horcrux/vsim/vgrpc"
	"github.com/strangelove-ventures/horcrux/vsim/vos"
	"github.com/strangelove-ventures/horcrux/vsim/vrsa"
	"github.com/strangelove-ventures/horcrux/vsim/vsched"
	tmJson "github.com/tendermint/tendermint/libs/json"
)

// C18: malformed peer traffic is refused and never crashes or corrupts a node.

type (
	gReq = proto.CosignerGRPCGetEphemeralSecretPartsRequest
	gRes = proto.CosignerGRPCGetEphemeralSecretPartsResponse
	sReq = proto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest
	sRes = proto.CosignerGRPCSetEphemeralSecretPartsAndSignResponse
	bReq = proto.CosignerGRPCSignBlockRequest
	bRes = proto.CosignerGRPCSignBlockResponse
	tReq = proto.CosignerGRPCTransferLeadershipRequest
	tRes = proto.CosignerGRPCTransferLeadershipResponse
	ePar = proto.EphemeralSecretPart
)

// hostile is a request of a peer that is not what a correct peer sends.
type hostile struct {
	name string
	make func(s *ClSys, target int) interface{}
	// ok: an answer without error is acceptable
	ok bool
}

func protoHRST(k signer.HRSTKey) *proto.HRST {
	return &proto.HRST{Height: k.Height, Round: k.Round, Step: int32(k.Step), Timestamp: k.Timestamp}
}

func signPart(s *ClSys, e *ePar, by int) {
	m := signer.CosignerEphemeralSecretPart{SourceID: int(e.SourceID), SourceEphemeralSecretPublicKey: e.SourceEphemeralSecretPublicKey, EncryptedSharePart: e.EncryptedSharePart}
	jb, _ := tmJson.Marshal(m)
	d := sha256.Sum256(jb)
	sig, err := vrsa.SignPSS(zeroReader{}, &s.K.Shares[by-1].RSAKey, crypto.SHA256, d[:], nil)
	if err != nil {
		panic(err)
	}
	e.SourceSig = sig
}

// genuine part of member from for member to at a position.
func genuinePart(s *ClSys, from, to int, key signer.HRSTKey) *ePar {
	n := s.Nodes[from-1].local
	if !s.up[from-1] {
		st := &signer.SignState{}
		n = newLocal(s.K, from, st)
	}
	res, err := n.GetEphemeralSecretParts(key)
	if err != nil {
		panic(err)
	}
	for _, e := range res.EncryptedSecrets {
		if e.DestinationID == to {
			return &ePar{SourceID: int32(e.SourceID), DestinationID: int32(e.DestinationID), SourceEphemeralSecretPublicKey: e.SourceEphemeralSecretPublicKey, EncryptedSharePart: e.EncryptedSharePart, SourceSig: e.SourceSig}
		}
	}
	panic("no part")
}

// crafted part signed by member 3 with arbitrary content.
func craftedPart(s *ClSys, to int, share, pub []byte) *ePar {
	var pk *rsa.PublicKey = s.K.Shares[0].CosignerKeys[to-1]
	ct, err := vrsa.EncryptOAEP(sha256.New(), zeroReader{}, pk, share, nil)
	if err != nil {
		panic(err)
	}
	e := &ePar{SourceID: 3, DestinationID: int32(to), SourceEphemeralSecretPublicKey: pub, EncryptedSharePart: ct}
	signPart(s, e, 3)
	return e
}

func hostiles() []hostile {
	var hs []hostile
	add := func(ok bool, f func(s *ClSys, to int) interface{}, n string, a ...interface{}) {
		hs = append(hs, hostile{fmt.Sprintf(n, a...), f, ok})
	}
	key := pC.Key()
	ext := []int64{0, -1, 1, math.MaxInt64, math.MinInt64, 1 << 40}
	// nonce requests
	add(true, func(*ClSys, int) interface{} { return &gReq{} }, "Get without position")
	for _, h := range ext {
		for _, r := range []int64{0, -1, math.MaxInt64} {
			for _, st := range []int32{0, -1, 1, 3, 4, 127, 128, 259, math.MaxInt32, math.MinInt32} {
				h, r, st := h, r, st
				add(true, func(*ClSys, int) interface{} {
					return &gReq{Hrst: &proto.HRST{Height: h, Round: r, Step: st, Timestamp: h}}
				}, "Get for %d/%d/%d", h, r, st)
			}
		}
	}
	// signing requests
	set := func(ok bool, n string, f func(s *ClSys, to int, r *sReq)) {
		add(ok, func(s *ClSys, to int) interface{} {
			r := &sReq{EncryptedSecrets: []*ePar{genuinePart(s, 3, to, key)}, Hrst: protoHRST(key), SignBytes: pC.SignBytes()}
			f(s, to, r)
			return r
		}, "Set: %s", n)
	}
	set(false, "empty", func(s *ClSys, to int, r *sReq) { r.Hrst, r.EncryptedSecrets, r.SignBytes = nil, nil, nil })
	set(false, "no position", func(s *ClSys, to int, r *sReq) { r.Hrst = nil })
	for i, f := range []func(h *proto.HRST){
		func(h *proto.HRST) { h.Height++ }, func(h *proto.HRST) { h.Height = -h.Height }, func(h *proto.HRST) { h.Round++ }, func(h *proto.HRST) { h.Round = -1 },
		func(h *proto.HRST) { h.Step = 2 }, func(h *proto.HRST) { h.Step = 0 }, func(h *proto.HRST) { h.Timestamp++ }, func(h *proto.HRST) { h.Height = math.MaxInt64 }} {
		f := f
		set(false, fmt.Sprintf("other position %d", i), func(s *ClSys, to int, r *sReq) { f(r.Hrst) })
	}
	good := pC.SignBytes()
	bad := map[string][]byte{"nil": nil, "empty": {}, "one byte": {1}, "zero length": {0}, "length only": good[:1], "text": []byte("not a vote at all, just some text"),
		"length too big": append([]byte{0xff, 0xff, 0xff, 0xff, 0x0f}, good[1:]...), "huge length": {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01},
		"unknown vote type": P{7, 5, 0, 1, 0}.SignBytes(), "type zero": P{0, 5, 0, 1, 0}.SignBytes(), "trailing byte": append(append([]byte{}, good...), 0), "twice": append(append([]byte{}, good...), good...),
		"large": bytes.Repeat([]byte{0xaa}, 1<<20)}
	for _, n := range sortedKeys(bad) {
		b := bad[n]
		set(n == "trailing byte" || n == "twice", "sign bytes "+n, func(s *ClSys, to int, r *sReq) { r.SignBytes = b })
	}
	for i := 1; i < len(good); i += 3 {
		i := i
		set(false, fmt.Sprintf("sign bytes cut at %d", i), func(s *ClSys, to int, r *sReq) { r.SignBytes = good[:i] })
	}
	for _, id := range []int32{0, -1, 4, 5, 255, 256, 259, math.MaxInt32, math.MinInt32} {
		id := id
		set(false, fmt.Sprintf("source %d", id), func(s *ClSys, to int, r *sReq) { r.EncryptedSecrets[0].SourceID = id })
		set(false, fmt.Sprintf("source %d signed by member 3", id), func(s *ClSys, to int, r *sReq) {
			r.EncryptedSecrets[0].SourceID = id
			signPart(s, r.EncryptedSecrets[0], 3)
		})
	}
	set(false, "source is the target", func(s *ClSys, to int, r *sReq) { r.EncryptedSecrets[0].SourceID = int32(to) })
	set(true, "other destination", func(s *ClSys, to int, r *sReq) { r.EncryptedSecrets[0].DestinationID = 99 })
	set(false, "empty part", func(s *ClSys, to int, r *sReq) { r.EncryptedSecrets[0] = &ePar{} })
	set(false, "genuine and empty part", func(s *ClSys, to int, r *sReq) { r.EncryptedSecrets = append(r.EncryptedSecrets, &ePar{}) })
	fields := map[string]func(e *ePar) *[]byte{
		"public": func(e *ePar) *[]byte { return &e.SourceEphemeralSecretPublicKey }, "ciphertext": func(e *ePar) *[]byte { return &e.EncryptedSharePart },
		"signature": func(e *ePar) *[]byte { return &e.SourceSig }}
	for _, n := range sortedKeys(fields) {
		f := fields[n]
		muts := map[string]func(b []byte) []byte{"missing": func([]byte) []byte { return nil }, "empty": func([]byte) []byte { return []byte{} },
			"flipped": func(b []byte) []byte { return flip(b, 3, 1) }, "cut": func(b []byte) []byte { return b[:len(b)/2] }, "extended": func(b []byte) []byte { return append(append([]byte{}, b...), 1) },
			"huge": func(b []byte) []byte { return bytes.Repeat([]byte{7}, 1<<16) }}
		for _, what := range sortedKeys(muts) {
			m := muts[what]
			set(false, n+" "+what, func(s *ClSys, to int, r *sReq) { p := f(r.EncryptedSecrets[0]); *p = m(*p) })
		}
	}
	set(true, "part twice", func(s *ClSys, to int, r *sReq) {
		r.EncryptedSecrets = append(r.EncryptedSecrets, r.EncryptedSecrets[0])
	})
	set(false, "part of another position, resigned bytes", func(s *ClSys, to int, r *sReq) {
		r.EncryptedSecrets[0] = genuinePart(s, 3, to, pD.Key())
		r.EncryptedSecrets[0].SourceSig = genuinePart(s, 3, to, key).SourceSig
	})
	// authentic parts of a member that misbehaves
	pub := bytes.Repeat([]byte{0x58}, 32)
	for _, n := range []int{0, 1, 31, 32, 33, 62} {
		n := n
		set(true, fmt.Sprintf("share of %d bytes", n), func(s *ClSys, to int, r *sReq) {
			r.EncryptedSecrets[0] = craftedPart(s, to, bytes.Repeat([]byte{0xff}, n), pub)
		})
	}
	for _, n := range []int{0, 1, 31, 33, 64} {
		n := n
		set(true, fmt.Sprintf("public part of %d bytes", n), func(s *ClSys, to int, r *sReq) {
			r.EncryptedSecrets[0] = craftedPart(s, to, bytes.Repeat([]byte{0x01}, 32), bytes.Repeat([]byte{0x58}, n))
		})
	}
	set(true, "public part not on the curve", func(s *ClSys, to int, r *sReq) {
		r.EncryptedSecrets[0] = craftedPart(s, to, bytes.Repeat([]byte{0x01}, 32), bytes.Repeat([]byte{0xee}, 32))
	})
	// requests to sign a block
	blk := func(ok bool, n string, f func(r *bReq)) {
		add(ok, func(s *ClSys, to int) interface{} {
			k := P{precommit, 5, 0, 1, 0}
			r := &bReq{ChainID: chain, Block: &proto.Block{Height: k.H, Round: int64(k.R), Step: int32(k.Step()), SignBytes: k.SignBytes(), Timestamp: k.Time().UnixNano()}}
			f(r)
			return r
		}, "SignBlock: %s", n)
	}
	blk(false, "no block", func(r *bReq) { r.Block = nil })
	blk(false, "empty block", func(r *bReq) { r.Block = &proto.Block{} })
	for _, h := range []int64{6, 4, 0, -1, math.MaxInt64, math.MinInt64} {
		h := h
		blk(false, fmt.Sprintf("height %d over other bytes", h), func(r *bReq) { r.Block.Height = h })
		blk(false, fmt.Sprintf("height %d over garbage", h), func(r *bReq) { r.Block.Height, r.Block.SignBytes = h, []byte{1, 2, 3} })
	}
	for _, v := range []int64{1, -1, math.MaxInt64} {
		v := v
		blk(false, fmt.Sprintf("round %d over other bytes", v), func(r *bReq) { r.Block.Round = v })
	}
	for _, v := range []int32{0, 1, 2, 4, 127, -1, math.MaxInt32} {
		v := v
		blk(false, fmt.Sprintf("step %d over other bytes", v), func(r *bReq) { r.Block.Step = v })
	}
	blk(false, "other timestamp", func(r *bReq) { r.Block.Timestamp++ })
	for _, n := range sortedKeys(bad) {
		b := bad[n]
		if n == "trailing byte" || n == "twice" {
			continue
		}
		blk(false, "sign bytes "+n, func(r *bReq) { r.Block.SignBytes = b })
	}
	for _, id := range []string{"", "0", "9", "-1", "x", "1 ", "3"} {
		id := id
		add(true, func(*ClSys, int) interface{} { return &tReq{LeaderID: id} }, "TransferLeadership to %q", id)
	}
	return hs
}

func sortedKeys[T any](m map[string]T) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

// evil sends a raw request to a node.
func evil(target int, req interface{}) error {
	ctx, cancel := vcontext.WithTimeout(context.Background(), 10*time.Second)
	defer cancel()
	cc, _ := vgrpc.Dial(fmt.Sprintf("node%d:%d", target, 2220+target))
	const p = "/proto.CosignerGRPC/"
	svc := proto.CosignerGRPC_ServiceDesc.ServiceName
	_ = p
	switch r := req.(type) {
	case *gReq:
		return cc.Invoke(ctx, "/"+svc+"/GetEphemeralSecretParts", r, &gRes{})
	case *sReq:
		return cc.Invoke(ctx, "/"+svc+"/SetEphemeralSecretPartsAndSign", r, &sRes{})
	case *bReq:
		return cc.Invoke(ctx, "/"+svc+"/SignBlock", r, &bRes{})
	case *tReq:
		return cc.Invoke(ctx, "/"+svc+"/TransferLeadership", r, &tRes{})
	}
	panic("unknown request")
}

func (s *ClSys) marks() string {
	var b []byte
	for i := 1; i <= s.K.N; i++ {
		b = append(b, vos.Get(shareFile(i))...)
		b = append(b, vos.Get(pvFile(i))...)
	}
	return string(b)
}

func hostileJob(tier string) Job {
	hs := hostiles()
	states := []string{"fresh", "position signed", "nonces exchanged", "earlier position signed"}
	return Job{Name: "hostile requests", Weight: 3, Run: func(c *Ctx) {
		n := len(hs) * 2 * len(states)
		EnumSim(c, n, vsched.Config{MaxSteps: 200000}, func(i int, x *X) {
			resetWorld()
			h := hs[i/(2*len(states))]
			target := 1 + i%2
			st := states[i/2%len(states)]
			w := world{prop: "C18 C05 C10", t: 2, n: 3}
			s := w.start(x)
			switch st {
			case "position signed":
				s.sign(1, pC)
			case "nonces exchanged":
				s.Nodes[target-1].local.GetEphemeralSecretParts(pC.Key())
			case "earlier position signed":
				s.sign(2, pA)
			}
			vsched.Idle()
			req := h.make(s, target)
			before := s.marks()
			x.Note("%s to n%d, %s", h.name, target, st)
			t := vsched.GoOn("evil", "evil", func() {
				err := evil(target, req)
				x.Out("err=%v", err != nil)
				if err == nil && !h.ok {
					x.Failf("malformed request answered", "%s to n%d (%s) was answered without an error", h.name, target, st)
				}
				vsched.Idle()
				if err != nil && s.marks() != before {
					x.Failf("refused request changed the state", "%s to n%d (%s) was refused but changed a state file", h.name, target, st)
				}
			})
			vsched.Join(t)
			vsched.Idle()
			if !h.ok || x.Outcome[0] == "err=true" {
				s.must("only a malformed request was refused before", 1, pC)
			}
			s.must("malformed requests were sent before", 2, pD)
			oLeader(2).f(s)
			s.must("malformed requests were sent before", 1, P{precommit, 6, 0, 0, 0})
			w.end(s)
		}, func(i int, x *X, r *vsched.Result) { world{prop: "C10"}.after(x, r) })
	}}
}

// hostile answers.
func hostileReplies() []nf {
	var out []nf
	get := func(name string, f func(r *gRes)) {
		out = append(out, nf{"parts: " + name, mGet, vgrpc.Fault{MutateReply: mutGet(f)}})
	}
	set := func(name string, f func(r *sRes)) {
		out = append(out, nf{"share: " + name, mSet, vgrpc.Fault{MutateReply: mutSet(f)}})
	}
	get("none", func(r *gRes) { r.EncryptedSecrets = nil })
	get("one missing", func(r *gRes) { r.EncryptedSecrets = r.EncryptedSecrets[1:] })
	get("doubled", func(r *gRes) { r.EncryptedSecrets = append(r.EncryptedSecrets, r.EncryptedSecrets...) })
	get("empty part first", func(r *gRes) { r.EncryptedSecrets = append([]*ePar{{}}, r.EncryptedSecrets...) })
	get("a thousand", func(r *gRes) {
		for len(r.EncryptedSecrets) < 1000 {
			r.EncryptedSecrets = append(r.EncryptedSecrets, r.EncryptedSecrets[0])
		}
	})
	for _, id := range []int32{-1, 0, 1, 2, 3, 7, math.MaxInt32} {
		id := id
		get(fmt.Sprintf("source %d", id), func(r *gRes) {
			for _, e := range r.EncryptedSecrets {
				e.SourceID = id
			}
		})
		get(fmt.Sprintf("destination %d", id), func(r *gRes) {
			for _, e := range r.EncryptedSecrets {
				e.DestinationID = id
			}
		})
	}
	fields := map[string]func(e *ePar) *[]byte{
		"public": func(e *ePar) *[]byte { return &e.SourceEphemeralSecretPublicKey }, "ciphertext": func(e *ePar) *[]byte { return &e.EncryptedSharePart },
		"signature": func(e *ePar) *[]byte { return &e.SourceSig }}
	for _, n := range sortedKeys(fields) {
		f := fields[n]
		get(n+" missing", func(r *gRes) {
			for _, e := range r.EncryptedSecrets {
				*f(e) = nil
			}
		})
		get(n+" flipped", func(r *gRes) {
			for _, e := range r.EncryptedSecrets {
				*f(e) = flip(*f(e), 2, 4)
			}
		})
		get(n+" cut", func(r *gRes) {
			for _, e := range r.EncryptedSecrets {
				*f(e) = (*f(e))[:7]
			}
		})
	}
	for _, n := range []int{0, 1, 31, 33, 63, 64, 65, 5000} {
		n := n
		set(fmt.Sprintf("signature of %d bytes", n), func(r *sRes) { r.Signature = bytes.Repeat([]byte{0x11}, n) })
		set(fmt.Sprintf("ephemeral key of %d bytes", n), func(r *sRes) { r.EphemeralPublic = bytes.Repeat([]byte{0x11}, n) })
	}
	set("signature zero", func(r *sRes) { r.Signature = make([]byte, 32) })
	set("signature all ones", func(r *sRes) { r.Signature = bytes.Repeat([]byte{0xff}, 32) })
	set("signature flipped", func(r *sRes) { r.Signature = flip(r.Signature, 0, 1) })
	set("signature extended", func(r *sRes) { r.Signature = append(r.Signature, 0, 1) })
	set("fields exchanged", func(r *sRes) { r.Signature, r.EphemeralPublic = r.EphemeralPublic, r.Signature })
	set("everything missing", func(r *sRes) { *r = sRes{} })
	set("timestamp extreme", func(r *sRes) { r.Timestamp = math.MinInt64 })
	return out
}

func (w world) replies(bound int, reqs []rq) Job {
	return w.conc(bound, map[byte]int{vsched.KSched: 0}, "", func(s *ClSys) {
		envOf(s, hostileReplies())
		for _, r := range reqs {
			s.sign(r.node, r.p)
		}
		s.env = nil
		s.settle()
		s.must("peers only answered wrongly before", 1, pD)
		s.must("peers only answered wrongly before", 2, P{precommit, 6, 0, 0, 0})
		oLeader(2).f(s)
		s.must("peers only answered wrongly before", 1, P{precommit, 7, 0, 0, 0})
	})
}

// hostileSeqs: sequences of malformed and correct requests.
func (w world) hostileSeqs(depth int) Job {
	var ops []clop
	hs := hostiles()
	want := map[string]bool{"Get without position": true, "Set: empty": true, "Set: other position 0": true, "Set: sign bytes text": true, "Set: signature flipped": true, "Set: genuine and empty part": true, "Set: share of 33 bytes": false,
		"SignBlock: no block": true, "SignBlock: height 9223372036854775807 over other bytes": true, "SignBlock: height 6 over garbage": true, "SignBlock: step 2 over other bytes": true, `TransferLeadership to "3"`: true, `TransferLeadership to "9"`: true}
	for _, h := range hs {
		h := h
		if !want[h.name] {
			continue
		}
		ops = append(ops, clop{h.name, func(s *ClSys) string {
			to := 1
			req := h.make(s, to)
			t := vsched.GoOn("evil", "evil", func() { evil(to, req) })
			vsched.Join(t)
			vsched.Idle()
			return ""
		}})
	}
	must := func(node int, p P) clop {
		return clop{fmt.Sprintf("n%d signs %s", node, p), func(s *ClSys) string {
			before := s.marks()
			_ = before
			r := s.sign(node, p)
			// positions only grow within the alphabet if asked for in order; failing is
			// legitimate once a later one was signed
			later := false
			for _, q := range s.all {
				if q != r && q.Err == nil && !q.P.HRS().Less(p.HRS()) {
					later = true
				}
			}
			if r.Err != nil && !later {
				s.fail("C18", "request fails after malformed traffic", "the request for %s at node %d failed although only malformed requests came before: %v", p, node, r.Err)
			}
			return r.Class()
		}}
	}
	ops = append(ops, must(1, pC), must(2, pA), must(3, pD))
	return w.seq(nil, ops, depth, must(2, P{prevote, 9, 0, 0, 0}))
}

// peerCalls are the requests that two peers can send to one node at the same time.
func peerCalls() []hostile {
	get := func(p P) hostile {
		return hostile{fmt.Sprintf("Get for %s", p), func(*ClSys, int) interface{} { return &gReq{Hrst: protoHRST(p.Key())} }, true}
	}
	set := func(p P) hostile {
		return hostile{fmt.Sprintf("Set for %s", p), func(s *ClSys, to int) interface{} {
			return &sReq{EncryptedSecrets: []*ePar{genuinePart(s, 3, to, p.Key())}, Hrst: protoHRST(p.Key()), SignBytes: p.SignBytes()}
		}, true}
	}
	block := func(p P) hostile {
		return hostile{fmt.Sprintf("SignBlock for %s", p), func(*ClSys, int) interface{} {
			return &bReq{ChainID: chain, Block: &proto.Block{Height: p.H, Round: int64(p.R), Step: int32(p.Step()), SignBytes: p.SignBytes(), Timestamp: p.Time().UnixNano()}}
		}, true}
	}
	out := []hostile{get(pA), get(pC), set(pA), set(pC), block(pA), block(pC)}
	for _, h := range hostiles() {
		switch h.name {
		case "Get without position", "Set: empty part", "Set: other position 0", `TransferLeadership to "3"`:
			out = append(out, h)
		}
	}
	return out
}

// meeting: two peers send a request each to one node at the same time, whose
// maps are not to be accessed at the same time.
func (w world) meeting(bound int) Job {
	return Job{Name: w.name, Weight: w.weight, Run: func(c *Ctx) {
		calls := peerCalls()
		n := -1
		one := *c
		one.N, one.Shard = 1, 0
		for i := range calls {
			for j := i; j < len(calls); j++ {
				if n++; c.replay == nil && n%c.N != c.Shard {
					continue
				}
				a, b := calls[i], calls[j]
				name := a.name + " and " + b.name
				(&Scn{Name: name, Bound: bound, Cfg: vsched.Config{MaxSteps: 200000, MapYield: true}, Before: func(x *X) { resetWorld() },
					Body: func(x *X) {
						s := w.start(x)
						s.noRef = true
						var ts []*vsched.Task
						for k, h := range []hostile{a, b} {
							req := h.make(s, 1)
							ts = append(ts, vsched.GoOn(fmt.Sprintf("evil%d", k), "evil", func() { x.Out("%d err=%v", k, evil(1, req) != nil) }))
						}
						vsched.Join(ts...)
						s.must("two peers sent a request each at the same time", 1, pD)
						w.end(s)
					}, After: w.after}).Explore(&one)
			}
		}
	}}
}

// peerProbes are the requests to a node that peers can send at any time.
func peerProbes() []probe {
	var out []probe
	for _, p := range []P{pL, pA, pC} {
		p := p
		out = append(out, probe{fmt.Sprintf("SignBlock for %s", p), func(s *ClSys, n int) {
			s.Nodes[n-1].tv.SignBlock(chain, &signer.Block{Height: p.H, Round: int64(p.R), Step: p.Step(), SignBytes: p.SignBytes(), Timestamp: p.Time()})
		}}, probe{fmt.Sprintf("Get for %s", p), func(s *ClSys, n int) { s.Nodes[n-1].local.GetEphemeralSecretParts(p.Key()) }},
			probe{fmt.Sprintf("Set for %s", p), func(s *ClSys, n int) {
				s.Nodes[n-1].local.SetEphemeralSecretPartsAndSign(signer.CosignerSetEphemeralSecretPartsAndSignRequest{HRST: p.Key(), SignBytes: p.SignBytes()})
			}})
	}
	return append(out, probe{"Get of the store", func(s *ClSys, n int) { s.Nodes[n-1].store.Get("lss") }})
}

type probe struct {
	name string
	f    func(s *ClSys, node int)
}

// arriving: a peer's request arrives in the middle of any access to a map of a
// node, while the cluster serves the validator.
func (w world) arriving(bound int) Job {
	return Job{Name: w.name, Weight: w.weight, Run: func(c *Ctx) {
		n := -1
		one := *c
		one.N, one.Shard = 1, 0
		for _, pr := range peerProbes() {
			for node := 1; node <= 2; node++ {
				for lead := 1; lead <= 2; lead++ {
					if n++; c.replay == nil && n%c.N != c.Shard {
						continue
					}
					pr, node, lead := pr, node, lead
					(&Scn{Name: fmt.Sprintf("%s at n%d, leader n%d", pr.name, node, lead), Bound: bound, Cfg: vsched.Config{MaxSteps: 200000, MapYield: true, MapNode: nodeName(node), NoSchedDev: true}, Before: func(x *X) { resetWorld() },
						Body: func(x *X) {
							s := w.start(x)
							s.noRef = true
							oLeader(lead).f(s)
							s.sign(1, pL)
							vsched.Idle()
							over := false
							at := nodeName(node)
							t := vsched.GoOn(at, "probe", func() {
								vsched.Block(func() bool { return over || vsched.Touching(at) }, "an access to a map")
								if !over {
									x.Out("%s", pr.name)
									pr.f(s, node)
								}
							})
							s.sign(1, pA)
							s.sign(2, pC)
							over = true
							vsched.Join(t)
							s.must("a peer's request came in the meantime", 1, pD)
							w.end(s)
						}, After: w.after}).Explore(&one)
				}
			}
		}
	}}
}

func c18Jobs(tier string) []Job {
	w := func(name string, weight float64) world {
		return world{prop: "C18 C05 C10", name: name, weight: weight, t: 2, n: 3}
	}
	jobs := []Job{
		hostileJob(tier), wornHostile(pick(tier, 5, 40)),
		w("hostile answers", 3).replies(2, []rq{{1, pA}, {2, pC}}),
		w("hostile requests in sequence", 3).hostileSeqs(pick(tier, 3, 4)),
	}
	w34 := world{prop: "C18 C05 C10", name: "3 of 4: hostile answers", weight: 3, t: 3, n: 4}
	jobs = append(jobs, w34.replies(pick(tier, 1, 2), []rq{{1, pA}}))
	jobs = append(jobs, w("two peers at the same time", 3).meeting(pick(tier, 1, 2)), w("a peer at any access", 2).arriving(pick(tier, 1, 2)))
	return jobs
}

func init() {
	register(&Check{ID: "C18", Jobs: c18Jobs, Assumptions: []string{"requests are well formed at the protobuf level; crypto/rsa is ideal"}})
}
