package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/vsim/vos"
	"github.com/strangelove-ventures/horcrux/vsim/vsched"
	"github.com/tendermint/tendermint/libs/protoio"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
	tm "github.com/tendermint/tendermint/types"
)

// C17: the guarded position is the position in the payload.

// F is a payload with free fields.
type F struct {
	Typ   int
	H     int64
	R     int32
	V     int
	Time  time.Time
	Chain string
	Pol   int32
}

func (f F) bytes() []byte {
	if f.Typ == proposal {
		return tm.ProposalSignBytes(f.Chain, &tmProto.Proposal{Type: tmProto.ProposalType, Height: f.H, Round: f.R, PolRound: f.Pol, BlockID: blockID(f.V), Timestamp: f.Time})
	}
	return tm.VoteSignBytes(f.Chain, &tmProto.Vote{Type: tmProto.SignedMsgType(f.Typ), Height: f.H, Round: f.R, BlockID: blockID(f.V), Timestamp: f.Time})
}

func (f F) hrst() signer.HRSTKey {
	return signer.HRSTKey{Height: f.H, Round: int64(f.R), Step: P{Typ: f.Typ}.Step(), Timestamp: f.Time.UnixNano()}
}

func (f F) String() string {
	return fmt.Sprintf("type %d %d/%d block%d %s chain %q pol %d", f.Typ, f.H, f.R, f.V, f.Time.UTC().Format(time.RFC3339Nano), f.Chain, f.Pol)
}

var (
	minTime = time.Unix(0, math.MinInt64).UTC()
	maxTime = time.Unix(0, math.MaxInt64).UTC()
)

func fieldDomain(small bool) (out []F) {
	hs := []int64{0, 1, 5, 1<<31 - 1, 1 << 32, 1<<53 + 1, math.MaxInt64, -1, math.MinInt64}
	rs := []int32{0, 1, 127, math.MaxInt32}
	vs := []int{0, 1, 2, 3, 4}
	ts := []time.Time{time.Unix(0, 0).UTC(), time.Unix(0, 1).UTC(), time.Unix(1, 0).UTC(), time.Unix(-1, 999999999).UTC(), time.Unix(1640995200, 999999999).UTC(), minTime, maxTime}
	cs := []string{"", "chain-1", "a", "\x08\x01", "\x08\x96\x01\x10\x07", "\n\x00", "0123456789012345678901234567890123456789012345678x"}
	ps := []int32{-1, 0, 1, math.MaxInt32}
	if small {
		hs, rs, cs, ps = []int64{5, 6}, []int32{0, 1}, []string{"chain-1", "chain-2"}, []int32{-1, 0}
		vs = []int{0, 1, 2, 3, 4, 10, 11, 12}
		ts = []time.Time{time.Unix(0, 0).UTC(), time.Unix(1640995200, 5).UTC()}
	}
	for _, typ := range []int{prevote, precommit, proposal} {
		for _, h := range hs {
			for _, r := range rs {
				for _, v := range vs {
					for _, t := range ts {
						for _, c := range cs {
							pols := ps
							if typ != proposal {
								pols = []int32{-1}
							}
							for _, p := range pols {
								out = append(out, F{typ, h, r, v, t, c, p})
							}
						}
					}
				}
			}
		}
	}
	return
}

// unpack guards against panics of the code under test.
func unpack(b []byte) (k signer.HRSTKey, err error, crash interface{}) {
	defer func() { crash = recover() }()
	k, err = signer.UnpackHRST(b)
	return
}

// wireType reads the type field (number 1, varint, last occurrence wins).
func wireType(b []byte) (typ uint64, ok bool) {
	n, k := binary.Uvarint(b)
	if k <= 0 || n != uint64(len(b)-k) {
		return 0, false
	}
	b = b[k:]
	for len(b) > 0 {
		tag, k := binary.Uvarint(b)
		if k <= 0 {
			return typ, false
		}
		b = b[k:]
		switch tag & 7 {
		case 0:
			v, k := binary.Uvarint(b)
			if k <= 0 {
				return typ, false
			}
			if tag>>3 == 1 {
				typ = v
			}
			b = b[k:]
		case 1:
			if len(b) < 8 {
				return typ, false
			}
			b = b[8:]
		case 2:
			l, k := binary.Uvarint(b)
			if k <= 0 || l > uint64(len(b)-k) {
				return typ, false
			}
			b = b[k+int(l):]
		case 5:
			if len(b) < 4 {
				return typ, false
			}
			b = b[4:]
		default:
			return typ, false
		}
	}
	return typ, true
}

// decode is the independent reading of sign bytes: the type field decides the kind.
func decode(b []byte) (signer.HRSTKey, bool) {
	typ, ok := wireType(b)
	if !ok {
		// groups and other oddities: let the generated decoder decide below
		var v tmProto.CanonicalVote
		var p tmProto.CanonicalProposal
		if protoio.UnmarshalDelimited(b, &p) == nil && p.Type == tmProto.ProposalType {
			return signer.HRSTKey{Height: p.Height, Round: p.Round, Step: 1, Timestamp: p.Timestamp.UnixNano()}, true
		}
		if protoio.UnmarshalDelimited(b, &v) == nil {
			typ = uint64(v.Type)
		}
	}
	switch int32(typ) {
	case proposal:
		var p tmProto.CanonicalProposal
		if protoio.UnmarshalDelimited(b, &p) != nil {
			return signer.HRSTKey{}, false
		}
		return signer.HRSTKey{Height: p.Height, Round: p.Round, Step: 1, Timestamp: p.Timestamp.UnixNano()}, true
	case prevote, precommit:
		var v tmProto.CanonicalVote
		if protoio.UnmarshalDelimited(b, &v) != nil {
			return signer.HRSTKey{}, false
		}
		return signer.HRSTKey{Height: v.Height, Round: v.Round, Step: P{Typ: int(int32(typ))}.Step(), Timestamp: v.Timestamp.UnixNano()}, true
	}
	return signer.HRSTKey{}, false
}

func checkUnpack(x *X, b []byte) {
	k, err, crash := unpack(b)
	want, valid := decode(b)
	switch {
	case crash != nil:
		x.Failf("unpacking crashes", "bytes %x: %v", b, crash)
	case err == nil && !valid:
		x.Failf("bytes that are neither vote nor proposal are accepted", "bytes %x read as %+v", b, k)
	case err == nil && k != want:
		x.Failf("guarded position is not the encoded one", "bytes %x read as %+v, encoded %+v", b, k, want)
	}
	x.Out("%v", err == nil)
}

// checkSame compares the equality used by the code with a field comparison of decoded payloads.
func checkSame(x *X, a, b []byte) {
	ka, oka := decode(a)
	_, okb := decode(b)
	if !oka {
		return
	}
	st := signer.SignState{Height: ka.Height, Round: ka.Round, Step: ka.Step, SignBytes: a, Signature: make([]byte, 64)}
	err := func() (e error) {
		defer func() {
			if r := recover(); r != nil {
				x.Failf("comparison crashes", "%x / %x: %v", a, b, r)
			}
		}()
		return st.OnlyDifferByTimestamp(b)
	}()
	same := false
	if okb {
		if ka.Step == 1 {
			var p, q tmProto.CanonicalProposal
			same = protoio.UnmarshalDelimited(a, &p) == nil && protoio.UnmarshalDelimited(b, &q) == nil
			same = same && p.Type == q.Type && p.Height == q.Height && p.Round == q.Round && p.POLRound == q.POLRound && p.ChainID == q.ChainID && norm0(p.BlockID) == norm0(q.BlockID)
		} else {
			var p, q tmProto.CanonicalVote
			same = protoio.UnmarshalDelimited(a, &p) == nil && protoio.UnmarshalDelimited(b, &q) == nil
			same = same && p.Type == q.Type && p.Height == q.Height && p.Round == q.Round && p.ChainID == q.ChainID && norm0(p.BlockID) == norm0(q.BlockID)
		}
	}
	if err == nil && !same {
		x.Failf("different payloads treated as equal", "%x / %x", a, b)
	}
}

// norm0 of a block id: empty and missing byte fields are alike.
func norm0(b *tmProto.CanonicalBlockID) string {
	if b == nil {
		return "nil"
	}
	return fmt.Sprintf("%x %d %x", b.Hash, b.PartSetHeader.Total, b.PartSetHeader.Hash)
}

func init() {
	register(&Check{ID: "C17", Assumptions: []string{
		"timestamps within the range a 64 bit nanosecond count can hold (years 1678 to 2262)",
		"field domains and byte alterations as listed in DESIGN.md; the product of the domains is enumerated completely",
	}, Jobs: func(tier string) []Job {
		return []Job{
			{Name: "every field at its extremes", Weight: 2, Run: func(c *Ctx) {
				dom := fieldDomain(false)
				Enum(c, len(dom), func(i int, x *X) {
					f := dom[i]
					x.Note("%s", f)
					b := f.bytes()
					k, err, crash := unpack(b)
					if crash != nil {
						x.Failf("unpacking crashes", "%s: %v", f, crash)
					} else if err != nil {
						x.Failf("a valid payload is refused", "%s: %v", f, err)
					} else if k != f.hrst() {
						x.Failf("guarded position is not the encoded one", "%s read as %+v", f, k)
					}
					x.Out("%v", err == nil)
				})
			}},
			{Name: "equal except for time", Weight: 3, Run: func(c *Ctx) {
				dom := fieldDomain(true)
				var bs [][]byte
				for _, f := range dom {
					bs = append(bs, f.bytes())
				}
				Enum(c, len(dom)*len(dom), func(i int, x *X) {
					a, b := dom[i%len(dom)], dom[i/len(dom)]
					want := a
					want.Time = b.Time
					same := want == b
					st := signer.SignState{Height: a.H, Round: int64(a.R), Step: a.hrst().Step, SignBytes: bs[i%len(dom)], Signature: make([]byte, 64)}
					sc := signer.SignStateConsensus{Height: a.H, Round: int64(a.R), Step: a.hrst().Step, SignBytes: bs[i%len(dom)]}
					e1, e2 := st.OnlyDifferByTimestamp(bs[i/len(dom)]), sc.OnlyDifferByTimestamp(bs[i/len(dom)])
					for _, e := range []error{e1, e2} {
						if same && e != nil {
							x.Failf("equal payloads treated as different", "%s / %s: %v", a, b, e)
						}
						if !same && e == nil {
							x.Failf("different payloads treated as equal", "%s / %s", a, b)
						}
					}
					x.Out("%v %v", same, e1 == nil)
				})
			}},
			{Name: "truncated and altered bytes", Weight: 4, Run: func(c *Ctx) {
				var base [][]byte
				for _, f := range []F{
					{prevote, 5, 0, 0, time.Unix(1640995200, 5).UTC(), "chain-1", -1},
					{precommit, 1 << 40, 3, 2, time.Unix(0, 0).UTC(), "", -1},
					{proposal, 5, 1, 0, time.Unix(1640995200, 5).UTC(), "chain-1", -1},
					{proposal, 0, 0, 2, time.Unix(0, 0).UTC(), "", 0},
					{prevote, 5, 1, 2, time.Unix(0, 0).UTC(), "\x08\x01", -1},
				} {
					base = append(base, f.bytes())
				}
				type alt struct{ b, pos, val, kind int }
				var alts []alt
				for bi, b := range base {
					for p := range b {
						alts = append(alts, alt{bi, p, 0, 1}, alt{bi, p, 0, 2}, alt{bi, p, 0, 3}, alt{bi, p, 0, 4})
						for v := 0; v < 256; v++ {
							alts = append(alts, alt{bi, p, v, 0})
						}
					}
				}
				Enum(c, len(alts), func(i int, x *X) {
					a := alts[i]
					b := append([]byte{}, base[a.b]...)
					relen := func(body []byte) []byte {
						pre := make([]byte, 10)
						return append(pre[:binary.PutUvarint(pre, uint64(len(body)))], body...)
					}
					switch a.kind {
					case 0:
						b[a.pos] = byte(a.val)
					case 1: // cut
						b = b[:a.pos]
					case 2: // cut with a matching length
						b = relen(b[1:][:max0(a.pos-1)])
					case 3: // a byte removed, length adjusted
						b = relen(append(append([]byte{}, b[1:][:max0(a.pos-1)]...), b[1:][min0(a.pos, len(b)-1):]...))
					case 4: // doubled
						b = relen(append(append([]byte{}, b[1:]...), b[1:][:a.pos]...))
					}
					checkUnpack(x, b)
					checkSame(x, base[a.b], b)
					checkSame(x, b, base[a.b])
				})
			}},
			{Name: "every type value and every pair of headers", Run: func(c *Ctx) {
				Enum(c, 3*2*600, func(i int, x *X) {
					typ := int32(i%600) - 50
					if typ > 500 {
						typ = []int32{1 << 16, math.MaxInt32, math.MinInt32, -1}[i%4]
					}
					i /= 600
					withBlock, kind := i%2 == 0, i/2
					var bid *tmProto.CanonicalBlockID
					if withBlock {
						bid = &tmProto.CanonicalBlockID{Hash: hash(1), PartSetHeader: tmProto.CanonicalPartSetHeader{Total: 1, Hash: hash(2)}}
					}
					var b []byte
					switch kind {
					case 0:
						b, _ = protoio.MarshalDelimited(&tmProto.CanonicalVote{Type: tmProto.SignedMsgType(typ), Height: 5, Round: 1, BlockID: bid, Timestamp: time.Unix(0, 0).UTC(), ChainID: "chain-1"})
					case 1:
						b, _ = protoio.MarshalDelimited(&tmProto.CanonicalProposal{Type: tmProto.SignedMsgType(typ), Height: 5, Round: 1, POLRound: -1, BlockID: bid, Timestamp: time.Unix(3, 4).UTC(), ChainID: "chain-1"})
					case 2:
						b, _ = protoio.MarshalDelimited(&tmProto.CanonicalVote{Type: tmProto.SignedMsgType(typ), Height: 5, Round: 1, BlockID: bid, Timestamp: time.Unix(0, 0).UTC()})
					}
					checkUnpack(x, b)
				})
			}},
			{Name: "position recorded by a cosigner", Weight: 3, Run: func(c *Ctx) {
				var dom []F
				for _, f := range fieldDomain(false) {
					if f.H > 0 && (f.Chain == "chain-1" || f.Chain == "") && f.R != 127 {
						dom = append(dom, f)
					}
				}
				EnumSim(c, len(dom), vsched.Config{}, func(i int, x *X) {
					f := dom[i]
					x.Note("%s", f)
					resetWorld()
					s := newCoSys(x, 2, 3)
					s.Get(f.hrst())
					res, err := s.lc.SetEphemeralSecretPartsAndSign(signer.CosignerSetEphemeralSecretPartsAndSignRequest{HRST: f.hrst(), SignBytes: f.bytes(),
						EncryptedSecrets: []signer.CosignerEphemeralSecretPart{s.part("2", f.hrst()).enc}})
					vsched.Idle()
					if err != nil || len(res.Signature) != 32 {
						x.Failf("a valid payload is refused", "%s: %v", f, err)
						return
					}
					d, err := parseDisk(vos.Get(s.path))
					if k := f.hrst(); err != nil || d.HRS() != (HRS{k.Height, k.Round, k.Step}) {
						x.Failf("recorded position is not the encoded one", "%s recorded as %v %v", f, d, err)
					}
					ld, err := signer.LoadSignState(s.path)
					if err != nil || !bytes.Equal(ld.SignBytes, f.bytes()) {
						x.Failf("recorded payload is not the signed one", "%s", f)
					}
					x.Out("ok")
				}, func(i int, x *X, r *vsched.Result) { failPanics(x, r) })
			}},
		}
	}})
}

func max0(i int) int {
	if i < 0 {
		return 0
	}
	return i
}

func min0(i, n int) int {
	if i > n {
		return n
	}
	return i
}
