package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/vsim/vnet"
	"github.com/strangelove-ventures/horcrux/vsim/vsched"
	"github.com/strangelove-ventures/horcrux/vsim/vtime"
	"github.com/tendermint/tendermint/crypto"
	"github.com/tendermint/tendermint/crypto/ed25519"
	cryptoenc "github.com/tendermint/tendermint/crypto/encoding"
	tmlog "github.com/tendermint/tendermint/libs/log"
	"github.com/tendermint/tendermint/libs/protoio"
	tmservice "github.com/tendermint/tendermint/libs/service"
	"github.com/tendermint/tendermint/privval"
	tmcrypto "github.com/tendermint/tendermint/proto/tendermint/crypto"
	pv "github.com/tendermint/tendermint/proto/tendermint/privval"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
	tm "github.com/tendermint/tendermint/types"
)

// C12: the connection to the sentries.

// ---- backend that records and checks how it is called ----

type stubPV struct {
	x     *X
	key   crypto.PubKey
	in    int
	calls int
	err   func(h int64) error
	noKey error // the answer to key requests
	slow  time.Duration
}

func (p *stubPV) enter(what string) func() {
	p.calls++
	if p.in > 0 {
		p.x.Failf("requests overlap in the backend", "%s starts while another request is being handled", what)
	}
	p.in++
	vsched.Yield()
	if p.slow > 0 {
		vsched.Sleep(p.slow)
	}
	return func() { vsched.Yield(); p.in-- }
}

func (p *stubPV) GetPubKey() (crypto.PubKey, error) {
	defer p.enter("GetPubKey")()
	if p.noKey != nil {
		return nil, p.noKey
	}
	return p.key, nil
}

func stubSig(b []byte) []byte {
	h := sha256.Sum256(b)
	return append(h[:], h[:]...)
}

func (p *stubPV) SignVote(chainID string, v *tmProto.Vote) error {
	defer p.enter("SignVote")()
	if p.err != nil {
		if err := p.err(v.Height); err != nil {
			v.Signature = []byte("left over")
			return err
		}
	}
	v.Signature = stubSig(tm.VoteSignBytes(chainID, v))
	return nil
}

func (p *stubPV) SignProposal(chainID string, v *tmProto.Proposal) error {
	defer p.enter("SignProposal")()
	if p.err != nil {
		if err := p.err(v.Height); err != nil {
			v.Signature = []byte("left over")
			return err
		}
	}
	v.Signature = stubSig(tm.ProposalSignBytes(chainID, v))
	return nil
}

// ---- sentry ----

type sentry struct {
	sys  *seSys
	name string
	host string
	l    *vnet.Listener
	c    *vnet.Conn
	port int
	n    int // connections so far
}

func (e *sentry) addr() string { return fmt.Sprintf("%s:%d", e.host, e.port) }

type seSys struct {
	x      *X
	se     []*sentry
	stub   *stubPV
	pub    crypto.PubKey
	verify func(b, sig []byte) bool
	chunk  func() int
	node   string
	cl     *ClSys
}

// newSeSys starts the real sentry services on a node with a backend.
func newSeSys(x *X, n int, backend string) *seSys { return newSeSysAt(x, n, backend, "") }

// where the sentries are.
const (
	sameHost = "on one host"
	samePort = "at one port"
)

func newSeSysAt(x *X, n int, backend, layout string) *seSys {
	s := &seSys{x: x, node: "n1"}
	var val tm.PrivValidator
	if backend == "cluster" {
		w := world{prop: "C12", t: 2, n: 3}
		s.cl = w.start(x)
		val = s.cl.Nodes[0].pv
		s.pub = s.cl.K.Priv.PubKey()
		s.verify = func(b, sig []byte) bool { return s.cl.Verify(b, sig) }
	} else {
		s.stub = &stubPV{x: x, key: ed25519.GenPrivKeyFromSecret([]byte("stub")).PubKey()}
		val = &signer.PvGuard{PrivValidator: s.stub}
		s.pub = s.stub.key
		s.verify = func(b, sig []byte) bool { return bytes.Equal(sig, stubSig(b)) }
	}
	var nodes []signer.NodeConfig
	for i := 0; i < n; i++ {
		e := &sentry{sys: s, name: fmt.Sprintf("s%d", i+1), port: 1230 + i}
		e.host = e.name
		switch layout {
		case sameHost:
			e.host = "sentries"
		case samePort:
			e.port = 1230
		}
		l, err := vnet.Listen("tcp", e.addr())
		if err != nil {
			panic(err)
		}
		e.l = l.(*vnet.Listener)
		s.se = append(s.se, e)
		nodes = append(nodes, signer.NodeConfig{Address: "tcp://" + e.addr()})
	}
	old := vsched.SetNode(s.node)
	sv, err := signer.StartRemoteSigners(nil, tmlog.NewNopLogger(), chain, val, nodes)
	vsched.SetNode(old)
	if err != nil || len(sv) != n {
		x.Failf("services", "%d services started for %d sentries: %v", len(sv), n, err)
	}
	_ = []tmservice.Service(sv)
	return s
}

// accept waits for the signer's next connection.
func (e *sentry) accept() bool {
	if !e.wait() {
		return false
	}
	c, err := e.l.Accept()
	if err != nil {
		panic(err)
	}
	e.c = c.(*vnet.Conn)
	e.n++
	e.c.Peer().MaxRead = e.sys.chunk
	return true
}

// wait for a connection for up to a minute.
func (e *sentry) wait() bool {
	for i := 0; i < 120; i++ {
		if e.l.Pending() > 0 {
			return true
		}
		if vsched.IsCrashed(e.sys.node) {
			return false
		}
		vsched.IdleFor(500 * time.Millisecond)
	}
	if e.l.Pending() > 0 {
		return true
	}
	e.sys.x.Failf("does not reconnect", "%s sees no connection for a minute", e.name)
	return false
}

func frame(m *pv.Message) []byte {
	b, err := protoio.MarshalDelimited(m)
	if err != nil {
		panic(err)
	}
	return b
}

// read one reply; closed: the signer closed the connection instead.
func (e *sentry) read(timeout time.Duration) (m pv.Message, closed bool, err error) {
	e.c.SetReadDeadline(vtime.Now().Add(timeout))
	_, err = protoio.NewDelimitedReader(e.c, 1<<20).ReadMsg(&m)
	if err != nil && e.c.PeerClosed() {
		return m, true, nil
	}
	return m, false, err
}

func (e *sentry) write(b []byte) {
	if _, err := e.c.Write(b); err != nil {
		e.sys.x.Note("%s cannot write: %v", e.name, err)
	}
}

// req is a request with what is allowed as its reply.
type req struct {
	name string
	raw  []byte
	msg  *pv.Message
	// frames a reader of the signer must be able to skip over: true if the connection may end
	mayClose bool
	bad      bool // no reply but an error (or an empty message for what is no request)
}

func voteReq(v *tmProto.Vote) *pv.Message {
	return &pv.Message{Sum: &pv.Message_SignVoteRequest{SignVoteRequest: &pv.SignVoteRequest{Vote: v, ChainId: chain}}}
}
func propReq(v *tmProto.Proposal) *pv.Message {
	return &pv.Message{Sum: &pv.Message_SignProposalRequest{SignProposalRequest: &pv.SignProposalRequest{Proposal: v, ChainId: chain}}}
}
func pingReq() *pv.Message {
	return &pv.Message{Sum: &pv.Message_PingRequest{PingRequest: &pv.PingRequest{}}}
}
func keyReq() *pv.Message {
	return &pv.Message{Sum: &pv.Message_PubKeyRequest{PubKeyRequest: &pv.PubKeyRequest{ChainId: chain}}}
}

func goodReq(name string, m *pv.Message) req { return req{name: name, raw: frame(m), msg: m} }
func badReq12(name string, m *pv.Message) req {
	return req{name: name, raw: frame(m), msg: m, bad: true}
}
func rawReq(name string, b []byte) req { return req{name: name, raw: b, mayClose: true, bad: true} }

func fullVote(p P) *tmProto.Vote {
	v := p.Vote()
	v.ValidatorAddress = bytes.Repeat([]byte{7}, 20)
	v.ValidatorIndex = 3
	return v
}

func goodReqs() []req {
	return []req{
		goodReq("ping", pingReq()), goodReq("key", keyReq()),
		goodReq("vote 5", voteReq(fullVote(P{prevote, 5, 0, 0, 0}))), goodReq("vote 5 other", voteReq(fullVote(P{prevote, 5, 0, 1, 0}))),
		goodReq("precommit 6", voteReq(fullVote(P{precommit, 6, 1, 0, 0}))), goodReq("nil vote 7", voteReq(fullVote(P{prevote, 7, 0, 2, 0}))),
		goodReq("proposal 8", propReq(P{proposal, 8, 0, 0, 0}.Proposal())), goodReq("vote 4", voteReq(fullVote(P{prevote, 4, 0, 0, 0}))),
	}
}

func nonsense() []req {
	v := func(f func(v *tmProto.Vote)) *pv.Message {
		x := fullVote(P{prevote, 40, 0, 0, 0})
		f(x)
		return voteReq(x)
	}
	p := func(f func(v *tmProto.Proposal)) *pv.Message {
		x := P{proposal, 40, 0, 0, 0}.Proposal()
		f(x)
		return propReq(x)
	}
	out := []req{badReq12("vote request without a vote", voteReq(nil)), badReq12("proposal request without a proposal", propReq(nil))}
	for _, t := range []int32{0, 3, 32, 33, 99, -1, math.MinInt32, math.MaxInt32} {
		t := t
		out = append(out, badReq12(fmt.Sprintf("vote of type %d", t), v(func(v *tmProto.Vote) { v.Type = tmProto.SignedMsgType(t) })))
	}
	for _, n := range []int{1, 20, 31, 33, 64} {
		n := n
		out = append(out,
			badReq12(fmt.Sprintf("vote with a hash of %d bytes", n), v(func(v *tmProto.Vote) { v.BlockID.Hash = bytes.Repeat([]byte{1}, n) })),
			badReq12(fmt.Sprintf("vote with a parts hash of %d bytes", n), v(func(v *tmProto.Vote) { v.BlockID.PartSetHeader.Hash = bytes.Repeat([]byte{1}, n) })),
			badReq12(fmt.Sprintf("proposal with a hash of %d bytes", n), p(func(v *tmProto.Proposal) { v.BlockID.Hash = bytes.Repeat([]byte{1}, n) })),
			badReq12(fmt.Sprintf("proposal with a parts hash of %d bytes", n), p(func(v *tmProto.Proposal) { v.BlockID.PartSetHeader.Hash = bytes.Repeat([]byte{1}, n) })))
	}
	for _, n := range []int{20, 33} {
		n := n
		// one part of the block ID missing and the other malformed
		half := func(name string, f func(b *tmProto.BlockID)) {
			out = append(out, badReq12("vote with "+name, v(func(v *tmProto.Vote) { f(&v.BlockID) })), badReq12("precommit with "+name, v(func(v *tmProto.Vote) { v.Type = tmProto.PrecommitType; f(&v.BlockID) })), badReq12("proposal with "+name, p(func(v *tmProto.Proposal) { f(&v.BlockID) })))
		}
		half(fmt.Sprintf("no hash and a parts hash of %d bytes", n), func(b *tmProto.BlockID) { b.Hash, b.PartSetHeader.Hash = nil, bytes.Repeat([]byte{1}, n) })
		half(fmt.Sprintf("no hash, no parts and a parts hash of %d bytes", n), func(b *tmProto.BlockID) {
			*b = tmProto.BlockID{PartSetHeader: tmProto.PartSetHeader{Hash: bytes.Repeat([]byte{1}, n)}}
		})
		half(fmt.Sprintf("no parts and a hash of %d bytes", n), func(b *tmProto.BlockID) { *b = tmProto.BlockID{Hash: bytes.Repeat([]byte{1}, n)} })
	}
	// unusual, but each has a well defined reply: a signature or an error
	odd := func(name string, m *pv.Message) { out = append(out, goodReq(name, m)) }
	odd("empty vote of type prevote", v(func(v *tmProto.Vote) { *v = tmProto.Vote{Type: tmProto.PrevoteType} }))
	odd("vote without a time", v(func(v *tmProto.Vote) { v.Timestamp = time.Time{} }))
	odd("vote in 9999", v(func(v *tmProto.Vote) { v.Timestamp = time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC) }))
	odd("vote at a negative height", v(func(v *tmProto.Vote) { v.Height = -1 }))
	odd("vote at a negative round", v(func(v *tmProto.Vote) { v.Round = -1 }))
	odd("vote with a hash only", v(func(v *tmProto.Vote) { v.BlockID.PartSetHeader = tmProto.PartSetHeader{} }))
	odd("vote with parts only", v(func(v *tmProto.Vote) { v.BlockID.Hash = nil }))
	odd("vote with a signature", v(func(v *tmProto.Vote) { v.Signature = bytes.Repeat([]byte{9}, 64) }))
	odd("vote with a long address", v(func(v *tmProto.Vote) { v.ValidatorAddress = make([]byte, 5000) }))
	odd("proposal of type prevote", p(func(v *tmProto.Proposal) { v.Type = tmProto.PrevoteType }))
	odd("proposal of type 99", p(func(v *tmProto.Proposal) { v.Type = 99 }))
	odd("empty proposal", p(func(v *tmProto.Proposal) { *v = tmProto.Proposal{} }))
	odd("proposal at a negative height", p(func(v *tmProto.Proposal) { v.Height = math.MinInt64 }))
	odd("proposal with POL round -1", p(func(v *tmProto.Proposal) { v.PolRound = -1 }))
	odd("vote for another chain", &pv.Message{Sum: &pv.Message_SignVoteRequest{SignVoteRequest: &pv.SignVoteRequest{Vote: fullVote(P{prevote, 41, 0, 0, 0}), ChainId: "other"}}})
	// no requests at all
	none := func(name string, m *pv.Message) {
		r := badReq12(name, m)
		r.mayClose = true
		out = append(out, r)
	}
	none("empty message", &pv.Message{})
	none("ping response", &pv.Message{Sum: &pv.Message_PingResponse{PingResponse: &pv.PingResponse{}}})
	none("key response", &pv.Message{Sum: &pv.Message_PubKeyResponse{PubKeyResponse: &pv.PubKeyResponse{}}})
	none("signed vote response", &pv.Message{Sum: &pv.Message_SignedVoteResponse{SignedVoteResponse: &pv.SignedVoteResponse{Vote: *fullVote(P{prevote, 40, 0, 0, 0})}}})
	none("signed proposal response", &pv.Message{Sum: &pv.Message_SignedProposalResponse{SignedProposalResponse: &pv.SignedProposalResponse{}}})
	// damaged frames
	raw := func(name string, b []byte) { out = append(out, rawReq(name, b)) }
	uv := func(n uint64) []byte { b := make([]byte, 10); return b[:binary.PutUvarint(b, n)] }
	raw("frame of zeros", append(uv(8), make([]byte, 8)...))
	raw("garbage in a frame", append(uv(6), 0xff, 0xff, 0xff, 0xff, 0xff, 0xff))
	raw("unknown field", append(uv(4), 0x7a, 0x02, 0x01, 0x02))
	raw("10241 bytes", append(uv(10241), bytes.Repeat([]byte{1}, 10241)...))
	raw("1 MB announced", uv(1<<20))
	raw("2^31 announced", uv(1<<31))
	raw("2^63 announced", uv(1<<63))
	raw("2^64-1 announced", uv(math.MaxUint64))
	raw("endless length", bytes.Repeat([]byte{0xff}, 12))
	raw("vote with a broken body", append(uv(4), 0x1a, 0x05, 0x0a, 0x10))
	raw("vote with a broken vote", append(uv(6), 0x1a, 0x04, 0x0a, 0x02, 0x2a, 0x7f))
	// a time that is out of range, and a wrong wire type
	raw("vote with seconds out of range", badTimeVote(math.MaxInt64, 0))
	raw("vote with nanoseconds out of range", badTimeVote(1, 2000000000))
	raw("wrong wire type", append(uv(2), 0x18, 0x01))
	return out
}

// badTimeVote encodes a vote request with the given seconds and nanoseconds by hand.
func badTimeVote(sec int64, nano int64) []byte {
	var ts []byte
	b := make([]byte, 10)
	put := func(dst []byte, tag byte, v uint64) []byte {
		return append(append(dst, tag), b[:binary.PutUvarint(b, v)]...)
	}
	ts = put(ts, 0x08, uint64(sec))
	ts = put(ts, 0x10, uint64(nano))
	lenp := func(tag byte, body []byte) []byte {
		return append(append([]byte{tag}, b[:binary.PutUvarint(b, uint64(len(body)))]...), body...)
	}
	vote := append([]byte{0x08, 0x01, 0x10, 0x28}, lenp(0x2a, ts)...)
	rq := lenp(0x0a, vote)
	msg := lenp(0x1a, rq)
	return append(append([]byte{}, b[:binary.PutUvarint(b, uint64(len(msg)))]...), msg...)
}

// judge one reply. It returns a class for the outcome.
func (e *sentry) judge(r req, m pv.Message) string {
	x := e.sys.x
	wrong := func(f string, a ...interface{}) string {
		x.Failf("wrong reply", "%s: the reply to %s %s", e.name, r.name, fmt.Sprintf(f, a...))
		return "wrong"
	}
	errOf := func(e *pv.RemoteSignerError) string {
		if e == nil {
			return ""
		}
		return "err"
	}
	if r.msg == nil || r.msg.Sum == nil {
		if m.Sum != nil {
			return wrong("is %v", m)
		}
		return "empty"
	}
	switch q := r.msg.Sum.(type) {
	case *pv.Message_PingRequest:
		if m.GetPingResponse() == nil {
			return wrong("is %v", m)
		}
		return "pong"
	case *pv.Message_PubKeyRequest:
		k := m.GetPubKeyResponse()
		if k == nil {
			return wrong("is %v", m)
		}
		if errOf(k.Error) != "" {
			if st := e.sys.stub; st != nil && st.noKey != nil && samePb(&k.PubKey, &tmcrypto.PublicKey{}) {
				return "nokey"
			}
			return wrong("is the error %v", k.Error)
		}
		pk, err := cryptoenc.PubKeyFromProto(k.PubKey)
		if err != nil || !pk.Equals(e.sys.pub) {
			return wrong("holds another key: %v", k)
		}
		return "key"
	case *pv.Message_SignVoteRequest:
		a := m.GetSignedVoteResponse()
		if a == nil {
			return wrong("is %v", m)
		}
		if c := errOf(a.Error); c != "" {
			if !samePb(&a.Vote, &tmProto.Vote{}) {
				return wrong("is an error (%v) and carries a vote %v", a.Error, a.Vote)
			}
			return c
		}
		if r.bad && e.sys.stub == nil {
			return wrong("is a signed vote: %v", a)
		}
		in := *q.SignVoteRequest.Vote
		out := a.Vote
		if !e.sys.verify(tm.VoteSignBytes(chain, &out), out.Signature) {
			return wrong("has an invalid signature")
		}
		if e.sys.stub == nil {
			in.Timestamp = out.Timestamp
		}
		in.Signature = out.Signature
		if !samePb(&in, &out) {
			return wrong("is for something else: %v instead of %v", out, in)
		}
		return "sig"
	case *pv.Message_SignProposalRequest:
		a := m.GetSignedProposalResponse()
		if a == nil {
			return wrong("is %v", m)
		}
		if c := errOf(a.Error); c != "" {
			if !samePb(&a.Proposal, &tmProto.Proposal{}) {
				return wrong("is an error (%v) and carries a proposal %v", a.Error, a.Proposal)
			}
			return c
		}
		if r.bad && e.sys.stub == nil {
			return wrong("is a signed proposal: %v", a)
		}
		in := *q.SignProposalRequest.Proposal
		out := a.Proposal
		if e.sys.stub == nil {
			in.Timestamp = out.Timestamp
		}
		in.Signature = out.Signature
		// at a position that is already signed the recorded signature is returned
		if e.sys.stub != nil && !e.sys.verify(tm.ProposalSignBytes(chain, &out), out.Signature) {
			return wrong("has an invalid signature")
		}
		if !samePb(&in, &out) {
			return wrong("is for something else: %v instead of %v", out, in)
		}
		return "sig"
	default:
		if m.Sum != nil {
			return wrong("is %v", m)
		}
		return "empty"
	}
}

// exchange sends requests in one go (or byte by byte) and reads one reply for each.
func (e *sentry) exchange(rs []req) string {
	var o []string
	if e.c == nil && !e.accept() {
		return "gone"
	}
	var all []byte
	for _, r := range rs {
		all = append(all, r.raw...)
	}
	e.write(all)
	for i, r := range rs {
		m, closed, err := e.read(60 * time.Second)
		if vsched.IsCrashed(e.sys.node) {
			e.sys.x.Failf("the signer dies", "%s: %s kills the signer", e.name, r.name)
			return "dead"
		}
		if closed {
			if !r.mayClose {
				e.sys.x.Failf("connection closed", "%s: the signer closes the connection instead of answering %s", e.name, r.name)
			}
			e.c.Close()
			e.c = nil
			if !e.accept() {
				return "gone"
			}
			o = append(o, "closed")
			if i+1 < len(rs) {
				// what was sent after the damaged frame is gone with the connection
				o = append(o, e.exchange(rs[i+1:]))
			}
			return strings.Join(o, ",")
		}
		if err != nil {
			if r.mayClose && r.msg == nil {
				// an incomplete frame: the signer may wait for more
				e.c.Close()
				e.c = nil
				if !e.accept() {
					return "gone"
				}
				o = append(o, "waits")
				if i+1 < len(rs) {
					o = append(o, e.exchange(rs[i+1:]))
				}
				return strings.Join(o, ",")
			}
			e.sys.x.Failf("no reply", "%s: no reply to %s: %v", e.name, r.name, err)
			return "none"
		}
		o = append(o, e.judge(r, m))
	}
	return strings.Join(o, ",")
}

// quiet: nothing else arrives.
func (e *sentry) quiet() {
	vsched.IdleFor(10 * time.Second)
	if e.c != nil && len(e.c.Buffered()) > 0 {
		e.sys.x.Failf("more than one reply", "%s: %d bytes arrive without a request", e.name, len(e.c.Buffered()))
	}
}

func chunkOf(n int) func() int {
	if n == 0 {
		return nil
	}
	return func() int { return n }
}

// reqSeqs: all sequences of requests; each is also sent in one go, with every fragment size.
func reqSeqs(name string, weight float64, backend string, rs []req, depth int, chunks []int) Job {
	total := 1
	for i := 0; i < depth; i++ {
		total *= len(rs)
	}
	per := 2 * len(chunks)
	return Job{Name: name, Weight: weight, Run: func(c *Ctx) {
		EnumSim(c, total*per, vsched.Config{MaxSteps: 600000}, func(i int, x *X) {
			resetWorld()
			mode := i % per
			i /= per
			var seq []req
			for j := 0; j < depth; j++ {
				seq = append(seq, rs[i%len(rs)])
				i /= len(rs)
			}
			s := newSeSys(x, 1, backend)
			s.chunk = chunkOf(chunks[mode/2])
			e := s.se[0]
			for _, r := range seq {
				x.Note("%s", r.name)
			}
			x.Note("pipelined: %v, at most %d bytes per read", mode%2 == 1, chunks[mode/2])
			if mode%2 == 1 {
				x.Out("%s", e.exchange(seq))
			} else {
				for _, r := range seq {
					x.Out("%s", e.exchange([]req{r}))
				}
			}
			e.quiet()
			// and it goes on
			for _, r := range []req{goodReq("a final ping", pingReq()), goodReq("a final vote", voteReq(fullVote(P{prevote, math.MaxInt32, 0, 0, 0})))} {
				if o := e.exchange([]req{r}); o != "pong" && o != "sig" {
					x.Failf("no service afterwards", "%s is answered with %s", r.name, o)
				}
			}
			e.quiet()
		}, func(i int, x *X, r *vsched.Result) { failPanics(x, r) })
	}}
}

// cuts: the connection is lost after every byte of the request, and after every byte of the reply.
func cutJob(tier string) Job {
	rs := goodReqs()[:3]
	rs = append(rs, goodReqs()[6])
	type pt struct{ r, at, how int }
	var pts []pt
	for r := range rs {
		for at := 0; at <= len(rs[r].raw); at++ {
			for how := 0; how < 3; how++ {
				pts = append(pts, pt{r, at, how})
			}
		}
		for at := 0; at < 200; at++ {
			pts = append(pts, pt{r, at, 3})
		}
		pts = append(pts, pt{r, 0, 4}, pt{r, 0, 5})
	}
	return Job{Name: "lost connections", Weight: 1, Run: func(c *Ctx) {
		EnumSim(c, len(pts), vsched.Config{MaxSteps: 600000}, func(i int, x *X) {
			resetWorld()
			p := pts[i]
			s := newSeSys(x, 1, "stub")
			e := s.se[0]
			x.Note("%s, cut at %d, how %d", rs[p.r].name, p.at, p.how)
			if !e.accept() {
				return
			}
			switch p.how {
			case 0: // orderly close after some bytes of the request
				e.write(rs[p.r].raw[:p.at])
				e.c.Close()
			case 1: // reset
				e.write(rs[p.r].raw[:p.at])
				vsched.Idle()
				e.c.Abort()
			case 2: // a pause in the request, then the rest
				e.write(rs[p.r].raw[:p.at])
				vsched.IdleFor(20 * time.Second)
				e.write(rs[p.r].raw[p.at:])
				m, closed, err := e.read(60 * time.Second)
				if closed || err != nil {
					x.Failf("no reply", "a request sent in two pieces (%d bytes first) gets no reply: %v, closed %v", p.at, err, closed)
					return
				}
				x.Out("%s", e.judge(rs[p.r], m))
			case 3: // the reply cannot be written completely
				e.c.Peer().WriteErr = func(n int) (int, error) {
					if p.at >= n {
						return n, nil
					}
					return p.at, errors.New("write: connection reset by peer")
				}
				e.write(rs[p.r].raw)
				vsched.Idle()
			case 4: // closed before the reply is read
				e.write(rs[p.r].raw)
				e.c.Close()
			case 5: // the listener goes away for a while
				e.l.Close()
				e.c.Abort()
				vsched.IdleFor(30 * time.Second)
				l, err := vnet.Listen("tcp", e.addr())
				if err != nil {
					panic(err)
				}
				e.l = l.(*vnet.Listener)
			}
			if p.how != 2 {
				vsched.Idle()
				if !e.c.PeerClosed() && p.how != 3 {
					x.Failf("connection kept", "the signer keeps a lost connection")
				}
				if e.c.PeerClosed() || p.how != 3 {
					e.c = nil
				} else {
					// the whole reply fitted
					e.c.Peer().WriteErr = nil
					m, closed, err := e.read(time.Second)
					if closed || err != nil {
						x.Failf("no reply", "%v", err)
						return
					}
					e.judge(rs[p.r], m)
				}
			}
			x.Out("%d", e.n)
			if o := e.exchange([]req{rs[2]}); o != "sig" {
				x.Failf("no service afterwards", "a vote is answered with %s", o)
			}
			e.quiet()
		}, func(i int, x *X, r *vsched.Result) { failPanics(x, r) })
	}}
}

// dials: the first k dials or handshakes fail, for every k and mix, with another sentry being served meanwhile.
func dialJob(tier string) Job {
	depth := pick(tier, 6, 10)
	total := 1
	for i := 0; i < depth; i++ {
		total *= 3
	}
	return Job{Name: "failing dials", Weight: 0.5, Run: func(c *Ctx) {
		EnumSim(c, total, vsched.Config{MaxSteps: 600000}, func(i int, x *X) {
			resetWorld()
			var seq []int
			for j := 0; j < depth; j++ {
				seq = append(seq, i%3)
				i /= 3
			}
			x.Note("dials: %v (0 fine, 1 refused, 2 handshake fails)", seq)
			k := 0
			next := func() int {
				if k >= len(seq) {
					return 0
				}
				k++
				return seq[k-1]
			}
			hs := false
			vnet.DialHook = func(addr string) error {
				if !strings.Contains(addr, "1230") {
					return nil
				}
				switch next() {
				case 1:
					return errors.New("connect: connection refused")
				case 2:
					hs = true
				}
				return nil
			}
			vnet.SecretConnErr = func() error {
				if hs {
					hs = false
					return errors.New("handshake failed")
				}
				return nil
			}
			s := newSeSys(x, 2, "stub")
			if o := s.se[1].exchange([]req{goodReqs()[2]}); o != "sig" {
				x.Failf("no service", "the other sentry's vote is answered with %s", o)
			}
			e := s.se[0]
			// every connection is used for one ping and then lost, until all dials are through
			ok := false
			for try := 0; try < 4*len(seq)+4 && !ok; try++ {
				if e.c == nil && !e.accept() {
					return
				}
				last := k >= len(seq) && !hs
				r := goodReqs()[pick(map[bool]string{true: "quick", false: "thorough"}[last], 2, 0)]
				e.write(r.raw)
				m, closed, err := e.read(5 * time.Second)
				if !closed && err == nil {
					x.Out("%s", e.judge(r, m))
					ok = last
				}
				e.c.Close() // or one abandoned after a failed handshake
				e.c = nil
				if !ok {
					vsched.IdleFor(4 * time.Second)
				}
			}
			if !ok {
				x.Failf("does not reconnect", "no service after failing dials")
			}
		}, func(i int, x *X, r *vsched.Result) { failPanics(x, r) })
	}}
}

// stallJob: a sentry that stalls in the middle of anything does not hold up another one.
func stallJob() Job {
	r := goodReqs()[2]
	return Job{Name: "stalling sentry", Weight: 0.3, Run: func(c *Ctx) {
		EnumSim(c, 3*(len(r.raw)+1), vsched.Config{}, func(i int, x *X) {
			resetWorld()
			s := newSeSys(x, 3, "stub")
			at, how := i/3, i%3
			x.Note("stalls after %d bytes, how %d", at, how)
			a, b := s.se[0], s.se[1]
			switch how {
			case 0: // connected
				a.accept()
				a.write(r.raw[:at])
			case 1: // never accepts
			case 2: // the backend takes its time and the sentry leaves meanwhile
				s.stub.slow = 10 * time.Second
				a.accept()
				a.write(r.raw)
				vsched.IdleFor(time.Duration(at) * 100 * time.Millisecond)
				a.c.Close()
				a.c = nil
			}
			for _, q := range []req{goodReqs()[0], goodReqs()[6], goodReqs()[1]} {
				if o := b.exchange([]req{q}); o != "pong" && o != "sig" && o != "key" {
					x.Failf("held up by another sentry", "%s is answered with %s", q.name, o)
				}
				if o := s.se[2].exchange([]req{q}); o != "pong" && o != "sig" && o != "key" {
					x.Failf("held up by another sentry", "%s is answered with %s", q.name, o)
				}
			}
			switch how {
			case 0:
				a.write(r.raw[at:])
				m, closed, err := a.read(60 * time.Second)
				if closed || err != nil {
					x.Failf("no reply", "%v", err)
					return
				}
				x.Out("%s", a.judge(r, m))
			case 2:
				x.Out("%s", a.exchange([]req{r}))
			}
			a.quietIf()
			b.quiet()
		}, func(i int, x *X, r *vsched.Result) { failPanics(x, r) })
	}}
}

func (e *sentry) quietIf() {
	if e.c != nil {
		e.quiet()
	}
}

// errorsJob: the backend refuses.
func errorsJob() Job {
	errs := []error{errors.New("refused"), &signer.BeyondBlockError{}, errors.New(strings.Repeat("x", 20000)), &privval.RemoteSignerError{Code: 7, Description: "remote"}, fmt.Errorf("bad \xff bytes")}
	rs := goodReqs()
	return Job{Name: "refusing backend", Weight: 0.3, Run: func(c *Ctx) {
		EnumSim(c, len(errs)*len(rs)*2, vsched.Config{}, func(i int, x *X) {
			resetWorld()
			s := newSeSys(x, 1, "stub")
			e := s.se[0]
			want := errs[i%len(errs)]
			r := rs[i/len(errs)%len(rs)]
			s.stub.err = func(h int64) error { return want }
			s.stub.noKey = want
			if i/len(errs)/len(rs) == 1 {
				s.stub.slow = 20 * time.Second
			}
			x.Note("%s, backend says %.20q", r.name, want.Error())
			o := e.exchange([]req{r})
			x.Out("%s", o)
			signs := r.msg.GetSignVoteRequest() != nil || r.msg.GetSignProposalRequest() != nil
			if _, bb := want.(*signer.BeyondBlockError); signs && !bb && o != "err" {
				x.Failf("wrong reply", "the backend refuses %s, the reply is %s", r.name, o)
			}
			if r.msg.GetPubKeyRequest() != nil && o != "nokey" {
				x.Failf("wrong reply", "the backend has no key, the reply is %s", o)
			}
			s.stub.err, s.stub.noKey = nil, nil
			if o := e.exchange([]req{rs[2]}); o != "sig" {
				x.Failf("no service afterwards", "a vote is answered with %s", o)
			}
			e.quiet()
		}, func(i int, x *X, r *vsched.Result) { failPanics(x, r) })
	}}
}

// sentriesJob: several sentries at once under all interleavings up to the bound.
func sentriesJob(name string, weight float64, n int, backend string, stmt bool, bound int, plan [][]int) Job {
	sc := sentriesScn(name, n, backend, "", stmt, bound, plan)
	return Job{Name: name, Weight: weight, Run: func(c *Ctx) { sc.Explore(c) }}
}

// pairsJob: two sentries, wherever they are, ask any two things at the same time.
func pairsJob(weight float64, bound int) Job {
	return Job{Name: "two sentries, any two requests", Weight: weight, Run: func(c *Ctx) {
		rs := goodReqs()
		n := -1
		one := *c
		one.N, one.Shard = 1, 0
		for _, layout := range []string{"", sameHost, samePort} {
			for i := range rs {
				for j := i; j < len(rs); j++ {
					if n++; c.replay == nil && n%c.N != c.Shard {
						continue
					}
					name := strings.TrimSpace(fmt.Sprintf("%s and %s %s", rs[i].name, rs[j].name, layout))
					sentriesScn(name, 2, "stub", layout, false, bound, [][]int{{i}, {j}}).Explore(&one)
				}
			}
		}
	}}
}

func sentriesScn(name string, n int, backend, layout string, stmt bool, bound int, plan [][]int) *Scn {
	sc := &Scn{Name: name, Bound: bound, Kind: map[byte]int{vsched.KSched: bound}, Cfg: vsched.Config{MaxSteps: 600000}}
	if backend == "stub" && stmt {
		sc.Cfg.YieldFilter = ""
	}
	sc.Body = func(x *X) {
		resetWorld()
		s := newSeSysAt(x, n, backend, layout)
		rs := goodReqs()
		for _, e := range s.se {
			if !e.accept() {
				return
			}
		}
		vsched.Idle()
		vsched.SetStmtYield(stmt)
		outs := make([]string, n)
		var ts []*vsched.Task
		for i := range s.se {
			i := i
			ts = append(ts, vsched.GoOn("sentry", s.se[i].name, func() {
				for _, k := range plan[i] {
					outs[i] += s.se[i].exchange([]req{rs[k]}) + " "
				}
			}))
		}
		vsched.Join(ts...)
		vsched.SetStmtYield(false)
		for _, e := range s.se {
			e.quiet()
		}
		x.Out("%s", strings.Join(outs, "/"))
		want := 0
		for _, p := range plan {
			for _, k := range p {
				if k != 0 {
					want++
				}
			}
		}
		if s.stub != nil && s.stub.calls != want {
			x.Failf("backend calls", "%d requests made %d calls", want, s.stub.calls)
		}
	}
	sc.After = func(x *X, r *vsched.Result) { failPanics(x, r) }
	return sc
}

// framing: the codec alone on every fragmentation of every message.
func framingJob() Job {
	var rs []req
	for _, r := range append(goodReqs(), nonsense()...) {
		if r.msg != nil {
			rs = append(rs, r)
		}
	}
	return Job{Name: "framing", Weight: 0.3, Run: func(c *Ctx) {
		Enum(c, len(rs), func(i int, x *X) {
			r := rs[i]
			x.Note("%s", r.name)
			var w bytes.Buffer
			if err := signer.WriteMsg(&w, *r.msg); err != nil || !bytes.Equal(w.Bytes(), r.raw) {
				x.Failf("written differently", "%s: %v", r.name, err)
			}
			for a := 0; a <= len(r.raw) && a < 400; a++ {
				for k := 1; k <= 3; k++ {
					rd := &chopped{b: append(append([]byte{}, r.raw...), r.raw...), first: a, next: k}
					for m := 0; m < 2; m++ {
						got, err := signer.ReadMsg(rd)
						if err != nil || !bytes.Equal(frame(&got), r.raw) {
							x.Failf("read differently", "%s in pieces of %d and %d, message %d: %v", r.name, a, k, m, err)
							return
						}
					}
				}
			}
			for a := 0; a < len(r.raw); a++ {
				if _, err := signer.ReadMsg(bytes.NewReader(r.raw[:a])); err == nil {
					x.Failf("partial message accepted", "%s cut after %d bytes", r.name, a)
				}
			}
			x.Out("ok")
		})
	}}
}

// chopped is a reader that returns first bytes, then next bytes at a time.
type chopped struct {
	b           []byte
	first, next int
}

func (c *chopped) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, errors.New("EOF")
	}
	n := c.next
	if c.first > 0 {
		n = c.first
		c.first = 0
	}
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], c.b)
	c.b = c.b[n:]
	return n, nil
}

func init() {
	register(&Check{ID: "C12", Assumptions: []string{
		"the encrypted handshake with a sentry is a stand-in; framing, dispatch and reconnecting are the real code",
		"a message that is no request may be answered with an empty message or by closing the connection",
	}, Jobs: func(tier string) []Job {
		_ = tmcrypto.PublicKey{}
		good, odd := goodReqs(), nonsense()
		both := append(append([]req{}, good[0], good[2], good[6]), odd...)
		return []Job{
			framingJob(),
			reqSeqs("requests, recording backend", 2, "stub", good, pick(tier, 4, 5), []int{0, 1, 3, 7}),
			reqSeqs("requests, cluster backend", 2, "cluster", good, pick(tier, 4, 5), []int{0}),
			reqSeqs("hostile messages, recording backend", 3, "stub", both, 2, []int{0, 1, 50}),
			reqSeqs("hostile messages, cluster backend", 4, "cluster", both, 2, []int{0, 1}),
			cutJob(tier), wornSentry("stub", pick(tier, 1100, 5000)), wornSentry("cluster", pick(tier, 300, 2000)), dialJob(tier), wornDials(), stallJob(), errorsJob(),
			pairsJob(2, pick(tier, 2, 3)),
			sentriesJob("two sentries", 2, 2, "stub", true, pick(tier, 2, 3), [][]int{{2, 0}, {6, 1}}),
			sentriesJob("three sentries", 2, 3, "stub", true, pick(tier, 2, 3), [][]int{{2, 1}, {2, 4}, {6}}),
			sentriesJob("two sentries, cluster backend", 2, 2, "cluster", false, pick(tier, 1, 2), [][]int{{2, 4}, {2, 3}}),
		}
	}})
}

func samePb(a, b marshaler) bool { return bytes.Equal(mustMarshal(a), mustMarshal(b)) }
