package main

import (
	"bytes"
	"crypto/rsa"
	"encoding/binary"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/vsim/vgrpc"
	"github.com/strangelove-ventures/horcrux/vsim/vnet"
	"github.com/strangelove-ventures/horcrux/vsim/vos"
	"github.com/strangelove-ventures/horcrux/vsim/vraft"
	"github.com/strangelove-ventures/horcrux/vsim/vrand"
	"github.com/strangelove-ventures/horcrux/vsim/vrsa"
	"github.com/strangelove-ventures/horcrux/vsim/vsched"
	"github.com/tendermint/tendermint/crypto/ed25519"
	tmlog "github.com/tendermint/tendermint/libs/log"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
	tm "github.com/tendermint/tendermint/types"
	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"
)

const chain = "chain-1"

// ---- payloads ----

const (
	prevote   = 1
	precommit = 2
	proposal  = 32
)

// P is a payload to sign.
type P struct {
	Typ int
	H   int64
	R   int32
	V   int // block variant
	T   int // timestamp index
}

func (p P) String() string {
	n := map[int]string{prevote: "prevote", precommit: "precommit", proposal: "proposal"}[p.Typ]
	return fmt.Sprintf("%s %d/%d block%d t%d", n, p.H, p.R, p.V, p.T)
}

func (p P) Step() int8 {
	switch p.Typ {
	case prevote:
		return 2
	case precommit:
		return 3
	}
	return 1
}

// HRS of the payload.
type HRS struct {
	H int64
	R int64
	S int8
}

func (a HRS) Less(b HRS) bool {
	if a.H != b.H {
		return a.H < b.H
	}
	if a.R != b.R {
		return a.R < b.R
	}
	return a.S < b.S
}

func (p P) HRS() HRS { return HRS{p.H, int64(p.R), p.Step()} }

func (p P) Key() signer.HRSTKey {
	return signer.HRSTKey{Height: p.H, Round: int64(p.R), Step: p.Step(), Timestamp: p.Time().UnixNano()}
}

func (p P) Time() time.Time {
	base := time.Date(2022, 1, 1, 0, 0, 0, 0, time.UTC)
	if p.T == tWrap {
		// 2^64 ns later: a different time with the same 64 bit nanosecond count
		return base.Add(math.MaxInt64).Add(math.MaxInt64).Add(2)
	}
	switch p.T {
	case 20:
		return time.Unix(0, 0).UTC()
	case 21:
		return time.Unix(0, math.MaxInt64).UTC()
	case 22:
		return time.Unix(-1, 999999999).UTC()
	case 23:
		return base.Add(999999999)
	case 24:
		return time.Unix(0, math.MinInt64).UTC()
	}
	return base.Add(time.Duration(p.T)*1500*time.Millisecond + time.Duration(p.T))
}

// tWrap is the timestamp index of a time 2^64 ns after index 0.
const tWrap = 9

// vNonCanon is block 0 encoded with an additional unknown field.
const vNonCanon = 7

func hash(b byte) []byte { return bytes.Repeat([]byte{b}, 32) }

// BlockID of a variant.
func blockID(v int) tmProto.BlockID {
	switch v {
	case 0, 6, vNonCanon:
		return tmProto.BlockID{Hash: hash(0xaa), PartSetHeader: tmProto.PartSetHeader{Total: 1, Hash: hash(0xa1)}}
	case 1:
		return tmProto.BlockID{Hash: hash(0xbb), PartSetHeader: tmProto.PartSetHeader{Total: 1, Hash: hash(0xb1)}}
	case 2:
		return tmProto.BlockID{}
	case 3:
		return tmProto.BlockID{Hash: hash(0xaa), PartSetHeader: tmProto.PartSetHeader{Total: 2, Hash: hash(0xa1)}}
	case 4:
		return tmProto.BlockID{Hash: hash(0xaa), PartSetHeader: tmProto.PartSetHeader{Total: 1, Hash: hash(0xa2)}}
	}
	switch v {
	case 10:
		return tmProto.BlockID{Hash: hash(0xaa)}
	case 11:
		return tmProto.BlockID{PartSetHeader: tmProto.PartSetHeader{Total: 1, Hash: hash(0xa1)}}
	case 12:
		return tmProto.BlockID{Hash: hash(0xaa), PartSetHeader: tmProto.PartSetHeader{Hash: hash(0xa1)}}
	}
	return tmProto.BlockID{Hash: hash(byte(v)), PartSetHeader: tmProto.PartSetHeader{Total: 1, Hash: hash(0xa1)}}
}

func (p P) Vote() *tmProto.Vote {
	return &tmProto.Vote{Type: tmProto.SignedMsgType(p.Typ), Height: p.H, Round: p.R, BlockID: blockID(p.V), Timestamp: p.Time(),
		ValidatorAddress: bytes.Repeat([]byte{7}, 20), ValidatorIndex: 3}
}

func (p P) Proposal() *tmProto.Proposal {
	v, pol := p.V, int32(-1)
	if v == 5 {
		v, pol = 0, 0
	}
	return &tmProto.Proposal{Type: tmProto.ProposalType, Height: p.H, Round: p.R, PolRound: pol, BlockID: blockID(v), Timestamp: p.Time()}
}

// ChainOf the payload: variant 6 belongs to another chain.
func (p P) ChainOf() string {
	if p.V == 6 {
		return "chain-2"
	}
	return chain
}

func (p P) SignBytes() []byte {
	var b []byte
	if p.Typ == proposal {
		b = tm.ProposalSignBytes(p.ChainOf(), p.Proposal())
	} else {
		b = tm.VoteSignBytes(p.ChainOf(), p.Vote())
	}
	if p.V == vNonCanon {
		n, k := binary.Uvarint(b)
		body := append(append([]byte{}, b[k:]...), 0xa8, 0x06, 0x01) // field 101, varint 1
		pre := make([]byte, 10)
		b = append(pre[:binary.PutUvarint(pre, n+3)], body...)
	}
	return b
}

// Same reports equality of everything but the timestamp.
func (p P) Same(q P) bool {
	p.T, q.T = 0, 0
	if p.V == vNonCanon {
		p.V = 0
	}
	if q.V == vNonCanon {
		q.V = 0
	}
	return p == q
}

// ---- keys ----

type Keys struct {
	T, N   int
	Priv   ed25519.PrivKey
	Shares []signer.CosignerKey
}

var keyCache = map[[2]int]*Keys{}

func keysFor(t, n int) *Keys {
	k := keyCache[[2]int{t, n}]
	if k != nil {
		return k
	}
	priv := ed25519.GenPrivKeyFromSecret([]byte(fmt.Sprintf("validator %d of %d", t, n)))
	k = &Keys{T: t, N: n, Priv: priv}
	sh := tsed25519.DealShares(tsed25519.ExpandSecret(priv[:32]), uint8(t), uint8(n))
	var pubs []*rsa.PublicKey
	for i := 0; i < n; i++ {
		pubs = append(pubs, &vrsa.Key(i).PublicKey)
	}
	for i := 0; i < n; i++ {
		k.Shares = append(k.Shares, signer.CosignerKey{PubKey: priv.PubKey(), ShareKey: sh[i], ID: i + 1, RSAKey: *vrsa.Key(i), CosignerKeys: pubs})
	}
	keyCache[[2]int{t, n}] = k
	return k
}

func (k *Keys) peers() (out []signer.CosignerPeer) {
	for i := range k.Shares {
		out = append(out, signer.CosignerPeer{ID: i + 1, PublicKey: *k.Shares[0].CosignerKeys[i]})
	}
	return
}

// ---- single cosigner ----

func shareFile(id int) string { return fmt.Sprintf("/n%d/state/%s_share_sign_state.json", id, chain) }
func pvFile(id int) string    { return fmt.Sprintf("/n%d/state/%s_priv_validator_state.json", id, chain) }

// loadState loads a state file, creating it first if it never existed.
func loadState(f string) (*signer.SignState, error) {
	if vos.Get(f) == nil {
		vos.MkdirAll(f[:strings.LastIndex(f, "/")], 0755)
		st, err := signer.LoadOrCreateSignState(f)
		return &st, err
	}
	st, err := signer.LoadSignState(f)
	return &st, err
}

func newLocal(k *Keys, id int, st *signer.SignState) *signer.LocalCosigner {
	return signer.NewLocalCosigner(signer.LocalCosignerConfig{
		CosignerKey: k.Shares[id-1],
		SignState:   st,
		RsaKey:      k.Shares[id-1].RSAKey,
		Peers:       k.peers(),
		Address:     addrOf(id),
		Total:       uint8(k.N),
		Threshold:   uint8(k.T),
	})
}

func addrOf(id int) string   { return fmt.Sprintf("tcp://node%d:%d", id, 2220+id) }
func nodeName(id int) string { return fmt.Sprintf("n%d", id) }

// ---- cluster ----

type Node struct {
	id    int
	name  string
	local *signer.LocalCosigner
	tv    *signer.ThresholdValidator
	store *signer.RaftStore
	pv    tm.PrivValidator
}

type Cluster struct {
	K     *Keys
	x     *X
	Nodes []*Node // index id-1
	Log   tmlog.Logger
}

func resetWorld() {
	signerVars.reset()
	vos.Reset()
	vnet.Reset()
	vgrpc.Reset()
	vraft.Reset()
	vraft.Lossy = nil
	members = nil
	vsched.OnCrash = []func(string){vnet.CloseNode}
	vrsa.Fast = true
	vrand.FailAfter = -1
}

var signerVars = globals{at: signer.VsimGlobals}

// members are the share IDs that are in the cluster, nil: all.
var members []int

func member(id int) bool {
	for _, m := range members {
		if m == id {
			return true
		}
	}
	return members == nil
}

// peerOrder is the order in which nodes list their peers, nil: by id.
var peerOrder []int

// NewCluster starts an n node cluster; must be called inside the scheduler.
func NewCluster(x *X, t, n int) *Cluster {
	c := &Cluster{K: keysFor(t, n), x: x, Log: tmlog.NewNopLogger()}
	for i := 1; i <= n; i++ {
		c.Nodes = append(c.Nodes, nil)
	}
	for i := 1; i <= n; i++ {
		if !member(i) {
			continue
		}
		if err := c.Start(i); err != nil {
			panic(err)
		}
	}
	vsched.Idle()
	return c
}

// Start starts (or restarts) a node from its files.
func (c *Cluster) Start(id int) error {
	vsched.Revive(nodeName(id))
	old := vsched.SetNode(nodeName(id))
	defer vsched.SetNode(old)
	n := &Node{id: id, name: nodeName(id)}
	pvst, err := loadState(pvFile(id))
	if err != nil {
		return err
	}
	sst, err := loadState(shareFile(id))
	if err != nil {
		return err
	}
	n.local = newLocal(c.K, id, sst)
	var peers []signer.Cosigner
	order := peerOrder
	for j := 1; j <= c.K.N && peerOrder == nil; j++ {
		order = append(order, j)
	}
	for _, j := range order {
		if j != id && member(j) {
			peers = append(peers, signer.NewRemoteCosigner(j, addrOf(j)))
		}
	}
	n.store = signer.NewRaftStore(fmt.Sprint(id), fmt.Sprintf("/n%d/raft", id), addrOf(id), time.Second, c.Log, n.local, peers)
	n.tv = signer.NewThresholdValidator(&signer.ThresholdValidatorOpt{
		Pubkey:    c.K.Priv.PubKey(),
		Threshold: c.K.T,
		SignState: *pvst,
		Cosigner:  n.local,
		Peers:     peers,
		RaftStore: n.store,
		Logger:    c.Log,
	})
	n.store.SetThresholdValidator(n.tv)
	if err := n.store.Start(); err != nil {
		return err
	}
	n.pv = &signer.PvGuard{PrivValidator: n.tv}
	c.Nodes[id-1] = n
	// let the server come up before anybody uses it
	vsched.Block(func() bool { return vgrpc.Serving(fmt.Sprintf("node%d:%d", id, 2220+id)) }, "server start")
	return nil
}

// Crash kills a node.
func (c *Cluster) Crash(id int) {
	vsched.Crash(nodeName(id))
	if n := vraft.C.Nodes[fmt.Sprint(id)]; n != nil {
		delete(vraft.C.Nodes, fmt.Sprint(id))
	}
}

// Res of a signing request.
type Res struct {
	P    P
	Node int
	Sig  []byte
	Time time.Time
	Err  error
	Dur  time.Duration
	Done bool
	Vote *tmProto.Vote
	Prop *tmProto.Proposal
	Seq  int
	Lost bool // the node died meanwhile
}

func (r *Res) Class() string {
	if !r.Done {
		return "lost"
	}
	if r.Err != nil {
		return "ERR"
	}
	return "ok"
}

// Sign asks node id to sign and waits for the answer (or the node's death).
func (c *Cluster) Sign(id int, p P) *Res {
	r, t := c.SignAsync(id, p)
	vsched.Join(t)
	return r
}

// SignAsync starts a request.
func (c *Cluster) SignAsync(id int, p P) (*Res, *vsched.Task) {
	r := &Res{P: p, Node: id}
	n := c.Nodes[id-1]
	start := vsched.Now()
	t := vsched.GoOn(n.name, fmt.Sprintf("req.%d.%s", id, p), func() {
		signOn(n.pv, r)
		r.Dur = time.Duration(vsched.Now() - start)
		r.Done = true
		if vsched.Trace() {
			vsched.Log("answer of node %d for %s: sig %x err %v", id, p, head(r.Sig), r.Err)
		}
	})
	return r, t
}

func head(b []byte) []byte {
	if len(b) > 6 {
		return b[:6]
	}
	return b
}

func signOn(pv tm.PrivValidator, r *Res) {
	p := r.P
	if p.Typ == proposal {
		v := p.Proposal()
		r.Prop = v
		r.Err = pv.SignProposal(chain, v)
		r.Sig, r.Time = v.Signature, v.Timestamp
	} else {
		v := p.Vote()
		r.Vote = v
		r.Err = pv.SignVote(chain, v)
		r.Sig, r.Time = v.Signature, v.Timestamp
	}
}

// ReturnedBytes are the canonical bytes of what was returned.
func (r *Res) ReturnedBytes() []byte {
	if r.Prop != nil {
		return tm.ProposalSignBytes(chain, r.Prop)
	}
	return tm.VoteSignBytes(chain, r.Vote)
}

// Verify the signature over bytes.
func (c *Cluster) Verify(b, sig []byte) bool {
	return len(sig) == 64 && c.K.Priv.PubKey().VerifySignature(b, sig)
}
