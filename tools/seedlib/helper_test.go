package signer

import (
	"crypto/rand"
	"crypto/rsa"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/stretchr/testify/require"
	tmCryptoEd25519 "github.com/tendermint/tendermint/crypto/ed25519"
	tmlog "github.com/tendermint/tendermint/libs/log"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
	tm "github.com/tendermint/tendermint/types"
	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"
)

const demoChain = "demo-chain"

// demoCluster is a set of cosigners with one validator on top of the first.
type demoCluster struct {
	pub       tmCryptoEd25519.PubKey
	keys      []CosignerKey
	rsaKeys   []*rsa.PrivateKey
	peers     []CosignerPeer
	total     uint8
	threshold uint8
	dir       string
	cosigners []*LocalCosigner
	validator *ThresholdValidator
	store     *RaftStore
}

func newDemoCluster(t *testing.T, threshold, total uint8) *demoCluster {
	c := &demoCluster{total: total, threshold: threshold, dir: t.TempDir()}
	private := tmCryptoEd25519.GenPrivKey()
	c.pub = private.PubKey().(tmCryptoEd25519.PubKey)
	var seed [64]byte
	copy(seed[:], private[:])
	shares := tsed25519.DealShares(tsed25519.ExpandSecret(seed[:32]), threshold, total)
	for i := 0; i < int(total); i++ {
		k, err := rsa.GenerateKey(rand.Reader, 2048)
		require.NoError(t, err)
		c.rsaKeys = append(c.rsaKeys, k)
		c.peers = append(c.peers, CosignerPeer{ID: i + 1, PublicKey: k.PublicKey})
		c.keys = append(c.keys, CosignerKey{PubKey: c.pub, ShareKey: shares[i], ID: i + 1})
	}
	for i := 1; i <= int(total); i++ {
		c.cosigners = append(c.cosigners, c.start(t, i))
	}
	return c
}

func (c *demoCluster) shareFile(id int) string {
	return filepath.Join(c.dir, fmt.Sprintf("share_%d.json", id))
}

// start (re)starts cosigner id from its state file.
func (c *demoCluster) start(t *testing.T, id int) *LocalCosigner {
	st, err := LoadOrCreateSignState(c.shareFile(id))
	require.NoError(t, err)
	return NewLocalCosigner(LocalCosignerConfig{CosignerKey: c.keys[id-1], SignState: &st, RsaKey: *c.rsaKeys[id-1],
		Peers: c.peers, Total: c.total, Threshold: c.threshold, Address: fmt.Sprintf("tcp://10.0.0.%d:2222", id)})
}

// lead puts a validator and a single node raft on top of the first cosigner.
func (c *demoCluster) lead(t *testing.T, peers ...Cosigner) {
	c.store = NewRaftStore("1", t.TempDir(), "127.0.0.1:0", time.Second, tmlog.NewNopLogger(), c.cosigners[0], nil)
	st, err := LoadOrCreateSignState(filepath.Join(c.dir, "pv.json"))
	require.NoError(t, err)
	c.validator = NewThresholdValidator(&ThresholdValidatorOpt{Pubkey: c.pub, Threshold: int(c.threshold), SignState: st,
		Cosigner: c.cosigners[0], Peers: peers, RaftStore: c.store, Logger: tmlog.NewNopLogger()})
	c.store.SetThresholdValidator(c.validator)
	_, err = c.store.Open()
	require.NoError(t, err)
	for i := 0; c.store.GetLeader() == "" && i < 100; i++ {
		time.Sleep(100 * time.Millisecond)
	}
	require.NotEqual(t, "", string(c.store.GetLeader()))
	time.Sleep(200 * time.Millisecond)
}

func demoVote(typ tmProto.SignedMsgType, height int64, round int32, block byte, at int64) *tmProto.Vote {
	hash := make([]byte, 32)
	for i := range hash {
		hash[i] = block
	}
	return &tmProto.Vote{Type: typ, Height: height, Round: round, Timestamp: time.Unix(1700000000, at).UTC(),
		BlockID: tmProto.BlockID{Hash: hash, PartSetHeader: tmProto.PartSetHeader{Total: 1, Hash: hash}}}
}

func demoBytes(v *tmProto.Vote) []byte { return tm.VoteSignBytes(demoChain, v) }

func demoHRST(t *testing.T, signBytes []byte) HRSTKey {
	k, err := UnpackHRST(signBytes)
	require.NoError(t, err)
	return k
}

// partFor is the nonce part of cosigner "from" for cosigner "to".
func (c *demoCluster) partFor(t *testing.T, from, to int, k HRSTKey) CosignerEphemeralSecretPart {
	res, err := c.cosigners[from-1].GetEphemeralSecretParts(k)
	require.NoError(t, err)
	for _, p := range res.EncryptedSecrets {
		if p.DestinationID == to {
			return p
		}
	}
	t.Fatal("no part")
	return CosignerEphemeralSecretPart{}
}

// signAt asks cosigner "at" for its share with the parts of the given others.
func (c *demoCluster) signAt(t *testing.T, at int, signBytes []byte, others ...int) (*CosignerSignResponse, error) {
	k := demoHRST(t, signBytes)
	_, err := c.cosigners[at-1].GetEphemeralSecretParts(k)
	require.NoError(t, err)
	req := CosignerSetEphemeralSecretPartsAndSignRequest{HRST: k, SignBytes: signBytes}
	for _, o := range others {
		req.EncryptedSecrets = append(req.EncryptedSecrets, c.partFor(t, o, at, k))
	}
	return c.cosigners[at-1].SetEphemeralSecretPartsAndSign(req)
}

func demoFreePort(t *testing.T) int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	require.NoError(t, err)
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

var _ = os.Getpid
