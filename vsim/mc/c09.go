package main

import (
	"bytes"
	"crypto/x509"
	"encoding/json"
	"fmt"
	"math"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/vsim/vos"
	"github.com/strangelove-ventures/horcrux/vsim/vrsa"
	"github.com/strangelove-ventures/horcrux/vsim/vsched"
	"github.com/tendermint/tendermint/crypto/ed25519"
	tmjson "github.com/tendermint/tendermint/libs/json"
	"github.com/tendermint/tendermint/privval"
	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"
)

// C09: key splitting.

func splitKey(i int) ed25519.PrivKey {
	return ed25519.GenPrivKeyFromSecret([]byte(fmt.Sprint("split", i)))
}

// split deals shares, guarding against panics.
func split(priv ed25519.PrivKey, t, n int64) (out []signer.CosignerKey, err error, crash interface{}) {
	defer func() { crash = recover() }()
	vrsa.ResetPool()
	vrsa.Requested = nil
	out, err = signer.CreateCosignerShares(privval.FilePVKey{Address: priv.PubKey().Address(), PubKey: priv.PubKey(), PrivKey: priv}, t, n)
	return
}

// refusedShares tells why shares cannot be made.
func refusedShares(t, n int64) string {
	switch {
	case t < 2:
		return "the threshold is below 2"
	case t > n:
		return "the threshold is above the number of shares"
	case n > 255:
		return "there are more than 255 shares"
	case t <= n/2:
		return "the threshold is not more than half of the shares"
	}
	return ""
}

func sameKey(a, b signer.CosignerKey) string {
	switch {
	case a.ID != b.ID:
		return fmt.Sprintf("ID %d and %d", a.ID, b.ID)
	case a.PubKey == nil || b.PubKey == nil || !a.PubKey.Equals(b.PubKey):
		return fmt.Sprintf("public key %v and %v", a.PubKey, b.PubKey)
	case !bytes.Equal(a.ShareKey, b.ShareKey):
		return fmt.Sprintf("share %x and %x", a.ShareKey, b.ShareKey)
	case !a.RSAKey.Equal(&b.RSAKey):
		return "RSA keys"
	case len(a.CosignerKeys) != len(b.CosignerKeys):
		return "numbers of transport keys"
	}
	for i := range a.CosignerKeys {
		if !a.CosignerKeys[i].Equal(b.CosignerKeys[i]) {
			return fmt.Sprintf("transport key %d", i+1)
		}
	}
	return ""
}

// checkSet checks the shares dealt for a key as a set, and each through a file.
func checkSet(x *X, priv ed25519.PrivKey, t, n int64, ks []signer.CosignerKey) {
	if len(ks) != int(n) {
		x.Failf("wrong number of shares", "%d shares for %d of %d", len(ks), t, n)
		return
	}
	for i, bits := range vrsa.Requested {
		if bits < 2048 {
			x.Failf("weak transport key", "key %d of %d has %d bits", i+1, n, bits)
		}
	}
	for i, k := range ks {
		if k.ID != i+1 {
			x.Failf("shares not numbered 1..n", "share %d of %d of %d has ID %d", i+1, t, n, k.ID)
		}
		if k.PubKey == nil || !k.PubKey.Equals(priv.PubKey()) {
			x.Failf("share carries another public key", "%v", k.PubKey)
		}
		if len(k.ShareKey) != 32 {
			x.Failf("share of another length", "%d bytes", len(k.ShareKey))
		}
		if len(k.CosignerKeys) != int(n) {
			x.Failf("transport keys do not match", "share %d of %d of %d lists %d keys", i+1, t, n, len(k.CosignerKeys))
			continue
		}
		for j := range ks {
			if !k.CosignerKeys[j].Equal(&ks[j].RSAKey.PublicKey) {
				x.Failf("transport keys do not match", "key %d in share %d of %d of %d is not the one of share %d", j+1, i+1, t, n, j+1)
			}
			if j != i && ks[j].RSAKey.Equal(&k.RSAKey) {
				x.Failf("transport keys shared", "shares %d and %d", i+1, j+1)
			}
		}
		if err := k.RSAKey.Validate(); err != nil {
			x.Failf("broken RSA key", "%v", err)
		}
		file := fmt.Sprintf("/share_%d.json", k.ID)
		if err := signer.WriteCosignerShareFile(k, file); err != nil {
			x.Failf("share file not written", "%v", err)
			continue
		}
	}
	for i, k := range ks {
		l, err := signer.LoadCosignerKey(fmt.Sprintf("/share_%d.json", k.ID))
		if err != nil {
			x.Failf("share file does not load", "share %d: %v", i+1, err)
			continue
		}
		if d := sameKey(k, l); d != "" {
			x.Failf("share file differs from the share", "share %d of %d of %d: %s", i+1, t, n, d)
		}
	}
}

// signWith makes the signature the members would make together.
func signWith(ks []signer.CosignerKey, ids []int, t int, msg []byte) []byte {
	n := len(ks)
	eph := make([]tsed25519.Scalar, 0, len(ids))
	var pubs []tsed25519.Element
	dealt := map[int][]tsed25519.Scalar{}
	for _, id := range ids {
		secret := bytes.Repeat([]byte{byte(id)}, 31)
		secret = append(secret, 1)
		pubs = append(pubs, tsed25519.ScalarMultiplyBase(secret))
		dealt[id] = tsed25519.DealShares(secret, uint8(t), uint8(n))
	}
	ephPub := tsed25519.AddElements(pubs)
	var sigs [][]byte
	for _, id := range ids {
		eph = eph[:0]
		for _, o := range ids {
			eph = append(eph, dealt[o][id-1])
		}
		sigs = append(sigs, tsed25519.SignWithShare(msg, ks[id-1].ShareKey, tsed25519.AddScalars(eph), ks[id-1].PubKey.Bytes(), ephPub))
	}
	return append(append([]byte{}, ephPub...), tsed25519.CombineShares(uint8(n), ids, sigs)...)
}

// groups lists all subsets of size k of 1..n.
func groups(n, k int) (out [][]int) {
	var rec func(from int, cur []int)
	rec = func(from int, cur []int) {
		if len(cur) == k {
			out = append(out, append([]int{}, cur...))
			return
		}
		for i := from; i <= n; i++ {
			rec(i+1, append(cur, i))
		}
	}
	rec(1, nil)
	return
}

func init() {
	register(&Check{ID: "C09", Assumptions: []string{
		"In the in-process jobs RSA keys come from a pool of 1024-bit keys; the jobs on the real binary use the keys it generates.",
		"\"Fewer never do\" is decided by interpolation: no subset of t-1 shares combines to the key or to a valid signature.",
	}, Jobs: func(tier string) []Job {
		th := isThorough(tier)
		return []Job{
			{Name: "threshold and share numbers", Weight: 1, Run: func(c *Ctx) {
				vals := []int64{math.MinInt64, -255, -254, -3, -2, -1}
				top := int64(20)
				if th {
					top = 64
				}
				for i := int64(0); i <= top; i++ {
					vals = append(vals, i)
				}
				for _, v := range []int64{126, 127, 128, 129, 254, 255, 256, 257, 258, 259, 260, 383, 511, 512, 513, 514, 515, 1 << 16, 1<<32 + 2, 1<<32 + 3, math.MaxInt64} {
					if v > top {
						vals = append(vals, v)
					}
				}
				n := len(vals)
				EnumSim(c, n*n, vsched.Config{}, func(i int, x *X) {
					resetWorld()
					t, m := vals[i/n], vals[i%n]
					x.Note("%d of %d", t, m)
					why := refusedShares(t, m)
					if why == "" && m > 60 {
						x.Out("skipped") // dealing works or is refused the same way for any set above 20
						return
					}
					priv := splitKey(0)
					ks, err, crash := split(priv, t, m)
					switch {
					case crash != nil:
						x.Failf("panics", "%d of %d: %v", t, m, crash)
					case why != "" && err == nil:
						x.Failf("shares for impossible parameters", "%d of %d although %s", t, m, why)
					case why != "":
						x.Out("refused")
						if len(ks) > 0 {
							x.Failf("shares in spite of an error", "%d of %d", t, m)
						}
					case err != nil && m <= 7:
						x.Failf("refuses usable parameters", "%d of %d: %v", t, m, err)
					case err != nil:
						x.Out("refused, cannot combine")
					default:
						x.Out("dealt")
						checkSet(x, priv, t, m, ks)
						var low, high []int
						for j := 1; j <= int(t); j++ {
							low = append(low, j)
							high = append(high, int(m-t)+j)
						}
						for _, ids := range [][]int{low, high} {
							if !priv.PubKey().VerifySignature([]byte("m"), signWith(ks, ids, int(t), []byte("m"))) {
								x.Failf("the threshold cannot sign", "%d of %d: members %v", t, m, ids)
							}
						}
					}
				}, func(i int, x *X, r *vsched.Result) { failPanics(x, r) })
			}},
			{Name: "all groups", Weight: 6, Run: func(c *Ctx) {
				type grp struct {
					t, n int
					key  int
					ids  []int
				}
				var gs []grp
				top, keys := 11, 1
				if th {
					top, keys = 14, 4
				}
				dealt := map[[3]int][]signer.CosignerKey{}
				for n := 2; n <= top; n++ {
					for t := n/2 + 1; t <= n; t++ {
						for k := 0; k < keys; k++ {
							// groups of every size around the threshold
							for _, sz := range []int{t, t - 1} {
								for _, ids := range groups(n, sz) {
									gs = append(gs, grp{t, n, k, ids})
								}
							}
						}
					}
				}
				Enum(c, len(gs), func(i int, x *X) {
					g := gs[i]
					priv := splitKey(g.key)
					at := [3]int{g.t, g.n, g.key}
					ks, ok := dealt[at]
					if !ok {
						var crash interface{}
						ks, _, crash = split(priv, int64(g.t), int64(g.n))
						if crash != nil {
							x.Failf("panics", "%d of %d: %v", g.t, g.n, crash)
							return
						}
						dealt[at] = ks
					}
					if ks == nil {
						x.Out("refused")
						return
					}
					x.Note("%d of %d: members %v", g.t, g.n, g.ids)
					var sh [][]byte
					for _, id := range g.ids {
						sh = append(sh, ks[id-1].ShareKey)
					}
					want := tsed25519.AddScalars([]tsed25519.Scalar{tsed25519.ExpandSecret(priv.Bytes()[:32])})
					got := tsed25519.CombineShares(uint8(g.n), g.ids, sh)
					msg := []byte(fmt.Sprint("message", i))
					sig := signWith(ks, g.ids, g.t, msg)
					valid := priv.PubKey().VerifySignature(msg, sig)
					if len(g.ids) >= g.t {
						x.Out("signs")
						if !bytes.Equal(got, want) || !valid {
							x.Failf("the threshold cannot sign", "%d of %d: members %v", g.t, g.n, g.ids)
						}
					} else {
						x.Out("cannot sign")
						if bytes.Equal(got, want) || valid {
							x.Failf("fewer than the threshold can sign", "%d of %d: members %v", g.t, g.n, g.ids)
						}
					}
				})
			}},
			{Name: "share files", Weight: 1, Run: func(c *Ctx) {
				ids := []int{1, 2, 9, 10, 127, 128, 254, 255}
				var shs [][]byte
				for _, p := range []byte{0, 1, 0x7f, 0x80, 0xff, '"', '\\', '<', '\n'} {
					shs = append(shs, bytes.Repeat([]byte{p}, 32))
				}
				lead := make([]byte, 32)
				lead[31] = 9
				trail := make([]byte, 32)
				trail[0] = 9
				shs = append(shs, lead, trail)
				pubs := []int{1, 2, 3, 5, 13}
				encs := 3
				nkeys := 4
				if th {
					nkeys = 64
				}
				n := len(ids) * len(shs) * len(pubs) * encs * nkeys
				EnumSim(c, n, vsched.Config{}, func(i int, x *X) {
					resetWorld()
					pick := func(k int) int { v := i % k; i /= k; return v }
					k := signer.CosignerKey{ID: ids[pick(len(ids))], ShareKey: shs[pick(len(shs))]}
					for j := 0; j < pubs[pick(len(pubs))]; j++ {
						k.CosignerKeys = append(k.CosignerKeys, &vrsa.Key(j).PublicKey)
					}
					enc := pick(encs)
					kn := pick(nkeys)
					k.PubKey = splitKey(kn).PubKey()
					k.RSAKey = *vrsa.Key(kn % 5)
					x.Note("ID %d share %x, %d transport keys, public key %d in encoding %d", k.ID, k.ShareKey, len(k.CosignerKeys), kn, enc)
					switch enc {
					case 0:
						if err := signer.WriteCosignerShareFile(k, "/k.json"); err != nil {
							x.Failf("share file not written", "%v", err)
							return
						}
					default:
						// the layout of the files, written independently
						pk := append([]byte{0x0a, 0x20}, k.PubKey.Bytes()...)
						if enc == 2 {
							pk = append([]byte{0x16, 0x24, 0xde, 0x64, 0x20}, k.PubKey.Bytes()...)
						}
						var pubs [][]byte
						for _, p := range k.CosignerKeys {
							pubs = append(pubs, x509.MarshalPKCS1PublicKey(p))
						}
						b, err := json.Marshal(map[string]interface{}{"rsa_key": x509.MarshalPKCS1PrivateKey(&k.RSAKey), "pub_key": pk, "rsa_pubs": pubs, "secret_share": k.ShareKey, "id": k.ID})
						if err != nil {
							panic(err)
						}
						vos.Put("/k.json", b)
					}
					l, err := signer.LoadCosignerKey("/k.json")
					if err != nil {
						x.Failf("share file does not load", "encoding %d: %v", enc, err)
						return
					}
					if d := sameKey(k, l); d != "" {
						x.Failf("share file differs from the share", "encoding %d: %s", enc, d)
					}
					// and once more
					if err := signer.WriteCosignerShareFile(l, "/k2.json"); err != nil {
						x.Failf("share file not written", "%v", err)
						return
					}
					m, err := signer.LoadCosignerKey("/k2.json")
					if err != nil {
						x.Failf("share file does not load", "written again: %v", err)
					} else if d := sameKey(k, m); d != "" {
						x.Failf("share file differs from the share", "written again: %s", d)
					}
					x.Out("encoding %d", enc)
				}, func(i int, x *X, r *vsched.Result) { failPanics(x, r) })
			}},
			{Name: "from a key file", Weight: 1, Run: func(c *Ctx) {
				nk := 16
				if th {
					nk = 256
				}
				EnumSim(c, nk*3, vsched.Config{}, func(i int, x *X) {
					resetWorld()
					vrsa.ResetPool()
					priv := splitKey(i / 3)
					n := int64(2 + i%3)
					t := n/2 + 1
					b, err := tmjson.Marshal(privval.FilePVKey{Address: priv.PubKey().Address(), PubKey: priv.PubKey(), PrivKey: priv})
					if err != nil {
						panic(err)
					}
					vos.Put("/key.json", b)
					ks, err := signer.CreateCosignerSharesFromFile("/key.json", t, n)
					if err != nil {
						x.Failf("refuses usable parameters", "%d of %d: %v", t, n, err)
						return
					}
					checkSet(x, priv, t, n, ks)
					for _, ids := range groups(int(n), int(t)) {
						if !priv.PubKey().VerifySignature([]byte("m"), signWith(ks, ids, int(t), []byte("m"))) {
							x.Failf("the threshold cannot sign", "%d of %d: members %v", t, n, ids)
						}
					}
					if string(vos.Get("/key.json")) != string(b) {
						x.Failf("the key file changed", "")
					}
					x.Out("ok")
				}, func(i int, x *X, r *vsched.Result) { failPanics(x, r) })
			}},
		}
	}})
}
