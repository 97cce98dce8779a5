package main

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"
)

const bech = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

func polymod(vs []byte) uint32 {
	c := uint32(1)
	for _, v := range vs {
		t := c >> 25
		c = (c&0x1ffffff)<<5 ^ uint32(v)
		for i, g := range []uint32{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3} {
			if t>>uint(i)&1 == 1 {
				c ^= g
			}
		}
	}
	return c
}

// bech32 encodes as BIP 173 says.
func bech32(hrp string, data []byte) string {
	var d []byte
	acc, n := uint32(0), 0
	for _, b := range data {
		acc, n = acc<<8|uint32(b), n+8
		for n >= 5 {
			n -= 5
			d = append(d, byte(acc>>uint(n))&31)
		}
	}
	if n > 0 {
		d = append(d, byte(acc<<uint(5-n))&31)
	}
	var x []byte
	for i := range hrp {
		x = append(x, hrp[i]>>5)
	}
	x = append(x, 0)
	for i := range hrp {
		x = append(x, hrp[i]&31)
	}
	m := polymod(append(append(x, d...), 0, 0, 0, 0, 0, 0)) ^ 1
	for i := 0; i < 6; i++ {
		d = append(d, byte(m>>uint(5*(5-i)))&31)
	}
	s := hrp + "1"
	for _, v := range d {
		s += string(bech[v])
	}
	return s
}

func init() {
	register("C21", "address", func(c *Ctx) {
		type cs struct {
			name   string
			f      Files
			pub    []byte // nil: must be refused
			prefix []string
			args   []string
		}
		var cases []cs
		base := cosStart()
		key := ".horcrux/share.json"
		text := base[key]
		alt := func(f Files, g func(c *Cfg)) Files {
			c, err := parseCfg(f[".horcrux/config.yaml"])
			must(err)
			g(c)
			return f.with(".horcrux/config.yaml", c.text())
		}
		own := valKey.PubKey().Bytes()
		var pubs [][]byte
		pubs = append(pubs, own)
		for i := 0; i < pick(12, 64); i++ {
			h := sha256.Sum256([]byte{byte(i)})
			pubs = append(pubs, h[:])
		}
		for _, fill := range []byte{0, 1, 0x7f, 0x80, 0xff} {
			b := make([]byte, 32)
			for i := range b {
				b[i] = fill
			}
			pubs = append(pubs, b)
		}
		// keys and addresses with digits that are easily lost
		for _, ok := range []func(p, a []byte) bool{
			func(p, a []byte) bool { return a[0] < 16 && a[0] > 0 },
			func(p, a []byte) bool { return a[0] == 0 },
			func(p, a []byte) bool { return a[19] == 0 },
			func(p, a []byte) bool { return a[19] < 16 && a[10] < 16 },
			func(p, a []byte) bool { return p[0] == 0 },
			func(p, a []byte) bool { return p[31] == 0 },
			func(p, a []byte) bool {
				b := base64.StdEncoding.EncodeToString(p)
				return strings.Contains(b, "+") && strings.Contains(b, "/")
			},
		} {
			for i := 0; ; i++ {
				p := sha256.Sum256([]byte(fmt.Sprint("digits", i)))
				if a := sha256.Sum256(p[:]); ok(p[:], a[:20]) {
					pubs = append(pubs, p[:])
					break
				}
			}
		}
		var prefixes [][]string
		for _, p := range []string{"cosmos", "osmo", "a", "x-1", "sei", "1", strings.Repeat("q", 20)} {
			prefixes = append(prefixes, []string{p})
		}
		prefixes = append(prefixes, nil)
		for i, p := range pubs {
			for _, amino := range []bool{false, true} {
				head := []byte{0x0a, 0x20}
				if amino {
					head = []byte{0x16, 0x24, 0xde, 0x64, 0x20}
				}
				f := base.with(key, jsonMut(text, func(m map[string]interface{}) { m["pub_key"] = append(append([]byte{}, head...), p...) }))
				for j, pre := range prefixes {
					if tier != "thorough" && i > 3 && (i+j)%4 != 0 && i < len(pubs)-7 {
						continue
					}
					cases = append(cases, cs{fmt.Sprintf("key %d amino %v", i, amino), f, p, pre, nil})
				}
			}
		}
		for _, pre := range prefixes {
			// elsewhere
			f := alt(base, func(c *Cfg) { c.KeyFile = "/SCRATCH/k.json" }).with("k.json", jsonMut(text, func(m map[string]interface{}) {
				m["pub_key"] = append([]byte{0x0a, 0x20}, pubs[1]...)
			}))
			cases = append(cases, cs{"two keys, the configured one elsewhere", f, pubs[1], pre, nil})
			cases = append(cases, cs{"the configured key elsewhere, without it", f.without("k.json"), nil, pre, nil})
			g := Files{"alt/config.yaml": alt(base, func(c *Cfg) { c.Home = "/SCRATCH/alt" })[".horcrux/config.yaml"], "alt/share.json": f["k.json"]}
			cases = append(cases, cs{"another home", g, pubs[1], pre, []string{"--home", "/SCRATCH/alt"}})
			for id := 2; id <= 3; id++ {
				cases = append(cases, cs{fmt.Sprint("member ", id), base.with(key, fixture(fmt.Sprintf("share_3_%d.json", id))), own, pre, nil})
			}
			cases = append(cases, cs{"no key", base.without(key), nil, pre, nil})
			cases = append(cases, cs{"no config", base.without(".horcrux/config.yaml"), nil, pre, nil})
		}
		for _, m := range fileMuts("key", key, text, pick(101, 7)) {
			cases = append(cases, cs{m.name, m.f(base), nil, []string{"cosmos"}, nil})
		}
		for _, n := range []int{0, 1, 31, 33} {
			cases = append(cases, cs{fmt.Sprintf("a public key of %d bytes", n), base.with(key, jsonMut(text, func(m map[string]interface{}) {
				m["pub_key"] = append([]byte{0x0a, byte(n)}, make([]byte, n)...)
			})), nil, []string{"cosmos"}, nil})
		}
		Cases(c, "address", len(cases), func(i int, s *Slot) (hist []string, oc string, fails []Fail) {
			k := cases[i]
			add := func(key, g string, a ...interface{}) {
				fails = append(fails, Fail{key, k.name + fmt.Sprint(k.prefix) + ": " + fmt.Sprintf(g, a...)})
			}
			args := append(append(append([]string{}, k.args...), "cosigner", "address"), k.prefix...)
			post, out := s.run(k.f, Opt{}, args)
			hist = []string{fmt.Sprintf("%s: %q -> exit %d %s", k.name, args, out.Code, clip(out.Text))}
			if d := k.f.diff(post); d != "" {
				add("the address command changes files", "%s", d)
			}
			if k.pub == nil {
				oc = "refused"
				if out.Code == 0 {
					add("an identity without a key", "%s", clip(out.Text))
				}
				return
			}
			oc = "printed"
			want := struct{ HexAddress, PubKey, ValConsAddress, ValConsPubAddress string }{}
			got := want
			a := sha256.Sum256(k.pub)
			want.HexAddress = strings.ToUpper(hex.EncodeToString(a[:20]))
			var pk struct {
				Type string `json:"@type"`
				Key  string `json:"key"`
			}
			if out.Code != 0 || json.Unmarshal([]byte(out.Text), &got) != nil || json.Unmarshal([]byte(got.PubKey), &pk) != nil {
				add("no identity", "exit %d %s", out.Code, clip(out.Text))
				return
			}
			if pk.Type != "/cosmos.crypto.ed25519.PubKey" || pk.Key != base64.StdEncoding.EncodeToString(k.pub) {
				add("another public key", "%s", got.PubKey)
			}
			want.PubKey = got.PubKey
			if k.prefix != nil {
				want.ValConsAddress = bech32(k.prefix[0]+"valcons", a[:20])
				want.ValConsPubAddress = bech32(k.prefix[0]+"valconspub", append([]byte{0x16, 0x24, 0xde, 0x64, 0x20}, k.pub...))
			} else {
				oc = "printed without prefix"
				if strings.Contains(got.ValConsAddress+got.ValConsPubAddress, "valcons1") {
					add("another identity", "%+v", got)
				}
				want.ValConsAddress, want.ValConsPubAddress = got.ValConsAddress, got.ValConsPubAddress
			}
			if got != want {
				add("another identity", "%+v, should be %+v", got, want)
			}
			return
		})
	})
}
