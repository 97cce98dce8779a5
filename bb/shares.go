package main

import (
	"bytes"
	"crypto/rsa"
	"crypto/x509"
	"encoding/json"
	"fmt"
	"strings"

	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"
)

// ---- C09: create-shares ----

type shareFile struct {
	ID    int      `json:"id"`
	Pub   []byte   `json:"pub_key"`
	Share []byte   `json:"secret_share"`
	RSA   []byte   `json:"rsa_key"`
	Pubs  [][]byte `json:"rsa_pubs"`
}

func sharesMade(pre, post Files, t, n int) (fails []Fail) {
	add := func(key, g string, a ...interface{}) { fails = append(fails, Fail{key, fmt.Sprintf(g, a...)}) }
	var ks []shareFile
	var rk []*rsa.PrivateKey
	rest := post
	for i := 1; i <= n; i++ {
		p := fmt.Sprintf("cwd/private_share_%d.json", i)
		text, ok := post[p]
		if !ok {
			add("a share file is missing", "%s", p)
			return
		}
		rest = rest.without(p)
		var k shareFile
		if err := json.Unmarshal([]byte(text), &k); err != nil {
			add("a share file is malformed", "%s: %v", p, err)
			return
		}
		r, err := x509.ParsePKCS1PrivateKey(k.RSA)
		if err != nil {
			add("a share file is malformed", "%s: %v", p, err)
			return
		}
		if k.ID != i {
			add("shares not numbered 1..n", "%s has ID %d", p, k.ID)
		}
		if !bytes.Equal(k.Pub, append([]byte{0x0a, 0x20}, valKey.PubKey().Bytes()...)) {
			add("a share carries another public key", "%s: %x", p, k.Pub)
		}
		if len(k.Pubs) != n {
			add("transport keys do not match", "%s lists %d", p, len(k.Pubs))
			return
		}
		ks = append(ks, k)
		rk = append(rk, r)
	}
	for i, k := range ks {
		for j := range ks {
			if !bytes.Equal(k.Pubs[j], x509.MarshalPKCS1PublicKey(&rk[j].PublicKey)) {
				add("transport keys do not match", "key %d in share %d", j+1, i+1)
			}
			if i != j && rk[i].Equal(rk[j]) {
				add("transport keys shared", "%d and %d", i+1, j+1)
			}
		}
	}
	want := tsed25519.AddScalars([]tsed25519.Scalar{tsed25519.ExpandSecret(valKey.Bytes()[:32])})
	for m := 1; m < 1<<uint(n); m++ {
		var ids []int
		var sh [][]byte
		for i := 0; i < n; i++ {
			if m>>uint(i)&1 == 1 {
				ids = append(ids, i+1)
				sh = append(sh, ks[i].Share)
			}
		}
		if len(ids) != t && len(ids) != t-1 {
			continue
		}
		got := bytes.Equal(tsed25519.CombineShares(uint8(n), ids, sh), want)
		if got && len(ids) < t {
			add("fewer than the threshold can sign", "members %v", ids)
		}
		if !got && len(ids) == t {
			add("the threshold cannot sign", "members %v", ids)
		}
	}
	if d := pre.diff(rest); d != "" && !strings.Contains(d, "private_share_") {
		add("other files changed", "%s", d)
	}
	return
}

func init() {
	register("C09", "create-shares", func(c *Ctx) {
		key := fixture("priv_validator_key.json")
		type cs struct {
			name string
			f    Files
			args []string
			opt  Opt
			t, n int // when shares have to be made
		}
		base := Files{"key.json": key}
		var cases []cs
		ok := func(t, n int) {
			cases = append(cases, cs{"usable", base, []string{"create-shares", "/SCRATCH/key.json", fmt.Sprint(t), fmt.Sprint(n)}, Opt{}, t, n})
		}
		ok(2, 3)
		ok(2, 2)
		ok(3, 3)
		if tier == "thorough" {
			ok(3, 4)
			ok(3, 5)
			ok(4, 7)
			ok(9, 9)
		}
		// leftovers of an earlier run are replaced
		old := base.with("cwd/private_share_1.json", "old", "cwd/private_share_9.json", "old")
		cases = append(cases, cs{"over leftovers", old, []string{"shard", "/SCRATCH/key.json", "2", "3"}, Opt{}, 2, 3})
		long := strings.Repeat("old share\n", 2000)
		cases = append(cases, cs{"over longer leftovers", base.with("cwd/private_share_1.json", long, "cwd/private_share_2.json", long, "cwd/private_share_3.json", "{}"), []string{"create-shares", "/SCRATCH/key.json", "2", "3"}, Opt{}, 2, 3})
		bad := func(name string, f Files, args ...string) {
			for _, pre := range []Files{f, f.with("cwd/private_share_1.json", "old")} {
				cases = append(cases, cs{name, pre, append([]string{"create-shares"}, args...), Opt{}, 0, 0})
			}
		}
		nums := []string{"", "x", "2.0", "1e1", "0x2", "2,", "two", "99999999999999999999", "-1", "0", "1", "9223372036854775807", "-9223372036854775808", "256", "258"}
		for _, v := range nums {
			bad("threshold "+v, base, "--", "/SCRATCH/key.json", v, "3")
			bad("shares "+v, base, "--", "/SCRATCH/key.json", "2", v)
			for _, w := range nums {
				if w != "" && v != "" && tier == "thorough" {
					bad("both "+v+" "+w, base, "--", "/SCRATCH/key.json", v, w)
				}
			}
		}
		for _, p := range [][2]int{{4, 3}, {2, 4}, {3, 6}, {3, 2}, {1, 1}, {1, 2}, {2, 5}, {2, 259}, {258, 259}, {130, 258}, {255, 255}, {128, 255}, {11, 20}, {8, 15}, {21, 21}} {
			bad("impossible", base, "/SCRATCH/key.json", fmt.Sprint(p[0]), fmt.Sprint(p[1]))
		}
		bad("no arguments", base)
		bad("one argument", base, "/SCRATCH/key.json")
		bad("two arguments", base, "/SCRATCH/key.json", "2")
		bad("four arguments", base, "/SCRATCH/key.json", "2", "3", "4")
		bad("no key file", base, "/SCRATCH/nokey.json", "2", "3")
		bad("a directory", base, "/SCRATCH", "2", "3")
		for _, s := range []string{"", "{}", "[]", "null", "x", `{"priv_key":{"type":"tendermint/PrivKeyEd25519","value":""}}`, key[:len(key)/2], strings.Replace(key, "PrivKeyEd25519", "PrivKeySecp256k1", 1)} {
			bad("key file "+clip(s), base.with("key.json", s), "/SCRATCH/key.json", "2", "3")
		}
		Cases(c, "create-shares", len(cases), func(i int, s *Slot) (hist []string, oc string, fails []Fail) {
			k := cases[i]
			add := func(key, g string, a ...interface{}) {
				fails = append(fails, Fail{key, k.name + ": " + fmt.Sprintf(g, a...)})
			}
			post, out := s.run(k.f, k.opt, k.args)
			hist = []string{fmt.Sprintf("%s%q -> exit %d", k.opt, k.args, out.Code)}
			switch {
			case out.Timeout:
				add("does not end", "%s", clip(out.Text))
			case k.n > 0:
				oc = "made"
				if out.Code != 0 {
					add("refuses usable parameters", "%s", clip(out.Text))
					return
				}
				fails = append(fails, sharesMade(k.f, post, k.t, k.n)...)
			default:
				oc = "refused"
				if out.Code == 0 {
					add("accepts impossible parameters", "%q: %s", k.args, clip(out.Text))
				}
				if d := k.f.diff(post); d != "" {
					add("a refusal changes files", "%q: %s", k.args, d)
				}
			}
			return
		})
	})
}
