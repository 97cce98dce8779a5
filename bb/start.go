package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net"
	"net/url"
	"path"
	"strings"
	"time"

	"github.com/tendermint/tendermint/crypto/ed25519"
	"gopkg.in/yaml.v2"
)

var valKey = ed25519.GenPrivKeyFromSecret([]byte("bb"))

// ---- C16: starting from damaged files ----

const (
	serve = iota
	refuse
	any_ // left open
)

type mut struct {
	name string
	f    func(Files) Files
	want int
}

type comp struct {
	name string
	muts []mut
}

func cosStart() Files {
	c := cosHome(2, []Peer{{2, "tcp://127.0.0.1:9"}, {3, "tcp://127.0.0.1:10"}}, 3, "tcp://127.0.0.1:61001")
	c.Cos.Listen = "tcp://127.0.0.1:61002"
	return files(c, ".horcrux/share.json", fixture("share_3_1.json"), pvPath(".horcrux", "c1"), St{H: 5, R: 1, S: 2}.text(), shPath(".horcrux", "c1"), St{H: 5, R: 1, S: 2}.text())
}

func singleStart() Files {
	return files(singleHome("tcp://127.0.0.1:61001"), ".horcrux/priv_validator_key.json", fixture("priv_validator_key.json"), pvPath(".horcrux", "c1"), St{H: 5, R: 1, S: 2}.text())
}

// validCfg is the reference for configurations.
func validCfg(mode, text string, f Files) bool {
	c := &Cfg{}
	if yaml.Unmarshal([]byte(text), c) != nil {
		return false
	}
	if c.Chain == "" || strings.Contains(c.Chain, "/") {
		return false
	}
	for _, n := range c.Nodes {
		if badAddr(n.Addr) {
			return false
		}
	}
	key := c.KeyFile
	if key == "" {
		key = path.Join(c.Home, map[string]string{"cosigner": "share.json", "signer": "priv_validator_key.json"}[mode])
	}
	if _, ok := f[strings.TrimPrefix(key, "/SCRATCH/")]; !ok {
		return false
	}
	state := path.Join(c.Home, "state", c.Chain+map[string]string{"cosigner": "_share_sign_state.json", "signer": "_priv_validator_state.json"}[mode])
	if _, ok := f[strings.TrimPrefix(state, "/SCRATCH/")]; !ok {
		return false
	}
	if mode == "signer" {
		return len(c.Nodes) > 0
	}
	if c.Cos == nil {
		return false
	}
	if _, err := time.ParseDuration(c.Cos.Timeout); err != nil {
		return false
	}
	okAddr := func(a string) bool {
		u, err := url.Parse(a)
		if err != nil {
			return false
		}
		_, _, err = net.SplitHostPort(u.Host)
		return err == nil
	}
	if !okAddr(c.Cos.Listen) {
		return false
	}
	seen := map[int]bool{1: true} // the local share
	for _, p := range c.Cos.Peers {
		if p.ID < 1 || p.ID > c.Cos.Shares || p.ID > 3 || seen[p.ID] || !okAddr(p.Addr) {
			return false
		}
		seen[p.ID] = true
	}
	return len(c.Cos.Peers)+1 <= c.Cos.Shares && len(c.Cos.Peers)+1 >= c.Cos.Threshold && 2*c.Cos.Threshold > 3
}

func cfgMuts(mode string, base Files) (ms []mut) {
	p := ".horcrux/config.yaml"
	text := base[p]
	setText := func(name, s string, want int) {
		ms = append(ms, mut{"config " + name, func(f Files) Files { return f.with(p, s) }, want})
	}
	judged := func(name, s string) {
		w := refuse
		if validCfg(mode, s, base) {
			w = any_
		}
		setText(name, s, w)
	}
	ms = append(ms, mut{"config missing", func(f Files) Files { return f.without(p) }, refuse},
		mut{"config is a directory", func(f Files) Files { return f.without(p).with(p+"/", "") }, refuse})
	setText("garbage", "\x00\x01{{{", refuse)
	setText("a list", "- a\n- b\n", refuse)
	for i := 0; i < len(text); i += pick(6, 1) {
		judged(fmt.Sprintf("cut off after %d bytes", i), text[:i])
	}
	// each line missing or with another value
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	for i, l := range lines {
		rest := func(nl ...string) string {
			o := append([]string{}, lines[:i]...)
			o = append(o, nl...)
			return strings.Join(append(o, lines[i+1:]...), "\n") + "\n"
		}
		judged(fmt.Sprintf("without line %q", l), rest())
		if k := strings.SplitN(l, ": ", 2); len(k) == 2 {
			for _, v := range []string{"", "''", "x", "'://x'", "0", "-1", "1", "2", "3", "4", "[]", "{}", "[1]", "a/b", "c2", "10", "1s", "tcp://127.0.0.1", "1.5", "99999999999999999999", "null"} {
				judged(fmt.Sprintf("line %q with value %s", l, v), rest(k[0]+": "+v))
			}
		}
		judged(fmt.Sprintf("line %q twice", l), rest(l, l))
	}
	mod := func(name string, g func(c *Cfg)) {
		c, err := parseCfg(text)
		must(err)
		g(c)
		judged(name, c.text())
	}
	mod("no nodes", func(c *Cfg) { c.Nodes = nil })
	mod("a malformed node before a good one", func(c *Cfg) { c.Nodes = append([]Node{{"://x"}}, c.Nodes...) })
	mod("a malformed node after a good one", func(c *Cfg) { c.Nodes = append(c.Nodes, Node{"://x"}) })
	mod("key file elsewhere", func(c *Cfg) { c.KeyFile = "/SCRATCH/nothing.json" })
	if mode == "cosigner" {
		mod("no cosigner section", func(c *Cfg) { c.Cos = nil })
		mod("no peers", func(c *Cfg) { c.Cos.Peers = nil })
		mod("one peer less", func(c *Cfg) { c.Cos.Peers = c.Cos.Peers[:1] })
		mod("the other peer less", func(c *Cfg) { c.Cos.Peers = c.Cos.Peers[1:] })
		mod("one peer less, threshold 3", func(c *Cfg) { c.Cos.Peers = c.Cos.Peers[:1]; c.Cos.Threshold = 3 })
		mod("the local share as a peer", func(c *Cfg) { c.Cos.Peers[0].ID = 1 })
		mod("a peer twice", func(c *Cfg) { c.Cos.Peers[0].ID = 3 })
		mod("a peer beyond the key's shares", func(c *Cfg) { c.Cos.Peers[0].ID = 4; c.Cos.Shares = 5 })
		mod("a fourth member", func(c *Cfg) { c.Cos.Peers = append(c.Cos.Peers, Peer{1, "tcp://127.0.0.1:11"}); c.Cos.Shares = 4 })
	}
	return
}

func jsonMut(text string, g func(m map[string]interface{})) string {
	m := map[string]interface{}{}
	d := json.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	must(d.Decode(&m))
	g(m)
	b, err := json.Marshal(m)
	must(err)
	return string(b)
}

func fileMuts(what, p, text string, cut int) (ms []mut) {
	set := func(name, s string) {
		ms = append(ms, mut{what + " " + name, func(f Files) Files { return f.with(p, s) }, refuse})
	}
	ms = append(ms, mut{what + " missing", func(f Files) Files { return f.without(p) }, refuse},
		mut{what + " is a directory", func(f Files) Files { return f.without(p).with(p+"/", "") }, refuse})
	set("empty", "")
	set("garbage", "\x00\x01")
	set("a list", "[]")
	set("a number", "7")
	set("a string", `"x"`)
	for i := 1; i < len(strings.TrimSpace(text)); i += cut {
		set(fmt.Sprintf("cut off after %d bytes", i), text[:i])
	}
	return
}

func keyMuts() (ms []mut) {
	p := ".horcrux/share.json"
	text := fixture("share_3_1.json")
	ms = fileMuts("key", p, text, pick(251, 7))
	set := func(name string, g func(m map[string]interface{})) {
		s := jsonMut(text, g)
		ms = append(ms, mut{"key " + name, func(f Files) Files { return f.with(p, s) }, refuse})
	}
	for _, k := range []string{"pub_key", "secret_share", "rsa_key", "id", "rsa_pubs"} {
		k := k
		set("without "+k, func(m map[string]interface{}) { delete(m, k) })
		set(k+" null", func(m map[string]interface{}) { m[k] = nil })
		set(k+" of another type", func(m map[string]interface{}) { m[k] = map[string]interface{}{"a": 1} })
		set(k+" a bare string", func(m map[string]interface{}) { m[k] = "%%" })
	}
	for _, id := range []int{0, 2, 3, 4, -1, 255, 256, 257} {
		id := id
		set(fmt.Sprint("id ", id), func(m map[string]interface{}) { m["id"] = id })
	}
	for _, k := range []string{"pub_key", "rsa_key", "secret_share"} {
		k := k
		set(k+" one byte short", func(m map[string]interface{}) {
			b, _ := base64.StdEncoding.DecodeString(m[k].(string))
			m[k] = b[:len(b)-1]
		})
		set(k+" empty", func(m map[string]interface{}) { m[k] = "" })
	}
	set("only two rsa_pubs", func(m map[string]interface{}) { m["rsa_pubs"] = m["rsa_pubs"].([]interface{})[:2] })
	set("no rsa_pubs", func(m map[string]interface{}) { m["rsa_pubs"] = []interface{}{} })
	set("rsa_pubs swapped", func(m map[string]interface{}) { a := m["rsa_pubs"].([]interface{}); a[0], a[1] = a[1], a[0] })
	set("a broken rsa_pub", func(m map[string]interface{}) { m["rsa_pubs"].([]interface{})[1] = "AAAA" })
	return
}

func stateMuts(what, p string) []mut {
	text := St{H: 5, R: 1, S: 2}.text()
	ms := fileMuts(what, p, text, pick(9, 1))
	for _, e := range []struct {
		k  string
		vs []interface{}
	}{
		{"height", []interface{}{5.5, "x", "", []int{1}, "99999999999999999999", true}},
		{"round", []interface{}{1.5, "x", []int{1}, "99999999999999999999", true}},
		{"step", []interface{}{300, "x", 1.5, []int{1}}},
	} {
		k := e.k
		for _, v := range e.vs {
			s := jsonMut(text, func(m map[string]interface{}) { m[k] = v })
			ms = append(ms, mut{fmt.Sprintf("%s with %s %#v", what, k, v), func(f Files) Files { return f.with(p, s) }, refuse})
		}
	}
	return ms
}

// roundMuts are states of a single signer whose round no vote can have.
func roundMuts(what, p string) (ms []mut) {
	text := St{H: 5, R: 1, S: 2}.text()
	for _, v := range []interface{}{"2147483648", "4294967295", "4294967296", "4294967297", "9223372036854775807", "-4294967296", 2147483648, 4294967297} {
		s := jsonMut(text, func(m map[string]interface{}) { m["round"] = v })
		ms = append(ms, mut{fmt.Sprintf("%s with round %#v", what, v), func(f Files) Files { return f.with(p, s) }, refuse})
	}
	return
}

func startCase(s *Slot, mode string, f Files, want int) (outcome string, fails []Fail) {
	add := func(key, g string, a ...interface{}) { fails = append(fails, Fail{key, fmt.Sprintf(g, a...)}) }
	e := newSentry()
	defer e.close()
	listen := freePort()
	pre := Files{}
	for k, v := range f {
		pre[k] = strings.NewReplacer("61001", e.port, "61002", listen).Replace(v)
	}
	s.put(pre)
	p := s.start(Opt{}, mode, "start")
	serving := ""
	var link *Link
	patience := 20 * time.Second
	if want == any_ {
		// nobody may be listening at an address that was cut off
		patience = 2 * time.Second
	}
	deadline := time.Now().Add(patience)
	for serving == "" && !p.exited() && time.Now().Before(deadline) {
		select {
		case c := <-e.ch:
			serving = "connects to the sentry"
			e.ch <- c
		default:
			if mode == "cosigner" {
				if c, err := net.DialTimeout("tcp", "127.0.0.1:"+listen, 100*time.Millisecond); err == nil {
					c.Close()
					if p.listens(listen) {
						serving = "serves peers"
					}
				}
			}
			time.Sleep(3 * time.Millisecond)
		}
	}
	if serving != "" && want == serve {
		var err error
		link, err = e.link(p, 10*time.Second)
		if err != nil {
			add("does not serve", "no connection: %v: %s", err, clip(p.out.String()))
		} else {
			m, err := link.ask(pubKeyReq("c1"), 10*time.Second)
			if err != nil || m.GetPubKeyResponse() == nil || string(m.GetPubKeyResponse().PubKey.GetEd25519()) != string(valKey.PubKey().Bytes()) {
				add("serves another key", "%v %v", m, err)
			}
			link.close()
		}
	}
	ended := p.exited()
	if !ended {
		p.kill()
	}
	text := clip(strings.ReplaceAll(p.out.String(), s.dir, "/SCRATCH"))
	post := s.get(pre)
	d := pre.diff(post)
	switch {
	case serving != "":
		outcome = "serves"
		if want == refuse {
			add("starts on damaged input", "%s (%s)", serving, text)
		}
		// only the cache of the last signature may have been created
		c := &Cfg{}
		if yaml.Unmarshal([]byte(pre[".horcrux/config.yaml"]), c) == nil && mode == "cosigner" {
			pv := pvPath(".horcrux", c.Chain)
			if pre[pv] == "" {
				d = pre.without(pv).diff(post.without(pv))
			}
		}
		if d != "" {
			add("a start changes files", "%s", d)
		}
	case ended:
		outcome = "refuses"
		if p.code == 0 {
			add("a refused start looks successful", "exit 0 without serving (%s)", text)
		}
		if want == serve {
			add("does not start", "exit %d (%s)", p.code, text)
		}
		if d != "" {
			add("a refused start changes files", "%s (%s)", d, text)
		}
	case want == any_:
		outcome = "tries on"
		if d != "" {
			add("a start changes files", "%s", d)
		}
	default:
		outcome = "hangs"
		add("neither serves nor ends", "within 20 s (%s)", text)
	}
	return
}

func init() {
	register("C16", "start", func(c *Ctx) {
		type cs struct {
			name string
			mode string
			f    Files
			want int
		}
		var cases []cs
		build := func(mode string, base Files, good []mut, comps []comp) {
			cases = append(cases, cs{mode + " undamaged", mode, base, serve})
			for _, g := range good {
				cases = append(cases, cs{mode + " " + g.name, mode, g.f(base), serve})
			}
			for _, k := range comps {
				for _, m := range k.muts {
					cases = append(cases, cs{mode + " " + m.name, mode, m.f(base), m.want})
				}
			}
			// pairs, of which one is damage that must be refused
			for i := range comps {
				for j := i + 1; j < len(comps); j++ {
					a, b := comps[i].muts, comps[j].muts
					for x, m := range a {
						for y, n := range b {
							if tier != "thorough" && (x%7 != 0 || y%5 != 0) {
								continue
							}
							if tier == "thorough" && (x*7+y*5)%23 != 0 {
								continue
							}
							w := any_
							if m.want == refuse || n.want == refuse {
								w = refuse
							}
							cases = append(cases, cs{mode + " " + m.name + " and " + n.name, mode, n.f(m.f(base)), w})
						}
					}
				}
			}
		}
		pv, sh := pvPath(".horcrux", "c1"), shPath(".horcrux", "c1")
		cb := cosStart()
		var pvm []mut
		for _, m := range stateMuts("pv state", pv) {
			if m.name == "pv state missing" || m.name == "pv state empty" {
				m.want = any_ // it is only a cache
			}
			pvm = append(pvm, m)
		}
		alt := func(g func(c *Cfg)) func(Files) Files {
			return func(f Files) Files {
				c, err := parseCfg(f[".horcrux/config.yaml"])
				must(err)
				g(c)
				return f.with(".horcrux/config.yaml", c.text())
			}
		}
		build("cosigner", cb, []mut{
			{"without the cached last signature", func(f Files) Files { return f.without(pv) }, serve},
			{"with the key elsewhere", func(f Files) Files {
				return alt(func(c *Cfg) { c.KeyFile = "/SCRATCH/k.json" })(f.with("k.json", f[".horcrux/share.json"]).without(".horcrux/share.json"))
			}, serve},
			{"with threshold 3", alt(func(c *Cfg) { c.Cos.Threshold = 3 }), serve},
			{"with peers 3 and 2", alt(func(c *Cfg) { p := c.Cos.Peers; p[0], p[1] = p[1], p[0] }), serve},
			{"as member 3", func(f Files) Files {
				return alt(func(c *Cfg) { c.Cos.Peers[1].ID = 1 })(f.with(".horcrux/share.json", fixture("share_3_3.json")))
			}, serve},
		}, []comp{{"config", cfgMuts("cosigner", cb)}, {"key", keyMuts()}, {"share state", stateMuts("share state", sh)}, {"pv state", pvm}})
		sb := singleStart()
		kp := ".horcrux/priv_validator_key.json"
		km := fileMuts("key", kp, fixture("priv_validator_key.json"), pick(17, 1))
		build("signer", sb, []mut{
			{"with a state it wrote itself", func(f Files) Files {
				return f.with(pv, `{"height":"5","round":1,"step":2}`)
			}, serve},
			{"with a fresh state", func(f Files) Files { return f.with(pv, St{}.text()) }, serve},
		}, []comp{{"config", cfgMuts("signer", sb)}, {"key", km}, {"state", append(stateMuts("state", pv), roundMuts("state", pv)...)}})
		// keys of every size under every threshold, number of shares and number of peers
		for n := 2; n <= 5; n++ {
			for _, id := range []int{1, n} {
				for t := 0; t <= n+1; t++ {
					for shares := n - 1; shares <= n+1; shares++ {
						for less := 0; less < 2; less++ {
							var peers []Peer
							for p := 1; p <= n; p++ {
								if p != id {
									peers = append(peers, Peer{p, fmt.Sprintf("tcp://127.0.0.1:%d", 8+p)})
								}
							}
							peers = peers[less:]
							cf := cosHome(t, peers, shares, "tcp://127.0.0.1:61001")
							cf.Cos.Listen = "tcp://127.0.0.1:61002"
							f := files(cf, ".horcrux/share.json", fixture(fmt.Sprintf("share_%d_%d.json", n, id)), pvPath(".horcrux", "c1"), St{H: 5, R: 1, S: 2}.text(), shPath(".horcrux", "c1"), St{H: 5, R: 1, S: 2}.text())
							w := any_
							switch {
							case t < 1 || 2*t <= n || t > len(peers)+1 || shares < len(peers)+1:
								w = refuse
							case shares == n && less == 0:
								w = serve
							}
							cases = append(cases, cs{fmt.Sprintf("cosigner %d of a key of %d shares, threshold %d, shares %d, %d peers", id, n, t, shares, len(peers)), "cosigner", f, w})
						}
					}
				}
			}
		}
		Cases(c, "start", len(cases), func(i int, s *Slot) ([]string, string, []Fail) {
			k := cases[i]
			oc, fails := startCase(s, k.mode, k.f, k.want)
			for j := range fails {
				fails[j].Msg = k.name + ": " + fails[j].Msg
			}
			return []string{k.name + " -> " + oc}, k.mode + " " + oc, fails
		})
	})
}
