package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net"
	"net/url"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"gopkg.in/yaml.v2"
)

// ---- reference view of a home directory ----

type Peer struct {
	ID   int    `yaml:"share-id"`
	Addr string `yaml:"p2p-addr"`
}

type Cos struct {
	Threshold int    `yaml:"threshold"`
	Shares    int    `yaml:"shares"`
	Listen    string `yaml:"p2p-listen"`
	Peers     []Peer `yaml:"peers"`
	Timeout   string `yaml:"rpc-timeout"`
}

type Node struct {
	Addr string `yaml:"priv-val-addr"`
}

type Cfg struct {
	Home    string `yaml:"home-dir"`
	KeyFile string `yaml:"key-file,omitempty"`
	Chain   string `yaml:"chain-id"`
	Cos     *Cos   `yaml:"cosigner,omitempty"`
	Nodes   []Node `yaml:"chain-nodes,omitempty"`
}

func parseCfg(s string) (*Cfg, error) {
	c := &Cfg{}
	if err := yaml.UnmarshalStrict([]byte(s), c); err != nil {
		return nil, err
	}
	return c, nil
}

func (c *Cfg) text() string {
	b, err := yaml.Marshal(c)
	must(err)
	return string(b)
}

func (c Cfg) copy() *Cfg {
	d, err := parseCfg(c.text())
	must(err)
	return d
}

// canon sorts the sets and tells what cannot be in a configuration.
func (c *Cfg) canon() (*Cfg, error) {
	d := c.copy()
	sort.Slice(d.Nodes, func(i, j int) bool { return d.Nodes[i].Addr < d.Nodes[j].Addr })
	for i := 1; i < len(d.Nodes); i++ {
		if d.Nodes[i] == d.Nodes[i-1] {
			return d, fmt.Errorf("node %s is listed twice", d.Nodes[i].Addr)
		}
	}
	for _, n := range d.Nodes {
		if badAddr(n.Addr) {
			return d, fmt.Errorf("node address %q is malformed", n.Addr)
		}
	}
	if d.Cos != nil {
		p := d.Cos.Peers
		sort.Slice(p, func(i, j int) bool { return p[i].ID < p[j].ID || p[i].ID == p[j].ID && p[i].Addr < p[j].Addr })
		for i := range p {
			if i > 0 && p[i].ID == p[i-1].ID {
				return d, fmt.Errorf("peer %d is listed twice", p[i].ID)
			}
			if p[i].ID < 1 || p[i].ID > d.Cos.Shares {
				return d, fmt.Errorf("peer %d is out of range 1..%d", p[i].ID, d.Cos.Shares)
			}
		}
		if len(p)+1 > d.Cos.Shares {
			return d, fmt.Errorf("%d peers for %d shares", len(p), d.Cos.Shares)
		}
		if len(p)+1 < d.Cos.Threshold {
			return d, fmt.Errorf("threshold %d cannot be reached with %d peers", d.Cos.Threshold, len(p))
		}
	}
	return d, nil
}

func badAddr(a string) bool {
	_, err := url.Parse(a)
	return a == "" || err != nil
}

func badPeerAddr(a string) bool {
	u, err := url.Parse(a)
	return a == "" || err != nil || u.Host == ""
}

// St is a recorded position.
type St struct {
	H, R int64
	S    int8
	Sig  []byte
	SB   string
	Eph  []byte
}

func (s St) at() string { return fmt.Sprintf("%d/%d/%d", s.H, s.R, s.S) }

func (s St) text() string {
	m := map[string]interface{}{"height": fmt.Sprint(s.H), "round": fmt.Sprint(s.R), "step": s.S, "ephemeral_public": nil}
	if s.Eph != nil {
		m["ephemeral_public"] = s.Eph
	}
	if s.Sig != nil {
		m["signature"] = s.Sig
	}
	if s.SB != "" {
		m["signbytes"] = s.SB
	}
	b, err := json.MarshalIndent(m, "", "  ")
	must(err)
	return string(b)
}

func parseSt(s string) (St, error) {
	var m struct {
		Height, Round string
		Step          int8
		Eph           []byte `json:"ephemeral_public"`
		Signature     []byte
		SignBytes     string
	}
	if err := json.Unmarshal([]byte(s), &m); err != nil {
		return St{}, err
	}
	h, err := strconv.ParseInt(m.Height, 10, 64)
	if err != nil {
		return St{}, err
	}
	r, err := strconv.ParseInt(m.Round, 10, 64)
	if err != nil {
		return St{}, err
	}
	return St{h, r, m.Step, m.Signature, m.SignBytes, m.Eph}, nil
}

// ---- operations ----

// Init holds the arguments of config init.
type Init struct {
	Chain, Nodes                string
	Cos                         bool
	Peers, Listen, Timeout, Key string
	T                           int
	Over                        bool
}

func (i Init) op(home ...string) Op {
	a := append([]string{"config", "init"}, home...)
	a = append(a, i.Chain)
	if i.Nodes != "-" {
		a = append(a, i.Nodes)
	}
	if i.Cos {
		a = append(a, "-c", "-p", i.Peers, "-t", fmt.Sprint(i.T), "-l", i.Listen)
		if i.Timeout != "" {
			a = append(a, "--timeout", i.Timeout)
		}
	}
	if i.Key != "" {
		a = append(a, "-k", i.Key)
	}
	if i.Over {
		a = append(a, "-o")
	}
	return Op{Kind: "init", Args: a}
}

const (
	mustFail = iota
	mustOK
	either // and a success changes nothing
)

// model is the reference: what the command has to do in the given state.
type model struct {
	base string // the home directory, below the scratch directory
}

func pvPath(base, chain string) string {
	return base + "/state/" + chain + "_priv_validator_state.json"
}
func shPath(base, chain string) string { return base + "/state/" + chain + "_share_sign_state.json" }

type verdict struct {
	v      int
	why    string
	want   *Cfg
	wantSt map[string]St     // state files with this content afterwards
	moved  map[string]string // path -> path it came from
	anyway bool              // a refusal is fine as well
}

func fail(why string) verdict { return verdict{v: mustFail, why: why} }

func set(xs []string) map[string]bool {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	return m
}

func parsePeers(s string) ([]Peer, bool) {
	var out []Peer
	for _, p := range strings.Split(s, ",") {
		ps := strings.Split(p, "|")
		if len(ps) != 2 {
			return nil, false
		}
		id, err := strconv.Atoi(ps[1])
		if err != nil || badPeerAddr(ps[0]) {
			return nil, false
		}
		out = append(out, Peer{id, ps[0]})
	}
	return out, true
}

func (m model) expect(pre Files, o Op) verdict {
	var cfg *Cfg
	text, have := pre[m.base+"/config.yaml"]
	if have {
		var err error
		cfg, err = parseCfg(text)
		if err != nil {
			cfg = nil
		}
	}
	arg := ""
	if len(o.Args) > 0 {
		arg = o.Args[len(o.Args)-1]
	}
	if o.Kind == "init" {
		return m.expectInit(pre, have, o)
	}
	if cfg == nil {
		return fail("there is no configuration")
	}
	want := cfg.copy()
	switch o.Kind {
	case "nodes add":
		var n []string
		for _, x := range cfg.Nodes {
			n = append(n, x.Addr)
		}
		has := set(n)
		added, dup := 0, false
		for _, x := range strings.Split(arg, ",") {
			if badAddr(x) {
				return fail("malformed address")
			}
			if !has[x] {
				has[x] = true
				want.Nodes = append(want.Nodes, Node{x})
				added++
			} else if !set(n)[x] {
				dup = true
			}
		}
		if added == 0 {
			return verdict{v: either}
		}
		return verdict{v: mustOK, want: want, anyway: dup}
	case "nodes remove":
		gone := map[string]bool{}
		for _, x := range strings.Split(arg, ",") {
			if badAddr(x) {
				return fail("malformed address")
			}
			gone[x] = true
		}
		want.Nodes = nil
		for _, x := range cfg.Nodes {
			if !gone[x.Addr] {
				want.Nodes = append(want.Nodes, x)
			}
		}
		if len(want.Nodes) == 0 {
			return fail("no node is left")
		}
		return verdict{v: mustOK, want: want}
	case "peers add":
		if cfg.Cos == nil {
			return fail("not a cosigner")
		}
		ps, ok := parsePeers(arg)
		if !ok {
			return fail("malformed peer")
		}
		added, dup := 0, false
		old := len(want.Cos.Peers)
	next:
		for _, p := range ps {
			if p.ID < 1 || p.ID > cfg.Cos.Shares {
				return fail("peer out of range")
			}
			for i, q := range want.Cos.Peers {
				if p == q {
					dup = dup || i >= old
					continue next
				}
				if p.ID == q.ID {
					return fail("duplicate peer")
				}
			}
			want.Cos.Peers = append(want.Cos.Peers, p)
			added++
		}
		if len(want.Cos.Peers)+1 > cfg.Cos.Shares {
			return fail("more members than shares")
		}
		if added == 0 {
			return verdict{v: either}
		}
		return verdict{v: mustOK, want: want, anyway: dup}
	case "peers remove":
		if cfg.Cos == nil {
			return fail("not a cosigner")
		}
		gone := map[int]bool{}
		for _, x := range strings.Split(arg, ",") {
			id, err := strconv.Atoi(x)
			if err != nil {
				return fail("not a number")
			}
			gone[id] = true
		}
		want.Cos.Peers = nil
		for _, p := range cfg.Cos.Peers {
			if !gone[p.ID] {
				want.Cos.Peers = append(want.Cos.Peers, p)
			}
		}
		if len(want.Cos.Peers) == 0 {
			return fail("no peer is left")
		}
		if len(want.Cos.Peers)+1 < cfg.Cos.Threshold {
			return fail("threshold out of reach")
		}
		return verdict{v: mustOK, want: want}
	case "shares":
		if cfg.Cos == nil {
			return fail("not a cosigner")
		}
		n, err := strconv.Atoi(arg)
		if err != nil {
			return fail("not a number")
		}
		if n < len(cfg.Cos.Peers)+1 {
			return fail("more members than shares")
		}
		for _, p := range cfg.Cos.Peers {
			if p.ID > n {
				return fail("a peer would be out of range")
			}
		}
		want.Cos.Shares = n
		return verdict{v: mustOK, want: want}
	case "chain":
		if arg == "" || strings.Contains(arg, "/") {
			return fail("not a chain id")
		}
		if arg == cfg.Chain {
			return verdict{v: either}
		}
		_, pv := pre[pvPath(m.base, cfg.Chain)]
		_, sh := pre[shPath(m.base, cfg.Chain)]
		for _, p := range []string{pvPath(m.base, arg), shPath(m.base, arg)} {
			if _, ok := pre[p]; ok {
				return fail("a state is stored under that name")
			}
			if _, ok := pre[p+"/"]; ok {
				return fail("something is stored under that name")
			}
		}
		if cfg.Cos != nil && !sh {
			return fail("the share state is missing")
		}
		v := verdict{v: mustOK, want: want, moved: map[string]string{}}
		want.Chain = arg
		if pv {
			v.moved[pvPath(m.base, arg)] = pvPath(m.base, cfg.Chain)
		} else {
			v.anyway = true
		}
		if sh {
			v.moved[shPath(m.base, arg)] = shPath(m.base, cfg.Chain)
		}
		return v
	case "show":
		v := verdict{v: either}
		_, e1 := parseSt(pre[pvPath(m.base, cfg.Chain)])
		_, e2 := parseSt(pre[shPath(m.base, cfg.Chain)])
		if e1 == nil && e2 == nil && m.base == ".horcrux" {
			v.v = mustOK
			v.want = want
		}
		return v
	case "set":
		h, err := strconv.ParseInt(arg, 10, 64)
		if err != nil || h < 0 {
			return fail("not a height")
		}
		p, e1 := parseSt(pre[pvPath(m.base, cfg.Chain)])
		s, e2 := parseSt(pre[shPath(m.base, cfg.Chain)])
		if e1 != nil || e2 != nil {
			return fail("a state cannot be read")
		}
		if h <= p.H || h <= s.H {
			return fail("not above the recorded position")
		}
		return verdict{v: mustOK, want: want, anyway: m.base != ".horcrux",
			wantSt: map[string]St{pvPath(m.base, cfg.Chain): {H: h}, shPath(m.base, cfg.Chain): {H: h}}}
	}
	panic(o.Kind)
}

func (m model) expectInit(pre Files, have bool, o Op) verdict {
	i := initOf[strings.Join(o.Args, "\x00")]
	if have && !i.Over {
		return fail("a configuration exists")
	}
	if i.Chain == "" || strings.Contains(i.Chain, "/") {
		return fail("not a chain id")
	}
	want := &Cfg{Home: "/SCRATCH/" + m.base, KeyFile: i.Key, Chain: i.Chain}
	v := verdict{v: mustOK, want: want, wantSt: map[string]St{}}
	if i.Nodes != "-" {
		seen := map[string]bool{}
		for _, n := range strings.Split(i.Nodes, ",") {
			if badAddr(n) {
				return fail("malformed address")
			}
			if seen[n] {
				v.anyway = true
				continue
			}
			seen[n] = true
			want.Nodes = append(want.Nodes, Node{n})
		}
	}
	st := []string{pvPath(m.base, i.Chain)}
	if i.Cos {
		ps, ok := parsePeers(i.Peers)
		if !ok {
			return fail("malformed peer")
		}
		to := i.Timeout
		if to == "" {
			to = "1500ms"
		}
		if _, err := time.ParseDuration(to); err != nil {
			return fail("not a duration")
		}
		u, err := url.Parse(i.Listen)
		if err != nil || u.Host == "" {
			return fail("malformed listen address")
		}
		if h, _, err := net.SplitHostPort(u.Host); err != nil || h == "0.0.0.0" {
			return fail("malformed listen address")
		}
		want.Cos = &Cos{Threshold: i.T, Shares: len(ps) + 1, Listen: i.Listen, Peers: ps, Timeout: to}
		if _, err := want.canon(); err != nil {
			return fail(err.Error())
		}
		st = append(st, shPath(m.base, i.Chain))
	} else if len(want.Nodes) == 0 {
		return fail("no node")
	}
	for _, p := range st {
		if c, ok := pre[p]; ok && c == "" {
			// nothing was ever recorded
			v.anyway = true
			v.wantSt[p] = St{}
		} else if ok {
			if _, err := parseSt(c); err != nil {
				return fail("an existing state cannot be read")
			}
			v.wantSt[p] = St{H: -1} // as it was
		} else if _, ok := pre[p+"/"]; ok {
			return fail("an existing state cannot be read")
		} else {
			v.wantSt[p] = St{}
		}
	}
	return v
}

// initOf maps the arguments of an init command back to its fields.
var initOf = map[string]Init{}

func initOp(i Init, home ...string) Op {
	o := i.op(home...)
	initOf[strings.Join(o.Args, "\x00")] = i
	return o
}

var numRe = regexp.MustCompile(`(?m)^\s*(Height|Round|Step):\s*(-?\d+)`)

func (m model) check(t Trans) (fs []Fail) {
	add := func(key, f string, a ...interface{}) {
		fs = append(fs, Fail{key, fmt.Sprintf("%s: %s (output %q)", t.Op, fmt.Sprintf(f, a...), clip(t.Out.Text))})
	}
	if t.Out.Timeout {
		add(t.Op.Kind+" hangs", "no end within 30 s")
		return
	}
	ok := t.Out.Code == 0
	v := m.expect(t.Pre, t.Op)
	d := t.Pre.diff(t.Post)
	faulty := t.Op.Opt.Fsize > 0 || len(t.Op.Opt.RO) > 0
	if !ok {
		if faulty {
			// what an interrupted write leaves beside the files is neither
			// configuration nor state
			post := t.Post.with()
			for k := range post {
				if _, was := t.Pre[k]; !was && strings.Contains(k, "write-file-atomic") {
					delete(post, k)
				}
			}
			d = t.Pre.diff(post)
		}
		if d != "" {
			add(t.Op.Kind+" fails but changes files", "exit %d, yet %s", t.Out.Code, d)
		}
		if v.v == mustOK && !v.anyway && !faulty {
			add(t.Op.Kind+" refuses a valid change", "exit %d", t.Out.Code)
		}
		return
	}
	switch v.v {
	case mustFail:
		add(t.Op.Kind+" accepts: "+v.why, "exit 0; %s", d)
		return
	case either:
		if a, e1 := parseCfg(t.Pre[m.base+"/config.yaml"]); e1 == nil {
			if b, e2 := parseCfg(t.Post[m.base+"/config.yaml"]); e2 == nil && reflect.DeepEqual(a, b) {
				d = t.Pre.without(m.base + "/config.yaml").diff(t.Post.without(m.base + "/config.yaml"))
			}
		}
		if d != "" {
			add(t.Op.Kind+" changes files for nothing", "%s", d)
		}
		return
	}
	got, err := parseCfg(t.Post[m.base+"/config.yaml"])
	if err != nil {
		add(t.Op.Kind+" leaves no readable configuration", "%v", err)
		return
	}
	gc, err := got.canon()
	if err != nil {
		add(t.Op.Kind+" leaves an invalid configuration", "%v", err)
	}
	if wc, _ := v.want.canon(); !reflect.DeepEqual(gc, wc) {
		add(t.Op.Kind+" leaves another configuration", "want\n%s\ngot\n%s", wc.text(), gc.text())
	}
	// the other files
	rest := t.Pre.without(m.base + "/config.yaml")
	post := t.Post.without(m.base + "/config.yaml")
	for to, from := range v.moved {
		rest[to] = rest[from]
		delete(rest, from)
	}
	for p, s := range v.wantSt {
		if s.H < 0 {
			continue
		}
		got, err := parseSt(post[p])
		if err != nil {
			add(t.Op.Kind+" leaves no readable state", "%s: %v", p, err)
		} else if !reflect.DeepEqual(got, s) {
			add(t.Op.Kind+" leaves another state", "%s: want %+v got %+v", p, s, got)
		}
		delete(post, p)
		delete(rest, p)
	}
	for k := range rest {
		if strings.HasSuffix(k, "/") {
			delete(rest, k)
			delete(post, k)
		}
	}
	if d := rest.diff(post); d != "" {
		add(t.Op.Kind+" changes other files", "%s", d)
	}
	if t.Op.Kind == "show" {
		cfg, _ := parseCfg(t.Pre[m.base+"/config.yaml"])
		var want, got []string
		for _, p := range []string{pvPath(m.base, cfg.Chain), shPath(m.base, cfg.Chain)} {
			s, _ := parseSt(t.Pre[p])
			want = append(want, fmt.Sprint("Height ", s.H), fmt.Sprint("Round ", s.R), fmt.Sprint("Step ", s.S))
			if s.Sig != nil && !strings.Contains(t.Out.Text, base64.StdEncoding.EncodeToString(s.Sig)) {
				add("show omits a signature", "%s", s.at())
			}
		}
		for _, x := range numRe.FindAllStringSubmatch(t.Out.Text, -1) {
			got = append(got, x[1]+" "+x[2])
		}
		if !reflect.DeepEqual(want, got) {
			add("show reports something else", "want %q got %q", want, got)
		}
	}
	return
}

// ---- starting points ----

func cosHome(t int, peers []Peer, shares int, nodes ...string) *Cfg {
	c := &Cfg{Home: "/SCRATCH/.horcrux", Chain: "c1", Cos: &Cos{Threshold: t, Shares: shares, Listen: "tcp://p1:2222", Peers: peers, Timeout: "1500ms"}}
	for _, n := range nodes {
		c.Nodes = append(c.Nodes, Node{n})
	}
	return c
}

func singleHome(nodes ...string) *Cfg {
	c := &Cfg{Home: "/SCRATCH/.horcrux", Chain: "c1"}
	for _, n := range nodes {
		c.Nodes = append(c.Nodes, Node{n})
	}
	return c
}

func files(c *Cfg, kv ...string) Files {
	return Files{".horcrux/config.yaml": c.text()}.with(kv...)
}

const (
	nA = "tcp://a:1234"
	nB = "tcp://b:1234"
	nC = "tcp://c:1234"
)

var sig = []byte("0123456789012345678901234567890123456789012345678901234567890123")

func init() {
	register("C14", "sets", func(c *Ctx) {
		// deeper, with fewer commands
		pv, sh := pvPath(".horcrux", "c1"), shPath(".horcrux", "c1")
		inits := map[string]Files{"cosigner": files(cosHome(2, []Peer{{2, "tcp://p2:2222"}, {3, "tcp://p3:2222"}}, 3, nA), pv, St{}.text(), sh, St{}.text())}
		m := model{".horcrux"}
		a := func(kind string, args ...string) Op { return op(kind, args...) }
		ops := []Op{
			a("nodes add", "config", "nodes", "add", nB), a("nodes add", "config", "nodes", "add", nB+","+nC), a("nodes remove", "config", "nodes", "remove", nA), a("nodes remove", "config", "nodes", "remove", nB+","+nC),
			a("peers add", "config", "peers", "add", "tcp://p4:2222|4"), a("peers add", "config", "peers", "add", "tcp://q2:2222|2"), a("peers remove", "config", "peers", "remove", "2"), a("peers remove", "config", "peers", "remove", "3,4"),
			a("shares", "config", "peers", "set-shares", "3"), a("shares", "config", "peers", "set-shares", "4"), a("chain", "config", "chain-id", "set", "c2"), a("chain", "config", "chain-id", "set", "c1"),
		}
		BFS{Name: "sets", Inits: inits, Ops: func(Files, int) []Op { return ops }, Depth: pick(4, 7), Check: m.check}.run(c)
	})
	register("C14", "other home", func(c *Ctx) {
		m := model{"alt"}
		h := []string{"--home", "/SCRATCH/alt"}
		cfg := cosHome(2, []Peer{{2, "tcp://p2:2222"}, {3, "tcp://p3:2222"}}, 4, nA)
		def := files(cfg, pvPath(".horcrux", "c1"), St{H: 3}.text(), shPath(".horcrux", "c1"), St{H: 4}.text())
		acfg := cfg.copy()
		acfg.Home = "/SCRATCH/alt"
		alt := def.with("alt/config.yaml", acfg.text(), pvPath("alt", "c1"), St{H: 8}.text(), shPath("alt", "c1"), St{H: 9}.text())
		var ops []Op
		add := func(kind string, args ...string) {
			ops = append(ops, op(kind, append(append([]string{}, h...), args...)...))
		}
		add("nodes add", "config", "nodes", "add", nB)
		add("nodes remove", "config", "nodes", "remove", nA)
		add("peers add", "config", "peers", "add", "tcp://p4:2222|4")
		add("peers remove", "config", "peers", "remove", "3")
		add("shares", "config", "peers", "set-shares", "5")
		add("chain", "config", "chain-id", "set", "c2")
		for _, i := range []Init{{Chain: "c1", Nodes: nA}, {Chain: "c3", Nodes: nB, Over: true}, {Chain: "c1", Nodes: nA, Cos: true, Peers: "tcp://p2:2222|2", T: 2, Listen: "tcp://p1:2222", Over: true}} {
			ops = append(ops, initOp(i, h...))
		}
		BFS{Name: "other home", Inits: map[string]Files{"default home only": def, "both homes": alt}, Ops: func(Files, int) []Op { return ops }, Depth: pick(2, 4), Check: m.check}.run(c)
	})
	register("C14", "faults", func(c *Ctx) { faults(c, "faults", menu14valid()) })
	register("C14", "edits", func(c *Ctx) {
		pv, sh := pvPath(".horcrux", "c1"), shPath(".horcrux", "c1")
		p23 := []Peer{{2, "tcp://p2:2222"}, {3, "tcp://p3:2222"}}
		st := St{H: 5, R: 1, S: 2, Sig: sig, SB: "0A0B"}
		inits := map[string]Files{
			"nothing":  {},
			"cosigner": files(cosHome(2, p23, 3, nA), pv, st.text(), sh, St{H: 7, S: 3, Sig: sig, SB: "0C", Eph: sig[:32]}.text()),
			"single":   files(singleHome(nA), pv, st.text()),
		}
		k := cosHome(3, append(append([]Peer{}, p23...), Peer{4, "tcp://p4:2222"}, Peer{5, "tcp://p5:2222"}), 5, nA, nB)
		k.KeyFile = "/SCRATCH/key.json"
		inits["cosigner 3 of 5 with a key file"] = files(k, "key.json", "{}", pv, st.text(), sh, St{H: 7}.text())
		m := model{".horcrux"}
		ops := menu14()
		BFS{Name: "edits", Inits: inits, Ops: func(Files, int) []Op { return ops }, Depth: pick(2, 4), Check: m.check}.run(c)
	})

	register("C15", "faults", func(c *Ctx) {
		var ops []Op
		for _, o := range menu15() {
			switch strings.Join(o.Args[:2], " ") {
			case "state set", "config chain-id", "config init":
				ops = append(ops, o)
			}
		}
		faults(c, "faults", ops)
	})
	register("C15", "watermarks", func(c *Ctx) {
		pv, sh := pvPath(".horcrux", "c1"), shPath(".horcrux", "c1")
		cfg := cosHome(2, []Peer{{2, "tcp://p2:2222"}, {3, "tcp://p3:2222"}}, 3, nA)
		full := St{H: 5, R: 1, S: 2, Sig: sig, SB: "0A0B"}
		inits := map[string]Files{}
		mk := func(name string, p, s string) {
			f := files(cfg)
			if p != "-" {
				f[pv] = p
			}
			if s != "-" {
				f[sh] = s
			}
			inits[name] = f
		}
		mk("fresh", St{}.text(), St{}.text())
		mk("pv ahead", full.text(), St{H: 4, R: 2, S: 3, Sig: sig[:32], SB: "0C", Eph: sig[:32]}.text())
		mk("share ahead", St{H: 4}.text(), St{H: 5, R: 3, S: 1, Sig: sig[:32], SB: "0C", Eph: sig[:32]}.text())
		mk("same", St{H: 5}.text(), St{H: 5}.text())
		mk("top", St{H: 1<<63 - 2}.text(), St{H: 1<<63 - 2}.text())
		mk("no share", full.text(), "-")
		mk("no pv", "-", full.text())
		mk("none", "-", "-")
		mk("bad pv", "{", full.text())
		mk("bad share", full.text(), "{")
		mk("empty share", full.text(), "")
		inits["single"] = files(singleHome(nA), pv, full.text())
		inits["two chains"] = files(cfg, pv, full.text(), sh, full.text(), pvPath(".horcrux", "c2"), St{H: 9}.text(), shPath(".horcrux", "c2"), St{H: 9}.text())
		inits["other pv"] = files(cfg, pv, full.text(), sh, full.text(), pvPath(".horcrux", "c2"), St{H: 9}.text())
		inits["other share"] = files(cfg, pv, full.text(), sh, full.text(), shPath(".horcrux", "c2"), St{H: 9}.text())
		inits["other is a directory"] = files(cfg, pv, full.text(), sh, full.text(), shPath(".horcrux", "c2")+"/", "")
		m := model{".horcrux"}
		BFS{Name: "watermarks", Inits: inits, Ops: func(Files, int) []Op { return menu15() }, Depth: pick(2, 4), Check: m.check}.run(c)
	})
}

func menu15() []Op {
	ops := []Op{op("show", "state", "show")}
	for _, h := range []string{"0", "1", "4", "5", "6", "9223372036854775806", "9223372036854775807", "9223372036854775808", "x", "", "6x", "-6"} {
		a := []string{"state", "set", h}
		if h == "-6" {
			a = []string{"state", "set", "--", h}
		}
		ops = append(ops, op("set", a...))
	}
	for _, id := range []string{"c1", "c2", "c3", ""} {
		ops = append(ops, op("chain", "config", "chain-id", "set", id))
	}
	for _, i := range []Init{{Chain: "c1", Nodes: nA, Over: true}, {Chain: "c1", Nodes: nA}, {Chain: "c2", Nodes: nA, Over: true},
		{Chain: "c1", Nodes: nA, Cos: true, Peers: "tcp://p2:2222|2", T: 2, Listen: "tcp://p1:2222", Over: true},
		{Chain: "c2", Nodes: nA, Cos: true, Peers: "tcp://p2:2222|2", T: 2, Listen: "tcp://p1:2222", Over: true}} {
		ops = append(ops, initOp(i))
	}
	return ops
}

// faults runs every command with its writes cut off after every number of
// bytes, and with each directory read-only.
func faults(c *Ctx, name string, ops []Op) {
	pv, sh := pvPath(".horcrux", "c1"), shPath(".horcrux", "c1")
	full := St{H: 5, R: 1, S: 2, Sig: sig, SB: "0A0B"}
	cfg := cosHome(2, []Peer{{2, "tcp://p2:2222"}, {3, "tcp://p3:2222"}}, 4, nA, nB)
	inits := []Files{files(cfg, pv, full.text(), sh, full.text()), files(singleHome(nA, nB), pv, full.text()),
		// initialised anew over what an earlier installation left
		{".horcrux/": ""}, Files{".horcrux/": ""}.with(pv, full.text()), Files{".horcrux/": ""}.with(sh, full.text())}
	m := model{".horcrux"}
	type cs struct {
		f Files
		o Op
	}
	var cases []cs
	step := pick(24, 1)
	for _, f := range inits {
		for _, o := range ops {
			v := m.expect(f, o)
			if v.v != mustOK || o.Kind == "show" {
				continue
			}
			add := func(opt Opt) {
				o := o
				o.Opt = opt
				cases = append(cases, cs{f, o})
			}
			for n := 0; n < 640; n += step {
				add(Opt{Fsize: n + 1})
			}
			for n := 0; n < 5; n++ {
				add(Opt{Fsize: n + 1})
			}
			add(Opt{RO: []string{".horcrux"}})
			add(Opt{RO: []string{".horcrux/state"}})
			add(Opt{RO: []string{".horcrux", ".horcrux/state"}})
		}
	}
	Cases(c, name, len(cases), func(i int, s *Slot) ([]string, string, []Fail) {
		k := cases[i]
		post, out := s.run(k.f, k.o.Opt, k.o.Args)
		oc := "ok"
		if out.Code != 0 {
			oc = "failed"
		}
		return []string{fmt.Sprintf("%s -> exit %d", k.o, out.Code)}, k.o.Kind + " " + oc, m.check(Trans{k.f, post, k.o, out})
	})
}

func menu14() []Op {
	var ops []Op
	add := func(kind string, args ...string) { ops = append(ops, op(kind, args...)) }
	for _, x := range []string{nA, nB, nA + "," + nB, nB + "," + nC, nB + "," + nB, "://x", nB + ",://x", "://x," + nB, "", nB + ",", "," + nB, nA + "/", "tcp://A:1234", nB + "/," + nB} {
		add("nodes add", "config", "nodes", "add", x)
	}
	for _, x := range []string{nA, nB, nA + "," + nB, nB + "," + nA + "," + nC, nC, "://x", "://x," + nB, nB + ",://x", nB + "," + nB, nA + "/", "tcp://a:123"} {
		add("nodes remove", "config", "nodes", "remove", x)
	}
	for _, x := range []string{"tcp://p2:2222|2", "tcp://q2:2222|2", "tcp://p3:2222|3", "tcp://p4:2222|4", "tcp://p4:2222|4,tcp://p4:2222|4", "tcp://p4:2222|4,tcp://q4:2222|4", "tcp://p4:2222|4,tcp://p5:2222|5", "tcp://p6:2222|6",
		"tcp://p0:2222|0", "tcp://p0:2222|-1", "://x|4", "tcp://p4:2222|4,://x|5", "|4", "tcp://p4:2222", "tcp://p4:2222|", "tcp://p4:2222|x", "tcp://p4:2222|4|4", "", "tcp://p1:2222|1", "tcp://p4:2222|18446744073709551620", "tcp://p2:2222|4"} {
		add("peers add", "config", "peers", "add", x)
	}
	for _, x := range []string{"2", "3", "4", "2,3", "2,2", "9", "x", "2,x", "x,2", "", "2,", "2,3,4", "2,3,4,5", "3,4"} {
		add("peers remove", "config", "peers", "remove", x)
	}
	for _, x := range []string{"0", "2", "3", "4", "5", "6", "x", "", "3x"} {
		add("shares", "config", "peers", "set-shares", x)
	}
	add("shares", "config", "peers", "set-shares", "--", "-3")
	for _, x := range []string{"c1", "c2", "", "a/b", "../c", "cosmoshub-4", "x%d", "a b"} {
		add("chain", "config", "chain-id", "set", x)
	}
	good := Init{Chain: "c1", Nodes: nA, Cos: true, Peers: "tcp://p2:2222|2,tcp://p3:2222|3", T: 2, Listen: "tcp://p1:2222", Timeout: "1s"}
	var is []Init
	vary := func(f func(i *Init)) {
		i := good
		f(&i)
		is = append(is, i)
		i.Over = true
		is = append(is, i)
	}
	vary(func(i *Init) {})
	vary(func(i *Init) { i.Timeout = "" })
	vary(func(i *Init) { i.Key = "/SCRATCH/k.json" })
	vary(func(i *Init) { i.Nodes = "-" })
	vary(func(i *Init) { i.Chain = "c2" })
	vary(func(i *Init) { i.T = 3 })
	is2 := is
	is = nil
	for _, f := range []func(i *Init){
		func(i *Init) { i.Chain = "" }, func(i *Init) { i.Chain = "a/b" }, func(i *Init) { i.Nodes = "://x" }, func(i *Init) { i.Nodes = "://x," + nA }, func(i *Init) { i.Nodes = nA + ",://x" }, func(i *Init) { i.Nodes = nA + "," + nA }, func(i *Init) { i.Nodes = "" }, func(i *Init) { i.Nodes = nA + "," },
		func(i *Init) { i.Peers = "" }, func(i *Init) { i.Peers = "tcp://p2:2222" }, func(i *Init) { i.Peers = "tcp://p2:2222|2,tcp://p3:2222|2" }, func(i *Init) { i.Peers = "tcp://p2:2222|2,tcp://p3:2222|4" }, func(i *Init) { i.Peers = "tcp://p2:2222|2,tcp://p3:2222|0" }, func(i *Init) { i.Peers = "://x|2,tcp://p3:2222|3" }, func(i *Init) { i.Peers = "tcp://p2:2222|2,tcp://p3:2222|x" },
		func(i *Init) { i.T = 4 }, func(i *Init) { i.Listen = "" }, func(i *Init) { i.Listen = "://x" }, func(i *Init) { i.Listen = "tcp://p1" }, func(i *Init) { i.Listen = "tcp://0.0.0.0:2222" }, func(i *Init) { i.Timeout = "1" }, func(i *Init) { i.Timeout = "x" },
		func(i *Init) { i.Cos = false; i.Nodes = "-" }, func(i *Init) { i.Cos = false; i.Nodes = "://x" },
		func(i *Init) { i.Cos = false; i.Chain = "" }, func(i *Init) { i.Cos = false; i.Chain = "a/b" }, func(i *Init) { i.Cos = false; i.Chain = "../c" },
	} {
		vary(f)
	}
	// of the invalid ones only those that ask for overwriting reach the validation everywhere
	for _, i := range is {
		if i.Over {
			is2 = append(is2, i)
		}
	}
	is2 = append(is2, Init{Chain: "c1", Nodes: nB}, Init{Chain: "c1", Nodes: nB, Over: true}, Init{Chain: "c2", Nodes: nB + "," + nC, Key: "k", Over: true})
	for _, i := range is2 {
		ops = append(ops, initOp(i))
	}
	return ops
}

func menu14valid() []Op {
	var ops []Op
	add := func(kind string, args ...string) { ops = append(ops, op(kind, args...)) }
	add("nodes add", "config", "nodes", "add", nC)
	add("nodes remove", "config", "nodes", "remove", nB)
	add("peers add", "config", "peers", "add", "tcp://p4:2222|4")
	add("peers remove", "config", "peers", "remove", "3")
	add("shares", "config", "peers", "set-shares", "5")
	add("chain", "config", "chain-id", "set", "c2")
	ops = append(ops, initOp(Init{Chain: "c2", Nodes: nB, Over: true}), initOp(Init{Chain: "c2", Nodes: nA, Cos: true, Peers: "tcp://p2:2222|2", T: 2, Listen: "tcp://p1:2222", Over: true}))
	return ops
}
