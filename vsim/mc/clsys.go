package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/hashicorp/raft"
	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/vsim/vgrpc"
	"github.com/strangelove-ventures/horcrux/vsim/vos"
	"github.com/strangelove-ventures/horcrux/vsim/vraft"
	"github.com/strangelove-ventures/horcrux/vsim/vsched"
)

// ClSys is a whole cluster of real nodes driven by operations, with the
// oracles of the cluster properties.
type ClSys struct {
	*Cluster
	x     *X
	ref   []*nodeRef
	all   []*Res
	sigs  []*sigEv
	clock int
	pend  []*vsched.Task
	pendR []*Res
	rpcs  []rpcEv
	fault func(*vgrpc.Call) vgrpc.Fault // armed until the next request ends
	env   func(*vgrpc.Call) vgrpc.Fault // permanent
	noRef bool                          // concurrency: no recorded answers are predicted
	last  string
	up    []bool
	spoil bool // a fault hit the current request
	prop  string
}

type rpcEv struct {
	src, dst, method string
	args             interface{}
}

type sigEv struct {
	p          P
	sig        []byte
	start, end int
	how        string
}

type nodeRef struct {
	last    HRS
	cache   map[HRS]refEnt
	applied int
}

type refEnt struct {
	p   P
	sig []byte
}

func (r *nodeRef) save(p P, sig []byte) {
	if !r.last.Less(p.HRS()) {
		return
	}
	r.last = p.HRS()
	r.cache[p.HRS()] = refEnt{p, sig}
	for h := range r.cache {
		if h.H < p.H-3 {
			delete(r.cache, h)
		}
	}
}

// fail reports a violation if it concerns the property being checked.
func (s *ClSys) fail(prop, key, f string, a ...interface{}) {
	if strings.Contains(s.prop, prop) {
		s.x.Failf(key, f, a...)
	}
}

func newClSys(x *X, prop string, t, n int) *ClSys {
	s := &ClSys{x: x, prop: prop}
	vgrpc.Hook = func(c *vgrpc.Call) vgrpc.Fault {
		s.rpcs = append(s.rpcs, rpcEv{c.Src, c.Dst, c.Method, c.Args})
		if s.fault != nil {
			f := s.fault(c)
			if fired(f) {
				s.spoil = true
				return f
			}
		}
		if s.env != nil {
			f := s.env(c)
			if fired(f) {
				s.spoil = true
			}
			return f
		}
		return vgrpc.Fault{}
	}
	for i := 0; i < n; i++ {
		s.up = append(s.up, true)
	}
	vsched.OnCrash = append(vsched.OnCrash, func(node string) {
		for i := range s.up {
			if nodeName(i+1) != node {
				continue
			}
			s.up[i] = false
			for _, r := range s.all {
				if r.Node == i+1 && !r.Done {
					r.Lost = true
				}
			}
			delete(vraft.C.Nodes, fmt.Sprint(i+1))
			if vraft.C.Leader == fmt.Sprint(i+1) {
				vraft.C.SetLeader("") // the others notice
			}
		}
	})
	s.Cluster = NewCluster(x, t, n)
	for i := 0; i < n; i++ {
		s.ref = append(s.ref, &nodeRef{cache: map[HRS]refEnt{}})
	}
	return s
}

func fired(f vgrpc.Fault) bool {
	return f.Refuse || f.Hang || f.Delay > 0 || f.LoseReply || f.HangReply || f.DelayReply > 0 || f.MutateReq != nil || f.MutateReply != nil || f.Err != nil || f.CrashBefore || f.CrashAfter || f.Twice
}

// route is the node that will execute a request made at node i, 0 unknown.
func (s *ClSys) route(i int) int {
	for hop := 0; hop < 3; hop++ {
		if !s.up[i-1] {
			return 0
		}
		r := vraft.C.Nodes[fmt.Sprint(i)]
		if r == nil {
			return 0
		}
		if r.State() == raft.Leader {
			return i
		}
		a := string(r.Leader())
		j := 0
		for k := 1; k <= s.K.N; k++ {
			if a == strings.TrimPrefix(addrOf(k), "tcp://") {
				j = k
			}
		}
		if j == 0 {
			return 0
		}
		i = j
	}
	return 0
}

// sync brings the reference of every node up to what its raft applied.
func (s *ClSys) sync() {
	for i, r := range s.ref {
		n := vraft.C.Nodes[fmt.Sprint(i+1)]
		if !s.up[i] || n == nil {
			continue
		}
		for ; r.applied < n.Applied(); r.applied++ {
			if p, sig, ok := s.entry(r.applied); ok {
				r.save(p, sig)
			}
		}
	}
}

// entry decodes the last signed state of a log entry.
func (s *ClSys) entry(i int) (P, []byte, bool) {
	var c struct{ Op, Key, Value string }
	if json.Unmarshal(vraft.C.Log[i].Data, &c) != nil || c.Key != "LSS" {
		return P{}, nil, false
	}
	var l signer.SignStateConsensus
	if json.Unmarshal([]byte(c.Value), &l) != nil {
		return P{}, nil, false
	}
	for _, r := range s.all {
		if bytes.Equal(r.P.SignBytes(), l.SignBytes) {
			return r.P, l.Signature, true
		}
	}
	return P{}, nil, false
}

// logged: p was committed to the replicated log.
func (s *ClSys) logged(p P) bool {
	for i := range vraft.C.Log {
		if q, _, ok := s.entry(i); ok && q == p {
			return true
		}
	}
	return false
}

// begin a request.
func (s *ClSys) begin(node int, p P) (*Res, *vsched.Task) {
	s.clock++
	r, t := s.SignAsync(node, p)
	r.Seq = s.clock
	s.all = append(s.all, r)
	return r, t
}

// sign is a complete sequential request with all oracles.
func (s *ClSys) sign(node int, p P) *Res {
	if !s.up[node-1] {
		return &Res{P: p, Node: node}
	}
	vsched.Idle()
	s.sync()
	exec := s.route(node)
	s.spoil = false
	quiet := s.fault == nil && len(s.pend) == 0
	r, t := s.begin(node, p)
	vsched.Join(t)
	s.fault = nil
	vsched.Idle()
	s.clock++
	if quiet && !s.spoil && exec > 0 && !s.noRef {
		s.predict(exec, r)
	}
	s.judge(r)
	if r.Done && r.Err == nil && exec > 0 && !s.spoil {
		s.ref[exec-1].save(p, r.Sig)
		if quiet {
			s.spread(exec, r)
		}
	}
	s.sync()
	return r
}

// spread: what an undisturbed leader answered is recorded on every node that
// hears it, so that each of them can answer the repeat.
func (s *ClSys) spread(exec int, r *Res) {
	id := fmt.Sprint(exec)
	if vraft.C.Leader != id || vraft.C.Held[id] || !s.up[exec-1] {
		return
	}
	for j := range s.ref {
		n := vraft.C.Nodes[fmt.Sprint(j+1)]
		if !s.up[j] || n == nil || vraft.C.Held[fmt.Sprint(j+1)] {
			continue
		}
		if h, err := mark(pvFile(j + 1)); err != nil || h.Less(r.P.HRS()) {
			s.fail("C06", "signature not recorded on a running node", "the leader %d answered %s with a signature, and node %d, which hears it, is at %v (%v)", exec, r.P, j+1, h, err)
		}
		if n.Applied() == len(vraft.C.Log) {
			s.ref[j].save(r.P, r.Sig)
		}
	}
}

// predict checks the answer against what the executing node recorded.
func (s *ClSys) predict(exec int, r *Res) {
	f := s.ref[exec-1]
	rec, ok := f.cache[r.P.HRS()]
	switch {
	case !r.Done:
	case ok && len(rec.sig) > 0 && (rec.p == r.P || r.P.Typ == proposal):
		if r.Err != nil {
			s.fail("C06", "recorded signature not returned", "node %d refused %s although the executing node %d recorded a signature for it: %v", r.Node, r.P, exec, r.Err)
		} else if !bytes.Equal(rec.sig, r.Sig) {
			s.fail("C06", "another signature instead of the recorded one", "node %d answered %s with another signature than recorded at node %d", r.Node, r.P, exec)
		}
	case ok && !rec.p.Same(r.P):
		if r.Err == nil {
			s.fail("C06", "conflicting request answered", "node %d answered %s although %s is recorded at node %d", r.Node, r.P, rec.p, exec)
		}
	case !ok && r.P.HRS().Less(f.last):
		if r.Err == nil {
			s.fail("C06", "request below the last position answered", "node %d answered %s although node %d is at %v without a record", r.Node, r.P, exec, f.last)
		}
	}
}

// judge applies the oracles that hold for every answer.
func (s *ClSys) judge(r *Res) {
	if !r.Done {
		return
	}
	if r.Err != nil {
		if len(r.Sig) != 0 {
			s.fail("C05", "failed request carries a signature", "the failed answer to %s carries a signature of %d bytes (error %v)", r.P, len(r.Sig), r.Err)
		}
		return
	}
	valid := s.Verify(r.ReturnedBytes(), r.Sig)
	if !valid {
		old := false
		for _, e := range s.sigs {
			if r.P.Typ == proposal && e.p.Typ == proposal && e.p.HRS() == r.P.HRS() && bytes.Equal(e.sig, r.Sig) {
				old = true
			}
		}
		for i := range vraft.C.Log {
			if p, sig, ok := s.entry(i); ok && p.Typ == proposal && r.P.Typ == proposal && p.HRS() == r.P.HRS() && bytes.Equal(sig, r.Sig) && s.Verify(p.SignBytes(), sig) {
				old = true
			}
		}
		if r.P.Typ == proposal && !old {
			for _, q := range s.all {
				if q.P.Typ == proposal && q.P.HRS() == r.P.HRS() && s.Verify(q.P.SignBytes(), r.Sig) {
					old = true // signed concurrently
				}
			}
		}
		if !old {
			s.fail("C05", "success without a valid signature", "the answer to %s at node %d (signature of %d bytes) does not verify over what was returned", r.P, r.Node, len(r.Sig))
		}
	}
	if !sameButSig(r) {
		s.fail("C05", "returned payload altered", "the answer to %s returns other fields than requested", r.P)
	}
	if valid {
		s.addSig(&sigEv{r.P, r.Sig, r.Seq, s.clock, fmt.Sprintf("request at node %d", r.Node)}, r)
	}
}

func sameButSig(r *Res) bool {
	if r.Prop != nil {
		a, b := *r.Prop, *r.P.Proposal()
		a.Signature, a.Timestamp, b.Signature, b.Timestamp = nil, time.Time{}, nil, time.Time{}
		return bytes.Equal(mustMarshal(&a), mustMarshal(&b))
	}
	a, b := *r.Vote, *r.P.Vote()
	a.Signature, a.Timestamp, b.Signature, b.Timestamp = nil, time.Time{}, nil, time.Time{}
	return bytes.Equal(mustMarshal(&a), mustMarshal(&b))
}

type marshaler interface{ Marshal() ([]byte, error) }

func mustMarshal(m marshaler) []byte {
	b, err := m.Marshal()
	if err != nil {
		panic(err)
	}
	return b
}

// addSig records a signature in existence and checks it against the others.
func (s *ClSys) addSig(e *sigEv, r *Res) {
	if r != nil && !r.Time.Equal(e.p.Time()) {
		// signed with another timestamp: identify by what was returned only
		e.p.T = 1000
	}
	fresh := true
	for _, o := range s.sigs {
		if bytes.Equal(o.sig, e.sig) {
			fresh = false
		}
		if o.p.HRS() == e.p.HRS() && !o.p.Same(e.p) {
			s.fail("C04", "conflicting cluster signatures", "the validator signed both %s (%s) and %s (%s)", o.p, o.how, e.p, e.how)
		}
	}
	if fresh {
		for _, o := range s.sigs {
			if o.end < e.start && e.p.HRS().Less(o.p.HRS()) {
				s.fail("C04", "regressing cluster signature", "the validator signed %s (%s) after it had signed %s (%s)", e.p, e.how, o.p, o.how)
			}
		}
	}
	s.sigs = append(s.sigs, e)
}

// checkLog adds the signatures that were replicated.
func (s *ClSys) checkLog() {
	for i := range vraft.C.Log {
		p, sig, ok := s.entry(i)
		if !ok || !s.Verify(p.SignBytes(), sig) {
			continue
		}
		s.addSig(&sigEv{p, sig, 0, 1 << 30, "replicated"}, nil)
	}
}

// ---- operations ----

type clop struct {
	name string
	f    func(s *ClSys) string
}

func oSign(node int, p P) clop {
	return clop{fmt.Sprintf("n%d signs %s", node, p), func(s *ClSys) string {
		r := s.sign(node, p)
		s.last = r.Class()
		return r.Class()
	}}
}

// oAsync starts a request without waiting for it.
func oAsync(node int, p P) clop {
	return clop{fmt.Sprintf("n%d starts %s", node, p), func(s *ClSys) string {
		if !s.up[node-1] {
			return "-"
		}
		r, t := s.begin(node, p)
		s.pend = append(s.pend, t)
		s.pendR = append(s.pendR, r)
		return "."
	}}
}

func oLeader(node int) clop {
	return clop{fmt.Sprintf("leader n%d", node), func(s *ClSys) string {
		if node > 0 && !s.up[node-1] {
			return "-"
		}
		id := fmt.Sprint(node)
		if node == 0 {
			id = ""
		} else {
			// whoever wins an election has the whole log
			delete(vraft.C.Held, id)
		}
		vraft.C.SetLeader(id)
		vsched.Idle()
		return ""
	}}
}

// oStale: another node is elected while the present leader does not notice.
func oStale(next int) clop {
	return clop{fmt.Sprintf("leader n%d, the old one stays in the belief", next), func(s *ClSys) string {
		old := vraft.C.Leader
		if !s.up[next-1] || old == "" || old == fmt.Sprint(next) {
			return "-"
		}
		delete(vraft.C.Held, fmt.Sprint(next))
		vraft.C.Held[old] = true
		vraft.C.SetLeader(fmt.Sprint(next))
		vsched.Idle()
		return ""
	}}
}

// oCut: a node receives nothing from raft any more.
func oCut(node int) clop {
	return clop{fmt.Sprintf("raft cut at n%d", node), func(s *ClSys) string {
		vraft.C.Held[fmt.Sprint(node)] = true
		return ""
	}}
}

// oHeal: everybody hears raft again.
func oHeal() clop {
	return clop{"raft heals", func(s *ClSys) string {
		vraft.C.Held = map[string]bool{}
		for i := range s.Nodes {
			vraft.C.Resync(fmt.Sprint(i + 1))
		}
		vsched.Idle()
		s.sync()
		return ""
	}}
}

func (s *ClSys) crash(node int) {
	if !s.up[node-1] {
		return
	}
	s.Crash(node)
}

func (s *ClSys) restart(node int) {
	if s.up[node-1] {
		return
	}
	d, derr := parseDisk(vos.Get(pvFile(node)))
	if err := s.Start(node); err != nil {
		s.fail("C10", "restart fails", "node %d does not start again: %v", node, err)
		return
	}
	s.up[node-1] = true
	r := &nodeRef{cache: map[HRS]refEnt{}}
	if derr == nil {
		r.last = d.HRS()
		for _, q := range s.all {
			if strings.EqualFold(hex.EncodeToString(q.P.SignBytes()), d.SignBytes) {
				r.cache[r.last] = refEnt{q.P, d.Signature}
			}
		}
	}
	s.ref[node-1] = r
	vsched.Idle()
	s.sync()
}

func oCrash(node int) clop {
	return clop{fmt.Sprintf("crash n%d", node), func(s *ClSys) string { s.crash(node); return "" }}
}

func oRestart(node int) clop {
	return clop{fmt.Sprintf("restart n%d", node), func(s *ClSys) string {
		if s.up[node-1] {
			s.crash(node)
		}
		s.restart(node)
		return ""
	}}
}

// oFault arms a fault on the k-th call (0 first) matching for the next request.
func oFault(what, method, dst string, k int, f vgrpc.Fault) clop {
	return clop{fmt.Sprintf("next: %s %s->%s #%d", what, method, dst, k), func(s *ClSys) string {
		n := 0
		s.fault = func(c *vgrpc.Call) vgrpc.Fault {
			if c.Method != method || (dst != "" && c.Dst != dst) {
				return vgrpc.Fault{}
			}
			n++
			if n-1 == k {
				return f
			}
			return vgrpc.Fault{}
		}
		return ""
	}}
}

// repair restarts what crashed and elects a leader if there is none.
func (s *ClSys) repair() {
	vsched.Idle()
	for i := range s.up {
		if !s.up[i] {
			s.restart(i + 1)
		}
	}
	if vraft.C.Leader == "" {
		vraft.C.SetLeader(fmt.Sprint(s.K.N))
	}
	vsched.Idle()
	s.sync()
}

// settle waits for everything in flight.
func (s *ClSys) settle() {
	vsched.Join(s.pend...)
	s.pend = nil
	vsched.IdleFor(30 * time.Second)
	s.clock++
	for _, r := range s.pendR {
		s.judge(r)
	}
	s.pendR = nil
	s.sync()
}

const maxRequest = 20 * time.Second

// bounded checks the duration of every request.
func (s *ClSys) bounded() {
	per := map[int]time.Duration{}
	for _, r := range s.all {
		per[r.Node]++
	}
	for _, r := range s.all {
		// requests at one node are served one after the other
		if r.Done && r.Dur > maxRequest*per[r.Node] {
			s.fail("C10", "request took too long", "the request for %s at node %d took %v", r.P, r.Node, r.Dur)
		}
		if !r.Done && !r.Lost {
			s.fail("C10", "request never answered", "the request for %s at node %d was not answered", r.P, r.Node)
		}
	}
}

func opNames(ops []clop) (out []string) {
	for _, o := range ops {
		out = append(out, o.name)
	}
	return
}

// world describes a family of cluster executions.
type world struct {
	prop   string // properties whose oracles apply
	name   string
	weight float64
	t, n   int
	maps   bool // scheduling points at accesses to maps
	setup  func(s *ClSys)
	check  func(s *ClSys)
}

func (w world) start(x *X) *ClSys {
	vraft.C.Leader = "1"
	s := newClSys(x, w.prop, w.t, w.n)
	if w.setup != nil {
		w.setup(s)
	}
	return s
}

func (w world) end(s *ClSys) {
	s.settle()
	s.checkLog()
	s.bounded()
	if w.check != nil {
		w.check(s)
	}
}

func (w world) after(x *X, r *vsched.Result) {
	if !strings.Contains(w.prop, "C10") {
		return
	}
	failPanics(x, r)
	if r.StepLimit {
		x.Failf("does not settle", "the system is still busy after %d steps", r.Steps)
	}
}

// seq enumerates operation sequences on a cluster.
func (w world) seq(pre, ops []clop, depth int, post ...clop) Job {
	return Job{Name: w.name, Weight: w.weight, Run: func(c *Ctx) {
		q := &Seq{Name: w.name, Ops: opNames(ops), Depth: depth, Cfg: vsched.Config{MaxSteps: 200000},
			Before: func(x *X) { resetWorld() },
			Run: func(x *X, seq []int) int {
				s := w.start(x)
				for _, o := range pre {
					o.f(s)
				}
				for _, i := range seq {
					if o := ops[i].f(s); o != "" {
						x.Out("%s", o)
					}
				}
				for _, o := range post {
					if o := o.f(s); o != "" {
						x.Out("%s", o)
					}
				}
				w.end(s)
				return len(seq)
			},
			After: w.after,
		}
		q.Explore(c)
	}}
}

// conc explores interleavings and environment choices of concurrent requests.
func (w world) conc(bound int, kinds map[byte]int, filter string, run func(s *ClSys)) Job {
	return Job{Name: w.name, Weight: w.weight, Run: func(c *Ctx) {
		sc := &Scn{Name: w.name, Bound: bound, Kind: kinds, Cfg: vsched.Config{MaxSteps: 200000, YieldFilter: filter, MapYield: w.maps}, Before: func(x *X) { resetWorld() },
			Body: func(x *X) {
				s := w.start(x)
				s.noRef = true
				run(s)
				vsched.SetStmtYield(false)
				w.end(s)
				var o []string
				for _, r := range s.all {
					o = append(o, r.Class())
				}
				x.Out("%s", strings.Join(o, ","))
			},
			After: w.after}
		sc.Explore(c)
	}}
}

func (s *ClSys) isLeaderless() bool { return vraft.C.Leader == "" }
