package main

import (
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/hashicorp/go-hclog"
	"github.com/hashicorp/raft"
	"github.com/strangelove-ventures/horcrux/vsim/vraft"
	"github.com/strangelove-ventures/horcrux/vsim/vsched"
)

// The raft model against hashicorp/raft itself: the same histories are run on
// three members of the real library (in memory transport, real time) and on the
// model, and every operation's outcome, the leader everybody sees and the
// contents of every state machine are compared. Who wins an election is the
// environment's choice in the model; the real winner is given to it.

// listFSM collects the entries applied to it.
type listFSM struct {
	mu sync.Mutex
	l  []string
}

func (f *listFSM) Apply(l *raft.Log) interface{} {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.l = append(f.l, string(l.Data))
	return len(f.l)
}

type listSnap struct{ b []byte }

func (f *listFSM) Snapshot() (raft.FSMSnapshot, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	b, err := json.Marshal(f.l)
	return &listSnap{b}, err
}

func (s *listSnap) Persist(w raft.SnapshotSink) error {
	if _, err := w.Write(s.b); err != nil {
		return err
	}
	return w.Close()
}
func (s *listSnap) Release() {}

func (f *listFSM) Restore(r io.ReadCloser) error {
	b, err := ioutil.ReadAll(r)
	if err != nil {
		return err
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	f.l = nil
	return json.Unmarshal(b, &f.l)
}

func (f *listFSM) list() string {
	f.mu.Lock()
	defer f.mu.Unlock()
	return strings.Join(f.l, ",")
}

func errClass(err error) string {
	switch err {
	case nil:
		return "ok"
	case raft.ErrNotLeader:
		return "not leader"
	case raft.ErrLeadershipLost:
		return "leadership lost"
	}
	return "refused"
}

// rop is an operation; members are named relative to the leader: L leads, F and
// G are the others in the order of their numbers.
type rop struct{ what, who, to string }

func (o rop) String() string { return strings.TrimSpace(o.what + " " + o.who + " " + o.to) }

// members resolves the relative names.
func raftNames(leader string) map[string]string {
	m := map[string]string{"X": "9", "L": leader}
	k := "F"
	for _, id := range []string{"1", "2", "3"} {
		if id != leader {
			m[k] = id
			k = "G"
		}
	}
	return m
}

// ---- the real library ----

type realRaft struct {
	id    string
	r     *raft.Raft
	fsm   *listFSM
	log   *raft.InmemStore
	snaps *raft.InmemSnapshotStore
	trans *raft.InmemTransport
	up    bool
	cut   bool
}

type realCluster struct {
	m map[string]*realRaft
}

func realAddr(id string) raft.ServerAddress { return raft.ServerAddress("host" + id + ":1") }

func (c *realCluster) start(id string) error {
	n := c.m[id]
	cf := raft.DefaultConfig()
	cf.LocalID = raft.ServerID(id)
	cf.HeartbeatTimeout, cf.ElectionTimeout, cf.LeaderLeaseTimeout, cf.CommitTimeout = 150*time.Millisecond, 150*time.Millisecond, 150*time.Millisecond, 5*time.Millisecond
	cf.Logger = hclog.New(&hclog.LoggerOptions{Output: ioutil.Discard})
	n.fsm = &listFSM{}
	_, n.trans = raft.NewInmemTransport(realAddr(id))
	r, err := raft.NewRaft(cf, n.fsm, n.log, n.log, n.snaps, n.trans)
	if err != nil {
		return err
	}
	n.r, n.up = r, true
	c.connect()
	return nil
}

// connect links all running members that are not cut off.
func (c *realCluster) connect() {
	for _, a := range c.m {
		for _, b := range c.m {
			if a == b || a.trans == nil || b.trans == nil {
				continue
			}
			if a.up && b.up && !a.cut && !b.cut {
				a.trans.Connect(realAddr(b.id), b.trans)
			} else {
				a.trans.Disconnect(realAddr(b.id))
			}
		}
	}
}

func raftMembers() (c raft.Configuration) {
	for _, id := range []string{"1", "2", "3"} {
		c.Servers = append(c.Servers, raft.Server{ID: raft.ServerID(id), Address: realAddr(id)})
	}
	return
}

func newRealCluster() (*realCluster, error) {
	c := &realCluster{m: map[string]*realRaft{}}
	conf := raftMembers()
	for _, id := range []string{"1", "2", "3"} {
		c.m[id] = &realRaft{id: id, log: raft.NewInmemStore(), snaps: raft.NewInmemSnapshotStore()}
	}
	for _, id := range []string{"1", "2", "3"} {
		if err := c.start(id); err != nil {
			return nil, err
		}
	}
	for _, id := range []string{"1", "2", "3"} {
		if err := c.m[id].r.BootstrapCluster(conf).Error(); err != nil && err != raft.ErrCantBootstrap {
			return nil, err
		}
	}
	return c, nil
}

func (c *realCluster) stop() {
	for _, n := range c.m {
		if n.up {
			_ = n.r.Shutdown().Error()
		}
	}
}

// settle waits until the connected members agree and have applied everything.
func (c *realCluster) settle() (string, bool) {
	end := time.Now().Add(8 * time.Second)
	good, last := 0, ""
	for time.Now().Before(end) {
		lead, ok, n := "", true, 0
		var cur []string
		for _, id := range []string{"1", "2", "3"} {
			m := c.m[id]
			if !m.up || m.cut {
				continue
			}
			n++
			a := string(m.r.Leader())
			if lead == "" {
				lead = a
			}
			ok = ok && a != "" && a == lead
			cur = append(cur, m.fsm.list())
		}
		for _, s := range cur {
			ok = ok && s == cur[0]
		}
		if n < 2 {
			return "", false
		}
		id := strings.TrimSuffix(strings.TrimPrefix(lead, "host"), ":1")
		if ok && c.m[id] != nil && c.m[id].r.State() == raft.Leader && c.m[id].up && !c.m[id].cut && c.m[id].r.VerifyLeader().Error() == nil && c.m[id].r.Barrier(time.Second).Error() == nil {
			k := lead + fmt.Sprint(cur)
			if k == last {
				good++
			} else {
				good, last = 1, k
			}
			if good >= 4 {
				return id, true
			}
		} else {
			good = 0
		}
		time.Sleep(10 * time.Millisecond)
	}
	return "", false
}

// do performs an operation on the real cluster.
func (c *realCluster) do(o rop, leader string, n int) string {
	m := raftNames(leader)
	a := c.m[m[o.who]]
	switch o.what {
	case "apply":
		if !a.up {
			return "-"
		}
		return errClass(a.r.Apply([]byte(fmt.Sprint("e", n)), 2*time.Second).Error())
	case "transfer":
		if !a.up {
			return "-"
		}
		if o.to == "" {
			return errClass(a.r.LeadershipTransfer().Error())
		}
		return errClass(a.r.LeadershipTransferToServer(raft.ServerID(m[o.to]), realAddr(m[o.to])).Error())
	case "snapshot":
		if !a.up {
			return "-"
		}
		if err := a.r.Snapshot().Error(); err != nil && err != raft.ErrNothingNewToSnapshot {
			return errClass(err)
		}
		return "ok"
	case "bootstrap":
		if !a.up {
			return "-"
		}
		return errClass(a.r.BootstrapCluster(raft.Configuration{Servers: []raft.Server{{ID: raft.ServerID(a.id), Address: realAddr(a.id)}}}).Error())
	case "verify":
		if !a.up {
			return "-"
		}
		return errClass(a.r.VerifyLeader().Error())
	case "crash":
		if !a.up {
			return "-"
		}
		_ = a.r.Shutdown().Error()
		a.up = false
		c.connect()
		return "ok"
	case "start":
		if a.up {
			return "-"
		}
		return errClass(c.start(a.id))
	case "cut":
		a.cut = true
		c.connect()
		return "ok"
	case "heal":
		for _, x := range c.m {
			x.cut = false
		}
		c.connect()
		return "ok"
	}
	panic(o.what)
}

// ---- the model ----

func modelStart(id string, fsm *listFSM) error {
	cf := raft.DefaultConfig()
	cf.LocalID = raft.ServerID(id)
	_, err := vraft.NewRaft(cf, fsm, nil, nil, nil, vraft.NewTransport(realAddr(id), nil).Transport())
	return err
}

type modelCluster struct {
	fsm map[string]*listFSM
	up  map[string]bool
}

func (c *modelCluster) do(o rop, leader string, n int) string {
	m := raftNames(leader)
	id := m[o.who]
	r := vraft.C.Nodes[id]
	if o.what != "start" && o.what != "heal" && !c.up[id] {
		return "-"
	}
	switch o.what {
	case "apply":
		return errClass(r.Apply([]byte(fmt.Sprint("e", n)), 2*time.Second).Error())
	case "transfer":
		if o.to == "" {
			return errClass(r.LeadershipTransfer().Error())
		}
		return errClass(r.LeadershipTransferToServer(raft.ServerID(m[o.to]), realAddr(m[o.to])).Error())
	case "snapshot":
		return errClass(r.Snapshot().Error())
	case "bootstrap":
		return errClass(r.BootstrapCluster(raft.Configuration{}).Error())
	case "verify":
		return errClass(r.VerifyLeader().Error())
	case "crash":
		r.Shutdown()
		delete(vraft.C.Nodes, id)
		c.up[id] = false
		if vraft.C.Leader == id {
			vraft.C.SetLeader("")
		}
		return "ok"
	case "start":
		if c.up[id] {
			return "-"
		}
		c.fsm[id] = &listFSM{}
		c.up[id] = true
		return errClass(modelStart(id, c.fsm[id]))
	case "cut":
		vraft.C.Held[id] = true
		return "ok"
	case "heal":
		vraft.C.Held = map[string]bool{}
		for k := range c.up {
			vraft.C.Resync(k)
		}
		return "ok"
	}
	panic(o.what)
}

// histories: at most one member is down or cut off at a time, so that a leader exists.
func raftHistories(depth int) (out [][]rop) {
	ops := []rop{{"transfer", "L", "G"}, {"apply", "L", ""}, {"apply", "F", ""}, {"transfer", "L", ""}, {"transfer", "L", "F"}, {"transfer", "L", "L"}, {"transfer", "L", "X"}, {"transfer", "F", "G"},
		{"snapshot", "L", ""}, {"snapshot", "F", ""}, {"bootstrap", "F", ""}, {"verify", "L", ""}, {"verify", "F", ""},
		{"crash", "L", ""}, {"crash", "F", ""}, {"cut", "L", ""}, {"cut", "F", ""}, {"back", "", ""}}
	var rec func(h []rop, away bool)
	rec = func(h []rop, away bool) {
		if len(h) == depth {
			out = append(out, append([]rop{}, h...))
			return
		}
		for _, o := range ops {
			gone := o.what == "crash" || o.what == "cut"
			if away && gone || o.what == "back" && !away {
				continue
			}
			rec(append(h, o), away && o.what != "back" || gone)
		}
	}
	rec(nil, false)
	return
}

// raftJob compares the model with the library on all histories up to depth.
func raftJob(depth int) Job {
	hs := raftHistories(depth)
	return Job{Name: "raft model against raft", Weight: 2, Run: func(c *Ctx) {
		EnumSim(c, len(hs), vsched.Config{MaxSteps: 200000}, func(i int, x *X) {
			why := ""
			for try := 0; try < 3; try++ {
				resetWorld()
				x.Hist, x.Outcome = nil, nil
				if why = compareRaft(x, hs[i]); why == "" {
					return
				}
			}
			c.rep.Exhaustive = false
			c.rep.Incomplete = "model and library differ: " + why
			fmt.Fprintf(os.Stderr, "raft model: %v: %s\n", hs[i], why)
		}, func(i int, x *X, r *vsched.Result) {})
	}}
}

func compareRaft(x *X, h []rop) string {
	real, err := newRealCluster()
	if err != nil {
		return "no cluster: " + err.Error()
	}
	defer real.stop()
	leader, ok := real.settle()
	if !ok {
		return "no leader at the start"
	}
	mod := &modelCluster{fsm: map[string]*listFSM{}, up: map[string]bool{}}
	for _, id := range []string{"1", "2", "3"} {
		mod.fsm[id], mod.up[id] = &listFSM{}, true
		if err := modelStart(id, mod.fsm[id]); err != nil {
			return err.Error()
		}
		vraft.C.Nodes[id].BootstrapCluster(raftMembers())
	}
	vraft.C.SetLeader(leader)
	vsched.Idle()
	away, awayRop := "", rop{}
	for k, o := range h {
		x.Note("%s", o)
		before := leader
		m := raftNames(leader)
		who := m[o.who]
		if o.what == "back" {
			if awayRop.what == "crash" {
				o = rop{"start", "A", ""}
			} else {
				o = rop{"heal", "A", ""}
			}
			who = away
		}
		if o.who == "A" {
			// name the member that is away relative to the leader
			for _, n := range []string{"L", "F", "G"} {
				if m[n] == away {
					o.who = n
				}
			}
		}
		if who == away && o.what != "start" && o.what != "heal" {
			// what a member that is cut off answers depends on how far it
			// noticed; only its being leader or not is modelled
			x.Out("-")
			continue
		}
		if o.what == "crash" || o.what == "cut" {
			away, awayRop = who, o
		}
		a := real.do(o, before, k)
		if o.what == "start" || o.what == "heal" {
			away = ""
		}
		if leader, ok = real.settle(); !ok {
			return fmt.Sprintf("%s: the library does not settle", o)
		}
		b := mod.do(o, before, k)
		vsched.Idle()
		x.Out("%s:%s", o.what, a)
		if a != b {
			return fmt.Sprintf("%s: the library says %q, the model %q", o, a, b)
		}
		// the leader
		free := o.what == "crash" || o.what == "cut" || o.what == "heal" || o.what == "start" || o.what == "transfer" && o.to == ""
		switch {
		case free && o.what == "transfer" && leader == before:
			return fmt.Sprintf("%s: leadership stays", o)
		case free && leader != vraft.C.Leader:
			vraft.C.SetLeader(leader)
			vsched.Idle()
		case !free && leader != vraft.C.Leader:
			return fmt.Sprintf("%s: the library's leader is %s, the model's %s", o, leader, vraft.C.Leader)
		}
		var ids []string
		for id := range real.m {
			if real.m[id].up && !real.m[id].cut {
				ids = append(ids, id)
			}
		}
		sort.Strings(ids)
		for _, id := range ids {
			if p, q := real.m[id].fsm.list(), mod.fsm[id].list(); p != q {
				return fmt.Sprintf("%s: member %s holds %s, in the model %s", o, id, p, q)
			}
			st, ld := vraft.C.Nodes[id].State(), string(vraft.C.Nodes[id].Leader())
			if (st == raft.Leader) != (id == leader) || ld != string(realAddr(leader)) {
				return fmt.Sprintf("%s: the model's member %s is %v and sees %s; the leader is %s", o, id, st, ld, leader)
			}
			if r := real.m[id].r; (r.State() == raft.Leader) != (id == leader) {
				return "the library changed its mind"
			}
		}
	}
	return ""
}
