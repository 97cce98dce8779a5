// Package vraft is a model of hashicorp/raft's contract towards its user: a
// single committed log applied in order on every node, one true leader, per
// node (possibly stale) leadership views, snapshots and replay after restart.
package vraft

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"sort"
	"time"

	"github.com/hashicorp/raft"
	"github.com/strangelove-ventures/horcrux/vsim/vsched"
)

// Transfer is a recorded leadership transfer.
type Transfer struct {
	By      string
	ID      string
	Address string
	Any     bool
	OK      bool
}

// Cluster is the shared state.
type Cluster struct {
	Nodes     map[string]*Raft
	Log       []*raft.Log
	Leader    string // id of the true leader, "" none
	Transfers []Transfer
	Boot      map[string]raft.Configuration
	Snap      map[string]*snap
	Held      map[string]bool // nodes that currently receive nothing
	AutoElect bool            // a transfer moves leadership at once
	Term      uint64
}

type snap struct {
	index int
	data  []byte
}

// C is the cluster of the current execution.
var C *Cluster

// Reset starts a new cluster.
func Reset() {
	C = &Cluster{Nodes: map[string]*Raft{}, Boot: map[string]raft.Configuration{}, Snap: map[string]*snap{}, Held: map[string]bool{}, AutoElect: true, Term: 1}
}

func init() { Reset() }

// SetLeader makes id the true leader and updates the view of every node not held.
func (c *Cluster) SetLeader(id string) {
	c.Leader = id
	c.Term++
	for _, n := range c.sorted() {
		if c.Held[n.id] && n.id != id {
			continue
		}
		n.sync()
	}
}

func (c *Cluster) sorted() (out []*Raft) {
	for _, n := range c.Nodes {
		out = append(out, n)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return
}

// Resync updates the view of one node to the truth.
func (c *Cluster) Resync(id string) {
	if n := c.Nodes[id]; n != nil {
		n.sync()
	}
}

// SetView overrides the view of a node.
func (c *Cluster) SetView(id string, st raft.RaftState, leader string) {
	n := c.Nodes[id]
	n.state, n.leader = st, raft.ServerAddress(leader)
}

type Raft struct {
	id      string
	node    string
	addr    raft.ServerAddress
	fsm     raft.FSM
	state   raft.RaftState
	leader  raft.ServerAddress
	applied int
	resp    map[int]interface{}
	down    bool
	conf    *raft.Config
	lch     chan bool
}

func (r *Raft) sync() {
	if C.Leader == r.id {
		r.state, r.leader = raft.Leader, r.addr
		return
	}
	r.state = raft.Follower
	r.leader = ""
	if l := C.Nodes[C.Leader]; l != nil {
		r.leader = l.addr
	}
}

// Manager stands in for the raft transport manager.
type Manager struct{ addr raft.ServerAddress }

type Transport struct{ addr raft.ServerAddress }

func NewTransport(addr raft.ServerAddress, _ interface{}) *Manager { return &Manager{addr} }
func (m *Manager) Register(_ interface{})                          {}
func (m *Manager) Transport() *Transport                           { return &Transport{m.addr} }
func (m *Manager) Close() error                                    { return nil }

type Store struct{ path string }

func NewStore(path string) (*Store, error) { return &Store{path}, nil }
func (s *Store) Close() error              { return nil }

type SnapStore struct{}

func NewFileSnapshotStore(_ string, _ int, _ io.Writer) (*SnapStore, error) { return &SnapStore{}, nil }

func NewRaft(conf *raft.Config, fsm raft.FSM, _, _, _ interface{}, trans interface{}) (*Raft, error) {
	r := &Raft{id: string(conf.LocalID), fsm: fsm, node: vsched.Node(), state: raft.Follower, resp: map[int]interface{}{}, conf: conf, lch: make(chan bool, 16)}
	if t, ok := trans.(*Transport); ok {
		r.addr = t.addr
	}
	if s := C.Snap[r.id]; s != nil {
		if err := fsm.Restore(ioutil.NopCloser(bytes.NewReader(s.data))); err != nil {
			return nil, err
		}
		r.applied = s.index
	}
	C.Nodes[r.id] = r
	if !C.Held[r.id] {
		r.sync()
	}
	vsched.GoOn(r.node, "raft-apply."+r.id, r.applyLoop)
	return r, nil
}

func (r *Raft) applyLoop() {
	for {
		vsched.Block(func() bool {
			return r.down || (r.applied < len(C.Log) && !C.Held[r.id] && C.Nodes[r.id] == r)
		}, "raft apply")
		if r.down || vsched.Killed() {
			return
		}
		l := C.Log[r.applied]
		resp := r.fsm.Apply(l)
		if vsched.Killed() {
			return
		}
		r.resp[r.applied] = resp
		r.applied++
		vsched.Yield()
	}
}

type future struct {
	err   error
	index uint64
	resp  interface{}
	wait  func() error
	conf  raft.Configuration
}

func (f *future) Error() error {
	if f.wait != nil {
		w := f.wait
		f.wait = nil
		f.err = w()
	}
	return f.err
}
func (f *future) Index() uint64                     { return f.index }
func (f *future) Response() interface{}             { return f.resp }
func (f *future) Configuration() raft.Configuration { return f.conf }
func (f *future) Open() (*raft.SnapshotMeta, io.ReadCloser, error) {
	return nil, nil, errors.New("vraft: not supported")
}

func (r *Raft) BootstrapCluster(c raft.Configuration) raft.Future {
	if _, ok := C.Boot[r.id]; ok {
		return &future{err: raft.ErrCantBootstrap}
	}
	C.Boot[r.id] = c
	return &future{}
}
func (r *Raft) State() raft.RaftState      { vsched.Yield(); return r.state }
func (r *Raft) Leader() raft.ServerAddress { vsched.Yield(); return r.leader }
func (r *Raft) String() string             { return fmt.Sprintf("Node at %s [%v]", r.addr, r.state) }
func (r *Raft) LastContact() time.Time     { return vsched.Epoch }
func (r *Raft) Stats() map[string]string   { return map[string]string{"state": r.state.String()} }
func (r *Raft) LastIndex() uint64          { return uint64(len(C.Log)) }
func (r *Raft) AppliedIndex() uint64       { return uint64(r.applied) }
func (r *Raft) LeaderCh() <-chan bool      { return r.lch }

func (r *Raft) Apply(cmd []byte, timeout time.Duration) raft.ApplyFuture {
	return r.ApplyLog(raft.Log{Data: cmd}, timeout)
}

// Lossy, if set, decides whether an entry of a leader commits (false: leadership lost while in flight).
var Lossy func(id string) bool

func (r *Raft) ApplyLog(l raft.Log, timeout time.Duration) raft.ApplyFuture {
	vsched.Yield()
	if r.down {
		return &future{err: raft.ErrRaftShutdown}
	}
	if r.state != raft.Leader {
		return &future{err: raft.ErrNotLeader}
	}
	if C.Leader != r.id || C.Held[r.id] || (Lossy != nil && Lossy(r.id)) {
		// a stale leader discovers that it lost leadership within the lease timeout
		f := &future{}
		f.wait = func() error {
			vsched.Sleep(500 * time.Millisecond)
			return raft.ErrLeadershipLost
		}
		return f
	}
	l.Index = uint64(len(C.Log) + 1)
	l.Term = C.Term
	l.Type = raft.LogCommand
	l.Data = append([]byte{}, l.Data...)
	C.Log = append(C.Log, &l)
	i := len(C.Log) - 1
	f := &future{index: l.Index}
	f.wait = func() error {
		vsched.Block(func() bool { return r.applied > i || r.down }, "raft apply future")
		f.resp = r.resp[i]
		return nil
	}
	return f
}

func (r *Raft) Barrier(timeout time.Duration) raft.Future {
	if r.state != raft.Leader {
		return &future{err: raft.ErrNotLeader}
	}
	n := len(C.Log)
	return &future{wait: func() error {
		vsched.Block(func() bool { return r.applied >= n }, "raft barrier")
		return nil
	}}
}

func (r *Raft) VerifyLeader() raft.Future {
	vsched.Yield()
	if r.state != raft.Leader {
		return &future{err: raft.ErrNotLeader}
	}
	if C.Leader != r.id || C.Held[r.id] {
		return &future{err: raft.ErrLeadershipLost}
	}
	return &future{}
}

func (r *Raft) GetConfiguration() raft.ConfigurationFuture {
	return &future{conf: C.Boot[r.id]}
}
func (r *Raft) AddVoter(id raft.ServerID, a raft.ServerAddress, _ uint64, _ time.Duration) raft.IndexFuture {
	if r.state != raft.Leader {
		return &future{err: raft.ErrNotLeader}
	}
	c := C.Boot[r.id]
	c.Servers = append(c.Servers, raft.Server{ID: id, Address: a})
	C.Boot[r.id] = c
	return &future{}
}
func (r *Raft) AddNonvoter(id raft.ServerID, a raft.ServerAddress, p uint64, t time.Duration) raft.IndexFuture {
	return r.AddVoter(id, a, p, t)
}
func (r *Raft) RemoveServer(id raft.ServerID, _ uint64, _ time.Duration) raft.IndexFuture {
	if r.state != raft.Leader {
		return &future{err: raft.ErrNotLeader}
	}
	c := C.Boot[r.id]
	var out []raft.Server
	for _, s := range c.Servers {
		if s.ID != id {
			out = append(out, s)
		}
	}
	c.Servers = out
	C.Boot[r.id] = c
	return &future{}
}
func (r *Raft) DemoteVoter(raft.ServerID, uint64, time.Duration) raft.IndexFuture { return &future{} }
func (r *Raft) Shutdown() raft.Future {
	r.down = true
	r.state = raft.Shutdown
	return &future{}
}

type sink struct {
	bytes.Buffer
	closed, cancelled bool
}

func (s *sink) ID() string    { return "snap" }
func (s *sink) Close() error  { s.closed = true; return nil }
func (s *sink) Cancel() error { s.cancelled = true; return nil }

// Snapshot takes a snapshot of the node's state machine.
func (r *Raft) Snapshot() raft.SnapshotFuture {
	fs, err := r.fsm.Snapshot()
	if err != nil {
		return &future{err: err}
	}
	s := &sink{}
	if err := fs.Persist(s); err != nil {
		return &future{err: err}
	}
	fs.Release()
	C.Snap[r.id] = &snap{index: r.applied, data: append([]byte{}, s.Bytes()...)}
	return &future{}
}

// FSM of the node, for drivers.
func (r *Raft) FSM() raft.FSM { return r.fsm }

// Applied entries.
func (r *Raft) Applied() int { return r.applied }

func (r *Raft) LeadershipTransfer() raft.Future {
	ok := r.state == raft.Leader && C.Leader == r.id
	C.Transfers = append(C.Transfers, Transfer{By: r.id, Any: true, OK: ok})
	if !ok {
		return &future{err: raft.ErrNotLeader}
	}
	if C.AutoElect {
		for _, n := range C.sorted() {
			if n.id != r.id && !C.Held[n.id] && !n.down && !vsched.IsCrashed(n.node) {
				C.SetLeader(n.id)
				break
			}
		}
	}
	return &future{}
}

func (r *Raft) LeadershipTransferToServer(id raft.ServerID, a raft.ServerAddress) raft.Future {
	ok := r.state == raft.Leader && C.Leader == r.id
	C.Transfers = append(C.Transfers, Transfer{By: r.id, ID: string(id), Address: string(a), OK: ok})
	if !ok {
		return &future{err: raft.ErrNotLeader}
	}
	if string(id) == r.id {
		return &future{err: errors.New("cannot transfer leadership to itself")}
	}
	known := false
	for _, m := range C.Boot[r.id].Servers {
		known = known || m.ID == id
	}
	if !known {
		C.Transfers[len(C.Transfers)-1].OK = false
		return &future{err: fmt.Errorf("cannot find replication state for %v", id)}
	}
	n := C.Nodes[string(id)]
	if C.AutoElect && (n == nil || C.Held[n.id] || n.down || vsched.IsCrashed(n.node)) {
		C.Transfers[len(C.Transfers)-1].OK = false
		return &future{wait: func() error {
			vsched.Sleep(time.Second)
			return errors.New("leadership transfer timeout")
		}}
	}
	if C.AutoElect {
		C.SetLeader(n.id)
	}
	return &future{}
}

func (r *Raft) RegisterObserver(*raft.Observer)   {}
func (r *Raft) DeregisterObserver(*raft.Observer) {}
