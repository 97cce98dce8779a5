package main

import (
	"context"
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/signer/proto"
	"github.com/strangelove-ventures/horcrux/vsim/vcontext"
	"github.com/strangelove-ventures/horcrux/vsim/vgrpc"
	"github.com/strangelove-ventures/horcrux/vsim/vraft"
	"github.com/strangelove-ventures/horcrux/vsim/vsched"
)

// C20: leadership commands reach exactly the intended member.

func raftAddr(id int) string { return strings.TrimPrefix(addrOf(id), "tcp://") }

// transfer sends the RPC to a node from outside.
func transfer(node int, id string) (*proto.CosignerGRPCTransferLeadershipResponse, error) {
	ctx, cancel := vcontext.WithTimeout(context.Background(), 10*time.Second)
	defer cancel()
	cc, err := vgrpc.Dial(raftAddr(node))
	if err != nil {
		return nil, err
	}
	res := &proto.CosignerGRPCTransferLeadershipResponse{}
	err = cc.Invoke(ctx, "/"+proto.CosignerGRPC_ServiceDesc.ServiceName+"/TransferLeadership", &proto.CosignerGRPCTransferLeadershipRequest{LeaderID: id}, res)
	return res, err
}

// askTransfer checks one transfer request.
func (s *ClSys) askTransfer(node int, id string) {
	before := len(vraft.C.Transfers)
	lead := vraft.C.Leader
	var res *proto.CosignerGRPCTransferLeadershipResponse
	var err error
	t := vsched.GoOn("admin", "transfer", func() { res, err = transfer(node, id) })
	vsched.Join(t)
	vsched.Idle()
	if !s.up[node-1] {
		return
	}
	if err != nil {
		s.fail("C20", "transfer request fails", "the request to move leadership to %q at node %d fails: %v", id, node, err)
		return
	}
	calls := vraft.C.Transfers[before:]
	known := 0
	for k := 1; k <= s.K.N; k++ {
		if id == fmt.Sprint(k) {
			known = k
		}
	}
	if len(calls) > 1 {
		s.fail("C20", "several transfers for one request", "the request to move leadership to %q at node %d made %d transfers", id, node, len(calls))
		return
	}
	switch {
	case known > 0 && known != node:
		if len(calls) != 1 || calls[0].Any || calls[0].By != fmt.Sprint(node) || calls[0].ID != id || calls[0].Address != raftAddr(known) {
			s.fail("C20", "transfer to another member", "the request to move leadership to %q at node %d asked for %+v instead of %s at %s", id, node, calls, id, raftAddr(known))
		}
		if res.LeaderID != id || res.LeaderAddress != raftAddr(known) {
			s.fail("C20", "another member reported", "the request to move leadership to %q at node %d reports %q at %q", id, node, res.LeaderID, res.LeaderAddress)
		}
	case known == node && lead == id:
		if len(calls) > 0 || vraft.C.Leader != id {
			s.fail("C20", "leadership moved away from the named member", "the request to keep leadership at node %d asked for %+v, leadership is at %s", node, calls, vraft.C.Leader)
		}
		if res.LeaderID != id || res.LeaderAddress != raftAddr(known) {
			s.fail("C20", "another member reported", "the request to move leadership to %q at node %d reports %q at %q", id, node, res.LeaderID, res.LeaderAddress)
		}
	case known == node:
		for _, c := range calls {
			if !c.Any && c.ID != id {
				s.fail("C20", "transfer to another member", "the request to move leadership to node %d itself asked for %+v", node, c)
			}
		}
	default:
		if len(calls) != 1 || !calls[0].Any || calls[0].By != fmt.Sprint(node) {
			s.fail("C20", "no transfer to any member", "the request to move leadership to %q at node %d asked for %+v instead of any member", id, node, calls)
		}
		if res.LeaderID != "" || res.LeaderAddress != "" {
			s.fail("C20", "another member reported", "the request to move leadership to %q at node %d reports %q at %q", id, node, res.LeaderID, res.LeaderAddress)
		}
	}
	// where leadership went
	switch {
	case lead != fmt.Sprint(node):
		if vraft.C.Leader != lead {
			s.fail("C20", "a node that is not the leader moved leadership", "node %d moved leadership from %s to %s", node, lead, vraft.C.Leader)
		}
	case known > 0 && known != node && s.up[known-1] && !vraft.C.Held[id]:
		if vraft.C.Leader != id {
			s.fail("C20", "leadership went elsewhere", "leadership is at %s instead of %s", vraft.C.Leader, id)
		}
	}
}

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var out [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append([]int{}, p[:i]...)
			q = append(append(q, n), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

var targets = []string{"", "0", "1", "2", "3", "4", "5", "6", "11", "12", "-1", "01", " 1", "2 ", "+2", "1.0", "two", "1,2", "node2", strings.Repeat("1", 300)}

func targetJob(n int, tier string) Job {
	t := n/2 + 1
	var ps [][]int
	if n < 5 {
		ps = perms(n)
	}
	if n == 5 {
		ps = nil
		for _, p := range perms(5) {
			if p[0] < 3 || isThorough(tier) {
				ps = append(ps, p)
			}
		}
	}
	if n == 12 {
		ps = [][]int{{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}, {12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1}}
	}
	per := len(targets) * 2
	total := len(ps) * n * per
	return Job{Name: fmt.Sprintf("targets, %d nodes", n), Weight: 1, Run: func(c *Ctx) {
		EnumSim(c, total, vsched.Config{MaxSteps: 200000}, func(i int, x *X) {
			resetWorld()
			id := targets[i%len(targets)]
			leads := i/len(targets)%2 == 0
			node := 1 + i/per%n
			peerOrder = ps[i/per/n]
			w := world{prop: "C20", t: t, n: n}
			s := w.start(x)
			peerOrder = nil
			if leads {
				oLeader(node).f(s)
			} else {
				oLeader(node%n + 1).f(s)
			}
			x.Note("move to %q at node %d (leader: %v), peers in order %v", id, node, leads, ps[i/per/n])
			s.askTransfer(node, id)
			x.Out("%v", len(vraft.C.Transfers))
			s.checkMembers()
		}, func(i int, x *X, r *vsched.Result) { failPanics(x, r) })
	}}
}

// checkMembers: every node bootstraps with exactly the members and their addresses.
func (s *ClSys) checkMembers() {
	for i := 1; i <= s.K.N; i++ {
		got := map[string]string{}
		cf := vraft.C.Boot[fmt.Sprint(i)]
		for _, v := range cf.Servers {
			got[string(v.ID)] = string(v.Address)
		}
		bad := len(cf.Servers) != s.K.N
		for k := 1; k <= s.K.N; k++ {
			if got[fmt.Sprint(k)] != raftAddr(k) {
				bad = true
			}
		}
		if bad {
			s.fail("C20", "wrong membership", "node %d bootstraps with %v", i, cf.Servers)
		}
	}
}

// writeJob: writes at every node in every leadership situation.
func writeJob() Job { return writesFor("C20", "writes") }

func writesFor(prop, name string) Job {
	type wr struct {
		name string
		f    func(st *signer.RaftStore) error
	}
	ws := []wr{
		{"Set", func(st *signer.RaftStore) error { return st.Set("k", "v") }},
		{"Set of a signature", func(st *signer.RaftStore) error { return st.Set("LSS", `{"Height":50}`) }},
		{"Delete", func(st *signer.RaftStore) error { return st.Delete("k") }},
		{"Emit", func(st *signer.RaftStore) error {
			return st.Emit("LSS", signer.NewSignStateConsensus(50, 0, 1))
		}},
	}
	sit := []string{"follower", "no leader", "candidate", "leader", "stale leader"}
	n := len(ws) * len(sit) * 3
	return Job{Name: name, Weight: 0.5, Run: func(c *Ctx) {
		EnumSim(c, n, vsched.Config{MaxSteps: 200000}, func(i int, x *X) {
			resetWorld()
			w := world{prop: prop, t: 2, n: 3}
			s := w.start(x)
			wt, st, node := ws[i%len(ws)], sit[i/len(ws)%len(sit)], 1+i/len(ws)/len(sit)
			s.sign(1, pA)
			oLeader(node%3 + 1).f(s)
			switch st {
			case "no leader":
				oLeader(0).f(s)
			case "candidate":
				oLeader(0).f(s)
				vraft.C.SetView(fmt.Sprint(node), 1, "")
			case "leader":
				oLeader(node).f(s)
			case "stale leader":
				oLeader(node).f(s)
				oStale(node%3 + 1).f(s)
			}
			before, eff := len(vraft.C.Log), s.effects()
			var err error
			tk := vsched.GoOn(nodeName(node), "write", func() { err = wt.f(s.Nodes[node-1].store) })
			vsched.Join(tk)
			vsched.IdleFor(5 * time.Second)
			x.Note("%s at node %d (%s)", wt.name, node, st)
			x.Out("err=%v", err != nil)
			if st == "leader" {
				if err != nil || len(vraft.C.Log) != before+1 {
					s.fail(prop, "the leader refuses a write", "%s at the leader: %v, %d entries written", wt.name, err, len(vraft.C.Log)-before)
				}
				return
			}
			if err == nil {
				s.fail(prop, "a node that is not the leader accepts a write", "%s at node %d (%s) succeeded", wt.name, node, st)
			}
			if len(vraft.C.Log) != before || s.effects() != eff {
				s.fail(prop, "a node that is not the leader writes", "%s at node %d (%s) changed the log or the state", wt.name, node, st)
			}
		}, func(i int, x *X, r *vsched.Result) { failPanics(x, r) })
	}}
}

func oTransfer(node int, id string) clop {
	return clop{fmt.Sprintf("move leadership to %q at the leader +%d", id, node), func(s *ClSys) string {
		// node is relative to the leader, so that most requests reach it
		lead := 0
		for k := 1; k <= s.K.N; k++ {
			if vraft.C.Leader == fmt.Sprint(k) {
				lead = k
			}
		}
		if lead == 0 {
			return "-"
		}
		s.askTransfer((lead-1+node)%s.K.N+1, id)
		return "L" + vraft.C.Leader
	}}
}

// recorded: the log has a signature at the position.
func recorded(p P) bool {
	for _, e := range vraft.C.Log {
		var c struct{ Key, Value string }
		var l signer.SignStateConsensus
		if json.Unmarshal(e.Data, &c) == nil && c.Key == "LSS" && json.Unmarshal([]byte(c.Value), &l) == nil &&
			l.Height == p.H && l.Round == int64(p.R) && l.Step == p.Step() && len(l.Signature) > 0 {
			return true
		}
	}
	return false
}

// while requests are in progress leadership moves.
func (w world) transferring(stmt bool, bound int, reqs []rq, moves []string) Job {
	return w.conc(bound, nil, "", func(s *ClSys) {
		s.noRef = false
		r0 := s.sign(1, pL)
		s.noRef = true
		vsched.SetStmtYield(stmt)
		t := vsched.GoOn("admin", "mover", func() {
			for _, m := range moves {
				for k := 1; k <= s.K.N; k++ {
					if vraft.C.Leader == fmt.Sprint(k) {
						transfer(k, m)
						break
					}
				}
			}
		})
		for _, r := range reqs {
			oAsync(r.node, r.p).f(s)
		}
		vsched.Join(append(s.pend, t)...)
		vsched.SetStmtYield(false)
		s.settle()
		if want := moves[len(moves)-1]; vraft.C.Leader != want {
			s.fail("C20", "leadership went elsewhere", "after moving to %v leadership is at %s", moves, vraft.C.Leader)
		}
		// the cluster goes on, and what was signed and recorded stays signed
		// (a request that leadership leaves behind can end with a signature
		// nobody could record: its leader was no longer allowed to)
		s.noRef = false
		done := map[P][]byte{}
		for _, r := range s.all {
			if r.Done && r.Err == nil && recorded(r.P) {
				done[r.P] = r.Sig
			}
		}
		for _, r := range reqs {
			for n := 1; n <= 3; n++ {
				q := s.sign(n, r.p)
				if done[r.p] != nil && (q.Err != nil || string(q.Sig) != string(done[r.p])) {
					s.fail("C20", "signature lost by moving leadership", "%s was signed before leadership moved, node %d now answers %v", r.p, n, q.Err)
				}
			}
		}
		_ = r0
		s.must("every node answers", 1, P{prevote, 9, 0, 0, 0})
		s.must("every node answers", 3, P{precommit, 9, 0, 0, 0})
	})
}

func init() {
	register(&Check{ID: "C20", Assumptions: []string{"hashicorp/raft is replaced by a model of its contract; a transfer that it accepts succeeds"}, Jobs: func(tier string) []Job {
		w := func(name string, weight float64) world {
			return world{prop: "C20 C04 C05 C06", name: name, weight: weight, t: 2, n: 3}
		}
		ops := []clop{oSign(1, pA), oSign(2, pA), oSign(3, pB), oSign(1, pC), oSign(2, pQ2), oSign(3, pD), oSign(2, pAt),
			oTransfer(0, "1"), oTransfer(0, "2"), oTransfer(0, "3"), oTransfer(0, ""), oTransfer(0, "7"), oTransfer(1, "3"), oTransfer(1, ""), oRestart(2)}
		jobs := []Job{targetJob(2, tier), targetJob(3, tier), targetJob(4, tier), targetJob(5, tier), targetJob(12, tier), writeJob(),
			w("transfers and requests", 4).seq(nil, ops, pick(tier, 4, 5)),
			w("transfers during a request", 2).transferring(true, pick(tier, 1, 2), []rq{{1, pA}}, []string{"2"}),
			w("transfers during requests, coarse", 2).transferring(false, pick(tier, 1, 2), []rq{{1, pA}, {3, pA}}, []string{"3", "1"}),
		}
		w5 := world{prop: "C20 C04 C05 C06", name: "3 of 5: transfers and requests", weight: 1, t: 3, n: 5}
		jobs = append(jobs, w5.seq(nil, []clop{oSign(1, pA), oSign(4, pA), oSign(5, pB), oSign(2, pD), oTransfer(0, "1"), oTransfer(0, "5"), oTransfer(0, "4"), oTransfer(0, ""), oTransfer(2, "2")}, pick(tier, 3, 4)))
		return jobs
	}})
}
