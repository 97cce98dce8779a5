//go:build vsimprog

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/mitchellh/go-homedir"
	"github.com/spf13/afero"
	"github.com/spf13/cobra"
	"github.com/spf13/pflag"
	"github.com/spf13/viper"
	"github.com/strangelove-ventures/horcrux/cmd/horcrux/cmd"
	"github.com/strangelove-ventures/horcrux/signer/proto"
	"github.com/strangelove-ventures/horcrux/vsim/vcontext"
	"github.com/strangelove-ventures/horcrux/vsim/vgrpc"
	"github.com/strangelove-ventures/horcrux/vsim/vnet"
	"github.com/strangelove-ventures/horcrux/vsim/vos"
	"github.com/strangelove-ventures/horcrux/vsim/vraft"
	"github.com/strangelove-ventures/horcrux/vsim/vsched"
	tmjson "github.com/tendermint/tendermint/libs/json"
	"github.com/tendermint/tendermint/privval"
	"gopkg.in/yaml.v2"
)

// The whole program under the scheduler: every process is an execution of the
// real command line on the simulated device, network and clock.

// The variables of the command line are those of one process; they are put
// back before each execution.
var (
	progRoot *cobra.Command
	progVars = globals{at: cmd.VsimGlobals}
)

func init() {
	moreJobs = progJobs
	homedir.DisableCache = true
	for _, g := range cmd.VsimGlobals {
		if c, ok := g.(**cobra.Command); ok && *c != nil {
			progRoot = (*c).Root()
		}
	}
}

type proc struct {
	node  string
	code  int
	ended bool
	task  *vsched.Task
}

type progSys struct {
	x        *X
	K        *Keys
	procs    map[string]*proc
	all      []*proc
	se       map[int]*sentry
	solo     bool // a single signer
	sentries int  // of a node, if more than one
}

// newProgSys is a world without processes.
func newProgSys(x *X) *progSys {
	s := &progSys{x: x, procs: map[string]*proc{}, se: map[int]*sentry{}}
	resetWorld()
	vsched.OnCrash = []func(string){vnet.CloseNode, vos.Ended, func(n string) {
		delete(vraft.C.Nodes, strings.TrimPrefix(n, "n"))
		if p := s.procs[n]; p != nil {
			p.ended = true
		}
	}}
	vos.OnExit = func(node string, code int) {
		vsched.Log("process on %s ends with %d", node, code)
		if p := s.procs[node]; p != nil && !p.ended {
			p.ended, p.code = true, code
		}
	}
	return s
}

// newProcess puts the globals back to those of a new process.
func newProcess(args []string) {
	progVars.reset()
	var walk func(c *cobra.Command)
	walk = func(c *cobra.Command) {
		back := func(f *pflag.Flag) {
			f.Value.Set(f.DefValue)
			f.Changed = false
		}
		c.Flags().VisitAll(back)
		c.PersistentFlags().VisitAll(back)
		for _, d := range c.Commands() {
			walk(d)
		}
	}
	walk(progRoot)
	progRoot.SetOut(io.Discard)
	progRoot.SetErr(io.Discard)
	progRoot.SetArgs(args)
	os.Args = append([]string{"horcrux"}, args...)
	viper.Reset()
	fs := afero.NewMemMapFs()
	for _, f := range vos.List("/") {
		if strings.HasSuffix(f, ".yaml") {
			afero.WriteFile(fs, f, vos.Get(f), 0644)
		}
	}
	viper.SetFs(fs)
	os.Setenv("HOME", "/")
}

// exec starts a process.
func (s *progSys) exec(node string, args ...string) *proc {
	vsched.Revive(node)
	vos.Ended(node)
	p := &proc{node: node, code: -1}
	s.procs[node] = p
	s.all = append(s.all, p)
	p.task = vsched.GoOn(node, "main."+node, func() {
		newProcess(args)
		cmd.Execute()
		vos.Exit(0)
	})
	return p
}

// run executes a command to its end.
func (s *progSys) run(args ...string) *proc {
	p := s.exec("cli", args...)
	vsched.Join(p.task)
	return p
}

var shareText = map[[3]int][]byte{}

func (s *progSys) share(id int) []byte {
	k := [3]int{s.K.T, s.K.N, id}
	if shareText[k] == nil {
		b, err := json.Marshal(&s.K.Shares[id-1])
		if err != nil {
			panic(err)
		}
		shareText[k] = b
	}
	return shareText[k]
}

const blank = `{"height":"0","round":"0","step":0,"ephemeral_public":null}`

func stateText(h, r, step int) string {
	return fmt.Sprintf(`{"height":"%d","round":"%d","step":%d,"ephemeral_public":null}`, h, r, step)
}

// home installs a cosigner.
func (s *progSys) home(id int, sentry bool) {
	h := fmt.Sprintf("/n%d", id)
	vos.MkdirAll(h+"/state", 0755)
	type m = yaml.MapSlice
	var peers []m
	for j := 1; j <= s.K.N; j++ {
		if j != id {
			peers = append(peers, m{{Key: "share-id", Value: j}, {Key: "p2p-addr", Value: addrOf(j)}})
		}
	}
	c := m{{Key: "home-dir", Value: h}, {Key: "chain-id", Value: chain},
		{Key: "cosigner", Value: m{{Key: "threshold", Value: s.K.T}, {Key: "shares", Value: s.K.N}, {Key: "p2p-listen", Value: addrOf(id)}, {Key: "peers", Value: peers}, {Key: "rpc-timeout", Value: "1000ms"}}},
		{Key: "chain-nodes", Value: s.nodesOf(id)}}
	b, err := yaml.Marshal(c)
	if err != nil {
		panic(err)
	}
	vos.Put(h+"/config.yaml", b)
	vos.Put(h+"/share.json", s.share(id))
	vos.Put(shareFile(id), []byte(blank))
	vos.Put(pvFile(id), []byte(blank))
	s.listen(id)
}

// nodesOf are the sentries of a node, in its configuration.
func (s *progSys) nodesOf(id int) (ns []yaml.MapSlice) {
	for k := 0; k < s.sentries || k == 0; k++ {
		ns = append(ns, yaml.MapSlice{{Key: "priv-val-addr", Value: fmt.Sprintf("tcp://s%d:%d", id+10*k, 1230+id+10*k)}})
	}
	return
}

// listen puts sentries where node id dials to; the first one is s.se[id], the second s.se[id+10].
func (s *progSys) listen(id int) {
	for k := 0; k < s.sentries || k == 0; k++ {
		s.listenAs(id, id+10*k)
	}
}

func (s *progSys) listenAs(node, id int) {
	e := &sentry{sys: &seSys{x: s.x, node: nodeName(node), pub: s.K.Priv.PubKey(), verify: func(b, sig []byte) bool {
		return len(sig) == 64 && s.K.Priv.PubKey().VerifySignature(b, sig)
	}}, name: fmt.Sprintf("s%d", id), port: 1230 + id}
	l, err := vnet.Listen("tcp", fmt.Sprintf(":%d", e.port))
	if err != nil {
		panic(err)
	}
	e.l = l.(*vnet.Listener)
	s.se[id] = e
}

// start runs node id.
func (s *progSys) start(id int) *proc {
	return s.exec(nodeName(id), "cosigner", "start", "--home", fmt.Sprintf("/n%d", id))
}

// up waits until node id runs.
func (s *progSys) up(id int) bool {
	n := nodeName(id)
	vsched.Block(func() bool {
		return s.procs[n].ended || vos.Handled(n) && (s.solo || vgrpc.Serving(fmt.Sprintf("node%d:%d", id, 2220+id)))
	}, "start of "+n)
	if s.procs[n].ended {
		s.x.Failf("does not start", "node %d does not start: its process ends with %d", id, s.procs[n].code)
		return false
	}
	vsched.Idle()
	return true
}

// ask sends a request through the sentry of a node: sig, err, or what went wrong.
func (s *progSys) ask(id int, p P) (string, []byte) { return s.askAt(s.se[id], p) }

func (s *progSys) askAt(e *sentry, p P) (string, []byte) {
	m := voteReq(p.Vote())
	if p.Typ == proposal {
		m = propReq(p.Proposal())
	}
	if e.c == nil || e.c.PeerClosed() {
		if !e.accept() {
			return "no connection", nil
		}
	}
	e.write(frame(m))
	r, closed, err := e.read(60 * time.Second)
	if closed || err != nil {
		e.c = nil
		return "no reply", nil
	}
	var sig, b []byte
	if v := r.GetSignedVoteResponse(); v != nil {
		if v.Error != nil {
			return "err", nil
		}
		vt := v.Vote
		sig, b = vt.Signature, (&Res{Vote: &vt}).ReturnedBytes()
	} else if v := r.GetSignedProposalResponse(); v != nil {
		if v.Error != nil {
			return "err", nil
		}
		pr := v.Proposal
		sig, b = pr.Signature, (&Res{Prop: &pr}).ReturnedBytes()
	} else {
		s.x.Failf("wrong reply", "%s is answered by a message of another kind", p)
		return "other", nil
	}
	if !e.sys.verify(b, sig) {
		s.x.Failf("reply without a valid signature", "%s is answered with a signature that does not verify", p)
	}
	return "sig", sig
}

// prepare installs a cluster.
func (s *progSys) prepare(t, n int, leader string) {
	s.K = keysFor(t, n)
	for i := 1; i <= n; i++ {
		s.home(i, true)
	}
	vraft.C.Leader = leader
}

// cluster installs and runs a cluster; the nodes in late are not started.
func (s *progSys) cluster(t, n int, leader string, late ...int) bool {
	s.prepare(t, n, leader)
	for i := 1; i <= n; i++ {
		skip := false
		for _, l := range late {
			skip = skip || l == i
		}
		if skip {
			continue
		}
		s.start(i)
		if !s.up(i) {
			return false
		}
	}
	return true
}

// ---- requests of peers while a node starts ----

// early is a request that reaches a node as soon as it listens.
type early struct {
	name string
	do   func(s *progSys, cl proto.CosignerGRPCClient, ctx context.Context) error
}

func earlies() []early {
	key := P{prevote, 7, 0, 0, 0}
	return []early{
		{"sign block", func(s *progSys, cl proto.CosignerGRPCClient, ctx context.Context) error {
			_, err := cl.SignBlock(ctx, &proto.CosignerGRPCSignBlockRequest{ChainID: chain, Block: &proto.Block{Height: key.H, Round: int64(key.R), Step: int32(key.Step()), SignBytes: key.SignBytes(), Timestamp: key.Key().Timestamp}})
			return err
		}},
		{"nonce exchange", func(s *progSys, cl proto.CosignerGRPCClient, ctx context.Context) error {
			_, err := cl.GetEphemeralSecretParts(ctx, &proto.CosignerGRPCGetEphemeralSecretPartsRequest{Hrst: &proto.HRST{Height: key.H, Round: int64(key.R), Step: int32(key.Step()), Timestamp: key.Key().Timestamp}})
			return err
		}},
		{"leadership transfer", func(s *progSys, cl proto.CosignerGRPCClient, ctx context.Context) error {
			_, err := cl.TransferLeadership(ctx, &proto.CosignerGRPCTransferLeadershipRequest{LeaderID: "2"})
			return err
		}},
	}
}

// startJobs: node 1 starts while a peer already asks it for something.
func startJobs(bound int) (js []Job) {
	for _, l := range []string{"1", "2"} {
		for _, e := range earlies() {
			js = append(js, startJob(l, e, bound))
		}
	}
	return js
}

func startJob(leader string, e early, bound int) Job {
	return Job{Name: "program: " + e.name + " while node 1 starts, leader " + leader, Weight: 1, Run: func(c *Ctx) {
		{
			sc := &Scn{Name: c.rep.Name, Bound: bound, Cfg: vsched.Config{MaxSteps: 600000}}
			sc.Body = func(x *X) {
				s := newProgSys(x)
				vsched.Quiet(true)
				if !s.cluster(2, 3, leader, 1) {
					return
				}
				vsched.Quiet(false)
				x.Note("node 1 starts; %s", e.name)
				s.start(1)
				res := "none"
				t := vsched.GoOn("n2", "early", func() {
					vsched.Block(func() bool { return vgrpc.Serving("node1:2221") }, "server start")
					conn, err := vgrpc.Dial("node1:2221")
					if err != nil {
						panic(err)
					}
					ctx, cancel := vcontext.WithTimeout(context.Background(), 2*time.Second)
					defer cancel()
					res = "ok"
					if err := e.do(s, proto.NewCosignerGRPCClient(conn), ctx); err != nil {
						res = "err"
					}
				})
				if !s.up(1) {
					return
				}
				vsched.Join(t)
				vsched.Quiet(true)
				o, _ := s.ask(1, P{prevote, 8, 0, 0, 0})
				x.Out("%s %s", res, o)
				if o != "sig" {
					x.Failf("no service after the start", "node 1 answers a vote with %s after %s during its start", o, e.name)
				}
				s.alive()
			}
			sc.After = func(x *X, r *vsched.Result) { failPanics(x, r) }
			sc.Explore(c)
		}
	}}
}

// insist asks until there is an answer.
func (s *progSys) insist(id int, p P) (string, []byte) {
	for i := 0; i < 3; i++ {
		if o, sig := s.ask(id, p); o != "no reply" {
			return o, sig
		}
	}
	return "no reply", nil
}

// ---- a stop request ----

// stopJob: node 1 is asked to stop while it handles a request.
func stopJob(leader string, times int, single bool, bound int) Job {
	name := "program: stop of node 1, leader " + leader
	if single {
		name = "program: stop of a single signer"
	}
	if times > 1 {
		name += ", repeated"
	}
	return Job{Name: name, Weight: 1, Run: func(c *Ctx) {
		for k := 0; k <= 24; k++ {
			k := k
			sc := &Scn{Name: fmt.Sprintf("%s, event %d", c.rep.Name, k), Bound: bound, Cfg: vsched.Config{MaxSteps: 600000}}
			sc.Body = func(x *X) {
				s := newProgSys(x)
				vsched.Quiet(true)
				if single {
					if !s.single(blank) {
						return
					}
				} else if !s.cluster(2, 3, leader) {
					return
				}
				vsched.Quiet(false)
				a, b := P{prevote, 7, 0, 0, 0}, P{prevote, 7, 0, 1, 0}
				var o string
				var sig []byte
				p := s.procs["n1"]
				// the signal comes at the k-th call or disk operation after the request, or after its answer
				n, fire, answered := 0, k == 0, false
				event := func() {
					if n++; n >= k {
						fire = true
					}
				}
				vgrpc.Hook = func(*vgrpc.Call) (f vgrpc.Fault) { event(); return }
				vos.Fault = func(op, path string) error { event(); return nil }
				req := vsched.GoOn("", "sentry", func() { o, sig = s.ask(1, a); answered = true })
				for i := 0; i < times; i++ {
					vsched.GoOn("", "term/", func() {
						vsched.Block(func() bool { return fire || answered }, "term")
						if !p.ended && s.procs["n1"] == p {
							vos.Raise("n1", syscall.SIGTERM)
						}
					})
				}
				vsched.Block(func() bool { return fire || answered }, "signal")
				for i := 0; i < 60 && !p.ended; i++ {
					vsched.IdleFor(time.Second)
				}
				if !p.ended {
					x.Failf("does not end", "the process does not end within a minute of the signal")
					return
				}
				if p.code != 0 {
					x.Failf("does not report success", "the process ends with %d after the signal", p.code)
				}
				vsched.Join(req)
				vsched.Quiet(true)
				x.Note("signal at event %d; the sentry got: %s", k, o)
				if !single {
					s.procs["n1"].ended = false
					s.alive()
					s.procs["n1"].ended = true
					if leader == "1" {
						vraft.C.SetLeader("2")
					}
				}
				// again
				if single {
					s.exec("n1", "signer", "start")
				} else {
					s.start(1)
				}
				if !s.up(1) {
					return
				}
				o2, sig2 := s.insist(1, a)
				x.Out("%s %s", o, o2)
				if o2 != "sig" && (o == "sig" || single) {
					x.Failf("does not resume", "the request (answered before the stop: %s) is answered with %s after the restart", o, o2)
				} else if o == "sig" && o2 == "sig" && !bytes.Equal(sig, sig2) {
					x.Failf("another signature after the restart", "the request was answered before the stop and is answered with another signature after the restart")
				}
				if o3, _ := s.insist(1, b); o3 == "sig" && (o == "sig" || o2 == "sig") {
					x.Failf("conflicting signature after the restart", "%s is signed after %s", b, a)
				}
				if o4, _ := s.insist(1, P{precommit, 7, 0, 0, 0}); o4 != "sig" {
					x.Failf("no service after the restart", "the next step is answered with %s", o4)
				}
				if !single {
					s.alive()
				}
			}
			sc.After = func(x *X, r *vsched.Result) { failPanics(x, r) }
			sc.Explore(c)
			if single && k > 12 {
				break
			}
		}
	}}
}

// downJob: node 1 stops while node 2 is asked; a threshold still runs.
func downJob(leader string, bound int) Job {
	return Job{Name: "program: others while node 1 stops, leader " + leader, Weight: 1, Run: func(c *Ctx) {
		sc := &Scn{Name: c.rep.Name, Bound: bound, Cfg: vsched.Config{MaxSteps: 600000}}
		sc.Body = func(x *X) {
			s := newProgSys(x)
			vsched.Quiet(true)
			if !s.cluster(2, 3, leader) {
				return
			}
			vsched.Quiet(false)
			a := P{prevote, 7, 0, 0, 0}
			var o string
			req := vsched.GoOn("", "sentry", func() { o, _ = s.ask(2, a) })
			vsched.GoOn("", "term", func() { vos.Raise("n1", syscall.SIGTERM) })
			vsched.Join(req)
			p := s.procs["n1"]
			for i := 0; i < 60 && !p.ended; i++ {
				vsched.IdleFor(time.Second)
			}
			if !p.ended || p.code != 0 {
				x.Failf("does not end", "the process has not ended with success within a minute of the signal: %d", p.code)
				return
			}
			p.ended = false
			s.alive()
			p.ended = true
			if leader == "1" {
				vraft.C.SetLeader("2")
			}
			o2, _ := s.insist(2, P{prevote, 8, 0, 0, 0})
			x.Out("%s %s", o, o2)
			if o2 != "sig" {
				x.Failf("the rest does not sign", "with node 1 stopped a vote is answered with %s", o2)
			}
		}
		sc.After = func(x *X, r *vsched.Result) { failPanics(x, r) }
		sc.Explore(c)
	}}
}

// single installs and runs a single signer on node n1.
func (s *progSys) single(state string) bool {
	s.prepareSingle(state)
	s.exec("n1", "signer", "start")
	return s.up(1)
}

func (s *progSys) prepareSingle(state string) {
	s.K = keysFor(2, 3)
	h := "/.horcrux"
	b, err := yaml.Marshal(yaml.MapSlice{{Key: "home-dir", Value: h}, {Key: "chain-id", Value: chain},
		{Key: "chain-nodes", Value: s.nodesOf(1)}})
	if err != nil {
		panic(err)
	}
	vos.Put(h+"/config.yaml", b)
	vos.Put(h+"/priv_validator_key.json", keyText(s.K))
	vos.Put(singleState, []byte(state))
	s.listen(1)
	s.solo = true
}

const singleState = "/.horcrux/state/" + chain + "_priv_validator_state.json"

func keyText(k *Keys) []byte {
	b, err := tmjson.Marshal(privval.FilePVKey{Address: k.Priv.PubKey().Address(), PubKey: k.Priv.PubKey(), PrivKey: k.Priv})
	if err != nil {
		panic(err)
	}
	return b
}

// alive: no process has ended.
func (s *progSys) alive() {
	var ns []string
	for n := range s.procs {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		if n != "cli" && s.procs[n].ended {
			s.x.Failf("a process ends", "the process of %s ends with %d", n, s.procs[n].code)
		}
	}
}

func progJobs(id, tier string) []Job {
	if progRoot == nil {
		return nil
	}
	switch id {
	case "C12", "C18":
		return startJobs(pick(tier, 1, 2))
	case "C22":
		return []Job{stopJob("1", 1, false, 1), stopJob("2", 1, false, 1), stopJob("2", 2, false, 1), downJob("1", pick(tier, 1, 2)), downJob("2", pick(tier, 1, 2)), stopJob("", 1, true, 2), stopJob("", 2, true, 2)}
	case "C14", "C15":
		return []Job{cliJob(id)}
	}
	if id == "C13" {
		return append(lifeJobs(id, tier), pairProg(id, pick(tier, 1, 2)))
	}
	return lifeJobs(id, tier)
}
