//go:build vsimprog

package main

import (
	"bytes"
	"fmt"
	"strings"
	"syscall"
	"time"

	"github.com/strangelove-ventures/horcrux/signer/proto"
	"github.com/strangelove-ventures/horcrux/vsim/vgrpc"
	"github.com/strangelove-ventures/horcrux/vsim/vos"
	"github.com/strangelove-ventures/horcrux/vsim/vraft"
	"github.com/strangelove-ventures/horcrux/vsim/vsched"
)

// Lives of real processes: one of them loses power at any operation of its
// disk, or one operation of its disk fails; it is started again on whatever the
// disk may hold then.

// what happens to the victim
const (
	stopBefore = iota // no power before the operation
	stopIn            // no power during it
	diskError         // it fails
	diskFull          // it fails, a write after half of the data
	stopSlow          // it takes long, and there is no power before it is done
	diskSlow          // it takes long
	stopCall          // no power at a call from or to it
	stopReply         // no power once such a call is answered
	disturbances
)

type life struct {
	id     string // judged property
	leader string // "" for a single signer
	victim int
	early  bool // from the start of the victim on
	now    bool // the victim is started again at once, or only after the requests
	ops    int
	bound  int
	reqs   []lifeReq
}

type lifeReq struct {
	node int
	p    P
}

func (l life) name() string {
	n := "program: disk of node " + fmt.Sprint(l.victim) + ", leader " + l.leader
	if l.leader == "" {
		n = "program: disk of a single signer"
	}
	if l.early {
		n += ", while it starts"
	}
	if !l.now {
		n += ", back at the end"
	}
	if l.bound > 0 && l.leader != "" && !l.early {
		n += ", any schedule"
	}
	return n
}

// answer is a released signature.
type answer struct {
	p   P
	sig []byte
}

type lifeSys struct {
	*progSys
	l     life
	dir   string
	node  string
	armed bool
	fired bool
	what  int
	n, k  int
	at    int // operations on the disk when the power failed
	torn  bool
	slow  bool // an operation is going on
	rel   []answer
	asked map[P]bool
	share HRS // highest position of a share the victim has given away
	img   int // chosen of what the disk may hold
	opts  int // and how many there are
}

// fail reports a kind of failure that the property is about.
func (s *lifeSys) fail(kind, f string, a ...interface{}) {
	about := map[string]string{
		"C02": "state forgotten,state unreadable,released unrecorded",
		"C04": "conflict,regress",
		"C06": "repeat refused,repeat differs",
		"C10": "no service,healthy node ends",
		"C13": "conflict,regress,state unreadable,repeat differs,does not start",
		"C16": "does not start,files changed by the start,conflict,regress",
	}[s.l.id]
	for _, k := range strings.Split(about, ",") {
		if k == kind {
			s.x.Failf(kind, f, a...)
		}
	}
}

func (s *lifeSys) arm() {
	mine := func(p string) bool { return strings.HasPrefix(p, s.dir+"/") }
	vos.Fault = func(op, path string) error {
		if !s.armed || s.fired || s.what >= stopCall || !mine(path) || vsched.Node() != s.node {
			return nil
		}
		if s.n++; s.n != s.k {
			return nil
		}
		switch s.what {
		case stopBefore:
			s.fired, s.at = true, len(vos.Log)
			s.x.Note("node %d loses power before %s of %s", s.l.victim, op, path)
			vsched.Crash(s.node)
		case diskError:
			s.fired = true
			s.x.Note("%s of %s fails", op, path)
			return syscall.EIO
		case stopSlow:
			s.fired = true
			s.x.Note("%s of %s takes long", op, path)
			s.slow = true
			vsched.Sleep(15 * time.Second)
			s.slow = false
			s.at = len(vos.Log)
			s.x.Note("node %d loses power", s.l.victim)
			vsched.Crash(s.node)
		case diskSlow:
			s.fired = true
			s.x.Note("%s of %s takes long", op, path)
			s.slow = true
			vsched.Sleep(15 * time.Second)
			s.slow = false
		case diskFull:
			if op != "write" {
				s.fired = true
				s.x.Note("%s of %s fails: no space", op, path)
				return syscall.ENOSPC
			}
			vos.Partial = func(p string, n int) int {
				vos.Partial = nil
				s.fired = true
				s.x.Note("half a write to %s", p)
				return n / 2
			}
		}
		return nil
	}
	vos.After = func(op *vos.Op) {
		if s.armed && !s.fired && s.what == stopIn && s.n == s.k && mine(op.Path) && vsched.Node() == s.node {
			s.fired, s.at, s.torn = true, len(vos.Log)-1, true
			s.x.Note("node %d loses power during %s of %s", s.l.victim, op.Kind, op.Path)
			vsched.Crash(s.node)
		}
	}
	vsched.OnCrash = append(vsched.OnCrash, func(n string) {
		if n == s.node && s.what >= stopCall && s.fired && s.at == 0 {
			s.at = len(vos.Log)
		}
	})
	vgrpc.Hook = func(c *vgrpc.Call) (f vgrpc.Fault) {
		mine := c.Dst == s.node || c.Src == s.node && s.what == stopCall
		if !s.armed || s.fired || s.what < stopCall || !mine {
			return
		}
		if s.n++; s.n != s.k {
			return
		}
		s.fired = true
		s.x.Note("node %d loses power at a call of %s from %s to %s", s.l.victim, c.Method, c.Src, c.Dst)
		if s.what == stopReply {
			f.CrashAfter = true
			return
		}
		if c.Dst == s.node {
			f.CrashBefore = true
			return
		}
		vsched.Crash(s.node)
		return
	}
	vgrpc.Observe = func(c *vgrpc.Call, reply interface{}, err error) {
		r, ok := c.Args.(*proto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest)
		if !ok || err != nil || c.Dst != s.node || r.Hrst == nil {
			return
		}
		if h := (HRS{r.Hrst.Height, r.Hrst.Round, int8(r.Hrst.Step)}); s.share.Less(h) {
			s.share = h
		}
	}
}

// power chooses what the disk of the victim holds after it stopped without power.
func (s *lifeSys) power() {
	k := s.at
	log := vos.Log
	vos.Log = log[:k]
	if s.torn {
		vos.Log = log[:k+1]
	}
	var opts []map[string][]byte
	seen := map[string]bool{}
	for _, m := range vos.Images(k) {
		img := map[string][]byte{}
		var key bytes.Buffer
		for _, f := range fileNames(m) {
			if strings.HasPrefix(f, s.dir+"/") {
				img[f] = m[f]
				fmt.Fprintf(&key, "%s %q ", f, m[f])
			}
		}
		if !seen[key.String()] {
			seen[key.String()] = true
			opts = append(opts, img)
		}
	}
	vos.Log = log
	s.opts = len(opts)
	if s.img < len(opts) {
		vos.SetPart(s.dir, opts[s.img])
	} else {
		vos.SetPart(s.dir, opts[0])
	}
}

func (s *lifeSys) files() (pv, sh string) {
	if s.solo {
		return singleState, ""
	}
	return pvFile(s.l.victim), shareFile(s.l.victim)
}

// recorded checks the files of the victim against what it has given away.
func (s *lifeSys) recorded() {
	pv, sh := s.files()
	for _, f := range []string{pv, sh} {
		if f == "" {
			continue
		}
		d, err := parseDisk(vos.Get(f))
		if err != nil || vos.Get(f) == nil {
			s.fail("state unreadable", "after the stop %s holds %q", f, clip(string(vos.Get(f)), 100))
			continue
		}
		if f == sh && d.HRS().Less(s.share) {
			s.fail("state forgotten", "a share at %v was given away, after the stop %s holds %v", s.share, f, d.HRS())
		}
	}
}

func (s *lifeSys) down() bool { return s.procs[s.node].ended }

// back starts the victim again.
func (s *lifeSys) back() bool {
	if s.at > 0 {
		s.power()
		s.at = 0
	}
	s.recorded()
	s.armed = false
	s.run1()
	if !s.upq(s.l.victim) {
		s.fail("does not start", "node %d does not start again: its process ends with %d", s.l.victim, s.procs[s.node].code)
		return false
	}
	return true
}

func (s *lifeSys) run1() {
	if s.solo {
		s.exec("n1", "signer", "start")
	} else {
		s.start(s.l.victim)
	}
}

// upq is up without a verdict.
func (s *lifeSys) upq(id int) bool {
	n := nodeName(id)
	vsched.Block(func() bool {
		return s.procs[n].ended || vos.Handled(n) && (s.solo || vgrpc.Serving(fmt.Sprintf("node%d:%d", id, 2220+id)))
	}, "start of "+n)
	if !s.procs[n].ended {
		if !s.solo && vraft.C.Leader == fmt.Sprint(id) {
			vraft.C.SetLeader(vraft.C.Leader) // the others hear of it
		}
		vsched.Idle()
	}
	return !s.procs[n].ended
}

// request asks through a node and judges a signature.
func (s *lifeSys) request(node int, p P) string {
	lead := vraft.C.Leader
	o, sig := s.ask(node, p)
	open := s.asked[p] // it may have been signed before without an answer
	s.asked[p] = true
	vsched.Log("request %s at node %d: %s", p, node, o)
	if o != "sig" {
		return o
	}
	for _, a := range s.rel {
		switch {
		case a.p.HRS() == p.HRS() && !a.p.Same(p):
			s.fail("conflict", "%s is signed after %s", p, a.p)
		case a.p == p && !bytes.Equal(a.sig, sig):
			s.fail("repeat differs", "%s is signed again with another signature", p)
		}
		if p.HRS().Less(a.p.HRS()) && !open {
			s.fail("regress", "%s is signed after %s", p, a.p)
		}
	}
	s.rel = append(s.rel, answer{p, sig})
	if s.l.leader != "" && lead == fmt.Sprint(s.l.victim) && !s.down() && vraft.C.Leader == lead && s.share.Less(p.HRS()) {
		s.share = p.HRS()
	}
	return o
}

func (l life) job() Job {
	return Job{Name: l.name(), Weight: 1, Run: func(c *Ctx) {
		for i := 0; i <= l.ops; i++ {
			if c.replay == nil && i%c.N != c.Shard {
				continue
			}
			one := *c // this worker explores it all
			one.N, one.Shard = 1, 0
			for what := 0; what < disturbances && (i > 0 || what == 0); what++ {
				for img, n := 0, 1; img < n; img++ {
					n = l.explore(&one, i, what, img)
					if c.replay != nil && (what < diskError || what == stopSlow) {
						n = 4
					}
				}
			}
		}
	}}
}

// explore a disturbance at the k-th operation; it gives the number of possible disks.
func (l life) explore(c *Ctx, k, what, img int) int {
	sc := &Scn{Name: fmt.Sprintf("%s, %s operation %d, disk %d", l.name(), [...]string{"stop before", "stop in", "error in", "no space for", "stop in slow", "slow", "stop at a call at", "stop at a reply at"}[what], k, img), Bound: l.bound, Cfg: vsched.Config{MaxSteps: 900000}}
	fired, opts := false, 0
	sc.Body = func(x *X) {
		vsched.Quiet(true)
		s := &lifeSys{progSys: newProgSys(x), l: l, node: nodeName(l.victim), dir: fmt.Sprintf("/n%d", l.victim), asked: map[P]bool{}, k: k, what: what, img: img}
		fired = false
		defer func() {
			if s.opts > opts {
				opts = s.opts
			}
		}()
		if l.leader == "" {
			s.dir = "/.horcrux"
			s.solo = true
			s.prepareSingle(blank)
		} else {
			s.prepare(2, 3, l.leader)
			for i := 1; i <= 3; i++ {
				if i != l.victim {
					s.start(i)
					if !s.up(i) {
						return
					}
				}
			}
		}
		pv, sh := s.files()
		before := string(vos.Get(pv)) + string(vos.Get(sh))
		s.arm()
		vsched.Quiet(!l.early)
		s.armed = l.early
		s.run1()
		if !s.upq(l.victim) {
			fired = s.fired
			if !s.fired {
				s.fail("does not start", "node %d does not start", l.victim)
				return
			}
			if s.at == 0 && string(vos.Get(pv))+string(vos.Get(sh)) != before {
				s.fail("files changed by the start", "a start that failed has left %q and %q", clip(string(vos.Get(pv)), 100), clip(string(vos.Get(sh)), 100))
			}
			if !s.back() {
				return
			}
		}
		s.armed = true
		vsched.Quiet(l.early)
		for _, r := range l.reqs {
			if s.down() && r.node == l.victim {
				continue
			}
			o := s.request(r.node, r.p)
			x.Note("%s at node %d: %s", r.p, r.node, o)
			if s.down() {
				if !s.fired {
					s.fail("healthy node ends", "the process of node %d ends with %d", l.victim, s.procs[s.node].code)
					return
				}
				if l.leader == fmt.Sprint(l.victim) {
					vraft.C.SetLeader(fmt.Sprint(l.victim%3 + 1))
				}
				if l.now && !s.back() {
					return
				}
				if !l.now && l.leader != "" {
					// the others go on
					if o := s.insistOn(l.victim%3+1, P{precommit, r.p.H + 1, 0, 0, 0}); o != "sig" {
						s.fail("no service", "without node %d a new vote is answered with %s", l.victim, o)
					}
				}
			}
		}
		s.armed = false
		if s.slow {
			vsched.IdleFor(16 * time.Second)
			if s.down() && l.leader == fmt.Sprint(l.victim) {
				vraft.C.SetLeader(fmt.Sprint(l.victim%3 + 1))
			}
		}
		fired = s.fired
		vsched.Quiet(true)
		if s.down() && !s.back() {
			return
		}
		vsched.IdleFor(3 * time.Second)
		nodes := []int{1, 2, 3}
		if s.solo {
			nodes = []int{1}
		}
		// what was signed stays signed
		for _, a := range append([]answer{}, s.rel...) {
			for _, n := range nodes {
				if o := s.insistOn(n, a.p); o != "sig" && a.p.H+3 >= s.rel[len(s.rel)-1].p.H && !s.solo && a.p.Typ != proposal {
					s.fail("repeat refused", "node %d answers the repeated %s with %s", n, a.p, o)
				}
				b := a.p
				b.V = 1 - b.V
				s.insistOn(n, b)
			}
		}
		for _, r := range l.reqs {
			s.request(r.node, r.p)
		}
		for _, n := range nodes {
			if o := s.insistOn(n, P{prevote, 20 + int64(n), 0, 0, 0}); o != "sig" {
				s.fail("no service", "in the end node %d answers a vote with %s", n, o)
			}
			s.insistOn(n, P{prevote, 19, 0, 0, 0})
		}
		for i := range nodes {
			if p := s.procs[nodeName(i+1)]; p.ended {
				s.fail("healthy node ends", "the process of node %d ends with %d", i+1, p.code)
			}
		}
		x.Out("fired %v, %d signatures", s.fired, len(s.rel))
	}
	sc.After = func(x *X, r *vsched.Result) {
		if fired { // a state that cannot be written may end a process
			r.Panics = nil
		}
		if l.id == "C10" || l.id == "C13" {
			failPanics(x, r)
		}
	}
	sc.Explore(c)
	return opts
}

// insistOn asks for a new position until there is an answer.
func (s *lifeSys) insistOn(node int, p P) string {
	o := ""
	for i := 0; i < 3; i++ {
		if o = s.request(node, p); o != "no reply" && o != "no connection" {
			break
		}
	}
	return o
}

// lifeJobs for a property.
func lifeJobs(id, tier string) (js []Job) {
	a := []lifeReq{{1, P{prevote, 7, 0, 0, 0}}, {2, P{prevote, 7, 0, 1, 0}}, {1, P{precommit, 7, 0, 0, 0}}, {3, P{prevote, 8, 0, 0, 0}}, {1, P{prevote, 7, 0, 1, 1}}}
	one := []lifeReq{{1, P{proposal, 7, 0, 0, 0}}, {1, P{prevote, 7, 0, 0, 0}}, {1, P{prevote, 7, 0, 1, 0}}, {1, P{precommit, 7, 1, 0, 0}}, {1, P{proposal, 7, 0, 1, 0}}, {1, P{prevote, 8, 0, 0, 0}}}
	switch id {
	case "C13":
		return []Job{life{id: id, victim: 1, now: true, ops: 60, bound: pick(tier, 1, 2), reqs: one}.job()}
	case "C16":
		js = append(js, life{id: id, victim: 1, now: true, early: true, ops: 60, bound: pick(tier, 1, 2), reqs: one}.job())
		for _, l := range []string{"1", "2"} {
			js = append(js, life{id: id, leader: l, victim: 1, now: true, early: true, ops: 60, bound: pick(tier, 0, 1), reqs: a}.job())
		}
	case "C02", "C04", "C06", "C10":
		for _, l := range []string{"1", "2"} {
			for _, now := range []bool{true, false} {
				js = append(js, life{id: id, leader: l, victim: 1, now: now, ops: 60, reqs: a}.job())
			}
			if isThorough(tier) {
				js = append(js, life{id: id, leader: l, victim: 1, now: true, ops: 30, bound: 1, reqs: a[:2]}.job())
			}
		}
	}
	return
}
