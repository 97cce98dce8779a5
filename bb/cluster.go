package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"syscall"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/health/grpc_health_v1"
)

// ---- a cluster of real cosigner processes on the loopback network ----

// Fleet is a cluster of t of n cosigners, each with a home and a sentry.
// settleStops makes members old enough to surely handle signals before they are asked to stop.
var settleStops bool

type Fleet struct {
	s      *Slot
	t, n   int
	chain  string
	ports  []string
	sentry []*Sentry
	procs  []*Proc
	links  []*Link
	pre    Files
}

func home(i int) string { return fmt.Sprintf("n%d/.horcrux", i) }

// newFleet puts the homes; state holds the state files below the homes.
func newFleet(s *Slot, t, n int, chain string, state Files) *Fleet {
	f := &Fleet{s: s, t: t, n: n, chain: chain, procs: make([]*Proc, n), links: make([]*Link, n), pre: Files{}}
	for i := 0; i < n; i++ {
		f.ports = append(f.ports, freePort())
		f.sentry = append(f.sentry, newSentry())
	}
	for i := 0; i < n; i++ {
		c := &Cfg{Home: "/SCRATCH/" + home(i+1), Chain: chain, Cos: &Cos{Threshold: t, Shares: n, Listen: "tcp://127.0.0.1:" + f.ports[i], Timeout: "1000ms"}}
		for j := 0; j < n; j++ {
			if j != i {
				c.Cos.Peers = append(c.Cos.Peers, Peer{j + 1, "tcp://127.0.0.1:" + f.ports[j]})
			}
		}
		c.Nodes = []Node{{"tcp://127.0.0.1:" + f.sentry[i].port}}
		f.pre[home(i+1)+"/config.yaml"] = c.text()
		f.pre[home(i+1)+"/share.json"] = fixture(fmt.Sprintf("share_%d_%d.json", n, i+1))
		for _, p := range []string{shPath(home(i+1), chain), pvPath(home(i+1), chain)} {
			f.pre[p] = St{}.text()
		}
	}
	for k, v := range state {
		if v == "-" {
			delete(f.pre, k)
		} else {
			f.pre[k] = v
		}
	}
	s.put(f.pre)
	return f
}

func (f *Fleet) start(i int) {
	f.procs[i] = f.s.start(Opt{Env: []string{"HOME=" + filepath.Join(f.s.dir, fmt.Sprintf("n%d", i+1))}}, "cosigner", "start")
}

func (f *Fleet) kill(i int) {
	if f.procs[i] != nil {
		f.procs[i].kill()
		f.procs[i] = nil
	}
	if f.links[i] != nil {
		f.links[i].close()
		f.links[i] = nil
	}
}

func (f *Fleet) close() {
	for i := range f.procs {
		f.kill(i)
		f.sentry[i].close()
	}
}

func (f *Fleet) up() (k int) {
	for _, p := range f.procs {
		if p != nil && !p.exited() && !p.paused {
			k++
		}
	}
	return
}

// ask sends a request through the sentry of node i.
func (f *Fleet) ask(i int, r Req, timeout time.Duration) (sb, sig []byte, ts time.Time, refused string, err error) {
	if f.links[i] == nil {
		if f.links[i], err = f.sentry[i].link(f.procs[i], timeout); err != nil {
			return
		}
	}
	m, err := f.links[i].ask(r.msg(f.chain), timeout)
	if err != nil {
		f.links[i].close()
		f.links[i] = nil
		return
	}
	return r.answer(f.chain, m)
}

// leads tells whether node i says it leads.
func (f *Fleet) leads(i int) bool {
	if f.procs[i] == nil || f.procs[i].exited() || f.procs[i].paused {
		return false
	}
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Millisecond)
	defer cancel()
	conn, err := grpc.DialContext(ctx, "127.0.0.1:"+f.ports[i], grpc.WithTransportCredentials(insecure.NewCredentials()), grpc.WithBlock())
	if err != nil {
		return false
	}
	defer conn.Close()
	r, err := grpc_health_v1.NewHealthClient(conn).Check(ctx, &grpc_health_v1.HealthCheckRequest{Service: "Leader"})
	return err == nil && r.Status == grpc_health_v1.HealthCheckResponse_SERVING
}

// leader waits until exactly one running member leads; -1 if there is none.
func (f *Fleet) leader(timeout time.Duration) int {
	for end := time.Now().Add(timeout); time.Now().Before(end); time.Sleep(20 * time.Millisecond) {
		l, k := -1, 0
		for i := range f.procs {
			if f.leads(i) {
				l = i
				k++
			}
		}
		if k == 1 {
			return l
		}
	}
	return -1
}

// state reads a file of a home.
func (f *Fleet) state(p string) string {
	b, err := os.ReadFile(filepath.Join(f.s.dir, p))
	if err != nil {
		return ""
	}
	return string(b)
}

// judge checks a released signature against what was released before.
func (f *Fleet) judge(r Req, sb, sig []byte, ts time.Time, rel released) (fails []Fail) {
	add := func(key, g string, a ...interface{}) { fails = append(fails, Fail{key, fmt.Sprintf(g, a...)}) }
	if !bytes.Equal(sb, r.bytesAt(f.chain, ts)) {
		add("signs something else", "%s: the reply is for %x", r, sb)
	}
	if !valKey.PubKey().VerifySignature(sb, sig) {
		add("the signature is not valid", "%s", r)
	}
	plain := r.bytesAt(f.chain, time.Unix(1, 0))
	for _, x := range rel[r.pos()] {
		if !bytes.Equal(x.sb, plain) {
			add("two payloads signed for one position", "%s: %x and %x", r, x.sb, plain)
		}
	}
	rel[r.pos()] = append(rel[r.pos()], rec{plain, sig})
	return
}

// wave is what happens between requests.
type wave struct {
	kind string // none, kill, elect, restart, back
	node int
}

func (w wave) String() string {
	switch w.kind {
	case "kill", "elect", "kill and start", "pause", "stop", "interrupt", "stop and start":
		return fmt.Sprintf("%s %d", w.kind, w.node+1)
	}
	return w.kind
}

func (f *Fleet) elect(from int, id string) Out {
	args := []string{"elect"}
	if id != "" {
		args = append(args, id)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
	defer cancel()
	cmd := f.s.command(ctx, Opt{Env: []string{"HOME=" + filepath.Join(f.s.dir, fmt.Sprintf("n%d", from+1))}}, args)
	b, err := cmd.CombinedOutput()
	o := Out{Text: clip(string(b))}
	if err != nil {
		o.Code = 1
	}
	o.Timeout = ctx.Err() != nil
	return o
}

// stop asks a member to end.
func (f *Fleet) stop(i int, sig syscall.Signal) (fails []Fail) {
	p := f.procs[i]
	if p == nil || p.paused {
		return nil
	}
	files := []string{shPath(fmt.Sprintf("n%d/.horcrux", i+1), f.chain), pvPath(fmt.Sprintf("n%d/.horcrux", i+1), f.chain)}
	var was [2][3]int64
	for k, q := range files {
		was[k], _, _ = stateOf(f.state(q))
	}
	if settleStops {
		p.settle()
	}
	if e := p.stop(sig, 15*time.Second); e != "" {
		fails = append(fails, Fail{"a stop request does not end the node", fmt.Sprintf("node %d: %s: %s", i+1, e, clip(p.out.String()))})
	}
	f.kill(i)
	for k, q := range files {
		if now, _, err := stateOf(f.state(q)); err != nil || less(now, was[k]) {
			fails = append(fails, Fail{"a stop request loses the recorded state", fmt.Sprintf("node %d: %s: %v after %v (%v)", i+1, q, now, was[k], err)})
		}
	}
	return
}

func (f *Fleet) do(w wave) (fails []Fail) {
	switch w.kind {
	case "kill":
		f.kill(w.node)
	case "pause":
		if f.procs[w.node] != nil {
			f.procs[w.node].pause()
		}
	case "kill and start":
		f.kill(w.node)
		f.start(w.node)
	case "stop", "interrupt", "stop and start":
		sig := syscall.SIGTERM
		if w.kind == "interrupt" {
			sig = os.Interrupt.(syscall.Signal)
		}
		fails = append(fails, f.stop(w.node, sig)...)
		if w.kind == "stop and start" {
			f.start(w.node)
		}
	case "stop all and start":
		for i := range f.procs {
			fails = append(fails, f.stop(i, syscall.SIGTERM)...)
		}
		for i := range f.procs {
			f.start(i)
		}
	case "restart all":
		for i := range f.procs {
			f.kill(i)
		}
		for i := range f.procs {
			f.start(i)
		}
	case "start the killed":
		for i := range f.procs {
			if f.procs[i] == nil {
				f.start(i)
			}
		}
	case "elect":
		if p := f.procs[w.node]; p != nil && !p.paused {
			f.elect(w.node, fmt.Sprint(w.node+1))
		}
	}
	return
}

// history runs requests and waves on a cluster and judges every answer.
type history struct {
	t, n  int
	waves []wave
	via   []int // per phase, the node asked
}

func (h history) String() string {
	return fmt.Sprintf("%d of %d, %v, asking %v", h.t, h.n, h.waves, h.via)
}

func (h history) run(s *Slot) (hist []string, oc string, fails []Fail) {
	add := func(key, g string, a ...interface{}) { fails = append(fails, Fail{key, fmt.Sprintf(g, a...)}) }
	f := newFleet(s, h.t, h.n, "c1", nil)
	defer f.close()
	for i := 0; i < h.n; i++ {
		f.start(i)
	}
	rel := released{}
	type ans struct {
		r  Req
		ts time.Time
		g  []byte
	}
	var last *ans
	height := int64(10)
	phase := func(via int) {
		up := f.up()
		quorum := up >= h.t && 2*up > h.n
		ask := func(r Req, what string, want int) *ans {
			end := time.Now().Add(25 * time.Second)
			for try := 0; ; try++ {
				sb, g, ts, refused, err := f.ask(via, r, 20*time.Second)
				if err != nil {
					if f.procs[via].exited() {
						hist = append(hist, fmt.Sprintf("node %d: %s %s -> the process ended", via+1, what, r))
						add("a process ended", "node %d: %s", via+1, clip(f.procs[via].out.String()))
						return nil
					}
					if err.Error() != "EOF" || try > 3 {
						hist = append(hist, fmt.Sprintf("node %d: %s %s -> no answer", via+1, what, r))
						add("no answer", "%s %s: %v", what, r, err)
						return nil
					}
					continue
				}
				if refused == "" && len(g) == 0 {
					add("success without a signature", "%s", r)
				}
				if len(g) > 0 && refused == "" {
					hist = append(hist, fmt.Sprintf("node %d: %s %s -> signed", via+1, what, r))
					fails = append(fails, f.judge(r, sb, g, ts, rel)...)
					if want == mustFail {
						add("signs "+what, "%s", r)
					}
					return &ans{r, ts, g}
				}
				if len(g) > 0 {
					add("a refusal carries a signature", "%s", r)
				}
				if want == mustOK && time.Now().Before(end) && len(fails) == 0 {
					time.Sleep(50 * time.Millisecond)
					continue
				}
				hist = append(hist, fmt.Sprintf("node %d: %s %s -> refused: %s", via+1, what, r, refused))
				if want == mustOK {
					add("refuses "+what, "%s: %s", r, refused)
				}
				return nil
			}
		}
		ok := mustOK
		if !quorum {
			ok = mustFail
		}
		if last != nil {
			same := ok
			if !quorum {
				same = either
			}
			if a := ask(last.r, "the last position again", same); a != nil && (!a.ts.Equal(last.ts) || !bytes.Equal(a.g, last.g)) {
				add("another answer to the last position", "%v %x after %v %x", a.ts, a.g, last.ts, last.g)
			}
			later := last.r
			later.At += 5
			ask(later, "the last position at another time", either)
			other := last.r
			other.Block++
			ask(other, "a conflicting payload", mustFail)
			low := last.r
			low.H -= 5
			low.Block = 3
			ask(low, "a lower position", mustFail)
		}
		height++
		if a := ask(Req{"P", height, 0, 1, 1}, "a new position", ok); a != nil {
			last = a
		}
		if len(fails) == 0 && quorum {
			if a := ask(Req{"V", height, 0, 1, 1}, "a new position", ok); a != nil {
				last = a
			}
		}
	}
	phase(h.via[0])
	for i, w := range h.waves {
		if len(fails) > 0 {
			break
		}
		hist = append(hist, w.String())
		fails = append(fails, f.do(w)...)
		phase(h.via[i+1])
	}
	for _, w := range h.waves {
		oc += w.kind + ", "
	}
	return
}

func runHistories(c *Ctx, name string, hs []history) {
	Cases(c, name, len(hs), func(i int, s *Slot) ([]string, string, []Fail) { return hs[i].run(s) })
}

// histories1 are all histories of one wave of the kinds.
func histories1(t, n int, kinds ...string) (hs []history) {
	for _, w := range waves(n, kinds...) {
		for via := 0; via < n; via++ {
			if (w.kind == "kill" || w.kind == "pause" || w.kind == "stop" || w.kind == "interrupt") && via == w.node {
				continue
			}
			hs = append(hs, history{t, n, []wave{w}, []int{0, via}})
		}
	}
	return
}

func waves(n int, kinds ...string) (ws []wave) {
	for _, k := range kinds {
		switch k {
		case "kill", "pause", "elect", "kill and start", "stop", "interrupt", "stop and start":
			for i := 0; i < n; i++ {
				ws = append(ws, wave{k, i})
			}
		default:
			ws = append(ws, wave{k, 0})
		}
	}
	return
}

// histories2 are all histories of two waves, asking a node that runs.
func histories2(t, n int, all bool, kinds ...string) (hs []history) {
	ws := waves(n, kinds...)
	for _, a := range ws {
		for _, b := range ws {
			down := map[int]bool{}
			step := func(w wave) {
				switch w.kind {
				case "kill", "pause", "stop", "interrupt":
					down[w.node] = true
				case "start the killed", "restart all", "stop all and start":
					down = map[int]bool{}
				case "kill and start", "stop and start":
					delete(down, w.node)
				}
			}
			var via [][]int
			for _, w := range []wave{a, b} {
				step(w)
				var v []int
				for i := 0; i < n; i++ {
					if !down[i] {
						v = append(v, i)
					}
				}
				via = append(via, v)
			}
			for i, x := range via[0] {
				for j, y := range via[1] {
					if all || i == 0 && j == len(via[1])-1 {
						hs = append(hs, history{t, n, []wave{a, b}, []int{0, x, y}})
					}
				}
			}
		}
	}
	return
}

func init() {
	register("C06", "processes", func(c *Ctx) {
		hs := histories1(2, 3, "none", "restart all", "kill", "elect", "kill and start")
		if tier == "thorough" {
			hs = append(hs, histories2(2, 3, true, "restart all", "kill", "elect", "kill and start", "start the killed")...)
			hs = append(hs, histories1(3, 5, "restart all", "kill", "elect", "kill and start")...)
		}
		runHistories(c, "processes", hs)
	})
	register("C10", "processes", func(c *Ctx) {
		hs := histories1(2, 3, "none", "kill", "pause")
		hs = append(hs, histories1(2, 2, "none", "kill and start", "elect")...)
		hs = append(hs, histories2(3, 5, false, "kill", "pause")...)
		if tier == "thorough" {
			hs = append(hs, histories2(3, 5, true, "kill", "pause")...)
			hs = append(hs, histories2(2, 3, true, "kill", "pause", "kill and start", "start the killed")...)
		}
		runHistories(c, "processes", hs)
	})
	register("C20", "elect", func(c *Ctx) {
		type cs struct {
			n, from, lead int
			arg           string
		}
		var cases []cs
		for _, n := range pickInts([]int{3}, []int{2, 3, 4, 5}) {
			for lead := 0; lead < n; lead++ {
				for from := 0; from < n; from++ {
					// the last ones are not what any member is called
					args := []string{"", "x", "0", fmt.Sprint(n + 1), fmt.Sprintf("0%d", lead+1), fmt.Sprintf("+%d", lead+1), fmt.Sprintf("%d ", lead+1)}
					for i := 0; i < n; i++ {
						args = append(args, fmt.Sprint(i+1))
					}
					for k, a := range args {
						if tier != "thorough" && from != (lead+k)%n {
							continue
						}
						cases = append(cases, cs{n, from, lead, a})
					}
				}
			}
		}
		Cases(c, "elect", len(cases), func(i int, s *Slot) (hist []string, oc string, fails []Fail) {
			k := cases[i]
			add := func(key, g string, a ...interface{}) { fails = append(fails, Fail{key, fmt.Sprintf(g, a...)}) }
			f := newFleet(s, k.n/2+1, k.n, "c1", nil)
			defer f.close()
			for i := 0; i < k.n; i++ {
				f.start(i)
			}
			if f.leader(20*time.Second) < 0 {
				add("no leader", "within 20 s")
				return
			}
			for try := 0; try < 5 && f.leader(5*time.Second) != k.lead; try++ {
				f.elect(k.from, fmt.Sprint(k.lead+1))
			}
			if l := f.leader(5 * time.Second); l != k.lead {
				add("leadership does not move to a named member", "node %d leads, not %d", l+1, k.lead+1)
				return
			}
			hist = append(hist, fmt.Sprintf("%d nodes, %d leads", k.n, k.lead+1), fmt.Sprintf("node %d: elect %q", k.from+1, k.arg))
			o := f.elect(k.from, k.arg)
			if o.Timeout {
				add("the command does not end", "%s", o.Text)
			}
			want, err := strconv.Atoi(k.arg)
			good := err == nil && k.arg == strconv.Itoa(want) && want >= 1 && want <= k.n
			oc = "any member"
			got := -1
			for end := time.Now().Add(5 * time.Second); time.Now().Before(end); time.Sleep(50 * time.Millisecond) {
				got = f.leader(3 * time.Second)
				if good && got == want-1 || !good && got != k.lead && got >= 0 {
					break
				}
			}
			switch {
			case good:
				oc = "named member"
				if got != want-1 {
					add("leadership does not move to a named member", "node %d leads after elect %s (exit %d: %s)", got+1, k.arg, o.Code, o.Text)
				}
				if o.Code != 0 && want-1 != k.lead {
					add("a successful transfer fails", "%s", o.Text)
				}
			default:
				if got == k.lead || got < 0 {
					add("leadership does not move to another member", "node %d still leads (exit %d: %s)", got+1, o.Code, o.Text)
				}
			}
			return
		})
	})
}

func pickInts(q, t []int) []int {
	if tier == "thorough" {
		return t
	}
	return q
}
