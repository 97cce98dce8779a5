package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"
)

// ---- C13: lives of a single signer ----

// rec is a signature that was released.
type rec struct {
	sb  []byte // with the timestamp taken out
	sig []byte
}

type released map[[3]int64][]rec

func (r released) top() (t [3]int64) {
	for p := range r {
		if less(t, p) {
			t = p
		}
	}
	return
}

func (r released) key() string {
	var l []string
	for p, rs := range r {
		for _, x := range rs {
			l = append(l, fmt.Sprintf("%v:%x:%x", p, x.sb, x.sig))
		}
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func (r released) clone() released {
	o := released{}
	for k, v := range r {
		o[k] = append([]rec{}, v...)
	}
	return o
}

// stateOf reads the position of a state file in either format.
func stateOf(text string) (p [3]int64, sb []byte, err error) {
	var m struct {
		Height    string
		Round     json.RawMessage
		Step      int64
		SignBytes string
	}
	if err = json.Unmarshal([]byte(text), &m); err != nil {
		return
	}
	if p[0], err = strconv.ParseInt(m.Height, 10, 64); err != nil {
		return
	}
	if p[1], err = strconv.ParseInt(strings.Trim(string(m.Round), `"`), 10, 64); err != nil {
		return
	}
	p[2] = m.Step
	sb, err = hex.DecodeString(m.SignBytes)
	return
}

// life is one run of the signer: its requests, through which sentry each goes,
// and the fault it runs under.
type life struct {
	reqs []Req
	via  []int
	opt  Opt
}

func (l life) faulty() bool { return l.opt.Fsize > 0 || len(l.opt.RO) > 0 || l.opt.Inj != "" }

func (l life) String() string {
	var s []string
	for i, r := range l.reqs {
		t := r.String()
		if l.via != nil {
			t += fmt.Sprintf(" via sentry %d", l.via[i]+1)
		}
		s = append(s, t)
	}
	return l.opt.String() + strings.Join(s, ", ")
}

type node13 struct {
	files Files
	rel   released
	first [3]int64 // what was recorded before anything was signed
	hist  []string
	init  string
}

func (n node13) key() string { return n.files.key() + n.rel.key() + fmt.Sprint(n.first) }

func livesOf(s *Slot, n node13, l life, chain string) (node13, string, []Fail) {
	var fails []Fail
	add := func(key, g string, a ...interface{}) { fails = append(fails, Fail{key, fmt.Sprintf(g, a...)}) }
	e := []*Sentry{newSentry(), newSentry()}
	defer e[0].close()
	defer e[1].close()
	re := strings.NewReplacer("61001", e[0].port, "61003", e[1].port)
	back := strings.NewReplacer(e[0].port, "61001", e[1].port, "61003")
	pre := Files{}
	for k, v := range n.files {
		if strings.HasSuffix(k, "config.yaml") {
			v = re.Replace(v)
		}
		pre[k] = v
	}
	s.put(pre)
	p := s.start(l.opt, "signer", "start")
	patience := 20 * time.Second
	if l.faulty() {
		patience = 1500 * time.Millisecond
	}
	links := map[int]*Link{}
	defer func() {
		for _, k := range links {
			k.close()
		}
	}()
	rel := n.rel.clone()
	oc := ""
	var said []string
	for i, r := range l.reqs {
		w := 0
		if l.via != nil {
			w = l.via[i]
		}
		if links[w] == nil {
			k, err := e[w].link(p, patience)
			if err != nil {
				said = append(said, "no connection")
				if !l.faulty() {
					add("does not start", "%v (%s)", err, clip(p.out.String()))
				}
				break
			}
			links[w] = k
		}
		m, err := links[w].ask(r.msg(chain), patience)
		if err != nil {
			said = append(said, "no answer")
			if !l.faulty() {
				add("no answer", "%s: %v (%s)", r, err, clip(p.out.String()))
			}
			break
		}
		sb, sig, ts, refused, err := r.answer(chain, m)
		if err != nil {
			add("wrong answer", "%s: %v", r, err)
			break
		}
		pos := r.pos()
		top := rel.top()
		if less(top, n.first) {
			top = n.first
		}
		if refused != "" || len(sig) == 0 {
			said = append(said, "refused")
			if refused == "" {
				add("success without a signature", "%s", r)
			}
			if len(sig) > 0 {
				add("a refusal carries a signature", "%s: %s", r, refused)
			}
			mark, _, _ := stateOf(n.files[pvPath(".horcrux", chain)])
			if less(top, pos) && less(mark, pos) && !l.faulty() {
				add("refuses a new position", "%s, last signed %v: %s", r, top, refused)
			}
			for _, x := range rel[pos] {
				if pos == mark && string(x.sb) == string(r.bytesAt(chain, time.Unix(1, 0))) && !l.faulty() && len(l.reqs) == 1 {
					add("refuses to repeat the last signature", "%s: %s", r, refused)
				}
			}
			continue
		}
		said = append(said, "signed")
		if string(sb) != string(r.bytesAt(chain, ts)) {
			add("signs something else", "%s: the reply is for %x", r, sb)
		}
		if !valKey.PubKey().VerifySignature(sb, sig) {
			add("the signature is not valid", "%s", r)
		}
		plain := r.bytesAt(chain, time.Unix(1, 0))
		if less(pos, top) {
			add("signs below an earlier position", "%s after %v", r, top)
		}
		if pos == n.first && len(rel[pos]) == 0 {
			if _, was, err := stateOf(n.files[pvPath(".horcrux", chain)]); err != nil || len(was) == 0 || string(was) != string(r.bytesAt(chain, ts)) {
				add("signs at a position recorded before", "%s", r)
			}
		}
		for _, x := range rel[pos] {
			if string(x.sb) != string(plain) {
				add("two payloads signed for one position", "%s: %x and %x", r, x.sb, plain)
			}
		}
		dup := false
		for _, x := range rel[pos] {
			dup = dup || string(x.sb) == string(plain) && string(x.sig) == string(sig)
		}
		if !dup {
			rel[pos] = append(rel[pos], rec{plain, sig})
		}
	}
	p.kill()
	post := s.get(pre)
	out := Files{}
	for k, v := range post {
		if strings.HasSuffix(k, "config.yaml") {
			v = back.Replace(v)
		}
		if strings.Contains(k, "/state/write-file-atomic-") {
			continue
		}
		out[k] = v
	}
	sp := pvPath(".horcrux", chain)
	if d := n.files.without(sp).diff(out.without(sp)); d != "" {
		add("other files changed", "%s", d)
	}
	now, _, err := stateOf(out[sp])
	was, _, _ := stateOf(n.files[sp])
	switch {
	case err != nil:
		add("the recorded state was lost", "%q: %v", clip(out[sp]), err)
	case less(now, was):
		add("the recorded state moved back", "from %v to %v", was, now)
	case less(now, rel.top()):
		add("a signature was released before its position was recorded", "%v, recorded is %v", rel.top(), now)
	}
	oc = strings.Join(said, " ")
	if oc == "" {
		oc = "nothing asked"
	}
	if l.faulty() {
		oc = "faulty: " + oc
	}
	return node13{files: out, rel: rel, first: n.first, init: n.init, hist: append(append([]string{}, n.hist...), l.String()+" -> "+strings.Join(said, ", "))}, oc, fails
}

func lives13(c *Ctx, name string, inits []node13, menu func(n node13, depth int) []life, depth int) {
	rep := c.report(name)
	rep.Exhaustive = true
	rep.Bound = fmt.Sprintf("%d lives", depth)
	seen := map[string]bool{}
	level := inits
	for _, n := range inits {
		seen[n.key()] = true
	}
	rep.States = len(inits)
	for d := 1; d <= depth && len(rep.Violations) == 0; d++ {
		type job struct {
			n node13
			l life
		}
		var jobs []job
		for _, n := range level {
			for _, l := range menu(n, d) {
				jobs = append(jobs, job{n, l})
			}
		}
		next := make([]*node13, len(jobs))
		par(len(jobs), func(i int) bool {
			if time.Now().After(c.deadline) || len(rep.Violations) > 4 {
				rep.mu.Lock()
				rep.Exhaustive = false
				rep.Incomplete = fmt.Sprintf("stopped in life %d (%d lives)", d, len(jobs))
				rep.mu.Unlock()
				return false
			}
			j := jobs[i]
			one := func() (node13, string, []Fail) {
				s := <-slots
				defer func() { slots <- s }()
				return livesOf(s, j.n, j.l, "c1")
			}
			n, oc, fails := one()
			rep.mu.Lock()
			rep.Executions++
			rep.Transitions += len(j.l.reqs)
			rep.mu.Unlock()
			rep.outcome(oc)
			rep.sample(strings.Join(n.hist, "; "))
			if len(fails) > 0 {
				c.confirm(rep, fails, n.hist, nil, n.init, func() []Fail { _, _, f := one(); return f })
				return true
			}
			next[i] = &n
			return true
		})
		level = nil
		for _, n := range next {
			if n != nil && !seen[n.key()] {
				seen[n.key()] = true
				level = append(level, *n)
			}
		}
		rep.States += len(level)
		if !rep.Exhaustive {
			break
		}
	}
}

func init13(name, state string, first [3]int64, cfg *Cfg) node13 {
	return node13{files: files(cfg, ".horcrux/priv_validator_key.json", fixture("priv_validator_key.json"), pvPath(".horcrux", "c1"), state),
		rel: released{}, first: first, init: name, hist: []string{"start: " + name}}
}

func reqs13(n int) []Req {
	rs := []Req{
		{"V", 5, 1, 1, 1}, {"V", 5, 1, 2, 1}, {"V", 5, 1, 1, 2}, {"C", 5, 1, 1, 1}, {"P", 6, 0, 1, 1}, {"P", 6, 0, 2, 2}, {"V", 5, 0, 1, 1},
		{"V", 5, 1, 0, 1}, {"P", 5, 1, 1, 1}, {"C", 4, 2, 1, 1}, {"C", 5, 1, 2, 1}, {"P", 6, 0, 1, 2}, {"V", 6, 0, 1, 1}, {"V", 6, 1, 1, 1}, {"C", 6, 0, 1, 1}, {"C", 5, 2, 1, 1}, {"P", 5, 2, 1, 1}, {"C", 5, 1, 0, 1},
	}
	if n < len(rs) {
		rs = rs[:n]
	}
	return rs
}

func init() {
	pvState := `{"height":"5","round":1,"step":2}`
	inits := func(cfg *Cfg) []node13 {
		return []node13{
			init13("fresh", St{}.text(), [3]int64{}, cfg),
			init13("recorded 5/1/2 by config", St{H: 5, R: 1, S: 2}.text(), [3]int64{5, 1, 2}, cfg),
			init13("recorded 5/1/2 by a signer", pvState, [3]int64{5, 1, 2}, cfg),
		}
	}
	ops := func(n int, pairs bool) (ls []life) {
		rs := reqs13(n)
		for _, r := range rs {
			ls = append(ls, life{reqs: []Req{r}})
		}
		if pairs {
			for _, a := range rs {
				for _, b := range rs {
					ls = append(ls, life{reqs: []Req{a, b}})
				}
			}
		}
		return
	}
	register("C13", "two sentries", func(c *Ctx) {
		cfg := singleHome("tcp://127.0.0.1:61001", "tcp://127.0.0.1:61003")
		lives13(c, "two sentries", inits(cfg)[:pick(1, 3)], func(n node13, d int) (ls []life) {
			for _, l := range ops(pick(6, 12), d == 1) {
				if len(l.reqs) == 1 {
					l.via = []int{d % 2}
					ls = append(ls, l)
					continue
				}
				l.via = []int{0, 1}
				ls = append(ls, l)
			}
			return
		}, pick(1, 2))
	})
	register("C13", "faults", func(c *Ctx) {
		cfg := singleHome("tcp://127.0.0.1:61001")
		inj := canInject()
		lives13(c, "faults", inits(cfg), func(n node13, d int) (ls []life) {
			rs := []Req{{"P", 6, 0, 1, 1}, {"V", 6, 0, 1, 1}, {"V", 6, 0, 2, 1}, {"C", 6, 0, 0, 1}}
			if d == 2 {
				for _, r := range append(reqs13(pick(6, 18)), rs...) {
					ls = append(ls, life{reqs: []Req{r}})
				}
				return
			}
			var opts []Opt
			for f := 0; f < 400; f += pick(37, 7) {
				opts = append(opts, Opt{Fsize: f + 1})
			}
			opts = append(opts, Opt{RO: []string{".horcrux/state"}})
			if inj {
				for _, call := range []string{"fsync", "rename,renameat,renameat2", "write", "unlink,unlinkat", "chmod,fchmod,fchmodat"} {
					n := 1
					if call == "write" {
						n = pick(6, 12)
					}
					for k := 1; k <= n; k++ {
						opts = append(opts, Opt{Inj: fmt.Sprintf("%s:signal=KILL:when=%d", call, k)}, Opt{Inj: fmt.Sprintf("%s:error=EIO:when=%d", call, k)})
						if call == "write" {
							opts = append(opts, Opt{Inj: fmt.Sprintf("%s:error=ENOSPC:when=%d+", call, k)})
						}
					}
				}
			}
			for _, o := range opts {
				for i, r := range rs {
					if tier != "thorough" && i > 1 {
						break
					}
					ls = append(ls, life{reqs: []Req{r}, opt: o})
					ls = append(ls, life{reqs: []Req{r, rs[(i+1)%len(rs)]}, opt: o})
				}
			}
			return
		}, 2)
	})
	register("C13", "unreadable", func(c *Ctx) {
		sb := singleStart()
		pv := pvPath(".horcrux", "c1")
		ms := append(stateMuts("state", pv), roundMuts("state", pv)...)
		ms = append(ms, fileMuts("state written by a signer", pv, pvState, pick(3, 1))...)
		Cases(c, "unreadable", len(ms), func(i int, s *Slot) ([]string, string, []Fail) {
			oc, fails := startCase(s, "signer", ms[i].f(sb), ms[i].want)
			for j := range fails {
				fails[j].Msg = ms[i].name + ": " + fails[j].Msg
			}
			return []string{ms[i].name + " -> " + oc}, oc, fails
		})
	})
	register("C13", "lives", func(c *Ctx) {
		cfg := singleHome("tcp://127.0.0.1:61001")
		lives13(c, "lives", inits(cfg), func(n node13, d int) []life {
			return ops(pick(7, 18), d == 1 || tier == "thorough" && d == 2 && len(n.rel) == 1 && n.init == "fresh")
		}, pick(2, 3))
	})
}
