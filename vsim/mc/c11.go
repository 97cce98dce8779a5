package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"math"
	"sort"
	"strings"

	"github.com/hashicorp/raft"
	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/vsim/vos"
	"github.com/strangelove-ventures/horcrux/vsim/vraft"
	"github.com/strangelove-ventures/horcrux/vsim/vsched"
	tmlog "github.com/tendermint/tendermint/libs/log"
)

// C11: the replicated log drives every node to the same state.

// entry of the log together with what it means.
type entry struct {
	name string
	data []byte
	op   string // set, del, lss, bad
	k, v string
	p    P
	sig  []byte
}

func cmdBytes(op, k, v string) []byte {
	b, err := json.Marshal(map[string]string{"op": op, "key": k, "value": v})
	if err != nil {
		panic(err)
	}
	return b
}

func eSet(k, v string) entry {
	return entry{name: fmt.Sprintf("set %s=%.8s", k, v), data: cmdBytes("set", k, v), op: "set", k: k, v: v}
}
func eDel(k string) entry {
	return entry{name: "delete " + k, data: cmdBytes("delete", k, ""), op: "del", k: k}
}

// eLSS is a genuine last-signed entry; alt gives another signature for the position.
func eLSS(k *Keys, p P) entry {
	sb := p.SignBytes()
	sig, err := k.Priv.Sign(sb)
	if err != nil {
		panic(err)
	}
	v, err := json.Marshal(signer.SignStateConsensus{Height: p.H, Round: int64(p.R), Step: p.Step(), Signature: sig, SignBytes: sb})
	if err != nil {
		panic(err)
	}
	return entry{name: "signed " + p.String(), data: cmdBytes("set", "LSS", string(v)), op: "lss", p: p, sig: sig}
}

func eBad(name string, data string) entry { return entry{name: name, data: []byte(data), op: "bad"} }
func eBadLSS(v string) entry {
	return entry{name: "signed " + v, data: cmdBytes("set", "LSS", v), op: "bad"}
}

// malformed entries.
func badEntries(k *Keys) []entry {
	p := P{prevote, 60, 0, 0, 0}
	sb := strings.ToUpper(hex.EncodeToString(p.SignBytes()))
	out := []entry{
		eBad("empty", ""), eBad("cut", `{"op":"set","key":"a"`), eBad("null", "null"), eBad("array", "[]"), eBad("number", "7"),
		eBad("unknown op", `{"op":"nop","key":"a","value":"9"}`), eBad("no op", `{"key":"a","value":"9"}`), eBad("types", `{"op":"set","key":1,"value":"9"}`),
		eBad("upper op", `{"op":"SET","key":"a","value":"9"}`), eBad("binary", "\x00\xff\xfe"), eBad("types of value", `{"op":"set","key":"LSS","value":{"Height":60}}`),
	}
	for _, v := range []string{"", "{", "null", "[]", `"x"`, "{}", `{"Height":"60"}`, `{"Height":1e30}`, `{"Height":60.5}`, `{"Height":60,"Step":300}`, `{"Height":-1,"Step":2}`,
		`{"Height":60,"Step":2,"SignBytes":"zz"}`, `{"Height":60,"Step":2,"SignBytes":12}`, `{"Height":60,"Step":2,"Signature":"!"}`,
		// not a record of a signature
		`{"Height":60,"Round":0,"Step":2}`,
		fmt.Sprintf(`{"Height":60,"Round":0,"Step":2,"SignBytes":"%s"}`, sb),
		`{"Height":60,"Round":0,"Step":2,"Signature":"AAAA"}`,
	} {
		out = append(out, eBadLSS(v))
	}
	return out
}

// ref is the meaning of a sequence of entries.
type fsmRef struct {
	kv   map[string]string
	last *entry  // the last entry that raised the watermark
	all  []entry // every entry that raised it
}

func (r *fsmRef) apply(e entry) {
	switch e.op {
	case "set":
		r.kv[e.k] = e.v
	case "del":
		delete(r.kv, e.k)
	case "lss":
		if r.last == nil || r.last.p.HRS().Less(e.p.HRS()) {
			x := e
			r.last = &x
			r.all = append(r.all, e)
		}
	}
}

func newFsmRef() *fsmRef { return &fsmRef{kv: map[string]string{}} }

type logSys struct {
	x    *X
	c    *Cluster
	keys []string
}

func newLogSys(x *X, n int) *logSys {
	return &logSys{x: x, c: &Cluster{K: keysFor(n/2+1, n), x: x, Nodes: make([]*Node, n), Log: tmlog.NewNopLogger()}}
}

func (s *logSys) start(id int) raft.FSM {
	vraft.C.Held[fmt.Sprint(id)] = true
	if err := s.c.Start(id); err != nil {
		panic(err)
	}
	return vraft.C.Nodes[fmt.Sprint(id)].FSM()
}

// on runs f as the node and waits for the end; false: it crashed the node.
func (s *logSys) on(id int, f func()) bool {
	ok := false
	t := vsched.GoOn(nodeName(id), "apply", func() { f(); ok = true })
	vsched.Join(t)
	return ok
}

// same compares a node with the reference.
func (s *logSys) same(id int, when string, r *fsmRef) {
	st := s.c.Nodes[id-1].store
	for _, k := range s.keys {
		v, err := st.Get(k)
		if err != nil || v != r.kv[k] {
			s.x.Failf("wrong contents", "node %d %s: %q is %q (%v) instead of %q", id, when, k, v, err, r.kv[k])
			return
		}
	}
	s.marks(id, when, r)
}

// marks compares both watermarks of the node on its disk.
func (s *logSys) marks(id int, when string, r *fsmRef) {
	want, sb, sig := HRS{}, "", []byte(nil)
	if r.last != nil {
		want, sb, sig = r.last.p.HRS(), strings.ToUpper(hex.EncodeToString(r.last.p.SignBytes())), r.last.sig
	}
	for _, f := range []string{pvFile(id), shareFile(id)} {
		d, err := parseDisk(vos.Get(f))
		if err != nil || d.HRS() != want || d.SignBytes != sb || !bytes.Equal(d.Signature, sig) {
			s.x.Failf("wrong watermark", "node %d %s: %s holds %v (%v), the log says %v", id, when, f, d.HRS(), err, want)
			return
		}
	}
}

// answers: the signatures of the log are available at the node.
func (s *logSys) answers(id int, when string, r *fsmRef) {
	if r.last == nil {
		return
	}
	for _, e := range r.all {
		if e.p.H < r.last.p.H-3 {
			continue
		}
		q := s.c.Sign(id, e.p)
		if !q.Done || q.Err != nil || !bytes.Equal(q.Sig, e.sig) {
			s.x.Failf("signature not available", "node %d %s: asked for %s answers %x (%v, done %v)", id, when, e.p, head(q.Sig), q.Err, q.Done)
			return
		}
	}
}

func (s *logSys) persist(fs raft.FSMSnapshot) []byte {
	sk := &memSink{}
	if err := fs.Persist(sk); err != nil || !sk.closed {
		s.x.Failf("snapshot not written", "persisting a snapshot: %v, closed %v", err, sk.closed)
	}
	fs.Release()
	return sk.Bytes()
}

type memSink struct {
	bytes.Buffer
	closed, cancelled bool
	failWrite         bool
	failClose         bool
}

func (s *memSink) ID() string { return "mem" }
func (s *memSink) Write(b []byte) (int, error) {
	vsched.Yield()
	if s.failWrite {
		return 0, errors.New("no space")
	}
	return s.Buffer.Write(b)
}
func (s *memSink) Close() error {
	if s.failClose {
		return errors.New("i/o error")
	}
	s.closed = true
	return nil
}
func (s *memSink) Cancel() error { s.cancelled = true; return nil }

func restoreFrom(f raft.FSM, b []byte) error {
	return f.Restore(ioutil.NopCloser(bytes.NewReader(b)))
}

func parseKV(b []byte) (map[string]string, error) {
	m := map[string]string{}
	err := json.Unmarshal(b, &m)
	return m, err
}

func sameKV(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func keysOf(es []entry) (out []string) {
	m := map[string]bool{"LSS": true, "missing": true, "": true, "a": true}
	for _, e := range es {
		m[e.k] = true
	}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

// logJob: all logs of a length; one by one, from a snapshot at every position and again from the start.
func logJob(name string, weight float64, n int, es []entry, depth int) Job {
	total := 1
	for i := 0; i < depth; i++ {
		total *= len(es)
	}
	keys := keysOf(es)
	return Job{Name: name, Weight: weight, Run: func(c *Ctx) {
		EnumSim(c, total, vsched.Config{MaxSteps: 400000}, func(i int, x *X) {
			resetWorld()
			s := newLogSys(x, n)
			s.keys = keys
			var seq []entry
			for j := 0; j < depth; j++ {
				seq = append(seq, es[i%len(es)])
				i /= len(es)
			}
			for _, e := range seq {
				x.Note("%s", e.name)
			}
			A := s.start(1)
			vraft.C.SetLeader("1")
			refs := []*fsmRef{newFsmRef()}
			r := newFsmRef()
			var snaps []raft.FSMSnapshot
			snap := func() {
				fs, err := A.Snapshot()
				if err != nil {
					x.Failf("no snapshot", "%v", err)
				}
				snaps = append(snaps, fs)
			}
			alive := s.on(1, func() {
				snap()
				for k, e := range seq {
					A.Apply(&raft.Log{Index: uint64(k + 1), Term: 1, Data: append([]byte{}, e.data...)})
					r.apply(e)
					s.same(1, fmt.Sprintf("after entry %d", k+1), r)
					snap()
					q := newFsmRef()
					for _, e := range seq[:k+1] {
						q.apply(e)
					}
					refs = append(refs, q)
				}
			})
			if !alive {
				return // failPanics reports
			}
			if r.last != nil {
				x.Out("%v", r.last.p.HRS())
			}
			x.Out("%d", len(r.kv))
			s.answers(1, "at the end", r)
			// snapshots taken on the way are written only now
			data := make([][]byte, len(snaps))
			for k, fs := range snaps {
				data[k] = s.persist(fs)
				if m, err := parseKV(data[k]); err != nil || !sameKV(m, refs[k].kv) {
					x.Failf("snapshot changed later", "the snapshot after entry %d holds %v (%v) instead of %v", k, m, err, refs[k].kv)
				}
			}
			// another node: installs the snapshot at k on top of having applied j <= k entries, then the rest
			id := 2
			for k := 0; k <= depth && id <= n; k++ {
				B := s.start(id)
				rb := newFsmRef()
				if !s.on(id, func() {
					for j := 0; j < k/2; j++ {
						B.Apply(&raft.Log{Index: uint64(j + 1), Term: 1, Data: append([]byte{}, seq[j].data...)})
						rb.apply(seq[j])
					}
					if err := restoreFrom(B, data[k]); err != nil {
						x.Failf("snapshot not installed", "%v", err)
					}
					rb.kv = map[string]string{}
					for kk, v := range refs[k].kv {
						rb.kv[kk] = v
					}
					s.same(id, fmt.Sprintf("after installing the snapshot at %d", k), rb)
					for j := k; j < depth; j++ {
						B.Apply(&raft.Log{Index: uint64(j + 1), Term: 1, Data: append([]byte{}, seq[j].data...)})
						rb.apply(seq[j])
					}
					s.same(id, fmt.Sprintf("from the snapshot at %d", k), rb)
				}) {
					return
				}
				id++
			}
			// a restart of the first node replays from the last snapshot it kept, or from the start
			for _, k := range []int{0, depth, depth / 2} {
				s.c.Crash(1)
				A = s.start(1)
				vraft.C.SetLeader("1")
				if !s.on(1, func() {
					if k > 0 {
						if err := restoreFrom(A, data[k]); err != nil {
							x.Failf("snapshot not installed", "%v", err)
						}
					}
					s.marks(1, "after a restart", r)
					for j := k; j < depth; j++ {
						A.Apply(&raft.Log{Index: uint64(j + 1), Term: 1, Data: append([]byte{}, seq[j].data...)})
						s.marks(1, "while replaying", r)
					}
					s.same(1, fmt.Sprintf("replayed from %d", k), r)
				}) {
					return
				}
				if r.last != nil {
					q := newFsmRef()
					q.apply(*r.last)
					s.answers(1, "after the replay", q)
				}
			}
			// an extra pass over everything: old and duplicated entries
			if s.on(1, func() {
				for j := range seq {
					e := seq[len(seq)-1-j]
					if e.op == "lss" || e.op == "bad" {
						A.Apply(&raft.Log{Index: 99, Term: 1, Data: append([]byte{}, e.data...)})
					}
				}
				s.same(1, "after old entries again", r)
			}) {
				s.goesOn(r)
			}
		}, func(i int, x *X, r *vsched.Result) { failPanics(x, r) })
	}}
}

// goesOn: the node still answers (an error is fine, dying is not) for new positions.
func (s *logSys) goesOn(r *fsmRef) {
	for _, p := range []P{{prevote, 60, 0, 0, 0}, {precommit, 60, 0, 0, 0}} {
		q := s.c.Sign(1, p)
		if !q.Done {
			s.x.Failf("a request for "+p.String()+" kills the node", "%s", p)
		}
	}
}

// while one goroutine applies entries, snapshots are written and values read.
func logConc(name string, es []entry, at int, bound int) Job {
	keys := keysOf(es)
	var before, after *fsmRef
	sc := &Scn{Name: name, Kind: map[byte]int{vsched.KSched: bound}, Bound: bound, Cfg: vsched.Config{MaxSteps: 400000}}
	sc.Body = func(x *X) {
		resetWorld()
		s := newLogSys(x, 3)
		s.keys = keys
		A := s.start(1)
		vraft.C.SetLeader("1")
		before, after = newFsmRef(), newFsmRef()
		var fs raft.FSMSnapshot
		s.on(1, func() {
			for j, e := range es {
				if j < at {
					A.Apply(&raft.Log{Index: uint64(j + 1), Data: append([]byte{}, e.data...)})
					before.apply(e)
				}
				after.apply(e)
			}
			fs, _ = A.Snapshot()
		})
		vsched.SetStmtYield(true)
		var data []byte
		t1 := vsched.GoOn("n1", "applier", func() {
			for j := at; j < len(es); j++ {
				A.Apply(&raft.Log{Index: uint64(j + 1), Data: append([]byte{}, es[j].data...)})
			}
		})
		t2 := vsched.GoOn("n1", "snapshotter", func() { data = s.persist(fs) })
		t3 := vsched.GoOn("n1", "reader", func() {
			// values read only move forward
			seen := map[string]string{}
			for _, k := range keys {
				v, err := s.c.Nodes[0].store.Get(k)
				if err != nil {
					x.Failf("read fails", "%v", err)
				}
				seen[k] = v
				okv := v == before.kv[k] || v == after.kv[k]
				for j := at; j < len(es); j++ {
					okv = okv || es[j].k == k && (es[j].v == v)
				}
				if !okv {
					x.Failf("wrong contents", "read %q = %q", k, v)
				}
			}
		})
		t4 := vsched.GoOn("n1", "asker", func() {
			for _, e := range es[:at] {
				if e.op == "lss" {
					q := &Res{P: e.p, Node: 1}
					signOn(s.c.Nodes[0].pv, q)
					if q.Err == nil && !bytes.Equal(q.Sig, e.sig) {
						x.Failf("another signature", "%s", e.p)
					}
				}
			}
		})
		vsched.Join(t1, t2, t3, t4)
		vsched.SetStmtYield(false)
		if m, err := parseKV(data); err != nil || !sameKV(m, before.kv) {
			x.Failf("snapshot changed later", "a snapshot holds %v (%v) instead of %v", m, err, before.kv)
		}
		s.same(1, "at the end", after)
		s.answers(1, "at the end", after)
	}
	sc.After = func(x *X, r *vsched.Result) { failPanics(x, r) }
	return Job{Name: name, Weight: 2, Run: func(c *Ctx) { sc.Explore(c) }}
}

// mark is the watermark a file holds.
func mark(f string) (HRS, error) {
	d, err := parseDisk(vos.Get(f))
	if err != nil {
		return HRS{}, err
	}
	return d.HRS(), nil
}

// ahead: the node's two files start at any two positions of the log's, then the log is applied.
func aheadJob(name string, weight float64, es []entry, depth int) Job {
	total := (len(es) + 1) * (len(es) + 1)
	for i := 0; i < depth; i++ {
		total *= len(es)
	}
	return Job{Name: name, Weight: weight, Run: func(c *Ctx) {
		EnumSim(c, total, vsched.Config{MaxSteps: 400000}, func(i int, x *X) {
			resetWorld()
			s := newLogSys(x, 3)
			var init [2]int
			for j := range init {
				init[j] = i % (len(es) + 1)
				i /= len(es) + 1
			}
			want := map[string]HRS{}
			for j, f := range []string{pvFile(1), shareFile(1)} {
				if init[j] == 0 {
					continue
				}
				e := es[init[j]-1]
				st, err := loadState(f)
				if err != nil {
					panic(err)
				}
				if err := st.Save(signer.SignStateConsensus{Height: e.p.H, Round: int64(e.p.R), Step: e.p.Step(), Signature: e.sig, SignBytes: e.p.SignBytes()}, nil); err != nil {
					panic(err)
				}
				want[f] = e.p.HRS()
				x.Note("%s at %s", f, e.p)
			}
			A := s.start(1)
			vraft.C.SetLeader("1")
			s.on(1, func() {
				for j := 0; j < depth; j++ {
					e := es[i%len(es)]
					i /= len(es)
					x.Note("%s", e.name)
					A.Apply(&raft.Log{Index: uint64(j + 1), Term: 1, Data: append([]byte{}, e.data...)})
					for _, f := range []string{pvFile(1), shareFile(1)} {
						if want[f].Less(e.p.HRS()) {
							want[f] = e.p.HRS()
						}
						if h, err := mark(f); err != nil || h != want[f] {
							x.Failf("wrong watermark", "after entry %d %s holds %v (%v) instead of %v", j+1, f, h, err, want[f])
						}
					}
				}
			})
			x.Out("%v", want)
		}, func(i int, x *X, r *vsched.Result) { failPanics(x, r) })
	}}
}

// crashJob: the node dies at any moment of applying the log, comes back and applies it again.
func crashJob(name string, weight float64, es []entry, depth int) Job {
	total := 1
	for i := 0; i < depth; i++ {
		total *= len(es)
	}
	return Job{Name: name, Weight: weight, Run: func(c *Ctx) {
		EnumSim(c, total, vsched.Config{MaxSteps: 1000000}, func(i int, x *X) {
			resetWorld()
			s := newLogSys(x, 3)
			A := s.start(1)
			vraft.C.SetLeader("1")
			var seq []entry
			for j := 0; j < depth; j++ {
				seq = append(seq, es[i%len(es)])
				x.Note("%s", es[i%len(es)].name)
				i /= len(es)
			}
			for _, f := range []string{pvFile(1), shareFile(1)} {
				if vos.Get(f) == nil {
					panic("no state file")
				}
			}
			base := vos.Snapshot()
			first := len(vos.Log)
			r := newFsmRef()
			done := []int{} // entries applied before each device operation
			snaps := [][]byte{}
			if !s.on(1, func() {
				for j, e := range seq {
					fs, _ := A.Snapshot()
					snaps = append(snaps, s.persist(fs))
					A.Apply(&raft.Log{Index: uint64(j + 1), Term: 1, Data: append([]byte{}, e.data...)})
					r.apply(e)
					for len(done) < len(vos.Log)-first {
						done = append(done, j)
					}
				}
			}) {
				return
			}
			done = append(done, depth)
			type img struct {
				k     int
				files map[string][]byte
			}
			var imgs []img
			seen := map[string]bool{}
			for k := 0; k <= len(vos.Log)-first; k++ {
				for _, m := range vos.Images(first + k) {
					f := map[string][]byte{}
					for p, b := range base {
						f[p] = b
					}
					for _, p := range []string{pvFile(1), shareFile(1)} {
						f[p] = m[p]
					}
					key := fmt.Sprintf("%d %q %q", done[k], f[pvFile(1)], f[shareFile(1)])
					if f[pvFile(1)] == nil || f[shareFile(1)] == nil {
						x.Failf("crash loses a state file", "after %d device operations", k)
						return
					}
					if !seen[key] {
						seen[key] = true
						imgs = append(imgs, img{k, f})
					}
				}
			}
			x.Out("%d", len(imgs))
			for _, m := range imgs {
				// raft hands out everything after the last snapshot again, at the latest one taken after
				// the entries applied before the crash
				for from := 0; from <= done[m.k] && from < depth; from++ {
					s.c.Crash(1)
					vos.SetImage(m.files)
					low := map[string]HRS{}
					for _, f := range []string{pvFile(1), shareFile(1)} {
						h, err := mark(f)
						if err != nil {
							x.Failf("crash leaves an unreadable state file", "after %d device operations: %s: %v", m.k, f, err)
							return
						}
						low[f] = h
					}
					B := s.start(1)
					vraft.C.SetLeader("1")
					if !s.on(1, func() {
						if from > 0 {
							if err := restoreFrom(B, snaps[from]); err != nil {
								x.Failf("snapshot not installed", "%v", err)
							}
						}
						for j := from; j < depth; j++ {
							B.Apply(&raft.Log{Index: uint64(j + 1), Term: 1, Data: append([]byte{}, seq[j].data...)})
							for _, f := range []string{pvFile(1), shareFile(1)} {
								h, err := mark(f)
								if err != nil || h.Less(low[f]) {
									x.Failf("watermark lowered", "a crash after %d device operations, applied again from %d: %s at %v (%v) was at %v", m.k, from, f, h, err, low[f])
								}
								low[f] = h
							}
						}
						s.marks(1, fmt.Sprintf("after a crash at device operation %d and the entries from %d again", m.k, from), r)
					}) {
						return
					}
				}
			}
		}, func(i int, x *X, r *vsched.Result) { failPanics(x, r) })
	}}
}

// badSink: a snapshot that cannot be written is cancelled and reported.
func badSinkJob() Job {
	return Job{Name: "snapshots that cannot be written", Weight: 0.2, Run: func(c *Ctx) {
		EnumSim(c, 8, vsched.Config{}, func(i int, x *X) {
			resetWorld()
			s := newLogSys(x, 3)
			A := s.start(1)
			if i&4 != 0 {
				A.Apply(&raft.Log{Index: 1, Data: cmdBytes("set", "a", "1")})
			}
			fs, _ := A.Snapshot()
			sk := &memSink{failWrite: i&1 != 0, failClose: i&2 != 0}
			err := fs.Persist(sk)
			x.Out("%v %v", err != nil, sk.cancelled)
			if bad := i&3 != 0; bad != (err != nil) || bad != sk.cancelled || bad == sk.closed {
				x.Failf("failing snapshot", "a sink failing at write %v, close %v: %v, closed %v, cancelled %v", sk.failWrite, sk.failClose, err, sk.closed, sk.cancelled)
			}
			for _, b := range []string{"", "{", "[]", `{"a":1}`, "7"} {
				if restoreFrom(A, []byte(b)) == nil {
					x.Failf("damaged snapshot installed", "%q", b)
				}
				if v, _ := s.c.Nodes[0].store.Get("a"); (v == "1") != (i&4 != 0) {
					x.Failf("damaged snapshot installed", "%q changes the contents", b)
				}
			}
		}, func(i int, x *X, r *vsched.Result) { failPanics(x, r) })
	}}
}

func init() {
	register(&Check{ID: "C11", Assumptions: []string{
		"raft delivers committed entries in order and never calls Apply, Snapshot or Restore at the same time (hashicorp/raft's contract)",
		"last-signed entries are written by a leader after it verified the signature: an entry without one is malformed",
	}, Jobs: func(tier string) []Job {
		k := keysFor(3, 5)
		// the entries' signatures only have to be the same bytes again
		l := func(p P) entry { return eLSS(k, p) }
		kv := []entry{eSet("a", "1"), eSet("a", "2"), eSet("b", "<\u2028\"\\\u00e9>"), eSet("", "x"), eDel("a"), eDel("LSS"), eSet("lss", "y"), eSet("a", "")}
		ls := []entry{l(P{prevote, 5, 0, 0, 0}), l(P{prevote, 5, 0, 0, 1}), l(P{prevote, 5, 0, 1, 0}), l(P{precommit, 5, 0, 0, 0}), l(P{prevote, 5, 1, 0, 0}), l(P{proposal, 6, 0, 0, 0}), l(P{prevote, 4, 3, 0, 0}), l(P{prevote, 9, 0, 0, 0})}
		bad := badEntries(k)
		var mix []entry
		mix = append(append(append(mix, kv...), ls...), eBadLSS("{}"), eBad("cut", `{"op":"set"`))
		all := append(append([]entry{}, kv[0], kv[4], ls[0], ls[3], ls[6]), bad...)
		var far []entry
		for _, h := range []int64{1, 127, 128, 1<<31 - 1, 1 << 31, 1<<53 + 1, math.MaxInt64} {
			for _, r := range []int32{0, 1, 128, math.MaxInt32} {
				far = append(far, l(P{prevote, h, r, 0, 0}), l(P{precommit, h, r, 2, 1}), l(P{proposal, h, r, 1, 1}))
			}
		}
		jobs := []Job{
			logJob("logs", 5, 5, mix, pick(tier, 3, 4)),
			logJob("signatures only", 4, 5, ls, pick(tier, 4, 5)),
			logJob("contents only", 2, 5, kv, pick(tier, 4, 5)),
			logJob("malformed entries", 3, 5, all, pick(tier, 2, 3)),
			logJob("extreme positions", 1, 5, far, pick(tier, 2, 3)),
			badSinkJob(),
			aheadJob("watermarks that differ", 1, ls, pick(tier, 3, 4)),
			crashJob("crashes while applying", 1, append([]entry{kv[0]}, ls...), pick(tier, 3, 4)),
			writesFor("C11", "writes"),
			logConc("snapshot while applying", []entry{kv[0], ls[0], kv[1], eSet("c", "1"), ls[3], kv[4]}, 2, pick(tier, 2, 3)),
			logConc("reads while applying", []entry{kv[0], ls[0], ls[3], kv[1], ls[5]}, 3, pick(tier, 2, 3)),
		}
		return append(jobs, raftJob(pick(tier, 2, 3)))
	}})
}
