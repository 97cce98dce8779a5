package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/vsim/vos"
	"github.com/strangelove-ventures/horcrux/vsim/vsched"
	"github.com/strangelove-ventures/horcrux/vsim/vsync"
)

// C03: watermarks against a reference model.

type wmModel struct {
	cur   HRS
	sig   []byte
	sb    []byte
	cache map[HRS]string
}

func payloadOf(i int, h HRS) ([]byte, []byte) {
	return bytes.Repeat([]byte{byte(i + 1)}, 64), []byte(fmt.Sprintf("sign bytes %d %v", i, h))
}

func ssc(h HRS, sig, sb []byte) signer.SignStateConsensus {
	return signer.SignStateConsensus{Height: h.H, Round: h.R, Step: h.S, Signature: sig, SignBytes: sb}
}

type wm struct {
	x     *X
	st    *signer.SignState
	lock  *vsync.Mutex
	path  string
	model wmModel
	n     int
}

func newWM(x *X) *wm {
	w := &wm{x: x, path: "/n1/state/wm.json", lock: &vsync.Mutex{}}
	st, err := loadState(w.path)
	if err != nil {
		panic(err)
	}
	w.st = st
	w.model.cache = map[HRS]string{}
	return w
}

func (w *wm) save(h HRS, locked bool) {
	w.n++
	sig, sb := payloadOf(w.n, h)
	lk := w.lock
	if !locked {
		lk = nil
	}
	before := w.fields()
	err := w.st.Save(ssc(h, sig, sb), lk)
	vsched.Idle()
	want := w.model.cur.Less(h)
	if (err == nil) != want {
		w.x.Failf("acceptance differs from the order", "recorded %v, asked to record %v: error %v", w.model.cur, h, err)
	}
	if !want {
		if w.fields() != before {
			w.x.Failf("a refused record changed the state", "refused %v: %s became %s", h, before, w.fields())
		}
		return
	}
	w.model.cur, w.model.sig, w.model.sb = h, sig, sb
	w.model.cache[h] = string(sig) + string(sb)
	for k := range w.model.cache {
		if k.H < h.H-3 {
			delete(w.model.cache, k)
		}
	}
}

func (w *wm) fields() string {
	return fmt.Sprintf("%d/%d/%d %x %x", w.st.Height, w.st.Round, w.st.Step, w.st.Signature, []byte(w.st.SignBytes))
}

func (m *wmModel) String() string {
	return fmt.Sprintf("%d/%d/%d %x %x", m.cur.H, m.cur.R, m.cur.S, m.sig, m.sb)
}

// check the state in memory, on disk and in the cache against the model.
func (w *wm) check(universe []HRS) {
	if w.fields() != w.model.String() {
		w.x.Failf("state in memory differs from the model", "memory %s model %s", w.fields(), w.model.String())
	}
	for _, h := range universe {
		latest, e := w.st.GetFromCache(signer.HRSKey{Height: h.H, Round: h.R, Step: h.S}, w.lock)
		if l := (HRS{latest.Height, latest.Round, latest.Step}); l != w.model.cur {
			w.x.Failf("lookup reports a wrong latest position", "reported %v, recorded %v", l, w.model.cur)
		}
		want, ok := w.model.cache[h]
		switch {
		case ok && e == nil:
			w.x.Failf("recorded entry not found", "recorded %v is not found while at %v", h, w.model.cur)
		case !ok && e != nil && h != (HRS{}):
			w.x.Failf("stale or foreign entry found", "lookup of %v found something while at %v", h, w.model.cur)
		case ok && (string(e.Signature)+string(e.SignBytes) != want || e.Height != h.H || e.Round != h.R || e.Step != h.S):
			w.x.Failf("lookup returns another entry", "lookup of %v returned %d/%d/%d %x", h, e.Height, e.Round, e.Step, e.Signature)
		}
	}
	ld, err := signer.LoadSignState(w.path)
	if err != nil {
		w.x.Failf("state file does not load", "%v", err)
		return
	}
	l := wm{st: &ld}
	if l.fields() != w.model.String() {
		w.x.Failf("reloaded state differs from the saved one", "reloaded %s model %s", l.fields(), w.model.String())
	}
}

// reload continues with the state read from the file.
func (w *wm) reload() {
	st, err := signer.LoadSignState(w.path)
	if err != nil {
		w.x.Failf("state file does not load", "%v", err)
		return
	}
	w.st = &st
	c := map[HRS]string{}
	if v, ok := w.model.cache[w.model.cur]; ok {
		c[w.model.cur] = v
	}
	w.model.cache = c
}

// monotone: the file never goes back, whatever was on disk at any instant.
func diskMonotone(x *X, path string) (last HRS) {
	for k := 0; k <= len(vos.Log); k++ {
		b := vos.Images(k)[0][path]
		if b == nil {
			continue
		}
		d, err := parseDisk(b)
		if err != nil {
			x.Failf("state file unreadable at some instant", "after operation %d: %v", k, err)
			continue
		}
		if d.HRS().Less(last) {
			x.Failf("state file replaced by a lower one", "after operation %d the file holds %v after %v", k, d.HRS(), last)
		}
		last = d.HRS()
	}
	return
}

func wmPairs() Job {
	var dom []HRS
	for _, h := range []int64{0, 1, 5, 6, 1 << 31, 1 << 32, 1<<32 + 5, 1<<53 + 1, 1<<53 + 2, math.MaxInt64 - 1, math.MaxInt64} {
		for _, r := range []int64{0, 1, 2, math.MaxInt32, 1<<32 + 1, math.MaxInt64} {
			for _, s := range []int8{0, 1, 2, 3} {
				dom = append(dom, HRS{h, r, s})
			}
		}
	}
	n := len(dom)
	return Job{Name: "ordered pairs of positions", Run: func(c *Ctx) {
		EnumSim(c, n*n, vsched.Config{}, func(i int, x *X) {
			resetWorld()
			a, b := dom[i%n], dom[i/n]
			x.Note("%v then %v", a, b)
			w := newWM(x)
			w.save(a, i%2 == 0)
			w.save(b, i%2 == 0)
			x.Out("%v", w.model.cur == b)
			w.check([]HRS{a, b})
			diskMonotone(x, w.path)
		}, func(i int, x *X, r *vsched.Result) { failPanics(x, r) })
	}}
}

func wmSeq(depth int) Job {
	dom := []HRS{{1, 0, 1}, {1, 0, 3}, {2, 0, 2}, {2, 1, 1}, {3, 0, 2}, {4, 0, 1}, {4, 0, 3}, {5, 0, 2}, {6, 2, 2}, {7, 0, 2}, {9, 1, 3}}
	var names []string
	for _, h := range dom {
		names = append(names, fmt.Sprintf("save %v", h))
	}
	names = append(names, "reload")
	return Job{Name: "histories of records and reloads", Weight: 3, Run: func(c *Ctx) {
		(&Seq{Name: "wm", Ops: names, Depth: depth, Before: func(x *X) { resetWorld() }, Run: func(x *X, seq []int) int {
			w := newWM(x)
			for _, i := range seq {
				if i == len(dom) {
					w.reload()
				} else {
					w.save(dom[i], true)
				}
			}
			w.check(dom)
			diskMonotone(x, w.path)
			x.Out("%v %d", w.model.cur, len(w.model.cache))
			return len(seq)
		}, After: func(x *X, r *vsched.Result) { failPanics(x, r) }}).Explore(c)
	}}
}

// concurrent saves of one state, optionally with a reader.
func wmConc(name string, pre []HRS, tasks [][]HRS, bound int) Job {
	return Job{Name: name, Run: func(c *Ctx) {
		(&Scn{Name: name, Bound: bound, Before: func(x *X) { resetWorld() }, Body: func(x *X) {
			w := newWM(x)
			for _, h := range pre {
				w.save(h, true)
			}
			vsched.SetStmtYield(true)
			type done struct {
				h          HRS
				ok         bool
				start, end int
			}
			var res []*done
			clock := 0
			var ts []*vsched.Task
			for i, t := range tasks {
				i, t := i, t
				ts = append(ts, vsched.GoOn("n1", fmt.Sprintf("save%d", i), func() {
					for j, h := range t {
						sig, sb := payloadOf(10*(i+1)+j, h)
						clock++
						d := &done{h: h, start: clock}
						d.ok = w.st.Save(ssc(h, sig, sb), w.lock) == nil
						clock++
						d.end = clock
						res = append(res, d)
					}
				}))
			}
			var seen []HRS
			ts = append(ts, vsched.GoOn("n1", "reader", func() {
				for i := 0; i < 2; i++ {
					l, _ := w.st.GetFromCache(signer.HRSKey{}, w.lock)
					seen = append(seen, HRS{l.Height, l.Round, l.Step})
				}
			}))
			vsched.Join(ts...)
			vsched.SetStmtYield(false)
			vsched.Idle()
			max := HRS{}
			for _, h := range pre {
				if max.Less(h) {
					max = h
				}
			}
			init := max
			okc := map[HRS]int{}
			var out []string
			for _, d := range res {
				out = append(out, fmt.Sprintf("%v=%v", d.h, d.ok))
				if d.ok {
					okc[d.h]++
				}
				if max.Less(d.h) {
					max = d.h
				}
				if d.ok && !init.Less(d.h) {
					x.Failf("lower position recorded", "%v recorded after %v", d.h, init)
				}
				for _, e := range res {
					if d.ok && e.ok && e.end < d.start && !e.h.Less(d.h) {
						x.Failf("lower position recorded", "%v recorded after %v", d.h, e.h)
					}
				}
			}
			for h, n := range okc {
				if n > 1 {
					x.Failf("position recorded twice", "%v was recorded %d times", h, n)
				}
			}
			if cur := (HRS{w.st.Height, w.st.Round, w.st.Step}); cur != max {
				x.Failf("watermark in memory is not the highest recorded", "memory %v, highest %v", cur, max)
			}
			if max != init && okc[max] == 0 {
				x.Failf("highest position refused", "%v refused", max)
			}
			for i := 1; i < len(seen); i++ {
				if seen[i].Less(seen[i-1]) {
					x.Failf("watermark in memory moved backwards", "%v after %v", seen[i], seen[i-1])
				}
			}
			if last := diskMonotone(x, w.path); last != max {
				x.Failf("state file is not the highest recorded", "file %v, highest %v", last, max)
			}
			for h := range okc {
				_, e := w.st.GetFromCache(signer.HRSKey{Height: h.H, Round: h.R, Step: h.S}, w.lock)
				if h.H >= max.H-3 && (e == nil || e.Height != h.H || e.Step != h.S) {
					x.Failf("recorded entry not found", "%v not found", h)
				}
			}
			x.Out("%s", strings.Join(out, " "))
		}, After: func(x *X, r *vsched.Result) { failPanics(x, r) }}).Explore(c)
	}}
}

// wmUsers: both holders of a watermark (validator and cosigner), saves from every side at once.
func wmUsers(bound int) Job {
	name := "validator and cosigner watermarks saved concurrently"
	return Job{Name: name, Run: func(c *Ctx) {
		(&Scn{Name: name, Bound: bound, Before: func(x *X) { resetWorld() }, Body: func(x *X) {
			s := newCoSys(x, 2, 3)
			st, err := loadState(pvFile(1))
			if err != nil {
				panic(err)
			}
			tv := signer.NewThresholdValidator(&signer.ThresholdValidatorOpt{Pubkey: s.k.Priv.PubKey(), Threshold: 2, SignState: *st, Cosigner: s.lc})
			ps := []P{{prevote, 5, 0, 0, 0}, {precommit, 5, 0, 0, 0}, {prevote, 5, 1, 0, 0}}
			vsched.SetStmtYield(true)
			var ts []*vsched.Task
			for _, p := range ps {
				p := p
				ts = append(ts, vsched.GoOn("n1", p.String(), func() {
					h := p.HRS()
					e := ssc(h, bytes.Repeat([]byte{1}, 64), p.SignBytes())
					_ = tv.SaveLastSignedState(e)
					_ = s.lc.SaveLastSignedState(e)
				}))
			}
			vsched.Join(ts...)
			vsched.SetStmtYield(false)
			vsched.Idle()
			max := ps[2].HRS()
			for _, f := range []string{pvFile(1), s.path} {
				if l := diskMonotone(x, f); l != max {
					x.Failf("state file is not the highest recorded", "%s at %v, highest %v", f, l, max)
				}
			}
			for _, save := range []func(signer.SignStateConsensus) error{tv.SaveLastSignedState, s.lc.SaveLastSignedState} {
				if save(ssc(max, nil, nil)) == nil || save(ssc(ps[1].HRS(), nil, nil)) == nil {
					x.Failf("lower position recorded", "a position not above %v was recorded", max)
				}
				if err := save(ssc(HRS{5, 1, 3}, nil, nil)); err != nil {
					x.Failf("highest position refused", "%v", err)
				}
			}
			x.Out("ok")
		}, After: func(x *X, r *vsched.Result) { failPanics(x, r) }}).Explore(c)
	}}
}

// wmRoundTrip: what is reloaded equals what was saved.
func wmRoundTrip() Job {
	hs := []int64{1, 2, 1<<31 - 1, 1 << 31, 1 << 32, 1<<53 + 1, math.MaxInt64}
	rs := []int64{0, 1, math.MaxInt32, 1<<53 + 1, math.MaxInt64}
	ss := []int8{0, 1, 2, 3}
	bs := [][]byte{nil, {}, {0}, bytes.Repeat([]byte{0xff}, 32), bytes.Repeat([]byte{0, 1, 0x7f, 0x80}, 16), bytes.Repeat([]byte("\"<&>\n"), 40)}
	n := len(hs) * len(rs) * len(ss) * len(bs) * len(bs) * len(bs)
	return Job{Name: "save and reload of every field", Run: func(c *Ctx) {
		EnumSim(c, n, vsched.Config{}, func(i int, x *X) {
			resetWorld()
			pick := func(k int) int { v := i % k; i /= k; return v }
			h := HRS{hs[pick(len(hs))], rs[pick(len(rs))], ss[pick(len(ss))]}
			sig, sb, ep := bs[pick(len(bs))], bs[pick(len(bs))], bs[pick(len(bs))]
			w := newWM(x)
			w.st.EphemeralPublic = ep
			x.Note("%v sig %x signbytes %x ephemeral %x", h, sig, sb, ep)
			if err := w.st.Save(ssc(h, sig, sb), w.lock); err != nil {
				x.Failf("highest position refused", "%v: %v", h, err)
				return
			}
			vsched.Idle()
			for _, f := range []func(string) (signer.SignState, error){signer.LoadSignState, signer.LoadOrCreateSignState} {
				l, err := f(w.path)
				if err != nil {
					x.Failf("state file does not load", "%v", err)
					return
				}
				if l.Height != h.H || l.Round != h.R || l.Step != h.S || !bytes.Equal(l.Signature, sig) || !bytes.Equal(l.SignBytes, sb) || !bytes.Equal(l.EphemeralPublic, ep) {
					x.Failf("reloaded state differs from the saved one", "saved %v %x %x %x, loaded %d/%d/%d %x %x %x", h, sig, sb, ep, l.Height, l.Round, l.Step, l.Signature, []byte(l.SignBytes), l.EphemeralPublic)
				}
				_, e := l.GetFromCache(signer.HRSKey{Height: h.H, Round: h.R, Step: h.S}, nil)
				if e == nil || !bytes.Equal(e.Signature, sig) || !bytes.Equal(e.SignBytes, sb) {
					x.Failf("recorded entry not found", "%v not found after reload", h)
				}
			}
			x.Out("ok")
		}, func(i int, x *X, r *vsched.Result) { failPanics(x, r) })
	}}
}

func init() {
	register(&Check{ID: "C03", Assumptions: []string{
		"device model: directory operations are atomic and durable in order",
		"statement-level interleaving with sequentially consistent memory; preemptions bounded as reported",
	}, Jobs: func(tier string) []Job {
		depth, bound := 5, 2
		if tier == "thorough" {
			depth, bound = 6, 3
		}
		seq := wmSeq(depth)
		return []Job{
			wmPairs(), wmRoundTrip(), seq, wornMarks(pick(tier, 600, 4000)),
			wmConc("two saves and a reader", []HRS{{4, 0, 1}}, [][]HRS{{{5, 0, 2}}, {{6, 0, 2}}}, bound),
			wmConc("saves of one position", nil, [][]HRS{{{5, 0, 2}}, {{5, 0, 2}}, {{5, 0, 2}}}, bound),
			wmConc("three saves", []HRS{{4, 0, 1}}, [][]HRS{{{5, 0, 2}, {5, 0, 3}}, {{6, 0, 2}}, {{5, 1, 1}}}, bound),
			wmUsers(bound),
		}
	}})
}
