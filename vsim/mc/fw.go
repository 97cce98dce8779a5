// Command mc is the model checking harness: it explores the instrumented
// signer code exhaustively within stated bounds and checks the properties on
// every execution.
package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/strangelove-ventures/horcrux/vsim/vsched"
)

// Violation of a property found by a job.
type Violation struct {
	Job     string       `json:"job"`
	Key     string       `json:"key"` // what fails, free of incidental detail
	Msg     string       `json:"msg"`
	Scn     string       `json:"scenario,omitempty"`
	Devs    []vsched.Dev `json:"devs,omitempty"`
	Seq     []int        `json:"seq,omitempty"`
	History []string     `json:"history,omitempty"`
	Log     []string     `json:"log,omitempty"`
	Check   string       `json:"check"`
}

// JobReport is what a job covered.
type JobReport struct {
	scns        int
	Name        string
	Bound       string
	Executions  int
	States      int
	Transitions int
	Replayed    int // executions repeated to confirm determinism
	Outcomes    map[string]int
	Samples     []string
	Exhaustive  bool
	Incomplete  string
	Diverged    int
	Broken      string // a panic of the harness itself
	Violations  []Violation
	Wall        float64
}

func (r *JobReport) outcome(s string) {
	if r.Outcomes == nil {
		r.Outcomes = map[string]int{}
	}
	if len(r.Outcomes) < 400 || r.Outcomes[s] > 0 {
		r.Outcomes[s]++
	} else {
		r.Outcomes["(other)"]++
	}
}

func (r *JobReport) sample(s string) {
	if len(r.Samples) < 3 {
		r.Samples = append(r.Samples, s)
	}
}

// Ctx is what a job gets.
type Ctx struct {
	Check    string
	Shard, N int
	Deadline time.Time
	Tier     string
	Seed     int
	rep      *JobReport
	replay   *Violation // set: only replay this
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }
func (c *Ctx) expired() bool  { return time.Now().After(c.Deadline) }

// Job is one exploration of a check.
type Job struct {
	Name   string
	Weight float64
	Run    func(c *Ctx)
}

// Check decides one property.
type Check struct {
	ID          string
	Jobs        func(tier string) []Job
	Assumptions []string
	Level       string
}

var checks = map[string]*Check{}

// moreJobs are those on the whole program, if it could be built for the explorer.
var moreJobs func(id, tier string) []Job

func (c *Check) jobs(tier string) []Job {
	js := c.Jobs(tier)
	if moreJobs != nil {
		js = append(js[:len(js):len(js)], moreJobs(c.ID, tier)...)
	}
	return js
}

func register(c *Check) { checks[c.ID] = c }

// ---- stateless exploration, bounded by deviations ----

// X is one execution.
type X struct {
	c       *Ctx
	fails   []fail
	Outcome []string
	Hist    []string
	sched   *vsched.Result
}

type fail struct{ key, msg string }

// Failf records a violation; key identifies what fails.
func (x *X) Failf(key, f string, a ...interface{}) {
	for _, p := range x.fails {
		if p.key == key {
			return
		}
	}
	x.fails = append(x.fails, fail{key, fmt.Sprintf(f, a...)})
}

// Out adds to the observed outcome.
func (x *X) Out(f string, a ...interface{}) { x.Outcome = append(x.Outcome, fmt.Sprintf(f, a...)) }

// Note adds to the history used in reports.
func (x *X) Note(f string, a ...interface{}) {
	x.Hist = append(x.Hist, fmt.Sprintf(f, a...))
	vsched.Log(f, a...)
}

// Scn is a scenario explored by enumeration of deviations from the default schedule.
type Scn struct {
	Name   string
	Cfg    vsched.Config
	Bound  int          // total cost of deviations
	Kind   map[byte]int // additional bound per kind
	Max    int          // cap on executions (0 none)
	Before func(x *X)   // outside the scheduler
	Body   func(x *X)
	After  func(x *X, r *vsched.Result)
	Ignore bool // step limit is not an incompleteness
}

func (s *Scn) exec(c *Ctx, devs []vsched.Dev, trace bool) (*X, *vsched.Result) {
	x := &X{c: c}
	cfg := s.Cfg
	cfg.Devs = devs
	cfg.Trace = trace
	if s.Before != nil {
		s.Before(x)
	}
	r := vsched.Run(cfg, func() { s.Body(x) })
	x.sched = r
	done := mainPanic(c, x, r, fmt.Sprint(s.Name, devs))
	if s.After != nil && r.Diverged == "" && !done {
		s.After(x, r)
	}
	return x, r
}

// panicked judges a panic in the body of a scenario. One of the code under test, and an error
// that it returned where the scenario counts on it to work, are failures of that code. Anything
// else is a defect of the harness: the run has no answer then.
func (x *X) panicked(c *Ctx, value, stack, origin, where string) {
	switch origin {
	case "code":
		x.Failf("crash", "the caller's goroutine crashed: %s at %s", value, stack)
	case "error":
		x.Failf("set-up", "an operation that has to work was refused: %s at %s", value, stack)
	default:
		c.rep.Diverged++
		c.rep.Exhaustive = false
		if c.rep.Broken == "" {
			c.rep.Broken = value
			fmt.Fprintln(os.Stderr, "HARNESS PANIC", where, value, stack)
		}
	}
}

// mainPanic reports whether the body panicked, and judges that.
func mainPanic(c *Ctx, x *X, r *vsched.Result, where string) bool {
	if r.Diverged != "" {
		return false
	}
	for _, l := range r.Log {
		if l == "main panicked" {
			for _, p := range r.Panics {
				if p.Task == "main" {
					x.panicked(c, p.Value, p.Stack, p.Origin, where)
					if c.rep.Broken != "" {
						r.Diverged = "harness panic " + p.Value
					}
				}
			}
			return true
		}
	}
	return false
}

func keys(fs []fail) string {
	var k []string
	for _, f := range fs {
		k = append(k, f.key)
	}
	return strings.Join(k, ",")
}

// Explore runs the scenario for every set of deviations up to the bound.
func (s *Scn) Explore(c *Ctx) {
	rep := c.rep
	short := rep.scns > 0 && !rep.Exhaustive // an earlier scenario of the job was not completed
	rep.scns++
	rep.Exhaustive = true
	defer func() { rep.Exhaustive = rep.Exhaustive && !short }()
	if c.replay != nil {
		if c.replay.Scn != "" && c.replay.Scn != s.Name {
			return
		}
		x, r := s.exec(c, c.replay.Devs, true)
		printReplay(x, r)
		if len(x.fails) > 0 {
			s.report(c, x, r, c.replay.Devs)
		}
		return
	}
	type item struct {
		devs []vsched.Dev
		pts  []vsched.Point
		cost int
	}
	kindCost := func(it *item) map[byte]int { return nil }
	_ = kindCost
	run := func(devs []vsched.Dev, count bool) ([]vsched.Point, bool) {
		x, r := s.exec(c, devs, false)
		if r.Diverged != "" {
			rep.Diverged++
			rep.Exhaustive = false
			rep.Incomplete = "diverged: " + r.Diverged
			return nil, false
		}
		if count {
			rep.Executions++
			first := 0
			if len(devs) > 0 {
				first = devs[len(devs)-1].Idx + 1
			}
			rep.States += len(r.Points) - first + 1
			rep.Transitions += r.Steps
			if r.StepLimit && !s.Ignore {
				rep.Exhaustive = false
				rep.Incomplete = "step limit"
			}
			if r.HorizonHit && !r.MainDone {
				rep.Exhaustive = false
				rep.Incomplete = "virtual time limit"
			}
			rep.outcome(strings.Join(x.Outcome, " "))
			if len(rep.Samples) < 3 && (len(devs) > 0 || len(rep.Samples) == 0) {
				rep.sample(fmt.Sprintf("%s devs=%v -> %s", s.Name, fmtDevs(devs), strings.Join(append(x.Hist, x.Outcome...), "; ")))
			}
		}
		if len(x.fails) > 0 {
			// believe it only if it repeats
			want := keys(x.fails)
			same := 0
			for i := 0; i < 5; i++ {
				y, r2 := s.exec(c, devs, false)
				if r2.Diverged == "" && keys(y.fails) == want {
					same++
				}
				rep.Replayed++
			}
			if same == 5 {
				y, r2 := s.exec(c, devs, true)
				s.report(c, y, r2, devs)
			} else {
				rep.Exhaustive = false
				rep.Incomplete = fmt.Sprintf("unstable failure %s (%d of 5)", want, same)
				fmt.Fprintf(os.Stderr, "unstable failure in %s devs=%v: %s (%d/5)\n", s.Name, devs, x.fails[0].msg, same)
			}
		}
		return r.Points, true
	}
	// determinism of the default execution
	pts, ok := run(nil, c.Shard == 0)
	if !ok {
		return
	}
	pts2, ok := run(nil, false)
	rep.Replayed++
	if !ok || len(pts) != len(pts2) {
		rep.Exhaustive = false
		rep.Incomplete = fmt.Sprintf("not deterministic: %d and %d points", len(pts), len(pts2))
		return
	}
	level := []item{{nil, pts, 0}}
	completed := 0
	for depth := 1; depth <= s.Bound; depth++ {
		var next []item
		n := 0
		for _, it := range level {
			first := 0
			if len(it.devs) > 0 {
				first = it.devs[len(it.devs)-1].Idx + 1
			}
			kc := map[byte]int{}
			for _, d := range it.devs {
				kc[it.pts[d.Idx].Kind]++
			}
			for i := first; i < len(it.pts); i++ {
				p := it.pts[i]
				if b, ok := s.Kind[p.Kind]; ok && kc[p.Kind]+1 > b {
					continue
				}
				for alt := 0; alt < p.N; alt++ {
					if alt == p.Alt {
						continue
					}
					n++
					if depth == 1 && n%c.N != c.Shard {
						continue
					}
					if len(rep.Violations) > 0 {
						return
					}
					if c.expired() || (s.Max > 0 && rep.Executions >= s.Max) {
						rep.Exhaustive = false
						rep.Incomplete = fmt.Sprintf("stopped within deviation level %d after completing level %d", depth, completed)
						rep.Bound = fmt.Sprintf("%d deviations complete", completed)
						return
					}
					devs := append(append([]vsched.Dev{}, it.devs...), vsched.Dev{Idx: i, Alt: alt, N: p.N, Label: p.Label})
					np, ok := run(devs, true)
					if ok && depth < s.Bound {
						next = append(next, item{devs, np, 0})
					}
				}
			}
		}
		completed = depth
		level = next
	}
	rep.Bound = fmt.Sprintf("%d deviations complete", completed)
}

func fmtDevs(d []vsched.Dev) string {
	var o []string
	for _, x := range d {
		o = append(o, fmt.Sprintf("%d:%d/%d%s", x.Idx, x.Alt, x.N, x.Label))
	}
	return "[" + strings.Join(o, " ") + "]"
}

func (s *Scn) report(c *Ctx, x *X, r *vsched.Result, devs []vsched.Dev) {
	for _, f := range x.fails {
		c.rep.Violations = append(c.rep.Violations, Violation{Check: c.Check, Job: c.rep.Name, Key: f.key, Msg: f.msg, Scn: s.Name, Devs: devs, History: x.Hist, Log: r.Log})
	}
}

func printReplay(x *X, r *vsched.Result) {
	for _, l := range r.Log {
		fmt.Println(l)
	}
	for _, p := range r.Panics {
		fmt.Println("PANIC", p.Task, p.Node, p.Value, p.Stack)
	}
	if r.Deadlock {
		fmt.Println("DEADLOCK", r.Blocked)
	}
	fmt.Println("steps", r.Steps, "points", len(r.Points), "now", r.Now, "diverged", r.Diverged)
	fmt.Println("outcome:", strings.Join(x.Outcome, " "))
	for _, f := range x.fails {
		fmt.Println("FAIL", f.key, f.msg)
	}
}

// ---- enumeration of operation sequences ----

// Seq is a system driven by operation sequences over a finite alphabet.
type Seq struct {
	Name  string
	Ops   []string // names of the operations
	Depth int
	// Run executes the sequence on a fresh system inside the scheduler; it may
	// stop early (pruned tail) by returning the number of operations it executed.
	Run func(x *X, seq []int) int
	// Enabled prunes sequences before execution.
	Enabled func(seq []int) bool
	Cfg     vsched.Config
	Before  func(x *X)
	After   func(x *X, r *vsched.Result)
	// Canon returns a canonical form of the state reached after a sequence; set: BFS
	// with merging of equal states instead of plain enumeration.
	Canon func() string
}

func (s *Seq) exec(c *Ctx, seq []int, trace bool) (*X, *vsched.Result, int, string) {
	x := &X{c: c}
	cfg := s.Cfg
	cfg.NoSchedDev = true
	cfg.Trace = trace
	n := len(seq)
	canon := ""
	if s.Before != nil {
		s.Before(x)
	}
	r := vsched.Run(cfg, func() {
		n = s.Run(x, seq)
		if s.Canon != nil {
			canon = s.Canon()
		}
	})
	done := mainPanic(c, x, r, fmt.Sprint(s.Name, seq))
	if r.Diverged == "" && s.After != nil && !done {
		s.After(x, r)
	}
	return x, r, n, canon
}

func (s *Seq) names(seq []int) []string {
	var o []string
	for _, i := range seq {
		o = append(o, s.Ops[i])
	}
	return o
}

func (s *Seq) check(c *Ctx, seq []int) (int, string, []string, bool) {
	rep := c.rep
	x, r, n, canon := s.exec(c, seq, false)
	rep.Executions++
	rep.Transitions += n
	if r.Diverged != "" {
		rep.Diverged++
		rep.Exhaustive = false
		rep.Incomplete = r.Diverged
		return n, canon, x.Outcome, false
	}
	rep.outcome(strings.Join(x.Outcome, " "))
	if len(rep.Samples) < 3 {
		rep.sample(fmt.Sprintf("%s -> %s", strings.Join(s.names(seq), "; "), strings.Join(x.Outcome, " ")))
	}
	if len(x.fails) > 0 {
		want := keys(x.fails)
		same := 0
		for i := 0; i < 5; i++ {
			y, r2, _, _ := s.exec(c, seq, false)
			if r2.Diverged == "" && keys(y.fails) == want {
				same++
			}
			rep.Replayed++
		}
		if same == 5 {
			y, r2, _, _ := s.exec(c, seq, true)
			for _, f := range y.fails {
				rep.Violations = append(rep.Violations, Violation{Check: c.Check, Job: rep.Name, Key: f.key, Msg: f.msg, Seq: seq, History: s.names(seq), Log: r2.Log})
			}
		} else {
			rep.Exhaustive = false
			rep.Incomplete = "unstable failure " + want
			fmt.Fprintf(os.Stderr, "unstable failure in %s %v: %s (%d/5)\n", s.Name, s.names(seq), x.fails[0].msg, same)
		}
	}
	return n, canon, x.Outcome, true
}

// Explore runs every sequence of exactly Depth operations (checks apply to
// every prefix on the way), or BFS with state merging if Canon is set.
func (s *Seq) Explore(c *Ctx) {
	rep := c.rep
	rep.Exhaustive = true
	if c.replay != nil {
		x, r, _, _ := s.exec(c, c.replay.Seq, true)
		fmt.Println("history:", strings.Join(s.names(c.replay.Seq), "; "))
		printReplay(x, r)
		for _, f := range x.fails {
			rep.Violations = append(rep.Violations, Violation{Check: c.Check, Job: rep.Name, Key: f.key, Msg: f.msg, Seq: c.replay.Seq})
		}
		return
	}
	if s.Canon != nil {
		s.bfs(c)
		return
	}
	rep.Bound = fmt.Sprintf("all sequences of %d operations from %d", s.Depth, len(s.Ops))
	seq := make([]int, 0, s.Depth)
	cnt := 0
	var rec func() int // returns how many leading operations were executed (for pruning)
	rec = func() int {
		if len(rep.Violations) > 0 {
			return s.Depth
		}
		if len(seq) == s.Depth {
			cnt++
			if cnt%c.N != c.Shard {
				return s.Depth
			}
			if c.expired() {
				rep.Exhaustive = false
				rep.Incomplete = fmt.Sprintf("deadline at sequence %v", s.names(seq))
				return -1
			}
			n, _, _, _ := s.check(c, append([]int{}, seq...))
			rep.States++
			return n
		}
		for i := range s.Ops {
			seq = append(seq, i)
			if s.Enabled == nil || s.Enabled(seq) {
				n := rec()
				if n < 0 {
					return n
				}
			}
			seq = seq[:len(seq)-1]
		}
		return s.Depth
	}
	rec()
}

func (s *Seq) bfs(c *Ctx) {
	rep := c.rep
	seen := map[[16]byte]bool{}
	key := func(k string) [16]byte { h := sha256.Sum256([]byte(k)); var o [16]byte; copy(o[:], h[:]); return o }
	frontier := [][]int{{}}
	_, k, _, ok := s.check(c, nil)
	if !ok {
		return
	}
	seen[key(k)] = true
	rep.States = 1
	for d := 1; d <= s.Depth; d++ {
		var next [][]int
		for fi, h := range frontier {
			for i := range s.Ops {
				if d == 1 && c.N > 1 && (fi*len(s.Ops)+i)%c.N != c.Shard {
					continue
				}
				if len(rep.Violations) > 0 {
					return
				}
				if c.expired() {
					rep.Exhaustive = false
					rep.Incomplete = fmt.Sprintf("deadline within depth %d", d)
					rep.Bound = fmt.Sprintf("depth %d complete", d-1)
					return
				}
				seq := append(append([]int{}, h...), i)
				if s.Enabled != nil && !s.Enabled(seq) {
					continue
				}
				_, k, _, ok := s.check(c, seq)
				if !ok {
					continue
				}
				kk := key(k)
				if !seen[kk] {
					seen[kk] = true
					rep.States++
					next = append(next, seq)
				}
			}
		}
		frontier = next
		rep.Bound = fmt.Sprintf("depth %d complete", d)
		if len(frontier) == 0 {
			rep.Bound = fmt.Sprintf("all reachable states (closed at depth %d)", d)
			return
		}
	}
}

// ---- finite product enumeration ----

// Enum runs f for every index below n (split over shards).
func Enum(c *Ctx, n int, f func(i int, x *X)) {
	rep := c.rep
	rep.Exhaustive = true
	rep.Bound = fmt.Sprintf("all %d cases", n)
	one := func(i int) *X {
		x := &X{c: c}
		func() {
			defer func() {
				if r := recover(); r != nil {
					st := string(debug.Stack())
					x.panicked(c, fmt.Sprint(r), vsched.TrimStack(st), vsched.Origin(r, st), fmt.Sprint("case ", i))
				}
			}()
			f(i, x)
		}()
		return x
	}
	if c.replay != nil {
		x := one(c.replay.Seq[0])
		for _, h := range x.Hist {
			fmt.Println(h)
		}
		fmt.Println("outcome:", x.Outcome)
		for _, fl := range x.fails {
			fmt.Println("FAIL", fl.key, fl.msg)
			rep.Violations = append(rep.Violations, Violation{Check: c.Check, Job: rep.Name, Key: fl.key, Msg: fl.msg, Seq: []int{c.replay.Seq[0]}, History: x.Hist})
		}
		return
	}
	for i := 0; i < n; i++ {
		if i%c.N != c.Shard {
			continue
		}
		if c.expired() {
			rep.Exhaustive = false
			rep.Incomplete = fmt.Sprintf("deadline at case %d of %d", i, n)
			return
		}
		x := one(i)
		rep.Executions++
		rep.States++
		rep.Transitions++
		rep.outcome(strings.Join(x.Outcome, " "))
		if len(rep.Samples) < 2 {
			rep.sample(fmt.Sprintf("case %d: %s -> %s", i, strings.Join(x.Hist, "; "), strings.Join(x.Outcome, " ")))
		}
		if len(x.fails) > 0 {
			want := keys(x.fails)
			same := 0
			for k := 0; k < 5; k++ {
				rep.Replayed++
				if keys(one(i).fails) == want {
					same++
				}
			}
			if same == 5 {
				for _, fl := range x.fails {
					rep.Violations = append(rep.Violations, Violation{Check: c.Check, Job: rep.Name, Key: fl.key, Msg: fl.msg, Seq: []int{i}, History: x.Hist})
				}
				if len(rep.Violations) > 5 {
					return
				}
			} else {
				rep.Exhaustive = false
				rep.Incomplete = "unstable failure " + want
				fmt.Fprintf(os.Stderr, "unstable failure %s case %d: %s (%d/5)\n", rep.Name, i, x.fails[0].msg, same)
			}
		}
	}
}

// EnumSim is Enum with each case inside the scheduler.
func EnumSim(c *Ctx, n int, cfg vsched.Config, f func(i int, x *X), after func(i int, x *X, r *vsched.Result)) {
	cfg.NoSchedDev = true
	Enum(c, n, func(i int, x *X) {
		cf := cfg
		cf.Trace = c.replay != nil
		r := vsched.Run(cf, func() { f(i, x) })
		x.sched = r
		if c.replay != nil {
			printReplay(x, r)
		}
		if mainPanic(c, x, r, fmt.Sprint("case ", i)) {
			return
		}
		if after != nil {
			after(i, x, r)
		}
	})
}

// ---- coordinator ----

func main() {
	debug.SetGCPercent(400)
	check := flag.String("check", "", "")
	tier := flag.String("tier", "quick", "")
	seed := flag.Int("seed", 1, "")
	budget := flag.Float64("budget", 60, "seconds of exploration")
	workers := flag.Int("workers", 8, "")
	shard := flag.Int("shard", -1, "")
	out := flag.String("out", "", "worker report or directory for replays")
	evidence := flag.String("evidence", "", "")
	known := flag.String("known", "", "known findings file")
	replay := flag.String("replay", "", "")
	job := flag.String("job", "", "only this job")
	list := flag.Bool("list", false, "")
	extra := flag.String("extra", "", "additional job reports (JSON) to merge")
	flag.Parse()
	if *list {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			for _, j := range checks[id].jobs(*tier) {
				fmt.Println(id, j.Name, j.Weight)
			}
		}
		return
	}
	if *replay != "" {
		os.Exit(doReplay(*replay, *tier))
	}
	ck := checks[*check]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no such check", *check)
		os.Exit(2)
	}
	if *shard >= 0 {
		reps := runShard(ck, *tier, *seed, *shard, *workers, *budget, *job)
		b, _ := json.Marshal(reps)
		if err := os.WriteFile(*out, b, 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return
	}
	start := time.Now()
	dir, err := os.MkdirTemp("", "mcw")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var wg sync.WaitGroup
	reps := make([][]*JobReport, *workers)
	bad := make([]string, *workers)
	for i := 0; i < *workers; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			f := filepath.Join(dir, strconv.Itoa(i))
			cmd := exec.Command(os.Args[0], "-check", *check, "-tier", *tier, "-seed", strconv.Itoa(*seed), "-budget", fmt.Sprint(*budget),
				"-workers", strconv.Itoa(*workers), "-shard", strconv.Itoa(i), "-out", f, "-job", *job)
			cmd.Stderr = os.Stderr
			cmd.Stdout = nil // the code under test prints
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
			if err := cmd.Run(); err != nil {
				bad[i] = err.Error()
				return
			}
			b, err := os.ReadFile(f)
			if err == nil {
				err = json.Unmarshal(b, &reps[i])
			}
			if err != nil {
				bad[i] = err.Error()
			}
		}()
	}
	wg.Wait()
	os.RemoveAll(dir)
	for i, b := range bad {
		if b != "" {
			fmt.Fprintf(os.Stderr, "worker %d: %s\n", i, b)
			os.Exit(2)
		}
	}
	if *extra != "" {
		var er []*JobReport
		b, err := os.ReadFile(*extra)
		if err == nil {
			err = json.Unmarshal(b, &er)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "extra:", err)
			os.Exit(2)
		}
		reps = append(reps, er)
	}
	os.Exit(finish(ck, *tier, *seed, reps, time.Since(start), *evidence, *out, *known))
}

func runShard(ck *Check, tier string, seed, shard, n int, budget float64, only string) []*JobReport {
	jobs := ck.jobs(tier)
	total := 0.0
	for _, j := range jobs {
		if j.Weight == 0 {
			j.Weight = 1
		}
		total += j.Weight
	}
	end := time.Now().Add(time.Duration(budget * float64(time.Second)))
	var out []*JobReport
	for _, j := range jobs {
		w := j.Weight
		if w == 0 {
			w = 1
		}
		if only != "" && !strings.HasPrefix(j.Name, only) {
			total -= w
			continue
		}
		t0 := time.Now()
		left := time.Until(end).Seconds() * w / total
		total -= w
		rep := &JobReport{Name: j.Name}
		c := &Ctx{Check: ck.ID, Shard: shard, N: n, Tier: tier, Seed: seed, rep: rep, Deadline: t0.Add(time.Duration(left * float64(time.Second)))}
		j.Run(c)
		rep.Wall = time.Since(t0).Seconds()
		out = append(out, rep)
		if len(rep.Violations) > 0 {
			break
		}
	}
	return out
}

func doReplay(file, tier string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 2
	}
	ck := checks[v.Check]
	for _, t := range []string{"quick", "thorough"} {
		for _, j := range ck.jobs(t) {
			if j.Name == v.Job {
				rep := &JobReport{Name: j.Name}
				j.Run(&Ctx{Check: ck.ID, N: 1, Tier: t, Seed: 1, rep: rep, replay: &v, Deadline: time.Now().Add(time.Hour)})
				if len(rep.Violations) > 0 {
					fmt.Println("reproduced:", rep.Violations[0].Key)
					return 1
				}
				fmt.Println("not reproduced")
				return 0
			}
		}
	}
	fmt.Println("job not found")
	return 2
}

func finish(ck *Check, tier string, seed int, reps [][]*JobReport, wall time.Duration, evidence, replayDir, known string) int {
	merged := map[string]*JobReport{}
	var order []string
	for _, rs := range reps {
		for _, r := range rs {
			m := merged[r.Name]
			if m == nil {
				m = &JobReport{Name: r.Name, Exhaustive: true, Bound: r.Bound, Outcomes: map[string]int{}}
				merged[r.Name] = m
				order = append(order, r.Name)
			}
			if len(r.Bound) > 0 && (m.Bound == "" || r.Bound < m.Bound) {
				m.Bound = r.Bound
			}
			m.Executions += r.Executions
			m.States += r.States
			m.Transitions += r.Transitions
			m.Replayed += r.Replayed
			m.Diverged += r.Diverged
			if r.Broken != "" {
				m.Broken = r.Broken
			}
			for k, n := range r.Outcomes {
				m.Outcomes[k] += n
			}
			for _, s := range r.Samples {
				m.sample(s)
			}
			m.Exhaustive = m.Exhaustive && r.Exhaustive
			if r.Incomplete != "" {
				m.Incomplete = r.Incomplete
			}
			m.Violations = append(m.Violations, r.Violations...)
			if r.Wall > m.Wall {
				m.Wall = r.Wall
			}
		}
	}
	kf := loadKnown(known, ck.ID)
	var states, trans, execs, replayed int
	exhaustive := true
	var samples []interface{}
	var jobs []interface{}
	var viol []Violation
	seenKnown := map[string]string{}
	for _, n := range order {
		m := merged[n]
		states += m.States
		trans += m.Transitions
		execs += m.Executions
		replayed += m.Replayed
		exhaustive = exhaustive && m.Exhaustive
		for _, s := range m.Samples {
			if len(samples) < 12 {
				if len(s) > 600 {
					s = s[:600] + "..."
				}
				samples = append(samples, n+": "+s)
			}
		}
		top := map[string]int{}
		type kv struct {
			k string
			n int
		}
		var kvs []kv
		for k, c := range m.Outcomes {
			kvs = append(kvs, kv{k, c})
		}
		sort.Slice(kvs, func(i, j int) bool { return kvs[i].n > kvs[j].n || kvs[i].n == kvs[j].n && kvs[i].k < kvs[j].k })
		for i, e := range kvs {
			if i < 8 {
				k := e.k
				if len(k) > 300 {
					k = k[:300] + "..."
				}
				top[k] = e.n
			}
		}
		jobs = append(jobs, map[string]interface{}{"job": n, "executions": m.Executions, "states": m.States, "transitions": m.Transitions, "bound": m.Bound,
			"exhaustive_within_bound": m.Exhaustive, "incomplete": m.Incomplete, "distinct_outcomes": len(m.Outcomes), "most_frequent_outcomes": top,
			"replays_for_determinism": m.Replayed, "diverged": m.Diverged, "wall_s": m.Wall})
		fmt.Printf("%s %-44s exec=%d states=%d trans=%d outcomes=%d bound=%q exhaustive=%v %s (%.1fs)\n", ck.ID, n, m.Executions, m.States, m.Transitions, len(m.Outcomes), m.Bound, m.Exhaustive, m.Incomplete, m.Wall)
		for _, v := range m.Violations {
			if d, ok := kf[v.Key]; ok {
				seenKnown[v.Key] = d
				continue
			}
			viol = append(viol, v)
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	level := ck.Level
	if level == "" {
		level = "model_checking"
	}
	ev := map[string]interface{}{
		"property": ck.ID, "tier": tier, "seed": seed, "level": level, "wall_s": wall.Seconds(), "violations": len(viol),
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": execs, "samples": samples, "exhaustive": exhaustive, "jobs": jobs,
			"executions_of_real_code": execs, "replays": replayed,
			"explanation": "Every execution runs the repository's own code (rebuilt from the working tree) inside a controlled environment, so every explored trace is a trace of the implementation. Jobs named \"binary: ...\" run the built horcrux program itself: there a state is the content of all files below the scratch home (or one case of processes), a transition one command, process life or request. states: nodes of the explored execution trees plus distinct cases or canonical states; transitions: scheduler steps or operations executed.",
		},
		"assumptions": append([]string{}, ck.Assumptions...),
	}
	if evidence != "" {
		os.MkdirAll(filepath.Dir(evidence), 0755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(evidence, b, 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	for k, d := range seenKnown {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", ck.ID, d, k)
	}
	if len(viol) == 0 {
		for _, n := range order {
			if b := merged[n].Broken; b != "" {
				fmt.Printf("no answer: the harness of %q panicked: %s\n", n, b)
				return 2
			}
		}
		return 0
	}
	seen := map[string]bool{}
	for _, v := range viol {
		if seen[v.Key] {
			continue
		}
		seen[v.Key] = true
		b, _ := json.MarshalIndent(v, "", " ")
		h := sha256.Sum256([]byte(v.Key))
		f := filepath.Join(replayDir, fmt.Sprintf("%s-%s.json", ck.ID, hex.EncodeToString(h[:4])))
		os.MkdirAll(replayDir, 0755)
		os.WriteFile(f, b, 0644)
		fmt.Printf("  %s [%s] %s\n", v.Job, v.Key, v.Msg)
		if len(v.History) > 0 {
			fmt.Printf("    history: %s\n", strings.Join(v.History, "; "))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, f)
	}
	return 1
}

func loadKnown(file, id string) map[string]string {
	out := map[string]string{}
	if file == "" {
		return out
	}
	b, err := os.ReadFile(file)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=<id> key=<key> <what fails>
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+id+" key=")
		sp := strings.SplitN(rest, " ", 2)
		d := ""
		if len(sp) > 1 {
			d = sp[1]
		}
		out[sp[0]] = d
	}
	return out
}
