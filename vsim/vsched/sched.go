// Package vsched is a cooperative, deterministic scheduler with virtual time.
//
// Exactly one managed task runs at any moment. At every scheduling point the
// running task hands the baton to the task picked by the choice script, so an
// execution is a pure function of the list of choices. All choices are
// recorded, which lets the explorer enumerate deviations from the default.
package vsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

type killT struct{}

var killSentinel = &killT{}

// IsKill reports whether a recovered value is the scheduler's own unwinding.
func IsKill(r interface{}) bool { return r == killSentinel }

const (
	KSched  = 'S' // which task runs next
	KSelect = 'C' // which ready select case fires
	KEnv    = 'E' // environment answer
	KTimer  = 'T' // timer fires early
)

// Point is one recorded choice.
type Point struct {
	Kind  byte
	N     int
	Alt   int
	Label string
	Costs []int // cost of each alternative; nil: 0 for alternative 0, 1 for others
}

func (p *Point) Cost(alt int) int {
	if p.Costs != nil {
		return p.Costs[alt]
	}
	if alt == 0 {
		return 0
	}
	return 1
}

// Dev is a deviation from the default choice 0 at a choice point.
type Dev struct {
	Idx   int
	Alt   int
	N     int
	Label string
}

// Config of one execution.
type Config struct {
	Devs        []Dev
	MapYield    bool          // scheduling points at accesses to maps, which must not overlap; choices there even with NoSchedDev
	MapNode     string        // only those of this node
	StmtYield   bool          // scheduling points before every instrumented statement
	FreeSwitch  bool          // choosing another task when the running one blocked costs nothing
	TimerDev    bool          // allow the earliest timer to fire although tasks are runnable (a deviation)
	NoSchedDev  bool          // scheduling choices are not recorded (only environment choices)
	Horizon     time.Duration // virtual horizon: end of the execution
	MaxSteps    int
	MapOrder    int // 0 sorted, 1 reversed
	Trace       bool
	YieldFilter string // only tasks whose name has this prefix take statement yields ("" all)
}

type PanicInfo struct {
	Task, Node, Value, Stack string
	Origin                   string // see Origin
}

// Origin says where a panic comes from: "code" for the code under test, "error" for an error
// that a harness got from it and did not expect, else "harness".
func Origin(r interface{}, stack string) string {
	first := ""
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "panic(") { // what follows is where it was raised
			first = ""
			continue
		}
		if first != "" || strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, "main.") {
			first = "harness"
		} else if strings.HasPrefix(l, "github.com/strangelove-ventures/horcrux/signer") ||
			strings.HasPrefix(l, "github.com/strangelove-ventures/horcrux/cmd") {
			first = "code"
		}
	}
	if first == "code" {
		return first
	}
	if _, is := r.(runtime.Error); is {
		return "harness"
	}
	if _, is := r.(error); is {
		return "error"
	}
	return "harness"
}

// TrimStack is the readable part of a stack.
func TrimStack(st string) string { return trimStack(st) }

type Result struct {
	Points     []Point
	Deadlock   bool
	Blocked    []string
	HorizonHit bool
	StepLimit  bool
	Panics     []PanicInfo
	Steps      int
	Now        time.Duration
	Diverged   string
	MainDone   bool
	Log        []string
}

type Task struct {
	ID     int
	Name   string
	Node   string
	wake   chan struct{}
	ready  func() bool // nil: runnable
	what   string
	done   bool
	killed bool
}

type timer struct {
	at  int64
	seq int
	f   func()
	off bool
}

type sched struct {
	atMap   bool
	maps    []*mapAccess
	cfg     Config
	cur     *Task
	tasks   []*Task
	nextID  int
	timers  []*timer
	tseq    int
	now     int64
	res     *Result
	devIdx  int
	ended   chan struct{}
	ending  bool
	main    *Task
	crashed map[string]bool
}

var s *sched

// RunID identifies the execution; objects created in an earlier one reset themselves.
var RunID int

// Epoch is virtual time zero.
var Epoch = time.Date(2022, 1, 1, 0, 0, 0, 0, time.UTC)

// Active reports whether the caller runs as a managed task.
func Active() bool { return s != nil && s.cur != nil }

// Run executes main under the scheduler.
func Run(cfg Config, main func()) *Result {
	if s != nil {
		panic("vsched: nested Run")
	}
	if cfg.Horizon == 0 {
		cfg.Horizon = 10 * time.Minute
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 2000000
	}
	RunID++
	s = &sched{cfg: cfg, res: &Result{}, ended: make(chan struct{}), crashed: map[string]bool{}}
	chanReset()
	t := newTask("main", "")
	s.main = t
	start(t, main)
	s.cur = t
	t.wake <- struct{}{}
	<-s.ended
	// unwind everything that is left
	s.ending = true
	for i := 0; i < len(s.tasks); i++ {
		t := s.tasks[i]
		if !t.done {
			t.killed = true
			s.cur = t
			t.wake <- struct{}{}
			<-s.ended
		}
	}
	if s.devIdx < len(s.cfg.Devs) && s.res.Diverged == "" {
		s.res.Diverged = fmt.Sprintf("deviation %v never reached (%d points)", s.cfg.Devs[s.devIdx], len(s.res.Points))
	}
	s.res.Now = time.Duration(s.now)
	r := s.res
	s = nil
	return r
}

func newTask(name, node string) *Task {
	t := &Task{ID: s.nextID, Name: name, Node: node, wake: make(chan struct{})}
	s.nextID++
	s.tasks = append(s.tasks, t)
	return t
}

func start(t *Task, f func()) {
	go func() {
		<-t.wake
		defer func() {
			if r := recover(); r != nil && !IsKill(r) {
				if !t.killed {
					s.res.Panics = append(s.res.Panics, PanicInfo{t.Name, t.Node, fmt.Sprint(r), trimStack(string(debug.Stack())), Origin(r, string(debug.Stack()))})
					if t.Node != "" {
						crash(t.Node)
					} else if t == s.main {
						s.res.Log = append(s.res.Log, "main panicked")
					}
				}
			}
			t.done = true
			if s.ending {
				s.ended <- struct{}{}
				return
			}
			if t == s.main {
				s.res.MainDone = true
				s.ended <- struct{}{}
				return
			}
			finish()
		}()
		if !t.killed {
			f()
		}
	}()
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "runtime/") || strings.Contains(l, "vsched") {
			continue
		}
		out = append(out, strings.TrimSpace(l))
		if len(out) > 16 {
			break
		}
	}
	return strings.Join(out, " | ")
}

// finish: the current task is done; hand over without coming back.
func finish() {
	n := pick(false)
	if n == nil {
		s.ended <- struct{}{}
		return
	}
	s.cur = n
	n.wake <- struct{}{}
}

func switchTo(n *Task) {
	me := s.cur
	if n == me {
		return
	}
	s.cur = n
	n.wake <- struct{}{}
	<-me.wake
	if me.killed {
		panic(killSentinel)
	}
}

// abort ends the execution from inside a task.
func abort() {
	me := s.cur
	s.ended <- struct{}{}
	<-me.wake
	panic(killSentinel)
}

func compact() {
	if len(s.tasks) < 64 {
		return
	}
	n := s.tasks[:0]
	for _, t := range s.tasks {
		if !t.done {
			n = append(n, t)
		}
	}
	s.tasks = n
}

func enabledTasks(curOK bool) []*Task {
	var out []*Task
	if curOK {
		out = append(out, s.cur)
	}
	// round robin: ids after the current one first
	for pass := 0; pass < 2; pass++ {
		for _, t := range s.tasks {
			if t.done || t == s.cur {
				continue
			}
			if (pass == 0) != (t.ID > s.cur.ID) {
				continue
			}
			if t.killed || t.ready == nil || t.ready() {
				out = append(out, t)
			}
		}
	}
	return out
}

func popTimer() *timer {
	best := -1
	for i, t := range s.timers {
		if best < 0 || t.at < s.timers[best].at || (t.at == s.timers[best].at && t.seq < s.timers[best].seq) {
			best = i
		}
	}
	if best < 0 {
		return nil
	}
	t := s.timers[best]
	s.timers = append(s.timers[:best], s.timers[best+1:]...)
	return t
}

func peekTimer() bool {
	return len(s.timers) > 0
}

func fireTimer() bool {
	t := popTimer()
	if t == nil {
		return false
	}
	if t.at > s.now {
		s.now = t.at
	}
	t.f()
	return true
}

// pick chooses the next task; nil when the execution is over.
func pick(curOK bool) *Task {
	compact()
	for {
		s.res.Steps++
		if s.res.Steps > s.cfg.MaxSteps {
			s.res.StepLimit = true
			return nil
		}
		if s.now > int64(s.cfg.Horizon) {
			s.res.HorizonHit = true
			return nil
		}
		for _, t := range s.tasks {
			if t.killed && !t.done && t != s.cur {
				return t
			}
		}
		en := enabledTasks(curOK)
		// also poll the current task if it is blocked but its condition already holds
		if !curOK && !s.cur.done && s.cur.ready != nil && s.cur.ready() {
			en = append([]*Task{s.cur}, en...)
		}
		if len(en) == 0 {
			if !fireTimer() {
				s.res.Deadlock = true
				for _, t := range s.tasks {
					if !t.done {
						s.res.Blocked = append(s.res.Blocked, fmt.Sprintf("%s@%s: %s", t.Name, t.Node, t.what))
					}
				}
				return nil
			}
			continue
		}
		n := len(en)
		timerAlt := -1
		if s.cfg.TimerDev && peekTimer() {
			timerAlt = n
			n++
		}
		atMap := s.atMap
		s.atMap = false
		if n == 1 || s.cfg.NoSchedDev && !atMap {
			return en[0]
		}
		var costs []int
		if s.cfg.FreeSwitch && !curOK {
			costs = make([]int, n)
			if timerAlt >= 0 {
				costs[timerAlt] = 1
			}
		}
		c := chooseCost(n, KSched, "", costs)
		if c == timerAlt {
			fireTimer()
			continue
		}
		return en[c]
	}
}

func chooseCost(n int, kind byte, label string, costs []int) int {
	idx := len(s.res.Points)
	alt := 0
	if s.devIdx < len(s.cfg.Devs) && s.cfg.Devs[s.devIdx].Idx == idx {
		d := s.cfg.Devs[s.devIdx]
		s.devIdx++
		if d.N != 0 && (d.N != n || d.Label != label) || d.Alt >= n {
			if s.res.Diverged == "" {
				s.res.Diverged = fmt.Sprintf("point %d: expected %d/%q, found %d/%q", idx, d.N, d.Label, n, label)
			}
		} else {
			alt = d.Alt
		}
	}
	s.res.Points = append(s.res.Points, Point{kind, n, alt, label, costs})
	return alt
}

// Quiet turns scheduling choices off, or on again; environment choices remain.
func Quiet(on bool) {
	if s != nil {
		s.cfg.NoSchedDev = on
	}
}

// Choose is an environment choice among n alternatives; alternative 0 is the default.
func Choose(n int, label string) int {
	if !Active() || s.cur.killed || n <= 1 {
		return 0
	}
	return chooseCost(n, KEnv, label, nil)
}

// ChooseFree is an environment choice whose alternatives all cost nothing.
func ChooseFree(n int, label string) int {
	if !Active() || s.cur.killed || n <= 1 {
		return 0
	}
	return chooseCost(n, KEnv, label, make([]int, n))
}

// Yield is an explicit scheduling point.
func Yield() {
	if !Active() || s.cur.killed {
		return
	}
	n := pick(true)
	if n == nil {
		abort()
	}
	switchTo(n)
}

// Y precedes every instrumented statement.
func Y() {
	if s == nil || s.cur == nil {
		return
	}
	if s.cfg.StmtYield && !s.cur.killed && (s.cfg.YieldFilter == "" || strings.HasPrefix(s.cur.Name, s.cfg.YieldFilter)) {
		Yield()
		return
	}
	s.res.Steps++
	if s.res.Steps > s.cfg.MaxSteps && !s.cur.killed {
		s.res.StepLimit = true
		abort()
	}
}

// SetStmtYield switches statement level scheduling points on or off.
func SetStmtYield(on bool) { s.cfg.StmtYield = on }

// Block suspends the current task until ready() holds.
func Block(ready func() bool, what string) {
	if !Active() {
		if ready() {
			return
		}
		panic("vsched: blocking outside a managed task: " + what)
	}
	me := s.cur
	if me.killed {
		return
	}
	if ready() {
		return
	}
	me.ready, me.what = ready, what
	n := pick(false)
	if n == nil {
		me.ready = nil
		abort()
	}
	switchTo(n)
	me.ready, me.what = nil, ""
}

// Go starts a managed task on the node of its creator.
func Go(f func()) {
	if !Active() {
		panic("vsched: go statement outside a managed task")
	}
	if s.cur.killed {
		return
	}
	GoOn(s.cur.Node, s.cur.Name+"/", f)
}

// GoOn starts a managed task on a node.
func GoOn(node, name string, f func()) *Task {
	if s.crashed[node] && node != "" && s.cur.Node == node {
		return nil
	}
	t := newTask(name, node)
	if strings.HasSuffix(name, "/") {
		t.Name = fmt.Sprintf("%s%d", name, t.ID)
	}
	start(t, f)
	Yield()
	return t
}

// Spawn starts a task without a scheduling point (for timer callbacks).
func Spawn(node, name string, f func()) {
	if s == nil || s.crashed[node] && node != "" {
		return
	}
	start(newTask(name, node), f)
}

func (t *Task) Done() bool { return t == nil || t.done }

// Join waits for tasks.
func Join(ts ...*Task) {
	for _, t := range ts {
		if t != nil {
			t := t
			Block(func() bool { return t.done }, "join "+t.Name)
		}
	}
}

// Node returns the node of the current task.
func Node() string {
	if !Active() {
		return ""
	}
	return s.cur.Node
}

// SetNode moves the current task to a node (used by harness code around construction).
func SetNode(n string) string {
	o := s.cur.Node
	s.cur.Node = n
	return o
}

// TaskName of the running task.
func TaskName() string {
	if !Active() {
		return ""
	}
	return s.cur.Name
}

// Killed reports whether the current task is being unwound.
func Killed() bool { return s != nil && s.cur != nil && s.cur.killed }

// OnCrash hooks run when a node crashes.
var OnCrash []func(node string)

func crash(node string) {
	s.crashed[node] = true
	for _, t := range s.tasks {
		if t.Node == node && !t.done {
			t.killed = true
		}
	}
	for _, f := range OnCrash {
		f(node)
	}
}

// Crash kills all tasks of a node. If the caller runs on the node it unwinds.
func Crash(node string) {
	crash(node)
	if s.cur.killed {
		panic(killSentinel)
	}
}

// Revive allows tasks on a node again after a crash.
func Revive(node string) { delete(s.crashed, node) }

// IsCrashed reports a crashed node.
func IsCrashed(node string) bool { return s != nil && s.crashed[node] }

// Now is the virtual time since the start.
func Now() int64 {
	if s == nil {
		return 0
	}
	return s.now
}

// AddTimer registers f at now+d; the returned func cancels it and reports whether it was pending.
func AddTimer(d time.Duration, f func()) func() bool {
	if s == nil {
		panic("vsched: timer outside an execution")
	}
	if d < 0 {
		d = 0
	}
	s.tseq++
	t := &timer{at: s.now + int64(d), seq: s.tseq, f: f}
	s.timers = append(s.timers, t)
	my := s
	return func() bool {
		if s != my {
			return false
		}
		for i, x := range s.timers {
			if x == t {
				s.timers = append(s.timers[:i], s.timers[i+1:]...)
				return true
			}
		}
		return false
	}
}

// Sleep in virtual time.
func Sleep(d time.Duration) {
	if !Active() || s.cur.killed {
		return
	}
	fired := false
	AddTimer(d, func() { fired = true })
	Block(func() bool { return fired }, "sleep")
}

// Idle runs everything else until no task but the caller can run without time advancing.
func Idle() {
	me := s.cur
	Block(func() bool {
		for _, t := range s.tasks {
			if t != me && !t.done && (t.killed || t.ready == nil || t.ready()) {
				return false
			}
		}
		return true
	}, "idle")
}

// IdleFor lets the system run for a virtual duration.
func IdleFor(d time.Duration) { Sleep(d); Idle() }

// Log adds to the execution log.
func Log(format string, a ...interface{}) {
	if s != nil && s.cfg.Trace {
		s.res.Log = append(s.res.Log, fmt.Sprintf("[%8.3f %s@%s] ", float64(s.now)/1e9, TaskName(), Node())+fmt.Sprintf(format, a...))
	}
}

// Trace reports whether logging is on.
func Trace() bool { return s != nil && s.cfg.Trace }

// MapOrder configured for this execution.
func MapOrder() int {
	if s == nil {
		return 0
	}
	return s.cfg.MapOrder
}

// Blocked lists the blocked tasks (for reports).
func BlockedTasks() (out []string) {
	for _, t := range s.tasks {
		if !t.done {
			out = append(out, fmt.Sprintf("%s@%s: %s", t.Name, t.Node, t.what))
		}
	}
	sort.Strings(out)
	return
}
