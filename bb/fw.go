// Package main explores the behaviour of the real horcrux binary: every
// explored state is the set of files below a scratch home directory, every
// transition one run of a command (or one life of a signer process) from a
// freshly materialised copy of that state.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Violation and JobReport have the layout of the main checker's.
type Violation struct {
	Job     string   `json:"job"`
	Key     string   `json:"key"`
	Msg     string   `json:"msg"`
	History []string `json:"history,omitempty"`
	Log     []string `json:"log,omitempty"`
	Check   string   `json:"check"`
}

type JobReport struct {
	Name        string
	Bound       string
	Executions  int
	States      int
	Transitions int
	Replayed    int
	Outcomes    map[string]int
	Samples     []string
	Exhaustive  bool
	Incomplete  string
	Diverged    int
	Violations  []Violation
	Wall        float64

	mu   sync.Mutex
	seen map[string]bool
}

func (r *JobReport) outcome(s string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.Outcomes == nil {
		r.Outcomes = map[string]int{}
	}
	r.Outcomes[s]++
}

func (r *JobReport) sample(s string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.Samples) < 4 {
		r.Samples = append(r.Samples, s)
	}
}

// Fail is one broken expectation.
type Fail struct{ Key, Msg string }

// Files maps a path below the scratch directory to its content; "/SCRATCH" in a
// content stands for the scratch directory. A path ending in / is a directory.
type Files map[string]string

func (f Files) key() string {
	var ks []string
	for k := range f {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%q=%q\n", k, f[k])
	}
	return b.String()
}

func (f Files) with(kv ...string) Files {
	o := Files{}
	for k, v := range f {
		o[k] = v
	}
	for i := 0; i < len(kv); i += 2 {
		o[kv[i]] = kv[i+1]
	}
	return o
}

func (f Files) without(ks ...string) Files {
	o := f.with()
	for _, k := range ks {
		delete(o, k)
	}
	return o
}

// diff tells how b differs from a.
func (f Files) diff(b Files) string {
	var d []string
	for k, v := range f {
		if w, ok := b[k]; !ok {
			d = append(d, k+" is gone")
		} else if v != w {
			d = append(d, fmt.Sprintf("%s changed from %q to %q", k, clip(v), clip(w)))
		}
	}
	for k, w := range b {
		if _, ok := f[k]; !ok {
			d = append(d, fmt.Sprintf("%s appeared with %q", k, clip(w)))
		}
	}
	sort.Strings(d)
	return strings.Join(d, "; ")
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

// Slot is a scratch directory a worker runs commands in.
type Slot struct {
	id  int
	dir string
}

var (
	root  string
	bin   string
	slots chan *Slot
	tier  string
)

func setup(n int) {
	var err error
	root, err = os.MkdirTemp("", "bb")
	if err != nil {
		panic(err)
	}
	os.Chmod(root, 0711)
	slots = make(chan *Slot, n)
	for i := 0; i < n; i++ {
		slots <- &Slot{i, filepath.Join(root, fmt.Sprint("s", i))}
	}
}

const nobody = 65534

// put makes the slot hold exactly f.
func (s *Slot) put(f Files) {
	if !strings.HasPrefix(s.dir, root) || len(root) < 6 {
		panic("bad slot")
	}
	exec.Command("chmod", "-R", "u+rwx", s.dir).Run()
	if err := os.RemoveAll(s.dir); err != nil {
		panic(err)
	}
	must(os.MkdirAll(filepath.Join(s.dir, "cwd"), 0755))
	for p, c := range f {
		q := filepath.Join(s.dir, p)
		if strings.HasSuffix(p, "/") {
			must(os.MkdirAll(q, 0755))
			continue
		}
		must(os.MkdirAll(filepath.Dir(q), 0755))
		must(os.WriteFile(q, []byte(strings.ReplaceAll(c, "/SCRATCH", s.dir)), 0644))
	}
}

// get reads the files back; directories are left out unless they were put.
func (s *Slot) get(pre Files) Files {
	f := Files{}
	filepath.Walk(s.dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(s.dir, p)
		if i.IsDir() {
			if _, ok := pre[rel+"/"]; ok {
				f[rel+"/"] = ""
			}
			return nil
		}
		if strings.HasPrefix(rel, ".horcrux/raft/") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err == nil {
			f[rel] = strings.ReplaceAll(string(b), s.dir, "/SCRATCH")
		}
		return nil
	})
	return f
}

// Out is what a command did.
type Out struct {
	Code    int
	Text    string
	Timeout bool
}

// Opt says how to run a command.
type Opt struct {
	Fsize int      // limit on the size of files written plus one; 0 is no limit
	RO    []string // directories the command may not write; runs it unprivileged
	Inj   string   // fault strace injects into the system calls
	Env   []string
	Named bool // run the binary under the name horcrux
}

func (o Opt) String() string {
	var s []string
	if o.Fsize > 0 {
		s = append(s, fmt.Sprintf("writes stop after %d bytes", o.Fsize-1))
	}
	if len(o.RO) > 0 {
		s = append(s, "read-only "+strings.Join(o.RO, ","))
	}
	if o.Inj != "" {
		s = append(s, o.Inj)
	}
	s = append(s, o.Env...)
	if len(s) == 0 {
		return ""
	}
	return "[" + strings.Join(s, "; ") + "] "
}

// canInject tells whether system calls can be made to fail here.
func canInject() bool {
	out, err := exec.Command("strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=chdir", "-e", "inject=chdir:error=EIO", "sh", "-c", "cd / && echo went").CombinedOutput()
	return err != nil && !strings.Contains(string(out), "went") && strings.Contains(string(out), "cd")
}

// command prepares one run of the binary in the slot.
func (s *Slot) command(ctx context.Context, o Opt, args []string) *exec.Cmd {
	var argv []string
	if o.Fsize > 0 {
		argv = append(argv, "prlimit", fmt.Sprintf("--fsize=%d", o.Fsize-1), "--core=0")
	}
	if o.Inj != "" {
		call := o.Inj[:strings.Index(o.Inj, ":")]
		argv = append(argv, "strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace="+call, "-e", "inject="+o.Inj)
	}
	if o.Named {
		argv = append(argv, namedBin())
	} else {
		argv = append(argv, bin)
	}
	for _, a := range args {
		argv = append(argv, strings.ReplaceAll(a, "/SCRATCH", s.dir))
	}
	cmd := exec.CommandContext(ctx, argv[0], argv[1:]...)
	cmd.Dir = filepath.Join(s.dir, "cwd")
	cmd.Env = append([]string{"HOME=" + s.dir, "PATH=" + os.Getenv("PATH"), "GOMAXPROCS=2"}, o.Env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if len(o.RO) > 0 {
		filepath.Walk(s.dir, func(p string, i os.FileInfo, err error) error {
			if err == nil {
				os.Chown(p, nobody, nobody)
			}
			return nil
		})
		for _, d := range o.RO {
			os.Chmod(filepath.Join(s.dir, d), 0555)
		}
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: nobody, Gid: nobody}
	}
	return cmd
}

// run puts f, runs the command and reads the files back.
func run(f Files, o Opt, args []string) (Files, Out) {
	s := <-slots
	defer func() { slots <- s }()
	return s.run(f, o, args)
}

func (s *Slot) run(f Files, o Opt, args []string) (Files, Out) {
	s.put(f)
	return s.runHere(f, o, args)
}

// runHere runs the command on the files there are.
func (s *Slot) runHere(f Files, o Opt, args []string) (Files, Out) {
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	cmd := s.command(ctx, o, args)
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	err := cmd.Run()
	out := Out{Text: strings.ReplaceAll(buf.String(), s.dir, "/SCRATCH")}
	if ctx.Err() != nil {
		out.Timeout = true
	}
	if err != nil {
		out.Code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			out.Code = ee.ExitCode()
			if ee.ExitCode() < 0 {
				out.Code = 255
			}
		} else {
			fmt.Fprintln(os.Stderr, "cannot run:", err)
			os.Exit(2)
		}
	}
	for _, d := range o.RO {
		os.Chmod(filepath.Join(s.dir, d), 0755)
	}
	return s.get(f), out
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// Op is one command.
type Op struct {
	Kind string
	Args []string
	Opt  Opt
}

func op(kind string, args ...string) Op { return Op{Kind: kind, Args: args} }

func (o Op) String() string { return fmt.Sprintf("%s%q", o.Opt, o.Args) }

// Trans is one explored transition.
type Trans struct {
	Pre, Post Files
	Op        Op
	Out       Out
}

// BFS explores every sequence of operations up to the depth, merging states
// with the same files.
type BFS struct {
	Name   string
	Inits  map[string]Files
	Ops    func(pre Files, depth int) []Op
	Depth  int
	Check  func(t Trans) []Fail
	Expand func(t Trans) bool // whether to explore from the state reached
}

type bnode struct {
	files Files
	hist  []string
	init  string
	ops   []Op
}

func (b BFS) run(c *Ctx) {
	rep := c.report(b.Name)
	rep.Exhaustive = true
	rep.Bound = fmt.Sprintf("depth %d", b.Depth)
	seen := map[string]bool{}
	var level []bnode
	var names []string
	for n := range b.Inits {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f := b.Inits[n]
		if !seen[f.key()] {
			seen[f.key()] = true
			level = append(level, bnode{files: f, hist: []string{"start: " + n}, init: n})
		}
	}
	rep.States = len(level)
	for d := 1; d <= b.Depth; d++ {
		type job struct {
			n  bnode
			op Op
		}
		var jobs []job
		for _, n := range level {
			for _, o := range b.Ops(n.files, d) {
				jobs = append(jobs, job{n, o})
			}
		}
		next := make([]*bnode, len(jobs))
		par(len(jobs), func(i int) bool {
			if time.Now().After(c.deadline) {
				rep.mu.Lock()
				rep.Exhaustive = false
				rep.Incomplete = fmt.Sprintf("deadline at depth %d (%d operations)", d, len(jobs))
				rep.mu.Unlock()
				return false
			}
			j := jobs[i]
			post, out := run(j.n.files, j.op.Opt, j.op.Args)
			t := Trans{j.n.files, post, j.op, out}
			fails := b.Check(t)
			hist := append(append([]string{}, j.n.hist...), fmt.Sprintf("%s -> exit %d", j.op, out.Code))
			rep.mu.Lock()
			rep.Executions++
			rep.Transitions++
			rep.mu.Unlock()
			oc := "ok"
			if out.Code != 0 {
				oc = "refused"
			}
			rep.outcome(j.op.Kind + " " + oc)
			rep.sample(strings.Join(hist, "; "))
			if len(fails) > 0 {
				c.confirm(rep, fails, hist, append(append([]Op{}, j.n.ops...), j.op), j.n.init, func() []Fail {
					post, out := run(j.n.files, j.op.Opt, j.op.Args)
					return b.Check(Trans{j.n.files, post, j.op, out})
				})
				return true
			}
			if b.Expand == nil || b.Expand(t) {
				next[i] = &bnode{files: post, hist: hist, init: j.n.init, ops: append(append([]Op{}, j.n.ops...), j.op)}
			}
			return true
		})
		level = nil
		for _, n := range next {
			if n == nil || seen[n.files.key()] {
				continue
			}
			seen[n.files.key()] = true
			level = append(level, *n)
		}
		rep.States += len(level)
		if !rep.Exhaustive || len(rep.Violations) > 0 {
			break
		}
	}
}

// Cases runs f on every case.
func Cases(c *Ctx, name string, n int, f func(i int, s *Slot) (hist []string, outcome string, fails []Fail)) {
	rep := c.report(name)
	rep.Exhaustive = true
	rep.Bound = fmt.Sprintf("all %d cases", n)
	par(n, func(i int) bool {
		if time.Now().After(c.deadline) || len(rep.Violations) > 4 {
			rep.mu.Lock()
			rep.Exhaustive = false
			rep.Incomplete = fmt.Sprintf("stopped before case %d of %d", i, n)
			rep.mu.Unlock()
			return false
		}
		one := func() ([]string, string, []Fail) {
			s := <-slots
			defer func() { slots <- s }()
			return f(i, s)
		}
		h, oc, fails := one()
		rep.mu.Lock()
		rep.Executions++
		rep.States++
		rep.Transitions += len(h)
		rep.mu.Unlock()
		rep.outcome(oc)
		rep.sample(strings.Join(h, "; "))
		if len(fails) > 0 {
			c.confirm(rep, fails, h, nil, fmt.Sprint(i), func() []Fail { _, _, fl := one(); return fl })
		}
		return true
	})
}

func par(n int, f func(i int) bool) {
	var wg sync.WaitGroup
	ch := make(chan int)
	stop := make(chan struct{})
	var once sync.Once
	for w := 0; w < cap(slots); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				if !f(i) {
					once.Do(func() { close(stop) })
				}
			}
		}()
	}
loop:
	for i := 0; i < n; i++ {
		select {
		case ch <- i:
		case <-stop:
			break loop
		}
	}
	close(ch)
	wg.Wait()
}

// Ctx is one invocation of the checker.
type Ctx struct {
	check    string
	reps     []*JobReport
	deadline time.Time
	only     string
}

func (c *Ctx) report(name string) *JobReport {
	r := &JobReport{Name: binary + name, seen: map[string]bool{}, Outcomes: map[string]int{}}
	c.reps = append(c.reps, r)
	return r
}

func (c *Ctx) confirm(rep *JobReport, fails []Fail, hist []string, ops []Op, init string, again func() []Fail) {
	same := 0
	for k := 0; k < 3; k++ {
		if keysOf(again()) == keysOf(fails) {
			same++
		}
	}
	rep.mu.Lock()
	defer rep.mu.Unlock()
	rep.Replayed += 3
	if same < 3 {
		rep.Exhaustive = false
		rep.Incomplete = "unstable failure " + fails[0].Key
		fmt.Fprintf(os.Stderr, "unstable failure %s: %s: %s (%d/3)\n", rep.Name, fails[0].Key, fails[0].Msg, same)
		return
	}
	for _, f := range fails {
		if rep.seen[f.Key] || len(rep.Violations) > 6 {
			continue
		}
		rep.seen[f.Key] = true
		rep.Violations = append(rep.Violations, Violation{Check: c.check, Job: rep.Name, Key: f.Key, Msg: f.Msg, History: hist})
	}
}

func keysOf(fs []Fail) string {
	var k []string
	for _, f := range fs {
		k = append(k, f.Key)
	}
	sort.Strings(k)
	return strings.Join(k, "|")
}

// binary starts the names of the jobs of this program.
const binary = "binary: "

// again runs the job of a reported violation and looks for the same one.
func again(file string) int {
	b, err := os.ReadFile(file)
	must(err)
	var v Violation
	must(json.Unmarshal(b, &v))
	for _, tier = range []string{"quick", "thorough"} {
		for _, j := range checks[v.Check] {
			if binary+j.name != v.Job {
				continue
			}
			c := &Ctx{check: v.Check, deadline: time.Now().Add(10 * time.Minute)}
			j.run(c)
			for _, r := range c.reps {
				for _, w := range r.Violations {
					fmt.Printf("[%s] %s\n", w.Key, w.Msg)
					for _, h := range w.History {
						fmt.Println("  ", h)
					}
					if w.Key == v.Key {
						fmt.Println("reproduced:", v.Key)
						return 1
					}
				}
			}
		}
	}
	fmt.Println("not reproduced")
	return 0
}

var checks = map[string][]struct {
	name string
	run  func(c *Ctx)
}{}

func register(id, name string, f func(c *Ctx)) {
	checks[id] = append(checks[id], struct {
		name string
		run  func(c *Ctx)
	}{name, f})
}

func pick(q, t int) int {
	if tier == "thorough" {
		return t
	}
	return q
}

func main() {
	check := flag.String("check", "", "")
	only := flag.String("job", "", "")
	budget := flag.Float64("budget", 100, "")
	out := flag.String("out", "", "")
	flag.StringVar(&bin, "bin", "", "the horcrux binary, under another name")
	flag.StringVar(&tier, "tier", "quick", "")
	flag.StringVar(&fixtures, "fixtures", "/verif/bb/fixtures", "")
	workers := flag.Int("workers", 8, "")
	replay := flag.String("replay", "", "repeat the job of a reported violation")
	flag.Parse()
	setup(*workers)
	defer func() { cleanup() }()
	if *replay != "" {
		code := again(*replay)
		cleanup()
		os.Exit(code)
	}
	c := &Ctx{check: *check}
	js := checks[*check]
	end := time.Now().Add(time.Duration(*budget * float64(time.Second)))
	for i, j := range js {
		if *only != "" && !strings.HasPrefix(binary+j.name, binary+strings.TrimPrefix(*only, binary)) {
			continue
		}
		t0 := time.Now()
		c.deadline = t0.Add(time.Until(end) / time.Duration(len(js)-i))
		n := len(c.reps)
		j.run(c)
		bad := false
		for _, r := range c.reps[n:] {
			r.Wall = time.Since(t0).Seconds()
			bad = bad || len(r.Violations) > 0
		}
		if bad {
			break
		}
	}
	b, err := json.MarshalIndent(c.reps, "", " ")
	must(err)
	if *out != "" {
		must(os.WriteFile(*out, b, 0644))
		return
	}
	for _, r := range c.reps {
		fmt.Printf("%s exec=%d states=%d exhaustive=%v %s %.1fs %v\n", r.Name, r.Executions, r.States, r.Exhaustive, r.Incomplete, r.Wall, r.Outcomes)
		for _, v := range r.Violations {
			fmt.Printf("  [%s] %s\n     %s\n", v.Key, v.Msg, strings.Join(v.History, "\n     "))
		}
	}
}

func cleanup() {
	if strings.Contains(root, "/bb") {
		exec.Command("chmod", "-R", "u+rwx", root).Run()
		os.RemoveAll(root)
	}
}
