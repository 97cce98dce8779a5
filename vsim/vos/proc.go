package vos

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strconv"

	"github.com/strangelove-ventures/horcrux/vsim/vsched"
)

// OnExit, if set, is told that the process of a node ends by itself.
var OnExit func(node string, code int)

// Exit ends the process of the current node.
func Exit(code int) {
	if OnExit == nil {
		panic("vos: process exit with code " + strconv.Itoa(code))
	}
	n := vsched.Node()
	OnExit(n, code)
	vsched.Crash(n)
}

// Fatal mirrors log.Fatal.
func Fatal(v ...interface{}) { vsched.Log("%s", fmt.Sprint(v...)); Exit(1) }

// Fatalf mirrors log.Fatalf.
func Fatalf(f string, v ...interface{}) { vsched.Log(f, v...); Exit(1) }

// Fatalln mirrors log.Fatalln.
func Fatalln(v ...interface{}) { Fatal(v...) }

type handler struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

var handlers map[string][]handler

// Notify mirrors os/signal.
func Notify(c chan<- os.Signal, sigs ...os.Signal) {
	n := vsched.Node()
	handlers[n] = append(handlers[n], handler{c, sigs})
}

// StopNotify mirrors signal.Stop.
func StopNotify(c chan<- os.Signal) {
	n := vsched.Node()
	for i, h := range handlers[n] {
		if h.c == c {
			handlers[n] = append(handlers[n][:i:i], handlers[n][i+1:]...)
			return
		}
	}
}

// IgnoreSignal mirrors signal.Ignore.
func IgnoreSignal(sigs ...os.Signal) { Notify(make(chan os.Signal, 100), sigs...) }

// NotifyContext mirrors signal.NotifyContext.
func NotifyContext(ctx context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(ctx)
	c := make(chan os.Signal, 1)
	Notify(c, sigs...)
	vsched.Go(func() { vsched.Recv(c); cancel() })
	return ctx, cancel
}

// TrapSignal mirrors the function of tendermint/libs/os.
func TrapSignal(logger interface {
	Info(msg string, keyvals ...interface{})
}, cb func()) {
	c := make(chan os.Signal, 1)
	Notify(c, os.Interrupt, os.Kill)
	vsched.Go(func() {
		vsched.Recv(c)
		if cb != nil {
			cb()
		}
		Exit(0)
	})
}

// Raise sends a signal to the process of a node: handlers run, without any the process ends.
func Raise(node string, sig os.Signal) {
	hs := handlers[node]
	if len(hs) == 0 {
		if OnExit != nil {
			OnExit(node, 143)
		}
		vsched.Crash(node)
		return
	}
	for _, h := range hs {
		vsched.Select(true, vsched.SendCaseTo(h.c)(sig))
	}
}

// Handled reports whether the process of a node handles signals.
func Handled(node string) bool { return len(handlers[node]) > 0 }

// Ended forgets the handlers of a process.
func Ended(node string) { delete(handlers, node) }

// Cmd mirrors exec.Cmd; nothing runs and there is no output.
type Cmd struct {
	Path   string
	Args   []string
	Env    []string
	Dir    string
	Stdin  io.Reader
	Stdout io.Writer
	Stderr io.Writer
}

// Command mirrors exec.Command.
func Command(name string, args ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, args...)}
}

// CommandContext mirrors exec.CommandContext.
func CommandContext(_ context.Context, name string, args ...string) *Cmd {
	return Command(name, args...)
}

// LookPath mirrors exec.LookPath.
func LookPath(name string) (string, error) { return "/bin/" + name, nil }

func (c *Cmd) Output() ([]byte, error)         { return nil, errors.New("exit status 1") }
func (c *Cmd) CombinedOutput() ([]byte, error) { return nil, errors.New("exit status 1") }
func (c *Cmd) Run() error                      { return errors.New("exit status 1") }
func (c *Cmd) Start() error                    { return nil }
func (c *Cmd) Wait() error                     { return errors.New("exit status 1") }

// FileExists mirrors tendermint/libs/os.
func FileExists(p string) bool { _, err := Stat(p); return !os.IsNotExist(err) }

// EnsureDir mirrors tendermint/libs/os.
func EnsureDir(p string, mode os.FileMode) error { return MkdirAll(p, mode) }

// ExitMsg mirrors Exit of tendermint/libs/os.
func ExitMsg(s string) { vsched.Log("%s", s); Exit(1) }
