package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/tendermint/tendermint/crypto/ed25519"
	"github.com/tendermint/tendermint/libs/protoio"
	p2pconn "github.com/tendermint/tendermint/p2p/conn"
	pvproto "github.com/tendermint/tendermint/proto/tendermint/privval"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	tm "github.com/tendermint/tendermint/types"
)

var fixtures string

func fixture(name string) string {
	b, err := os.ReadFile(filepath.Join(fixtures, name))
	must(err)
	return string(b)
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

func (l *lockedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

// Proc is a running signer process.
type Proc struct {
	cmd  *exec.Cmd
	out  lockedBuf
	done chan struct{}
	code int

	paused bool
	began  time.Time
}

func (s *Slot) start(o Opt, args ...string) *Proc {
	p := &Proc{done: make(chan struct{}), began: time.Now()}
	for i := range o.Env {
		o.Env[i] = strings.ReplaceAll(o.Env[i], "/SCRATCH", s.dir)
	}
	p.cmd = s.command(context.Background(), o, args)
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.out
	if err := p.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot start:", err)
		os.Exit(2)
	}
	go func() {
		p.cmd.Wait()
		p.code = p.cmd.ProcessState.ExitCode()
		close(p.done)
	}()
	return p
}

func (p *Proc) exited() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

// listens tells whether the process itself listens on the port.
func (p *Proc) listens(port string) bool {
	n, _ := strconv.Atoi(port)
	own := map[string]bool{}
	dir := fmt.Sprintf("/proc/%d/fd", p.cmd.Process.Pid)
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if l, err := os.Readlink(filepath.Join(dir, e.Name())); err == nil {
			own[l] = true
		}
	}
	for _, f := range []string{"/proc/net/tcp", "/proc/net/tcp6"} {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			w := strings.Fields(l)
			if len(w) > 9 && w[3] == "0A" && strings.HasSuffix(w[1], fmt.Sprintf(":%04X", n)) && own["socket:["+w[9]+"]"] {
				return true
			}
		}
	}
	return false
}

func (p *Proc) pause() {
	p.paused = true
	syscall.Kill(-p.cmd.Process.Pid, syscall.SIGSTOP)
}

func (p *Proc) kill() {
	syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
	<-p.done
}

// settling is how old a process is when it surely handles signals.
const settling = 5 * time.Second

// settle waits until the process surely handles signals.
func (p *Proc) settle() {
	select {
	case <-p.done:
	case <-time.After(settling - time.Since(p.began) + 100*time.Millisecond):
	}
}

// stop asks the process to end; it tells what is wrong with how it did.
func (p *Proc) stop(sig syscall.Signal, patience time.Duration) string {
	if p.exited() {
		return fmt.Sprintf("it had ended already, exit %d", p.code)
	}
	settled := time.Since(p.began) >= settling
	syscall.Kill(-p.cmd.Process.Pid, sig)
	select {
	case <-p.done:
	case <-time.After(patience):
		return fmt.Sprintf("still running %v after signal %v", patience, sig)
	}
	// a signal that arrives before its handler is installed ends the process, too
	if ws, ok := p.cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == sig {
		if settled {
			return fmt.Sprintf("it is killed by signal %v instead of stopping", sig)
		}
		return ""
	}
	if p.code != 0 {
		return fmt.Sprintf("exit %d", p.code)
	}
	return ""
}

// Sentry is the chain node's side of the connection.
type Sentry struct {
	l    net.Listener
	port string
	ch   chan net.Conn
}

func newSentry() *Sentry {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	_, port, _ := net.SplitHostPort(l.Addr().String())
	e := &Sentry{l: l, port: port, ch: make(chan net.Conn, 16)}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			e.ch <- c
		}
	}()
	return e
}

func (e *Sentry) close() {
	e.l.Close()
	for {
		select {
		case c := <-e.ch:
			c.Close()
		default:
			return
		}
	}
}

// Link is an established connection.
type Link struct {
	c  net.Conn
	sc *p2pconn.SecretConnection
}

var errGone = errors.New("the process ended")

// link waits for the process to connect.
func (e *Sentry) link(p *Proc, timeout time.Duration) (*Link, error) {
	for {
		select {
		case c := <-e.ch:
			c.SetDeadline(time.Now().Add(timeout))
			sc, err := p2pconn.MakeSecretConnection(c, ed25519.GenPrivKeyFromSecret([]byte("sentry")))
			if err != nil {
				c.Close()
				if p.exited() {
					return nil, errGone
				}
				continue // a connection a dead process left behind
			}
			return &Link{c, sc}, nil
		case <-p.done:
			return nil, errGone
		case <-time.After(timeout):
			return nil, errors.New("no connection")
		}
	}
}

func (k *Link) close() { k.c.Close() }

func (k *Link) ask(m *pvproto.Message, timeout time.Duration) (*pvproto.Message, error) {
	k.c.SetDeadline(time.Now().Add(timeout))
	if _, err := protoio.NewDelimitedWriter(k.sc).WriteMsg(m); err != nil {
		return nil, err
	}
	var r pvproto.Message
	if _, err := protoio.NewDelimitedReader(k.sc, 1<<20).ReadMsg(&r); err != nil {
		return nil, err
	}
	return &r, nil
}

// ---- requests ----

// Req is a position with a payload.
type Req struct {
	T     string // P proposal, V prevote, C precommit
	H     int64
	R     int32
	Block int // 0 is nil
	At    int // timestamp
}

func (r Req) String() string {
	return fmt.Sprintf("%s %d/%d block %d at %d", r.T, r.H, r.R, r.Block, r.At)
}

func (r Req) step() int8 { return map[string]int8{"P": 1, "V": 2, "C": 3}[r.T] }

func bid(n int) tmproto.BlockID {
	if n == 0 {
		return tmproto.BlockID{}
	}
	h := bytes.Repeat([]byte{byte(n)}, 32)
	return tmproto.BlockID{Hash: h, PartSetHeader: tmproto.PartSetHeader{Total: 1, Hash: h}}
}

func at(n int) time.Time { return time.Unix(1700000000+int64(n), int64(n)*7).UTC() }

func (r Req) vote() *tmproto.Vote {
	t := tmproto.PrevoteType
	if r.T == "C" {
		t = tmproto.PrecommitType
	}
	return &tmproto.Vote{Type: t, Height: r.H, Round: r.R, BlockID: bid(r.Block), Timestamp: at(r.At), ValidatorAddress: bytes.Repeat([]byte{9}, 20)}
}

func (r Req) proposal() *tmproto.Proposal {
	return &tmproto.Proposal{Type: tmproto.ProposalType, Height: r.H, Round: r.R, PolRound: -1, BlockID: bid(r.Block), Timestamp: at(r.At)}
}

func (r Req) msg(chain string) *pvproto.Message {
	if r.T == "P" {
		return &pvproto.Message{Sum: &pvproto.Message_SignProposalRequest{SignProposalRequest: &pvproto.SignProposalRequest{Proposal: r.proposal(), ChainId: chain}}}
	}
	return &pvproto.Message{Sum: &pvproto.Message_SignVoteRequest{SignVoteRequest: &pvproto.SignVoteRequest{Vote: r.vote(), ChainId: chain}}}
}

// answer takes a reply apart: the sign bytes and signature it releases, or the
// refusal.
func (r Req) answer(chain string, m *pvproto.Message) (sb, sig []byte, ts time.Time, refused string, err error) {
	if r.T == "P" {
		a := m.GetSignedProposalResponse()
		if a == nil {
			return nil, nil, ts, "", fmt.Errorf("reply %v to a proposal request", m)
		}
		if a.Error != nil {
			refused = a.Error.Description + "."
		}
		return tm.ProposalSignBytes(chain, &a.Proposal), a.Proposal.Signature, a.Proposal.Timestamp, refused, nil
	}
	a := m.GetSignedVoteResponse()
	if a == nil {
		return nil, nil, ts, "", fmt.Errorf("reply %v to a vote request", m)
	}
	if a.Error != nil {
		refused = a.Error.Description + "."
	}
	return tm.VoteSignBytes(chain, &a.Vote), a.Vote.Signature, a.Vote.Timestamp, refused, nil
}

// bytesAt is what is signed for the request with another timestamp.
func (r Req) bytesAt(chain string, ts time.Time) []byte {
	if r.T == "P" {
		p := r.proposal()
		p.Timestamp = ts
		return tm.ProposalSignBytes(chain, p)
	}
	v := r.vote()
	v.Timestamp = ts
	return tm.VoteSignBytes(chain, v)
}

func (r Req) pos() [3]int64 { return [3]int64{r.H, int64(r.R), int64(r.step())} }

func less(a, b [3]int64) bool {
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

var (
	portMu   sync.Mutex
	nextPort = 20000 + os.Getpid()%97*100
)

// freePort hands out ports below the ephemeral range, in turn.
func freePort() string {
	portMu.Lock()
	defer portMu.Unlock()
	for {
		nextPort++
		if nextPort > 32000 {
			nextPort = 20001
		}
		l, err := net.Listen("tcp", fmt.Sprint(":", nextPort))
		if err != nil {
			continue
		}
		l.Close()
		return fmt.Sprint(nextPort)
	}
}

func pubKeyReq(chain string) *pvproto.Message {
	return &pvproto.Message{Sum: &pvproto.Message_PubKeyRequest{PubKeyRequest: &pvproto.PubKeyRequest{ChainId: chain}}}
}
