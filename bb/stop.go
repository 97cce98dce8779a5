package main

import (
	"fmt"
	"net"
	"os"
	"strings"
	"syscall"
	"time"
)

// stop22 stops a single signer in a situation.
type stop22 struct {
	situation string
	sig       syscall.Signal
	twice     bool
	sentries  int
	settled   bool
}

func (k stop22) String() string {
	return fmt.Sprintf("single signer with %d sentries, %s, signal %v twice %v settled %v", k.sentries, k.situation, k.sig, k.twice, k.settled)
}

func (k stop22) run(s *Slot) (hist []string, oc string, fails []Fail) {
	add := func(key, g string, a ...interface{}) {
		fails = append(fails, Fail{key, fmt.Sprintf("%v: ", k) + fmt.Sprintf(g, a...)})
	}
	hist = []string{k.String()}
	oc = k.situation
	var e []*Sentry
	var nodes []string
	for i := 0; i < k.sentries; i++ {
		e = append(e, newSentry())
		nodes = append(nodes, "tcp://127.0.0.1:"+e[i].port)
		defer e[i].close()
	}
	if k.situation == "nobody listens" {
		e[0].l.Close()
	}
	sp := pvPath(".horcrux", "c1")
	pre := files(singleHome(nodes...), ".horcrux/priv_validator_key.json", fixture("priv_validator_key.json"), sp, St{H: 5, R: 1, S: 2}.text())
	s.put(pre)
	p := s.start(Opt{}, "signer", "start")
	defer p.kill()
	r := Req{"V", 7, 0, 1, 1}
	var sig []byte
	var link *Link
	ask := func() ([]byte, string, bool) {
		var err error
		for try := 0; try < 3; try++ {
			if link == nil {
				if link, err = e[k.sentries-1].link(p, 20*time.Second); err != nil {
					continue
				}
			}
			m, er := link.ask(r.msg("c1"), 20*time.Second)
			if err = er; err != nil {
				link.close()
				link = nil
				continue
			}
			_, g, _, refused, er := r.answer("c1", m)
			if err = er; err == nil {
				return g, refused, true
			}
		}
		add("does not answer", "%v (%s)", err, clip(p.out.String()))
		return nil, "", false
	}
	switch k.situation {
	case "nobody listens":
		for end := time.Now().Add(20 * time.Second); !strings.Contains(p.out.String(), "Dialing") && !p.exited() && time.Now().Before(end); {
			time.Sleep(5 * time.Millisecond)
		}
	case "the sentry is silent":
		var c net.Conn
		select {
		case c = <-e[0].ch:
			defer c.Close()
		case <-time.After(20 * time.Second):
			add("does not answer", "no connection (%s)", clip(p.out.String()))
		}
	case "connected":
		var err error
		if link, err = e[0].link(p, 20*time.Second); err != nil {
			add("does not answer", "%v", err)
		}
	case "has signed", "half a request":
		if g, refused, ok := ask(); ok {
			if sig = g; refused != "" {
				add("does not answer", "refused %s", refused)
			}
			if k.situation == "half a request" {
				link.c.SetDeadline(time.Now().Add(5 * time.Second))
				link.sc.Write([]byte{100, 1, 2})
			}
		}
	}
	if len(fails) > 0 {
		return
	}
	time.Sleep(50 * time.Millisecond)
	if k.settled {
		p.settle()
	}
	if k.twice {
		syscall.Kill(-p.cmd.Process.Pid, k.sig)
	}
	if why := p.stop(k.sig, 15*time.Second); why != "" && !(k.twice && strings.HasPrefix(why, "it had ended")) {
		add("a stop request does not end the node", "%s (%s)", why, clip(p.out.String()))
		return
	}
	if link != nil {
		link.close()
		link = nil
	}
	post := s.get(pre)
	want, was := post[sp], [3]int64{5, 1, 2}
	if sig != nil {
		was = [3]int64{7, 0, 2}
	}
	if now, _, err := stateOf(want); err != nil || now != was {
		add("a stop request loses the recorded state", "%v after %v (%v)", now, was, err)
	}
	if d := pre.without(sp).diff(post.without(sp)); d != "" {
		add("a stop request changes files", "%s", d)
	}
	if k.situation == "nobody listens" || len(fails) > 0 {
		return
	}
	// and on
	p = s.start(Opt{}, "signer", "start")
	defer p.kill()
	g, refused, ok := ask()
	if !ok {
		return
	}
	if refused != "" || sig != nil && string(g) != string(sig) {
		add("does not resume", "%s %x after %x", refused, g, sig)
	}
	r.H = 6
	if _, refused, ok = ask(); ok && refused == "" {
		add("does not resume", "signs %s after 7/0", r)
	}
	if link != nil {
		link.close()
	}
	return
}

func init() {
	register("C22", "stop the single signer", func(c *Ctx) {
		var ks []stop22
		for _, sit := range []string{"nobody listens", "the sentry is silent", "connected", "has signed", "half a request"} {
			for _, sig := range []syscall.Signal{syscall.SIGTERM, os.Interrupt.(syscall.Signal)} {
				for _, tw := range []bool{false, true} {
					for n := 1; n <= pick(2, 3); n++ {
						ks = append(ks, stop22{sit, sig, tw, n, false}, stop22{sit, sig, tw, n, true})
					}
				}
			}
		}
		Cases(c, "stop the single signer", len(ks), func(i int, s *Slot) ([]string, string, []Fail) { return ks[i].run(s) })
	})
	register("C22", "stop cosigners", func(c *Ctx) {
		settleStops = true
		hs := histories1(2, 3, "stop", "interrupt", "stop and start", "stop all and start")
		if tier == "thorough" {
			hs = append(hs, histories2(2, 3, true, "stop", "stop and start", "stop all and start", "start the killed")...)
			hs = append(hs, histories2(3, 5, true, "stop", "interrupt")...)
		}
		runHistories(c, "stop cosigners", hs)
	})
}
