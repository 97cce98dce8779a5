package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

// The other jobs run the binary under another name, so that they do not see
// each other: whether a signer runs is told by its name.

var namedOnce sync.Once

// namedBin is a copy of the binary called horcrux.
func namedBin() string {
	p := filepath.Join(root, "named", "horcrux")
	namedOnce.Do(func() {
		must(os.MkdirAll(filepath.Dir(p), 0755))
		os.Chmod(filepath.Dir(p), 0755)
		in, err := os.Open(bin)
		must(err)
		defer in.Close()
		out, err := os.OpenFile(p, os.O_CREATE|os.O_WRONLY, 0755)
		must(err)
		_, err = io.Copy(out, in)
		must(err)
		must(out.Close())
	})
	return p
}

// namedRunning lists the processes called horcrux.
func namedRunning() (pids []string) {
	fs, _ := filepath.Glob("/proc/[0-9]*/comm")
	for _, f := range fs {
		if b, err := os.ReadFile(f); err == nil && strings.Contains(string(b), "horcrux") {
			pids = append(pids, filepath.Base(filepath.Dir(f)))
		}
	}
	return
}

var namedMu sync.Mutex

func init() {
	register("C15", "while a signer runs", func(c *Ctx) {
		sp, sh := pvPath(".horcrux", "c1"), shPath(".horcrux", "c1")
		type cs struct {
			situation string
			h         string
		}
		var ks []cs
		for _, s := range []string{"nothing runs", "a signer runs", "a cosigner runs", "a signer ran", "a cosigner ran"} {
			for _, h := range []string{"4", "5", "6", "9223372036854775807", "x"} {
				ks = append(ks, cs{s, h})
			}
		}
		m := model{".horcrux"}
		Cases(c, "while a signer runs", len(ks), func(i int, s *Slot) (hist []string, oc string, fails []Fail) {
			namedMu.Lock()
			defer namedMu.Unlock()
			k := ks[i]
			oc = k.situation
			for end := time.Now().Add(20 * time.Second); len(namedRunning()) > 0; time.Sleep(20 * time.Millisecond) {
				if time.Now().After(end) {
					// a process of somebody else: whatever the command does is no evidence
					return []string{"another horcrux runs here"}, "another horcrux runs here", nil
				}
			}
			e := newSentry()
			defer e.close()
			addr := "tcp://127.0.0.1:" + e.port
			full := St{H: 5, R: 1, S: 2}.text()
			f := files(singleHome(addr), ".horcrux/priv_validator_key.json", fixture("priv_validator_key.json"), sp, full, sh, full)
			mode := "signer"
			if strings.Contains(k.situation, "cosigner") {
				mode = "cosigner"
				cfg := cosHome(2, []Peer{{2, "tcp://127.0.0.1:9"}, {3, "tcp://127.0.0.1:10"}}, 3, addr)
				cfg.Cos.Listen = "tcp://127.0.0.1:" + freePort()
				f = files(cfg, ".horcrux/share.json", fixture("share_3_1.json"), sp, full, sh, full)
			}
			s.put(f)
			if k.situation != "nothing runs" {
				p := s.start(Opt{Named: true}, mode, "start")
				defer p.kill()
				l, err := e.link(p, 20*time.Second)
				if err != nil {
					fails = append(fails, Fail{"does not start", fmt.Sprintf("%v: %v (%s)", k, err, clip(p.out.String()))})
					return
				}
				defer l.close()
				if strings.HasSuffix(k.situation, "ran") {
					if why := p.stop(syscall.SIGTERM, 15*time.Second); why != "" {
						fails = append(fails, Fail{"does not stop", fmt.Sprintf("%v: %s", k, why)})
						return
					}
				}
			}
			o := op("set", "state", "set", k.h)
			o.Opt.Named = true
			post, out := s.runHere(f, o.Opt, o.Args)
			hist = []string{fmt.Sprintf("%s: %q -> exit %d %s", k.situation, o.Args, out.Code, clip(out.Text))}
			if strings.HasSuffix(k.situation, "runs") && k.situation != "nothing runs" {
				if out.Code == 0 {
					fails = append(fails, Fail{"the state is set while a signer runs", hist[0]})
				}
				if d := f.diff(post); d != "" {
					fails = append(fails, Fail{"a refused command changes files", hist[0] + " " + d})
				}
				return
			}
			return hist, oc, m.check(Trans{f, post, o, out})
		})
	})
}
