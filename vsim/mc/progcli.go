//go:build vsimprog

package main

import (
	"encoding/base64"
	"fmt"
	"sort"
	"strings"
	"syscall"

	"github.com/strangelove-ventures/horcrux/vsim/vos"
	"github.com/strangelove-ventures/horcrux/vsim/vsched"
	"gopkg.in/yaml.v2"
)

// Commands on a failing disk: one operation of the device fails, or the machine
// stops after any operation.

type cliCase struct {
	name  string
	files map[string][]byte
	args  []string
}

const cliCfg, cliPV, cliSh = "/.horcrux/config.yaml", "/.horcrux/state/%s_priv_validator_state.json", "/.horcrux/state/%s_share_sign_state.json"

func cliHome(cos bool) map[string][]byte {
	type m = yaml.MapSlice
	c := m{{Key: "home-dir", Value: "/.horcrux"}, {Key: "chain-id", Value: "c1"}}
	if cos {
		c = append(c, yaml.MapItem{Key: "cosigner", Value: m{{Key: "threshold", Value: 2}, {Key: "shares", Value: 4}, {Key: "p2p-listen", Value: "tcp://p1:2222"},
			{Key: "peers", Value: []m{{{Key: "share-id", Value: 2}, {Key: "p2p-addr", Value: "tcp://p2:2222"}}, {{Key: "share-id", Value: 3}, {Key: "p2p-addr", Value: "tcp://p3:2222"}}}}, {Key: "rpc-timeout", Value: "1500ms"}}})
	}
	c = append(c, yaml.MapItem{Key: "chain-nodes", Value: []m{{{Key: "priv-val-addr", Value: "tcp://a:1234"}}, {{Key: "priv-val-addr", Value: "tcp://b:1234"}}}})
	b, err := yaml.Marshal(c)
	if err != nil {
		panic(err)
	}
	return map[string][]byte{cliCfg: b}
}

func fullState(h, r, step int) string {
	return fmt.Sprintf(`{"height":"%d","round":"%d","step":%d,"ephemeral_public":null,"signature":"%s","signbytes":"0A0B"}`, h, r, step, base64.StdEncoding.EncodeToString(make([]byte, 64)))
}

func withStates(f map[string][]byte, ch, pv, sh string) map[string][]byte {
	g := map[string][]byte{}
	for k, v := range f {
		g[k] = v
	}
	if pv != "" {
		g[fmt.Sprintf(cliPV, ch)] = []byte(pv)
	}
	if sh != "" {
		g[fmt.Sprintf(cliSh, ch)] = []byte(sh)
	}
	return g
}

func cliCases(id string) []cliCase {
	cos := withStates(cliHome(true), "c1", fullState(5, 1, 2), fullState(6, 0, 1))
	single := withStates(cliHome(false), "c1", fullState(5, 1, 2), "")
	fresh := withStates(cliHome(true), "c1", blank, blank)
	initCos := []string{"config", "init", "c2", "tcp://a:1234", "-c", "-p", "tcp://p2:2222|2", "-t", "2", "-l", "tcp://p1:2222"}
	initSingle := []string{"config", "init", "c2", "tcp://a:1234"}
	none := map[string][]byte{}
	var out []cliCase
	add := func(name string, f map[string][]byte, args ...string) { out = append(out, cliCase{name, f, args}) }
	if id == "C15" {
		add("cosigner", cos, "state", "set", "7")
		add("cosigner", cos, "state", "set", "9223372036854775807")
		add("fresh", fresh, "state", "set", "1")
		add("cosigner", cos, "state", "show")
		add("cosigner", cos, "state", "set", "6")
		add("cosigner", cos, "config", "chain-id", "set", "c2")
		add("single", single, "config", "chain-id", "set", "c2")
		add("with states, anew", cos, append(initCos, "-o")...)
		add("with states, anew", single, append(initSingle, "-o")...)
		return out
	}
	for _, a := range [][]string{{"nodes", "add", "tcp://c:1234"}, {"nodes", "remove", "tcp://b:1234"}, {"chain-id", "set", "c2"}} {
		add("cosigner", cos, append([]string{"config"}, a...)...)
		add("single", single, append([]string{"config"}, a...)...)
	}
	for _, a := range [][]string{{"peers", "add", "tcp://p4:2222|4"}, {"peers", "remove", "3"}, {"peers", "set-shares", "5"}} {
		add("cosigner", cos, append([]string{"config"}, a...)...)
	}
	add("nothing", none, initCos...)
	add("nothing", none, initSingle...)
	add("cosigner", cos, append(initCos, "-o")...)
	add("single", single, append(initSingle, "-o")...)
	add("states without configuration", withStates(none, "c2", fullState(5, 1, 2), fullState(6, 0, 1)), initCos...)
	add("states without configuration", withStates(none, "c2", fullState(5, 1, 2), ""), initSingle...)
	return out
}

// exec1 runs a command on a device and gives its exit status, the steps of the device, and the files it leaves.
func (k cliCase) exec1(x *X, img map[string][]byte, fault int, err error, partial bool) (code, steps int, post map[string][]byte, s *progSys) {
	s = newProgSys(x)
	for _, p := range fileNames(img) {
		vos.Put(p, img[p])
	}
	vos.Fault = func(op, path string) error {
		steps++
		if steps-1 == fault {
			x.Note("%s of %s fails with %v", op, path, err)
			return err
		}
		return nil
	}
	if partial {
		f := fault
		n := 0
		vos.Fault = nil
		vos.Partial = func(path string, l int) int {
			n++
			if n-1 == f {
				x.Note("half a write to %s", path)
				return l / 2
			}
			return l
		}
	}
	p := s.run(k.args...)
	code = p.code
	vos.Fault, vos.Partial = nil, nil
	return code, steps, clean(vos.Snapshot()), s
}

func fileNames(m map[string][]byte) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

// clean leaves out what an interrupted atomic write leaves behind.
func clean(m map[string][]byte) map[string][]byte {
	out := map[string][]byte{}
	for k, v := range m {
		if !strings.Contains(k, "write-file-atomic-") {
			out[k] = v
		}
	}
	return out
}

func diffFiles(a, b map[string][]byte) string {
	var out []string
	for _, k := range fileNames(a) {
		if v, ok := b[k]; !ok {
			out = append(out, k+" is gone")
		} else if string(v) != string(a[k]) {
			out = append(out, fmt.Sprintf("%s has %q instead of %q", k, clip(string(v), 120), clip(string(a[k]), 120)))
		}
	}
	for _, k := range fileNames(b) {
		if _, ok := a[k]; !ok {
			out = append(out, k+" is new")
		}
	}
	return strings.Join(out, ", ")
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// marks are the sign states among files.
func marks(m map[string][]byte) map[string][]byte {
	out := map[string][]byte{}
	for k, v := range m {
		if strings.HasSuffix(k, "_state.json") {
			out[k] = v
		}
	}
	return out
}

// oldOrNew judges every file by itself.
func oldOrNew(pre, post, got map[string][]byte) string {
	all := map[string][]byte{}
	for _, m := range []map[string][]byte{pre, post, got} {
		for k := range m {
			all[k] = nil
		}
	}
	for _, k := range fileNames(all) {
		g, ok := got[k]
		a, oka := pre[k]
		b, okb := post[k]
		if (ok == oka && string(g) == string(a)) || (ok == okb && string(g) == string(b)) {
			continue
		}
		if !ok {
			return k + " is gone"
		}
		return fmt.Sprintf("%s holds %q", k, clip(string(g), 160))
	}
	return ""
}

func cliJob(id string) Job {
	cases := cliCases(id)
	only := clean // C15 is about the sign states
	if id == "C15" {
		only = func(m map[string][]byte) map[string][]byte { return marks(clean(m)) }
	}
	return Job{Name: "program: commands on a failing disk", Weight: 1, Run: func(c *Ctx) {
		const per = 400
		EnumSim(c, len(cases)*per, vsched.Config{MaxSteps: 600000}, func(i int, x *X) {
			k := cases[i/per]
			mode := i % per
			// without faults
			code0, steps, post, _ := k.exec1(x, k.files, -1, nil, false)
			post = only(post)
			log := append([]vos.Op{}, vos.Log...)
			name := strings.Join(k.args, " ")
			x.Note("%s: horcrux %s", k.name, name)
			set := k.args[0] == "state" && k.args[1] == "set"
			first, last := 2*len(k.files), len(log)
			switch {
			case mode < 120: // one operation fails
				errs := []error{syscall.EIO, syscall.ENOSPC, syscall.EACCES}
				if mode/3 >= steps {
					return
				}
				code, _, got, _ := k.exec1(x, k.files, mode/3, errs[mode%3], false)
				x.Out("%s %d fault -> %d", k.args[0], code0, code)
				k.judge(x, name, set, code, code0, only(k.files), post, only(got))
			case mode < 150: // half a write
				code, _, got, _ := k.exec1(x, k.files, mode-120, nil, true)
				x.Out("%s %d partial -> %d", k.args[0], code0, code)
				k.judge(x, name, set, code, code0, only(k.files), post, only(got))
			default: // the machine stops
				at := first + mode - 150
				if at > last {
					return
				}
				vos.Log = log
				for _, img := range vos.Images(at) {
					got := only(img)
					d := oldOrNew(only(k.files), post, got)
					if at == last && code0 == 0 {
						d = diffFiles(post, got)
					} else if at == last {
						d = diffFiles(only(k.files), got)
					}
					x.Out("%s crash %v", k.args[0], at == last)
					if d != "" && at == last {
						x.Failf("lost after the command has ended: "+kind(k.args), "%s (%s) ends with %d, then the machine stops: %s", name, k.name, code0, d)
					} else if d != "" {
						x.Failf("damaged by a crash: "+kind(k.args), "the machine stops after operation %d of %s (%s): %s", at-first, name, k.name, d)
					} else if d := lostMarks(only(k.files), got); d != "" {
						x.Failf("watermark lost by a crash: "+kind(k.args), "the machine stops after operation %d of %s (%s): %s", at-first, name, k.name, d)
					}
				}
			}
		}, func(i int, x *X, r *vsched.Result) {
			// a state that cannot be written ends the process with a panic
			for _, p := range r.Panics {
				if p.Node != "cli" {
					x.Failf("crash", "task %s on %s crashed: %s at %s", p.Task, p.Node, p.Value, p.Stack)
				}
			}
		})
	}}
}

func kind(args []string) string {
	if args[0] == "state" || args[1] == "init" {
		return args[0] + " " + args[1]
	}
	return args[1] + " " + args[2]
}

func (k cliCase) judge(x *X, name string, set bool, code, code0 int, pre, post, got map[string][]byte) {
	d := ""
	switch {
	case code == 0:
		if d = diffFiles(post, got); d != "" {
			x.Failf("success without effect: "+kind(k.args), "%s (%s) reports success: %s", name, k.name, d)
		}
		return
	case set:
		// two files: each as before or as wanted
		d = oldOrNew(pre, post, got)
	default:
		d = diffFiles(pre, got)
	}
	if d != "" {
		x.Failf("failure with effect: "+kind(k.args), "%s (%s) ends with %d: %s", name, k.name, code, d)
	}
}

// lostMarks: each watermark is still there, under the old or another name.
func lostMarks(pre, got map[string][]byte) string {
	for _, suf := range []string{"_priv_validator_state.json", "_share_sign_state.json"} {
		for _, p := range fileNames(pre) {
			if !strings.HasSuffix(p, suf) {
				continue
			}
			d, err := parseDisk(pre[p])
			if err != nil {
				continue
			}
			ok := false
			for _, q := range fileNames(got) {
				if strings.HasSuffix(q, suf) {
					if e, err := parseDisk(got[q]); err == nil && !e.HRS().Less(d.HRS()) {
						ok = true
					}
				}
			}
			if !ok {
				return "no file holds the position of " + p + " or a higher one"
			}
		}
	}
	return ""
}
