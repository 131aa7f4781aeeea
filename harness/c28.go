package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"time"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
)

// stopped is an operation that is interrupted again and again in the same
// directory.
type stopped struct {
	*job
	d, out string
	old    []byte // what the output held before, or nil
	cli    bool
	name   string // of the output
	inputs snapshot
	runs   int
}

func newStopped(t *T, op string, size int, pass []byte, cli bool) *stopped {
	s := &stopped{job: newJob(t, op, size, pass), cli: cli, name: []string{"out", "in.sig", "in.enc", "o.x"}[t.Rng.Intn(4)]}
	s.d = s.setup()
	s.out = sub(s.d, s.name)
	s.inputs = t.snap(s.d)
	return s
}

// oldOutput is an output of the same kind with another content, mostly longer.
func (s *stopped) oldOutput() []byte {
	t := s.t
	other := content(t.Rng, 3+t.Rng.Intn(3), t.Rng.Intn(3*len(s.msg)+200))
	switch {
	case s.op == "sign" && t.Rng.Intn(2) == 0:
		return dataFile("verify with a key of a rather long name.pub", refSign(s.k, s.k.Clear, other))
	case s.op == "seal" && t.Rng.Intn(2) == 0:
		pl, err := refSeal(refBoxPub(s.k.PubRec.Key), randBytes(t.Rng, 32), other)
		t.must(err, "refSeal")
		return encFile("untrusted comment: old", pl, "\n")
	}
	return append(append([]byte("old output\n"), other...), "\nend of the old output\n"...)
}

func (s *stopped) reset(fresh bool) {
	os.Remove(s.out)
	s.old = nil
	if !fresh {
		s.old = s.oldOutput()
		s.t.Write(s.out, s.old)
	}
}

// judgeStopped looks at what an interrupted run has left behind.
func (s *stopped) judgeStopped(r cliResult, what string) {
	t := s.t
	s.runs++
	if r.Exit == 0 && r.Signal == "" {
		s.judge(true, s.out, what, r)
		t.Obs("runs that got through", 1)
	} else {
		t.Obs("interrupted runs", 1)
	}
	after := t.snap(s.d)
	if d := s.inputs.harmed(after); d != "" {
		t.Failf("%s: inputs were changed:\n%s", what, d)
	}
	b, err := os.ReadFile(s.out)
	if os.IsNotExist(err) {
		t.Obs("no output left", 1)
		return
	}
	t.must(err, "read output")
	t.Attach("output left behind", b)
	switch {
	case s.old != nil && bytes.Equal(b, s.old):
		t.Obs("older outputs left", 1)
		return
	case len(b) == 0:
		t.Obs("empty outputs left", 1)
		return
	case len(s.old) > 40 && s.op != "open" && bytes.HasSuffix(b, s.old[len(s.old)-20:]):
		t.Failf("%s: the output is a mixture of new and old content: %d bytes ending as the old one did", what, len(b))
	case s.complete(s.out) == nil:
		t.Obs("complete outputs left", 1)
		return
	}
	t.Obs("partial outputs left", 1)
	switch s.op {
	case "sign":
		if err := signify.Verify(s.k.Pub, sub(s.d, "in"), s.out); err == nil {
			t.Failf("%s: an incomplete signature is accepted: %q", what, b)
		}
	case "seal":
		o := filepath.Join(t.Dir(), "opened")
		t.Use(s.k)
		err := crypto.Open(s.k.Sec, s.out, o)
		m, rerr := os.ReadFile(o)
		if rerr == nil && !isPrefix(m, s.msg) {
			t.Failf("%s: what was written decrypts to something that is no part of the message (%s)", what, firstDiff(m, s.msg))
		}
		if err == nil && !bytes.Equal(m, s.msg) {
			t.Failf("%s: what was written decrypts to %d of %d bytes", what, len(m), len(s.msg))
		}
	case "open":
		if !isPrefix(b, s.msg) {
			t.Failf("%s: the output is not a beginning of the message (%s)", what, firstDiff(b, s.msg))
		}
	}
}

// again repeats the operation undisturbed.
func (s *stopped) again(what string) {
	t := s.t
	j := s.job
	ok := ""
	if s.pass != nil || t.Rng.Intn(2) == 0 {
		if err := j.lib(s.d, s.out); err != nil {
			ok = err.Error()
		}
	} else if r := t.CLI(cliOpts{Dir: s.d, Umask: 022, Env: s.env()}, j.flags(s.d, s.out)...); !j.cliOK(r, what) {
		ok = fmt.Sprint(r)
	}
	if ok != "" {
		t.Failf("%s: after %d interrupted runs %s fails: %s", what, s.runs, s.op, ok)
	}
	if err := s.complete(s.out); err != nil {
		t.Failf("%s: after %d interrupted runs the output of %s is wrong: %v", what, s.runs, s.op, err)
	}
	if d := s.inputs.harmed(t.snap(s.d)); d != "" {
		t.Failf("%s: repeating %s changes inputs:\n%s", what, s.op, d)
	}
	t.Obs("repetitions", 1)
}

func (s *stopped) env() []string {
	return []string{"TMPDIR=" + s.d, "HOME=" + s.d, "GOMAXPROCS=1"}
}

// others performs the other operations with the same keys and message.
func (s *stopped) others(what string) {
	t := s.t
	d := s.d
	m := sub(d, "in")
	if s.op == "open" {
		m = t.Write(sub(d, "in plain"), s.msg)
	}
	use := func() {
		if s.pass != nil {
			t.Pass(s.pass)
		} else {
			t.NoPass()
		}
	}
	step := func(n string, err error) {
		if err != nil {
			t.Failf("%s: after %d interrupted runs of %s %s fails: %v", what, s.runs, s.op, n, err)
		}
	}
	sec, pub := sub(d, "key.sec"), sub(d, "key.pub")
	use()
	step("signing", signify.Sign(sec, m, sub(d, "other.sig")))
	step("verifying", signify.Verify(pub, m, sub(d, "other.sig")))
	step("encrypting", crypto.Seal(pub, m, sub(d, "other.enc")))
	use()
	step("decrypting", crypto.Open(sec, sub(d, "other.enc"), sub(d, "other.dec")))
	if b := t.Read(sub(d, "other.dec")); !bytes.Equal(b, s.msg) {
		t.Failf("%s: after %d interrupted runs of %s another operation gives a wrong message (%s)", what, s.runs, s.op, firstDiff(b, s.msg))
	}
	step("generating", signify.GenerateKey(sub(d, "other"), nil, nil))
	for _, f := range []string{"other.sig", "other.enc", "other.dec", "other.sec", "other.pub", "in plain"} {
		os.Remove(sub(d, f))
	}
	t.Obs("other operations afterwards", 5)
}

// injured runs the operation under strace with one fault.
func (s *stopped) injured(inject, log string, narrow bool) cliResult {
	o := cliOpts{Dir: s.d, Umask: 022, Env: s.env(), Wrap: tracer(log, fsCalls, inject)}
	if narrow {
		o.Wrap = append(o.Wrap, "-P", s.out)
	}
	if s.cli {
		return s.t.CLI(o, s.flags(s.d, s.out)...)
	}
	return s.t.Op(o, opSpec{Op: s.op, A: s.args(s.d, s.out), Pass: fmt.Sprintf("%x", s.pass), Rounds: 1})
}

func init() {
	register(&Prop{
		ID: "C28",
		Rule: "one evaluation = one operation ended early (killed or signalled at a system call or at a moment, or failed by an injected error), after which inputs and output are judged, or one repetition of it; " +
			"distinct by (operation, fault, place)",
		Min:         map[string]int64{"interrupted runs": 120, "repetitions": 80, "other operations afterwards": 40, "generations repeated": 6, "stopped at a moment": 30},
		Assumptions: []string{"a crash is the death of the process: what the system has accepted survives", "one fault per run"},
		Cases: func(cfg *Config) []Case {
			var cs []Case
			for _, op := range []string{"sign", "seal", "open"} {
				op := op
				for v := 0; v < 4; v++ {
					v := v
					// killed at every system call
					cs = append(cs, Case{Name: fmt.Sprintf("kill/%s/%d", op, v), Ticks: 800, Fn: func(t *T) {
						s := newStopped(t, op, []int{60, 1, 200, 0}[v], nil, true)
						log := filepath.Join(t.Dir(), "trace")
						s.reset(true)
						s.judgeStopped(s.injured(noFault, log, false), op+" by command, traced")
						for n, inject := range t.killPlan(log, cfg.pick(40, 600)) {
							if n%6 == 0 || t.Rng.Intn(4) == 0 || op == "sign" {
								s.reset(v%2 == 0)
							}
							what := fmt.Sprintf("%s by command with %s", op, inject)
							s.old, _ = os.ReadFile(s.out)
							s.judgeStopped(s.injured(inject, log, false), what)
							if n%5 == 0 {
								s.again(what)
								s.reset(v%2 == 0)
							}
							if n%25 == 0 {
								s.others(what)
							}
							t.Eval("kill", op, v, inject)
						}
						s.again("in the end")
						s.others("in the end")
					}})
				}
				// other signals and errors at one kind of call
				for _, lib := range []bool{false, true} {
					lib := lib
					cs = append(cs, Case{Name: fmt.Sprintf("faults/%s/lib=%v", op, lib), Ticks: 800, Fn: func(t *T) {
						var pass []byte
						if lib && op != "seal" {
							pass = []byte("a passphrase")
						}
						s := newStopped(t, op, 2*refChunk+99, pass, !lib)
						log := filepath.Join(t.Dir(), "trace")
						for i := 0; i < cfg.pick(45, 400); i++ {
							if i%3 == 0 {
								s.reset(i%2 == 0)
							}
							s.old, _ = os.ReadFile(s.out)
							call := []string{"write", "write", "write", "openat", "close", "read", "fstat,newfstatat,fsync,rename,renameat,renameat2,ftruncate,unlinkat,linkat"}[t.Rng.Intn(7)]
							fault := []string{"signal=SIGKILL", "signal=SIGTERM", "signal=SIGINT", "signal=SIGHUP", "signal=SIGQUIT", "error=EIO", "error=ENOSPC", "error=EDQUOT", "signal=SIGXFSZ"}[t.Rng.Intn(9)]
							n := 1 + t.Rng.Intn(4)
							if call == "write" || call == "read" {
								n = 1 + t.Rng.Intn(1<<uint(t.Rng.Intn(14)))
							}
							what := fmt.Sprintf("%s (library %v) with %s at %s number %d", op, lib, fault, call, n)
							r := s.injured(fmt.Sprintf("%s:%s:when=%d", call, fault, n), log, true)
							s.judgeStopped(r, what)
							if i%4 == 3 {
								s.again(what)
							}
							if i%15 == 14 {
								s.others(what)
							}
							t.Eval("fault", op, lib, call, fault, n, i)
						}
						s.again("in the end")
						s.others("in the end")
					}})
				}
				// stopped in the midst of it, at any moment
				cs = append(cs, Case{Name: "moments/" + op, Ticks: 800, Fn: func(t *T) {
					s := newStopped(t, op, 60*refChunk+7, nil, true)
					s.reset(true)
					start := time.Now()
					s.again("first")
					whole := time.Since(start)
					for i := 0; i < cfg.pick(16, 150); i++ {
						if i%3 == 0 {
							s.reset(i%2 == 0)
						}
						s.old, _ = os.ReadFile(s.out)
						at := time.Duration(t.Rng.Int63n(int64(whole) + 1))
						sig := []string{"KILL", "TERM", "INT"}[i%3]
						o := cliOpts{Dir: s.d, Umask: 022, Env: s.env(), Wrap: []string{"timeout", "-s", sig, "-k", "5", fmt.Sprintf("%.6f", at.Seconds()+0.0005)}}
						what := fmt.Sprintf("%s stopped by SIG%s after %v", op, sig, at)
						s.judgeStopped(t.CLI(o, s.flags(s.d, s.out)...), what)
						t.Obs("stopped at a moment", 1)
						if i%4 == 3 {
							s.again(what)
						}
						t.Eval("moment", op, i)
					}
					s.again("in the end")
					s.others("in the end")
				}})
			}
			// generations: what is left of one is no obstacle to others
			cs = append(cs, Case{Name: "generation", Ticks: 800, Fn: func(t *T) {
				s := newStopped(t, "seal", 50, nil, true)
				s.reset(true)
				log := filepath.Join(t.Dir(), "trace")
				o := cliOpts{Dir: s.d, Umask: 022, Env: s.env(), Wrap: tracer(log, fsCalls, noFault)}
				if r := t.CLI(o, "-G", "-n", "-p", "new"); r.Exit != 0 {
					t.Failf("key generation, traced: %v", r)
				}
				os.Remove(sub(s.d, "new.sec"))
				os.Remove(sub(s.d, "new.pub"))
				for n, inject := range t.killPlan(log, cfg.pick(60, 600)) {
					o.Wrap = tracer(log, fsCalls, inject)
					r := t.CLI(o, "-G", "-n", "-p", "new")
					s.runs++
					if r.Signal == "killed" || r.Exit == 137 {
						t.Obs("interrupted runs", 1)
					}
					what := "key generation with " + inject
					if d := s.inputs.harmed(t.snap(s.d)); d != "" {
						t.Failf("%s: other files were changed:\n%s", what, d)
					}
					for _, name := range []string{"another", "new"} {
						os.Remove(sub(s.d, name+".sec"))
						os.Remove(sub(s.d, name+".pub"))
						if n%2 == 0 {
							if r := t.CLI(cliOpts{Dir: s.d, Umask: 022, Env: s.env()}, "-G", "-n", "-p", name); r.Exit != 0 {
								t.Failf("%s: generating %s afterwards fails: %v", what, name, r)
							}
						} else if err := signify.GenerateKey(sub(s.d, name), nil, nil); err != nil {
							t.Failf("%s: generating %s afterwards fails: %v", what, name, err)
						}
						if pub, sec := t.pairState(sub(s.d, name), nil, what); !pub || !sec {
							t.Failf("%s: generating %s afterwards gives no key pair", what, name)
						}
						os.Remove(sub(s.d, name+".sec"))
						os.Remove(sub(s.d, name+".pub"))
						t.Obs("generations repeated", 1)
					}
					if n%8 == 0 {
						s.again(what)
						s.others(what)
					}
					t.Eval("generation", n)
				}
			}})
			return cs
		},
	})
}
