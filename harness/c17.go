package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
)

// job is one operation with an output whose completeness can be judged
// without the code under test.
type job struct {
	t    *T
	op   string
	k    *KeyPair
	msg  []byte
	enc  []byte // reference ciphertext, for open
	pass []byte
}

func newJob(t *T, op string, n int, pass []byte) *job {
	j := &job{t: t, op: op, pass: pass, msg: content(t.Rng, t.Rng.Intn(8), n)}
	var p []byte
	rounds := uint32(0)
	if pass != nil {
		p, rounds = pass, 1
	}
	j.k = t.RefKey(sub(t.Dir(), "key"), p, rounds)
	if op == "open" {
		pl, err := refSeal(refBoxPub(j.k.PubRec.Key), randBytes(t.Rng, 32), j.msg)
		t.must(err, "refSeal")
		j.enc = encFile("untrusted comment: x", pl, "\n")
	}
	return j
}

// setup creates the inputs in a fresh directory.
func (j *job) setup() string {
	d := j.t.Dir()
	j.t.Write(sub(d, "key.sec"), j.t.Read(j.k.Sec))
	j.t.Write(sub(d, "key.pub"), j.t.Read(j.k.Pub))
	if j.op == "open" {
		j.t.Write(sub(d, "in"), j.enc)
	} else if j.op != "gen" {
		j.t.Write(sub(d, "in"), j.msg)
	}
	return d
}

// args are the library arguments; out is the output path.
func (j *job) args(d, out string) []string {
	switch j.op {
	case "sign":
		return []string{sub(d, "key.sec"), sub(d, "in"), out}
	case "seal":
		return []string{sub(d, "key.pub"), sub(d, "in"), out}
	case "open":
		return []string{sub(d, "key.sec"), sub(d, "in"), out}
	}
	return []string{out}
}

func (j *job) flags(d, out string) []string {
	switch j.op {
	case "sign":
		return []string{"-S", "-s", sub(d, "key.sec"), "-m", sub(d, "in"), "-x", out}
	case "seal":
		return []string{"-E", "-p", sub(d, "key.pub"), "-m", sub(d, "in"), "-c", out}
	case "open":
		return []string{"-D", "-s", sub(d, "key.sec"), "-c", sub(d, "in"), "-m", out}
	}
	return []string{"-G", "-n", "-p", out}
}

func (j *job) lib(d, out string) error {
	if j.pass != nil {
		j.t.Pass(j.pass)
	} else {
		j.t.NoPass()
	}
	a := j.args(d, out)
	switch j.op {
	case "sign":
		return signify.Sign(a[0], a[1], a[2])
	case "seal":
		return crypto.Seal(a[0], a[1], a[2])
	case "open":
		return crypto.Open(a[0], a[1], a[2])
	}
	return signify.GenerateKey(a[0], append([]byte(nil), j.pass...), &signify.GenerateOptions{Rounds: 1})
}

// complete tells whether the output is whole and right.
func (j *job) complete(out string) error {
	if j.op == "gen" {
		for _, e := range []string{".sec", ".pub"} {
			b, err := os.ReadFile(out + e)
			if err == nil {
				_, b, err = strictDataFile(b)
			}
			if err == nil && e == ".sec" {
				_, err = parseSec(b)
			} else if err == nil {
				_, err = parsePub(b)
			}
			if err != nil {
				return fmt.Errorf("%s: %v", e, err)
			}
		}
		return nil
	}
	b, err := os.ReadFile(out)
	if err != nil {
		return err
	}
	switch j.op {
	case "sign":
		_, rec, err := strictDataFile(b)
		if err != nil {
			return err
		}
		if !refVerify(j.k.PubRec.encode(), rec, j.msg) {
			return fmt.Errorf("signature does not verify")
		}
	case "seal":
		_, pl, err := strictEncFile(b)
		if err != nil {
			return err
		}
		m, err := refOpen(refBoxPriv(j.k.Clear[:32]), pl)
		if err != nil {
			return err
		}
		if !bytes.Equal(m, j.msg) {
			return fmt.Errorf("contains another message")
		}
	case "open":
		if !bytes.Equal(b, j.msg) {
			return fmt.Errorf("wrong message: %s", firstDiff(b, j.msg))
		}
	}
	return nil
}

// judge applies the oracle: success implies a complete output.
func (j *job) judge(ok bool, out, what string, detail interface{}) {
	j.t.Obs("outcomes judged", 1)
	if !ok {
		j.t.Obs("failures reported", 1)
		return
	}
	if err := j.complete(out); err != nil {
		j.t.Failf("%s: success is reported, but the output is not complete: %v (%v)", what, err, detail)
	}
	j.t.Obs("successes with complete output", 1)
}

func (j *job) cliOK(r cliResult, what string) bool {
	if r.Exit != 0 || r.Signal != "" {
		if r.OKLine() {
			j.t.Failf("%s: the command prints OK but fails: %v", what, r)
		}
		return false
	}
	return true
}

// trace runs the operation in a process of its own with one injected fault.
func (j *job) trace(cli bool, d, out, log, inject, paths string) cliResult {
	o := cliOpts{Dir: d, Umask: 022, Env: []string{"TMPDIR=" + d, "HOME=" + d, "GOMAXPROCS=1"}}
	if log != "" {
		o.Wrap = tracer(log, fsCalls, inject)
		for _, p := range strings.Fields(paths) {
			o.Wrap = append(o.Wrap, "-P", p)
		}
	}
	if cli {
		if j.pass != nil {
			o.Answers = []string{string(j.pass), string(j.pass)}
		}
		return j.t.CLI(o, j.flags(d, out)...)
	}
	return j.t.Op(o, opSpec{Op: j.op, A: j.args(d, out), Pass: fmt.Sprintf("%x", j.pass), Rounds: 1})
}

func init() {
	ops := []string{"sign", "seal", "open", "gen"}
	outs := func(op, out string) string {
		if op == "gen" {
			return out + ".sec " + out + ".pub"
		}
		return out
	}
	register(&Prop{
		ID:    "C17",
		Level: "fault_enumeration",
		Rule:  "one evaluation = one operation whose output may not grow beyond n bytes, goes to a full device, whose n-th write, close or read call fails with some errno, or whose input cannot be read; the report (error value, exit status, OK line) is compared with what independent code finds in the output; distinct by (operation, fault, n)",
		Min: map[string]int64{"outcomes judged": 1500, "failures reported": 1000, "successes with complete output": 60, "size limits": 900, "full devices": 12,
			"write faults": 40, "close faults": 12, "read faults": 12, "late faults": 14, "unreadable inputs": 60},
		Assumptions: []string{"data accepted by write and close counts as stored (no loss of power)", "strace injects the error instead of performing the call"},
		Cases: func(cfg *Config) []Case {
			var cs []Case
			for _, op := range ops {
				op := op
				for _, n := range []int{0, 1, 100, 1000} {
					n := n
					if op == "gen" && n != 100 {
						continue
					}
					for _, pass := range [][]byte{nil, []byte("pp")} {
						pass := pass
						if pass != nil && (op == "seal" || n != 100) {
							continue
						}
						cs = append(cs, Case{Name: fmt.Sprintf("size-limit/%s/%d/%d", op, n, len(pass)), Fn: func(t *T) {
							j := newJob(t, op, n, pass)
							d := j.setup()
							if err := j.lib(d, sub(d, "out")); err != nil {
								t.Failf("%s fails without any fault: %v", op, err)
							}
							size := int64(0)
							for _, p := range strings.Fields(outs(op, sub(d, "out"))) {
								fi, err := os.Stat(p)
								t.must(err, "stat")
								if fi.Size() > size {
									size = fi.Size()
								}
							}
							for lim := int64(0); lim <= size+1; lim++ {
								d := j.setup()
								var err error
								limitFsize(t, uint64(lim), func() { err = j.lib(d, sub(d, "out")) })
								what := fmt.Sprintf("%s of %d bytes with files limited to %d bytes", op, n, lim)
								j.judge(err == nil, sub(d, "out"), what, err)
								if lim < size && err == nil && op != "seal" {
									t.Failf("%s: success although the output needs %d bytes", what, size)
								}
								if lim >= size && err != nil && op != "seal" {
									t.Failf("%s (output needs %d): fails: %v", what, size, err)
								}
								t.Obs("size limits", 1)
								t.Eval(op, n, len(pass), lim)
								if lim%50 == 0 {
									t.dropDirs()
									j.k = t.RefKey(sub(t.Dir(), "key"), j.k.Pass, j.k.Rec.Rounds)
									if op == "open" {
										pl, err := refSeal(refBoxPub(j.k.PubRec.Key), randBytes(t.Rng, 32), j.msg)
										t.must(err, "refSeal")
										j.enc = encFile("untrusted comment: x", pl, "\n")
									}
								}
							}
							t.Sample("%s of %d bytes at every output limit from 0 to %d", op, n, size+1)
						}})
					}
				}
				// larger outputs, limits spread over chunk and page boundaries
				for i := 0; i < cfg.pick(2, 12); i++ {
					i := i
					if op == "gen" || op == "sign" {
						continue
					}
					cs = append(cs, Case{Name: fmt.Sprintf("size-limit-large/%s/%d", op, i), Fn: func(t *T) {
						n := []int{16385, 40000, 16384, 33000, 65536, 100000}[i%6]
						j := newJob(t, op, n, nil)
						total := n
						if op == "seal" {
							total = n*4/3 + n/54 + 200
						}
						d := j.setup()
						for q := 0; q < 14; q++ {
							lim := []int{0, 42, 43, 44, 115, 116, 4096, 16384, 16385, 16386, 22000, total - 1, total - 100, t.Rng.Intn(total)}[q]
							if lim >= n && op == "open" {
								lim = n - 1
							}
							var err error
							limitFsize(t, uint64(lim), func() { err = j.lib(d, sub(d, "out")) })
							j.judge(err == nil, sub(d, "out"), fmt.Sprintf("%s of %d bytes with files limited to %d bytes", op, n, lim), err)
							t.Obs("size limits", 1)
							t.Eval(op, n, lim, i)
							os.Remove(sub(d, "out"))
						}
					}})
				}
				// faults far behind the beginning
				for i := 0; i < cfg.pick(1, 6) && op != "gen" && op != "sign"; i++ {
					i := i
					cs = append(cs, Case{Name: fmt.Sprintf("late/%s/%d", op, i), Ticks: 800, Fn: func(t *T) {
						n := cfg.pick(5000000, 20000000) + t.Rng.Intn(100000)
						j := newJob(t, op, n, nil)
						total := n
						if op == "seal" {
							total = n*4/3 + n/54 + 200
						}
						d := j.setup()
						lims := []int{total - 1 - t.Rng.Intn(100), total - 17000, total * 3 / 4, total / 2, total / 4, 2000000 + t.Rng.Intn(100000), 1100000 + t.Rng.Intn(10000)}
						for q, lim := range lims {
							if op == "seal" && q == 0 {
								lim -= 400
							}
							what := fmt.Sprintf("%s of %d bytes with files limited to %d bytes", op, n, lim)
							if q%3 == 2 {
								r := t.CLI(cliOpts{Dir: d, Umask: 022, Wrap: []string{"prlimit", fmt.Sprintf("--fsize=%d", lim)}}, j.flags(d, sub(d, "out"))...)
								j.judge(j.cliOK(r, what), sub(d, "out"), what, r)
							} else {
								var err error
								limitFsize(t, uint64(lim), func() { err = j.lib(d, sub(d, "out")) })
								j.judge(err == nil, sub(d, "out"), what, err)
							}
							t.Obs("size limits", 1)
							t.Obs("late faults", 1)
							t.Eval("late", op, n, lim)
							os.Remove(sub(d, "out"))
						}
						// one call in the middle fails, those after it do not
						calls := []string{"read,pread64 in"}
						if op == "open" {
							calls = append(calls, "write,pwrite64,writev out")
						}
						for _, c := range calls {
							call, file, _ := strings.Cut(c, " ")
							for _, when := range []int{60 + t.Rng.Intn(8), 100 + t.Rng.Intn(100), 256, 257, 290 + t.Rng.Intn(12)} {
								out, log := sub(d, "out"), filepath.Join(t.Dir(), "trace")
								o := cliOpts{Dir: d, Umask: 022, Ticks: 200, Env: []string{"TMPDIR=" + d, "HOME=" + d, "GOMAXPROCS=1"}}
								o.Wrap = append(tracer(log, strings.ReplaceAll(call, "writev", "writev,close"), fmt.Sprintf("%s:error=EIO:when=%d", call, when)), "--seccomp-bpf", "-P", sub(d, file))
								r := t.Op(o, opSpec{Op: op, A: j.args(d, out)})
								b, _ := os.ReadFile(log)
								what := fmt.Sprintf("%s of %d bytes with %s number %d failing", op, n, c, when)
								ok := j.cliOK(r, what)
								if contains(b, "INJECTED") {
									if ok {
										t.Failf("%s: success is reported: %v", what, r)
									}
									t.Obs("late faults", 1)
								}
								j.judge(ok, out, what, r)
								t.Eval("late", op, n, c, when)
								os.Remove(out)
							}
						}
					}})
				}
				cs = append(cs, Case{Name: "size-limit/command/" + op, Fn: func(t *T) {
					j := newJob(t, op, 100, nil)
					for _, lim := range []int{0, 1, 42, 43, 44, 50, 99, 100, 101, 120, 150, 170, 178, 180, 181, 200, 250, 300, 340, 349, 350, 400, 4096} {
						d := j.setup()
						r := t.CLI(cliOpts{Dir: d, Umask: 022, Wrap: []string{"prlimit", fmt.Sprintf("--fsize=%d", lim)}}, j.flags(d, sub(d, "out"))...)
						what := fmt.Sprintf("command %s with files limited to %d bytes", op, lim)
						j.judge(j.cliOK(r, what), sub(d, "out"), what, r)
						t.Obs("size limits", 1)
						t.Eval("cli", op, lim)
					}
				}})
				if op != "gen" {
					cs = append(cs, Case{Name: "full/" + op, Fn: func(t *T) {
						for _, n := range []int{1, 100, 16385, 50000} {
							j := newJob(t, op, n, nil)
							d := j.setup()
							t.must(os.Symlink("/dev/full", sub(d, "full")), "symlink")
							for _, out := range []string{"/dev/full", sub(d, "full")} {
								// as a user who can do the device no harm
								for _, f := range []string{"key.sec", "key.pub", "in"} {
									t.must(os.Chmod(sub(d, f), 0644), "chmod")
								}
								o := cliOpts{Dir: d, Umask: 022, Uid: 54321}
								if r := t.Op(o, opSpec{Op: op, A: j.args(d, out)}); r.Exit == 0 {
									t.Failf("%s of %d bytes to a full device succeeds: %v", op, n, r)
								} else if r.Exit != 1 {
									t.Inconclusivef("%s of %d bytes to a full device does not run: %v", op, n, r)
								}
								r := t.CLI(o, j.flags(d, out)...)
								if j.cliOK(r, op+" to a full device") {
									t.Failf("command %s of %d bytes to a full device succeeds: %v", op, n, r)
								}
								t.Obs("full devices", 2)
								t.Obs("outcomes judged", 2)
								t.Obs("failures reported", 2)
								t.Eval("full", op, n, out)
							}
						}
					}})
				}
				for _, cli := range []bool{false, true} {
					cli := cli
					who := map[bool]string{false: "lib", true: "cli"}[cli]
					cs = append(cs, Case{Name: fmt.Sprintf("write/%s/%s", op, who), Ticks: 800, Fn: func(t *T) {
						j := newJob(t, op, 60, nil)
						for _, e := range []string{"EIO", "ENOSPC", "EDQUOT"} {
							for n := 1; ; n++ {
								d := j.setup()
								out, log := sub(d, "out"), filepath.Join(t.Dir(), "trace")
								r := j.trace(cli, d, out, log, fmt.Sprintf("write,pwrite64,writev:error=%s:when=%d", e, n), outs(op, out))
								b, _ := os.ReadFile(log)
								hit := contains(b, "INJECTED")
								what := fmt.Sprintf("%s %s with write number %d to the output failing with %s", who, op, n, e)
								if hit && j.cliOK(r, what) {
									t.Failf("%s: success is reported: %v", what, r)
								}
								j.judge(j.cliOK(r, what), out, what, r)
								t.Eval("write", op, who, e, n)
								t.dropDirs()
								j.k = t.RefKey(sub(t.Dir(), "key"), nil, 0)
								if op == "open" {
									pl, err := refSeal(refBoxPub(j.k.PubRec.Key), randBytes(t.Rng, 32), j.msg)
									t.must(err, "refSeal")
									j.enc = encFile("untrusted comment: x", pl, "\n")
								}
								if !hit {
									break
								}
								t.Obs("write faults", 1)
								if n > 30 {
									n += t.cfg.pick(20, 0)
								}
								if n > 400 {
									break
								}
							}
						}
					}})
					cs = append(cs, Case{Name: fmt.Sprintf("close/%s/%s", op, who), Ticks: 800, Fn: func(t *T) {
						j := newJob(t, op, 60, nil)
						for _, call := range []string{"close", "fsync", "fdatasync", "openat", "rename", "renameat", "renameat2", "linkat", "fchmod", "ftruncate"} {
							for _, e := range []string{"EIO", "ENOSPC", "EDQUOT"} {
								for n := 1; n < 6; n++ {
									d := j.setup()
									out, log := sub(d, "out"), filepath.Join(t.Dir(), "trace")
									if op != "gen" && (e == "EIO" || call == "ftruncate") {
										// a longer output of an earlier run is in the way
										t.Write(out, bytes.Repeat([]byte("old output\n"), 400))
									}
									r := j.trace(cli, d, out, log, fmt.Sprintf("%s:error=%s:when=%d", call, e, n), outs(op, out))
									b, _ := os.ReadFile(log)
									hit := contains(b, "INJECTED")
									what := fmt.Sprintf("%s %s with %s number %d of the output failing with %s", who, op, call, n, e)
									ok := j.cliOK(r, what)
									if hit && ok && call == "close" {
										t.Failf("%s: success is reported: %v", what, r)
									}
									j.judge(ok, out, what, r)
									t.Eval(call, op, who, e, n)
									if !hit {
										break
									}
									t.Obs(call+" faults", 1)
								}
							}
						}
					}})
					if op == "gen" {
						continue
					}
					cs = append(cs, Case{Name: fmt.Sprintf("read/%s/%s", op, who), Ticks: 800, Fn: func(t *T) {
						j := newJob(t, op, 40000, nil)
						for _, call := range []string{"read,pread64", "openat", "fstat", "newfstatat"} {
							for _, in := range []string{"in", "key.sec", "key.pub"} {
								if op == "seal" && in == "key.sec" || op != "seal" && in == "key.pub" {
									continue
								}
								for n := 1; n < 8; n++ {
									d := j.setup()
									out, log := sub(d, "out"), filepath.Join(t.Dir(), "trace")
									r := j.trace(cli, d, out, log, fmt.Sprintf("%s:error=EIO:when=%d", call, n), sub(d, in))
									b, _ := os.ReadFile(log)
									hit := contains(b, "INJECTED")
									what := fmt.Sprintf("%s %s with %s number %d of %s failing with EIO", who, op, call, n, in)
									ok := j.cliOK(r, what)
									j.judge(ok, out, what, r)
									t.Eval("read", call, op, who, in, n)
									if !hit {
										break
									}
									t.Obs("read faults", 1)
								}
							}
						}
					}})
				}
				if op == "gen" {
					continue
				}
				cs = append(cs, Case{Name: "inputs/" + op, Fn: func(t *T) {
					j := newJob(t, op, 5000, nil)
					key := "key.sec"
					if op == "seal" {
						key = "key.pub"
					}
					for _, in := range []string{"in", key} {
						for _, how := range []string{"missing", "directory", "unreadable", "dangling", "loop", "not a directory", "io-error", "long name", "nul", "empty name"} {
							for _, cli := range []bool{false, true} {
								d := j.setup()
								out := sub(d, "out")
								p := sub(d, in)
								a, fl := j.args(d, out), j.flags(d, out)
								subst := func(np string) {
									for _, l := range [][]string{a, fl} {
										for i := range l {
											if l[i] == p {
												l[i] = np
											}
										}
									}
								}
								uid := 0
								switch how {
								case "missing":
									os.Remove(p)
								case "directory":
									os.Remove(p)
									os.Mkdir(p, 0755)
								case "unreadable":
									os.Chmod(p, 0)
									os.Chmod(d, 0777)
									uid = 54321
								case "dangling":
									os.Remove(p)
									os.Symlink("nowhere", p)
								case "loop":
									os.Remove(p)
									os.Symlink(filepath.Base(p), p)
								case "not a directory":
									subst(p + "/x")
								case "io-error": // a regular file whose first read fails
									os.Remove(p)
									os.Symlink("/proc/self/mem", p)
								case "long name":
									subst(sub(d, strings.Repeat("n", 300)))
								case "nul":
									if cli {
										continue
									}
									subst(p + "\x00")
								case "empty name":
									subst("")
									if cli && in != "in" { // then the default key is meant
										continue
									}
								}
								what := fmt.Sprintf("%s with its %s: %s", op, in, how)
								var ok bool
								var detail interface{}
								if cli {
									r := t.CLI(cliOpts{Dir: d, Umask: 022, Uid: uid, Ticks: 60}, fl...)
									ok, detail = j.cliOK(r, what), r
								} else if uid != 0 {
									continue
								} else {
									t.NoPass()
									err := map[string]func(string, string, string) error{"sign": signify.Sign, "seal": crypto.Seal, "open": crypto.Open}[op](a[0], a[1], a[2])
									ok, detail = err == nil, err
								}
								if ok {
									t.Failf("%s: success is reported (%v)", what, detail)
								}
								t.Obs("unreadable inputs", 1)
								t.Obs("outcomes judged", 1)
								t.Obs("failures reported", 1)
								t.Eval("input", op, in, how, cli)
							}
						}
					}
					// outputs that cannot be created
					for _, how := range []string{"no directory", "directory", "read-only directory", "read-only file", "not a directory", "loop", "long name"} {
						for _, cli := range []bool{false, true} {
							d := j.setup()
							out := sub(d, "out")
							uid := 0
							switch how {
							case "no directory":
								out = sub(d, "none/out")
							case "directory":
								os.Mkdir(out, 0755)
							case "read-only directory":
								uid = 54321
							case "read-only file":
								t.Write(out, []byte("old"))
								os.Chmod(out, 0444)
								uid = 54321
							case "not a directory":
								out = sub(d, "in/out")
							case "loop":
								os.Symlink("out", out)
							case "long name":
								out = sub(d, strings.Repeat("n", 300))
							}
							what := fmt.Sprintf("%s with its output: %s", op, how)
							var ok bool
							var detail interface{}
							if cli {
								r := t.CLI(cliOpts{Dir: d, Umask: 022, Uid: uid, Ticks: 60}, j.flags(d, out)...)
								ok, detail = j.cliOK(r, what), r
							} else if uid != 0 {
								continue
							} else {
								err := j.lib(d, out)
								ok, detail = err == nil, err
							}
							if ok {
								t.Failf("%s: success is reported (%v)", what, detail)
							}
							t.Obs("impossible outputs", 1)
							t.Obs("outcomes judged", 1)
							t.Obs("failures reported", 1)
							t.Eval("output", op, how, cli)
						}
					}
				}})
			}
			cs = append(cs, Case{Name: "gen/impossible", Fn: func(t *T) {
				for _, cli := range []bool{false, true} {
					for _, how := range []string{"none/k", "file/k", "", strings.Repeat("n", 254), "ro/k"} {
						d := t.Dir()
						t.Write(sub(d, "file"), []byte("x"))
						t.must(os.Mkdir(sub(d, "ro"), 0755), "mkdir")
						uid := 0
						base := sub(d, how)
						if how == "ro/k" {
							uid = 54321
						}
						if how == "" {
							base = sub(d, "none2") + "/"
						}
						ok := false
						if cli {
							r := t.CLI(cliOpts{Dir: d, Umask: 022, Uid: uid}, "-G", "-n", "-p", base)
							ok = r.Exit == 0
						} else if uid == 0 {
							ok = signify.GenerateKey(base, nil, nil) == nil
						} else {
							continue
						}
						if ok {
							t.Failf("key generation under the impossible name %q succeeds", base)
						}
						t.Obs("impossible outputs", 1)
						t.Eval("gen", how, cli)
					}
				}
			}})
			for i := 0; i < cfg.pick(2, 16); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("shrinking/%d", i), Fn: func(t *T) {
					// the message loses its tail while it is being encrypted
					j := newJob(t, "seal", 400000+t.Rng.Intn(100000), nil)
					d := j.setup()
					out := sub(d, "out")
					var wg sync.WaitGroup
					stop := make(chan bool)
					wg.Add(1)
					go func() {
						defer wg.Done()
						for {
							select {
							case <-stop:
								return
							default:
							}
							if fi, err := os.Stat(out); err == nil && fi.Size() > int64(20000*(i%5)) {
								os.Truncate(sub(d, "in"), int64(1000+200000*(i%2)))
								return
							}
							time.Sleep(100 * time.Microsecond)
						}
					}()
					err := j.lib(d, out)
					close(stop)
					wg.Wait()
					if err == nil {
						t.Obs("shrinking inputs read completely", 1)
					}
					j.judge(err == nil, out, "encryption of a file that is cut short meanwhile", err)
					t.Eval("shrink", i)
				}})
			}
			return cs
		},
	})
}
