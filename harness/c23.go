package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/kisom/psignify/base64"
	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
)

// procState is what a process has in common with the code it calls.
type procState map[string]string

func processState(t *T, dir string) procState {
	s, n, err := picture(dir)
	t.must(err, "picture of the process")
	t.Obs("process states compared", 1)
	t.Obs("descriptors inspected", int64(n))
	return s
}

func picture(dir string) (procState, int, error) {
	s := procState{}
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return nil, 0, err
	}
	for _, e := range es {
		l, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err != nil || strings.HasSuffix(l, "/fd") && strings.HasPrefix(l, "/proc/") { // the directory being read
			continue
		}
		s["descriptor "+e.Name()] = l
	}
	s["current directory"], _ = os.Getwd()
	u := syscall.Umask(022)
	syscall.Umask(u)
	s["file creation mask"] = fmt.Sprintf("%#o", u)
	env := os.Environ()
	sort.Strings(env)
	s["environment"] = strings.Join(env, "\n")
	st, _ := os.ReadFile("/proc/self/status")
	for _, l := range strings.Split(string(st), "\n") {
		for _, k := range []string{"SigIgn:", "SigCgt:", "Uid:", "Gid:", "Groups:", "CapEff:", "NoNewPrivs:", "VmLck:", "CoreDumping:"} {
			if strings.HasPrefix(l, k) {
				s[k] = l
			}
		}
	}
	for _, r := range []int{syscall.RLIMIT_NOFILE, syscall.RLIMIT_FSIZE, syscall.RLIMIT_CORE, syscall.RLIMIT_AS, syscall.RLIMIT_DATA, syscall.RLIMIT_STACK, syscall.RLIMIT_CPU} {
		var l syscall.Rlimit
		syscall.Getrlimit(r, &l)
		s[fmt.Sprint("resource limit ", r)] = fmt.Sprint(l)
	}
	if b, err := os.ReadFile("/proc/self/task/" + fmt.Sprint(os.Getpid()) + "/children"); err == nil {
		s["children"] = string(b)
	}
	if b, err := os.ReadFile("/proc/locks"); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if strings.Contains(l, fmt.Sprintf(" %d ", os.Getpid())) {
				s["file locks"] += l + "\n"
			}
		}
	}
	maps, _ := os.ReadFile("/proc/self/maps")
	for _, l := range strings.Split(string(maps), "\n") {
		if strings.Contains(l, dir) {
			s["mapped files"] += l + "\n"
		}
	}
	s["processors"] = fmt.Sprint(runtime.GOMAXPROCS(0))
	g := debug.SetGCPercent(-1)
	debug.SetGCPercent(g)
	s["garbage collection"] = fmt.Sprint(g)
	s["standard streams"] = fmt.Sprintf("%p %p %p", os.Stdin, os.Stdout, os.Stderr)
	return s, len(es), nil
}

// promptStateOp prompts on the real terminal, within operations and without,
// and reports how the process has changed.
func promptStateOp(report, script, dir string) error {
	signify.PassphrasePrompt = shippedPrompt
	var first, second, last procState
	var before int
	var out strings.Builder
	for i, s := range script + "." {
		p, _, err := picture(dir)
		if err != nil {
			return err
		}
		switch i {
		case 0:
			first = p
		case 1:
			second, before = p, runtime.NumGoroutine()
		}
		last = p
		switch s {
		case 'n', 'c':
			_, err = signify.PassphrasePrompt(s == 'c')
		case 's':
			err = signify.Sign(sub(dir, "k.sec"), sub(dir, "m"), sub(dir, "s"))
		case 'd':
			err = crypto.Open(sub(dir, "k.sec"), sub(dir, "c"), sub(dir, "o"))
		}
		if s != '.' {
			fmt.Fprintf(&out, "%c: %v\n", s, err)
		}
	}
	for k, v := range last { // the runtime's poller, once
		if strings.HasPrefix(k, "descriptor ") && strings.HasPrefix(v, "anon_inode:") {
			if _, was := first[k]; !was {
				first[k] = v
			}
		}
	}
	if d := first.diff(last); d != "" {
		fmt.Fprintf(&out, "CHANGED since the start: %s\n", d)
	}
	if d := second.diff(last); d != "" {
		fmt.Fprintf(&out, "CHANGED since the first prompt: %s\n", d)
	}
	if n := goroutines(before); n > before {
		fmt.Fprintf(&out, "CHANGED: %d goroutines after the first prompt, %d at the end: %s\n", before, n, stacks())
	}
	out.WriteString("END\n")
	return os.WriteFile(report, []byte(out.String()), 0600)
}

func (s procState) diff(o procState) string {
	var out []string
	for k, v := range s {
		if o[k] != v {
			out = append(out, fmt.Sprintf("%s: was %q, is %q", k, v, o[k]))
		}
	}
	for k, v := range o {
		if _, was := s[k]; !was {
			out = append(out, fmt.Sprintf("%s: new: %q", k, v))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// goroutines waits for the count to fall to want.
func goroutines(want int) int {
	n := runtime.NumGoroutine()
	for i := 0; i < 400 && n > want; i++ {
		time.Sleep(time.Duration(1+i/20) * time.Millisecond)
		n = runtime.NumGoroutine()
	}
	return n
}

func stacks() string {
	b := make([]byte, 1<<16)
	return string(b[:runtime.Stack(b, true)])
}

// c23op is an operation with its failures.
type c23op struct {
	x    *tree
	op   string
	fail string
	a    []string
}

var c23Ops = []string{"sign", "verify", "seal", "open", "gen", "genpair", "loadpriv", "loadpub", "convert", "encode", "decode"}
var c23Fails = []string{"", "unusable key", "damaged key", "malformed key", "missing key", "key is a directory", "missing message", "message is a directory", "damaged input", "cut input", "foreign input", "no output directory", "output is a directory", "output is an input", "size limit", "wrong passphrase", "no passphrase"}

func newC23(t *T, op, fail string, protected bool) *c23op {
	var pass []byte
	if protected || strings.Contains(fail, "passphrase") {
		pass = []byte("a rather long passphrase, it is")
	}
	x := newTree(t, pass)
	if (op == "seal" || op == "open") && t.Rng.Intn(2) == 0 { // of several chunks
		x.setMessage(content(t.Rng, t.Rng.Intn(8), refChunk+t.Rng.Intn(4*refChunk)))
	}
	c := &c23op{x: x, op: op, fail: fail}
	key := x.k.Sec
	if op == "verify" || op == "seal" || op == "loadpub" {
		key = x.k.Pub
	}
	in := sub(x.d, "msg")
	if op == "open" {
		in = sub(x.d, "enc")
	}
	out := sub(x.d, "result")
	if op == "verify" {
		out = sub(x.d, "sig")
	}
	switch fail {
	case "unusable key":
		if key == x.k.Pub {
			t.Write(key, dataFile("c", (&pubRec{Alg: "Ed", KeyNum: x.k.PubRec.KeyNum, Key: offCurve(t.Rng)}).encode()))
		} else {
			t.Write(key, dataFile("c", flip(x.k.Rec.encode(), 8*24+t.Rng.Intn(64))))
		}
	case "damaged key":
		t.damage(key)
	case "malformed key":
		t.Write(key, []byte("untrusted comment: x\nno base64!\n"))
	case "missing key":
		key = sub(x.d, "none")
	case "key is a directory":
		key = sub(x.d, "home")
	case "missing message":
		in = sub(x.d, "none")
	case "message is a directory":
		in = sub(x.d, "home")
	case "damaged input":
		in = t.Write(sub(x.d, "other"), mangle(t.Rng, t.Read(in)))
	case "cut input":
		b := t.Read(in)
		in = t.Write(sub(x.d, "other"), b[:t.Rng.Intn(len(b)+1)])
	case "foreign input":
		pl, err := refSeal(refBoxPub(t.RefKey(sub(x.d, "foreign"), nil, 0).PubRec.Key), randBytes(t.Rng, 32), x.msg)
		t.must(err, "refSeal")
		if op == "open" {
			in = t.Write(sub(x.d, "other"), encFile("untrusted comment: x", pl, "\n"))
		} else if op == "verify" {
			out = sub(x.d, "enc")
		}
	case "no output directory":
		out = sub(x.d, "none/result")
	case "output is a directory":
		out = sub(x.d, "home")
	case "output is an input":
		out = in
	}
	c.a = []string{key, in, out}
	return c
}

// run performs the operation once and tells whether it succeeded.
func (c *c23op) run(t *T) (err error) {
	x := c.x
	p := x.pass
	if c.fail == "wrong passphrase" {
		p = []byte("another rather long passphrase")
	}
	t.Pass(p)
	if c.fail == "no passphrase" {
		t.NoPass()
	}
	do := func() {
		switch c.op {
		case "sign":
			err = signify.Sign(c.a[0], c.a[1], c.a[2])
		case "verify":
			err = signify.Verify(c.a[0], c.a[1], c.a[2])
		case "seal":
			err = crypto.Seal(c.a[0], c.a[1], c.a[2])
		case "open":
			err = crypto.Open(c.a[0], c.a[1], c.a[2])
		case "gen":
			os.Remove(c.a[2] + ".sec")
			os.Remove(c.a[2] + ".pub")
			if c.fail == "missing key" {
				t.Write(c.a[2]+".sec", []byte("x"))
			} else if c.fail == "foreign input" {
				t.Write(c.a[2]+".pub", []byte("x"))
			}
			err = signify.GenerateKey(c.a[2], append([]byte(nil), x.pass...), &signify.GenerateOptions{Rounds: 1})
		case "genpair":
			o := &signify.GenerateOptions{Rounds: 1}
			if c.fail == "unusable key" {
				o.Rounds = -1
			}
			_, _, err = signify.GenerateKeypair([]byte("x"), o)
		case "loadpriv":
			_, err = signify.LoadPrivateKey(c.a[0])
		case "loadpub":
			_, err = signify.LoadPublicKey(c.a[0])
		case "convert":
			var p *signify.Private
			p, err = signify.LoadPrivateKey(c.a[0])
			if err == nil {
				p.Check()
				_, err = p.ToBox()
			}
		case "encode":
			e := base64.NewEncoder(&failWriter{n: map[bool]int{true: 1 << 30, false: 20}[c.fail == ""]})
			_, err = e.Write(x.msg)
			if cerr := e.Close(); err == nil {
				err = cerr
			}
		case "decode":
			b := []byte(encBody(x.msg))
			if c.fail == "damaged input" {
				b = mangle(t.Rng, b)
			} else if c.fail != "" {
				b = append(b, "!!!!"...)
			}
			d := base64.NewDecoder(bytes.NewReader(b))
			_, err = io.Copy(io.Discard, d)
			if c.fail != "no passphrase" { // abandoned without Close
				d.Close()
			}
		}
	}
	if c.fail == "size limit" {
		n := t.Rng.Intn(60)
		if t.Rng.Intn(2) == 0 {
			n = t.Rng.Intn(1 + len(c.x.msg))
		}
		limitFsize(t, uint64(n), do)
	} else {
		do()
	}
	return err
}

type failWriter struct{ n int }

func (w *failWriter) Write(p []byte) (int, error) {
	if len(p) > w.n {
		return 0, fmt.Errorf("full")
	}
	w.n -= len(p)
	return len(p), nil
}

// warm makes the runtime and the harness open what they keep open.
func warm(t *T) {
	r, w, err := os.Pipe()
	t.must(err, "pipe")
	go func() { w.Write([]byte{1}); w.Close() }()
	io.ReadAll(r)
	r.Close()
	limitFsize(t, 1<<40, func() {})
	time.Sleep(time.Millisecond)
}

func init() {
	register(&Prop{
		ID: "C23",
		Rule: "one evaluation = one operation, or one long run of operations, between two pictures of the process (open descriptors, goroutines, current directory, file creation mask, environment, signal handling, limits, locks, mappings, children) with garbage collection off, of its temporary directory, or of the terminal its command ran on; " +
			"distinct by (operation, failure, variant)",
		Min:         map[string]int64{"process states compared": 600, "successful operations": 80, "failed operations": 150, "operations in starved processes": 3000, "terminal settings compared": 15, "descriptors inspected": 3000, "command runs watched": 8, "processes with real prompts": 8},
		Assumptions: []string{"a prompt interrupted by a signal that kills the process is out of scope", "goroutines get up to some seconds to end"},
		Cases: func(cfg *Config) []Case {
			var cs []Case
			for _, op := range c23Ops {
				op := op
				cs = append(cs, Case{Name: "single/" + op, Ticks: 300, Fn: func(t *T) {
					warm(t)
					defer debug.SetGCPercent(debug.SetGCPercent(-1))
					for _, fail := range c23Fails {
						for v := 0; v < cfg.pick(4, 30); v++ {
							if v > 1 && !strings.Contains("damaged key cut input", fail) && cfg.Tier == "quick" {
								break
							}
							c := newC23(t, op, fail, v%2 == 1)
							c.x.enter()
							tmp := names(sub(c.x.d, "tmp"))
							g := goroutines(0 + runtime.NumGoroutine())
							before := processState(t, t.dir)
							err := c.run(t)
							after := processState(t, t.dir)
							n := goroutines(g)
							left := names(sub(c.x.d, "tmp"))
							c.x.restore()
							what := fmt.Sprintf("%s(%q), %s, protected %v (%v)", op, c.a, fail, v%2 == 1, err)
							if d := before.diff(after); d != "" {
								t.Failf("%s changes the process:\n%s", what, d)
							}
							if n > g {
								t.Failf("%s leaves %d goroutines behind:\n%s", what, n-g, stacks())
							}
							if len(left) > len(tmp) {
								t.Failf("%s leaves files in the temporary directory: %q", what, left)
							}
							if err == nil {
								t.Obs("successful operations", 1)
							} else {
								t.Obs("failed operations", 1)
							}
							t.Eval(op, fail, v)
							t.dropDirs()
						}
					}
				}})
				// starved of descriptors, it works on for ever
				cs = append(cs, Case{Name: "starved/" + op, Ticks: 300, Fn: func(t *T) {
					warm(t)
					defer debug.SetGCPercent(debug.SetGCPercent(-1))
					for _, fail := range c23Fails {
						if fail == "size limit" {
							continue
						}
						c := newC23(t, op, fail, false)
						if strings.Contains(fail, "passphrase") && op != "decode" && (op == "sign" || op == "open" || op == "convert") && cfg.Tier == "quick" && fail == "wrong passphrase" {
							continue // slow, and seen above
						}
						first := c.run(t)
						var old syscall.Rlimit
						t.must(syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old), "getrlimit")
						max := 0
						es, _ := os.ReadDir("/proc/self/fd")
						for _, e := range es {
							n := 0
							fmt.Sscan(e.Name(), &n)
							if n > max {
								max = n
							}
						}
						before := processState(t, t.dir)
						t.must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: uint64(max + 8), Max: old.Max}), "setrlimit")
						g := runtime.NumGoroutine()
						bad := ""
						n := cfg.pick(40, 400)
						for i := 0; i < n && bad == ""; i++ {
							err := c.run(t)
							if (err == nil) != (first == nil) && !(op == "decode" && fail == "damaged input") {
								bad = fmt.Sprintf("attempt %d ends with %v, the first ended with %v", i+2, err, first)
							}
						}
						syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old)
						if bad != "" {
							t.Failf("%s(%q), %s, with few descriptors: %s", op, c.a, fail, bad)
						}
						if d := before.diff(processState(t, t.dir)); d != "" {
							t.Failf("%s(%q), %s: %d attempts change the process:\n%s", op, c.a, fail, n, d)
						}
						if m := goroutines(g); m > g {
							t.Failf("%s(%q), %s: %d goroutines are left after %d attempts:\n%s", op, c.a, fail, m-g, n, stacks())
						}
						t.Obs("operations in starved processes", int64(n))
						t.Eval("starved", op, fail)
						t.dropDirs()
					}
				}})
			}
			// the terminal gets its modes back whenever the prompt returns
			cs = append(cs, Case{Name: "terminal", Ticks: 500, Fn: func(t *T) {
				pass := "correct horse battery"
				for v, x := range []struct {
					args    string
					answers []string
				}{
					{"-S -s k.sec -m m", []string{pass}}, {"-S -s k.sec -m m", []string{"wrong"}}, {"-S -s k.sec -m m", []string{""}}, {"-S -s k.sec -m m", []string{"\x04"}}, {"-S -s k.sec -m none", []string{pass}},
					{"-D -s k.sec -c c -m o", []string{pass}}, {"-D -s k.sec -c c -m o", []string{"wrong"}}, {"-D -s k.sec -c c -m o", []string{"\x04"}}, {"-D -s k.sec -c m -m o", []string{pass}}, {"-D -s k.sec -c c -m none/o", []string{pass}},
					{"-G -p new", []string{pass, pass}}, {"-G -p new", []string{pass, "other"}}, {"-G -p new", []string{pass, "\x04"}}, {"-G -p new", []string{"\x04"}}, {"-G -p k", []string{pass, pass}}, {"-G -p none/k", []string{pass, pass}},
					{"-V -p k.pub -m m", []string{}}, {"-E -p k.pub -m m", []string{}}, {"-S -s bad.sec -m m", []string{pass}}, {"-D -s bad.sec -c c -m o", []string{pass}}, {"-S -s u.sec -m m", []string{pass}}, {"-G -n -p new", []string{pass}}, {"-z", []string{}},
				} {
					e := newCliEnv(t)
					k := e.key("k", []byte(pass))
					e.key("u", nil)
					t.Write(sub(e.d, "bad.sec"), dataFile("c", flip(k.Rec.encode(), 8*60)))
					msg := content(t.Rng, 0, 500)
					t.Write(sub(e.d, "m"), msg)
					t.Write(sub(e.d, "c"), e.sealed(k, msg))
					r := e.run(x.answers, strings.Fields(x.args)...)
					if r.HungUp {
						t.Obs("terminals hung up", 1)
						continue
					}
					if r.Signal != "" {
						t.Failf("%q with answers %q is killed: %v", x.args, x.answers, r)
					}
					if r.Term == "" || r.TermAfter == "" {
						t.Inconclusivef("the terminal settings cannot be read")
					}
					if r.Term != r.TermAfter {
						t.Failf("%q with answers %q leaves the terminal in another mode: %s, was %s", x.args, x.answers, r.TermAfter, r.Term)
					}
					t.Obs("terminal settings compared", 1)
					t.Eval("terminal", v)
					t.dropDirs()
				}
			}}, Case{Name: "prompts", Ticks: 500, Fn: func(t *T) {
				self, err := os.Executable()
				t.must(err, "executable")
				const pass = "correct horse battery"
				for v, x := range []struct {
					script  string
					answers []string
				}{
					{"n", []string{"some passphrase"}}, {"c", []string{"one", "one"}}, {"c", []string{"one", "other"}}, {"n", []string{""}}, {"nn", []string{"a", "b"}}, {"ccn", []string{"one", "other", "two", "two", "three"}},
					{"s", []string{pass}}, {"s", []string{"wrong"}}, {"d", []string{pass}}, {"d", []string{"wrong"}}, {"sdsd", []string{pass, "wrong", "wrong", pass}}, {"nnnnnnnn", []string{"1", "2", "3", "4", "5", "6", "7", "8"}}, {"csndc", []string{"one", "other", pass, "x", pass, "two", "two"}},
				} {
					d := t.Dir()
					k := t.RefKey(sub(d, "k"), []byte(pass), 1)
					msg := content(t.Rng, 0, 500)
					t.Write(sub(d, "m"), msg)
					t.Write(sub(d, "c"), encFile(encComment, sealed24(t, k, msg), "\n"))
					js, _ := json.Marshal(opSpec{Op: "promptstate", A: []string{sub(d, "report"), x.script, d}})
					r := t.Run(cliOpts{Dir: d, Umask: 022, Answers: x.answers, Ticks: 120}, []string{self, "op", string(js)})
					if r.HungUp {
						t.Obs("terminals hung up", 1)
						continue
					}
					b, err := os.ReadFile(sub(d, "report"))
					if err != nil || !contains(b, "END\n") {
						t.Inconclusivef("prompts %q do not report: %v", x.script, r)
					}
					if contains(b, "CHANGED") {
						t.Failf("after the prompts %q (n plain, c confirmed, s signing, d decrypting) with answers %q the process is not what it was:\n%s", x.script, x.answers, b)
					}
					if r.Term != r.TermAfter {
						t.Failf("prompts %q with answers %q leave the terminal in another mode: %s, was %s", x.script, x.answers, r.TermAfter, r.Term)
					}
					t.Obs("processes with real prompts", 1)
					t.Eval("prompts", v)
					t.dropDirs()
				}
			}}, Case{Name: "commands", Ticks: 500, Fn: func(t *T) {
				// no process of the command's session outlives it, and its temporary directory stays empty
				for v, args := range []string{"-S -s k.sec -m m", "-V -p k.pub -m m", "-E -p k.pub -m m", "-D -s k.sec -c c -m o", "-G -n -p new", "-S -s none -m m", "-D -s k.sec -c m -m o", "-z", "-G -n -p k", "-E -p k.pub -m none"} {
					e := newCliEnv(t)
					k := e.key("k", nil)
					msg := content(t.Rng, 0, 500)
					t.Write(sub(e.d, "m"), msg)
					t.Write(sub(e.d, "c"), e.sealed(k, msg))
					t.must(os.Mkdir(sub(e.d, "tmp"), 0777), "mkdir")
					e.own()
					mark := fmt.Sprintf("VERIF_MARK=%s-%d", filepath.Base(t.dir), v)
					r := t.CLI(cliOpts{Dir: e.d, Umask: 022, Uid: cliUid, Env: []string{"HOME=" + e.home, "USER=joe", "TMPDIR=" + sub(e.d, "tmp"), mark}}, strings.Fields(args)...)
					if l := names(sub(e.d, "tmp")); len(l) > 0 {
						t.Failf("%q leaves files in the temporary directory: %q (%v)", args, l, r)
					}
					ps, _ := filepath.Glob("/proc/[0-9]*/cwd")
					for _, p := range ps {
						if l, err := os.Readlink(p); err == nil && strings.HasPrefix(l, e.d) {
							c, _ := os.ReadFile(filepath.Dir(p) + "/cmdline")
							t.Failf("%q leaves a process behind: %q", args, c)
						}
					}
					t.Obs("command runs watched", 1)
					t.Eval("command", v)
					t.dropDirs()
				}
			}})
			cs = append(cs, Case{Name: "self-test", Fn: func(t *T) {
				// the pictures show what they are meant to show
				d := t.Dir()
				t.Write(sub(d, "f"), []byte("x"))
				before := processState(t, t.dir)
				f, err := os.Open(sub(d, "f"))
				t.must(err, "open")
				if before.diff(processState(t, t.dir)) == "" {
					t.Inconclusivef("an open descriptor goes unnoticed")
				}
				syscall.Flock(int(f.Fd()), syscall.LOCK_EX)
				if !strings.Contains(before.diff(processState(t, t.dir)), "locks") {
					t.Obs("locks not shown by this kernel", 1)
				}
				f.Close()
				os.Setenv("VERIF_X", "y")
				if before.diff(processState(t, t.dir)) == "" {
					t.Inconclusivef("a new environment variable goes unnoticed")
				}
				os.Unsetenv("VERIF_X")
				if d := before.diff(processState(t, t.dir)); d != "" {
					t.Inconclusivef("the process state is not stable: %s", d)
				}
				g := runtime.NumGoroutine()
				stop := make(chan bool)
				go func() { <-stop }()
				if goroutines(g) <= g {
					t.Inconclusivef("a goroutine goes unnoticed")
				}
				close(stop)
				if goroutines(g) > g {
					t.Inconclusivef("the number of goroutines is not stable")
				}
				t.Eval("self-test")
			}})
			return cs
		},
	})
}
