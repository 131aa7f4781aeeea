package main

// Case runner: a parent hands deterministic cases to worker processes and
// turns what the workers observe into a three-valued verdict.

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/kisom/psignify/signify"
)

// Config is shared by parent and workers.
type Config struct {
	Prop     string
	Tier     string
	Seed     int64
	CLI      string
	Fast     string // harness built with a buffered base64 package, or empty
	Scratch  string
	Workers  int
	Thorough bool
	// A part of the cases: one in Every, those whose name contains Must, none
	// whose name contains Skip.
	Every      int
	Must, Skip string
}

func (c *Config) partial(only string) bool { return only != "" || c.Every > 1 || c.Skip != "" }

func (c *Config) selects(name string) bool {
	for _, x := range strings.Split(c.Skip, ",") {
		if x != "" && strings.Contains(name, x) {
			return false
		}
	}
	return c.Every <= 1 || c.Must != "" && strings.Contains(name, c.Must) || uint64(caseSeed(c.Seed, "part "+name))%uint64(c.Every) == 0
}

// pick returns q in the quick tier and th in the thorough one.
func (c *Config) pick(q, th int) int {
	if c.Thorough {
		return th
	}
	return q
}

// Case is one deterministic unit of work.
type Case struct {
	Name  string
	Fn    func(*T)
	Ticks int  // watchdog ticks (about seconds) before the case counts as hung
	Fresh bool // in a process of its own
}

// Prop is one property's monitor.
type Prop struct {
	ID          string
	Level       string // default: exploration
	Rule        string
	Assumptions []string
	Cases       func(cfg *Config) []Case
	// Min lists what is usually observed; a clean run that saw less than a
	// tenth of one of them is inconclusive (how often a fault can strike
	// depends on how the code goes about its work).
	Min map[string]int64
	// Offline examines the records all cases logged.
	Offline func(cfg *Config, recs []Rec) (*Violation, map[string]int64)
	// Env is added to the environment of the workers; {scratch} is replaced.
	Env []string
	// Post lets a check examine artefacts after all workers have exited.
	Post func(cfg *Config) (*Violation, map[string]int64)
}

// Rec is a log record for the offline checkers.
type Rec struct {
	Case string `json:"case"`
	Kind string `json:"kind"`
	Data string `json:"data"`
}

// Violation is a failed oracle.
type Violation struct {
	Case   string            `json:"case"`
	Key    string            `json:"key"` // stable identification for known findings
	Detail string            `json:"detail"`
	Files  map[string]string `json:"files,omitempty"`
}

type caseResult struct {
	Index        int              `json:"index"`
	Violation    *Violation       `json:"violation,omitempty"`
	Inconclusive string           `json:"inconclusive,omitempty"`
	Obs          map[string]int64 `json:"obs,omitempty"`
	Evals        int64            `json:"evals"`
	Distinct     []uint64         `json:"distinct,omitempty"`
	Sample       string           `json:"sample,omitempty"`
	Recs         []Rec            `json:"recs,omitempty"`
}

// T is the context of one running case.
type T struct {
	cfg     *Config
	name    string
	Rng     *rand.Rand
	dir     string
	res     caseResult
	seen    map[uint64]bool
	mu      sync.Mutex
	prompt  func(bool) ([]byte, error)
	prompts int
	attach  map[string]string
	ndir    int
}

type caseStop struct{}

// Failf records a violation and ends the case.
func (t *T) Failf(format string, args ...interface{}) {
	t.FailKey("", format, args...)
}

// FailKey is Failf with an identification for the known-findings file.
func (t *T) FailKey(key, format string, args ...interface{}) {
	t.mu.Lock()
	if t.res.Violation == nil {
		if key == "" {
			key = t.name
		}
		t.res.Violation = &Violation{Case: t.name, Key: key, Detail: fmt.Sprintf(format, args...), Files: t.attach}
	}
	t.mu.Unlock()
	panic(caseStop{})
}

// Inconclusivef ends the case without a verdict.
func (t *T) Inconclusivef(format string, args ...interface{}) {
	t.mu.Lock()
	t.res.Inconclusive = fmt.Sprintf(format, args...)
	t.mu.Unlock()
	panic(caseStop{})
}

// must is for harness-side steps which cannot fail because of the code under test.
func (t *T) must(err error, what string) {
	if err != nil {
		t.Inconclusivef("harness step failed: %s: %v", what, err)
	}
}

// Attach adds data to the replay file if the case fails later.
func (t *T) Attach(name string, data []byte) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.attach == nil {
		t.attach = map[string]string{}
	}
	if len(data) > 1<<16 {
		h := sha256.Sum256(data)
		t.attach[name] = fmt.Sprintf("(%d bytes, sha256 %x) head %x", len(data), h, data[:64])
		return
	}
	t.attach[name] = hex.EncodeToString(data)
}

// Obs counts an observation.
func (t *T) Obs(k string, n int64) {
	t.mu.Lock()
	t.res.Obs[k] += n
	t.mu.Unlock()
}

// Eval counts one evaluated execution, identified by parts.
func (t *T) Eval(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			io.WriteString(h, v)
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0, 1})
	}
	t.mu.Lock()
	t.res.Evals++
	t.seen[h.Sum64()] = true
	t.mu.Unlock()
}

// Sample describes an actual case for the evidence file.
func (t *T) Sample(format string, args ...interface{}) {
	t.mu.Lock()
	if t.res.Sample == "" {
		t.res.Sample = fmt.Sprintf(format, args...)
	}
	t.mu.Unlock()
}

// Log adds a record for the offline checker.
func (t *T) Log(kind string, data []byte) {
	t.mu.Lock()
	t.res.Recs = append(t.res.Recs, Rec{t.name, kind, hex.EncodeToString(data)})
	t.mu.Unlock()
}

// Dir returns a new empty directory.
func (t *T) Dir() string {
	t.mu.Lock()
	t.ndir++
	d := filepath.Join(t.dir, fmt.Sprintf("d%d", t.ndir))
	t.mu.Unlock()
	t.must(os.MkdirAll(d, 0755), "mkdir")
	return d
}

func (t *T) Write(path string, data []byte) string {
	t.must(os.WriteFile(path, data, 0644), "write "+path)
	return path
}

// Read reads a file the code under test must have produced.
func (t *T) Read(path string) []byte {
	b, err := os.ReadFile(path)
	if err != nil {
		t.Failf("expected output file is missing: %v", err)
	}
	return b
}

func exists(path string) bool {
	_, err := os.Lstat(path)
	return err == nil
}

// Pass makes the prompt answer with a copy of p.
func (t *T) Pass(p []byte) {
	t.mu.Lock()
	t.prompts = 0
	t.prompt = func(bool) ([]byte, error) { return append([]byte(nil), p...), nil }
	t.mu.Unlock()
}

// NoPass makes any prompt an error; Prompts tells whether one happened.
func (t *T) NoPass() {
	t.mu.Lock()
	t.prompts = 0
	t.prompt = nil
	t.mu.Unlock()
}

func (t *T) Prompts() int {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.prompts
}

var errNoPrompt = errors.New("harness: unexpected passphrase prompt")

var (
	curMu sync.Mutex
	cur   *T
)

func promptHook(confirm bool) ([]byte, error) {
	curMu.Lock()
	t := cur
	curMu.Unlock()
	if t == nil {
		return nil, errNoPrompt
	}
	t.mu.Lock()
	t.prompts++
	f := t.prompt
	t.mu.Unlock()
	if f == nil {
		return nil, errNoPrompt
	}
	return f(confirm)
}

func caseSeed(seed int64, name string) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s", seed, name)
	return int64(h.Sum64())
}

func runCase(cfg *Config, c Case, idx int) (res caseResult) {
	t := &T{cfg: cfg, name: c.Name, Rng: rand.New(rand.NewSource(caseSeed(cfg.Seed, c.Name))), seen: map[uint64]bool{}}
	t.res.Index = idx
	t.res.Obs = map[string]int64{}
	t.dir = filepath.Join(cfg.Scratch, fmt.Sprintf("case%d-%d", os.Getpid(), idx))
	if err := os.MkdirAll(t.dir, 0755); err != nil {
		return caseResult{Index: idx, Inconclusive: err.Error()}
	}
	curMu.Lock()
	cur = t
	curMu.Unlock()
	signify.PassphrasePrompt = promptHook
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(caseStop); !ok {
				t.mu.Lock()
				if !bytes.Contains(debug.Stack(), []byte("github.com/kisom/psignify/")) {
					t.res.Inconclusive = fmt.Sprintf("harness panic: %v\n%s", r, debug.Stack())
				} else if t.res.Violation == nil {
					t.res.Violation = &Violation{Case: c.Name, Key: c.Name + " panic", Detail: fmt.Sprintf("panic: %v\n%s", r, debug.Stack()), Files: t.attach}
				}
				t.mu.Unlock()
			}
		}
		t.mu.Lock()
		for h := range t.seen {
			t.res.Distinct = append(t.res.Distinct, h)
		}
		res = t.res
		t.mu.Unlock()
		filepath.Walk(t.dir, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.IsDir() {
				os.Chmod(p, 0755)
			}
			return nil
		})
		os.RemoveAll(t.dir)
	}()
	c.Fn(t)
	return
}

// ---- worker side ----

func workerMain(cfg *Config, p *Prop) {
	cases := p.Cases(cfg)
	in := bufio.NewScanner(os.Stdin)
	out := os.NewFile(3, "proto")
	enc := json.NewEncoder(out)
	for in.Scan() {
		i, err := strconv.Atoi(in.Text())
		if err != nil || i < 0 || i >= len(cases) {
			os.Exit(3)
		}
		r := runCase(cfg, cases[i], i)
		if err := enc.Encode(&r); err != nil {
			os.Exit(3)
		}
	}
	os.Exit(0)
}

// ---- parent side ----

type worker struct {
	cmd    *exec.Cmd
	stdin  io.WriteCloser
	proto  *bufio.Reader
	stderr *tailBuf
	done   chan error
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (tb *tailBuf) Write(p []byte) (int, error) {
	tb.mu.Lock()
	defer tb.mu.Unlock()
	tb.b = append(tb.b, p...)
	if len(tb.b) > 1<<20 {
		tb.b = append([]byte(nil), tb.b[len(tb.b)-(1<<19):]...)
	}
	return len(p), nil
}

func (tb *tailBuf) String() string {
	tb.mu.Lock()
	defer tb.mu.Unlock()
	s := string(tb.b)
	if len(s) > 12000 {
		s = s[:6000] + "\n...\n" + s[len(s)-6000:]
	}
	return s
}

func startWorker(cfg *Config, env []string, args []string) (*worker, error) {
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	w := &worker{stderr: &tailBuf{}}
	w.cmd = exec.Command(self, append([]string{"worker"}, args...)...)
	w.cmd.Env = os.Environ()
	for _, e := range env {
		w.cmd.Env = append(w.cmd.Env, strings.Replace(e, "{scratch}", cfg.Scratch, 1))
	}
	w.cmd.Stdout = nil
	w.cmd.Stderr = w.stderr
	w.cmd.Dir = cfg.Scratch
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	w.cmd.ExtraFiles = []*os.File{pw}
	w.stdin, err = w.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	if err := w.cmd.Start(); err != nil {
		return nil, err
	}
	pw.Close()
	w.proto = bufio.NewReaderSize(pr, 1<<20)
	return w, nil
}

func (w *worker) kill() {
	syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
	w.cmd.Process.Kill()
}

const defaultTicks = 240

type runOutcome struct {
	results map[int]caseResult
	mu      sync.Mutex
	viol    []*Violation
	inconc  []string
	stop    bool
}

func runAll(cfg *Config, p *Prop, cases []Case, only string, args []string) *runOutcome {
	o := &runOutcome{results: map[int]caseResult{}}
	var idx []int
	for i := range cases {
		if only == "" && cfg.selects(cases[i].Name) || cases[i].Name == only {
			idx = append(idx, i)
		}
	}
	next := 0
	take := func() int {
		o.mu.Lock()
		defer o.mu.Unlock()
		if o.stop || next >= len(idx) {
			return -1
		}
		next++
		return idx[next-1]
	}
	nw := cfg.Workers
	if nw > len(idx) {
		nw = len(idx)
	}
	var wg sync.WaitGroup
	for k := 0; k < nw; k++ {
		wg.Add(1)
		// Pdeathsig is tied to the creating thread: keep it alive.
		go func() {
			defer wg.Done()
			runtime.LockOSThread()
			var w *worker
			defer func() {
				if w != nil {
					w.stdin.Close()
					w.cmd.Wait()
				}
			}()
			for {
				i := take()
				if i < 0 {
					return
				}
				if w != nil && cases[i].Fresh {
					w.stdin.Close()
					w.cmd.Wait()
					w = nil
				}
				if w == nil {
					var err error
					w, err = startWorker(cfg, p.Env, args)
					if err != nil {
						o.mu.Lock()
						o.inconc = append(o.inconc, "cannot start worker: "+err.Error())
						o.mu.Unlock()
						return
					}
				}
				type rd struct {
					line []byte
					err  error
				}
				ch := make(chan rd, 1)
				fmt.Fprintf(w.stdin, "%d\n", i)
				go func(w *worker) {
					l, err := w.proto.ReadBytes('\n')
					ch <- rd{l, err}
				}(w)
				ticks := cases[i].Ticks
				if ticks == 0 {
					ticks = defaultTicks
				}
				var got rd
				hung := false
				tick := time.NewTicker(time.Second)
				abandoned := 0 // ticks since another case failed
			wait:
				for n := 0; ; {
					select {
					case got = <-ch:
						break wait
					case <-tick.C:
						n++
						if n >= ticks {
							hung = true
							break wait
						}
						o.mu.Lock()
						if o.stop {
							abandoned++
						}
						o.mu.Unlock()
						if abandoned > 20 { // there is a verdict already
							break wait
						}
					}
				}
				tick.Stop()
				if abandoned > 20 {
					w.kill()
					w.cmd.Wait()
					w = nil
					continue
				}
				if hung {
					w.cmd.Process.Signal(syscall.SIGQUIT)
					time.Sleep(500 * time.Millisecond)
					w.kill()
					w.cmd.Wait()
					o.add(&Violation{Case: cases[i].Name, Key: cases[i].Name + " hang",
						Detail: fmt.Sprintf("case did not finish within %d watchdog ticks\n%s", ticks, w.stderr)})
					w = nil
					continue
				}
				var r caseResult
				if got.err != nil || json.Unmarshal(got.line, &r) != nil {
					err := w.cmd.Wait()
					sig := ""
					if ws, ok := w.cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
						sig = ws.Signal().String()
					}
					if sig == "killed" {
						o.mu.Lock()
						o.inconc = append(o.inconc, "worker was killed from outside during "+cases[i].Name)
						o.mu.Unlock()
					} else {
						o.add(&Violation{Case: cases[i].Name, Key: cases[i].Name + " crash",
							Detail: fmt.Sprintf("process died: %v %s\n%s", err, sig, w.stderr)})
					}
					w = nil
					continue
				}
				o.mu.Lock()
				o.results[i] = r
				o.mu.Unlock()
				if r.Violation != nil {
					o.add(r.Violation)
				}
				if r.Inconclusive != "" {
					o.mu.Lock()
					o.inconc = append(o.inconc, cases[i].Name+": "+r.Inconclusive)
					o.mu.Unlock()
				}
				if cases[i].Fresh {
					w.stdin.Close()
					w.cmd.Wait()
					w = nil
				}
			}
		}()
	}
	wg.Wait()
	return o
}

func (o *runOutcome) add(v *Violation) {
	o.mu.Lock()
	o.viol = append(o.viol, v)
	if len(o.viol) >= 3 || os.Getenv("VERIF_ALL") == "" {
		if os.Getenv("VERIF_ALL") == "" {
			o.stop = true
		}
	}
	o.mu.Unlock()
}

type known struct{ prop, key, text string }

func loadKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var ks []known
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=<id> key=<key> | <what fails>
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property=")
		sp := strings.SplitN(rest, " key=", 2)
		if len(sp) != 2 {
			continue
		}
		kt := strings.SplitN(sp[1], " | ", 2)
		if len(kt) != 2 {
			continue
		}
		ks = append(ks, known{strings.TrimSpace(sp[0]), kt[0], kt[1]})
	}
	return ks
}

func parentMain(cfg *Config, p *Prop, only, evidence, replayDir, knownFile string, args []string) int {
	start := time.Now()
	cases := p.Cases(cfg)
	names := map[string]bool{}
	for _, c := range cases {
		if names[c.Name] {
			fmt.Println("INCONCLUSIVE: duplicate case name", c.Name)
			return 2
		}
		names[c.Name] = true
	}
	if only != "" && !names[only] {
		fmt.Println("INCONCLUSIVE: no such case:", only)
		return 2
	}
	o := runAll(cfg, p, cases, only, args)

	obs := map[string]int64{}
	var evals int64
	distinct := map[uint64]bool{}
	var recs []Rec
	var samples []string
	order := make([]int, 0, len(o.results))
	for i := range o.results {
		order = append(order, i)
	}
	sort.Ints(order)
	for _, i := range order {
		r := o.results[i]
		for k, v := range r.Obs {
			obs[k] += v
		}
		evals += r.Evals
		for _, d := range r.Distinct {
			distinct[d] = true
		}
		recs = append(recs, r.Recs...)
		if r.Sample != "" && (len(samples) < 4 || (i%7 == 0 && len(samples) < 12)) {
			samples = append(samples, cases[i].Name+": "+r.Sample)
		}
	}
	if p.Offline != nil && !cfg.partial(only) && !o.stop {
		v, ob := p.Offline(cfg, recs)
		for k, n := range ob {
			obs[k] += n
		}
		if v != nil {
			o.viol = append(o.viol, v)
		}
	}
	if p.Post != nil {
		v, ob := p.Post(cfg)
		for k, n := range ob {
			obs[k] += n
		}
		if v != nil {
			o.viol = append(o.viol, v)
		}
	}

	// Known findings are reported but are no violations.
	ks := loadKnown(knownFile)
	var viol []*Violation
	for _, v := range o.viol {
		hit := false
		for _, k := range ks {
			if k.prop == p.ID && k.key == v.Key {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.text)
				hit = true
			}
		}
		if !hit {
			viol = append(viol, v)
		}
	}

	var lacking []string
	if !cfg.partial(only) {
		for k, n := range p.Min {
			if need := (n + 9) / 10; obs[k] < need {
				lacking = append(lacking, fmt.Sprintf("%s=%d (need %d)", k, obs[k], need))
			}
		}
		sort.Strings(lacking)
	}

	if evidence != "" && only == "" {
		if len(samples) == 0 {
			samples = []string{"(none)"}
		}
		level := p.Level
		if level == "" {
			level = "exploration"
		}
		ev := map[string]interface{}{
			"property": p.ID, "tier": cfg.Tier, "seed": cfg.Seed, "level": level,
			"coverage": map[string]interface{}{
				"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": p.Rule,
				"samples": samples, "cases": len(o.results), "cases_planned": len(cases), "observed": obs,
			},
			"assumptions": p.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(viol),
		}
		if p.Assumptions == nil {
			ev["assumptions"] = []string{}
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(evidence, append(b, '\n'), 0644); err != nil {
			fmt.Println("INCONCLUSIVE: cannot write evidence:", err)
			return 2
		}
	}

	fmt.Printf("%s %s seed=%d: %d/%d cases, %d evaluations, %d distinct, %.1fs\n", p.ID, cfg.Tier, cfg.Seed, len(o.results), len(cases), evals, len(distinct), time.Since(start).Seconds())
	keys := make([]string, 0)
	for k := range obs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var sb bytes.Buffer
	for _, k := range keys {
		fmt.Fprintf(&sb, " %s=%d", k, obs[k])
	}
	fmt.Printf("observed:%s\n", sb.String())

	if len(viol) > 0 {
		os.MkdirAll(replayDir, 0755)
		for n, v := range viol {
			h := sha256.Sum256([]byte(v.Case + v.Key))
			path := filepath.Join(replayDir, fmt.Sprintf("%s-%x.json", p.ID, h[:5]))
			b, _ := json.MarshalIndent(map[string]interface{}{
				"property": p.ID, "tier": cfg.Tier, "seed": cfg.Seed, "case": v.Case, "key": v.Key, "detail": v.Detail, "inputs_hex": v.Files,
				"how": fmt.Sprintf("VERIF_TIER=%s VERIF_SEED=%d ./check.sh %s --case %q", cfg.Tier, cfg.Seed, p.ID, v.Case),
			}, "", " ")
			os.WriteFile(path, append(b, '\n'), 0644)
			d := v.Detail
			if len(d) > 1500 {
				d = d[:1500] + "..."
			}
			fmt.Printf("--- %s\n%s\n", v.Case, d)
			if n < 20 {
				fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			}
		}
		return 1
	}
	if len(o.inconc) > 0 {
		for _, s := range o.inconc {
			fmt.Println("INCONCLUSIVE:", s)
		}
		return 2
	}
	if len(lacking) > 0 {
		fmt.Println("INCONCLUSIVE: too little observed:", strings.Join(lacking, ", "))
		return 2
	}
	return 0
}
