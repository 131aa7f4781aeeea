package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/kisom/psignify/signify"
)

// The prompt as the library ships it, before the harness replaces it.
var shippedPrompt = signify.PassphrasePrompt

// promptLine is what one prompt returned, as reported by promptOp.
type promptLine struct {
	Hex string
	Err string
}

// promptOp prompts once per letter of the script, 'n' plainly and 'c' with
// confirmation, and reports what came back; 'l' reads a line like the next
// program on the terminal would.
func promptOp(report, script string) error {
	f, err := os.OpenFile(report, os.O_WRONLY|os.O_CREATE|os.O_APPEND, 0600)
	if err != nil {
		return err
	}
	defer f.Close()
	for _, s := range script {
		var b []byte
		var err error
		if s == 'l' {
			os.Stdout.WriteString("next program: ")
			c := make([]byte, 1)
			for {
				n, e := os.Stdin.Read(c)
				if n > 0 && c[0] == '\n' {
					break
				} else if n > 0 {
					b = append(b, c[0])
				} else if e != nil {
					err = e
					break
				}
			}
		} else {
			b, err = shippedPrompt(s == 'c')
		}
		l := promptLine{Hex: hex.EncodeToString(b)}
		if err != nil {
			l = promptLine{Err: "error: " + err.Error()}
		}
		js, _ := json.Marshal(l)
		if _, err := f.Write(append(js, '\n')); err != nil {
			return err
		}
	}
	return nil
}

// keys is one thing that happens at the terminal.
type keys struct {
	b     string         // typed
	pause time.Duration  // before
	sig   syscall.Signal // sent to the program before typing
	hang  bool           // the terminal goes away
}

type typing []keys

// entry is what is done at the terminal once the program waits for a line.
type entry struct {
	how  string
	line string // what the line discipline makes of it
	keys typing
}

func pieces(line string, at []int, push bool, pause time.Duration) typing {
	var k typing
	last := 0
	for _, i := range at {
		p := line[last:i]
		if push {
			p += "\x04" // hands over what is there without ending the line
		}
		k = append(k, keys{b: p, pause: pause})
		last = i
	}
	return append(k, keys{b: line[last:] + "\n", pause: pause})
}

// entries are the ways to type a line.
func (t *T) entries(line string) []entry {
	n := len(line)
	mid := []int{n / 2}
	all := make([]int, 0, n)
	for i := 1; i < n && i < 24; i++ {
		all = append(all, i)
	}
	es := []entry{
		{"at once", line, typing{{b: line + "\n"}}},
		{"with carriage return", line, typing{{b: line + "\r"}}},
		{"late", line, typing{{b: line + "\n", pause: 400 * time.Millisecond}}},
	}
	if n < 2 {
		return es
	}
	k := t.Rng.Intn(n-1) + 1
	return append(es,
		entry{"in two pieces", line, pieces(line, mid, false, 30*time.Millisecond)},
		entry{"key by key", line, pieces(line, all, false, 2*time.Millisecond)},
		entry{"pushed in two pieces", line, pieces(line, []int{k}, true, 40*time.Millisecond)},
		entry{"pushed key by key", line, pieces(line, all, true, 10*time.Millisecond)},
		entry{"all pushed, then the end", line, typing{{b: line + "\x04"}, {b: "\n", pause: 60 * time.Millisecond}}},
		entry{"after corrections", line, typing{{b: "wrong start\x15" + line[:k] + "xy\x7f\x7f" + line[k:] + "\n"}}},
		entry{"window resized meanwhile", line, typing{{b: line[:k]}, {sig: syscall.SIGWINCH, pause: 20 * time.Millisecond}, {b: line[k:] + "\n", pause: 20 * time.Millisecond}}},
		entry{"stopped and continued", line, typing{{sig: syscall.SIGSTOP}, {sig: syscall.SIGCONT, pause: 60 * time.Millisecond}, {b: line[:k], pause: 40 * time.Millisecond}, {sig: syscall.SIGSTOP, pause: 5 * time.Millisecond}, {sig: syscall.SIGCONT, pause: 40 * time.Millisecond}, {b: line[k:] + "\n", pause: 20 * time.Millisecond}}},
	)
}

type ttyResult struct {
	cliResult
	waited int // prompts seen waiting with the echo off
}

// atTerminal runs argv with a terminal of its own on all three descriptors
// and does one entry after the other, each once the program waits for input.
func (t *T) atTerminal(dir string, mode string, es []entry, argv ...string) ttyResult {
	master, slave, err := openPTY()
	t.must(err, "open pty")
	var tio syscall.Termios
	ioctl := func(req uintptr, p *syscall.Termios) {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, slave.Fd(), req, uintptr(unsafe.Pointer(p))); e != 0 {
			t.must(e, "terminal settings")
		}
	}
	ioctl(syscall.TCGETS, &tio)
	switch mode {
	case "cbreak":
		tio.Lflag &^= syscall.ICANON
	case "raw":
		tio.Iflag &^= syscall.ICRNL | syscall.IXON
		tio.Oflag &^= syscall.OPOST
		tio.Lflag &^= syscall.ICANON | syscall.ISIG | syscall.IEXTEN
	case "ignore hangup":
	}
	ioctl(syscall.TCSETS, &tio)
	pre := "ulimit -c 0; ulimit -t 200; umask 0022; "
	if mode == "ignore hangup" {
		pre += `trap "" HUP; `
	}
	cmd := exec.Command("/bin/sh", append([]string{"-c", pre + `exec "$@"`, "sh"}, argv...)...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/local/bin:/usr/bin:/bin", "LC_ALL=C", "HOME=" + dir}
	cmd.Stdin, cmd.Stdout, cmd.Stderr = slave, slave, slave
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	t.must(cmd.Start(), "start")
	slave.Close()
	var mu sync.Mutex
	var out bytes.Buffer
	readerDone := make(chan bool)
	dup, err := syscall.Dup(int(master.Fd()))
	t.must(err, "dup")
	t.must(syscall.SetNonblock(dup, true), "nonblock")
	rd := os.NewFile(uintptr(dup), "pty")
	go func() {
		defer close(readerDone)
		b := make([]byte, 4096)
		for {
			n, err := rd.Read(b)
			mu.Lock()
			out.Write(b[:n])
			mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	died := make(chan error, 1)
	go func() { died <- cmd.Wait() }()
	var r ttyResult
	seen := 0
	waiting := func() bool {
		var tio syscall.Termios
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, master.Fd(), syscall.TCGETS, uintptr(unsafe.Pointer(&tio))); e != 0 {
			return false
		}
		return tio.Lflag&syscall.ECHO == 0 && tio.Lflag&syscall.ICANON != 0
	}
	output := func() string {
		mu.Lock()
		defer mu.Unlock()
		return out.String()
	}
	hung := false
	hangup := func() {
		if !hung {
			hung = true
			rd.Close()
			master.Close()
		}
	}
	ended := false
	end := func(d time.Duration) bool {
		if ended {
			return true
		}
		select {
		case <-died:
			ended = true
		case <-time.After(d):
		}
		return ended
	}
	for _, e := range es {
		plain := strings.HasPrefix(e.how, "next program")
		for i := 0; i < 1600 && !ended; i++ {
			o := output()
			if strings.TrimSpace(o[seen:]) != "" && (plain && strings.Contains(o[seen:], "next program: ") || !plain && waiting()) {
				if !plain {
					r.waited++
				}
				break
			}
			end(5 * time.Millisecond)
		}
		seen = len(output())
		for _, k := range e.keys {
			if end(k.pause + time.Microsecond) {
				break
			}
			if k.sig != 0 {
				syscall.Kill(-cmd.Process.Pid, k.sig)
			}
			if k.hang {
				hangup()
			} else if k.b != "" {
				rd.SetWriteDeadline(time.Now().Add(20 * time.Second))
				rd.WriteString(k.b)
			}
		}
		if ended || hung {
			break
		}
	}
	for n := 0; !end(time.Second); n++ {
		if n == 20 {
			hangup() // nothing more to say
		}
		if n > 120 {
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			<-died
			t.FailKey(t.name+" hang", "%q waits on although all lines were entered (%s) and the terminal was closed: %q", argv, describe(es), output())
		}
	}
	if !hung {
		rd.SetReadDeadline(time.Now().Add(200 * time.Millisecond))
		<-readerDone
	}
	hangup()
	r.TTY = output()
	r.Exit = cmd.ProcessState.ExitCode()
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		r.Signal = ws.Signal().String()
	}
	return r
}

func describe(es []entry) string {
	var s []string
	for _, e := range es {
		s = append(s, fmt.Sprintf("%.40q %s", e.line, e.how))
	}
	return strings.Join(s, ", ")
}

// unseen checks that the terminal has shown none of the lines.
func (t *T) unseen(r ttyResult, es []entry, what string) {
	for _, e := range es {
		if strings.HasPrefix(e.how, "next program") {
			continue
		}
		for i := 0; i+6 <= len(e.line); i++ {
			if strings.Contains(r.TTY, e.line[i:i+6]) {
				t.Failf("%s: the terminal shows a part of the passphrase, %q: %q", what, e.line[i:i+6], r.TTY)
			}
		}
		t.Obs("lines not shown", 1)
	}
}

// prompts runs the script of prompts with the given entries.
func (t *T) promptRun(mode, script string, es []entry) ([]promptLine, ttyResult) {
	self, err := os.Executable()
	t.must(err, "executable")
	d := t.Dir()
	js, _ := json.Marshal(opSpec{Op: "prompt", A: []string{sub(d, "report"), script}})
	r := t.atTerminal(d, mode, es, self, "op", string(js))
	f, err := os.Open(sub(d, "report"))
	t.must(err, "report")
	defer f.Close()
	var ls []promptLine
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		var l promptLine
		t.must(json.Unmarshal(sc.Bytes(), &l), "report")
		ls = append(ls, l)
	}
	t.Obs("prompts waiting without echo", int64(r.waited))
	return ls, r
}

func (t *T) gave(l promptLine, want string, what string, r ttyResult) {
	if l.Err != "" {
		t.Failf("%s: the prompt failed: %s", what, l.Err)
	}
	got, _ := hex.DecodeString(l.Hex)
	if string(got) != want {
		t.Failf("%s: the prompt returned %q", what, got)
	}
	t.Obs("lines returned exactly", 1)
}

func init() {
	register(&Prop{
		ID:   "C26",
		Rule: "one evaluation = one prompt (or confirmed pair of prompts) answered on a pseudo terminal in a particular manner, what it returned compared with the line typed, and the terminal's output searched for pieces of it; distinct by (line, manner of typing, terminal mode, kind of prompt)",
		Min:  map[string]int64{"lines returned exactly": 150, "confirmations judged": 60, "prompts waiting without echo": 200, "lines not shown": 150, "failures reported": 10, "commands at the terminal": 40},
		Cases: func(cfg *Config) []Case {
			var bin []byte
			for c := 0x20; c < 0x100; c++ {
				if c != 0x7f {
					bin = append(bin, byte(c))
				}
			}
			lines := []string{"correct horse", "p", "ab", " leading", "trailing ", "tab\tinside\t", "\x01\x02\x1b[A", string(bin), "Ümläut-пароль", "\xff\xfe\x80", strings.Repeat("0123456789", 13), strings.Repeat("q", 255) + "!", strings.Repeat("r", 1023) + "#?", strings.Repeat("Long line ", 400) + ".", "nul last\x00", "\x00\x00nul first, within \x00 it", "%s%d\\n", "\"quoted' $HOME `x`", "\u2028\u00a0x"}
			for i := 0; i < cfg.pick(4, 60); i++ {
				r := rand.New(rand.NewSource(caseSeed(cfg.Seed, fmt.Sprintf("c26 line %d", i))))
				b := make([]byte, 1+r.Intn(200))
				for j := range b {
					for b[j] = byte(r.Intn(256)); b[j] < 0x20 || b[j] == 0x7f; b[j] = byte(r.Intn(256)) {
					}
				}
				lines = append(lines, string(b))
			}
			var cs []Case
			for i, l := range lines {
				i, l := i, l
				cs = append(cs, Case{Name: fmt.Sprintf("line/%d", i), Ticks: 400, Fn: func(t *T) {
					for j, e := range t.entries(l) {
						what := fmt.Sprintf("%.60q typed %s", l, e.how)
						ls, r := t.promptRun("", "n", []entry{e})
						if len(ls) != 1 {
							t.Failf("%s: the prompt did not return: %v", what, r.cliResult)
						}
						t.gave(ls[0], l, what, r)
						t.unseen(r, []entry{e}, what)
						t.Eval("line", l, j)
						t.dropDirs()
					}
					t.Sample("%.40q: %d manners of typing", l, len(t.entries(l)))
				}})
			}
			// every byte in the first, middle and last place
			for part := 0; part < 4; part++ {
				part := part
				cs = append(cs, Case{Name: fmt.Sprintf("ends/%d", part), Ticks: 600, Fn: func(t *T) {
					var es []entry
					var want []string
					for i, c := range append([]byte{0, 1, 2, 5, 6, 7, 9, 27}, bin...) {
						if i%4 != part {
							continue
						}
						l := string([]byte{c, 'x', c, c, 'y', c})
						if i/4%5 == 0 {
							l = string([]byte{c})
						}
						want = append(want, l)
						es = append(es, entry{"at once", l, typing{{b: l + "\n"}}})
					}
					ls, r := t.promptRun("", strings.Repeat("n", len(es)), es)
					if len(ls) != len(es) {
						t.Failf("%d prompts, %d returned: %v", len(es), len(ls), r.cliResult)
					}
					for i, l := range ls {
						t.gave(l, want[i], fmt.Sprintf("%q", want[i]), r)
						t.Eval("ends", want[i])
					}
				}})
			}
			for _, mode := range []string{"cbreak", "raw"} {
				mode := mode
				cs = append(cs, Case{Name: "mode/" + mode, Ticks: 400, Fn: func(t *T) {
					for _, l := range []string{"correct horse", strings.Repeat("0123456789", 13), "\xff\xfe\x80abc"} {
						for j, e := range t.entries(l) {
							what := fmt.Sprintf("%.60q typed %s, terminal in %s mode", l, e.how, mode)
							ls, r := t.promptRun(mode, "n", []entry{e})
							if len(ls) != 1 {
								t.Failf("%s: the prompt did not return: %v", what, r.cliResult)
							}
							t.gave(ls[0], l, what, r)
							t.unseen(r, []entry{e}, what)
							t.Eval("mode", mode, l, j)
							t.dropDirs()
						}
					}
				}})
			}
			// several prompts one after the other, and the next program
			for i := 0; i < cfg.pick(6, 60); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("series/%d", i), Ticks: 400, Fn: func(t *T) {
					var es []entry
					var script string
					type want struct {
						ok   bool
						line string
					}
					var ws []want
					var pool []string
					for j := 0; j < 3; j++ {
						pool = append(pool, lines[t.Rng.Intn(7)]+fmt.Sprint(t.Rng.Intn(1000)))
					}
					any := func() string { return pool[t.Rng.Intn(3)] }
					for j := 0; j < 12; j++ {
						how := func(l string) entry { x := t.entries(l); return x[t.Rng.Intn(len(x))] }
						a := any()
						switch t.Rng.Intn(4) {
						case 0:
							script += "n"
							es = append(es, how(a))
							ws = append(ws, want{true, a})
						case 1:
							script += "c"
							es = append(es, how(a), how(a))
							ws = append(ws, want{true, a})
						case 2:
							b := any() + "x"
							script += "c"
							es = append(es, how(a), how(b))
							ws = append(ws, want{})
						default:
							script += "l"
							a = fmt.Sprint("visible ", t.Rng.Intn(1000))
							es = append(es, entry{"next program", a, typing{{b: a + "\n"}}})
							ws = append(ws, want{true, a})
						}
					}
					ls, r := t.promptRun("", script, es)
					what := fmt.Sprintf("prompts %q answered with %s", script, describe(es))
					if len(ls) != len(ws) {
						t.Failf("%s: %d of %d prompts returned: %v", what, len(ls), len(ws), r.cliResult)
					}
					for j, w := range ws {
						if w.ok {
							t.gave(ls[j], w.line, fmt.Sprintf("%s: number %d", what, j), r)
						} else if ls[j].Err == "" {
							t.Failf("%s: number %d succeeded although the lines differ", what, j)
						}
						t.Eval("series", script, j, w.line)
					}
					t.unseen(r, es, what)
					t.Obs("confirmations judged", int64(strings.Count(script, "c")))
				}})
			}
			cs = append(cs, Case{Name: "confirm", Ticks: 600, Fn: func(t *T) {
				for _, l := range []string{"correct horse", " x ", "Ümläut", strings.Repeat("0123456789", 8), "a"} {
					vs := []string{l, l + " ", " " + l, strings.TrimSpace(l) + "\t", strings.ToUpper(l), l[:len(l)-1], l + l, l[1:], "", l[:len(l)-1] + string(rune(l[len(l)-1]^1)&0x7f), l + "\x01", strings.Repeat("y", len(l))}
					for j, v := range vs {
						for _, swap := range []bool{false, true} {
							a, b := l, v
							if swap {
								a, b = v, l
							}
							if swap && a == b {
								continue
							}
							es := []entry{{"at once", a, typing{{b: a + "\n"}}}, {"at once", b, typing{{b: b + "\n"}}}}
							ls, r := t.promptRun("", "c", es)
							what := fmt.Sprintf("%q confirmed with %q", a, b)
							if len(ls) != 1 {
								t.Failf("%s: the prompt did not return: %v", what, r.cliResult)
							}
							if a == b {
								t.gave(ls[0], a, what, r)
							} else if ls[0].Err == "" {
								t.Failf("%s: accepted, and %s returned", what, ls[0].Hex)
							}
							t.unseen(r, es, what)
							t.Obs("confirmations judged", 1)
							t.Eval("confirm", a, b, j)
							t.dropDirs()
						}
					}
				}
			}})
			// the terminal goes away
			cs = append(cs, Case{Name: "hangup", Ticks: 600, Fn: func(t *T) {
				gone := entry{"hung up", "", typing{{hang: true, pause: 20 * time.Millisecond}}}
				part := entry{"hung up in the middle", "half a passphrase", typing{{b: "half a passphrase"}, {hang: true, pause: 20 * time.Millisecond}}}
				pushed := entry{"hung up after a pushed part", "half a passphrase", typing{{b: "half a passphrase\x04"}, {hang: true, pause: 60 * time.Millisecond}}}
				whole := entry{"at once", "half a passphrase", typing{{b: "half a passphrase\n"}}}
				for i, x := range []struct {
					script string
					es     []entry
				}{
					{"n", []entry{gone}}, {"n", []entry{part}}, {"n", []entry{pushed}}, {"c", []entry{gone}}, {"c", []entry{part}}, {"c", []entry{whole, gone}}, {"c", []entry{whole, part}}, {"c", []entry{whole, pushed}},
				} {
					ls, r := t.promptRun("ignore hangup", x.script, x.es)
					what := fmt.Sprintf("prompt %q, %s", x.script, describe(x.es))
					if len(ls) != 1 {
						t.Failf("%s: the prompt did not return: %v", what, r.cliResult)
					}
					if ls[0].Err == "" {
						t.Failf("%s: the prompt succeeded and returned %s", what, ls[0].Hex)
					}
					t.Obs("failures reported", 1)
					t.Eval("hangup", i)
				}
				// nothing is done without a passphrase
				d := t.Dir()
				k := t.RefKey(sub(d, "k"), []byte("half a passphrase"), 1)
				t.Write(sub(d, "m"), []byte("message"))
				pl, err := refSeal(refBoxPub(k.PubRec.Key), randBytes(t.Rng, 32), []byte("message"))
				t.must(err, "refSeal")
				t.Write(sub(d, "e"), encFile("c", pl, "\n"))
				for i, x := range []struct {
					args []string
					es   []entry
				}{
					{[]string{"-G", "-p", "new"}, []entry{gone}}, {[]string{"-G", "-p", "new"}, []entry{part}}, {[]string{"-G", "-p", "new"}, []entry{whole, gone}}, {[]string{"-G", "-p", "new"}, []entry{whole, part}}, {[]string{"-G", "-p", "new"}, []entry{whole, pushed}},
					{[]string{"-S", "-s", "k.sec", "-m", "m", "-x", "new"}, []entry{gone}}, {[]string{"-S", "-s", "k.sec", "-m", "m", "-x", "new"}, []entry{part}}, {[]string{"-S", "-s", "k.sec", "-m", "m", "-x", "new"}, []entry{pushed}},
					{[]string{"-D", "-s", "k.sec", "-c", "e", "-m", "new"}, []entry{gone}}, {[]string{"-D", "-s", "k.sec", "-c", "e", "-m", "new"}, []entry{part}}, {[]string{"-D", "-s", "k.sec", "-c", "e", "-m", "new"}, []entry{pushed}},
				} {
					r := t.atTerminal(d, "ignore hangup", x.es, append([]string{t.cfg.CLI}, x.args...)...)
					what := fmt.Sprintf("psignify %s, %s", strings.Join(x.args, " "), describe(x.es))
					if r.Exit == 0 {
						t.Failf("%s: exit status 0", what)
					}
					for _, f := range []string{"new", "new.sec", "new.pub"} {
						if b, err := os.ReadFile(sub(d, f)); err == nil && len(b) > 0 {
							t.Failf("%s: %s was written, %d bytes", what, f, len(b))
						}
						os.Remove(sub(d, f))
					}
					t.Obs("failures reported", 1)
					t.Obs("commands at the terminal", 1)
					t.Eval("hangup command", i)
				}
			}})
			// the command with peculiar typing
			for i := 0; i < cfg.pick(4, 20); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("command/%d", i), Ticks: 600, Fn: func(t *T) {
					l := lines[(i*5)%len(lines)]
					for j, e := range t.entries(l) {
						mode := []string{"", "raw", "cbreak"}[(i+j)%3]
						d := t.Dir()
						what := fmt.Sprintf("%.60q typed %s, terminal mode %q", l, e.how, mode)
						c := t.RefKey(sub(d, "c"), []byte(l), 1)
						msg := []byte("typed " + l)
						t.Write(sub(d, "m"), msg)
						r := t.atTerminal(d, mode, []entry{e}, t.cfg.CLI, "-S", "-s", "c.sec", "-m", "m", "-x", "s")
						if r.Exit != 0 {
							t.Failf("%s: signing failed: %v", what, r.cliResult)
						}
						t.checkSigFile(c, c.Sec, t.Read(sub(d, "s")), msg, what)
						t.unseen(r, []entry{e}, what)
						t.Obs("commands at the terminal", 1)
						if j%4 == i%4 {
							x := t.entries(l)
							es := []entry{e, x[t.Rng.Intn(len(x))]}
							r := t.atTerminal(d, mode, es, t.cfg.CLI, "-G", "-p", "k")
							if r.Exit != 0 {
								t.Failf("%s: key generation with %s failed: %v", what, describe(es), r.cliResult)
							}
							t.pairOK(sub(d, "k"), []byte(l), 42)
							t.unseen(r, es, what)
							t.Obs("commands at the terminal", 1)
						}
						t.Eval("command", l, j, mode)
						t.dropDirs()
					}
				}})
			}
			return cs
		},
	})
}
