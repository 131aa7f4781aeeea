package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/kisom/psignify/signify"
)

// content returns a message of class c.
func content(r *rand.Rand, class, n int) []byte {
	b := make([]byte, n)
	switch class % 8 {
	case 0:
		r.Read(b)
	case 1: // zeros
	case 2:
		for i := range b {
			b[i] = 0xff
		}
	case 3:
		for i := range b {
			b[i] = '\n'
		}
	case 4:
		s := "The quick brown fox jumps over the lazy dog.\r\n"
		for i := range b {
			b[i] = s[i%len(s)]
		}
	case 5:
		s := "untrusted comment: signify public key\nRWQG3NG/HVUh9dUmnWDxStYXUgK+FRB/M9UTdFPESCWeblGoX2yoJAF2\n"
		for i := range b {
			b[i] = s[i%len(s)]
		}
	case 6:
		for i := range b {
			b[i] = byte(i)
		}
	case 7: // sparse
		for i := 0; i < n/64+1 && n > 0; i++ {
			b[r.Intn(n)] = byte(1 + r.Intn(255))
		}
	}
	return b
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

// KeyPair is a generated key pair on disk with its reference view.
type KeyPair struct {
	Sec, Pub string
	Pass     []byte // nil: unprotected
	Rec      *secRec
	PubRec   *pubRec
	Clear    []byte // 64 bytes
}

// GenKey generates base.sec/base.pub with the code under test.
func (t *T) GenKey(base string, pass []byte, rounds int) *KeyPair {
	var opts *signify.GenerateOptions
	if rounds > 0 {
		opts = &signify.GenerateOptions{Rounds: rounds}
	}
	if err := signify.GenerateKey(base, append([]byte(nil), pass...), opts); err != nil {
		t.Failf("GenerateKey(%q, %d-byte passphrase, rounds %d) failed: %v", base, len(pass), rounds, err)
	}
	return t.LoadPair(base, pass)
}

// LoadPair parses base.sec/base.pub with the reference implementation.
func (t *T) LoadPair(base string, pass []byte) *KeyPair {
	k := &KeyPair{Sec: base + ".sec", Pub: base + ".pub", Pass: pass}
	_, rec, err := strictDataFile(t.Read(k.Sec))
	if err == nil {
		k.Rec, err = parseSec(rec)
	}
	if err != nil {
		t.Failf("generated secret key file is malformed: %v", err)
	}
	_, rec, err = strictDataFile(t.Read(k.Pub))
	if err == nil {
		k.PubRec, err = parsePub(rec)
	}
	if err != nil {
		t.Failf("generated public key file is malformed: %v", err)
	}
	k.Clear, err = k.Rec.clear(pass)
	if err != nil {
		t.Failf("cannot unmask generated key: %v", err)
	}
	return k
}

// RefKey writes a key pair built by the reference implementation.
func (t *T) RefKey(base string, pass []byte, rounds uint32) *KeyPair {
	s, priv := newSec(randBytes(t.Rng, 32), randBytes(t.Rng, 16), randBytes(t.Rng, 8), rounds, pass)
	p := &pubRec{"Ed", s.KeyNum, priv[32:]}
	k := &KeyPair{Sec: base + ".sec", Pub: base + ".pub", Rec: s, PubRec: p, Clear: priv}
	if rounds > 0 {
		k.Pass = pass
	}
	t.Write(k.Sec, dataFile("signify secret key", s.encode()))
	t.Write(k.Pub, dataFile("signify public key", p.encode()))
	return k
}

// Use arms the prompt for key k.
func (t *T) Use(k *KeyPair) {
	if k.Pass == nil {
		t.NoPass()
	} else {
		t.Pass(k.Pass)
	}
}

// ---- command line ----

type cliResult struct {
	Exit   int
	Signal string
	Stdout string
	Stderr string
	TTY    string
	// the terminal's settings before and after
	Term, TermAfter string
	HungUp          bool // by the harness, as it had no more answers
}

func (r cliResult) String() string {
	return fmt.Sprintf("exit=%d signal=%q stdout=%q stderr=%q tty=%q", r.Exit, r.Signal, r.Stdout, r.Stderr, r.TTY)
}

func (r cliResult) OKLine() bool {
	for _, l := range strings.Split(r.Stdout, "\n") {
		if strings.HasSuffix(strings.TrimRight(l, "\r"), ": OK") {
			return true
		}
	}
	return false
}

type cliOpts struct {
	Dir     string
	Umask   int // -1: inherit
	Uid     int // 0: keep
	Env     []string
	Answers []string // prompt answers typed on a pty
	NoTTY   bool     // with Answers nil: stdin is /dev/null
	Wrap    []string // e.g. strace ...
	Ticks   int
	Pre     string // shell commands run before, e.g. ulimit
	Stdout  *os.File
}

// CLI runs the command under test.
func (t *T) CLI(o cliOpts, args ...string) cliResult {
	if t.cfg.CLI == "" {
		t.Inconclusivef("no command binary")
	}
	return t.Run(o, append([]string{t.cfg.CLI}, args...))
}

// opSpec is one library operation for a process of its own.
type opSpec struct {
	Op     string
	A      []string
	Pass   string `json:",omitempty"` // hex
	Rounds int    `json:",omitempty"`
}

// Op runs one library operation in a process of its own.
func (t *T) Op(o cliOpts, sp opSpec) cliResult {
	self, err := os.Executable()
	t.must(err, "executable")
	return t.runOp(self, o, sp)
}

func (t *T) runOp(bin string, o cliOpts, sp opSpec) cliResult {
	js, err := json.Marshal(sp)
	t.must(err, "marshal")
	return t.Run(o, []string{bin, "op", string(js)})
}

// Run runs a command line.
func (t *T) Run(o cliOpts, args []string) cliResult {
	cpu := 200
	if o.Ticks > cpu {
		cpu = 2 * o.Ticks
	}
	pre := fmt.Sprintf("ulimit -c 0; ulimit -t %d;", cpu)
	if o.Umask >= 0 {
		pre += fmt.Sprintf("umask %04o;", o.Umask)
	}
	argv := []string{"-c", pre + ` exec "$@"`, "sh"}
	if o.Pre != "" {
		argv[1] = pre + o.Pre + `; exec "$@"`
	}
	argv = append(argv, o.Wrap...)
	argv = append(argv, args...)
	cmd := exec.Command("/bin/sh", argv...)
	cmd.Dir = o.Dir
	if cmd.Dir == "" {
		cmd.Dir = t.dir
	}
	cmd.Env = append([]string{"PATH=/usr/local/bin:/usr/bin:/bin", "LC_ALL=C", "GOTRACEBACK=all"}, o.Env...)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if o.Stdout != nil {
		cmd.Stdout = o.Stdout
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true}
	if o.Uid != 0 {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: uint32(o.Uid), Gid: uint32(o.Uid)}
	}
	var master *os.File
	var tty bytes.Buffer
	var term string
	ttyDone := make(chan bool, 1)
	if o.Answers != nil {
		var slave *os.File
		var err error
		master, slave, err = openPTY()
		t.must(err, "open pty")
		cmd.Stdin = slave
		// Prompts go to stdout: they are part of the dialogue, so put it on the tty too.
		cmd.Stdout = slave
		cmd.SysProcAttr.Setctty = true
		cmd.SysProcAttr.Ctty = 0
		term = termSettings(master) // before the command can change them
		if err := cmd.Start(); err != nil {
			slave.Close()
			master.Close()
			t.must(err, "start command")
		}
		slave.Close()
		go ptyDialogue(master, o.Answers, &tty, ttyDone)
	} else {
		if err := cmd.Start(); err != nil {
			t.must(err, "start command")
		}
	}
	ch := make(chan error, 1)
	go func() { ch <- cmd.Wait() }()
	ticks := o.Ticks
	if ticks == 0 {
		ticks = 200
	}
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	for n := 0; ; {
		select {
		case <-ch:
			goto ended
		case <-tick.C:
			n++
			if n > ticks {
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-ch
				t.FailKey(t.name+" hang", "command %q did not terminate within %d watchdog ticks", args, ticks)
			}
		}
	}
ended:
	r := cliResult{Exit: cmd.ProcessState.ExitCode(), Stdout: so.String(), Stderr: se.String()}
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		r.Signal = ws.Signal().String()
	}
	if master != nil {
		r.HungUp = <-ttyDone
		r.Term, r.TermAfter = term, termSettings(master)
		master.Close()
		r.TTY = tty.String()
		r.Stdout = r.TTY
	}
	return r
}

func openPTY() (master, slave *os.File, err error) {
	fd, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return nil, nil, err
	}
	var n uint32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); e != 0 {
		syscall.Close(fd)
		return nil, nil, e
	}
	var unlock int32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&unlock))); e != 0 {
		syscall.Close(fd)
		return nil, nil, e
	}
	slave, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		syscall.Close(fd)
		return nil, nil, err
	}
	return os.NewFile(uintptr(fd), "ptmx"), slave, nil
}

// echoOff tells whether the terminal has echo disabled, i.e. the program is
// really in its no-echo read.
func echoOff(f *os.File) bool {
	var tio syscall.Termios
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), syscall.TCGETS, uintptr(unsafe.Pointer(&tio))); e != 0 {
		return false
	}
	return tio.Lflag&syscall.ECHO == 0
}

// termSettings describes the modes of the terminal, "" if they cannot be had.
func termSettings(f *os.File) string {
	var tio syscall.Termios
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), syscall.TCGETS, uintptr(unsafe.Pointer(&tio))); e != 0 {
		return ""
	}
	return fmt.Sprintf("iflag=%#x oflag=%#x cflag=%#x lflag=%#x cc=%x", tio.Iflag, tio.Oflag, tio.Cflag, tio.Lflag, tio.Cc)
}

// ptyDialogue answers each "assword: " prompt, with the no-echo mode on when
// it types if the program ever turns it on. At the end it tells whether it has
// hung up.
func ptyDialogue(m *os.File, answers []string, out *bytes.Buffer, done chan bool) {
	buf := make([]byte, 4096)
	answered := 0
	for {
		n, err := m.Read(buf)
		out.Write(buf[:n])
		for strings.Count(strings.ToLower(out.String()), "assword: ") > answered && answered < len(answers) {
			for i := 0; i < 400 && !echoOff(m); i++ {
				time.Sleep(5 * time.Millisecond)
			}
			m.WriteString(answers[answered] + "\n")
			answered++
		}
		if err == nil && strings.Count(strings.ToLower(out.String()), "assword: ") > len(answers) {
			m.Close() // nothing more to say: hang up
			done <- true
			return
		}
		if err != nil {
			done <- false
			return
		}
	}
}

// ---- misc ----

var errTooMany = errors.New("too many")

func isPrefix(p, full []byte) bool {
	return len(p) <= len(full) && bytes.Equal(p, full[:len(p)])
}

func flip(b []byte, bit int) []byte {
	c := append([]byte(nil), b...)
	c[bit/8] ^= 1 << uint(bit%8)
	return c
}

func firstDiff(a, b []byte) string {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("lengths %d/%d, first difference at offset %d", len(a), len(b), i)
		}
	}
	return fmt.Sprintf("lengths %d/%d, common prefix equal", len(a), len(b))
}

func mkfifo(path string) error { return syscall.Mkfifo(path, 0644) }

func sub(dir string, parts ...string) string {
	return filepath.Join(append([]string{dir}, parts...)...)
}

// dropDirs removes the case's directories so far, to keep long cases small.
func (t *T) dropDirs() {
	es, _ := os.ReadDir(t.dir)
	for _, e := range es {
		os.RemoveAll(filepath.Join(t.dir, e.Name()))
	}
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// limitFsize runs f while no file may grow beyond n bytes.
func limitFsize(t *T, n uint64, f func()) {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	t.must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old), "getrlimit")
	t.must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: old.Max}), "setrlimit")
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	f()
}

func contains(b []byte, s string) bool { return bytes.Contains(b, []byte(s)) }
