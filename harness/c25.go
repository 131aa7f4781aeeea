package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
)

// The kinds of files an input may be.
var inKinds = []string{"file", "link", "chain of links", "link with a relative path", "below a linked directory", "fifo", "fifo in pieces", "fifo byte by byte", "fifo with a late writer", "link to a fifo", "descriptor of a pipe", "descriptor of a file", "device", "empty device"}

// The kinds of files an output may be.
var outKinds = []string{"new", "longer file", "shorter file", "same file again", "file with another name", "link", "chain of links", "link with a relative path", "dangling link", "dangling relative link", "below a linked directory", "fifo", "fifo with a late reader", "fifo with a slow reader", "link to a fifo", "descriptor of a pipe", "device"}

// plumbing is the set of files of one operation and of those who feed and
// drain its pipes.
type plumbing struct {
	t     *T
	d     string
	wg    sync.WaitGroup
	fifos []string
	open  []*os.File
	ptys  []*os.File
	n     int
}

func newPlumbing(t *T) *plumbing {
	p := &plumbing{t: t, d: t.Dir()}
	for _, s := range []string{"a", "b", "real"} {
		t.must(os.Mkdir(sub(p.d, s), 0755), "mkdir")
	}
	t.must(os.Symlink("real", sub(p.d, "linked")), "symlink")
	return p
}

func (p *plumbing) name(dir string) string {
	p.n++
	return sub(p.d, dir, fmt.Sprintf("f%d", p.n))
}

func (p *plumbing) symlink(target, path string) string {
	p.t.must(os.Symlink(target, path), "symlink")
	return path
}

// feed writes data into a FIFO once somebody opens it.
func (p *plumbing) feed(path string, data []byte, pieces int, late time.Duration) {
	p.fifos = append(p.fifos, path)
	var cuts []int
	for i := 0; pieces > 0 && i < len(data); {
		n := 1
		if pieces > 1 {
			n = 1 + p.t.Rng.Intn(pieces)
		}
		cuts = append(cuts, n)
		i += n
	}
	pauses := map[int]bool{}
	for i := 0; i < 4 && len(cuts) > 0; i++ {
		pauses[p.t.Rng.Intn(len(cuts))] = true
	}
	p.wg.Add(1)
	go func() {
		defer p.wg.Done()
		time.Sleep(late)
		f, err := os.OpenFile(path, os.O_WRONLY, 0)
		if err != nil {
			return
		}
		defer f.Close()
		time.Sleep(late)
		if pieces == 0 {
			f.Write(data)
			return
		}
		for i, n := range cuts {
			if n > len(data) {
				n = len(data)
			}
			if _, err := f.Write(data[:n]); err != nil {
				return
			}
			data = data[n:]
			if pauses[i] {
				time.Sleep(3 * time.Millisecond)
			}
		}
	}()
}

// drain reads what is written into a FIFO.
func (p *plumbing) drain(path string, late, slow time.Duration, got *bytes.Buffer) {
	p.fifos = append(p.fifos, path)
	p.wg.Add(1)
	go func() {
		defer p.wg.Done()
		time.Sleep(late)
		f, err := os.OpenFile(path, os.O_RDONLY, 0)
		if err != nil {
			return
		}
		defer f.Close()
		if slow == 0 {
			io.Copy(got, f)
			return
		}
		buf := make([]byte, 777)
		for i := 0; ; i++ {
			n, err := f.Read(buf)
			got.Write(buf[:n])
			if err != nil {
				return
			}
			if i < 10 {
				time.Sleep(slow)
			}
		}
	}()
}

// settle ends those who still wait for somebody at the other end.
func (p *plumbing) settle() {
	for _, f := range p.open {
		f.Close()
	}
	for _, m := range p.ptys {
		defer m.Close()
		m.SetReadDeadline(time.Now().Add(20 * time.Second))
	}
	done := make(chan bool)
	go func() { p.wg.Wait(); close(done) }()
	// whoever is busy gets the time to finish
	select {
	case <-done:
		return
	case <-time.After(300 * time.Millisecond):
	}
	for {
		for _, f := range p.fifos {
			if r, err := os.OpenFile(f, os.O_RDWR|syscall.O_NONBLOCK, 0); err == nil {
				r.Close()
			}
		}
		select {
		case <-done:
			return
		case <-time.After(20 * time.Millisecond):
		}
	}
}

// input makes a file of the kind with the content given.
func (p *plumbing) input(kind string, data []byte) string {
	t := p.t
	t.Obs("inputs: "+kind, 1)
	f := p.name("a")
	fifo := func() string {
		t.must(mkfifo(f), "mkfifo")
		return f
	}
	switch kind {
	case "link":
		return p.symlink(t.Write(f, data), p.name("b"))
	case "chain of links":
		l := p.symlink(t.Write(f, data), p.name("b"))
		l = p.symlink("../b/"+filepath.Base(l), p.name("a"))
		return p.symlink(l, p.name("b"))
	case "link with a relative path":
		return p.symlink("../a/"+filepath.Base(t.Write(f, data)), p.name("b"))
	case "below a linked directory":
		f = p.name("real")
		t.Write(f, data)
		return sub(p.d, "linked", filepath.Base(f))
	case "fifo":
		p.feed(fifo(), data, 0, 0)
	case "fifo in pieces":
		p.feed(fifo(), data, 1+t.Rng.Intn(5000), 0)
	case "fifo byte by byte":
		p.feed(fifo(), data, 1, 0)
	case "fifo with a late writer":
		p.feed(fifo(), data, t.Rng.Intn(2)*3000, 15*time.Millisecond)
	case "link to a fifo":
		p.feed(fifo(), data, 0, 0)
		return p.symlink(f, p.name("b"))
	case "descriptor of a pipe":
		r, w, err := os.Pipe()
		t.must(err, "pipe")
		p.wg.Add(1)
		go func() {
			defer p.wg.Done()
			defer w.Close()
			w.Write(data)
		}()
		p.open = append(p.open, r)
		return fmt.Sprintf("/proc/self/fd/%d", r.Fd())
	case "descriptor of a file":
		t.Write(f, data)
		r, err := os.Open(f)
		t.must(err, "open")
		p.open = append(p.open, r)
		return fmt.Sprintf("/dev/fd/%d", r.Fd())
	case "device":
		// lines, and as many ends of file as anybody may want to see
		master, slave := p.terminal(true)
		data = append(append([]byte(nil), data...), bytes.Repeat([]byte{4}, 64)...)
		go master.Write(data) // until the other end is closed at the latest
		return slave
	case "empty device":
		master, slave := p.terminal(true)
		_, err := master.Write(bytes.Repeat([]byte{4}, 64)) // as many ends of file
		t.must(err, "write to a pty")
		return slave
	default:
		t.Write(f, data)
	}
	return f
}

// output is where a result goes and how to get hold of it.
type output struct {
	kind, path string
	links      map[string]string // which must stay
	target     string            // the file written, if a file
	other      string            // its other name
	mode       os.FileMode
	ino        uint64
	got        *bytes.Buffer // what came through the pipe or terminal
}

func inode(path string) uint64 {
	var st syscall.Stat_t
	if syscall.Stat(path, &st) != nil {
		return 0
	}
	return st.Ino
}

func (p *plumbing) output(kind string, usual []byte) *output {
	t := p.t
	t.Obs("outputs: "+kind, 1)
	o := &output{kind: kind, links: map[string]string{}}
	f := p.name("a")
	o.path = f
	old := func(b []byte) {
		t.Write(f, b)
		o.mode = []os.FileMode{0600, 0640, 0644, 0666, 0755, 0200, 0660}[t.Rng.Intn(7)]
		t.must(os.Chmod(f, o.mode), "chmod")
		o.ino = inode(f)
	}
	link := func(target string) {
		o.path = p.symlink(target, p.name("b"))
		o.links[o.path] = target
	}
	o.target = f
	switch kind {
	case "longer file":
		old(append(append([]byte(nil), usual...), content(t.Rng, 5, 1+t.Rng.Intn(40000))...))
	case "shorter file":
		old(content(t.Rng, 4, t.Rng.Intn(1+len(usual)/2)))
	case "same file again":
		old(append([]byte(nil), usual...))
	case "file with another name":
		old(content(t.Rng, 0, 300))
		o.other = p.name("b")
		t.must(os.Link(f, o.other), "link")
	case "link":
		old(content(t.Rng, 0, t.Rng.Intn(100000)))
		link(f)
	case "chain of links":
		old(content(t.Rng, 0, 20))
		link("../a/" + filepath.Base(f))
		link(o.path)
	case "link with a relative path":
		old(content(t.Rng, 0, 20))
		link("../a/" + filepath.Base(f))
	case "dangling link":
		link(f)
	case "dangling relative link":
		link("../a/" + filepath.Base(f))
	case "below a linked directory":
		o.target = p.name("real")
		o.path = sub(p.d, "linked", filepath.Base(o.target))
		o.links[sub(p.d, "linked")] = "real"
	case "fifo", "fifo with a late reader", "fifo with a slow reader", "link to a fifo":
		o.target = ""
		o.got = &bytes.Buffer{}
		t.must(mkfifo(f), "mkfifo")
		late, slow := time.Duration(0), time.Duration(0)
		if strings.Contains(kind, "late") {
			late = 15 * time.Millisecond
		}
		if strings.Contains(kind, "slow") {
			slow = 2 * time.Millisecond
		}
		if strings.Contains(kind, "link") {
			link(f)
		}
		p.drain(f, late, slow, o.got)
	case "descriptor of a pipe":
		o.target = ""
		o.got = &bytes.Buffer{}
		r, w, err := os.Pipe()
		t.must(err, "pipe")
		p.open = append(p.open, w)
		o.path = fmt.Sprintf("/proc/self/fd/%d", w.Fd())
		p.wg.Add(1)
		go func() {
			defer p.wg.Done()
			defer r.Close()
			io.Copy(o.got, r)
		}()
	case "device":
		o.target = ""
		o.got = &bytes.Buffer{}
		var master *os.File
		master, o.path = p.terminal(false)
		p.wg.Add(1)
		go func() {
			defer p.wg.Done()
			io.Copy(o.got, master) // ends when the slave is closed
		}()
	}
	return o
}

// terminal makes a character device of our own. Devices that belong to the
// system must not be at the mercy of the code under test.
func (p *plumbing) terminal(lines bool) (master *os.File, slave string) {
	t := p.t
	master, s, err := openPTY()
	t.must(err, "open pty")
	p.open = append(p.open, s)
	fd, err := syscall.Dup(int(master.Fd()))
	t.must(err, "dup")
	t.must(syscall.SetNonblock(fd, true), "nonblock")
	master.Close()
	master = os.NewFile(uintptr(fd), "pty") // with deadlines
	p.ptys = append(p.ptys, master)
	tio := syscall.Termios{Cflag: syscall.CS8 | syscall.CREAD}
	tio.Cc[syscall.VMIN] = 1
	if lines {
		tio.Lflag = syscall.ICANON
		tio.Cc[syscall.VEOF] = 4
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, s.Fd(), syscall.TCSETS, uintptr(unsafe.Pointer(&tio))); e != 0 {
		t.must(e, "set the terminal")
	}
	return master, s.Name()
}

// result looks at what became of the output once all is over.
func (o *output) result(t *T, what string) []byte {
	for l, target := range o.links {
		if got, err := os.Readlink(l); err != nil || got != target {
			t.Failf("%s: the link %s to %s is now %q (%v)", what, l, target, got, err)
		}
		t.Obs("links that stayed", 1)
	}
	if o.got != nil {
		return o.got.Bytes()
	}
	fi, err := os.Lstat(o.target)
	if err != nil {
		t.Failf("%s: no output: %v", what, err)
	}
	if !fi.Mode().IsRegular() {
		t.Failf("%s: the output is no regular file: %v", what, fi.Mode())
	}
	b := t.Read(o.target)
	if o.ino != 0 {
		if fi.Mode().Perm() != o.mode {
			t.Failf("%s: the mode of the output file was %v and is %v", what, o.mode, fi.Mode())
		}
		t.Obs("modes kept", 1)
	}
	if o.other != "" && (!bytes.Equal(t.Read(o.other), b) || inode(o.other) != inode(o.target)) {
		t.Failf("%s: the output file and its other name are different files now", what)
	}
	return b
}

// pick25 draws a kind; pipes and the rest alike.
func pick25(t *T, kinds []string) string { return kinds[t.Rng.Intn(len(kinds))] }

func msg25(t *T) []byte {
	n := []int{0, 1, 100, 5000, refChunk - 1, refChunk, refChunk + 1, 65535, 65536, 65537, 150000}[t.Rng.Intn(11)]
	return content(t.Rng, t.Rng.Intn(8), n)
}

// deviceLines makes the message one that a terminal in line mode can deliver:
// no line is too long, and the character for the end of file is missing.
func deviceLines(msg []byte) []byte {
	msg = bytes.Replace(msg, []byte{4}, []byte{5}, -1)
	for i := 999; i < len(msg); i += 1000 {
		msg[i] = '\n'
	}
	return msg
}

// one25 performs one operation through whatever files.
func one25(t *T, op string, i int, good bool) {
	k := t.RefKey(sub(t.Dir(), "k"), nil, 0)
	pub, sec := dataFile("p", k.PubRec.encode()), dataFile("s", k.Rec.encode())
	msg := msg25(t)
	p := newPlumbing(t)
	defer p.settle()
	// the i-th case surely has the i-th kind in one of the places
	kinds := []string{pick25(t, inKinds[:13]), pick25(t, inKinds), pick25(t, inKinds[:13])}
	okind := pick25(t, outKinds)
	switch places := 3; i % places {
	case 0:
		kinds[0] = inKinds[i/places%13]
	case 1:
		kinds[1] = inKinds[i/places%14]
	case 2:
		okind = outKinds[i/places%len(outKinds)]
		kinds[2] = inKinds[i/places%13]
	}
	if kinds[1] == "empty device" && op != "open" {
		msg = nil
	}
	if kinds[1] == "device" && op != "open" {
		msg = deviceLines(msg)
	}
	slow := false
	for _, k := range kinds {
		slow = slow || k == "fifo byte by byte"
	}
	if slow && len(msg) > 5000 && op == "open" {
		msg = msg[:5000]
	}
	sigrec := refSign(k, k.Clear, msg)
	var err error
	what := fmt.Sprintf("%s with key as %q, input as %q", op, kinds[0], kinds[1])
	switch op {
	case "sign":
		o := p.output(okind, dataFile("x", sigrec))
		what += fmt.Sprintf(", output as %q (%d bytes)", okind, len(msg))
		err = signify.Sign(p.input(kinds[0], sec), p.input(kinds[1], msg), o.path)
		p.settle()
		if err != nil {
			t.Failf("%s fails: %v", what, err)
		}
		b := o.result(t, what)
		_, rec, err := strictDataFile(b)
		if err != nil || !bytes.Equal(rec, sigrec) {
			t.Failf("%s: the output is not the signature (%v): %.200q", what, err, b)
		}
	case "verify":
		sig := dataFile("x", sigrec)
		switch bad := t.Rng.Intn(3); {
		case good:
		case bad == 0 && len(msg) > 0 && kinds[1] != "empty device":
			// only the last byte tells
			msg = append([]byte(nil), msg...)
			msg[len(msg)-1] ^= 1
			if kinds[1] == "device" && msg[len(msg)-1] == 4 {
				msg[len(msg)-1] = 'x'
			}
		case bad == 1 && kinds[1] != "empty device":
			msg = append(append([]byte(nil), msg...), 0)
		default:
			sig = dataFile("x", flip(sigrec, 8*len(sigrec)-9))
		}
		what += fmt.Sprintf(", signature as %q (%d bytes)", kinds[2], len(msg))
		err = signify.Verify(p.input(kinds[0], pub), p.input(kinds[1], msg), p.input(kinds[2], sig))
		p.settle()
		if (err == nil) != good {
			t.Failf("%s: the signature is good: %v; the result: %v", what, good, err)
		}
	case "seal":
		pl, rerr := refSeal(refBoxPub(k.PubRec.Key), randBytes(t.Rng, 32), msg)
		t.must(rerr, "refSeal")
		o := p.output(okind, encFile("x", pl, "\n"))
		what += fmt.Sprintf(", output as %q (%d bytes)", okind, len(msg))
		err = crypto.Seal(p.input(kinds[0], pub), p.input(kinds[1], msg), o.path)
		p.settle()
		if err != nil {
			t.Failf("%s fails: %v", what, err)
		}
		b := o.result(t, what)
		_, pl, err := strictEncFile(b)
		if err == nil {
			pl, err = refOpen(refBoxPriv(k.Clear[:32]), pl)
		}
		if err != nil || !bytes.Equal(pl, msg) {
			t.Failf("%s: the output does not decrypt to the message (%v): %s", what, err, firstDiff(pl, msg))
		}
	case "open":
		pl, rerr := refSeal(refBoxPub(k.PubRec.Key), randBytes(t.Rng, 32), msg)
		t.must(rerr, "refSeal")
		if !good {
			pl[len(pl)-1] ^= 1
		}
		if kinds[1] == "empty device" {
			kinds[1] = "fifo"
		}
		o := p.output(okind, msg)
		what += fmt.Sprintf(", output as %q (%d bytes)", okind, len(msg))
		err = crypto.Open(p.input(kinds[0], sec), p.input(kinds[1], encFile("x", pl, []string{"\n", "\r\n"}[t.Rng.Intn(2)])), o.path)
		p.settle()
		if (err == nil) != good {
			t.Failf("%s: the encrypted file is good: %v; the result: %v", what, good, err)
		}
		if good {
			if b := o.result(t, what); !bytes.Equal(b, msg) {
				t.Failf("%s: the output is not the message: %s", what, firstDiff(b, msg))
			}
		} else if o.target == "" || exists(o.target) {
			if b := o.result(t, what); o.ino == 0 && !isPrefix(b, msg) {
				t.Failf("%s: the damaged file yields something that is not of the message: %s", what, firstDiff(b, msg))
			}
		}
	}
	t.Obs("operations through other files", 1)
	t.Eval(op, good, kinds[0], kinds[1], kinds[2], okind, len(msg))
}

// leaving reads a bit of the output and goes away.
func leaving(t *T, op string, n int) {
	k := t.RefKey(sub(t.Dir(), "k"), nil, 0)
	msg := content(t.Rng, 0, 400000)
	d := t.Dir()
	t.Write(sub(d, "m"), msg)
	pl, err := refSeal(refBoxPub(k.PubRec.Key), randBytes(t.Rng, 32), msg)
	t.must(err, "refSeal")
	t.Write(sub(d, "c"), encFile("x", pl, "\n"))
	t.must(mkfifo(sub(d, "out")), "mkfifo")
	p := &plumbing{t: t, d: d, fifos: []string{sub(d, "out")}}
	p.wg.Add(1)
	go func() {
		defer p.wg.Done()
		f, err := os.Open(sub(d, "out"))
		if err != nil {
			return
		}
		io.ReadFull(f, make([]byte, n))
		f.Close()
	}()
	if op == "seal" {
		err = crypto.Seal(k.Pub, sub(d, "m"), sub(d, "out"))
	} else {
		err = crypto.Open(k.Sec, sub(d, "c"), sub(d, "out"))
	}
	p.settle()
	if err == nil {
		t.Failf("%s reports success, but the reader of its output went away after %d of many bytes", op, n)
	}
	t.Obs("readers that went away", 1)
	t.Eval("leaving", op, n)
}

func init() {
	register(&Prop{
		ID: "C25",
		Rule: "one evaluation = one operation whose key, input and output are each a regular file, a link, a pipe with a pace of its own or a device; its result is judged by the independent implementations of the formats, its links and modes by what they were before; " +
			"distinct by (operation, outcome, kinds of files, message length)",
		Min:         map[string]int64{"operations through other files": 250, "pairs of operations joined by a pipe": 15, "commands in pipelines": 30, "links that stayed": 40, "modes kept": 20, "readers that went away": 8},
		Assumptions: []string{"inputs of one operation are different files", "the reader of an output pipe reads to the end, unless the case is about one that does not"},
		Cases: func(cfg *Config) []Case {
			var cs []Case
			for _, op := range []string{"sign", "verify", "seal", "open"} {
				op := op
				for part := 0; part < 4; part++ {
					part := part
					cs = append(cs, Case{Name: fmt.Sprintf("files/%s/%d", op, part), Ticks: 300, Fn: func(t *T) {
						t.NoPass()
						for i := part; i < cfg.pick(312, 3000); i += 4 {
							good := (op != "verify" && op != "open") || i%8 < 6
							one25(t, op, i, good)
							t.dropDirs()
						}
					}})
				}
			}
			cs = append(cs, Case{Name: "leaving", Ticks: 60, Fn: func(t *T) {
				t.NoPass()
				for _, op := range []string{"seal", "open"} {
					for _, n := range []int{0, 1, 43, 44, 150, 16384, 100000} {
						leaving(t, op, n)
						t.dropDirs()
					}
				}
			}}, Case{Name: "joined", Ticks: 120, Fn: func(t *T) {
				// one operation's output is the other's input. The reading one
				// may leave when it has all it needs, before the last line
				// break has been written.
				left := func(err error) error {
					if err != nil && strings.Contains(err.Error(), "broken pipe") {
						t.Obs("readers that left when they had everything", 1)
						return nil
					}
					return err
				}
				t.NoPass()
				for i := 0; i < cfg.pick(40, 400); i++ {
					k := t.RefKey(sub(t.Dir(), "k"), nil, 0)
					msg := msg25(t)
					p := newPlumbing(t)
					f := p.name("a")
					t.must(mkfifo(f), "mkfifo")
					p.fifos = append(p.fifos, f)
					m := t.Write(p.name("a"), msg)
					var e1, e2 error
					first := make(chan bool)
					if i%2 == 0 {
						go func() { e1 = signify.Sign(k.Sec, m, f); close(first) }()
						if i%4 == 0 {
							time.Sleep(10 * time.Millisecond)
						}
						e2 = signify.Verify(k.Pub, m, f)
						<-first
						if left(e1) != nil || e2 != nil {
							t.Failf("signing into a pipe from which verifying reads: %v, %v", e1, e2)
						}
					} else {
						out := p.name("b")
						go func() { e1 = crypto.Seal(k.Pub, m, f); close(first) }()
						if i%4 == 1 {
							time.Sleep(10 * time.Millisecond)
						}
						e2 = crypto.Open(k.Sec, f, out)
						<-first
						if left(e1) != nil || e2 != nil || !bytes.Equal(t.Read(out), msg) {
							t.Failf("encrypting %d bytes into a pipe from which decrypting reads: %v, %v", len(msg), e1, e2)
						}
					}
					t.Obs("pairs of operations joined by a pipe", 1)
					t.Eval("joined", i)
					t.dropDirs()
				}
			}}, Case{Name: "commands", Ticks: 400, Fn: func(t *T) {
				run := func(e *cliEnv, sh string) {
					t.must(os.WriteFile(sub(e.d, "script"), []byte("P="+t.cfg.CLI+"\nsame() { cmp <(tail -n 1 $1) <(tail -n 1 $2); }\n"+sh+"\n"), 0755), "script")
					e.own()
					r := t.Run(cliOpts{Dir: e.d, Umask: 022, Uid: cliUid, Env: []string{"HOME=" + e.home, "USER=joe"}}, []string{"/bin/bash", "script"})
					if r.Exit != 0 || r.Stderr != "" {
						t.Failf("%q: %v", sh, r)
					}
					t.Obs("commands in pipelines", 1)
				}
				for i := 0; i < cfg.pick(5, 40); i++ {
					for v, sh := range []string{
						"cat m | $P -S -s k.sec -m /dev/stdin -x sig && same sig sig0",
						"$P -S -s k.sec -m m -x /dev/stdout | same - sig0",
						"cat m | $P -S -s k.sec -m /dev/stdin -x /dev/stdout | same - sig0",
						"$P -S -s k.sec -m m -x /dev/fd/3 3>sig && same sig sig0",
						"cat m | $P -V -p k.pub -m /dev/stdin -x sig0 | grep -qx '/dev/stdin: OK'",
						"cat sig0 | $P -V -p k.pub -m m -x /dev/stdin >nul",
						"cat k.pub | $P -V -p /dev/stdin -m m -x sig0 >nul",
						"$P -V -p <(cat k.pub) -m <(cat m) -x <(cat sig0) >nul",
						"if $P -V -p <(cat k.pub) -m <(cat m; echo) -x <(cat sig0) >nul 2>&1; then exit 3; fi",
						"if cat enc0 | $P -V -p k.pub -m m -x /dev/stdin >nul 2>&1; then exit 3; fi",
						"$P -S -s <(cat k.sec) -m <(cat m) -x sig && same sig sig0",
						"cat m | $P -E -p k.pub -m /dev/stdin -c /dev/fd/3 3>enc >nul && $P -D -s k.sec -c enc -m out >nul && cmp out m",
						"{ cat m | $P -E -p k.pub -m /dev/stdin -c /dev/fd/3 3>&1 >&2 | $P -D -s k.sec -c /dev/stdin -m /dev/fd/3 3>&1 >&2 | cmp - m; } 2>nul",
						"$P -D -s k.sec -c <(cat enc0) -m >(cat >out) >nul; for i in $(seq 300); do cmp -s out m && exit 0; sleep 0.2; done; exit 4",
						"mkfifo f; cat f >out & $P -D -s k.sec -c enc0 -m f >nul && wait && cmp out m",
						"mkfifo f; (sleep 0.05; cat f >out) & $P -D -s k.sec -c enc0 -m f >nul && wait && cmp out m",
						"mkfifo f; $P -E -p k.pub -m m -c f >nul 2>&1 & $P -D -s k.sec -c f -m out >nul && wait && cmp out m",
						"$P -E -p k.pub -m m -c /dev/zero | grep -qx 'm: OK'",
						"ln -s none l; $P -S -s k.sec -m m -x l && test -L l && same none sig0",
						"ln -s none l; $P -D -s k.sec -c enc0 -m l >nul && test -L l && cmp none m",
						"cp m old; chmod 200 old; $P -S -s k.sec -m m -x old && test $(stat -c %a old) = 200 && chmod 600 old && same old sig0",
						"cp enc0 old; chmod 200 old; $P -D -s k.sec -c enc0 -m old >nul && test $(stat -c %a old) = 200 && chmod 600 old && cmp old m",
						"cp enc0 old; chmod 200 old; $P -E -p k.pub -m m -c old >nul && test $(stat -c %a old) = 200 && chmod 600 old && $P -D -s k.sec -c old -m out >nul && cmp out m",
						"ln -s k.sec s; ln -s k.pub p; ln -s m n; $P -S -s s -m n && same n.sig sig0 && $P -V -p p -m n >nul",
						"mkdir dd; ln -s dd l; cp m dd/m; $P -E -p k.pub -m l/m >nul && test -f dd/m.enc && $P -D -s k.sec -c l/m.enc -m l/o >nul && cmp dd/o m",
						"cp m copy; ln copy hard; $P -D -s k.sec -c enc0 -m hard >nul && cmp copy m && test copy -ef hard",
						"$P -E -p k.pub -m /proc/self/cmdline -c enc >nul && $P -D -s k.sec -c enc -m out >nul && tr '\\0' ' ' <out | grep -q -- '-E -p k.pub -m /proc/self/cmdline -c enc'",
					} {
						e := newCliEnv(t)
						k := e.key("k", nil)
						msg := msg25(t)
						t.Write(sub(e.d, "m"), msg)
						t.Write(sub(e.d, "enc0"), e.sealed(k, msg))
						e.own()
						if r := e.run(nil, "-S", "-s", "k.sec", "-m", "m", "-x", "sig0"); r.Exit != 0 {
							t.Failf("signing fails: %v", r)
						}
						if _, rec, err := strictDataFile(t.Read(sub(e.d, "sig0"))); err != nil || !refVerify(k.PubRec.encode(), rec, msg) {
							t.Failf("signing a regular file yields no good signature: %v", err)
						}
						run(e, sh)
						t.Eval("pipeline", v, i)
						t.dropDirs()
					}
				}
			}})
			return cs
		},
	})
}
