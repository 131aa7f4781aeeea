package main

// Messages of many thousand chunks: sealed by the code under test in a
// process of its own and examined as a stream.

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"os/exec"
	"syscall"
	"time"

	"golang.org/x/crypto/nacl/secretbox"
)

// BigOp runs a library operation in the fast build of the harness, or in the
// ordinary one (then slowly) if the code under test has no fast build.
func (t *T) BigOp(sp opSpec) cliResult {
	o := cliOpts{Umask: 022, Ticks: 240}
	if t.cfg.Fast == "" {
		o.Ticks = 800
		return t.Op(o, sp)
	}
	t.Obs("operations of the fast build", 1)
	return t.runOp(t.cfg.Fast, o, sp)
}

// sparse writes a message of n bytes that is zero except for marked places.
func (t *T) sparse(path string, n int64, marks int) {
	f, err := os.Create(path)
	t.must(err, "create")
	defer f.Close()
	t.must(f.Truncate(n), "truncate")
	for i := 0; i < marks && n > 0; i++ {
		_, err := f.WriteAt([]byte{byte(1 + t.Rng.Intn(255))}, t.Rng.Int63n(n))
		t.must(err, "mark")
	}
}

func chunksOf(n int64) uint64 { return uint64((n + refChunk - 1) / refChunk) }

// bigBoxes reads an encrypted file as a stream and hands its header and its
// boxes to f.
func (t *T) bigBoxes(path string, what string, head func(h []byte), f func(i uint64, box []byte)) {
	in, err := os.Open(path)
	if err != nil {
		t.Failf("%s: no encrypted file: %v", what, err)
	}
	defer in.Close()
	br := bufio.NewReaderSize(in, 1<<20)
	if _, err := br.ReadString('\n'); err != nil {
		t.Failf("%s: no comment line: %v", what, err)
	}
	r := base64.NewDecoder(base64.StdEncoding, br)
	h := make([]byte, refHeader)
	if _, err := io.ReadFull(r, h); err != nil {
		t.Failf("%s: header: %v", what, err)
	}
	head(h)
	box := make([]byte, refBox)
	for i := uint64(0); ; i++ {
		n, err := io.ReadFull(r, box)
		if n > 0 {
			f(i, box[:n])
		}
		if err == io.EOF || err == io.ErrUnexpectedEOF {
			return
		} else if err != nil {
			t.Failf("%s: box %d: %v", what, i, err)
		}
	}
}

// checkBigSealed compares an encrypted file with the message it should hold.
func (t *T) checkBigSealed(k *KeyPair, enc, msg string, what string) {
	m, err := os.Open(msg)
	t.must(err, "open message")
	defer m.Close()
	fi, err := m.Stat()
	t.must(err, "stat")
	mr := bufio.NewReaderSize(m, 1<<20)
	want := chunksOf(fi.Size())
	var key [32]byte
	buf := make([]byte, refChunk)
	seen := uint64(0)
	t.bigBoxes(enc, what, func(h []byte) {
		if got := binary.BigEndian.Uint64(h); got != want {
			t.Failf("%s: header announces %d chunks for %d bytes, want %d", what, got, fi.Size(), want)
		}
		var err error
		key, err = boxShared(refBoxPriv(k.Clear), h[8:40])
		t.must(err, "shared key")
		if !bytes.Equal(refTag(key, h[:40]), h[40:]) {
			t.Failf("%s: header tag is wrong", what)
		}
	}, func(i uint64, box []byte) {
		n, _ := io.ReadFull(mr, buf)
		if n == 0 {
			t.Failf("%s: box %d beyond the message", what, i)
		}
		out, ok := secretbox.Open(nil, box, refNonce(i), &key)
		if !ok {
			t.Failf("%s: box %d of %d does not open under the nonce %d", what, i, want, i)
		}
		if !bytes.Equal(out, buf[:n]) {
			t.Failf("%s: box %d holds something else (%s)", what, i, firstDiff(out, buf[:n]))
		}
		seen++
	})
	if seen != want {
		t.Failf("%s: %d boxes for %d chunks", what, seen, want)
	}
	t.Obs("boxes of big messages checked", int64(seen))
}

// writeBigSealed writes the reference's encryption of a message file.
func (t *T) writeBigSealed(k *KeyPair, msg, enc string) {
	m, err := os.Open(msg)
	t.must(err, "open message")
	defer m.Close()
	fi, err := m.Stat()
	t.must(err, "stat")
	out, err := os.Create(enc)
	t.must(err, "create")
	defer out.Close()
	bw := bufio.NewWriterSize(out, 1<<20)
	bw.WriteString(commentLead + "made elsewhere\n")
	h, key, err := refHeaderFor(refBoxPub(k.PubRec.Key), randBytes(t.Rng, 32), chunksOf(fi.Size()))
	t.must(err, "header")
	w := newWrapWriter(bw)
	e := base64.NewEncoder(base64.StdEncoding, w)
	e.Write(h)
	mr := bufio.NewReaderSize(m, 1<<20)
	buf := make([]byte, refChunk)
	for i := uint64(0); ; i++ {
		n, _ := io.ReadFull(mr, buf)
		if n == 0 {
			break
		}
		_, err := e.Write(boxSeal(key, buf[:n], i))
		t.must(err, "write")
	}
	e.Close()
	if w.col > 0 {
		bw.WriteByte('\n')
	}
	t.must(bw.Flush(), "flush")
}

type wrapWriter struct {
	w   *bufio.Writer
	col int
}

func newWrapWriter(w *bufio.Writer) *wrapWriter { return &wrapWriter{w: w} }

func (l *wrapWriter) Write(p []byte) (int, error) {
	n := len(p)
	for len(p) > 0 {
		c := 72 - l.col
		if c > len(p) {
			c = len(p)
		}
		l.w.Write(p[:c])
		p, l.col = p[c:], l.col+c
		if l.col == 72 {
			l.col = 0
			l.w.WriteByte('\n')
		}
	}
	return n, nil
}

// sameFiles compares two files as streams.
func (t *T) sameFiles(a, b, what string) {
	fa, err := os.Open(a)
	if err != nil {
		t.Failf("%s: %v", what, err)
	}
	defer fa.Close()
	fb, err := os.Open(b)
	t.must(err, "open")
	defer fb.Close()
	ba, bb := make([]byte, 1<<20), make([]byte, 1<<20)
	for off := int64(0); ; off += 1 << 20 {
		na, _ := io.ReadFull(fa, ba)
		nb, _ := io.ReadFull(fb, bb)
		if !bytes.Equal(ba[:na], bb[:nb]) {
			t.Failf("%s: differs from offset %d on (%s)", what, off, firstDiff(ba[:na], bb[:nb]))
		}
		if na < len(ba) {
			return
		}
	}
}

// probeHuge starts sealing a sparse file of n bytes with the real code, looks
// at the beginning of what it writes and ends it.
func (t *T) probeHuge(cli string, k *KeyPair, n int64) {
	d := t.Dir()
	m, enc := sub(d, "huge"), sub(d, "out")
	t.sparse(m, n, 0)
	what := fmt.Sprintf("message of %d bytes", n)
	cmd := exec.Command("/bin/sh", "-c", `ulimit -f 16384; exec "$@"`, "sh", cli, "-E", "-p", k.Pub, "-m", m, "-c", enc)
	cmd.Dir = d
	cmd.Env = []string{"HOME=" + d}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true}
	var errOut bytes.Buffer
	cmd.Stderr = &errOut
	t.must(cmd.Start(), "start")
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	ended := false // by itself, before the output reached its limit
	need := int64(200 + 2*refBox*4/3)
	for i := 0; i < 300; i++ {
		select {
		case err := <-done:
			if fi, serr := os.Stat(enc); serr == nil && fi.Size() > need {
				done <- err
				i = 300
				break
			}
			ended = true
			if err != nil && !bytes.Contains(errOut.Bytes(), []byte("no space")) && !bytes.Contains(errOut.Bytes(), []byte("memory")) {
				t.Failf("%s: encrypting failed: %v %s", what, err, errOut.Bytes())
			}
			done <- err
			i = 300
		case <-time.After(20 * time.Millisecond):
			if fi, err := os.Stat(enc); err == nil && fi.Size() > need {
				i = 300
			}
		}
	}
	if !ended {
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
	}
	f, err := os.Open(enc)
	if err != nil {
		return // nothing to see yet
	}
	defer f.Close()
	b, _ := io.ReadAll(io.LimitReader(f, 4*need))
	i := bytes.IndexByte(b, '\n')
	if i < 0 {
		return
	}
	text := bytes.ReplaceAll(b[i+1:], []byte("\n"), nil)
	raw := make([]byte, base64.StdEncoding.DecodedLen(len(text)))
	dn, _ := base64.StdEncoding.Decode(raw, text[:len(text)/4*4])
	raw = raw[:dn]
	if len(raw) < refHeader {
		if ended {
			t.Failf("%s: encrypting ended after %d bytes of output", what, len(b))
		}
		return
	}
	if got := binary.BigEndian.Uint64(raw); got != chunksOf(n) {
		t.Failf("%s: header announces %d chunks, want %d", what, got, chunksOf(n))
	}
	key, err := boxShared(refBoxPriv(k.Clear), raw[8:40])
	t.must(err, "shared key")
	if len(raw) >= refHeader+refBox {
		out, ok := secretbox.Open(nil, raw[refHeader:refHeader+refBox], refNonce(0), &key)
		if !ok || !bytes.Equal(out, make([]byte, refChunk)) {
			t.Failf("%s: its first chunk is not sealed as such", what)
		}
	}
	if ended {
		t.Failf("%s: encrypting ended early, with %d bytes of output", what, len(b))
	}
	t.Obs("beginnings of huge messages checked", 1)
	t.Eval("huge", n)
	os.RemoveAll(d)
}

// prefixFile demands that a is a prefix of b.
func (t *T) prefixFile(a, b, what string) {
	fa, err := os.Open(a)
	if os.IsNotExist(err) {
		return
	}
	t.must(err, "open")
	defer fa.Close()
	fb, err := os.Open(b)
	t.must(err, "open")
	defer fb.Close()
	ba, bb := make([]byte, 1<<20), make([]byte, 1<<20)
	for off := int64(0); ; off += 1 << 20 {
		na, _ := io.ReadFull(fa, ba)
		nb, _ := io.ReadFull(fb, bb)
		if na > nb || !bytes.Equal(ba[:na], bb[:na]) {
			t.Failf("%s: the output is no prefix of the message from offset %d on", what, off)
		}
		if na < len(ba) {
			return
		}
	}
}

// swapBoxes exchanges two full boxes in the text of an encrypted file. It
// returns false if the file is not laid out in lines of 72 characters.
func (t *T) swapBoxes(path string, i, j int64) bool {
	f, err := os.OpenFile(path, os.O_RDWR, 0)
	t.must(err, "open")
	defer f.Close()
	head := make([]byte, 4096)
	n, _ := f.ReadAt(head, 0)
	start := int64(bytes.IndexByte(head[:n], '\n')) + 1
	if start < 1 || n < int(start)+73 || head[start+72] != '\n' {
		return false
	}
	const chars = refBox / 3 * 4
	span := func(k int64) (off int64, text []byte, ok bool) {
		c := int64(refHeader/3*4) + k*chars
		from, to := start+c+c/72, start+c+chars+(c+chars-1)/72
		text = make([]byte, to-from)
		_, err := f.ReadAt(text, from)
		return from, text, err == nil
	}
	oi, ti, ok1 := span(i)
	oj, tj, ok2 := span(j)
	if !ok1 || !ok2 {
		return false
	}
	a, b := bytes.ReplaceAll(ti, []byte("\n"), nil), bytes.ReplaceAll(tj, []byte("\n"), nil)
	if len(a) != chars || len(b) != chars {
		return false
	}
	fill := func(dst, src []byte) {
		q := 0
		for p := range dst {
			if dst[p] != '\n' {
				dst[p] = src[q]
				q++
			}
		}
	}
	fill(ti, b)
	fill(tj, a)
	_, err = f.WriteAt(ti, oi)
	t.must(err, "write")
	_, err = f.WriteAt(tj, oj)
	t.must(err, "write")
	return true
}
