package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"

	"github.com/kisom/psignify/signify"
	"golang.org/x/crypto/nacl/secretbox"
)

// Functions inside the crypto package, where they (still) exist: see check.sh.
var (
	innerSeal      func(*signify.Public, io.Reader, int, io.Writer) error
	innerOpen      func(*signify.Private, io.Reader, io.Writer) error
	incrementNonce func(*[24]byte) error
)

// counterCases follow the chunk counter to where no message of a test's size
// gets: past 2^24, 2^32, ... chunks.
func counterCases(cfg *Config) []Case {
	var cs []Case
	cs = append(cs, Case{Name: "counter/steps", Fn: func(t *T) {
		if incrementNonce == nil {
			t.Obs("no nonce function to observe", 1)
			return
		}
		check := func(n uint64) {
			if n == 1<<64-1 {
				return // no such next chunk
			}
			x := *refNonce(n)
			err := incrementNonce(&x)
			if err != nil {
				t.Failf("after chunk %d the nonce can't be stepped: %v", n, err)
			}
			if x != *refNonce(n + 1) {
				t.Failf("after the nonce of chunk %d, %x, comes %x, not that of chunk %d", n, *refNonce(n), x, n+1)
			}
			t.Obs("nonce steps checked", 1)
		}
		for e := uint(8); e < 64; e++ {
			for _, d := range []uint64{0, 1, 2, 3, 254, 255, 256, 257} {
				check(1<<e + d)
				check(1<<e - 1 - d)
				if d > 0 {
					check(-(uint64(1) << e) - d)
				}
			}
		}
		for i := 0; i < 200000; i++ {
			n := t.Rng.Uint64() >> uint(t.Rng.Intn(64))
			if t.Rng.Intn(2) == 0 {
				n |= 1<<uint(t.Rng.Intn(60)) - 1
			}
			check(n)
		}
		// one walk, as a message does it
		x := [24]byte{}
		for n := uint64(0); n < 1<<20+3; n++ {
			if x != *refNonce(n) {
				t.Failf("the nonce of chunk %d is %x", n, x)
			}
			if err := incrementNonce(&x); err != nil {
				t.Failf("after chunk %d the nonce can't be stepped: %v", n, err)
			}
		}
		t.Eval("counter", "steps")
		t.Sample("single steps up to 2^64-1, and a walk of 2^20 steps")
	}})
	if !cfg.Thorough || cfg.Prop != "C10" {
		return cs
	}
	for _, chunks := range []int64{1<<24 + 3} {
		chunks := chunks
		cs = append(cs, Case{Name: fmt.Sprintf("counter/stream/%d", chunks), Ticks: 6000, Fn: func(t *T) {
			if innerSeal == nil || innerOpen == nil {
				t.Obs("no inner functions to observe", 1)
				return
			}
			priv, pub, err := signify.GenerateKeypair(nil, nil)
			t.must(err, "key")
			boxpriv, err := priv.ToBox()
			t.must(err, "convert")
			length := (chunks-1)*refChunk + 77
			pr, pw := io.Pipe()
			tap := &boxTap{t: t, priv: boxpriv[:], chunks: uint64(chunks), length: length, w: pw}
			done := make(chan error, 1)
			go func() {
				err := innerSeal(pub, io.LimitReader(&countingZeros{}, length), int(length), tap)
				pw.CloseWithError(errOr(err, io.EOF))
				done <- err
			}()
			sink := &countingZeros{}
			oerr := innerOpen(priv, pr, sink)
			pr.Close()
			serr := <-done
			if tap.bad != "" {
				t.Failf("%s", tap.bad)
			}
			if serr != nil {
				t.Failf("sealing %d chunks: %v", chunks, serr)
			}
			if oerr != nil {
				t.Failf("opening %d chunks: %v", chunks, oerr)
			}
			if sink.bad != "" || sink.n != uint64(length) {
				t.Failf("%d chunks: %d bytes of %d came out %s", chunks, sink.n, length, sink.bad)
			}
			if tap.n != uint64(chunks) {
				t.Failf("%d boxes for %d chunks", tap.n, chunks)
			}
			t.Obs("boxes of endless messages checked", int64(tap.checked))
			t.Obs("chunks streamed", chunks)
			t.Eval("counter", chunks)
		}})
	}
	return cs
}

func errOr(err, other error) error {
	if err != nil {
		return err
	}
	return other
}

// countingZeros is a source, or a judge, of zeros with the number of each
// 4096-byte block at its beginning.
type countingZeros struct {
	n   uint64
	bad string
}

func (c *countingZeros) Read(p []byte) (int, error) {
	for i := 0; i < len(p); {
		blk, off := c.n/4096, int(c.n%4096)
		k := 4096 - off
		if k > len(p)-i {
			k = len(p) - i
		}
		q := p[i : i+k]
		for j := range q {
			q[j] = 0
		}
		var num [8]byte
		binary.BigEndian.PutUint64(num[:], blk)
		if off < 8 {
			copy(q, num[off:])
		}
		i += k
		c.n += uint64(k)
	}
	return len(p), nil
}

func (c *countingZeros) Write(p []byte) (int, error) {
	want := make([]byte, len(p))
	at := c.n
	(&countingZeros{n: at}).Read(want)
	c.n += uint64(len(p))
	if c.bad == "" && !bytes.Equal(p, want) {
		c.bad = fmt.Sprintf("and those after byte %d are wrong", at)
	}
	return len(p), nil
}

// boxTap looks at the boxes that pass.
type boxTap struct {
	t          *T
	priv       []byte
	chunks     uint64
	length     int64
	w          io.Writer
	buf        []byte
	key        [32]byte
	head       bool
	n, checked uint64
	bad        string
}

func (b *boxTap) Write(p []byte) (int, error) {
	if b.bad != "" {
		return 0, errors.New("already refused")
	}
	b.buf = append(b.buf, p...)
	if !b.head && len(b.buf) >= refHeader {
		h := b.buf[:refHeader]
		key, err := boxShared(b.priv, h[8:40])
		if err != nil || binary.BigEndian.Uint64(h) != b.chunks {
			b.bad = fmt.Sprintf("header %x for %d chunks (%v)", h, b.chunks, err)
			return 0, errors.New(b.bad)
		}
		b.key, b.head = key, true
		b.buf = b.buf[refHeader:]
	}
	for b.head && (len(b.buf) >= refBox || b.n == b.chunks-1 && int64(len(b.buf)) == b.length-int64(b.n)*refChunk+16) {
		box := b.buf[:min(refBox, len(b.buf))]
		low := b.n & 0xffff
		if low < 4 || low > 0xfffc || b.n%997 == 0 {
			if _, ok := secretbox.Open(nil, box, refNonce(b.n), &b.key); !ok {
				b.bad = fmt.Sprintf("box %d is not made with nonce %d", b.n, b.n)
				return 0, errors.New(b.bad)
			}
			b.checked++
		}
		b.n++
		b.buf = b.buf[len(box):]
	}
	if len(b.buf) == 0 {
		b.buf = b.buf[:0:cap(b.buf)]
	}
	n, err := b.w.Write(p)
	return n, err
}
