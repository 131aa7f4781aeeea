package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/kisom/psignify/base64"
)

// flakyWriter fails at one call or one byte, for ever or just once.
type flakyWriter struct {
	t       *T
	buf     bytes.Buffer
	calls   int
	failAt  int // call number, -1: never
	failPos int // byte offset, -1: never
	once    bool
	full    bool // the failing call takes all bytes and still fails
	failed  bool
	bound   int
}

var errFlaky = errors.New("device failure 4711")

func (w *flakyWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.bound > 0 && w.calls > w.bound {
		w.t.Failf("endless loop: %d calls of the underlying writer", w.calls)
	}
	if w.failed && !w.once {
		return 0, errFlaky
	}
	if !w.failed && w.failAt >= 0 && w.calls > w.failAt {
		w.failed = true
		if w.full {
			w.buf.Write(p)
			return len(p), errFlaky
		}
		return 0, errFlaky
	}
	if !w.failed && w.failPos >= 0 && w.buf.Len()+len(p) > w.failPos {
		w.failed = true
		n := w.failPos - w.buf.Len()
		w.buf.Write(p[:n])
		return n, errFlaky
	}
	return w.buf.Write(p)
}

// encode feeds data in the given pieces and applies all oracles.
func (t *T) encode(data []byte, pieces []int, w *flakyWriter) {
	w.t = t
	w.bound = 20*len(data) + 4*len(pieces) + 1000
	e := base64.NewEncoder(w)
	t.Attach("data", data)
	t.Attach("pieces", []byte(fmt.Sprint(pieces)))
	rest := data
	scratch := make([]byte, 0, 64)
	reported := false
	for i, n := range pieces {
		scratch = append(scratch[:0], rest[:n]...)
		if n == 0 && i%2 == 0 {
			scratch = nil
		}
		got, err := e.Write(scratch)
		if !bytes.Equal(scratch, rest[:n]) {
			t.Failf("Write modified its argument")
		}
		for j := range scratch {
			scratch[j] = 0x5a // the caller may reuse the buffer
		}
		if got < 0 || got > n {
			t.Failf("Write of %d bytes returned count %d (piece %d of %v)", n, got, i, pieces)
		}
		if err == nil && got != n {
			t.Failf("Write of %d bytes reported %d without an error (piece %d of %v)", n, got, i, pieces)
		}
		if err != nil && !w.failed {
			t.Failf("Write failed although the underlying writer did not: %v", err)
		}
		t.Obs("writes checked", 1)
		if err != nil {
			reported = true
			break
		}
		rest = rest[n:]
	}
	if !reported {
		if err := e.Close(); err != nil {
			if !w.failed {
				t.Failf("Close failed although the underlying writer did not: %v", err)
			}
			reported = true
		}
	}
	if w.failed {
		if !reported {
			t.Failf("a failure of the underlying writer was not reported (data %d bytes, pieces %v, %d calls)", len(data), pieces, w.calls)
		}
		t.Obs("write failures reported", 1)
	} else {
		got, err := strictWrapped(w.buf.String())
		if err != nil {
			t.Failf("encoding %d bytes in pieces %v: %v; text %q", len(data), pieces, err, w.buf.String())
		}
		if !bytes.Equal(got, data) {
			t.Failf("encoding %d bytes in pieces %v gives text for something else: %s", len(data), pieces, firstDiff(got, data))
		}
		t.Obs("texts checked", 1)
	}
	t.Eval(data, fmt.Sprint(pieces), w.failAt, w.failPos, w.once, w.full)
}

func okWriter() *flakyWriter { return &flakyWriter{failAt: -1, failPos: -1} }

// partition cuts n into random pieces.
func (t *T) partition(n int) []int {
	var ps []int
	style := t.Rng.Intn(5)
	for left := n; left > 0; {
		var p int
		switch style {
		case 0:
			p = 1 + t.Rng.Intn(4)
		case 1:
			p = []int{53, 54, 55, 72, 71, 73, 3, 18}[t.Rng.Intn(8)]
		case 2:
			p = 1 + t.Rng.Intn(left)
		case 3:
			p = []int{1, 2, 3, 54, 108, 100, 16385, 16401}[t.Rng.Intn(8)]
		case 4:
			p = t.Rng.Intn(30)
		}
		if p > left {
			p = left
		}
		ps = append(ps, p)
		left -= p
	}
	if t.Rng.Intn(2) == 0 {
		ps = append(ps, 0)
	}
	if t.Rng.Intn(3) == 0 {
		ps = append([]int{0}, ps...)
	}
	return ps
}

func init() {
	register(&Prop{
		ID:   "C12",
		Rule: "one evaluation = one byte sequence encoded in one division into Write calls over one scripted underlying writer (never failing, failing at one call or one byte, for ever or once): text, line lengths, counts, argument preservation and error reporting are checked; all divisions up to 11 bytes, random ones to several lines, all failure positions; distinct by (data, division, fault)",
		Min:  map[string]int64{"texts checked": 7000, "writes checked": 40000, "write failures reported": 10000, "bytes in long texts": 50000000},
		Cases: func(cfg *Config) []Case {
			var cs []Case
			for n := 0; n <= cfg.pick(11, 14); n++ {
				n := n
				cs = append(cs, Case{Name: fmt.Sprintf("all/%d", n), Fn: func(t *T) {
					for m := 0; m < 1<<uint(max(n-1, 0)); m++ {
						var ps []int
						last := 0
						for i := 1; i < n; i++ {
							if m>>uint(i-1)&1 == 1 {
								ps = append(ps, i-last)
								last = i
							}
						}
						if n > 0 {
							ps = append(ps, n-last)
						}
						data := content(t.Rng, m, n)
						t.encode(data, ps, okWriter())
						var z []int
						for _, p := range ps {
							z = append(z, 0, p)
						}
						t.encode(data, append(z, 0), okWriter())
					}
					t.Sample("all divisions of %d bytes", n)
				}})
			}
			for i := 0; i < cfg.pick(120, 1000); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("lines/%d", i), Fn: func(t *T) {
					for j := 0; j < 250; j++ {
						n := t.Rng.Intn([]int{60, 170, 700, 3000}[t.Rng.Intn(4)])
						if j%3 == 0 {
							n = 54*(1+t.Rng.Intn(5)) + t.Rng.Intn(5) - 2
						}
						data := content(t.Rng, t.Rng.Intn(8), n)
						t.encode(data, t.partition(n), okWriter())
					}
				}})
				cs = append(cs, Case{Name: fmt.Sprintf("faults/%d", i), Fn: func(t *T) {
					n := []int{0, 1, 2, 3, 5, 53, 54, 55, 107, 108, 109, 163}[i%12]
					data := content(t.Rng, i, n)
					for rep := 0; rep < 2; rep++ {
						ps := t.partition(n)
						total := n*2 + 20
						for f := 0; f < total; f++ {
							for v := 0; v < 4; v++ {
								t.encode(data, ps, &flakyWriter{failAt: f, failPos: -1, once: v&1 == 1, full: v&2 == 2})
							}
							t.encode(data, ps, &flakyWriter{failAt: -1, failPos: f, once: f&1 == 1})
						}
					}
					t.Sample("%d bytes with the writer failing at every call and byte", n)
				}})
			}
			cs = append(cs, Case{Name: "sizes", Fn: func(t *T) {
				for n := 0; n < 500; n++ {
					data := content(t.Rng, n, n)
					t.encode(data, []int{n}, okWriter())
					ones := make([]int, n)
					for i := range ones {
						ones[i] = 1
					}
					t.encode(data, ones, okWriter())
				}
				for _, n := range []int{16385, 16401, 32768, 65536, 100000} {
					t.encode(content(t.Rng, 0, n), []int{n}, okWriter())
					t.encode(content(t.Rng, 0, n), t.partition(n), okWriter())
				}
			}})
			// texts of several megabytes
			for i, n := range []int{1<<20 - 1, 1 << 20, 54 * 65536, 3*(1<<20) + 1, 54*131072 + 7, 54*262144 + 55, 20000003, 33<<20 + 5} {
				i, n := i, n
				cs = append(cs, Case{Name: fmt.Sprintf("long/%d", n), Fn: func(t *T) {
					data := content(t.Rng, []int{0, 6}[i%2], n)
					w := okWriter()
					w.buf.Grow(n/2*3 + 1000)
					var ps []int
					for left := n; left > 0; {
						p := 1 + t.Rng.Intn(1<<uint(1+t.Rng.Intn(22)))
						if p > left {
							p = left
						}
						ps, left = append(ps, p), left-p
					}
					if i%3 == 0 {
						ps = []int{n}
					}
					t.encode(data, ps, w)
					t.Obs("bytes in long texts", int64(n))
				}})
			}
			cs = append(cs, Case{Name: "copy", Fn: func(t *T) {
				for n := 0; n < 300; n++ {
					data := content(t.Rng, n, n*7)
					w := okWriter()
					w.t = t
					e := base64.NewEncoder(w)
					var m int64
					var err error
					if n%2 == 0 {
						m, err = io.Copy(e, bytes.NewReader(data))
					} else {
						m, err = io.CopyBuffer(struct{ io.Writer }{e}, struct{ io.Reader }{bytes.NewReader(data)}, make([]byte, 1+n))
					}
					if err != nil || m != int64(len(data)) {
						t.Failf("io.Copy of %d bytes into the encoder: %d, %v", len(data), m, err)
					}
					if err := e.Close(); err != nil {
						t.Failf("Close: %v", err)
					}
					if got, err := strictWrapped(w.buf.String()); err != nil || !bytes.Equal(got, data) {
						t.Failf("io.Copy of %d bytes: wrong text (%v)", len(data), err)
					}
					t.Eval("copy", n, data)
				}
			}})
			cs = append(cs, Case{Name: "interleaved", Fn: func(t *T) {
				// several encoders at the same time do not share state
				for rep := 0; rep < 60; rep++ {
					const k = 4
					var data [k][]byte
					var pos [k]int
					var ws [k]*flakyWriter
					var es [k]io.WriteCloser
					for i := range data {
						data[i] = content(t.Rng, i+rep, 50+t.Rng.Intn(300))
						ws[i] = okWriter()
						ws[i].t = t
						es[i] = base64.NewEncoder(ws[i])
					}
					for open := k; open > 0; {
						i := t.Rng.Intn(k)
						if es[i] == nil {
							continue
						}
						n := t.Rng.Intn(20)
						if pos[i]+n > len(data[i]) {
							n = len(data[i]) - pos[i]
						}
						if m, err := es[i].Write(data[i][pos[i] : pos[i]+n]); m != n || err != nil {
							t.Failf("interleaved Write: %d of %d, %v", m, n, err)
						}
						pos[i] += n
						if pos[i] == len(data[i]) {
							if err := es[i].Close(); err != nil {
								t.Failf("Close: %v", err)
							}
							es[i] = nil
							open--
						}
					}
					for i := range data {
						if got, err := strictWrapped(ws[i].buf.String()); err != nil || !bytes.Equal(got, data[i]) {
							t.Failf("interleaved encoders: wrong text (%v)", err)
						}
						t.Eval("interleaved", data[i])
					}
				}
			}})
			return cs
		},
	})
}
