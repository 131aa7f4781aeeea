package main

import (
	"bytes"
	stdb64 "encoding/base64"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/kisom/psignify/base64"
)

// pacedReader delivers text in given fragments.
type pacedReader struct {
	t      *T
	text   []byte
	frags  []int // cyclic fragment sizes; 0 means an empty read
	i      int
	calls  int
	bound  int
	stall  int   // this many empty reads before every fragment
	idle   int   // empty reads so far
	tail   error // what ends the text
	joined bool  // tail comes together with the last data
}

func (r *pacedReader) Read(p []byte) (int, error) {
	r.calls++
	if r.calls > r.bound {
		r.t.Failf("endless loop: %d reads from the source", r.calls)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.text) == 0 {
		return 0, r.tail
	}
	if r.idle < r.stall {
		r.idle++
		return 0, nil
	}
	r.idle = 0
	n := r.frags[r.i%len(r.frags)]
	r.i++
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.text) {
		n = len(r.text)
	}
	copy(p, r.text[:n])
	r.text = r.text[n:]
	if len(r.text) == 0 && r.joined {
		return n, r.tail
	}
	return n, nil
}

var errSource = errors.New("source failure 0815")

type decodeRun struct {
	text   string
	want   []byte // bytes that may come out, in order
	ok     bool   // must deliver all of want and then io.EOF
	either bool   // may also be accepted (unspecified text)
	tail   error
	frags  []int
	bufs   []int
	joined bool
}

func (t *T) decode(r decodeRun) {
	if r.tail == nil {
		r.tail = io.EOF
	}
	if len(r.frags) == 0 {
		r.frags = []int{1 << 20}
	}
	src := &pacedReader{t: t, text: []byte(r.text), frags: r.frags, tail: r.tail, joined: r.joined, bound: 20*len(r.text) + 2000}
	t.Attach("text", []byte(r.text))
	t.Attach("fragments/buffers", []byte(fmt.Sprint(r.frags, r.bufs, r.joined, r.tail)))
	d := base64.NewDecoder(src)
	var got []byte
	var end error
	desc := fmt.Sprintf("text %.200q, fragments %v, buffers %v, joined=%v, tail=%v", r.text, r.frags, r.bufs, r.joined, r.tail)
	for i := 0; end == nil; i++ {
		if i > 3*len(r.text)+len(r.bufs)*4+200 {
			t.Failf("endless loop: no end after %d reads; %s", i, desc)
		}
		n := r.bufs[i%len(r.bufs)]
		back := make([]byte, n+8)
		for j := range back {
			back[j] = 0xc3
		}
		m, err := d.Read(back[:n:n])
		if m < 0 || m > n {
			t.Failf("Read into %d bytes returned %d; %s", n, m, desc)
		}
		for _, c := range back[n:] {
			if c != 0xc3 {
				t.Failf("Read wrote behind its buffer; %s", desc)
			}
		}
		got = append(got, back[:m]...)
		if !isPrefix(got, r.want) {
			t.Failf("Read returned wrong bytes after %d: %x; %s", len(got)-m, got, desc)
		}
		t.Obs("reads checked", 1)
		if n == 0 && err != nil && err != io.EOF && r.ok {
			t.Failf("empty Read failed: %v; %s", err, desc)
		}
		if n > 0 || err != nil {
			end = err
		}
		if n == 0 && err == io.EOF && len(got) < len(r.want) {
			t.Failf("empty Read returned EOF before the end; %s", desc)
		}
	}
	full := len(got) == len(r.want)
	switch {
	case r.ok:
		if end != io.EOF || !full {
			t.Failf("valid text: got %d of %d bytes, then %v; %s", len(got), len(r.want), end, desc)
		}
		t.Obs("valid texts decoded", 1)
		for i := 0; i < 2; i++ {
			if n, err := d.Read(make([]byte, 5)); n != 0 || err != io.EOF {
				t.Failf("Read after the end returned %d, %v; %s", n, err, desc)
			}
		}
	case r.tail != io.EOF:
		if end == io.EOF {
			t.Failf("source error became a clean end; %s", desc)
		}
		if !errors.Is(end, r.tail) && !strings.Contains(end.Error(), r.tail.Error()) {
			t.Failf("source error became %v; %s", end, desc)
		}
		t.Obs("source errors passed on", 1)
	case r.either:
		t.Obs("unspecified texts", 1)
	default:
		if end == io.EOF {
			t.Failf("invalid text ended in a clean EOF after %d bytes; %s", len(got), desc)
		}
		t.Obs("invalid texts refused", 1)
	}
	t.Eval(r.text, fmt.Sprint(r.frags, r.bufs, r.joined, r.tail))
}

// breakLines inserts line breaks into base64 text in some style.
func (t *T) breakLines(s string, style int) string {
	switch style % 8 {
	case 0:
		return s
	case 1:
		return wrapAt(s, 72, "\n")
	case 2:
		return wrapAt(s, 72, "\r\n")
	case 3:
		return wrapAt(s, 1+t.Rng.Intn(80), "\n")
	case 4:
		return wrapAt(s, 1+t.Rng.Intn(10), "\r\n")
	}
	var b strings.Builder
	p := 1 + t.Rng.Intn(12)
	for _, c := range []byte(s) {
		for t.Rng.Intn(p) == 0 {
			b.WriteString([]string{"\n", "\r\n"}[style&1])
			if p == 1 {
				break
			}
		}
		b.WriteByte(c)
	}
	for t.Rng.Intn(2) == 0 {
		b.WriteString("\n")
	}
	return b.String()
}

func (t *T) frags() []int {
	switch t.Rng.Intn(6) {
	case 0:
		return []int{1}
	case 1:
		return []int{1 << 20}
	case 2:
		return []int{1, 0, 2, 3}
	}
	n := 1 + t.Rng.Intn(6)
	f := make([]int, n)
	for i := range f {
		f[i] = t.Rng.Intn([]int{3, 8, 90}[t.Rng.Intn(3)])
	}
	f[0] = 1 + t.Rng.Intn(80)
	return f
}

func (t *T) bufs() []int {
	switch t.Rng.Intn(6) {
	case 0:
		return []int{1 + t.Rng.Intn(9)}
	case 1:
		return []int{72}
	case 2:
		return []int{1, 2, 3, 4, 5, 6, 7}
	case 3:
		return []int{16401, 100}
	}
	n := 1 + t.Rng.Intn(5)
	f := make([]int, n)
	for i := range f {
		f[i] = t.Rng.Intn(100)
	}
	f[0] = 1 + t.Rng.Intn(100)
	return f
}

func init() {
	register(&Prop{
		ID:          "C13",
		Rule:        "one evaluation = one text decoded with one sequence of buffer sizes from a source with one fragmentation and ending (EOF apart or with data, error): every Read is checked against the io.Reader contract and the true bytes, logical steps are bounded; all fragmentations of short texts, all truncations, bad characters at all positions; distinct by (text, fragmentation, buffers, ending)",
		Min:         map[string]int64{"valid texts decoded": 15000, "invalid texts refused": 8000, "source errors passed on": 3000, "reads checked": 100000, "stalling sources": 300, "bytes in long texts": 20000000},
		Assumptions: []string{"non-zero bits behind the last encoded byte (AB==) are unspecified"},
		Cases: func(cfg *Config) []Case {
			var cs []Case
			enc := stdb64.StdEncoding.EncodeToString
			for n := 0; n <= cfg.pick(6, 9); n++ {
				n := n
				cs = append(cs, Case{Name: fmt.Sprintf("all/%d", n), Fn: func(t *T) {
					data := content(t.Rng, 0, n)
					base := enc(data)
					for _, text := range []string{base, base + "\n", t.breakLines(base, 5)} {
						l := len(text)
						if l > 13 {
							l = 13
						}
						for m := 0; m < 1<<uint(max(l-1, 0)); m += 1 + len(text)/13*(1+m%3) {
							var fr []int
							last := 0
							for i := 1; i < len(text) && i < 14; i++ {
								if m>>uint(i-1)&1 == 1 {
									fr = append(fr, i-last)
									last = i
								}
							}
							fr = append(fr, len(text)-last+1)
							for _, b := range []int{1, 2, 3, 4, 7, 100} {
								t.decode(decodeRun{text: text, want: data, ok: true, frags: fr, bufs: []int{b}, joined: m%2 == 0})
							}
						}
					}
					t.Sample("all fragmentations of the text of %d bytes", n)
				}})
			}
			for i := 0; i < cfg.pick(160, 1500); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("valid/%d", i), Fn: func(t *T) {
					for j := 0; j < 300; j++ {
						n := t.Rng.Intn([]int{10, 60, 300, 3000}[t.Rng.Intn(4)])
						data := content(t.Rng, t.Rng.Intn(8), n)
						t.decode(decodeRun{text: t.breakLines(enc(data), t.Rng.Intn(8)), want: data, ok: true, frags: t.frags(), bufs: t.bufs(), joined: t.Rng.Intn(2) == 0})
					}
				}})
				cs = append(cs, Case{Name: fmt.Sprintf("invalid/%d", i), Fn: func(t *T) {
					for j := 0; j < 300; j++ {
						n := 1 + t.Rng.Intn([]int{6, 60, 300}[t.Rng.Intn(3)])
						data := content(t.Rng, []int{0, 4, 6}[j%3], n)
						s := enc(data)
						body := strings.TrimRight(s, "=")
						r := decodeRun{frags: t.frags(), bufs: t.bufs(), joined: t.Rng.Intn(2) == 0}
						known := func(k int) []byte { // bytes determined by the first k characters
							m := k * 6 / 8
							if m > len(data) {
								m = len(data)
							}
							return data[:m]
						}
						var bad string
						switch t.Rng.Intn(6) {
						case 0: // bad character
							p := t.Rng.Intn(len(s))
							c := "!-_ .\x00\x80\xff*@[{`,:\t\v\f"[t.Rng.Intn(18)]
							bad = s[:p] + string([]byte{c}) + s[p+1:]
							r.want = known(p)
						case 1: // cut short
							p := 1 + t.Rng.Intn(len(s)-1)
							if p%4 == 0 {
								p--
							}
							bad = s[:p]
							r.want = known(min(p, len(body)))
						case 2: // something after the padding
							if len(body) == len(s) {
								continue
							}
							bad = s + []string{"A", "AA", "AAAA", "=", "====", "AA==", "!", "AAA="}[t.Rng.Intn(8)]
							r.want = data
						case 3: // padding first in a group
							p := t.Rng.Intn(len(body)+1) / 4 * 4
							bad = s[:p] + []string{"====", "=AAA", "A===", "=", "AA=A", "A=AA"}[t.Rng.Intn(6)] + s[p:]
							if p > len(body) {
								continue
							}
							r.want = append(append([]byte(nil), data[:min(p/4*3, len(data))]...), 0, 0)[:min(p/4*3, len(data))]
							if strings.HasPrefix(bad[p:], "A") {
								// the start of that group may be delivered: AA -> one zero byte
								r.want = append(r.want, 0)
							}
						case 4: // padded group in the middle
							p := t.Rng.Intn(len(body)+1) / 4 * 4
							if p >= len(body) {
								continue
							}
							bad = s[:p] + []string{"AA==", "AAA="}[j%2] + s[p:]
							r.want = append(append([]byte(nil), data[:p/4*3]...), 0, 0)
						case 5: // padding missing
							if len(body) == len(s) {
								continue
							}
							bad = body
							if len(s)-len(body) == 2 && t.Rng.Intn(2) == 0 {
								bad += "="
							}
							r.want = data
						}
						r.text = t.breakLines(bad, t.Rng.Intn(8))
						t.decode(r)
					}
				}})
				cs = append(cs, Case{Name: fmt.Sprintf("errors/%d", i), Fn: func(t *T) {
					n := i * 5 % 37
					data := content(t.Rng, 0, n)
					text := t.breakLines(enc(data), i)
					body := strings.TrimRight(enc(data), "=")
					for cut := 0; cut <= len(text); cut++ {
						part := text[:cut]
						chars := len(strings.NewReplacer("\n", "", "\r", "", "=", "").Replace(part))
						_ = body
						want := data[:min(chars*6/8, n)]
						for v := 0; v < 4; v++ {
							t.decode(decodeRun{text: part, want: want, tail: []error{errSource, errSource, io.ErrUnexpectedEOF, io.ErrClosedPipe}[v], frags: t.frags(), bufs: t.bufs(), joined: v&1 == 0})
						}
					}
				}})
			}
			cs = append(cs, Case{Name: "positions", Fn: func(t *T) {
				data := content(t.Rng, 0, 60)
				s := enc(data)
				for c := 0; c < 256; c++ {
					if strings.IndexByte("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=\r\n", byte(c)) >= 0 {
						continue
					}
					for _, p := range []int{0, 1, 2, 3, 4, 17, 78, 79} {
						t.decode(decodeRun{text: s[:p] + string([]byte{byte(c)}) + s[p+1:], want: data[:p*6/8], frags: t.frags(), bufs: t.bufs(), joined: c%2 == 0})
					}
				}
				for p := 0; p <= len(s); p++ {
					for _, eol := range []string{"\n", "\r\n", "\n\n\n", "\r\n\r\n"} {
						t.decode(decodeRun{text: s[:p] + eol + s[p:], want: data, ok: true, frags: t.frags(), bufs: t.bufs(), joined: p%2 == 0})
					}
				}
				for _, text := range []string{"", "\n", "\r\n", "\n\n\n\n\n", strings.Repeat("\r\n", 300)} {
					for b := 1; b < 5; b++ {
						t.decode(decodeRun{text: text, ok: true, frags: t.frags(), bufs: []int{b}, joined: b%2 == 0})
					}
				}
				for _, text := range []string{"AB==", "AAB=", "////" + "/x=="} {
					_, std := "", text
					b, err := stdb64.StdEncoding.DecodeString(std)
					t.must(err, "stdlib")
					t.decode(decodeRun{text: text, want: b, either: true, bufs: []int{7}})
				}
			}})
			// a source that makes no progress for a while: giving up is allowed,
			// pretending that the text ended is not
			cs = append(cs, Case{Name: "stalls", Fn: func(t *T) {
				for j := 0; j < 400; j++ {
					data := content(t.Rng, j, 3*(1+t.Rng.Intn(60)))
					stall := []int{1, 2, 50, 98, 99, 100, 101, 102, 150, 200, 201, 250, 400, 1000}[j%14]
					text := t.breakLines(enc(data), j)
					src := &pacedReader{t: t, text: []byte(text), frags: []int{4 * (1 + t.Rng.Intn(8))}, stall: stall, tail: io.EOF, bound: 1 << 22}
					if j%3 == 1 {
						src.frags = t.frags()
					}
					d := base64.NewDecoder(src)
					var got []byte
					var end error
					buf := make([]byte, 1+t.Rng.Intn(50))
					for i := 0; end == nil; i++ {
						if i > 1<<20 {
							t.Failf("endless loop: no end after %d reads; source with %d empty reads", i, stall)
						}
						n, err := d.Read(buf)
						got = append(got, buf[:n]...)
						end = err
					}
					if !isPrefix(got, data) {
						t.Failf("source with %d empty reads at a time: wrong bytes (%s)", stall, firstDiff(got, data))
					}
					if end == io.EOF && len(got) < len(data) {
						t.Failf("source with %d empty reads at a time: clean end after %d of %d bytes", stall, len(got), len(data))
					}
					if end != io.EOF && stall < 3 {
						t.Failf("source with %d empty reads at a time: %v after %d of %d bytes", stall, end, len(got), len(data))
					}
					t.Obs("stalling sources", 1)
					t.Eval("stall", stall, text)
				}
			}})
			// texts of several megabytes
			for i, n := range []int{1<<20 - 1, 1 << 20, 3*(1<<20) + 1, 54*131072 + 7, 12000001} {
				i, n := i, n
				cs = append(cs, Case{Name: fmt.Sprintf("long/%d", n), Fn: func(t *T) {
					data := content(t.Rng, []int{0, 6}[i%2], n)
					text := wrapAt(enc(data), []int{72, 76, 64, 1000, 4}[i], []string{"\n", "\r\n"}[i%2])
					src := &pacedReader{t: t, text: []byte(text), frags: []int{1 << 20, 4096, 1 + t.Rng.Intn(5000), 65536}, tail: io.EOF, joined: i%2 == 0, bound: len(text)}
					d := base64.NewDecoder(src)
					got := make([]byte, 0, n+100000)
					for i := 0; ; i++ {
						if i > n {
							t.Failf("endless loop: no end after %d reads", i)
						}
						buf := make([]byte, 1+t.Rng.Intn(90000))
						m, err := d.Read(buf)
						got = append(got, buf[:m]...)
						if err == io.EOF {
							break
						}
						if err != nil {
							t.Failf("valid text of %d bytes: %v after %d", n, err, len(got))
						}
						if len(got) > n {
							break
						}
					}
					if !bytes.Equal(got, data) {
						t.Failf("long text decodes to something else (%s)", firstDiff(got, data))
					}
					// damage far behind the beginning
					pos := bytes.IndexByte([]byte(text[len(text)/3*2:]), '\n') + len(text)/3*2 + 2
					for _, bad := range []string{text[:pos] + "!" + text[pos+1:], text[:pos], text[:pos] + "=" + text[pos+1:]} {
						got, err := io.ReadAll(base64.NewDecoder(strings.NewReader(bad)))
						if err == nil || !isPrefix(got, data) && !isPrefix(got[:len(got)-2], data) {
							t.Failf("text of %d bytes damaged at %d: error %v after %d bytes", n, pos, err, len(got))
						}
					}
					t.Obs("bytes in long texts", int64(n))
					t.Eval("long", n)
				}})
			}
			cs = append(cs, Case{Name: "consumers", Fn: func(t *T) {
				for j := 0; j < 400; j++ {
					data := content(t.Rng, j, t.Rng.Intn(3000))
					src := &pacedReader{t: t, text: []byte(t.breakLines(enc(data), j)), frags: t.frags(), tail: io.EOF, joined: j%2 == 0, bound: 1 << 20}
					got, err := io.ReadAll(base64.NewDecoder(src))
					if err != nil || !bytes.Equal(got, data) {
						t.Failf("io.ReadAll through the decoder: %v, %s", err, firstDiff(got, data))
					}
					src = &pacedReader{t: t, text: []byte(t.breakLines(enc(data), j)), frags: t.frags(), tail: io.EOF, joined: j%2 == 0, bound: 1 << 20}
					d := base64.NewDecoder(src)
					buf := make([]byte, len(data))
					if n, err := io.ReadFull(d, buf); err != nil && len(data) > 0 || !bytes.Equal(buf, data) {
						t.Failf("io.ReadFull through the decoder: %d, %v", n, err)
					}
					if n, err := d.Read(make([]byte, 1)); n != 0 || err != io.EOF {
						t.Failf("end after ReadFull: %d, %v", n, err)
					}
					if err := d.Close(); err != nil {
						t.Failf("Close: %v", err)
					}
					t.Obs("valid texts decoded", 2)
					t.Eval("consumer", data)
				}
			}})
			cs = append(cs, Case{Name: "inverse", Fn: func(t *T) {
				// what the encoder writes, the decoder reads
				for n := 0; n < 700; n++ {
					data := content(t.Rng, n, n)
					w := okWriter()
					w.t = t
					e := base64.NewEncoder(w)
					e.Write(data)
					if err := e.Close(); err != nil {
						t.Failf("Close: %v", err)
					}
					t.decode(decodeRun{text: w.buf.String(), want: data, ok: true, frags: t.frags(), bufs: t.bufs(), joined: n%2 == 0})
				}
			}})
			return cs
		},
	})
}
