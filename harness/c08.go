package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"strings"

	"github.com/kisom/psignify/crypto"
)

type sealed struct {
	t       *T
	d       string
	k       *KeyPair
	msg     []byte
	text    []byte
	payload []byte
	n       int
	viaCLI  bool
}

// newSealed seals a message of n bytes with the code under test (or the
// reference, which produces the same format) under k.
func newSealed(t *T, k *KeyPair, msg []byte) *sealed {
	s := &sealed{t: t, d: t.Dir(), k: k, msg: msg}
	m := t.Write(sub(s.d, "m"), msg)
	e := sub(s.d, "e")
	if err := crypto.Seal(k.Pub, m, e); err != nil {
		t.Failf("Seal failed: %v", err)
	}
	s.text = t.Read(e)
	_, pl, err := strictEncFile(s.text)
	if err != nil {
		t.Failf("sealed file is malformed: %v", err)
	}
	s.payload = pl
	if got, err := refOpen(refBoxPriv(k.Clear), pl); err != nil || !bytes.Equal(got, msg) {
		t.Failf("sealed file does not hold the message: %v", err)
	}
	s.openWith(s.k, s.text, "unaltered", true)
	return s
}

// openWith opens text with k and applies the oracle.
func (s *sealed) openWith(k *KeyPair, text []byte, what string, mustWork bool) {
	t := s.t
	x, out := sub(s.d, "x"), sub(s.d, "out")
	os.Remove(out)
	var before []byte
	had := s.n%3 == 1
	if had { // an older output, shorter or longer
		before = bytes.Repeat([]byte("older contents of the output\n"), 1+t.Rng.Intn(2+(len(s.msg)+len(s.msg)/2+300)/29))
		t.Write(out, before)
		t.Obs("older outputs", 1)
	}
	t.Write(x, text)
	t.Attach("altered file", text)
	t.Attach("message", s.msg)
	var err error
	if s.viaCLI {
		r := t.CLI(cliOpts{Dir: s.d, Umask: -1}, "-D", "-s", k.Sec, "-c", x, "-m", out)
		if r.Exit != 0 {
			err = fmt.Errorf("%v", r)
		}
		if r.OKLine() != (err == nil) {
			t.Failf("%s: exit status and OK line disagree: %v", what, r)
		}
		t.Obs("altered files opened by command", 1)
	} else {
		t.Use(k)
		err = crypto.Open(k.Sec, x, out)
	}
	got, rerr := os.ReadFile(out)
	if rerr != nil && !os.IsNotExist(rerr) {
		t.Inconclusivef("read output: %v", rerr)
	}
	if mustWork && err != nil {
		t.Failf("%s: Open failed: %v", what, err)
	}
	if err == nil && !bytes.Equal(got, s.msg) {
		t.Failf("%s: Open succeeded but wrote something other than the sealed message (%s)", what, firstDiff(got, s.msg))
	}
	if had && err != nil && bytes.Equal(got, before) {
		got = nil // left alone
	}
	if !isPrefix(got, s.msg) {
		t.Failf("%s: Open failed (%v) and left output that is no prefix of the message (%s)", what, err, firstDiff(got, s.msg))
	}
	if err == nil {
		t.Obs("opened to the exact message", 1)
	} else {
		t.Obs("refused", 1)
		if len(got) > 0 || rerr != nil {
			t.Obs("refused with a true prefix or no file left", 1)
		}
	}
	s.n++
	t.Eval(k.PubRec.Key, text)
}

func (s *sealed) alt(payload []byte, what string) {
	s.openWith(s.k, encFile("altered", payload, "\n"), what, false)
}

// boxes splits the payload into header and boxes.
func (s *sealed) boxes() (head []byte, bs [][]byte) {
	head = s.payload[:refHeader]
	for r := s.payload[refHeader:]; len(r) > 0; {
		n := refBox
		if n > len(r) {
			n = len(r)
		}
		bs = append(bs, r[:n])
		r = r[n:]
	}
	return
}

func joinBoxes(head []byte, bs ...[]byte) []byte {
	out := append([]byte(nil), head...)
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

func withCount(head []byte, n uint64) []byte {
	h := append([]byte(nil), head...)
	binary.BigEndian.PutUint64(h, n)
	return h
}

// structural applies chunk-level alterations, using o as a source of foreign parts.
func (s *sealed) structural(o *sealed) {
	head, bs := s.boxes()
	ohead, obs := o.boxes()
	n := len(bs)
	pick := func(idx ...int) [][]byte {
		var r [][]byte
		for _, i := range idx {
			r = append(r, bs[i])
		}
		return r
	}
	seq := func() []int {
		var r []int
		for i := 0; i < n; i++ {
			r = append(r, i)
		}
		return r
	}
	counts := []uint64{0, 1, uint64(n) - 1, uint64(n), uint64(n) + 1, 1 << 8, 1 << 32, 1<<64 - 1}
	try := func(idx []int, what string) {
		p := pick(idx...)
		s.alt(joinBoxes(head, p...), what)
		s.alt(joinBoxes(withCount(head, uint64(len(idx))), p...), what+", count adjusted")
		s.t.Obs("chunk-level alterations", 2)
	}
	for i := 0; i < n; i++ {
		try(append(seq()[:i:i], seq()[i+1:]...), fmt.Sprintf("chunk %d of %d dropped", i, n))
		try(append(append(seq()[:i+1:i+1], i), seq()[i+1:]...), fmt.Sprintf("chunk %d of %d repeated", i, n))
		for j := 0; j < n; j++ {
			if i != j {
				x := seq()
				x[i] = j
				try(x, fmt.Sprintf("chunk %d replaced by chunk %d of %d", i, j, n))
			}
			if i < j {
				x := seq()
				x[i], x[j] = x[j], x[i]
				try(x, fmt.Sprintf("chunks %d and %d of %d exchanged", i, j, n))
			}
		}
		for j := range obs {
			p := pick(seq()...)
			p[i] = obs[j]
			s.alt(joinBoxes(head, p...), fmt.Sprintf("chunk %d of %d replaced by chunk %d of another file", i, n, j))
		}
		try(seq()[:i], fmt.Sprintf("only the first %d of %d chunks", i, n))
		try(seq()[i:], fmt.Sprintf("chunks from %d of %d", i, n))
		// part of a chunk
		b := bs[i]
		for _, c := range []int{1, 15, 16, 17, len(b) - 16, len(b) - 1} {
			if c > 0 && c < len(b) {
				p := pick(seq()...)
				p[i] = b[:c]
				s.alt(joinBoxes(head, p...), fmt.Sprintf("chunk %d of %d cut to %d bytes", i, n, c))
				p[i] = b[c:]
				s.alt(joinBoxes(head, p...), fmt.Sprintf("chunk %d of %d without its first %d bytes", i, n, c))
			}
		}
		p := pick(seq()...)
		p[i] = make([]byte, len(b))
		s.alt(joinBoxes(head, p...), fmt.Sprintf("chunk %d of %d zeroed", i, n))
	}
	for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
		x := seq()
		x[i], x[j] = x[j], x[i]
		if i == 0 {
			for a, b := 0, n-1; a < b; a, b = a+1, b-1 {
				x[a], x[b] = n-1-a, n-1-b
			}
			try(x, "all chunks reversed")
		}
	}
	try(append(seq(), seq()...), "all chunks twice")
	for _, c := range counts {
		if c == uint64(n) {
			continue
		}
		s.alt(joinBoxes(withCount(head, c), bs...), fmt.Sprintf("chunk count changed from %d to %d", n, c))
	}
	// header parts of another file
	mix := append(append(append([]byte(nil), head[:8]...), ohead[8:40]...), head[40:]...)
	s.alt(joinBoxes(mix, bs...), "ephemeral key of another file")
	mix = append(append([]byte(nil), head[:40]...), ohead[40:]...)
	s.alt(joinBoxes(mix, bs...), "header tag of another file")
	if string(o.payload) != string(s.payload) {
		s.alt(joinBoxes(ohead, bs...), "header of another file")
		s.alt(joinBoxes(head, obs...), "all chunks of another file")
	}
	z := append([]byte(nil), head...)
	copy(z[8:40], make([]byte, 32))
	s.alt(joinBoxes(z, bs...), "ephemeral key zeroed")
	z = append([]byte(nil), head...)
	copy(z[40:], make([]byte, 32))
	s.alt(joinBoxes(z, bs...), "header tag zeroed")
	s.alt(joinBoxes(nil, bs...), "header removed")
	s.alt(joinBoxes(head, append([][]byte{head}, bs...)...), "header twice")
	s.alt(append(append([]byte(nil), s.payload...), s.payload...), "payload twice")
}

// textual alters the file as text.
func (s *sealed) textual(rounds int) {
	t := s.t
	for i := 0; i < rounds; i++ {
		b := s.text
		for q := t.Rng.Intn(3); q >= 0; q-- {
			b = mangle(t.Rng, b)
		}
		s.openWith(s.k, b, "random text alteration", false)
		t.Obs("text alterations", 1)
	}
	lines := strings.SplitAfter(string(s.text), "\n")
	edit := func(f func(l []string) []string, what string) {
		l := append([]string(nil), lines...)
		s.openWith(s.k, []byte(strings.Join(f(l), "")), what, false)
		t.Obs("text alterations", 1)
	}
	for i := range lines {
		if len(lines) > 60 && i%(len(lines)/20) != 0 && i > 4 && i < len(lines)-4 {
			continue
		}
		i := i
		edit(func(l []string) []string { return append(l[:i], l[i+1:]...) }, fmt.Sprintf("line %d removed", i))
		edit(func(l []string) []string { return append(l[:i:i], append([]string{l[i]}, l[i:]...)...) }, fmt.Sprintf("line %d repeated", i))
		if i > 0 {
			edit(func(l []string) []string { l[i], l[i-1] = l[i-1], l[i]; return l }, fmt.Sprintf("lines %d and %d exchanged", i-1, i))
			edit(func(l []string) []string {
				l[i] = strings.Replace(l[i], "A", "=", 1)
				return l
			}, "padding inside")
			edit(func(l []string) []string {
				if len(l[i]) > 9 {
					l[i] = l[i][:4] + "AA==" + l[i][4:]
				}
				return l
			}, "padded group inside")
		}
		edit(func(l []string) []string { return l[:i] }, fmt.Sprintf("cut before line %d", i))
		edit(func(l []string) []string { l[i] = strings.TrimSuffix(l[i], "\n"); return l }, fmt.Sprintf("line break %d removed", i))
	}
}

func init() {
	register(&Prop{
		ID:   "C08",
		Rule: "one evaluation = one altered (or wrong-key) encrypted file opened by the code under test: success requires exactly the sealed message, the output must at all times be a prefix of it; all header and chunk bits of short files, all truncation points, chunk reorder/drop/repeat/splice, text edits; distinct by (key, altered file)",
		Min:  map[string]int64{"refused": 6000, "refused with a true prefix or no file left": 100, "opened to the exact message": 60, "chunk-level alterations": 300, "text alterations": 1500, "wrong keys": 100, "truncations": 700, "altered files opened by command": 40, "alterations of long files": 400, "older outputs": 2000, "beginnings of huge messages refused": 60},
		Cases: func(cfg *Config) []Case {
			var cs []Case
			for i, n := range []int{0, 1, 31, 64, 200} {
				i, n := i, n
				for half := 0; half < 2; half++ {
					half := half
					cs = append(cs, Case{Name: fmt.Sprintf("bits/%d-%d", n, half), Fn: func(t *T) {
						k := t.RefKey(sub(t.Dir(), "k"), nil, 0)
						s := newSealed(t, k, content(t.Rng, i+half*4, n))
						for b := half; b < len(s.payload)*8; b += 2 {
							s.alt(flip(s.payload, b), fmt.Sprintf("payload bit %d flipped", b))
						}
						t.Sample("every second payload bit of a %d-byte message flipped", n)
					}})
				}
				cs = append(cs, Case{Name: fmt.Sprintf("truncate/%d", n), Fn: func(t *T) {
					k := t.RefKey(sub(t.Dir(), "k"), nil, 0)
					s := newSealed(t, k, content(t.Rng, i, n))
					for c := 0; c < len(s.text); c++ {
						s.openWith(k, s.text[:c], fmt.Sprintf("file cut to %d bytes", c), false)
						t.Obs("truncations", 1)
					}
					for c := 0; c < len(s.payload); c++ {
						s.alt(s.payload[:c], fmt.Sprintf("payload cut to %d bytes", c))
						t.Obs("truncations", 1)
					}
				}})
				cs = append(cs, Case{Name: fmt.Sprintf("text/%d", n), Fn: func(t *T) {
					k := t.RefKey(sub(t.Dir(), "k"), nil, 0)
					s := newSealed(t, k, content(t.Rng, i, n))
					s.textual(t.cfg.pick(250, 4000))
					// byte insertions and removals at every payload offset
					for c := 0; c <= len(s.payload); c++ {
						s.alt(append(s.payload[:c:c], append([]byte{byte(t.Rng.Intn(256))}, s.payload[c:]...)...), fmt.Sprintf("byte inserted at %d", c))
						if c < len(s.payload) {
							s.alt(append(s.payload[:c:c], s.payload[c+1:]...), fmt.Sprintf("byte removed at %d", c))
						}
					}
				}})
			}
			for i := 0; i < cfg.pick(6, 40); i++ {
				i := i
				sizes := []int{refChunk - 1, refChunk, refChunk + 1, 2*refChunk + 100, 3 * refChunk, 4*refChunk + 1, 2 * refChunk}
				n := sizes[i%len(sizes)]
				cs = append(cs, Case{Name: fmt.Sprintf("chunks/%d", i), Ticks: 400, Fn: func(t *T) {
					k := t.RefKey(sub(t.Dir(), "k"), nil, 0)
					// every chunk different, and one with equal chunks
					s := newSealed(t, k, content(t.Rng, []int{0, 4, 6, 7, 5, 0}[i%6], n))
					o := newSealed(t, k, content(t.Rng, 0, n))
					s.structural(o)
					same := newSealed(t, k, s.msg)
					s.structural(same)
					// bits around every structural boundary
					var bits []int
					for b := 0; b < refHeader*8; b += 5 {
						bits = append(bits, b)
					}
					for c := refHeader; c < len(s.payload); c += refBox {
						for b := 0; b < 20*8; b += 3 {
							bits = append(bits, c*8+b)
						}
						bits = append(bits, (c-1)*8, c*8-1)
					}
					for q := 0; q < 60; q++ {
						bits = append(bits, t.Rng.Intn(len(s.payload)*8))
					}
					for _, b := range bits {
						if b < len(s.payload)*8 {
							s.alt(flip(s.payload, b), fmt.Sprintf("payload bit %d flipped", b))
						}
					}
					for c := refHeader; c <= len(s.payload)+refBox; c += refBox {
						for d := -20; d <= 20; d++ {
							if c+d >= 0 && c+d < len(s.payload) {
								s.alt(s.payload[:c+d], fmt.Sprintf("payload cut to %d bytes", c+d))
								t.Obs("truncations", 1)
							}
						}
					}
					for _, d := range []int{1, 2, 3, 15, 16, 17, 54, 72, refBox, 2 * refBox} {
						s.alt(append(append([]byte(nil), s.payload...), make([]byte, d)...), fmt.Sprintf("%d zero bytes appended", d))
						s.alt(append(append([]byte(nil), s.payload...), randBytes(t.Rng, d)...), fmt.Sprintf("%d random bytes appended", d))
					}
					s.textual(t.cfg.pick(25, 200))
				}})
			}
			// several hundred chunks
			for blk := 0; blk < 8; blk++ {
				blk := blk
				cs = append(cs, Case{Name: fmt.Sprintf("long/%d", blk), Ticks: 900, Fn: func(t *T) {
					k := t.RefKey(sub(t.Dir(), "k"), nil, 0)
					s := newSealed(t, k, content(t.Rng, []int{0, 7}[blk%2], 300*refChunk-blk*100))
					head, bs := s.boxes()
					n := len(bs)
					pos := []int{1, 8, 16, 31, 32, 63, 64, 65, 99, 100, 101, 126, 127, 128, 129, 150, 191, 192, 199, 200, 201, 253, 254, 255, 256, 257, 258, 270, n - 3, n - 2, n - 1}
					for q := 0; q < t.cfg.pick(8, 60); q++ {
						pos = append(pos, t.Rng.Intn(n))
					}
					for q, i := range pos {
						if q%8 != blk && !t.cfg.Thorough {
							continue
						}
						try := func(b [][]byte, what string) {
							s.alt(joinBoxes(head, b...), fmt.Sprintf(what+" of %d", i, n))
							t.Obs("alterations of long files", 1)
						}
						cp := func() [][]byte { return append([][]byte(nil), bs...) }
						try(append(cp()[:i:i], bs[i+1:]...), "chunk %d dropped")
						try(append(append(cp()[:i:i], bs[i+1:]...), bs[n-1]), "chunk %d dropped, last repeated")
						try(append(append(cp()[:i:i], bs[i]), bs[i:]...), "chunk %d repeated")
						try(cp()[:i], "cut before chunk %d")
						for _, j := range []int{0, 1, i - 1, i - 2, i - 64, i - 128, i - 256, i + 1, n - 1} {
							if j < 0 || j >= n || j == i {
								continue
							}
							b := cp()
							b[i] = bs[j]
							try(b, fmt.Sprintf("chunk %%d replaced by chunk %d", j))
							b[j] = bs[i]
							try(b, fmt.Sprintf("chunk %%d exchanged with chunk %d", j))
						}
						b := cp()
						b[i] = flip(bs[i], t.Rng.Intn(len(bs[i])*8))
						try(b, "bit flipped in chunk %d")
						b[i] = make([]byte, len(bs[i]))
						try(b, "chunk %d zeroed")
						b[i] = bs[i][:len(bs[i])-1]
						try(b, "chunk %d shortened")
					}
				}})
			}
			// beyond 65536 chunks the low bytes of the counters repeat
			for blk, pairs := range [][][2]int64{{{0, 65536}}, {{255, 65535}}, {{1, 65537}, {65536, 65537}}} {
				blk, pairs := blk, pairs
				cs = append(cs, Case{Name: fmt.Sprintf("far/%d", blk), Ticks: 3000, Fn: func(t *T) {
					if t.cfg.Fast == "" && !t.cfg.Thorough {
						return
					}
					d := t.Dir()
					k := t.GenKey(sub(d, "k"), nil, 0)
					m, e, o := sub(d, "m"), sub(d, "e"), sub(d, "o")
					t.sparse(m, 65538*refChunk+9, 2000)
					f, err := os.OpenFile(m, os.O_WRONLY, 0)
					t.must(err, "open")
					for _, p := range pairs {
						for _, c := range p {
							_, err := f.WriteAt([]byte(fmt.Sprintf("chunk %d", c)), c*refChunk+100)
							t.must(err, "mark")
						}
					}
					f.Close()
					if r := t.BigOp(opSpec{Op: "seal", A: []string{k.Pub, m, e}}); r.Exit != 0 {
						t.Failf("encrypting 65539 chunks failed: %v", r)
					}
					for _, p := range pairs {
						if !t.swapBoxes(e, p[0], p[1]) {
							t.Obs("layout unknown", 1)
							return
						}
						r := t.BigOp(opSpec{Op: "open", A: []string{k.Sec, e, o}})
						what := fmt.Sprintf("chunks %d and %d of 65539 exchanged", p[0], p[1])
						if r.Exit == 0 {
							t.sameFiles(o, m, what+", Open succeeded")
						} else {
							t.prefixFile(o, m, what)
						}
						t.swapBoxes(e, p[0], p[1])
						t.Obs("alterations of long files", 1)
						t.Eval("far", p[0], p[1])
					}
				}})
			}
			for i := 0; i < cfg.pick(6, 40); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("wrongkey/%d", i), Fn: func(t *T) {
					d := t.Dir()
					k := t.RefKey(sub(d, "k"), nil, 0)
					s := newSealed(t, k, content(t.Rng, i, []int{0, 100, 20000}[i%3]))
					for j := 0; j < 40; j++ {
						var w *KeyPair
						switch j % 4 {
						case 0:
							w = t.RefKey(sub(d, "w"), nil, 0)
						case 1:
							w = t.RefKey(sub(d, "w"), []byte("pass"), 1)
						case 2: // same key number, other key
							w = t.RefKey(sub(d, "w"), nil, 0)
							w.Rec.KeyNum = k.Rec.KeyNum
							t.Write(w.Sec, dataFile("x", w.Rec.encode()))
						case 3: // one seed bit differs
							r, priv := newSec(flip(k.Clear[:32], t.Rng.Intn(256)), k.Rec.Salt, k.Rec.KeyNum, 0, nil)
							w = &KeyPair{Sec: sub(d, "w.sec"), Rec: r, Clear: priv, PubRec: &pubRec{"Ed", r.KeyNum, priv[32:]}}
							t.Write(w.Sec, dataFile("x", r.encode()))
						}
						s.openWith(w, s.text, "wrong key", false)
						if _, err := os.Stat(sub(s.d, "out")); err == nil {
							if b := t.Read(sub(s.d, "out")); len(b) > 0 && len(s.msg) > 0 {
								t.Failf("a wrong key decrypted %d bytes", len(b))
							}
						}
						t.Obs("wrong keys", 1)
					}
				}})
			}
			// messages of millions of chunks and more, cut after the first few
			cs = append(cs, Case{Name: "beheaded", Fn: func(t *T) {
				d := t.Dir()
				k := t.RefKey(sub(d, "k"), nil, 0)
				var counts []uint64
				for e := uint(8); e < 64; e++ {
					if e < 20 || e%8 < 2 || e%8 == 7 {
						counts = append(counts, 1<<e)
					}
				}
				counts = append(counts, 1<<64-4, 1<<64-2, 1<<63-3)
				for i, hi := range counts {
					// the message is that of which this is the beginning
					n := []int{0, 1, refChunk - 1, refChunk, refChunk + 70, 2 * refChunk, 3 * refChunk}[i%7]
					msg := content(t.Rng, 1, n)
					for _, add := range []uint64{0, uint64(n+refChunk-1) / refChunk} {
						h, key, err := refHeaderFor(refBoxPub(k.PubRec.Key), randBytes(t.Rng, 32), hi+add)
						t.must(err, "header")
						for q := 0; q*refChunk < n; q++ {
							h = append(h, boxSeal(key, msg[q*refChunk:min(n, (q+1)*refChunk)], uint64(q))...)
						}
						t.Write(sub(d, "e"), encFile("c", h, "\n"))
						os.Remove(sub(d, "o"))
						t.NoPass()
						err = crypto.Open(k.Sec, sub(d, "e"), sub(d, "o"))
						if err == nil {
							t.Failf("the first %d bytes of a message of %d chunks are decrypted as if they were all", n, hi+add)
						}
						if got, _ := os.ReadFile(sub(d, "o")); !isPrefix(got, msg) {
							t.Failf("the beginning of a message of %d chunks is decrypted to something else: %s", hi+add, firstDiff(got, msg))
						}
						t.Obs("refused", 1)
						t.Obs("beginnings of huge messages refused", 1)
						t.Eval("beheaded", hi+add, n)
					}
				}
			}})
			cs = append(cs, Case{Name: "cli", Ticks: 600, Fn: func(t *T) {
				k := t.RefKey(sub(t.Dir(), "k"), nil, 0)
				s := newSealed(t, k, content(t.Rng, 0, 2*refChunk+10))
				s.viaCLI = true
				head, bs := s.boxes()
				s.alt(joinBoxes(head, bs[1], bs[0], bs[2]), "chunks exchanged")
				s.alt(joinBoxes(head, bs[0], bs[1]), "last chunk dropped")
				s.alt(joinBoxes(head, bs[0], bs[2]), "middle chunk dropped")
				s.alt(joinBoxes(withCount(head, 2), bs[0], bs[1]), "count lowered")
				s.alt(joinBoxes(withCount(head, 0)), "count zero")
				s.alt(joinBoxes(head), "header only")
				for i := 0; i < 40; i++ {
					s.alt(flip(s.payload, t.Rng.Intn(len(s.payload)*8)), "bit flipped")
				}
			}})
			return cs
		},
	})
}
