package main

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"os/signal"
	"runtime"
	"strings"
	"syscall"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
)

// starve limits the address space and file size of this worker, so that a
// runaway operation fails instead of harming the sandbox.
func starve(as, fsize uint64) {
	signal.Ignore(syscall.SIGXFSZ)
	if as > 0 {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: as, Max: as})
	}
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: fsize, Max: fsize})
}

type hostile struct {
	t       *T
	d       string
	k       *KeyPair
	pass    []byte
	pub     []byte // pristine file texts
	sec     []byte
	psec    []byte // protected form
	sig     []byte
	enc     []byte
	payload []byte
	msg     []byte
	boxpub  []byte
}

func newHostile(t *T) *hostile {
	starve(8<<30, 256<<20)
	h := &hostile{t: t, d: t.Dir(), pass: []byte("pass")}
	h.k = t.RefKey(sub(h.d, "good"), nil, 0)
	h.sec, h.pub = t.Read(h.k.Sec), t.Read(h.k.Pub)
	s, _ := newSec(h.k.Clear[:32], randBytes(t.Rng, 16), h.k.Rec.KeyNum, 1, h.pass)
	h.psec = dataFile("protected", s.encode())
	h.msg = content(t.Rng, t.Rng.Intn(8), 100+t.Rng.Intn(200))
	t.Write(sub(h.d, "m"), h.msg)
	t.NoPass()
	if err := signify.Sign(h.k.Sec, sub(h.d, "m"), sub(h.d, "good.sig")); err != nil {
		t.Failf("Sign: %v", err)
	}
	h.sig = t.Read(sub(h.d, "good.sig"))
	h.boxpub = refBoxPub(h.k.PubRec.Key)
	n := []int{40, refChunk, refChunk + 33}[t.Rng.Intn(3)]
	var err error
	h.payload, err = refSeal(h.boxpub, randBytes(t.Rng, 32), content(t.Rng, 4, n))
	t.must(err, "refSeal")
	h.enc = encFile("x", h.payload, "\n")
	t.Write(sub(h.d, "good.enc"), h.enc)
	return h
}

// maxRounds is the largest KDF round count any line of text could be read as.
func maxRounds(text []byte) uint32 {
	var max uint32
	for _, l := range bytes.Split(bytes.ReplaceAll(text, []byte("\r"), nil), []byte("\n")) {
		if len(l) < 12 {
			continue
		}
		if b, err := base64.StdEncoding.DecodeString(string(l[:12])); err == nil {
			if r := binary.BigEndian.Uint32(b[4:8]); r > max {
				max = r
			}
		}
	}
	return max
}

// bounded runs f under the memory monitor.
func (h *hostile) bounded(what string, size int, f func() error) error {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	err := f()
	runtime.ReadMemStats(&b)
	limit := uint64(48<<20) + 300*uint64(size)
	if got := b.TotalAlloc - a.TotalAlloc; got > limit {
		h.t.Failf("%s allocated %d bytes for %d bytes of input files", what, got, size)
	}
	h.t.Obs("operations monitored", 1)
	return err
}

// feed gives a file in the given role to every operation that reads it and
// returns their errors; refuse demands that all of them fail.
func (h *hostile) feed(role string, text []byte, refuse bool, what string) {
	t := h.t
	f := t.Write(sub(h.d, "x."+role), text)
	t.Attach("hostile "+role+" file", text)
	size := len(text) + len(h.msg) + len(h.enc)
	m := sub(h.d, "m")
	arm := func() {
		if maxRounds(text) > 32 {
			t.NoPass()
		} else {
			t.Pass(h.pass)
		}
	}
	check := func(op string, err error, product string) {
		if err == nil {
			t.Obs(role+" accepted", 1)
		} else {
			t.Obs(role+" refused", 1)
		}
		if refuse && err == nil {
			t.Failf("%s: %s succeeded with it", what, op)
		}
		if refuse && product != "" {
			if b, _ := os.ReadFile(product); len(b) > 0 && role != "pub" {
				t.Failf("%s: %s failed (%v) but produced %d bytes", what, op, err, len(b))
			}
		}
		if product != "" {
			os.Remove(product)
		}
		if refuse {
			t.Obs("malformed records refused", 1)
		}
	}
	o := sub(h.d, "out")
	os.Remove(o)
	switch role {
	case "pub":
		check("Verify", h.bounded("Verify", size, func() error { return signify.Verify(f, m, sub(h.d, "good.sig")) }), "")
		check("Seal", h.bounded("Seal", size, func() error { return crypto.Seal(f, m, o) }), o)
		h.bounded("LoadPublicKey/ToBox", size, func() error {
			p, err := signify.LoadPublicKey(f)
			if err == nil {
				_, err = p.ToBox()
			}
			return err
		})
	case "sec":
		arm()
		check("Sign", h.bounded("Sign", size, func() error { return signify.Sign(f, m, o) }), o)
		arm()
		check("Open", h.bounded("Open", size, func() error { return crypto.Open(f, sub(h.d, "good.enc"), o) }), o)
		arm()
		h.bounded("LoadPrivateKey/ToBox", size, func() error {
			p, err := signify.LoadPrivateKey(f)
			if err == nil {
				p.IsEncrypted()
				p.Check()
				_, err = p.ToBox()
			}
			return err
		})
	case "sig":
		check("Verify", h.bounded("Verify", size, func() error { return signify.Verify(h.k.Pub, m, f) }), "")
	case "enc":
		t.NoPass()
		check("Open", h.bounded("Open", size, func() error { return crypto.Open(h.k.Sec, f, o) }), o)
	}
	t.Eval(role, text)
}

func (h *hostile) pristine(role string) []byte {
	switch role {
	case "pub":
		return h.pub
	case "sec":
		if h.t.Rng.Intn(2) == 0 {
			return h.psec
		}
		return h.sec
	case "sig":
		return h.sig
	}
	return h.enc
}

var nasty = []string{"", "\n", "\r\n", "\x00", "=", "====", "untrusted comment: ", "untrusted comment:", "A", "AA==", "\xff\xfe", "\xef\xbb\xbf", "-----BEGIN-----\n", "RW", "RWQ", "%s%n", "../", " ", "\t", "\u2028", "untrusted comment: \nuntrusted comment: \n"}

// mangle applies one random text mutation.
func mangle(r *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	pos := func() int {
		if len(b) == 0 {
			return 0
		}
		return r.Intn(len(b))
	}
	ins := func(p int, s []byte) {
		b = append(b[:p:p], append(append([]byte(nil), s...), b[p:]...)...)
	}
	switch r.Intn(12) {
	case 0:
		if len(b) > 0 {
			b[pos()] = byte(r.Intn(256))
		}
	case 1:
		if len(b) > 0 {
			b[pos()] ^= 1 << uint(r.Intn(8))
		}
	case 2:
		ins(pos(), randBytes(r, 1+r.Intn(8)))
	case 3:
		ins(pos(), []byte(nasty[r.Intn(len(nasty))]))
	case 4:
		b = b[:pos()]
	case 5:
		p := pos()
		q := p + r.Intn(len(b)-p+1)
		b = append(b[:p], b[q:]...)
	case 6:
		p := pos()
		q := p + r.Intn(len(b)-p+1)
		ins(p, b[p:q])
	case 7:
		b = b[pos():]
	case 8:
		ls := bytes.SplitAfter(b, []byte("\n"))
		i, j := r.Intn(len(ls)), r.Intn(len(ls))
		ls[i], ls[j] = ls[j], ls[i]
		b = bytes.Join(ls, nil)
	case 9:
		b = bytes.ReplaceAll(b, []byte("\n"), []byte([]string{"", "\r\n", "\n\n", "\r", " \n", "\x00"}[r.Intn(6)]))
	case 10:
		if i := bytes.IndexByte(b, '\n'); i >= 0 {
			if r.Intn(2) == 0 {
				b = b[i+1:]
			} else {
				b = b[:i+r.Intn(2)]
			}
		}
	case 11:
		p := pos()
		ins(p, bytes.Repeat([]byte{"A\n= \r\x00Rz/+"[r.Intn(10)]}, 1+r.Intn(300)))
	}
	return b
}

var lengths = map[string]int{"pub": pubLen, "sec": secLen, "sig": sigLen}

func (h *hostile) rec(role string) []byte {
	_, rec, err := strictDataFile(h.pristine(role))
	h.t.must(err, "parse pristine "+role)
	return rec
}

func init() {
	roles := []string{"pub", "sec", "sig", "enc"}
	register(&Prop{
		ID:          "C06",
		Rule:        "one evaluation = one hostile file given in one role (public key, secret key, signature, encrypted file) to every operation reading it, under monitors for panics, process death, watchdog and allocated bytes; malformed records must be refused by each operation; distinct by file content",
		Min:         map[string]int64{"operations monitored": 20000, "malformed records refused": 2500, "forged headers": 60, "cli runs": 60, "pub accepted": 10, "sig accepted": 10, "sec accepted": 10, "enc accepted": 10},
		Assumptions: []string{"allocation is measured with runtime.MemStats and bounded by 48 MB + 300 times the file sizes", "files whose round count could exceed 32 are run with a failing prompt, so that the KDF work they demand is not done"},
		Cases: func(cfg *Config) []Case {
			var cs []Case
			for _, role := range roles {
				role := role
				for i := 0; i < cfg.pick(12, 160); i++ {
					cs = append(cs, Case{Name: fmt.Sprintf("mangled/%s/%d", role, i), Ticks: 180, Fn: func(t *T) {
						h := newHostile(t)
						h.feed(role, h.pristine(role), false, "pristine")
						n := t.cfg.pick(220, 600)
						if role == "enc" {
							n = t.cfg.pick(120, 300)
						}
						for j := 0; j < n; j++ {
							b := h.pristine(role)
							for q := t.Rng.Intn(4); q >= 0; q-- {
								b = mangle(t.Rng, b)
							}
							h.feed(role, b, false, "mangled text")
						}
						t.Sample("%d random text mutations of a %s file", n, role)
					}})
				}
				cs = append(cs, Case{Name: "special/" + role, Ticks: 180, Fn: func(t *T) {
					h := newHostile(t)
					p := h.pristine(role)
					i := bytes.IndexByte(p, '\n')
					head, body := p[:i+1], p[i+1:]
					for _, s := range nasty {
						h.feed(role, []byte(s), role != "enc", fmt.Sprintf("file consisting of %q", s))
						h.feed(role, append([]byte(s), p...), false, "prefixed")
						h.feed(role, append(append([]byte(nil), p...), s...), false, "suffixed")
						h.feed(role, append(append(append([]byte(nil), head...), s...), body...), false, "infixed")
					}
					for n := 0; n <= 400 && n < len(p); n++ {
						h.feed(role, p[:n], false, "cut short")
					}
					for _, n := range []int{1000, 4095, 4096, 4097, 65535, 65536, 65537, 200000, 5 << 20} {
						long := bytes.Repeat([]byte("A"), n)
						h.feed(role, long, role != "enc", fmt.Sprintf("a single line of %d characters", n))
						h.feed(role, append(append([]byte(nil), head...), long...), role != "enc", fmt.Sprintf("second line of %d characters", n))
						h.feed(role, append(append([]byte("untrusted comment: "), long...), append([]byte("\n"), body...)...), false, "long comment")
						h.feed(role, bytes.Repeat([]byte("\n"), n), role != "enc", "newlines")
						h.feed(role, append(append([]byte(nil), head...), bytes.Repeat([]byte("\r\n"), n/2)...), role != "enc", "empty lines")
						h.feed(role, make([]byte, n), role != "enc", "zero bytes")
						h.feed(role, append(append([]byte(nil), p...), bytes.Repeat([]byte("="), n)...), false, "padding")
						if n <= 65537 {
							h.feed(role, append(bytes.Repeat([]byte("untrusted comment: x\n"), n), body...), false, "many comments")
						}
					}
					for j := 0; j < 60; j++ {
						h.feed(role, randBytes(t.Rng, t.Rng.Intn(3000)), false, "random bytes")
						h.feed(role, append(append([]byte(nil), head...), []byte(base64.StdEncoding.EncodeToString(randBytes(t.Rng, t.Rng.Intn(300))))...), false, "random record")
					}
					// another role's file
					for _, other := range roles {
						if other != role {
							h.feed(role, h.pristine(other), role != "enc", "file of the role "+other)
						}
					}
				}})
				if role == "enc" {
					continue
				}
				want := lengths[role]
				cs = append(cs, Case{Name: "malformed/" + role, Ticks: 180, Fn: func(t *T) {
					h := newHostile(t)
					for rep := 0; rep < 2; rep++ {
						rec := h.rec(role)
						for n := 0; n <= 300; n++ {
							if n == want {
								continue
							}
							r := make([]byte, n)
							copy(r, rec)
							h.feed(role, dataFile("c", r), true, fmt.Sprintf("%s record of %d bytes", role, n))
							if n > want {
								r = append(append([]byte(nil), rec...), randBytes(t.Rng, n-want)...)
								h.feed(role, dataFile("c", r), true, fmt.Sprintf("%s record of %d bytes", role, n))
								h.feed(role, dataFile("c", append(randBytes(t.Rng, n-want), rec...)), true, fmt.Sprintf("%s record with %d bytes in front", role, n-want))
							}
						}
						for _, n := range []int{2 * want, 4 * want, 1 << 12, 1 << 16, 1 << 20} {
							h.feed(role, dataFile("c", bytes.Repeat(rec, n/want+1)), true, fmt.Sprintf("%s record repeated to more than %d bytes", role, n))
						}
						for b := 0; b < 16; b++ {
							h.feed(role, dataFile("c", flip(rec, b)), true, fmt.Sprintf("algorithm tag %q", flip(rec, b)[:2]))
						}
						for _, tag := range []string{"ed", "ED", "eD", "dE", "\x00\x00", "RW", "BK", "  ", "E\x00", "\x00d", "\xff\xff"} {
							h.feed(role, dataFile("c", append([]byte(tag), rec[2:]...)), true, fmt.Sprintf("algorithm tag %q", tag))
						}
						for j := 0; j < 40; j++ {
							tag := randBytes(t.Rng, 2)
							if string(tag) != "Ed" {
								h.feed(role, dataFile("c", append(tag, rec[2:]...)), true, fmt.Sprintf("algorithm tag %q", tag))
							}
						}
					}
				}})
				cs = append(cs, Case{Name: "badbase64/" + role, Ticks: 180, Fn: func(t *T) {
					h := newHostile(t)
					for rep := 0; rep < 2; rep++ {
						text := string(h.pristine(role))
						i := strings.IndexByte(text, '\n') + 1
						line := strings.TrimSuffix(text[i:], "\n")
						pad := len(line) - len(strings.TrimRight(line, "="))
						for p := 0; p < len(line); p++ {
							for _, c := range []byte{'!', '-', '_', ' ', '.', 0, 0x80, 0xff, '*', '@', '[', '{', '`', ',', ':', '='} {
								if c == '=' && p >= len(line)-pad-1 {
									continue // other padding may still be valid base64
								}
								bad := line[:p] + string([]byte{c}) + line[p+1:]
								if p%3 == rep || p > len(line)-6 || p < 4 {
									h.feed(role, []byte(text[:i]+bad+"\n"), true, fmt.Sprintf("character %q in the base64 line at %d", c, p))
								}
							}
						}
						for p := 1; p < len(line); p++ {
							if p%4 != 0 {
								h.feed(role, []byte(text[:i]+line[:p]+"\n"), true, fmt.Sprintf("base64 cut to %d characters", p))
							}
						}
						for _, tail := range []string{"=", "==", "A", "AA", "AAA", "A=", "!", " ", " =", "\x00"} {
							h.feed(role, []byte(text[:i]+line+tail+"\n"), true, fmt.Sprintf("base64 followed by %q", tail))
							h.feed(role, []byte(text[:i]+tail+line+"\n"), true, fmt.Sprintf("base64 preceded by %q", tail))
						}
						url := strings.NewReplacer("+", "-", "/", "_").Replace(line)
						if url != line {
							h.feed(role, []byte(text[:i]+url+"\n"), true, "URL alphabet")
						}
						if pad > 0 {
							h.feed(role, []byte(text[:i]+strings.TrimRight(line, "=")+"\n"), true, "padding removed")
						}
					}
				}})
			}
			cs = append(cs, Case{Name: "forged-headers", Ticks: 180, Fn: func(t *T) {
				h := newHostile(t)
				key := randBytes(t.Rng, 32)
				counts := []uint64{0, 1, 2, 3, 255, 256, 65535, 65536, 1 << 20, 1<<31 - 1, 1 << 31, 1 << 32, 1<<32 - 1, 1 << 40, 1 << 47, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 2, 1<<64 - 1, 1 << 49, 562880998573072, 1 << 50}
				boxes := [][]byte{nil, {0}, make([]byte, 15), make([]byte, 16), make([]byte, 17)}
				_, shared, err := refHeaderFor(h.boxpub, key, 0)
				t.must(err, "header")
				boxes = append(boxes, boxSeal(shared, []byte("hello"), 0), boxSeal(shared, make([]byte, refChunk), 0), append(boxSeal(shared, make([]byte, refChunk), 0), boxSeal(shared, []byte("x"), 1)...), append(boxSeal(shared, make([]byte, refChunk), 0), boxSeal(shared, nil, 1)...), boxSeal(shared, nil, 0))
				for _, c := range counts {
					hd, _, err := refHeaderFor(h.boxpub, key, c)
					t.must(err, "header")
					for _, b := range boxes {
						h.feed("enc", encFile("forged", append(append([]byte(nil), hd...), b...), "\n"), false, fmt.Sprintf("authentic header announcing %d chunks, %d bytes of boxes", c, len(b)))
						t.Obs("forged headers", 1)
					}
				}
				t.Sample("authenticated headers announcing 0 .. 2^64-1 chunks before up to two chunks of data")
			}})
			cs = append(cs, Case{Name: "loworder", Ticks: 180, Fn: func(t *T) {
				h := newHostile(t)
				pts := []string{"0000000000000000000000000000000000000000000000000000000000000000", "0100000000000000000000000000000000000000000000000000000000000000",
					"ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
					"e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800", "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
					"ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "cdeb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b880",
					"26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05", "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a"}
				for _, p := range pts {
					b := unhex(p)
					h.feed("enc", encFile("c", append(append(make([]byte, 7), 1), append(append([]byte(nil), b...), make([]byte, 100)...)...), "\n"), false, "degenerate ephemeral key")
					rec := append(append([]byte("Ed"), h.k.PubRec.KeyNum...), b...)
					h.feed("pub", dataFile("c", rec), false, "degenerate public key")
					b[31] ^= 0x80
					h.feed("pub", dataFile("c", append(append([]byte("Ed"), h.k.PubRec.KeyNum...), b...)), false, "degenerate public key")
				}
				for i := 0; i < 400; i++ {
					h.feed("pub", dataFile("c", append(append([]byte("Ed"), h.k.PubRec.KeyNum...), content(t.Rng, i, 32)...)), false, "arbitrary public key")
				}
			}})
			for i := 0; i < cfg.pick(4, 30); i++ {
				cs = append(cs, Case{Name: fmt.Sprintf("cli/%d", i), Ticks: 600, Fn: func(t *T) {
					h := newHostile(t)
					run := func(role string, args ...string) {
						r := t.CLI(cliOpts{Dir: h.d, Umask: -1}, args...)
						if r.Signal != "" || r.Exit < 0 || strings.Contains(r.Stderr, "goroutine ") || strings.Contains(r.Stderr, "panic:") {
							t.Failf("command %q crashed on a hostile %s file: %v", args, role, r)
						}
						t.Obs("cli runs", 1)
					}
					for j := 0; j < 10; j++ {
						for _, role := range roles {
							b := h.pristine(role)
							for q := t.Rng.Intn(4); q >= 0; q-- {
								b = mangle(t.Rng, b)
							}
							if j == 0 && role != "enc" {
								b = dataFile("c", h.rec(role)[:t.Rng.Intn(lengths[role])])
							}
							t.Write(sub(h.d, "x."+role), b)
							t.Attach("hostile "+role+" file", b)
							t.Eval("cli", role, b)
							switch role {
							case "pub":
								run(role, "-V", "-p", "x.pub", "-m", "m", "-x", "good.sig")
								run(role, "-E", "-p", "x.pub", "-m", "m", "-c", "o")
							case "sec":
								run(role, "-S", "-s", "x.sec", "-m", "m", "-x", "o")
								run(role, "-D", "-s", "x.sec", "-c", "good.enc", "-m", "o")
							case "sig":
								run(role, "-V", "-p", "good.pub", "-m", "m", "-x", "x.sig")
							case "enc":
								run(role, "-D", "-s", "good.sec", "-c", "x.enc", "-m", "o")
							}
						}
					}
				}})
			}
			return cs
		},
	})
}
