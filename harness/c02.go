package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha512"
	"fmt"
	"math/big"
	"os"
	"runtime/debug"
	"strings"

	"github.com/kisom/psignify/signify"
)

var groupL, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)

type triple struct {
	t                   *T
	pubF, msgF, sigF    string
	pub, msg, sig       []byte
	pubC, sigC          string
	accepted, rejecteds int
}

func newTriple(t *T, pub, msg, sig []byte) *triple {
	d := t.Dir()
	x := &triple{t: t, pubF: sub(d, "p"), msgF: sub(d, "m"), sigF: sub(d, "m.sig"), pubC: "signify public key", sigC: "verify with p.pub"}
	x.pub, x.msg, x.sig = pub, msg, sig
	t.Write(x.pubF, dataFile(x.pubC, pub))
	t.Write(x.msgF, msg)
	t.Write(x.sigF, dataFile(x.sigC, sig))
	return x
}

// check runs the real verifier on the three files and compares with the reference verdict.
func (x *triple) check(what string) {
	t := x.t
	want := refVerify(x.pub, x.sig, x.msg)
	err := signify.Verify(x.pubF, x.msgF, "")
	t.Attach("pub", x.pub)
	t.Attach("msg", x.msg)
	t.Attach("sig", x.sig)
	if (err == nil) != want {
		t.Failf("%s: reference verdict accept=%v, Verify returned %v\npub=%x\nsig=%x\nmessage %d bytes", what, want, err, x.pub, x.sig, len(x.msg))
	}
	if want {
		t.Obs("accepted as the reference does", 1)
	} else {
		t.Obs("rejected as the reference does", 1)
	}
	t.Eval(x.pub, x.sig, sum(x.msg), x.pubC, x.sigC)
}

func sum(b []byte) []byte { d := sha512.Sum512(b); return d[:] }

// with checks with one file temporarily replaced.
func (x *triple) withSig(sig []byte, what string) {
	old := x.sig
	x.sig = sig
	x.t.Write(x.sigF, dataFile(x.sigC, sig))
	x.check(what)
	x.sig = old
	x.t.Write(x.sigF, dataFile(x.sigC, old))
}

func (x *triple) withPub(pub []byte, what string) {
	old := x.pub
	x.pub = pub
	x.t.Write(x.pubF, dataFile(x.pubC, pub))
	x.check(what)
	x.pub = old
	x.t.Write(x.pubF, dataFile(x.pubC, old))
}

func (x *triple) withMsg(msg []byte, what string) {
	old := x.msg
	x.msg = msg
	x.t.Write(x.msgF, msg)
	x.check(what)
	x.msg = old
	x.t.Write(x.msgF, old)
}

// genuine makes a triple signed by the code under test.
func genuine(t *T, msg []byte) *triple {
	d := t.Dir()
	k := t.GenKey(sub(d, "k"), nil, 0)
	m := t.Write(sub(d, "m"), msg)
	t.NoPass()
	if err := signify.Sign(k.Sec, m, ""); err != nil {
		t.Failf("signing failed: %v", err)
	}
	_, sig, err := strictDataFile(t.Read(m + ".sig"))
	if err != nil {
		t.Failf("malformed signature file: %v", err)
	}
	x := newTriple(t, k.PubRec.encode(), msg, sig)
	if err := signify.Verify(x.pubF, x.msgF, ""); err != nil {
		t.Failf("genuine triple rejected: %v", err)
	}
	x.check("genuine")
	return x
}

func init() {
	register(&Prop{
		ID:          "C02",
		Rule:        "one evaluation = one verification whose verdict is compared with an independent verifier (record parsing plus stdlib Ed25519) on decoded files; cases: every single-bit flip of signature and public key records, message mutations at all/boundary offsets, splices between keys, key numbers, messages and signatures, S+L malleation, degenerate points, comment changes; distinct by (pub, sig, message, comments)",
		Min:         map[string]int64{"accepted as the reference does": 200, "rejected as the reference does": 3000, "cli verdicts": 30, "far changes rejected": 30},
		Assumptions: []string{"crypto/ed25519 of the Go standard library decides what a valid Ed25519 signature is"},
		Cases: func(cfg *Config) []Case {
			var cs []Case
			for i := 0; i < cfg.pick(3, 20); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("bitflips/sig/%d", i), Fn: func(t *T) {
					x := genuine(t, content(t.Rng, i*3, []int{0, 40, 5000}[i%3]))
					for b := 0; b < sigLen*8; b++ {
						x.withSig(flip(x.sig, b), fmt.Sprintf("signature record bit %d flipped", b))
					}
					t.Sample("592 single-bit variants of signature %x", x.sig[:16])
				}})
				cs = append(cs, Case{Name: fmt.Sprintf("bitflips/pub/%d", i), Fn: func(t *T) {
					x := genuine(t, content(t.Rng, i, []int{0, 40, 5000}[i%3]))
					for b := 0; b < pubLen*8; b++ {
						x.withPub(flip(x.pub, b), fmt.Sprintf("public key record bit %d flipped", b))
					}
				}})
			}
			cs = append(cs, Case{Name: "bytes/keynum-and-tag", Fn: func(t *T) {
				// every byte of tag and key number set to other values, on one side or both
				x := genuine(t, []byte("hello"))
				for pos := 0; pos < 10; pos++ {
					for _, v := range []byte{0, 1, 0x20, 0x45, 0x65, 0x44, 0x64, 0x7f, 0x80, 0xff, byte(t.Rng.Intn(256))} {
						s := append([]byte(nil), x.sig...)
						s[pos] = v
						x.withSig(s, fmt.Sprintf("signature byte %d = %#x", pos, v))
						p := append([]byte(nil), x.pub...)
						p[pos] = v
						x.withPub(p, fmt.Sprintf("public key byte %d = %#x", pos, v))
						y := newTriple(t, p, x.msg, s)
						y.check(fmt.Sprintf("byte %d = %#x in both", pos, v))
					}
				}
				// whole key numbers
				for _, n := range [][]byte{make([]byte, 8), bytes.Repeat([]byte{0xff}, 8), {0, 0, 0, 0, 0, 0, 0, 1}, {1, 0, 0, 0, 0, 0, 0, 0}, []byte("        "), []byte("00000000"), x.sig[2:10], x.pub[10:18], x.sig[10:18],
					{x.sig[9], x.sig[8], x.sig[7], x.sig[6], x.sig[5], x.sig[4], x.sig[3], x.sig[2]}, append(append([]byte(nil), x.sig[6:10]...), x.sig[2:6]...), append(append([]byte(nil), x.sig[3:10]...), x.sig[2]), make([]byte, 8)} {
					s := append([]byte(nil), x.sig...)
					copy(s[2:], n)
					x.withSig(s, fmt.Sprintf("key number %x in the signature", n))
					p := append([]byte(nil), x.pub...)
					copy(p[2:], n)
					x.withPub(p, fmt.Sprintf("key number %x in the key", n))
					newTriple(t, p, x.msg, s).check(fmt.Sprintf("key number %x in both", n))
				}
				for _, tag := range []string{"ed", "ED", "eD", "BK", "\x00\x00", "E\x00", "\x00d", "Ee", "Fd", "RS", "dE", "EE", "dd"} {
					s := append([]byte(tag), x.sig[2:]...)
					p := append([]byte(tag), x.pub[2:]...)
					newTriple(t, p, x.msg, s).check("tag " + tag + " in both")
					newTriple(t, p, x.msg, x.sig).check("tag " + tag + " in key")
					newTriple(t, x.pub, x.msg, s).check("tag " + tag + " in signature")
				}
			}})
			for i, n := range []int{0, 1, 2, 31, 32, 33, 64, 100, 127, 128, 129} {
				i, n := i, n
				cs = append(cs, Case{Name: fmt.Sprintf("message/small/%d", n), Fn: func(t *T) {
					x := genuine(t, content(t.Rng, []int{0, 4, 1, 2}[i%4], n))
					for b := 0; b < n*8; b++ {
						x.withMsg(flip(x.msg, b), fmt.Sprintf("message bit %d of %d bytes flipped", b, n))
					}
					for k := 0; k <= n; k++ {
						x.withMsg(x.msg[:k], fmt.Sprintf("message cut to %d of %d bytes", k, n))
						x.withMsg(x.msg[n-k:], fmt.Sprintf("message reduced to its last %d bytes", k))
						if k < n {
							x.withMsg(append(append([]byte(nil), x.msg[:k]...), x.msg[k+1:]...), fmt.Sprintf("byte %d removed", k))
						}
					}
					for _, e := range []string{"\n", "\r", "\r\n", " ", "\x00", "\x80", "a", "\x00\x00\x00\x00", "\t", "\ufeff"} {
						x.withMsg(append(append([]byte(nil), x.msg...), e...), fmt.Sprintf("appended %q", e))
						x.withMsg(append([]byte(e), x.msg...), fmt.Sprintf("prepended %q", e))
					}
					x.withMsg(append(append([]byte(nil), x.msg...), x.msg...), "doubled")
					x.withMsg(sum(x.msg), "replaced by its SHA-512")
				}})
			}
			cs = append(cs, Case{Name: "message/looks", Fn: func(t *T) {
				for _, msg := range looks(t.Rng) {
					x := genuine(t, msg)
					for _, other := range unlook(msg) {
						x.withMsg(other, fmt.Sprintf("message %q instead of %q", head(other), head(msg)))
					}
					t.dropDirs()
				}
			}})
			for i, n := range []int{4096, 16385, 65536, 65537, 200000, 1<<20 + 1} {
				i, n := i, n
				cs = append(cs, Case{Name: fmt.Sprintf("message/large/%d", n), Fn: func(t *T) {
					x := genuine(t, content(t.Rng, []int{0, 4, 3, 1, 6, 5}[i], n))
					offs := []int{0, 1, n / 2, n - 1, n - 2, n - 64, n - 129}
					for p := 256; p < n; p *= 2 {
						offs = append(offs, p-1, p)
					}
					for j := 0; j < cfg.pick(10, 200); j++ {
						offs = append(offs, t.Rng.Intn(n))
					}
					for _, o := range offs {
						x.withMsg(flip(x.msg, o*8+t.Rng.Intn(8)), fmt.Sprintf("message byte %d of %d changed", o, n))
					}
					for _, k := range []int{0, 1, 100, n / 2, n - 1, 4095, 16384, 65535} {
						if k < n {
							x.withMsg(x.msg[:k], fmt.Sprintf("message cut to %d of %d", k, n))
						}
					}
					for _, e := range []string{"\n", "\x00", "x"} {
						x.withMsg(append(append([]byte(nil), x.msg...), e...), fmt.Sprintf("appended %q", e))
					}
					x.withMsg(append(append([]byte(nil), x.msg...), make([]byte, 4096)...), "appended 4096 zeros")
					x.withMsg(bytes.ReplaceAll(x.msg, []byte("\r\n"), []byte("\n")), "CRLF to LF")
					x.withMsg(bytes.ReplaceAll(x.msg, []byte("\n"), []byte("\r\n")), "LF to CRLF")
					x.withMsg(bytes.TrimRight(x.msg, "\n\r\x00 "), "trailing blanks trimmed")
				}})
			}
			// sparse messages: changes far behind the beginning
			far := []int64{1<<30 + 5, 300<<20 + 1, 130<<20 + 3, 1<<26 + 1, 40 << 20, 1<<25 + 1, 1<<24 + 1}
			if cfg.Thorough {
				far = append([]int64{1<<32 + 9, 1<<31 + 1}, far...)
			}
			for _, n := range far {
				n := n
				cs = append(cs, Case{Name: fmt.Sprintf("message/far/%d", n), Ticks: 1800, Fn: func(t *T) {
					defer debug.FreeOSMemory()
					d := t.Dir()
					k := t.GenKey(sub(d, "k"), nil, 0)
					m := sub(d, "m")
					t.sparse(m, n, 30)
					t.NoPass()
					if err := signify.Sign(k.Sec, m, ""); err != nil {
						t.Failf("signing %d bytes failed: %v", n, err)
					}
					if err := signify.Verify(k.Pub, m, ""); err != nil {
						t.Failf("genuine signature of %d bytes rejected: %v", n, err)
					}
					f, err := os.OpenFile(m, os.O_RDWR, 0)
					t.must(err, "open")
					defer f.Close()
					offs := []int64{n - 1, n / 2}
					for p := int64(1) << 24; p < n; p *= 2 {
						if n < 1<<28 {
							offs = append(offs, p-1)
						}
						offs = append(offs, p)
					}
					if n > 1<<28 && !cfg.Thorough {
						offs = []int64{n - 1, 1 << 28, 1 << 27, n/2 + 3}
					}
					judge := func(what string) {
						if err := signify.Verify(k.Pub, m, ""); err == nil {
							t.Failf("message of %d bytes, %s: still accepted", n, what)
						}
						t.Obs("rejected as the reference does", 1)
						t.Obs("far changes rejected", 1)
						t.Eval("far", n, what)
					}
					for _, o := range offs {
						b := []byte{0}
						_, err := f.ReadAt(b, o)
						t.must(err, "read")
						_, err = f.WriteAt([]byte{b[0] ^ 0x20}, o)
						t.must(err, "write")
						judge(fmt.Sprintf("byte %d changed", o))
						_, err = f.WriteAt(b, o)
						t.must(err, "write")
					}
					t.must(f.Truncate(n+1), "extend")
					judge("one zero byte appended")
					b := []byte{0}
					f.ReadAt(b, n-1)
					t.must(f.Truncate(n-1), "cut")
					judge("last byte cut")
					_, err = f.WriteAt(b, n-1)
					t.must(err, "write")
					if err := signify.Verify(k.Pub, m, ""); err != nil {
						t.Failf("restored message of %d bytes rejected: %v", n, err)
					}
				}})
			}
			cs = append(cs, Case{Name: "message/suffixes", Fn: func(t *T) {
				for _, n := range []int{0, 1, 57, 300} {
					x := genuine(t, content(t.Rng, 4, n))
					for v := 0; v < 256; v++ {
						for _, e := range [][]byte{{byte(v)}, {byte(v), byte(v)}, {'\r', byte(v)}, {0, byte(v)}, {byte(v), 0}} {
							x.withMsg(append(append([]byte(nil), x.msg...), e...), fmt.Sprintf("appended %q", e))
							x.withMsg(append(append([]byte(nil), e...), x.msg...), fmt.Sprintf("prepended %q", e))
						}
					}
					for _, e := range []string{"\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "-----BEGIN", "untrusted comment: x\n", "\u2028", "\x1a\x1a", "\n\n", "\r\n\r\n", "--\n"} {
						x.withMsg(append(append([]byte(nil), x.msg...), e...), fmt.Sprintf("appended %q", e))
						x.withMsg(append([]byte(e), x.msg...), fmt.Sprintf("prepended %q", e))
					}
					for _, l := range []int{63, 64, 127, 128, 512, 4096, 65536} {
						x.withMsg(append(append([]byte(nil), x.msg...), make([]byte, l)...), fmt.Sprintf("%d zeros appended", l))
					}
					// genuine messages that end or begin so themselves, with that removed
					for _, e := range []string{"\n", "\r\n", "\x1a", "\x00", " ", "\xef\xbb\xbf", "\t", "=", "\x04"} {
						y := genuine(t, append(append([]byte(nil), x.msg...), e...))
						y.withMsg(x.msg, fmt.Sprintf("trailing %q removed", e))
						z := genuine(t, append([]byte(e), x.msg...))
						z.withMsg(x.msg, fmt.Sprintf("leading %q removed", e))
					}
					t.dropDirs()
				}
			}})
			// letter case, width and line ends in the middle
			cs = append(cs, Case{Name: "message/text", Fn: func(t *T) {
				msg := []byte("Alpha beta\nGamma\tdelta\r\nepsilon  zeta \n\nÄöü ß\n\x00end\n")
				x := genuine(t, msg)
				for _, r := range [][2]string{{"\n", "\r\n"}, {"\r\n", "\n"}, {"\n", "\r"}, {"\t", "        "}, {"  ", " "}, {" \n", "\n"}, {"\n\n", "\n"}, {"\x00", ""}, {"Ä", "A\u0308"}, {"A", "a"}, {"ß", "ss"}} {
					x.withMsg(bytes.ReplaceAll(msg, []byte(r[0]), []byte(r[1])), fmt.Sprintf("%q replaced by %q", r[0], r[1]))
					x.withMsg(bytes.Replace(msg, []byte(r[0]), []byte(r[1]), 1), fmt.Sprintf("first %q replaced by %q", r[0], r[1]))
				}
				x.withMsg(bytes.ToLower(msg), "lower case")
				x.withMsg(bytes.ToUpper(msg), "upper case")
				x.withMsg(bytes.TrimSpace(msg), "trimmed")
				x.withMsg(msg[:bytes.IndexByte(msg, 0)], "cut at the zero byte")
			}})
			for i := 0; i < cfg.pick(4, 40); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("splice/%d", i), Fn: func(t *T) {
					// cross product of keys x messages x signatures, with equal and different key numbers
					type key struct {
						priv ed25519.PrivateKey
						num  []byte
					}
					shared := randBytes(t.Rng, 8)
					var keys []key
					for j := 0; j < 4; j++ {
						_, priv := newSec(randBytes(t.Rng, 32), make([]byte, 16), shared, 0, nil)
						num := shared
						if j >= 2 {
							num = randBytes(t.Rng, 8)
							if j == 3 {
								num = append(append([]byte(nil), shared[:7]...), shared[7]^1)
							}
						}
						keys = append(keys, key{priv, num})
					}
					var msgs [][]byte
					for j := 0; j < 4; j++ {
						msgs = append(msgs, content(t.Rng, j+i, j*50))
					}
					for a, ka := range keys {
						for mi, m := range msgs {
							sig := append(append([]byte("Ed"), ka.num...), ed25519.Sign(ka.priv, m)...)
							for b, kb := range keys {
								pub := append(append([]byte("Ed"), kb.num...), kb.priv[32:]...)
								for mj, m2 := range msgs {
									newTriple(t, pub, m2, sig).check(fmt.Sprintf("signature by key %d on message %d, checked with key %d on message %d", a, mi, b, mj))
								}
								// key number relabelled to the checking key's
								s2 := append(append([]byte("Ed"), kb.num...), sig[10:]...)
								newTriple(t, pub, m, s2).check("relabelled key number")
								_ = b
							}
						}
					}
				}})
			}
			cs = append(cs, Case{Name: "malleability", Fn: func(t *T) {
				for i := 0; i < 40; i++ {
					x := genuine(t, content(t.Rng, i, i*10))
					s := leToInt(x.sig[42:])
					for k := int64(1); k < 16; k++ {
						v := new(big.Int).Add(s, new(big.Int).Mul(groupL, big.NewInt(k)))
						if v.BitLen() > 256 {
							break
						}
						x.withSig(append(append([]byte(nil), x.sig[:42]...), intToLE(v)...), fmt.Sprintf("S + %d L", k))
					}
					neg := new(big.Int).Sub(groupL, s)
					x.withSig(append(append([]byte(nil), x.sig[:42]...), intToLE(neg)...), "L - S")
					x.withSig(append(append([]byte(nil), x.sig[:10]...), append(x.sig[42:], x.sig[10:42]...)...), "R and S swapped")
				}
				t.Sample("S+kL variants of 40 genuine signatures")
			}})
			cs = append(cs, Case{Name: "degenerate", Fn: func(t *T) {
				num := randBytes(t.Rng, 8)
				enc := func(y *big.Int, sign byte) []byte {
					b := intToLE(y)
					b[31] |= sign << 7
					return b
				}
				var pts [][]byte
				pts = append(pts, enc(big.NewInt(1), 0), enc(big.NewInt(1), 1), enc(new(big.Int).Sub(fieldP, one), 0), enc(big.NewInt(0), 0), enc(big.NewInt(0), 1), enc(fieldP, 0), enc(new(big.Int).Add(fieldP, one), 0), bytes.Repeat([]byte{0xff}, 32))
				scal := [][]byte{make([]byte, 32), intToLE(big.NewInt(1)), intToLE(groupL), bytes.Repeat([]byte{0xff}, 32)}
				for _, a := range pts {
					for _, r := range pts {
						for _, s := range scal {
							for _, m := range [][]byte{nil, []byte("x"), []byte("hello world")} {
								pub := append(append([]byte("Ed"), num...), a...)
								sig := append(append(append([]byte("Ed"), num...), r...), s...)
								newTriple(t, pub, m, sig).check("degenerate points and scalars")
							}
						}
					}
				}
			}})
			cs = append(cs, Case{Name: "lengths", Fn: func(t *T) {
				x := genuine(t, []byte("a message"))
				for n := 0; n < 2*sigLen; n++ {
					s := make([]byte, n)
					copy(s, x.sig)
					x.withSig(s, fmt.Sprintf("signature record of %d bytes", n))
				}
				for n := 0; n < 2*pubLen; n++ {
					s := make([]byte, n)
					copy(s, x.pub)
					x.withPub(s, fmt.Sprintf("public key record of %d bytes", n))
				}
				x.withSig(append(append([]byte(nil), x.sig...), x.sig...), "signature record twice")
				x.withSig(append(make([]byte, 3), x.sig...), "signature record with 3 bytes in front")
			}})
			cs = append(cs, Case{Name: "comments", Fn: func(t *T) {
				x := genuine(t, []byte("a message"))
				y := genuine(t, []byte("a message"))
				coms := []string{"", " ", "verify with other.pub", "verify with p.sec", "signify secret key", "untrusted comment: ", "\xff\xfe\x80", "日本語", "%s%d%n", "\x00\x01\x02", "-----BEGIN-----",
					"RWQG3NG/HVUh9dUmnWDxStYXUgK+FRB/M9UTdFPESCWeblGoX2yoJAF2", string(bytes.Repeat([]byte("c"), 1000)), "verify with " + string(bytes.Repeat([]byte("../"), 50)) + "x.pub", "trusted comment: y",
					strings.Repeat("d", 4096), strings.Repeat("e", 65530), strings.Repeat("f", 70000)}
				for i := 0; i < 60; i++ {
					coms = append(coms, string(bytes.Map(func(r rune) rune {
						if r == '\n' || r == '\r' {
							return 'n'
						}
						return r
					}, randBytes(t.Rng, 1+t.Rng.Intn(200)))))
				}
				for _, c := range coms {
					for _, z := range []*triple{x, newTriple(t, x.pub, x.msg, y.sig), newTriple(t, y.pub, []byte("another"), y.sig)} {
						for side := 0; side < 3; side++ {
							z.pubC, z.sigC = "signify public key", "verify with p.pub"
							if side != 0 {
								z.pubC = c
							}
							if side != 1 {
								z.sigC = c
							}
							t.Write(z.pubF, dataFile(z.pubC, z.pub))
							t.Write(z.sigF, dataFile(z.sigC, z.sig))
							z.check(fmt.Sprintf("comments %.60q / %.60q", z.pubC, z.sigC))
						}
					}
				}
			}})
			for i := 0; i < cfg.pick(8, 100); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("random/%d", i), Fn: func(t *T) {
					x := genuine(t, content(t.Rng, i, t.Rng.Intn(300)))
					for j := 0; j < 400; j++ {
						s := append([]byte(nil), x.sig...)
						p := append([]byte(nil), x.pub...)
						m := append([]byte(nil), x.msg...)
						for k := t.Rng.Intn(3); k >= 0; k-- {
							switch t.Rng.Intn(6) {
							case 0:
								s[t.Rng.Intn(len(s))] ^= byte(1 << uint(t.Rng.Intn(8)))
							case 1:
								p[t.Rng.Intn(len(p))] ^= byte(1 << uint(t.Rng.Intn(8)))
							case 2:
								if len(m) > 0 {
									m[t.Rng.Intn(len(m))] ^= byte(1 << uint(t.Rng.Intn(8)))
								}
							case 3: // same change in both key numbers
								q := 2 + t.Rng.Intn(8)
								s[q] ^= 0x10
								p[q] ^= 0x10
							case 4: // undo: leave genuine
							case 5:
								lo, n := t.Rng.Intn(64), 1+t.Rng.Intn(16)
								for z := lo; z < lo+n && z < len(s); z++ {
									s[z] = 0
								}
							}
						}
						newTriple(t, p, m, s).check("random mutation")
						if j%50 == 49 {
							t.dropDirs()
						}
					}
				}})
			}
			for i := 0; i < cfg.pick(6, 24); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("cli/%d", i), Fn: func(t *T) {
					x := genuine(t, content(t.Rng, i, i*100))
					cli := func(want bool, what string) {
						r := t.CLI(cliOpts{Umask: -1}, "-V", "-p", x.pubF, "-m", x.msgF)
						if (r.Exit == 0) != want || r.OKLine() != want {
							t.Failf("%s: want accept=%v, command: %v", what, want, r)
						}
						t.Obs("cli verdicts", 1)
						t.Eval("cli", what, i)
					}
					cli(true, "genuine")
					t.Write(x.msgF, append(append([]byte(nil), x.msg...), 'x'))
					cli(false, "message extended")
					t.Write(x.msgF, x.msg)
					for j := 0; j < 6; j++ {
						b := t.Rng.Intn(sigLen * 8)
						t.Write(x.sigF, dataFile("verify with p.pub", flip(x.sig, b)))
						cli(false, fmt.Sprintf("signature bit %d", b))
					}
					t.Write(x.sigF, dataFile("other comment", x.sig))
					cli(true, "other comment")
					for j := 0; j < 3; j++ {
						b := t.Rng.Intn(pubLen * 8)
						p := flip(x.pub, b)
						t.Write(x.pubF, dataFile("signify public key", p))
						cli(refVerify(p, x.sig, x.msg), fmt.Sprintf("public key bit %d", b))
					}
				}})
			}
			return cs
		},
	})
}
