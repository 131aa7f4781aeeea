package main

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"os"
	"strings"

	"github.com/kisom/psignify/crypto"
)

// emitted checks a file sealed by the code under test against the layout.
func (t *T) emitted(k *KeyPair, msg []byte, file string) {
	text := t.Read(file)
	_, pl, err := strictEncFile(text)
	if err != nil {
		t.Failf("layout of the encrypted file (%d-byte message): %v", len(msg), err)
	}
	want := (len(msg) + refChunk - 1) / refChunk
	if len(pl) != refHeader+len(msg)+16*want {
		t.Failf("payload of a %d-byte message has %d bytes, want %d", len(msg), len(pl), refHeader+len(msg)+16*want)
	}
	if got := binary.BigEndian.Uint64(pl); got != uint64(want) {
		t.Failf("header announces %d chunks for a %d-byte message, want %d", got, len(msg), want)
	}
	got, err := refOpen(refBoxPriv(k.Clear), pl)
	if err != nil {
		t.Failf("an independent implementation cannot decrypt the file of a %d-byte message: %v", len(msg), err)
	}
	if !bytes.Equal(got, msg) {
		t.Failf("an independent implementation decrypts something else: %s", firstDiff(got, msg))
	}
	t.Obs("files decrypted independently", 1)
	t.Obs("boxes opened independently", int64(want))
}

// ingests gives the code under test a file built by the reference.
func (t *T) ingests(k *KeyPair, msg, file []byte, what string) {
	d := t.Dir()
	e := t.Write(sub(d, "e"), file)
	t.Attach("encrypted file", file)
	t.Use(k)
	if err := crypto.Open(k.Sec, e, sub(d, "o")); err != nil {
		t.Failf("%s: valid foreign file of a %d-byte message is refused: %v", what, len(msg), err)
	}
	if got := t.Read(sub(d, "o")); !bytes.Equal(got, msg) {
		t.Failf("%s: foreign file decrypts to something else: %s", what, firstDiff(got, msg))
	}
	t.Obs("foreign files decrypted", 1)
	t.Eval("ingest", k.PubRec.Key, file)
	os.RemoveAll(d)
}

func init() {
	register(&Prop{
		ID:          "C10",
		Rule:        "one evaluation = one file sealed by the code under test and decomposed by an independent implementation of the layout (header fields, HMAC, box sizes, nonces, base64 columns), or one file built by that implementation and opened by the code under test; distinct by (key, message or file)",
		Min:         map[string]int64{"files decrypted independently": 700, "foreign files decrypted": 700, "boxes opened independently": 1500, "boxes of big messages checked": 70000, "beginnings of huge messages checked": 8},
		Assumptions: []string{"nacl/secretbox and crypto/ecdh are correct"},
		Cases: func(cfg *Config) []Case {
			var cs []Case
			emit := func(t *T, k *KeyPair, d string, msg []byte) {
				m := t.Write(sub(d, "m"), msg)
				e := sub(d, "e")
				switch t.Rng.Intn(4) { // an older file to replace, often a longer one
				case 0:
					os.Remove(e)
				case 1:
					t.Write(e, content(t.Rng, 3+t.Rng.Intn(3), 2*len(msg)+t.Rng.Intn(3000)))
				}
				if err := crypto.Seal(k.Pub, m, e); err != nil {
					t.Failf("Seal: %v", err)
				}
				t.emitted(k, msg, e)
				t.Eval("emit", k.PubRec.Key, sum(msg))
			}
			cs = append(cs, Case{Name: "looks", Fn: func(t *T) {
				d := t.Dir()
				k := t.GenKey(sub(d, "k"), nil, 0)
				for _, msg := range looks(t.Rng) {
					emit(t, k, d, msg)
				}
			}})
			for i := 0; i < cfg.pick(16, 120); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("emit/%d", i), Fn: func(t *T) {
					d := t.Dir()
					k := t.RefKey(sub(d, "k"), nil, 0)
					for j := 0; j < 40; j++ {
						emit(t, k, d, content(t.Rng, i+j, i*40+j))
					}
					for _, n := range []int{refChunk - 1, refChunk, refChunk + 1, 2 * refChunk, 2*refChunk + 1 + i, 3*refChunk - 1, 16384, 32768, 65536, t.Rng.Intn(200000)} {
						emit(t, k, d, content(t.Rng, i, n))
					}
					t.Sample("messages of %d..%d bytes and around chunk multiples", i*40, i*40+39)
				}})
				cs = append(cs, Case{Name: fmt.Sprintf("ingest/%d", i), Fn: func(t *T) {
					var k *KeyPair
					if i%3 == 0 {
						k = t.RefKey(sub(t.Dir(), "k"), []byte("pp"), 1)
					} else {
						k = t.GenKey(sub(t.Dir(), "k"), nil, 0)
					}
					sizes := []int{0, 1, refChunk - 1, refChunk, refChunk + 1, 2 * refChunk, 2*refChunk + i, 5*refChunk + 1}
					for j := 0; j < 36; j++ {
						sizes = append(sizes, i*36+j)
					}
					for j, n := range sizes {
						msg := content(t.Rng, i+j, n)
						pl, err := refSeal(refBoxPub(k.PubRec.Key), randBytes(t.Rng, 32), msg)
						t.must(err, "refSeal")
						comment := []string{"psignify encrypted file", "", "x", "made by another implementation", "ümläut \x01", strings.Repeat("long ", 400), "RWQAAAA=", "carriage\rreturn \r", "untrusted comment: twice", "\x00\x1b\xff", strings.Repeat("x", 70000), "\t \v\f\u2028\u0085"}[j%12]
						t.ingests(k, msg, encFile(comment, pl, []string{"\n", "\r\n"}[j%2]), "foreign file")
						b64 := base64.StdEncoding.EncodeToString(pl)
						switch j % 5 {
						case 0: // data filling its lines exactly may be followed by an empty line
							t.ingests(k, msg, []byte(commentLead+"c\n"+wrapAt(b64, 72, "\n")+"\n"), "trailing empty line")
						case 1: // without the final line break
							t.ingests(k, msg, []byte(commentLead+"c\n"+strings.TrimSuffix(wrapAt(b64, 72, "\n"), "\n")), "no final line break")
						}
					}
				}})
			}
			for _, n := range []int{255, 256, 257, 260} {
				n := n
				cs = append(cs, Case{Name: fmt.Sprintf("many/%d", n), Ticks: 600, Fn: func(t *T) {
					d := t.Dir()
					k := t.RefKey(sub(d, "k"), nil, 0)
					msg := content(t.Rng, 0, n*refChunk-n%2*7)
					emit(t, k, d, msg)
					pl, err := refSeal(refBoxPub(k.PubRec.Key), randBytes(t.Rng, 32), msg)
					t.must(err, "refSeal")
					t.ingests(k, msg, encFile("c", pl, "\n"), "many chunks")
				}})
			}
			for i, n := range append([]int64{1025, 4100, 65537}, map[bool][]int64{true: {511, 8193, 32769, 65535, 65536, 131073}}[cfg.Thorough]...) {
				i, n := i, n
				cs = append(cs, Case{Name: fmt.Sprintf("emit-stream/%d", n), Ticks: 3000, Fn: func(t *T) {
					d := t.Dir()
					k := t.RefKey(sub(d, "k"), nil, 0)
					m, e := sub(d, "m"), sub(d, "e")
					t.sparse(m, n*refChunk-int64(i*5), 200)
					if r := t.BigOp(opSpec{Op: "seal", A: []string{k.Pub, m, e}}); r.Exit != 0 {
						t.Failf("encrypting %d chunks failed: %v", n, r)
					}
					t.checkBigSealed(k, e, m, fmt.Sprintf("message of %d chunks", n))
					t.Eval("emit-stream", n)
				}}, Case{Name: fmt.Sprintf("ingest-stream/%d", n), Ticks: 3000, Fn: func(t *T) {
					d := t.Dir()
					k := t.RefKey(sub(d, "k"), nil, 0)
					m, e, o := sub(d, "m"), sub(d, "e"), sub(d, "o")
					t.sparse(m, n*refChunk-int64(i*5), 200)
					t.writeBigSealed(k, m, e)
					if r := t.BigOp(opSpec{Op: "open", A: []string{k.Sec, e, o}}); r.Exit != 0 {
						t.Failf("foreign file of %d chunks refused: %v", n, r)
					}
					t.sameFiles(o, m, fmt.Sprintf("foreign file of %d chunks", n))
					t.Obs("foreign files decrypted", 1)
					t.Eval("ingest-stream", n)
				}})
			}
			cs = append(cs, Case{Name: "huge", Fn: func(t *T) {
				k := t.GenKey(sub(t.Dir(), "k"), nil, 0)
				for _, n := range []int64{refChunk << 16, refChunk<<16 + 1, 1<<31 - 1, 1<<31 + 5, 1<<32 - 1, 1<<32 + 5, 3<<32 + 77, refChunk * 524288} {
					t.probeHuge(t.cfg.CLI, k, n)
				}
			}})
			cs = append(cs, Case{Name: "pipe-and-cli", Ticks: 400, Fn: func(t *T) {
				d := t.Dir()
				k := t.RefKey(sub(d, "k"), nil, 0)
				for i, n := range []int{0, 1, 54, refChunk, refChunk + 1, 65537} {
					msg := content(t.Rng, i, n)
					f := sub(d, fmt.Sprint("fifo", i))
					t.must(mkfifo(f), "mkfifo")
					go func() {
						if w, err := os.OpenFile(f, os.O_WRONLY, 0); err == nil {
							for j := 0; j < len(msg); j += 1000 {
								e := j + 1000
								if e > len(msg) {
									e = len(msg)
								}
								w.Write(msg[j:e])
							}
							w.Close()
						}
					}()
					if err := crypto.Seal(k.Pub, f, sub(d, "e")); err != nil {
						t.Failf("Seal: %v", err)
					}
					t.emitted(k, msg, sub(d, "e"))
					t.Write(sub(d, "m"), msg)
					r := t.CLI(cliOpts{Dir: d, Umask: -1}, "-E", "-p", "k.pub", "-m", "m")
					if r.Exit != 0 {
						t.Failf("command: %v", r)
					}
					t.emitted(k, msg, sub(d, "m.enc"))
					t.Eval("pipe", n)
				}
			}})
			cs = append(cs, counterCases(cfg)...)
			return cs
		},
	})
}

func wrapAt(s string, n int, eol string) string {
	var b strings.Builder
	for len(s) > n {
		b.WriteString(s[:n] + eol)
		s = s[n:]
	}
	b.WriteString(s + eol)
	return b.String()
}
