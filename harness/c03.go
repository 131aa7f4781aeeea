package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha512"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
)

// checkEmitted examines a generated key pair bit by bit.
func (t *T) checkEmitted(k *KeyPair, wantRounds uint32, what string) {
	r := k.Rec
	d := sha512.Sum512(k.Clear)
	switch {
	case r.Alg != "Ed":
		t.Failf("%s: secret key algorithm tag %q", what, r.Alg)
	case r.Kdf != "BK":
		t.Failf("%s: secret key KDF tag %q", what, r.Kdf)
	case r.Rounds != wantRounds:
		t.Failf("%s: KDF rounds field is %d, want %d (big-endian)", what, r.Rounds, wantRounds)
	case !bytes.Equal(d[:8], r.Check):
		t.Failf("%s: checksum %x is not the head of SHA-512 of the clear key (%x)", what, r.Check, d[:8])
	case k.PubRec.Alg != "Ed":
		t.Failf("%s: public key algorithm tag %q", what, k.PubRec.Alg)
	case !bytes.Equal(k.PubRec.KeyNum, r.KeyNum):
		t.Failf("%s: key numbers differ: sec %x pub %x", what, r.KeyNum, k.PubRec.KeyNum)
	case !bytes.Equal(ed25519.NewKeyFromSeed(k.Clear[:32]), k.Clear):
		t.Failf("%s: secret key is not seed || public key", what)
	case !bytes.Equal(k.PubRec.Key, k.Clear[32:]):
		t.Failf("%s: public key file does not hold the secret key's public half", what)
	}
}

// checkSigFile checks a written signature file completely.
func (t *T) checkSigFile(k *KeyPair, secPath string, file, msg []byte, what string) {
	com, rec, err := strictDataFile(file)
	if err != nil {
		t.Failf("%s: signature file is malformed: %v", what, err)
	}
	want := "verify with " + strings.TrimSuffix(filepath.Base(secPath), ".sec") + ".pub"
	if strings.Contains(want, "\n") {
		// a line break in the name can't be shown as it is
		rest := com
		for _, part := range strings.Split(want, "\n") {
			i := strings.Index(rest, part)
			if i < 0 || !strings.HasPrefix(com, "verify with ") {
				t.Failf("%s: comment %q, want %q with something in place of the line breaks", what, com, want)
			}
			rest = rest[i+len(part):]
		}
		t.Obs("signatures by keys with a line break in their name", 1)
	} else if com != want {
		t.Failf("%s: comment %q, want %q", what, com, want)
	}
	s, err := parseSig(rec)
	if err != nil {
		t.Failf("%s: %v", what, err)
	}
	if s.Alg != "Ed" || !bytes.Equal(s.KeyNum, k.Rec.KeyNum) {
		t.Failf("%s: signature has tag %q, key number %x; want Ed, %x", what, s.Alg, s.KeyNum, k.Rec.KeyNum)
	}
	if exp := ed25519.Sign(ed25519.PrivateKey(k.Clear), msg); !bytes.Equal(exp, s.Sig) {
		t.Failf("%s: signature is not the deterministic Ed25519 signature of the %d message bytes\ngot  %x\nwant %x", what, len(msg), s.Sig, exp)
	}
}

func (t *T) signBytes(k *KeyPair, msg []byte, what string) []byte {
	d := t.Dir()
	m := t.Write(sub(d, "m"), msg)
	t.Use(k)
	s := sub(d, "s")
	if n := t.Rng.Intn(3); n > 0 { // an older file to replace
		old := content(t.Rng, 3+t.Rng.Intn(3), 1+t.Rng.Intn(2000))
		switch t.Rng.Intn(4) {
		case 0:
			t.must(os.Symlink(t.Write(sub(d, "target"), old), s), "symlink")
		case 1:
			t.must(os.Link(t.Write(sub(d, "target"), old), s), "link")
		default:
			t.Write(s, old)
		}
		t.Obs("signatures replacing an older file", 1)
	}
	if err := signify.Sign(k.Sec, m, s); err != nil {
		t.Failf("%s: signing failed: %v", what, err)
	}
	return t.Read(s)
}

func init() {
	register(&Prop{
		ID:          "C03",
		Rule:        "one evaluation = one file written by the real code parsed by a strict independent parser and compared field by field with independently computed values, or one independently built file consumed by the real code with its result compared; varies keys, rounds, passphrases, comments, file names, message lengths; distinct by file content",
		Min:         map[string]int64{"written key pairs checked": 60, "written signatures checked": 300, "foreign keys used": 60, "foreign signatures verified": 200, "signatures replacing an older file": 100, "signatures by keys with a line break in their name": 40},
		Assumptions: []string{"bcrypt_pbkdf of github.com/dchest/bcrypt_pbkdf is the reference KDF (cross-checked against a key made by OpenBSD)"},
		Cases: func(cfg *Config) []Case {
			var cs []Case
			cs = append(cs, Case{Name: "openbsd", Fn: func(t *T) {
				d := t.Dir()
				k := t.fixture(d)
				t.checkEmitted(k, 42, "fixture")
				f := t.signBytes(k, fxMsg, "OpenBSD key")
				_, got, err := strictDataFile(f)
				_, want, _ := strictDataFile(fxSig)
				if err != nil || !bytes.Equal(got, want) {
					t.Failf("signature made with OpenBSD's key differs from OpenBSD's own: %x vs %x (%v)", got, want, err)
				}
				m := t.Write(sub(d, "message.txt"), fxMsg)
				t.Write(m+".sig", fxSig)
				if err := signify.Verify(k.Pub, m, ""); err != nil {
					t.Failf("OpenBSD's signature rejected: %v", err)
				}
				t.Eval("openbsd", f)
				t.Sample("OpenBSD key and signature of message.txt")
			}})
			for i := 0; i < cfg.pick(24, 200); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("written/keys/%d", i), Fn: func(t *T) {
					d := t.Dir()
					for j := 0; j < 8; j++ {
						base := sub(d, fmt.Sprintf("k%d", j))
						var pass []byte
						rounds := uint32(0)
						if j == 0 {
							pass = randBytes(t.Rng, 1+t.Rng.Intn(80))
							rounds = uint32(1 + i%17)
							switch i {
							case 0:
								rounds = 42
							case 1:
								rounds = 257
							case 2:
								rounds = 513
							case 3:
								if t.cfg.Thorough {
									rounds = 2049
								}
							case 4, 5, 6, 7:
								pass = randBytes(t.Rng, []int{1025, 4097, 70000, 256}[i-4])
							case 8:
								pass = append([]byte{0, 0}, pass...)
							case 9:
								pass = append(pass, 0, '\n', ' ')
							}
						}
						opt := int(rounds)
						if i == 0 {
							opt = 0 // default options
						} else if rounds == 0 && j%2 == 1 {
							opt = 1 + t.Rng.Intn(100) // rounds requested but no passphrase
						}
						k := t.GenKey(base, pass, opt)
						t.checkEmitted(k, rounds, fmt.Sprintf("rounds %d, passphrase %d bytes", rounds, len(pass)))
						t.Obs("written key pairs checked", 1)
						t.Eval("key", k.Rec.encode())
						if j == 7 {
							t.Sample("pub %x", k.PubRec.encode())
						}
					}
				}})
			}
			cs = append(cs, Case{Name: "written/looks", Fn: func(t *T) {
				k := t.RefKey(sub(t.Dir(), "k"), nil, 0)
				for _, msg := range looks(t.Rng) {
					f := t.signBytes(k, msg, "sign")
					t.checkSigFile(k, k.Sec, f, msg, fmt.Sprintf("message %q", head(msg)))
					t.Eval("looks", f)
				}
			}})
			for i := 0; i < cfg.pick(24, 200); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("written/sigs/%d", i), Fn: func(t *T) {
					d := t.Dir()
					names := []string{"key.sec", "key", "key.sec.sec", "a.b.sec", "x.pub", ".sec", "key.SEC", "sec", "my key.sec", "k.sec.bak", "verify with.sec", "ключ.sec", "x.secsec", "key..sec", "line\nbreak.sec", "\nlead.sec", "x\nuntrusted comment: y.sec", "trail.sec\n", "\xff\xfe.sec", "cr\rname.sec", strings.Repeat("n", 20+10*(i%23)) + ".sec"}
					for j := range names {
						var pass []byte
						rounds := uint32(0)
						if j == i%14 && i%3 == 0 {
							pass, rounds = []byte("secret"), 1
						}
						k := t.RefKey(sub(d, fmt.Sprintf("base%d", j)), pass, rounds)
						dd := sub(d, fmt.Sprintf("dir%d.sec", j))
						t.must(os.Mkdir(dd, 0755), "mkdir")
						sec := sub(dd, names[j])
						t.must(os.Rename(k.Sec, sec), "rename")
						k.Sec = sec
						n := t.Rng.Intn(1 << uint(t.Rng.Intn(17)))
						if j < 4 {
							n = (i*4 + j) // short lengths exhaustively
						}
						msg := content(t.Rng, i+j, n)
						f1 := t.signBytes(k, msg, "sign")
						t.checkSigFile(k, sec, f1, msg, fmt.Sprintf("key file %q, message %d bytes", names[j], n))
						f2 := t.signBytes(k, msg, "sign again")
						if !bytes.Equal(f1, f2) {
							t.Failf("signing the same message twice gives different files: %q %q", f1, f2)
						}
						t.Obs("written signatures checked", 2)
						t.Eval("sig", f1)
						if j%3 == i%3 { // the name is the one given, not that of a link's target
							ln := sub(dd, fmt.Sprintf("link%d.sec", i))
							t.must(os.Symlink(sec, ln), "symlink")
							kl := *k
							kl.Sec = ln
							t.checkSigFile(k, ln, t.signBytes(&kl, msg, "sign with a linked key"), msg, fmt.Sprintf("key %q by way of a link", names[j]))
							t.Obs("written signatures checked", 1)
						}
					}
				}})
			}
			// the rounds field is a whole 32-bit number
			cs = append(cs, Case{Name: "foreign/rounds", Fn: func(t *T) {
				d := t.Dir()
				m := t.Write(sub(d, "m"), []byte("x"))
				for _, add := range []uint32{1 << 8, 1 << 12, 1 << 16, 1 << 20, 1 << 24, 1 << 31, 0xffff0000} {
					k := t.RefKey(sub(d, fmt.Sprintf("k%x", add)), []byte("pw"), 2)
					r := *k.Rec
					r.Rounds += add
					t.Write(k.Sec, dataFile("c", r.encode()))
					res := t.Op(cliOpts{Dir: d, Umask: -1, Wrap: []string{"timeout", "-s", "KILL", "1.2"}}, opSpec{Op: "sign", A: []string{k.Sec, m, sub(d, "s")}, Pass: hex.EncodeToString(k.Pass)})
					if res.Exit == 0 || exists(sub(d, "s")) {
						t.Failf("a key masked with 2 rounds is unlocked as one of %d rounds", r.Rounds)
					}
					lp, err := signify.LoadPrivateKey(k.Sec)
					if err != nil {
						t.Failf("key with %d rounds not loaded: %v", r.Rounds, err)
					}
					if !lp.IsEncrypted() {
						t.Failf("key with %d rounds is said to be unprotected", r.Rounds)
					}
					t.Eval("rounds", add)
				}
			}})
			for i := 0; i < cfg.pick(24, 200); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("foreign/%d", i), Fn: func(t *T) {
					d := t.Dir()
					coms := []string{"signify secret key", "", "x", "zażółć", "signify public key", strings.Repeat("long ", 150), "verify with k.pub", "\x01\xff binary",
						strings.Repeat("y", []int{1000, 1005, 1024, 1100, 4077, 4096, 8000, 20000, 65516, 65517, 65518, 65536, 66000, 100000, 131072, 1 << 20}[i%16]),
						"tab\tand\rreturn \r", "untrusted comment: twice", "\x00\x1b[0m", " ", "\u2028\u0085\v\f", "RWQAAA=="}
					for j := 0; j < 4; j++ {
						var pass []byte
						rounds := uint32(0)
						if j == 0 {
							pass, rounds = randBytes(t.Rng, 1+t.Rng.Intn(60)), uint32(1+i%9)
							if i >= 4 && i < 8 {
								pass = randBytes(t.Rng, []int{1025, 4097, 70000, 256}[i-4])
							}
							if i == 2 {
								rounds = 64
							}
							if i == 3 {
								rounds = 256
							}
						}
						k := t.RefKey(sub(d, fmt.Sprintf("k%d", j)), pass, rounds)
						com := coms[(i+j*4)%len(coms)]
						t.Write(k.Sec, dataFile(com, k.Rec.encode()))
						t.Write(k.Pub, dataFile(coms[(i*3+j)%len(coms)], k.PubRec.encode()))
						// the mode is the owner's business
						t.must(os.Chmod(k.Sec, []os.FileMode{0600, 0644, 0400, 0664, 0640, 0666}[(i+j)%6]), "chmod")
						t.must(os.Chmod(k.Pub, []os.FileMode{0644, 0600, 0444, 0666, 0664}[(i+2*j)%5]), "chmod")
						lp, err := signify.LoadPrivateKey(k.Sec)
						if err != nil {
							t.Failf("foreign secret key (rounds %d, comment %.60q) not loaded: %v", rounds, com, err)
						}
						if lp.IsEncrypted() != (rounds > 0) {
							t.Failf("IsEncrypted()=%v for a key with %d rounds", lp.IsEncrypted(), rounds)
						}
						if cerr := lp.Check(); (cerr == nil) != (rounds == 0) {
							t.Failf("Check() = %v for an intact key with %d rounds before unlocking", cerr, rounds)
						}
						msg := content(t.Rng, i+j, t.Rng.Intn(2000))
						t.checkSigFile(k, k.Sec, t.signBytes(k, msg, "foreign key"), msg, fmt.Sprintf("foreign key, rounds %d", rounds))
						t.Obs("foreign keys used", 1)
						t.Eval("foreign", k.Rec.encode(), com)
						// a file encrypted to it elsewhere
						pl, err := refSeal(refBoxPub(k.PubRec.Key), randBytes(t.Rng, 32), msg)
						t.must(err, "refSeal")
						e := t.Write(sub(d, "e"), encFile("x", pl, "\n"))
						t.Use(k)
						if err := crypto.Open(k.Sec, e, sub(d, "o")); err != nil || !bytes.Equal(t.Read(sub(d, "o")), msg) {
							t.Failf("file encrypted to a foreign key not decrypted: %v", err)
						}
						for q := 0; q < 8; q++ {
							msg := content(t.Rng, q, t.Rng.Intn(500))
							m := t.Write(sub(d, "fm"), msg)
							s := &sigRec{"Ed", k.Rec.KeyNum, ed25519.Sign(ed25519.PrivateKey(k.Clear), msg)}
							t.Write(m+".sig", dataFile(coms[(q+i)%len(coms)], s.encode()))
							if err := signify.Verify(k.Pub, m, ""); err != nil {
								t.Failf("foreign signature (comment %.60q, %d bytes) rejected: %v", coms[(q+i)%len(coms)], len(msg), err)
							}
							t.Obs("foreign signatures verified", 1)
							t.Eval("fsig", s.encode())
						}
						t.Sample("foreign key rounds=%d comment=%.60q", rounds, com)
					}
				}})
			}
			return cs
		},
	})
}
