package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
)

// watched arms the prompt with a buffer that stays visible to the monitor.
type watched struct {
	t    *T
	bufs [][]byte
}

func (w *watched) arm(p []byte, spare int) {
	w.bufs = nil
	w.t.mu.Lock()
	w.t.prompts = 0
	w.t.prompt = func(bool) ([]byte, error) {
		b := make([]byte, len(p), len(p)+spare)
		copy(b, p)
		w.bufs = append(w.bufs, b)
		return b, nil
	}
	w.t.mu.Unlock()
}

// wiped demands that every buffer handed out holds zeros only.
func (w *watched) wiped(p []byte, what string) {
	for _, b := range w.bufs {
		for i, c := range b {
			if c != 0 {
				w.t.Failf("%s: the passphrase buffer is not wiped: byte %d of %d is %#x (passphrase %x, buffer %x)", what, i, len(b), c, p, b)
			}
		}
		w.t.Obs("buffers inspected", 1)
	}
	if len(w.bufs) == 0 {
		w.t.Obs("operations without prompt", 1)
	}
}

// secrets collects what must not leak.
func secretsOf(k *KeyPair, pass []byte) *leakScanner {
	l := &leakScanner{}
	if len(pass) >= 8 {
		l.add("passphrase", pass, len(pass))
		if len(pass) > 16 {
			l.add("part of the passphrase", pass, 16)
		}
	}
	if k != nil {
		l.add("secret key seed", k.Clear[:32], 8)
		l.add("decryption key", refBoxPriv(k.Clear[:32]), 8)
		if k.Rec.Rounds > 0 {
			x := make([]byte, 32)
			for i := range x {
				x[i] = k.Rec.Key[i] ^ k.Clear[i]
			}
			l.add("key derived from the passphrase", x, 8)
		}
	}
	return l
}

// scan searches every file of the tree and the given texts.
func (t *T) scan(l *leakScanner, dir string, exempt map[string]bool, texts map[string]string, what string) {
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || !fi.Mode().IsRegular() || exempt[p] {
			return nil
		}
		b, err := os.ReadFile(p)
		if err == nil {
			t.Obs("bytes scanned", int64(len(b)))
			t.Obs("files scanned", 1)
			if f := l.find(b); f != "" {
				rel, _ := filepath.Rel(dir, p)
				t.Failf("%s: the %s appears in file %s", what, f, rel)
			}
		}
		if f := l.find([]byte(p)); f != "" {
			t.Failf("%s: the %s appears in a file name", what, f)
		}
		return nil
	})
	for n, s := range texts {
		t.Obs("bytes scanned", int64(len(s)))
		t.Obs("texts scanned", 1)
		if f := l.find([]byte(s)); f != "" {
			t.Failf("%s: the %s appears in %s: %q", what, f, n, s)
		}
	}
}

// captured runs f with standard output and standard error going to a pipe.
func captured(t *T, f func()) string {
	r, w, err := os.Pipe()
	t.must(err, "pipe")
	so, se := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = w, w
	done := make(chan string, 1)
	go func() {
		b, _ := io.ReadAll(r)
		done <- string(b)
	}()
	func() {
		defer func() {
			os.Stdout, os.Stderr = so, se
			w.Close()
		}()
		f()
	}()
	s := <-done
	r.Close()
	return s
}

func passText(t *T, n int) []byte {
	const abc = "abcdefghijkmnpqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ23456789 !%&/()=?+*#-_.:,;<>"
	b := make([]byte, n)
	for i := range b {
		b[i] = abc[t.Rng.Intn(len(abc))]
	}
	b[0], b[n-1] = 'P', 'q'
	return b
}

func init() {
	register(&Prop{
		ID:   "C20",
		Rule: "one evaluation = one operation after which the buffer its prompt returned is inspected byte by byte and every file of its directory (which is also current, home and temporary directory), its standard output and error, its error text and its terminal transcript are searched for the passphrase and for any 8-byte piece of the seed, of the derived decryption key and of the key derived from the passphrase, raw, hexadecimal, decimal and base64; distinct by (operation, outcome, passphrase)",
		Min: map[string]int64{"damaged key files": 25, "buffers inspected": 500, "files scanned": 1500, "texts scanned": 500, "terminal transcripts": 15, "protected generations": 60,
			"failed operations": 250, "successful operations": 200},
		Assumptions: []string{"copies that the Go runtime or the KDF make in memory are out of reach", "the prompt's buffer is the slice the PassphrasePrompt hook returns"},
		Cases: func(cfg *Config) []Case {
			var cs []Case
			outcomes := []string{"success", "wrong passphrase", "empty passphrase", "damaged key", "damaged checksum", "missing message", "message is a directory", "no output directory", "output is a directory", "bad input"}
			for _, op := range []string{"sign", "open", "convert", "convert-again"} {
				for _, oc := range outcomes {
					op, oc := op, oc
					if strings.HasPrefix(op, "convert") && strings.Contains("missing message message is a directory no output directory output is a directory bad input", oc) {
						continue
					}
					if op == "sign" && oc == "bad input" {
						continue
					}
					cs = append(cs, Case{Name: "wipe/" + op + "/" + oc, Fn: func(t *T) {
						lens := []int{1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 72, 73, 100, 128, 129, 255, 256, 1000}
						for _, n := range lens {
							pass := randBytes(t.Rng, n)
							if n >= 8 && n%2 == 0 {
								pass = passText(t, n)
							}
							for i := range pass {
								if pass[i] == 0 {
									pass[i] = 1
								}
							}
							switch n % 7 { // beginnings and ends that invite trimming
							case 1:
								copy(pass, "\ufeff")
							case 2:
								pass[0], pass[n-1] = ' ', '\n'
							case 3:
								copy(pass, "  \t")
							}
							x := newTree(t, pass)
							rec := x.k.Rec.encode()
							given := pass
							a := []string{x.k.Sec, sub(x.d, "msg"), sub(x.d, "out")}
							if op == "open" {
								a[1] = sub(x.d, "enc")
							}
							switch oc {
							case "wrong passphrase":
								given = randBytes(t.Rng, n)
								for i := range given {
									given[i] |= 1
								}
							case "empty passphrase":
								given = []byte{}
							case "damaged key":
								t.Write(x.k.Sec, dataFile("c", flip(rec, 8*40+t.Rng.Intn(8*64))))
							case "damaged checksum":
								t.Write(x.k.Sec, dataFile("c", flip(rec, 8*24+t.Rng.Intn(64))))
							case "missing message":
								os.Remove(a[1])
							case "message is a directory":
								os.Remove(a[1])
								os.Mkdir(a[1], 0755)
							case "no output directory":
								a[2] = sub(x.d, "none/out")
							case "output is a directory":
								a[2] = sub(x.d, "sub")
							case "bad input":
								t.Write(a[1], mangle(t.Rng, t.Read(a[1])))
							}
							w := &watched{t: t}
							w.arm(given, t.Rng.Intn(40))
							var err error
							x.enter()
							text := captured(t, func() {
								switch op {
								case "sign":
									err = signify.Sign(a[0], a[1], a[2])
								case "open":
									err = crypto.Open(a[0], a[1], a[2])
								default:
									var p *signify.Private
									p, err = signify.LoadPrivateKey(a[0])
									if err == nil {
										_, err = p.ToBox()
										if op == "convert-again" {
											w.wiped(given, op+", "+oc)
											w.arm(given, 0)
											_, err = p.ToBox()
										}
									}
								}
							})
							x.restore()
							what := fmt.Sprintf("%s, %s, %d-byte passphrase (%v)", op, oc, n, err)
							if oc == "success" && err != nil {
								t.Failf("%s: should succeed", what)
							}
							w.wiped(given, what)
							errText := ""
							if err != nil {
								errText = err.Error()
								t.Obs("failed operations", 1)
							} else {
								t.Obs("successful operations", 1)
							}
							l := secretsOf(x.k, pass)
							if n >= 8 {
								l.add("passphrase given", given, len(given))
							}
							t.scan(l, x.d, nil, map[string]string{"the error text": errText, "standard output or error": text}, what)
							t.Eval(op, oc, pass)
							t.dropDirs()
						}
						t.Sample("%s, %s: passphrases of 1 to 1000 bytes", op, oc)
					}})
				}
			}
			// unprotected keys: nothing but the key file itself holds the key
			cs = append(cs, Case{Name: "unprotected", Fn: func(t *T) {
				for v := 0; v < 60; v++ {
					x := newTree(t, nil)
					t.NoPass()
					bad := v%3 == 2
					rec := x.k.Rec.encode()
					if bad {
						t.Write(x.k.Sec, dataFile("c", flip(rec, 8*24+t.Rng.Intn(64))))
					}
					errs := ""
					note := func(err error) {
						if err != nil {
							errs += err.Error() + "\n"
							t.Obs("failed operations", 1)
						} else {
							t.Obs("successful operations", 1)
						}
					}
					x.enter()
					text := captured(t, func() {
						note(signify.Sign(x.k.Sec, sub(x.d, "msg"), sub(x.d, "s")))
						note(crypto.Open(x.k.Sec, sub(x.d, "enc"), sub(x.d, "o")))
						note(crypto.Open(x.k.Sec, sub(x.d, "sig"), sub(x.d, "o2")))
						note(signify.Verify(x.k.Sec, sub(x.d, "msg"), sub(x.d, "s")))
						note(signify.Verify(x.k.Pub, sub(x.d, "msg"), x.k.Sec))
						note(crypto.Seal(x.k.Sec, sub(x.d, "msg"), sub(x.d, "e")))
						note(crypto.Seal(x.k.Pub, sub(x.d, "msg"), sub(x.d, "e2")))
						note(signify.Sign(x.k.Pub, sub(x.d, "msg"), sub(x.d, "s2")))
						if p, err := signify.LoadPrivateKey(x.k.Sec); err == nil {
							note(p.Check())
							_, err = p.ToBox()
							note(err)
						}
					})
					x.restore()
					t.scan(secretsOf(x.k, nil), x.d, map[string]bool{x.k.Sec: true}, map[string]string{"an error text": errs, "standard output or error": text}, fmt.Sprintf("operations with an unprotected key (bad checksum: %v)", bad))
					t.Eval("unprotected", v)
					t.dropDirs()
				}
			}})
			// key files that are damaged, cut or written in another way
			cs = append(cs, Case{Name: "damaged", Ticks: 300, Fn: func(t *T) {
				rep := func(n int, b byte) []byte { return bytes.Repeat([]byte{b}, n) }
				shapes := []struct {
					name string
					file func(r []byte) []byte
				}{
					{"short by a byte", func(r []byte) []byte { return dataFile("c", r[:len(r)-1]) }},
					{"short by a hash", func(r []byte) []byte { return dataFile("c", r[:len(r)-32]) }},
					{"long by a byte", func(r []byte) []byte { return dataFile("c", append(r, 0)) }},
					{"long by a block", func(r []byte) []byte { return dataFile("c", append(r, rep(64, 7)...)) }},
					{"twice", func(r []byte) []byte { return dataFile("c", append(r, r...)) }},
					{"only the key", func(r []byte) []byte { return dataFile("c", r[40:]) }},
					{"only the seed", func(r []byte) []byte { return dataFile("c", r[40:72]) }},
					{"as a public key", func(r []byte) []byte { return dataFile("c", append(append([]byte("Ed"), r[32:40]...), r[40:72]...)) }},
					{"as a signature", func(r []byte) []byte { return dataFile("c", append(append([]byte("Ed"), r[32:40]...), r[40:104]...)) }},
					{"other tag", func(r []byte) []byte { r[0] = 'X'; return dataFile("c", r) }},
					{"tag out of the key", func(r []byte) []byte { return dataFile("c", append(r[40:], rep(40, 1)...)) }},
					{"other KDF", func(r []byte) []byte { r[2] = 'X'; return dataFile("c", r) }},
					{"rounds", func(r []byte) []byte { r[7] ^= 1; return dataFile("c", r) }},
					{"bad checksum", func(r []byte) []byte { r[24] ^= 1; return dataFile("c", r) }},
					{"bad key", func(r []byte) []byte { r[103] ^= 1; return dataFile("c", r) }},
					{"no comment", func(r []byte) []byte { return []byte(b64s(r) + "\n") }},
					{"no comment, no line break", func(r []byte) []byte { return []byte(b64s(r)) }},
					{"other comment", func(r []byte) []byte { return []byte("comment\n" + b64s(r) + "\n") }},
					{"behind a comment", func(r []byte) []byte { return []byte("untrusted comment: " + b64s(r) + "\n") }},
					{"illegal character at the end", func(r []byte) []byte { return append(bytes.TrimRight(dataFile("c", r), "=\n"), "!\n"...) }},
					{"illegal character at the start", func(r []byte) []byte { return []byte("untrusted comment: c\n!" + b64s(r) + "\n") }},
					{"illegal character inside", func(r []byte) []byte {
						s := b64s(r)
						return []byte("untrusted comment: c\n" + s[:100] + "-" + s[101:] + "\n")
					}},
					{"cut base64", func(r []byte) []byte { s := b64s(r); return []byte("untrusted comment: c\n" + s[:len(s)-3] + "\n") }},
					{"broken line", func(r []byte) []byte {
						s := b64s(r)
						return []byte("untrusted comment: c\n" + s[:70] + "\n" + s[70:] + "\n")
					}},
					{"blanks", func(r []byte) []byte { return []byte("untrusted comment: c\n " + b64s(r) + " \n") }},
					{"hexadecimal", func(r []byte) []byte { return []byte(fmt.Sprintf("untrusted comment: c\n%x\n", r)) }},
					{"raw", func(r []byte) []byte { return append([]byte("untrusted comment: c\n"), r...) }},
				}
				for v, s := range shapes {
					x := newTree(t, nil)
					t.NoPass()
					t.Write(x.k.Sec, s.file(append([]byte(nil), x.k.Rec.encode()...)))
					errs := ""
					note := func(err error) {
						if err != nil {
							errs += err.Error() + "\n"
							t.Obs("failed operations", 1)
						} else {
							t.Obs("successful operations", 1)
						}
					}
					x.enter()
					text := captured(t, func() {
						note(signify.Sign(x.k.Sec, sub(x.d, "msg"), sub(x.d, "s")))
						note(crypto.Open(x.k.Sec, sub(x.d, "enc"), sub(x.d, "o")))
						note(crypto.Open(x.k.Sec, x.k.Sec, sub(x.d, "o2")))
						note(signify.Verify(x.k.Sec, sub(x.d, "msg"), sub(x.d, "sig")))
						note(signify.Verify(x.k.Pub, sub(x.d, "msg"), x.k.Sec))
						note(crypto.Seal(x.k.Sec, sub(x.d, "msg"), sub(x.d, "e")))
						_, err := signify.LoadPrivateKey(x.k.Sec)
						note(err)
						_, err = signify.LoadPublicKey(x.k.Sec)
						note(err)
					})
					x.restore()
					texts := map[string]string{"an error text": errs, "standard output or error": text}
					for _, c := range []string{"-S -s k.sec -m msg -x s3", "-V -p k.sec -m msg -x sig", "-V -p k.pub -m msg -x k.sec", "-E -p k.sec -m msg -c e3", "-D -s k.sec -c enc -m o3"}[v%2*2:][:3] {
						args := strings.Fields(c)
						for i, a := range args {
							if i%2 == 0 && i > 0 {
								args[i] = sub(x.d, a)
								if a == "k.sec" {
									args[i] = x.k.Sec
								} else if a == "k.pub" {
									args[i] = x.k.Pub
								}
							}
						}
						r := t.CLI(cliOpts{Dir: x.d, Umask: 022}, args...)
						texts["what the command says"] += r.Stdout + r.Stderr
					}
					t.scan(secretsOf(x.k, nil), x.d, map[string]bool{x.k.Sec: true}, texts, "operations with a secret key file: "+s.name)
					t.Obs("damaged key files", 1)
					t.Eval("damaged", s.name)
					t.dropDirs()
				}
			}})
			// generation
			cs = append(cs, Case{Name: "generate", Fn: func(t *T) {
				for v := 0; v < 80; v++ {
					x := newTree(t, nil)
					pass := passText(t, 8+t.Rng.Intn(60))
					base := sub(x.d, "sub/new")
					var err error
					x.enter()
					text := captured(t, func() {
						err = signify.GenerateKey(base, append([]byte(nil), pass...), &signify.GenerateOptions{Rounds: 1})
						if err == nil && v%2 == 1 {
							err = signify.GenerateKey(base, append([]byte(nil), pass...), &signify.GenerateOptions{Rounds: 1})
						} else if err == nil && v%4 == 2 {
							err = signify.GenerateKey(sub(x.d, "none/x"), append([]byte(nil), pass...), &signify.GenerateOptions{Rounds: 1})
						}
					})
					x.restore()
					k := t.LoadPair(base, pass)
					errs := ""
					if err != nil {
						errs = err.Error()
					}
					t.scan(secretsOf(k, pass), x.d, nil, map[string]string{"the error text": errs, "standard output or error": text}, "generation of a protected key")
					t.Obs("protected generations", 1)
					// and one without passphrase: only in the .sec file
					if err := signify.GenerateKey(sub(x.d, "plain"), nil, nil); err != nil {
						t.Failf("GenerateKey: %v", err)
					}
					k = t.LoadPair(sub(x.d, "plain"), nil)
					t.scan(secretsOf(k, nil), x.d, map[string]bool{k.Sec: true}, nil, "generation of an unprotected key")
					t.Eval("generate", v)
					t.dropDirs()
				}
			}})
			// everything under unusual names
			cs = append(cs, Case{Name: "names", Ticks: 300, Fn: func(t *T) {
				for v, n := range []string{"k", strings.Repeat("k", 100), strings.Repeat("k", 201), strings.Repeat("k", 240), "k k", "k.sec", "%x", "%v%s", "k\u00fc", "-k", "k.pub", ".k"} {
					for _, pr := range []bool{false, true} {
						x := newTree(t, nil)
						pass := passText(t, 24+v)
						if !pr {
							pass = nil
						}
						base := sub(x.d, "sub/"+n)
						var errs string
						note := func(err error) {
							if err != nil {
								errs += err.Error() + "\n"
								t.Obs("failed operations", 1)
							} else {
								t.Obs("successful operations", 1)
							}
						}
						w := &watched{t: t}
						text := ""
						op := func(p []byte, f func() error) {
							w.arm(p, 0)
							x.enter()
							text += captured(t, func() { note(f()) })
							x.restore()
							w.wiped(p, "operation on a key named "+n)
						}
						op(nil, func() error {
							return signify.GenerateKey(base, append([]byte(nil), pass...), &signify.GenerateOptions{Rounds: 1})
						})
						k := t.LoadPair(base, pass)
						for i, p := range [][]byte{pass, passText(t, 30)} {
							if !pr && i == 1 {
								break
							}
							op(p, func() error { return signify.Sign(k.Sec, sub(x.d, "msg"), sub(x.d, "s")) })
							op(p, func() error { return crypto.Seal(k.Pub, sub(x.d, "msg"), sub(x.d, "e")) })
							op(p, func() error { return crypto.Open(k.Sec, sub(x.d, "e"), sub(x.d, "o")) })
							op(p, func() error { return signify.Sign(k.Sec, sub(x.d, "none"), sub(x.d, "s2")) })
							op(p, func() error { return crypto.Open(k.Sec, sub(x.d, "enc"), sub(x.d, "o2")) })
						}
						ex := map[string]bool{}
						if !pr {
							ex[k.Sec] = true
						}
						t.scan(secretsOf(k, pass), x.d, ex, map[string]string{"an error text": errs, "standard output or error": text}, fmt.Sprintf("operations on a key named %q", n))
						t.Eval("names", n, pr)
						t.dropDirs()
					}
				}
			}})
			// the command on a terminal
			for i := 0; i < cfg.pick(6, 40); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("terminal/%d", i), Ticks: 500, Fn: func(t *T) {
					pass := passText(t, []int{8, 12, 20, 40, 70, 120}[i%6])
					ps := string(pass)
					e := newCliEnv(t)
					k := e.key("k", pass)
					msg := content(t.Rng, t.Rng.Intn(8), 3000)
					t.Write(sub(e.d, "m"), msg)
					t.Write(sub(e.d, "c"), e.sealed(k, msg))
					t.Write(sub(e.d, "bad"), mangle(t.Rng, e.sealed(k, msg)))
					l := secretsOf(k, pass)
					wrong := string(passText(t, len(ps)))
					l.add("wrong passphrase", []byte(wrong), len(wrong))
					run := func(what string, ok bool, ans []string, args ...string) {
						r := e.run(ans, args...)
						if ok && r.Exit != 0 {
							t.Failf("%s: should succeed: %v", what, r)
						}
						if ok {
							t.Obs("successful operations", 1)
						} else {
							t.Obs("failed operations", 1)
						}
						t.scan(l, e.d, nil, map[string]string{"the terminal transcript": r.TTY, "standard output": r.Stdout, "standard error": r.Stderr}, what)
						t.Obs("terminal transcripts", 1)
						t.Eval("terminal", what, pass)
					}
					run("signing", true, []string{ps}, "-S", "-s", "k.sec", "-m", "m")
					run("decrypting", true, []string{ps}, "-D", "-s", "k.sec", "-c", "c", "-m", "o")
					run("signing with a wrong passphrase", false, []string{wrong}, "-S", "-s", "k.sec", "-m", "m", "-x", "y")
					run("decrypting with a wrong passphrase", false, []string{wrong}, "-D", "-s", "k.sec", "-c", "c", "-m", "o2")
					run("decrypting damaged data", false, []string{ps}, "-D", "-s", "k.sec", "-c", "bad", "-m", "o3")
					run("signing nothing", false, []string{ps}, "-S", "-s", "k.sec", "-m", "none")
					r := e.run([]string{ps, ps}, "-G", "-p", "new")
					if r.Exit != 0 {
						t.Failf("generation on a terminal: %v", r)
					}
					nk := t.LoadPair(sub(e.d, "new"), pass)
					t.scan(secretsOf(nk, pass), e.d, nil, map[string]string{"the terminal transcript": r.TTY, "standard error": r.Stderr}, "generation on a terminal")
					run("generation with different passphrases", false, []string{ps, wrong}, "-G", "-p", "new2")
					run("generation over an old key", false, []string{ps, ps}, "-G", "-p", "new")
					t.Obs("terminal transcripts", 1)
					t.Obs("protected generations", 1)
				}})
			}
			// separate processes, with all their streams
			cs = append(cs, Case{Name: "processes", Ticks: 500, Fn: func(t *T) {
				for v := 0; v < cfg.pick(30, 200); v++ {
					pass := passText(t, 8+t.Rng.Intn(40))
					e := newCliEnv(t)
					k := e.key("k", pass)
					u := e.key("u", nil)
					msg := content(t.Rng, t.Rng.Intn(8), 3000)
					t.Write(sub(e.d, "m"), msg)
					t.Write(sub(e.d, "c"), e.sealed(k, msg))
					t.Write(sub(e.d, "cu"), e.sealed(u, msg))
					l := secretsOf(k, pass)
					lu := secretsOf(u, nil)
					o := cliOpts{Dir: e.d, Umask: 022, Env: []string{"HOME=" + e.home, "TMPDIR=" + e.d}}
					given := pass
					if v%3 == 2 {
						given = passText(t, 10)
					}
					hexp := fmt.Sprintf("%x", given)
					sp := []opSpec{
						{Op: "sign", A: []string{"k.sec", "m", "s"}, Pass: hexp}, {Op: "open", A: []string{"k.sec", "c", "o"}, Pass: hexp}, {Op: "sign", A: []string{"u.sec", "m", "su"}},
						{Op: "open", A: []string{"u.sec", "cu", "ou"}}, {Op: "gen", A: []string{"u"}, Pass: hexp, Rounds: 1}, {Op: "open", A: []string{"u.sec", "c", "ox"}}, {Op: "seal", A: []string{"u.sec", "m", "x"}},
					}[v%7]
					r := t.Op(o, sp)
					texts := map[string]string{"standard output": r.Stdout, "standard error": r.Stderr}
					t.scan(l, e.d, nil, texts, fmt.Sprint(sp.Op, sp.A))
					t.scan(lu, e.d, map[string]bool{u.Sec: true}, texts, fmt.Sprint(sp.Op, sp.A))
					r = e.run(nil, [][]string{{"-S", "-s", "u.sec", "-m", "m"}, {"-D", "-s", "u.sec", "-c", "cu", "-m", "o"}, {"-D", "-s", "u.sec", "-c", "c", "-m", "o"}, {"-V", "-p", "u.sec", "-m", "m"},
						{"-E", "-p", "u.sec", "-m", "m"}, {"-G", "-n", "-p", "u"}, {"-V", "-p", "u.pub", "-m", "m", "-x", "u.sec"}, {"-E", "-p", "u.pub", "-m", "m"}}[v%8]...)
					t.scan(lu, e.d, map[string]bool{u.Sec: true}, map[string]string{"standard output": r.Stdout, "standard error": r.Stderr}, "command")
					t.Eval("process", v)
					t.dropDirs()
				}
			}})
			cs = append(cs, Case{Name: "self-test", Fn: func(t *T) {
				// the scanner finds what it is meant to find
				k := t.RefKey(sub(t.Dir(), "k"), nil, 0)
				l := secretsOf(k, []byte("a long passphrase"))
				if l.find(t.Read(k.Sec)) == "" {
					t.Inconclusivef("the scanner misses the key in an unprotected key file")
				}
				for _, s := range []string{fmt.Sprintf("x%xy", k.Clear[:32]), fmt.Sprint(k.Clear[3:20]), fmt.Sprintf("%#v", k.Clear[:32]), "err: a long passphrase!", string(refBoxPriv(k.Clear[:32])[9:])} {
					if l.find([]byte(s)) == "" {
						t.Inconclusivef("the scanner misses a secret in %q", s)
					}
				}
				if l.find(t.Read(k.Pub)) != "" {
					t.Inconclusivef("the scanner takes the public key for a secret")
				}
				t.Eval("self-test")
			}})
			return cs
		},
	})
}
