package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"

	"github.com/kisom/psignify/signify"
)

// roundTrip signs msg with k and demands that verification accepts.
func (t *T) signVerify(k *KeyPair, msgPath, sigArg string, what string) {
	sigFile := sigArg
	if sigFile == "" {
		sigFile = msgPath + ".sig"
	}
	t.Use(k)
	if err := signify.Sign(k.Sec, msgPath, sigArg); err != nil {
		t.Failf("%s: signing failed: %v", what, err)
	}
	if !exists(sigFile) {
		t.Failf("%s: signing succeeded but %q does not exist", what, sigFile)
	}
	t.NoPass()
	if err := signify.Verify(k.Pub, msgPath, sigArg); err != nil {
		b, _ := os.ReadFile(sigFile)
		t.Failf("%s: fresh signature rejected: %v\nsignature file: %q", what, err, b)
	}
	if sigArg == "" {
		if err := signify.Verify(k.Pub, msgPath, sigFile); err != nil {
			t.Failf("%s: fresh signature rejected when its default path is given explicitly: %v", what, err)
		}
	}
	if t.Prompts() != 0 {
		t.Failf("%s: verification asked for a passphrase", what)
	}
	t.Obs("sign+verify accepted", 1)
}

var oddNames = []string{
	"plain", "with space", " lead", "trail ", "-dash", "--", "ünïcödé-文字", "a.sec", "a.sec.sec", "dots...", ".hidden",
	"per%cent%s", "quote'\"", "semi;colon&", "star*?[x]", "back\\slash", "tab\tname", "UPPER.SEC", "x.pub", "x.sig", "x.sig.sig",
	"untrusted comment: x", "verify with y.pub", "#hash", "~tilde", "$HOME", "eq=uals", "colon:name", "new.sec.bak",
	"line\nbreak", "\nlead", "trail\n", "two\n\nbreaks", "k\nuntrusted comment: x", "crlf\r\nname", "k\nRWQAAA==", "\xff\xfe", "cr\rname",
	"-", "stdin", "*", "~", "%s%n", "m", "...", "@file", "fd:0",
}

func init() {
	register(&Prop{
		ID:   "C01",
		Rule: "one evaluation = one sign+verify round trip on the real code; cases vary message length (every length 0-130, powers of two and their neighbours, up to several MB), content class, key protection, path spelling, replaced output and API/command; distinct by (message, key class, path form)",
		Min:  map[string]int64{"sign+verify accepted": 300, "cli sign+verify accepted": 10, "replaced longer signature": 5, "protected key signatures": 10, "messages beyond 16 MiB": 8, "names with line breaks": 6},
		Cases: func(cfg *Config) []Case {
			var cs []Case
			sizes := []int{}
			for i := 0; i <= 130; i++ {
				sizes = append(sizes, i)
			}
			for _, p := range []int{255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 16384, 16385, 16386, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 131071, 131073, 262144, 524289, 1048575, 1048576, 1048577} {
				sizes = append(sizes, p)
			}
			for class := 0; class < 8; class++ {
				class := class
				for part := 0; part < 2; part++ {
					part := part
					cs = append(cs, Case{Name: fmt.Sprintf("sizes/class%d/part%d", class, part), Fn: func(t *T) {
						d := t.Dir()
						var k *KeyPair
						rounds := 0
						if class%4 == 3 {
							rounds = 1
							k = t.GenKey(sub(d, "k"), []byte("pass phrase"), rounds)
						} else {
							k = t.GenKey(sub(d, "k"), nil, 0)
						}
						m := sub(d, "msg")
						for i, n := range sizes {
							if i%2 != part {
								continue
							}
							if rounds > 0 && !t.cfg.Thorough && i%8 > 1 {
								continue
							}
							msg := content(t.Rng, class, n)
							t.Write(m, msg)
							os.Remove(m + ".sig")
							t.signVerify(k, m, "", fmt.Sprintf("message class %d, %d bytes, protected=%v", class, n, rounds > 0))
							if rounds > 0 {
								t.Obs("protected key signatures", 1)
							}
							t.Eval("sizes", msg, rounds)
						}
						t.Sample("message content class %d, %d lengths up to %d, KDF rounds %d", class, len(sizes)/2, sizes[len(sizes)-1], rounds)
					}})
				}
			}
			for i := 0; i < cfg.pick(16, 200); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("random/%d", i), Fn: func(t *T) {
					// a fresh key for every few messages
					for j := 0; j < 12; j++ {
						d := t.Dir()
						var pass []byte
						rounds := 0
						if j == 0 {
							pass = randBytes(t.Rng, 1+t.Rng.Intn(100))
							rounds = 1 + t.Rng.Intn(3)
						}
						k := t.GenKey(sub(d, "key"), pass, rounds)
						for q := 0; q < 4; q++ {
							n := t.Rng.Intn(1 << uint(t.Rng.Intn(18)))
							msg := content(t.Rng, t.Rng.Intn(8), n)
							m := t.Write(sub(d, fmt.Sprintf("m%d", q)), msg)
							sig := ""
							if q%2 == 1 {
								sig = sub(d, fmt.Sprintf("s%d", q))
							}
							t.signVerify(k, m, sig, fmt.Sprintf("random %d bytes", n))
							if pass != nil {
								t.Obs("protected key signatures", 1)
							}
							t.Eval("random", msg, k.Clear)
						}
					}
				}})
			}
			cs = append(cs, Case{Name: "looks", Fn: func(t *T) {
				d := t.Dir()
				k := t.GenKey(sub(d, "k"), nil, 0)
				for i, msg := range looks(t.Rng) {
					m := t.Write(sub(d, "m"), msg)
					os.Remove(m + ".sig")
					t.signVerify(k, m, "", fmt.Sprintf("message %q", head(msg)))
					t.Eval("looks", i, msg)
				}
			}})
			for _, n := range []int{3 << 20, 7<<20 + 13} {
				n := n
				cs = append(cs, Case{Name: fmt.Sprintf("large/%d", n), Fn: func(t *T) {
					d := t.Dir()
					k := t.GenKey(sub(d, "k"), nil, 0)
					msg := content(t.Rng, 0, n)
					m := t.Write(sub(d, "m"), msg)
					t.signVerify(k, m, "", fmt.Sprintf("%d bytes", n))
					t.Eval("large", n)
				}})
			}
			// sparse messages beyond the powers of two
			huge := []int64{1<<30 + 1, 1<<29 + 7, 1 << 28, 1<<28 + 1, 1<<27 + 5, 100000001, 1<<26 + 1, 1<<25 + 1, 1<<24 + 1}
			if cfg.Thorough {
				huge = append(huge, 200<<20)
				cs = append(cs, Case{Name: "sparse/giants", Ticks: 1800, Fn: func(t *T) {
					d := t.Dir()
					k := t.GenKey(sub(d, "k"), nil, 0)
					for _, n := range []int64{1<<32 + 3, 1<<31 + 1, 1 << 31, 1<<31 - 1} {
						m := sub(d, "m")
						os.Remove(m)
						t.sparse(m, n, 30)
						t.signVerify(k, m, "", fmt.Sprintf("message of %d bytes", n))
						t.Obs("messages beyond 16 MiB", 1)
						t.Eval("sparse", n)
						debug.FreeOSMemory()
					}
				}})
			}
			for _, n := range huge {
				n := n
				cs = append(cs, Case{Name: fmt.Sprintf("sparse/%d", n), Ticks: 900, Fn: func(t *T) {
					if n > 1<<30 {
						defer debug.FreeOSMemory()
					}
					d := t.Dir()
					k := t.GenKey(sub(d, "k"), nil, 0)
					m := sub(d, "m")
					t.sparse(m, n, 30)
					t.signVerify(k, m, "", fmt.Sprintf("message of %d bytes", n))
					t.Obs("messages beyond 16 MiB", 1)
					t.Eval("sparse", n)
				}})
			}
			for i, name := range oddNames {
				i, name := i, name
				cs = append(cs, Case{Name: fmt.Sprintf("names/%d", i), Fn: func(t *T) {
					d := t.Dir()
					dd := sub(d, "dir "+name)
					t.must(os.Mkdir(dd, 0755), "mkdir")
					var pass []byte
					if i%5 == 0 {
						pass = []byte("pw " + name)
					}
					k := t.GenKey(sub(dd, name), pass, 1)
					m := t.Write(sub(dd, name+" msg"), content(t.Rng, 4, 100+i))
					t.signVerify(k, m, "", "odd names "+name)
					t.signVerify(k, m, sub(d, name+"-out"), "odd names, explicit signature path "+name)
					t.Eval("names", name)
					if strings.Contains(name, "\n") {
						t.Obs("names with line breaks", 1)
					}
					// key file without the .sec suffix and a public key of unrelated name
					k2 := *k
					k2.Sec, k2.Pub = sub(d, name+" secret"), sub(d, "other "+name)
					t.must(os.Rename(k.Sec, k2.Sec), "rename")
					t.must(os.Rename(k.Pub, k2.Pub), "rename")
					t.signVerify(&k2, m, "", "renamed key files "+name)
					// through symbolic links
					k3 := k2
					k3.Sec, k3.Pub = sub(d, "lnk.sec"), sub(d, "lnk.pub")
					ml := sub(d, "lnk-msg")
					t.must(os.Symlink(k2.Sec, k3.Sec), "symlink")
					t.must(os.Symlink(k2.Pub, k3.Pub), "symlink")
					t.must(os.Symlink(m, ml), "symlink")
					t.signVerify(&k3, ml, "", "symlinked inputs "+name)
					t.Eval("names-linked", name)
					// relative paths
					wd, _ := os.Getwd()
					t.must(os.Chdir(dd), "chdir")
					defer os.Chdir(wd)
					k4 := k2
					k4.Sec, k4.Pub = "../"+filepath.Base(k2.Sec), "../"+filepath.Base(k2.Pub)
					t.signVerify(&k4, "./"+filepath.Base(m), "", "relative paths "+name)
					t.signVerify(&k4, filepath.Base(m), "../rel.sig", "relative paths "+name)
					t.Eval("names-relative", name)
					// nothing but the name, for one file after the other
					for _, what := range []string{"message", "secret", "public", "signature"} {
						b := sub(d, "bare "+what)
						t.must(os.Mkdir(b, 0755), "mkdir")
						t.must(os.Chdir(b), "chdir")
						k5, m5, sig := k2, m, sub(d, "bare.sig")
						switch what {
						case "message":
							m5, sig = name, []string{"", sig}[i%2]
							t.Write(b+"/"+name, content(t.Rng, 4, 200+i))
						case "secret":
							k5.Sec = name
							t.Write(b+"/"+name, t.Read(k2.Sec))
						case "public":
							k5.Pub = name
							t.Write(b+"/"+name, t.Read(k2.Pub))
						default:
							sig = name
						}
						t.signVerify(&k5, m5, sig, fmt.Sprintf("bare name %q of the %s", name, what))
						t.Eval("names-bare", what, name)
					}
					t.Sample("key %q message %q", k.Sec, m)
				}})
			}
			// the command with the same names, messages elsewhere and the default path
			for i, name := range oddNames {
				i, name := i, name
				cs = append(cs, Case{Name: fmt.Sprintf("cli-names/%d", i), Fn: func(t *T) {
					d := t.Dir()
					kd, md := sub(d, "keys "+name), sub(d, "msgs", name)
					t.must(os.MkdirAll(kd, 0755), "mkdir")
					t.must(os.MkdirAll(md, 0755), "mkdir")
					kb := sub(kd, name)
					if r := t.CLI(cliOpts{Dir: d, Umask: 022}, "-G", "-n", "-p", kb); r.Exit != 0 {
						t.Failf("-G -n -p %q failed: %v", kb, r)
					}
					t.Write(sub(md, name), content(t.Rng, i, 50+i))
					t.Write(sub(d, name), content(t.Rng, i, 90+i))
					t.Write(sub(d, "msgs", "z"+name), content(t.Rng, i, 70+i))
					t.must(os.Symlink(md, sub(d, "lnk")), "symlink") // lnk/.. is msgs
					for _, m := range []string{sub(md, name), "msgs/" + name + "/" + name, "./msgs/../msgs/" + name + "//" + name, name, "./" + name, "lnk/../z" + name, d + "/lnk/.././z" + name} {
						if r := t.CLI(cliOpts{Dir: d, Umask: 022}, "-S", "-s", kb+".sec", "-m", m); r.Exit != 0 {
							t.Failf("-S -m %q failed: %v", m, r)
						}
						p := m
						if !filepath.IsAbs(p) {
							p = d + "/" + p
						}
						if !exists(p + ".sig") {
							t.Failf("-S -m %q made no %q", m, m+".sig")
						}
						if r := t.CLI(cliOpts{Dir: d, Umask: 022}, "-V", "-p", kb+".pub", "-m", m); r.Exit != 0 {
							t.Failf("-V -m %q rejected a fresh signature: %v", m, r)
						}
						if r := t.CLI(cliOpts{Dir: d, Umask: 022}, "-V", "-p", kb+".pub", "-m", m, "-x", p+".sig"); r.Exit != 0 {
							t.Failf("-V -m %q -x %q rejected a fresh signature: %v", m, p+".sig", r)
						}
						t.must(os.Remove(p+".sig"), "remove")
						t.Obs("cli sign+verify accepted", 1)
						t.Eval("cli-names", name, m)
					}
				}})
			}
			cs = append(cs, Case{Name: "longname", Fn: func(t *T) {
				d := t.Dir()
				for _, n := range []int{100, 200, 240, 250} {
					name := string(bytes.Repeat([]byte{'k'}, n))
					k := t.GenKey(sub(d, name), nil, 0)
					m := t.Write(sub(d, string(bytes.Repeat([]byte{'m'}, n))), content(t.Rng, 0, 99))
					t.signVerify(k, m, "", fmt.Sprintf("name length %d", n))
					t.Eval("longname", n)
				}
			}})
			cs = append(cs, Case{Name: "replace", Fn: func(t *T) {
				d := t.Dir()
				for i := 0; i < 40; i++ {
					k := t.GenKey(sub(d, fmt.Sprintf("k%d", i)), nil, 0)
					m := t.Write(sub(d, fmt.Sprintf("m%d", i)), content(t.Rng, i, i*37))
					old := content(t.Rng, i, 1+t.Rng.Intn(5000))
					if i%3 == 0 {
						old = dataFile(string(bytes.Repeat([]byte("long comment "), 20)), randBytes(t.Rng, 90))
					}
					sig := ""
					p := m + ".sig"
					if i%2 == 1 {
						sig = sub(d, fmt.Sprintf("out%d", i))
						p = sig
					}
					t.Write(p, old)
					t.signVerify(k, m, sig, fmt.Sprintf("replacing a %d-byte signature file", len(old)))
					if len(old) > 200 {
						t.Obs("replaced longer signature", 1)
					}
					t.Eval("replace", old)
				}
			}})
			cs = append(cs, Case{Name: "defaultrounds", Fn: func(t *T) {
				d := t.Dir()
				k := t.GenKey(sub(d, "k"), []byte("correct horse"), 0)
				for i := 0; i < 3; i++ {
					m := t.Write(sub(d, "m"), content(t.Rng, i, 1000*i))
					t.signVerify(k, m, "", "default rounds")
					t.Obs("protected key signatures", 1)
					t.Eval("defaultrounds", i)
				}
			}})
			cs = append(cs, Case{Name: "openbsdkey", Fn: func(t *T) {
				d := t.Dir()
				k := t.fixture(d)
				for i := 0; i < 4; i++ {
					m := t.Write(sub(d, fmt.Sprint(i)), content(t.Rng, i, 300*i))
					t.signVerify(k, m, "", "key made by OpenBSD signify")
					t.Eval("openbsdkey", i)
				}
			}})
			for i := 0; i < cfg.pick(12, 60); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("cli/%d", i), Fn: func(t *T) {
					d := t.Dir()
					sizes := []int{0, 1, 57, 4096, 70000, 300000}
					pass := []string(nil)
					if r := t.CLI(cliOpts{Dir: d, Umask: 022}, "-G", "-n", "-p", "ck"); r.Exit != 0 {
						t.Failf("-G -n failed: %v", r)
					}
					if i%3 == 2 {
						pass = []string{"tty pass"}
						if r := t.CLI(cliOpts{Dir: d, Umask: 022, Answers: []string{"tty pass", "tty pass"}}, "-G", "-p", "ck2"); r.Exit != 0 {
							t.Failf("-G with passphrase failed: %v", r)
						}
					}
					name := "ck"
					if pass != nil {
						name = "ck2"
					}
					for j, n := range sizes {
						msg := content(t.Rng, i+j, n)
						t.Write(sub(d, "m"), msg)
						args := []string{"-S", "-s", name + ".sec", "-m", "m"}
						vargs := []string{"-V", "-p", name + ".pub", "-m", "m"}
						if j%2 == 1 {
							args = append(args, "-x", "explicit.sig")
							vargs = append(vargs, "-x", "explicit.sig")
						}
						if r := t.CLI(cliOpts{Dir: d, Umask: 022, Answers: pass}, args...); r.Exit != 0 {
							t.Failf("%v failed: %v", args, r)
						}
						if r := t.CLI(cliOpts{Dir: d, Umask: 022}, vargs...); r.Exit != 0 {
							t.Failf("%v rejected a fresh signature: %v", vargs, r)
						}
						t.Obs("cli sign+verify accepted", 1)
						t.Eval("cli", msg, j, pass != nil)
					}
				}})
			}
			return cs
		},
	})
}
