package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
)

const cliUid = 54321 // not in the password file: HOME and USER decide

// cliEnv is a directory of an unprivileged user.
type cliEnv struct {
	t    *T
	d    string
	home string
}

func newCliEnv(t *T) *cliEnv {
	d := t.Dir()
	e := &cliEnv{t, d, sub(d, "home")}
	t.must(os.MkdirAll(sub(e.home, ".signify"), 0700), "mkdir")
	e.own()
	return e
}

// own gives everything to the user.
func (e *cliEnv) own() {
	filepath.Walk(e.d, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Sys().(*syscall.Stat_t).Uid != cliUid {
			os.Lchown(p, cliUid, cliUid)
		}
		return nil
	})
}

func (e *cliEnv) run(answers []string, args ...string) cliResult {
	e.own()
	r := e.t.CLI(cliOpts{Dir: e.d, Umask: 022, Uid: cliUid, Env: []string{"HOME=" + e.home, "USER=joe"}, Answers: answers, Ticks: 120}, args...)
	e.t.Obs("commands run", 1)
	return r
}

// fails demands a proper failure.
func (e *cliEnv) fails(r cliResult, what string) {
	t := e.t
	if r.Exit == 0 && r.Signal == "" {
		t.Failf("%s: exit status 0: %v", what, r)
	}
	if r.OKLine() {
		t.Failf("%s: fails but prints OK: %v", what, r)
	}
	if r.Signal == "" && strings.TrimSpace(r.Stderr) == "" {
		t.Failf("%s: fails without a diagnostic on standard error: %v", what, r)
	}
	if strings.Contains(r.Stderr, "goroutine ") {
		t.Failf("%s: crashes: %v", what, r)
	}
	t.Obs("failures confirmed", 1)
}

func (e *cliEnv) works(r cliResult, ok bool, what string) {
	t := e.t
	if r.Exit != 0 || r.Signal != "" {
		t.Failf("%s: should succeed: %v", what, r)
	}
	if ok && !r.OKLine() {
		t.Failf("%s: succeeds without an OK line: %v", what, r)
	}
	t.Obs("successes confirmed", 1)
}

// key installs a reference key pair as base.sec, base.pub.
func (e *cliEnv) key(base string, pass []byte) *KeyPair {
	rounds := uint32(0)
	if pass != nil {
		rounds = 1
	}
	return e.t.RefKey(sub(e.d, base), pass, rounds)
}

func (e *cliEnv) sealed(k *KeyPair, msg []byte) []byte {
	pl, err := refSeal(refBoxPub(k.PubRec.Key), randBytes(e.t.Rng, 32), msg)
	e.t.must(err, "refSeal")
	return encFile("untrusted comment: x", pl, "\n")
}

func (e *cliEnv) goodSig(k *KeyPair, msg []byte, file string, what string) {
	_, rec, err := strictDataFile(e.t.Read(file))
	if err != nil || !refVerify(k.PubRec.encode(), rec, msg) {
		e.t.Failf("%s: the signature file is not right: %v", what, err)
	}
}

func (e *cliEnv) goodEnc(k *KeyPair, msg []byte, file string, what string) {
	_, pl, err := strictEncFile(e.t.Read(file))
	var m []byte
	if err == nil {
		m, err = refOpen(refBoxPriv(k.Clear[:32]), pl)
	}
	if err != nil || !bytes.Equal(m, msg) {
		e.t.Failf("%s: the encrypted file is not right: %v", what, err)
	}
}

// spell varies the spelling of flags.
func spell(r *rand.Rand, args []string) []string {
	var groups [][]string
	for i := 0; i < len(args); i++ {
		a := args[i]
		isBool := len(a) == 2 && strings.Contains("-S-V-G-E-D-n", a)
		if isBool {
			groups = append(groups, []string{[]string{a, "-" + a, a + "=true", a + "=1", "-" + a + "=T"}[r.Intn(5)]})
			continue
		}
		v := args[i+1]
		i++
		switch r.Intn(4) {
		case 0:
			groups = append(groups, []string{a, v})
		case 1:
			groups = append(groups, []string{a + "=" + v})
		case 2:
			groups = append(groups, []string{"-" + a, v})
		case 3:
			groups = append(groups, []string{"-" + a + "=" + v})
		}
	}
	r.Shuffle(len(groups), func(i, j int) { groups[i], groups[j] = groups[j], groups[i] })
	var out []string
	for _, g := range groups {
		out = append(out, g...)
	}
	return out
}

func init() {
	register(&Prop{
		ID:   "C18",
		Rule: "one evaluation = one run of the command (as a user of its own, in a directory of its own) whose exit status, standard output, standard error and files are compared with what was asked for, as judged by independent code or by the corresponding library call on a twin of the directory; distinct by arguments and inputs",
		Min: map[string]int64{"obstacles": 70, "commands run": 500, "failures confirmed": 200, "successes confirmed": 150, "malformed command lines": 60, "terminal dialogues": 20,
			"verifications": 120, "compared with library": 100, "default key runs": 8, "surroundings with a default key": 10, "file names": 100},
		Assumptions: []string{"several modes at once, -h and extra arguments after the last flag are unspecified"},
		Cases: func(cfg *Config) []Case {
			var cs []Case
			cs = append(cs, Case{Name: "malformed", Fn: func(t *T) {
				lines := []string{
					"", "-z", "--bogus", "-Q", "-Gx", "-SV", "-s", "-p", "-m", "-c", "-x", "-G -p", "-S -m msg -s", "-V -p k.pub -m", "-E -p k.pub -m", "-D -s k.sec -c enc -m",
					"-n=maybe -G -p new", "-G=foo -p new", "-=x -G -n -p new", "-S=2 -s k.sec -m msg", "-V=yes -p k.pub -m msg", "-E=on -p k.pub -m msg", "-D= -s k.sec -c enc -m out",
					"-m msg", "-p k.pub -m msg", "-s k.sec -m msg", "-n", "-n -p new", "-c enc -m out", "-x msg.sig", "-G=false -n -p new", "-S=false -s k.sec -m msg", "-V=0 -p k.pub -m msg",
					"-S", "-S -s k.sec", "-S -s k.sec -x out.sig", "-V", "-V -p k.pub", "-V -p k.pub -x msg.sig", "-E", "-E -p k.pub", "-E -p k.pub -c out.enc",
					"-D", "-D -s k.sec", "-D -s k.sec -c enc", "-D -s k.sec -m out", "-S -m msg", "-V -m msg", "-E -m msg", "-D -c enc -m out",
					"-S -s k.sec -m msg -z", "-V -p k.pub -m msg -z", "-G -n -p new -z", "-G -n -p new -bogus=1", "-E -p k.pub -m msg --q", "-D -s k.sec -c enc -m out -y",
					"msg -S -s k.sec -m msg", "sign", "help", "-", "-- -S -s k.sec -m msg", "--- -G -n -p new", "-v", "-version", "-V -p k.pub -- -m msg", "-S -s k.sec msg", "-E -p k.pub msg", "-G -n new",
					"-S -s=k.sec -m=", "-E -p k.pub -m=", "-V -p k.pub -m=", "-D -s k.sec -c= -m out", "-D -s k.sec -c enc -m=",
				}
				for _, l := range lines {
					e := newCliEnv(t)
					k := e.key("k", nil)
					msg := []byte("a message\n")
					t.Write(sub(e.d, "msg"), msg)
					priv := append([]byte(nil), k.Clear...)
					t.Write(sub(e.d, "msg.sig"), dataFile("verify with k.pub", refSign(k, priv, msg)))
					t.Write(sub(e.d, "enc"), e.sealed(k, msg))
					// no default key anywhere
					os.RemoveAll(e.home)
					os.Mkdir(e.home, 0755)
					e.own()
					before := t.snap(e.d)
					r := e.run(nil, strings.Fields(l)...)
					e.fails(r, fmt.Sprintf("%q", l))
					if d := before.diff(t.snap(e.d)); d != "" {
						t.Failf("refused command line %q changed files:\n%s", l, d)
					}
					t.Obs("malformed command lines", 1)
					t.Eval("malformed", l)
				}
				t.Sample("%d malformed or incomplete command lines", len(lines))
			}})
			for i := 0; i < cfg.pick(6, 60); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("spelling/%d", i), Fn: func(t *T) {
					e := newCliEnv(t)
					k := e.key("k", nil)
					for j := 0; j < 8; j++ {
						msg := content(t.Rng, t.Rng.Intn(8), t.Rng.Intn(20000))
						m := fmt.Sprintf("msg%d", j)
						mp := t.Write(sub(e.d, m), msg)
						x := spell(t.Rng, []string{"-S", "-s", "k.sec", "-m", m})
						e.works(e.run(nil, x...), false, fmt.Sprint(x))
						e.goodSig(k, msg, mp+".sig", fmt.Sprint(x))
						x = spell(t.Rng, []string{"-S", "-s", "k.sec", "-m", m, "-x", m + ".other"})
						e.works(e.run(nil, x...), false, fmt.Sprint(x))
						e.goodSig(k, msg, mp+".other", fmt.Sprint(x))
						x = spell(t.Rng, []string{"-V", "-p", "k.pub", "-m", m})
						e.works(e.run(nil, x...), true, fmt.Sprint(x))
						x = spell(t.Rng, []string{"-V", "-p", "k.pub", "-m", m, "-x", m + ".other"})
						e.works(e.run(nil, x...), true, fmt.Sprint(x))
						x = spell(t.Rng, []string{"-E", "-p", "k.pub", "-m", m})
						e.works(e.run(nil, x...), true, fmt.Sprint(x))
						e.goodEnc(k, msg, mp+".enc", fmt.Sprint(x))
						x = spell(t.Rng, []string{"-E", "-p", "k.pub", "-m", m, "-c", m + ".c"})
						e.works(e.run(nil, x...), true, fmt.Sprint(x))
						e.goodEnc(k, msg, mp+".c", fmt.Sprint(x))
						x = spell(t.Rng, []string{"-D", "-s", "k.sec", "-c", m + ".c", "-m", m + ".d"})
						e.works(e.run(nil, x...), true, fmt.Sprint(x))
						if !bytes.Equal(t.Read(mp+".d"), msg) {
							t.Failf("%v: wrong message", x)
						}
						x = spell(t.Rng, []string{"-G", "-n", "-p", m + ".key"})
						e.works(e.run(nil, x...), false, fmt.Sprint(x))
						t.pairOK(mp+".key", nil, 0)
						x = spell(t.Rng, []string{"-G", "-n", "-p", m + ".key"})
						e.fails(e.run(nil, x...), fmt.Sprint(x)+" again")
						t.Eval("spell", i, j, fmt.Sprint(x))
					}
				}})
			}
			for i := 0; i < cfg.pick(6, 60); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("verify/%d", i), Fn: func(t *T) {
					e := newCliEnv(t)
					for j := 0; j < 30; j++ {
						k := e.key("k", nil)
						msg := content(t.Rng, t.Rng.Intn(8), t.Rng.Intn(300))
						rec := refSign(k, k.Clear, msg)
						pub := k.PubRec.encode()
						switch j % 10 {
						case 1:
							rec = flip(rec, t.Rng.Intn(len(rec)*8))
						case 2:
							if len(msg) > 0 {
								msg = flip(msg, t.Rng.Intn(len(msg)*8))
							} else {
								msg = []byte{0}
							}
						case 3:
							pub = flip(pub, t.Rng.Intn(len(pub)*8))
						case 4:
							msg = append(msg, byte(j))
						case 5:
							pub = e.key("o", nil).PubRec.encode()
						case 6:
							rec = rec[:len(rec)-1-t.Rng.Intn(20)]
						case 7:
							rec = append(rec, 0)
						}
						pt, st := dataFile("pub", pub), dataFile("sig", rec)
						if j%10 == 8 {
							st = mangle(t.Rng, st)
						} else if j%10 == 9 {
							pt = mangle(t.Rng, pt)
						}
						t.Write(sub(e.d, "p"), pt)
						t.Write(sub(e.d, "m"), msg)
						t.Write(sub(e.d, "s"), st)
						want := refVerify(pub, rec, msg)
						if j%10 >= 8 {
							want = signify.Verify(sub(e.d, "p"), sub(e.d, "m"), sub(e.d, "s")) == nil
						}
						r := e.run(nil, spell(t.Rng, []string{"-V", "-p", "p", "-m", "m", "-x", "s"})...)
						what := fmt.Sprintf("verification (variant %d), valid=%v", j%10, want)
						if want {
							e.works(r, true, what)
						} else {
							e.fails(r, what)
						}
						t.Obs("verifications", 1)
						t.Eval("verify", pt, msg, st)
					}
				}})
			}
			for part := 0; part < 8; part++ {
				part := part
				cs = append(cs, Case{Name: fmt.Sprintf("names/%d", part), Ticks: 300, Fn: func(t *T) {
					// files of every name, beside and away from the current directory
					list := []string{"m", "m.sig", "m.enc", "m.pub", "m.sec", "m.txt", "100%", "%s%d%v", "50%off.tar.gz", "a b", " lead", "trail ", "\u00fcml\u00e4ut", ".hidden", "..dots", "x: OK", "OK", "m.sig.sig", "m.enc.enc", "-dash",
						"--", "a=b", "'quote\"", "back\\slash", "tab\there", "m~", "*", "$HOME", strings.Repeat("n", 240), "m.", "\xff\xfe", "CON", "a,b;c", "#x#", "~", "new\nline", "k.sig", "stdin", "signature", "k", "-", "file:m", "@m", "m?", "{m}", "..."}
					for i, n := range list {
						if (i/2)%8 != part {
							continue
						}
						for _, dir := range []string{"", "d", "d e", "abs", "~", "$HOME", "l/..", "./d/.", "d//e/.."} {
							e := newCliEnv(t)
							t.must(os.MkdirAll(sub(e.d, "d"), 0755), "mkdir")
							t.must(os.MkdirAll(sub(e.d, "d e"), 0755), "mkdir")
							t.must(os.MkdirAll(sub(e.d, "keys"), 0755), "mkdir")
							t.must(os.MkdirAll(sub(e.d, "d/e"), 0755), "mkdir")
							switch dir {
							case "~", "$HOME":
								t.must(os.MkdirAll(sub(e.d, dir), 0755), "mkdir")
							case "l/..":
								t.must(os.Symlink("d/e", sub(e.d, "l")), "symlink") // l/.. is d
							}
							e.own()
							k := e.key("keys/k", nil)
							keys, real := "keys/k", dir
							if dir == "l/.." {
								real = "d" // not what cleaning the path makes of it
							}
							if i%2 == 1 && dir != "abs" && dir != "" { // the keys lie there, too
								k = e.key(real+"/kk", nil)
								keys = dir + "/kk"
							}
							msg := content(t.Rng, t.Rng.Intn(8), t.Rng.Intn(3000))
							arg := n
							switch {
							case dir == "abs":
								arg = sub(e.d, "d") + "/" + n
							case dir != "":
								arg = dir + "/" + n
							}
							p := arg
							if dir != "abs" {
								p = sub(e.d, real, n)
							}
							t.Write(p, msg)
							e.own()
							before := t.snap(e.d)
							only := func(what string, f ...string) {
								var rel []string
								for _, x := range f {
									r, _ := filepath.Rel(e.d, x)
									rel = append(rel, r)
								}
								after := t.snap(e.d)
								if d := before.diff(after, rel...); d != "" {
									t.Failf("%s: other files have changed:\n%s", what, d)
								}
								before = after
							}
							line := func(r cliResult, name string, what string) {
								e.works(r, true, what)
								if r.Stdout != name+": OK\n" {
									t.Failf("%s: the OK line does not name the file: %q", what, r.Stdout)
								}
							}
							m := []string{"-m=" + arg}
							if !strings.HasPrefix(n, "-") || dir != "" {
								m = spell(t.Rng, []string{"-m", arg})
							}
							run := func(a ...string) cliResult { return e.run(nil, append(a, m...)...) }
							what := fmt.Sprintf("signing %q", arg)
							e.works(run("-S", "-s", keys+".sec"), false, what)
							e.goodSig(k, msg, p+".sig", what)
							only(what, p+".sig")
							what = fmt.Sprintf("verifying %q", arg)
							line(run("-V", "-p", keys+".pub"), arg, what)
							only(what)
							if strings.HasSuffix(n, ".sig") { // a signature file is not a signature of itself
								e.fails(run("-V", "-p", keys+".pub", "-x", arg), what+" with itself as signature")
								only(what)
							}
							what = fmt.Sprintf("encrypting %q", arg)
							line(run("-E", "-p", keys+".pub"), arg, what)
							e.goodEnc(k, msg, p+".enc", what)
							only(what, p+".enc")
							what = fmt.Sprintf("decrypting %q", arg+".enc")
							line(e.run(nil, "-D", "-s", keys+".sec", "-c="+arg+".enc", "-m="+arg+".dec"), arg+".enc", what)
							if !bytes.Equal(t.Read(p+".dec"), msg) {
								t.Failf("%s: wrong message", what)
							}
							only(what, p+".dec")
							what = fmt.Sprintf("signing %q into %q", arg, arg+".x")
							e.works(run("-S", "-s", keys+".sec", "-x="+arg+".x"), false, what)
							e.goodSig(k, msg, p+".x", what)
							only(what, p+".x")
							what = fmt.Sprintf("verifying %q by %q", arg, arg+".x")
							line(run("-V", "-p", keys+".pub", "-x="+arg+".x"), arg, what)
							what = fmt.Sprintf("encrypting %q into %q", arg, arg+".y")
							line(run("-E", "-p", keys+".pub", "-c="+arg+".y"), arg, what)
							e.goodEnc(k, msg, p+".y", what)
							only(what, p+".y")
							if i%3 == 0 {
								what = fmt.Sprintf("generating %q", arg+".key")
								e.works(e.run(nil, "-G", "-n", "-p="+arg+".key"), false, what)
								t.pairOK(p+".key", nil, 0)
								only(what, p+".key.sec", p+".key.pub")
							}
							bad := flip(t.Read(p+".sig"), 8*(len(t.Read(p+".sig"))-20)+1)
							t.Write(p+".sig", bad)
							e.own()
							before = t.snap(e.d)
							what = fmt.Sprintf("verifying %q with a damaged signature", arg)
							e.fails(run("-V", "-p", keys+".pub"), what)
							only(what)
							t.Obs("file names", 1)
							t.Eval("names", arg, i)
							t.dropDirs()
						}
					}
				}})
			}
			type dialog struct {
				name    string
				answers []string
				ok      bool
			}
			pass := "correct horse battery"
			cs = append(cs, Case{Name: "dialogue/generate", Ticks: 500, Fn: func(t *T) {
				for _, x := range []dialog{
					{"same twice", []string{pass, pass}, true}, {"mismatch", []string{pass, pass + "x"}, false}, {"second empty", []string{pass, ""}, false},
					{"first empty", []string{"", pass}, false}, {"prefix", []string{pass, pass[:5]}, false}, {"case", []string{pass, strings.ToUpper(pass)}, false},
					{"end of file", []string{"\x04"}, false}, {"end of file at confirmation", []string{pass, "\x04"}, false}, {"interrupt", []string{"\x03"}, false}, {"interrupt at confirmation", []string{pass, "\x03"}, false},
				} {
					e := newCliEnv(t)
					r := e.run(x.answers, "-G", "-p", "k")
					if x.ok {
						e.works(r, false, x.name)
						t.pairOK(sub(e.d, "k"), []byte(pass), 42)
					} else {
						e.fails(r, x.name)
						if exists(sub(e.d, "k.sec")) || exists(sub(e.d, "k.pub")) {
							t.Failf("generation with passphrase dialogue %q leaves key files", x.name)
						}
					}
					t.Obs("terminal dialogues", 1)
					t.Eval("dialogue", "gen", x.name)
				}
				e := newCliEnv(t)
				e.fails(e.run(nil, "-G", "-p", "k"), "generation without a terminal")
				if exists(sub(e.d, "k.sec")) || exists(sub(e.d, "k.pub")) {
					t.Failf("generation without a terminal leaves key files")
				}
				r := e.run(nil, "-G", "-n", "-p", "k")
				e.works(r, false, "generation with -n and no terminal")
				t.pairOK(sub(e.d, "k"), nil, 0)
			}})
			cs = append(cs, Case{Name: "dialogue/use", Ticks: 500, Fn: func(t *T) {
				for _, mode := range []string{"S", "D"} {
					for _, x := range []dialog{
						{"right", []string{pass}, true}, {"wrong", []string{"wrong"}, false}, {"empty", []string{""}, false}, {"prefix", []string{pass[:len(pass)-1]}, false},
						{"longer", []string{pass + " "}, false}, {"end of file", []string{"\x04"}, false}, {"interrupt", []string{"\x03"}, false}, {"no terminal", nil, false},
					} {
						e := newCliEnv(t)
						k := e.key("k", []byte(pass))
						msg := content(t.Rng, 0, 500)
						t.Write(sub(e.d, "m"), msg)
						t.Write(sub(e.d, "c"), e.sealed(k, msg))
						args := []string{"-S", "-s", "k.sec", "-m", "m", "-x", "out"}
						if mode == "D" {
							args = []string{"-D", "-s", "k.sec", "-c", "c", "-m", "out"}
						}
						r := e.run(x.answers, args...)
						what := fmt.Sprintf("-%s with passphrase dialogue %q", mode, x.name)
						if !x.ok {
							e.fails(r, what)
							if b, err := os.ReadFile(sub(e.d, "out")); err == nil && (mode == "S" || len(b) > 0) {
								t.Failf("%s leaves an output of %d bytes", what, len(b))
							}
						} else {
							e.works(r, mode == "D", what)
							if mode == "S" {
								e.goodSig(k, msg, sub(e.d, "out"), what)
							} else if !bytes.Equal(t.Read(sub(e.d, "out")), msg) {
								t.Failf("%s: wrong message", what)
							}
						}
						t.Obs("terminal dialogues", 1)
						t.Eval("dialogue", mode, x.name)
					}
				}
			}})
			for i := 0; i < cfg.pick(2, 8); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("default-keys/%d", i), Fn: func(t *T) {
					e := newCliEnv(t)
					var ans []string
					gen := []string{"-G", "-n"}
					var p []byte
					rounds := 0
					if i%2 == 1 {
						ans, gen, p, rounds = []string{pass, pass}, []string{"-G"}, []byte(pass), 42
					}
					one := func() []string {
						if ans == nil {
							return nil
						}
						return ans[:1]
					}
					decoy := e.key("decoy", nil)
					e.works(e.run(ans, gen...), false, "-G without -p")
					var base string
					filepath.Walk(e.d, func(q string, fi os.FileInfo, err error) error {
						if strings.HasSuffix(q, ".sec") && q != decoy.Sec {
							if base != "" {
								t.Failf("-G without -p leaves two secret keys: %s, %s", base, q)
							}
							base = strings.TrimSuffix(q, ".sec")
						}
						return nil
					})
					if base == "" {
						t.Failf("-G without -p leaves no secret key below %s", e.d)
					}
					k := t.pairOK(base, p, rounds)
					msg := content(t.Rng, i, 20000)
					mp := t.Write(sub(e.d, "m"), msg)
					e.works(e.run(one(), "-S", "-m", "m"), false, "-S without -s")
					e.goodSig(k, msg, mp+".sig", "-S without -s")
					e.works(e.run(nil, "-V", "-m", "m"), true, "-V without -p")
					e.works(e.run(nil, "-V", "-m", "m", "-p", base+".pub"), true, "-V with the default key named")
					e.fails(e.run(nil, "-V", "-m", "m", "-p", decoy.Pub), "-V with another key")
					e.works(e.run(nil, "-E", "-m", "m"), true, "-E without -p")
					e.goodEnc(k, msg, mp+".enc", "-E without -p")
					e.works(e.run(one(), "-D", "-c", "m.enc", "-m", "d"), true, "-D without -s")
					if !bytes.Equal(t.Read(sub(e.d, "d")), msg) {
						t.Failf("-D without -s: wrong message")
					}
					e.fails(e.run(ans, gen...), "-G without -p, again")
					if n := t.LoadPair(base, p); !bytes.Equal(n.Rec.encode(), k.Rec.encode()) {
						t.Failf("the default key has changed")
					}
					e.works(e.run(nil, "-S", "-s", decoy.Sec, "-m", "m", "-x", "y"), false, "-S with -s")
					e.goodSig(decoy, msg, sub(e.d, "y"), "-S with -s")
					t.Obs("default key runs", 10)
					t.Eval("default", i)
				}})
			}
			// whatever user and environment: what -G makes is what the others use
			for _, uid := range []int{cliUid, 65534, 33} {
				uid := uid
				for i := 0; i < cfg.pick(2, 6); i++ {
					cs = append(cs, Case{Name: fmt.Sprintf("surroundings/%d/%d", uid, i), Fn: func(t *T) {
						homes := []string{"abs", "abs", "abs/", "relative", "spaced", "missing", "unset", "empty"}
						users := []string{"joe", "unset", "empty", "jo e", "root", "a/b", "joe.sec", "Жо"}
						for h, home := range homes {
							for n := 0; n < 3; n++ {
								e := newCliEnv(t)
								user := users[(h+n*3+t.Rng.Intn(2))%len(users)]
								if n == 0 {
									user = "joe"
								}
								var env []string
								switch home {
								case "abs":
									env = append(env, "HOME="+e.home)
								case "abs/":
									env = append(env, "HOME="+e.home+"/")
								case "relative":
									env = append(env, "HOME=home")
								case "spaced":
									t.must(os.MkdirAll(sub(e.d, "ho me", ".signify"), 0777), "mkdir")
									env = append(env, "HOME="+sub(e.d, "ho me"))
								case "missing":
									env = append(env, "HOME="+sub(e.d, "nowhere"))
								case "empty":
									env = append(env, "HOME=")
								}
								switch user {
								case "unset":
								case "empty":
									env = append(env, "USER=")
								default:
									env = append(env, "USER="+user)
								}
								if n == 2 {
									t.must(os.MkdirAll(sub(e.d, "other", ".signify"), 0777), "mkdir")
									env = append(env, "LOGNAME=other", "USERNAME=other", "SUDO_USER=other", "XDG_CONFIG_HOME="+sub(e.d, "other"), "SIGNIFY_HOME="+sub(e.d, "other"), "USERPROFILE="+sub(e.d, "other"), "home="+sub(e.d, "other"), "TMPDIR="+sub(e.d, "other"))
								}
								filepath.Walk(e.d, func(q string, fi os.FileInfo, err error) error {
									if err == nil && fi.IsDir() {
										os.Chmod(q, 0777)
									}
									return nil
								})
								run := func(args ...string) cliResult {
									t.Obs("commands run", 1)
									return t.CLI(cliOpts{Dir: e.d, Umask: 022, Uid: uid, Env: env, Ticks: 120}, args...)
								}
								what := fmt.Sprintf("uid %d, %q: ", uid, env)
								msg := content(t.Rng, h+n, 1+t.Rng.Intn(3000))
								mp := t.Write(sub(e.d, "m"), msg)
								t.must(os.Chmod(mp, 0644), "chmod")
								before := t.snap(e.d)
								g := run("-G", "-n")
								t.Eval("surroundings", uid, home, user, n)
								if g.Exit != 0 || g.Signal != "" {
									e.fails(g, what+"-G without a place for keys")
									if d := before.diff(t.snap(e.d)); d != "" {
										t.Failf("%s-G fails but leaves %s", what, d)
									}
									for _, args := range [][]string{{"-S", "-m", "m"}, {"-V", "-m", "m"}, {"-E", "-m", "m"}, {"-D", "-c", "m", "-m", "d"}} {
										e.fails(run(args...), what+args[0]+" without a default key")
									}
									t.Obs("surroundings without a default key", 1)
									continue
								}
								e.works(run("-S", "-m", "m"), false, what+"-S after -G")
								e.works(run("-V", "-m", "m"), true, what+"-V after -G")
								e.works(run("-E", "-m", "m"), true, what+"-E after -G")
								e.works(run("-D", "-c", "m.enc", "-m", "d"), true, what+"-D after -G")
								if !bytes.Equal(t.Read(sub(e.d, "d")), msg) {
									t.Failf("%s-D after -G: wrong message", what)
								}
								e.fails(run("-G", "-n"), what+"-G twice")
								t.Obs("surroundings with a default key", 1)
							}
						}
					}})
				}
			}
			// what the user may not read or write, or what does not fit
			cs = append(cs, Case{Name: "obstacles", Ticks: 500, Fn: func(t *T) {
				t.obstacles(func(e *cliEnv, what string, run func() cliResult) { e.fails(run(), what) })
			}})
			for i := 0; i < cfg.pick(8, 100); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("library/%d", i), Fn: func(t *T) {
					for j := 0; j < 16; j++ {
						e := newCliEnv(t)
						k := e.key("k", nil)
						o := e.key("o", nil)
						msg := content(t.Rng, t.Rng.Intn(8), t.Rng.Intn(40000))
						files := map[string][]byte{
							"m": msg, "m.sig": dataFile("verify with k.pub", refSign(k, k.Clear, msg)), "m.enc": e.sealed(k, msg), "o.sig": dataFile("verify with o.pub", refSign(o, o.Clear, msg)),
							"empty": nil, "k.sec": t.Read(k.Sec), "k.pub": t.Read(k.Pub), "o.sec": t.Read(o.Sec), "o.pub": t.Read(o.Pub),
						}
						// damage some
						for n := range files {
							if t.Rng.Intn(9) == 0 {
								files[n] = mangle(t.Rng, files[n])
							}
						}
						twin := t.Dir()
						for n, b := range files {
							t.Write(sub(e.d, n), b)
							t.Write(sub(twin, n), b)
						}
						pick := func(main string, l ...string) string {
							if t.Rng.Intn(10) < 7 {
								return main
							}
							return l[t.Rng.Intn(len(l))]
						}
						secs := []string{"o.sec", "k.pub", "m", "none", "empty"}
						pubs := []string{"o.pub", "k.sec", "m", "none", "empty"}
						var args []string
						var err error
						in := func(n string) string {
							if n == "" {
								return ""
							}
							return sub(twin, n)
						}
						t.NoPass()
						mode := "SVEDG"[t.Rng.Intn(5)]
						okLine := false
						switch mode {
						case 'S':
							s, m, x := pick("k.sec", secs...), pick("m", "empty", "none"), pick("out", "", "m.sig")
							args = []string{"-S", "-s", s, "-m", m}
							if x != "" {
								args = append(args, "-x", x)
							}
							err = signify.Sign(in(s), in(m), in(x))
						case 'V':
							p, m, x := pick("k.pub", pubs...), pick("m", "empty", "none"), pick("m.sig", "", "o.sig", "none", "empty")
							args = []string{"-V", "-p", p, "-m", m}
							if x != "" {
								args = append(args, "-x", x)
							}
							err = signify.Verify(in(p), in(m), in(x))
							okLine = true
						case 'E':
							p, m, c := pick("k.pub", pubs...), pick("m", "empty", "none"), pick("out", "", "m.enc")
							args = []string{"-E", "-p", p, "-m", m}
							if c != "" {
								args = append(args, "-c", c)
							}
							err = crypto.Seal(in(p), in(m), in(c))
							okLine = true
						case 'D':
							s, c, m := pick("k.sec", secs...), pick("m.enc", "m.sig", "empty", "none"), pick("out", "m")
							args = []string{"-D", "-s", s, "-c", c, "-m", m}
							err = crypto.Open(in(s), in(c), in(m))
							okLine = true
						case 'G':
							p := pick("new", "k", "none/x")
							args = []string{"-G", "-n", "-p", p}
							err = signify.GenerateKey(in(p), nil, nil)
						}
						r := e.run(nil, spell(t.Rng, args)...)
						what := fmt.Sprintf("%v; the library says %v", args, err)
						if err == nil {
							e.works(r, okLine, what)
						} else {
							e.fails(r, what)
						}
						// same files afterwards; random outputs are compared by meaning
						for _, n := range names(twin) {
							a, aerr := os.ReadFile(sub(twin, n))
							b, berr := os.ReadFile(sub(e.d, n))
							if (aerr == nil) != (berr == nil) {
								t.Failf("%s: file %s: library %v, command %v", what, n, aerr, berr)
							}
							if bytes.Equal(a, b) {
								continue
							}
							if mode == 'E' {
								_, pa, e1 := strictEncFile(a)
								_, pb, e2 := strictEncFile(b)
								if e1 == nil && e2 == nil {
									same := len(pa) == len(pb)
									for _, kp := range []*KeyPair{k, o} {
										ma, e1 := refOpen(refBoxPriv(kp.Clear[:32]), pa)
										mb, e2 := refOpen(refBoxPriv(kp.Clear[:32]), pb)
										same = same && (e1 == nil) == (e2 == nil) && bytes.Equal(ma, mb)
									}
									if same {
										continue
									}
								} else if (e1 == nil) == (e2 == nil) {
									continue
								}
							}
							if mode == 'G' && (n == "new.sec" || n == "new.pub") {
								continue
							}
							t.Failf("%s: file %s differs between library and command", what, n)
						}
						for _, n := range names(e.d) {
							if n != "home" && !exists(sub(twin, n)) {
								t.Failf("%s: the command creates %s, the library does not", what, n)
							}
						}
						if mode == 'G' && err == nil {
							t.pairOK(sub(e.d, "new"), nil, 0)
						}
						t.Obs("compared with library", 1)
						t.Eval("lib", fmt.Sprint(args), msg, i, j)
						t.dropDirs()
					}
				}})
			}
			return cs
		},
	})
}

func names(dir string) []string {
	es, _ := os.ReadDir(dir)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out
}

// obstacles lets a user run the command where an input can't be read or the
// output can't be written.
func (t *T) obstacles(judge func(e *cliEnv, what string, run func() cliResult)) {
	type obstacle struct {
		name string
		do   func(e *cliEnv, p string) // p is the input or output
		pre  string
	}
	ins := []obstacle{
		{"not readable", func(e *cliEnv, p string) { os.Chmod(p, 0) }, ""},
		{"write-only", func(e *cliEnv, p string) { os.Chmod(p, 0200) }, ""},
		{"missing", func(e *cliEnv, p string) { os.Remove(p) }, ""},
		{"a directory", func(e *cliEnv, p string) { os.Remove(p); os.Mkdir(p, 0755) }, ""},
		{"a link to itself", func(e *cliEnv, p string) { os.Remove(p); os.Symlink(filepath.Base(p), p) }, ""},
		{"a link to nothing", func(e *cliEnv, p string) { os.Remove(p); os.Symlink("nothing", p) }, ""},
		{"a socket", func(e *cliEnv, p string) {
			os.Remove(p)
			fd, err := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_STREAM, 0)
			t.must(err, "socket")
			defer syscall.Close(fd)
			// a path that is short enough for an address
			dir, err := os.Open(filepath.Dir(p))
			t.must(err, "open")
			defer dir.Close()
			t.must(syscall.Bind(fd, &syscall.SockaddrUnix{Name: fmt.Sprintf("/proc/self/fd/%d/%s", dir.Fd(), filepath.Base(p))}), "bind")
		}, ""},
	}
	outs := []obstacle{
		{"in a directory that is read-only", func(e *cliEnv, p string) { os.Mkdir(filepath.Dir(p), 0555) }, ""},
		{"in a directory that may not be searched", func(e *cliEnv, p string) { os.Mkdir(filepath.Dir(p), 0600) }, ""},
		{"in no directory", func(e *cliEnv, p string) {}, ""},
		{"below a file", func(e *cliEnv, p string) { t.Write(filepath.Dir(p), []byte("x")) }, ""},
		{"a read-only file", func(e *cliEnv, p string) {
			os.Mkdir(filepath.Dir(p), 0755)
			for _, f := range []string{p, p + ".sec", p + ".pub"} {
				t.Write(f, []byte("old"))
				os.Chmod(f, 0444)
			}
		}, ""},
		{"a directory", func(e *cliEnv, p string) { os.MkdirAll(p, 0755); os.MkdirAll(p+".pub", 0755) }, ""},
		{"limited to no bytes", func(e *cliEnv, p string) { os.Mkdir(filepath.Dir(p), 0755) }, "ulimit -f 0"},
	}
	for _, op := range []struct {
		args string
		ins  []string
		out  string
	}{
		{"-S -s k.sec -m m -x out/f", []string{"k.sec", "m"}, "out/f"}, {"-V -p k.pub -m m -x m.sig", []string{"k.pub", "m", "m.sig"}, ""}, {"-V -p k.pub -m m", []string{"m.sig"}, ""},
		{"-E -p k.pub -m m -c out/f", []string{"k.pub", "m"}, "out/f"}, {"-D -s k.sec -c m.enc -m out/f", []string{"k.sec", "m.enc"}, "out/f"}, {"-G -n -p out/f", nil, "out/f"},
	} {
		try := func(file string, o obstacle) {
			e := newCliEnv(t)
			k := e.key("k", nil)
			msg := content(t.Rng, 0, 500)
			t.Write(sub(e.d, "m"), msg)
			t.Write(sub(e.d, "m.sig"), dataFile("verify with k.pub", refSign(k, k.Clear, msg)))
			t.Write(sub(e.d, "m.enc"), e.sealed(k, msg))
			if file != op.out && op.out != "" {
				t.must(os.Mkdir(sub(e.d, "out"), 0755), "mkdir")
			}
			e.own()
			o.do(e, sub(e.d, file))
			e.own()
			judge(e, fmt.Sprintf("%q with %s %s", op.args, file, o.name), func() cliResult {
				return t.CLI(cliOpts{Dir: e.d, Umask: 022, Uid: cliUid, Env: []string{"HOME=" + e.home, "USER=joe"}, Pre: o.pre, Ticks: 120}, strings.Fields(op.args)...)
			})
			t.Obs("commands run", 1)
			t.Obs("obstacles", 1)
			t.Eval("obstacle", op.args, file, o.name)
			os.Chmod(sub(e.d, "out"), 0755)
			t.dropDirs()
		}
		for _, in := range op.ins {
			for _, o := range ins {
				try(in, o)
			}
		}
		if op.out != "" {
			for _, o := range outs {
				try(op.out, o)
			}
		}
	}
}
