package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
)

// tree is a directory with everything an operation may need.
type tree struct {
	t       *T
	d       string
	k       *KeyPair
	pass    []byte
	msg     []byte
	cwd     string
	oldEnv  string
	restore func()
}

func newTree(t *T, pass []byte) *tree {
	x := &tree{t: t, d: t.Dir(), pass: pass}
	for _, s := range []string{"sub", "tmp", "home", "keys", "cwd"} {
		t.must(os.Mkdir(sub(x.d, s), 0755), "mkdir")
	}
	rounds := uint32(0)
	if pass != nil {
		rounds = 1
	}
	x.k = t.RefKey(sub(x.d, "keys/k"), pass, rounds)
	x.setMessage(content(t.Rng, t.Rng.Intn(8), t.Rng.Intn(3000)))
	t.Write(sub(x.d, "bystander"), randBytes(t.Rng, 100))
	t.must(os.Symlink("bystander", sub(x.d, "link")), "symlink")
	return x
}

// setMessage writes the message, encrypted and signed, too.
func (x *tree) setMessage(msg []byte) {
	x.msg = msg
	x.t.Write(sub(x.d, "msg"), x.msg)
	pl, err := refSeal(refBoxPub(x.k.PubRec.Key), randBytes(x.t.Rng, 32), x.msg)
	x.t.must(err, "refSeal")
	x.t.Write(sub(x.d, "enc"), encFile("untrusted comment: x", pl, "\n"))
	x.t.Write(sub(x.d, "sig"), dataFile("verify with k.pub", refSign(x.k, x.k.Clear, x.msg)))
}

// enter makes the tree the current and temporary directory.
func (x *tree) enter() {
	old, err := os.Getwd()
	x.t.must(err, "getwd")
	x.t.must(os.Chdir(sub(x.d, "cwd")), "chdir")
	ot, oh := os.Getenv("TMPDIR"), os.Getenv("HOME")
	os.Setenv("TMPDIR", sub(x.d, "tmp"))
	os.Setenv("HOME", sub(x.d, "home"))
	x.restore = func() {
		os.Chdir(old)
		os.Setenv("TMPDIR", ot)
		os.Setenv("HOME", oh)
	}
}

// do runs the operation with the paths given, in process or as a command.
func (x *tree) do(op string, a []string, cli bool) (bool, string) {
	t := x.t
	if cli {
		var fl []string
		switch op {
		case "sign":
			fl = []string{"-S", "-s", a[0], "-m", a[1]}
			if a[2] != "" {
				fl = append(fl, "-x", a[2])
			}
		case "verify":
			fl = []string{"-V", "-p", a[0], "-m", a[1]}
			if a[2] != "" {
				fl = append(fl, "-x", a[2])
			}
		case "seal":
			fl = []string{"-E", "-p", a[0], "-m", a[1]}
			if a[2] != "" {
				fl = append(fl, "-c", a[2])
			}
		case "open":
			fl = []string{"-D", "-s", a[0], "-c", a[1], "-m", a[2]}
		case "gen":
			fl = []string{"-G", "-n", "-p", a[0]}
		}
		o := cliOpts{Dir: sub(x.d, "cwd"), Umask: 022, Env: []string{"TMPDIR=" + sub(x.d, "tmp"), "HOME=" + sub(x.d, "home")}, Ticks: 60}
		if x.pass != nil && op != "verify" && op != "seal" && op != "gen" {
			o.Answers = []string{string(x.pass)}
		}
		r := t.CLI(o, fl...)
		return r.Exit == 0 && r.Signal == "", r.String()
	}
	t.Use(x.k)
	if x.pass != nil {
		t.Pass(x.pass)
	}
	x.enter()
	defer x.restore()
	var err error
	switch op {
	case "sign":
		err = signify.Sign(a[0], a[1], a[2])
	case "verify":
		err = signify.Verify(a[0], a[1], a[2])
	case "seal":
		err = crypto.Seal(a[0], a[1], a[2])
	case "open":
		err = crypto.Open(a[0], a[1], a[2])
	case "gen":
		err = signify.GenerateKey(a[0], nil, nil)
	}
	return err == nil, fmt.Sprint(err)
}

// damage mangles a key file, but not so that it asks for hours of key derivation.
func (t *T) damage(path string) {
	for {
		if b := mangle(t.Rng, t.Read(path)); maxRounds(b) <= 50 {
			t.Write(path, b)
			return
		}
	}
}

// alias makes another name for the file p.
func (x *tree) alias(kind, p string, n int) string {
	t := x.t
	dir, base := filepath.Split(p)
	link := sub(x.d, "sub", fmt.Sprint("alias", n))
	switch kind {
	case "same path":
		return p
	case "dot":
		return dir + "./" + base
	case "double slash":
		return dir + "/" + base
	case "parent":
		return dir + "../" + filepath.Base(filepath.Clean(dir)) + "/" + base
	case "relative":
		r, err := filepath.Rel(sub(x.d, "cwd"), p)
		t.must(err, "rel")
		return r
	case "symlink":
		t.must(os.Symlink(p, link), "symlink")
	case "relative symlink":
		r, err := filepath.Rel(sub(x.d, "sub"), p)
		t.must(err, "rel")
		t.must(os.Symlink(r, link), "symlink")
	case "symlink chain":
		t.must(os.Symlink(p, link+"a"), "symlink")
		t.must(os.Symlink(link+"a", link), "symlink")
	case "hard link":
		t.must(os.Link(p, link), "link")
	case "symlink to hard link":
		t.must(os.Link(p, link+"h"), "link")
		t.must(os.Symlink(link+"h", link), "symlink")
	case "linked directory":
		t.must(os.Symlink(filepath.Clean(dir), link), "symlink")
		return link + "/" + base
	case "/proc":
		return "/proc/self/root" + p
	}
	return link
}

var inputModes = []os.FileMode{0600, 0400, 0444, 0640, 0666, 0755, 0000, 0200, 0700, 0644 | os.ModeSetgid, 0600 | os.ModeSticky, 0755 | os.ModeSetuid}

var aliasKinds = []string{"same path", "dot", "double slash", "parent", "relative", "symlink", "relative symlink", "symlink chain", "hard link", "symlink to hard link", "linked directory", "/proc"}

func init() {
	register(&Prop{
		ID:          "C19",
		Rule:        "one evaluation = one operation between two snapshots (content, mode, owner, inode, link count, modification and change time of every file below the directory, which also is current, home and temporary directory); aliased runs must fail with nothing changed, others may change their output only; distinct by (operation, aliasing or failure, variant)",
		Min:         map[string]int64{"obstacles": 70, "aliased runs": 300, "successful runs": 200, "failed runs": 140, "refused signings with an old signature": 48, "files snapshotted": 8000, "runs with unusual input modes": 60, "runs among bystanders": 60, "runs traced": 150, "runs with paths through links and parents": 150},
		Assumptions: []string{"access times are not part of a file's state"},
		Cases: func(cfg *Config) []Case {
			var cs []Case
			cs = append(cs, spellingCases(cfg)...)
			for _, op := range []string{"sign", "seal", "open"} {
				for _, kind := range aliasKinds {
					op, kind := op, kind
					cs = append(cs, Case{Name: fmt.Sprintf("alias/%s/%s", op, kind), Fn: func(t *T) {
						for v := 0; v < cfg.pick(16, 64); v++ {
							cli := v%4 == 3
							var pass []byte
							if v%8 >= 6 && op != "seal" {
								pass = []byte("a rather long passphrase, it is")
							}
							x := newTree(t, pass)
							in := map[string][]string{"sign": {x.k.Sec, sub(x.d, "msg")}, "seal": {x.k.Pub, sub(x.d, "msg")}, "open": {x.k.Sec, sub(x.d, "enc")}}[op]
							victim := v % 2
							// the input may be named by its other name, too
							out := in[victim]
							args := []string{in[0], in[1], ""}
							if v%4 >= 2 && v%8 < 4 {
								args[victim] = x.alias(kind, in[victim], v)
							} else {
								out = x.alias(kind, in[victim], v)
							}
							args[2] = out
							if t.Rng.Intn(3) == 0 { // both names differ from the original
								args[victim] = x.alias(aliasKinds[t.Rng.Intn(len(aliasKinds))], in[victim], 1000+v)
							}
							before := t.snap(x.d)
							ok, detail := x.do(op, args, cli)
							what := fmt.Sprintf("%s(%q) whose output is an input (%s)", op, args, kind)
							if d := before.diff(t.snap(x.d)); d != "" {
								t.Failf("%s changed files (%s):\n%s", what, detail, d)
							}
							if ok {
								t.Failf("%s reports success (%s)", what, detail)
							}
							t.Obs("aliased runs", 1)
							t.Eval("alias", op, kind, v)
							t.dropDirs()
						}
					}})
				}
			}
			// default output paths
			cs = append(cs, Case{Name: "alias/default", Fn: func(t *T) {
				for v := 0; v < 48; v++ {
					x := newTree(t, nil)
					op := []string{"sign", "seal"}[v%2]
					ext := map[string]string{"sign": ".sig", "seal": ".enc"}[op]
					key := map[string]string{"sign": x.k.Sec, "seal": x.k.Pub}[op]
					msg := sub(x.d, "msg")
					victim := []string{msg, key}[v/2%2]
					link := v / 4 % 4
					switch link {
					case 0:
						t.must(os.Symlink(victim, msg+ext), "symlink")
					case 1:
						t.must(os.Link(victim, msg+ext), "link")
					case 2: // the key itself has the default name
						if victim != key {
							continue
						}
						t.must(os.Rename(key, msg+ext), "rename")
						key = msg + ext
					case 3:
						t.must(os.Symlink(filepath.Base(victim), filepath.Dir(victim)+"/l"), "symlink")
						t.must(os.Symlink(filepath.Dir(victim)+"/l", msg+ext), "symlink")
					}
					before := t.snap(x.d)
					ok, detail := x.do(op, []string{key, msg, ""}, v >= 32)
					what := fmt.Sprintf("%s whose default output is an input (variant %d)", op, v)
					if d := before.diff(t.snap(x.d)); d != "" {
						t.Failf("%s changed files (%s):\n%s", what, detail, d)
					}
					if ok {
						t.Failf("%s reports success", what)
					}
					t.Obs("aliased runs", 1)
					t.Eval("alias-default", v)
					t.dropDirs()
				}
			}})
			for i := 0; i < cfg.pick(8, 100); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("random/%d", i), Fn: func(t *T) {
					for v := 0; v < 50; v++ {
						var pass []byte
						if t.Rng.Intn(4) == 0 {
							pass = []byte("a rather long passphrase, it is")
						}
						x := newTree(t, pass)
						op := []string{"sign", "verify", "seal", "open", "gen"}[t.Rng.Intn(5)]
						cli := t.Rng.Intn(8) == 0
						key := map[string]string{"sign": x.k.Sec, "verify": x.k.Pub, "seal": x.k.Pub, "open": x.k.Sec, "gen": ""}[op]
						in := map[string]string{"sign": "msg", "verify": "msg", "seal": "msg", "open": "enc", "gen": "msg"}[op]
						in = sub(x.d, in)
						// failures
						fail := ""
						if t.Rng.Intn(2) == 0 {
							fail = []string{"damaged key", "wrong kind of key", "missing key", "wrong passphrase", "missing message", "message is a directory", "damaged input", "damaged signature", "size limit", "unusable key"}[t.Rng.Intn(10)]
						}
						switch fail {
						case "damaged key":
							if key != "" {
								t.damage(key)
							}
						case "unusable key": // well-formed, but without a meaning
							if key == x.k.Pub {
								t.Write(key, dataFile("c", (&pubRec{Alg: "Ed", KeyNum: x.k.PubRec.KeyNum, Key: offCurve(t.Rng)}).encode()))
							} else if key != "" {
								r := x.k.Rec.encode()
								t.Write(key, dataFile("c", flip(r, 8*24+t.Rng.Intn(64))))
							}
						case "wrong kind of key":
							if key == x.k.Sec {
								key = x.k.Pub
							} else {
								key = x.k.Sec
							}
						case "missing key":
							if key != "" {
								os.Remove(key)
							}
						case "wrong passphrase":
							x.pass = []byte("another rather long passphrase")
						case "missing message":
							os.Remove(in)
						case "message is a directory":
							os.Remove(in)
							os.Mkdir(in, 0755)
						case "damaged input":
							t.Write(in, mangle(t.Rng, t.Read(in)))
						case "damaged signature":
							t.Write(sub(x.d, "sig"), mangle(t.Rng, t.Read(sub(x.d, "sig"))))
						}
						if t.Rng.Intn(3) == 0 { // inputs of any mode
							for _, p := range []string{x.k.Sec, x.k.Pub, sub(x.d, "msg"), sub(x.d, "enc"), sub(x.d, "sig"), sub(x.d, "bystander")} {
								if exists(p) {
									t.must(os.Chmod(p, inputModes[t.Rng.Intn(len(inputModes))]), "chmod")
								}
							}
							t.Obs("runs with unusual input modes", 1)
						}
						if t.Rng.Intn(3) == 0 {
							t.bystanders(x.d, "msg", "enc", "out", "old", "sig")
							t.bystanders(sub(x.d, "sub"), "out")
							t.bystanders(sub(x.d, "keys"), "k")
							t.bystanders(sub(x.d, "cwd"), "msg", "out")
							t.bystanders(sub(x.d, "tmp"), "msg", "out", "psignify")
							t.Obs("runs among bystanders", 1)
						}
						out := sub(x.d, []string{"out", "sub/out", "old", "sub/../out"}[t.Rng.Intn(4)])
						if t.Rng.Intn(2) == 0 || filepath.Base(out) == "old" {
							t.Write(out, randBytes(t.Rng, t.Rng.Intn(5000)))
						}
						if t.Rng.Intn(4) == 0 && (op == "sign" || op == "seal") {
							out = ""
						}
						arg3 := out
						allowed := out
						switch op {
						case "sign":
							if out == "" {
								allowed = in + ".sig"
							}
						case "seal":
							if out == "" {
								allowed = in + ".enc"
							}
						case "verify":
							arg3 = sub(x.d, "sig")
						}
						args := []string{key, in, arg3}
						var allow []string
						rel := func(p string) string {
							r, _ := filepath.Rel(x.d, filepath.Clean(p))
							return r
						}
						switch op {
						case "gen":
							args = []string{out}
							allow = []string{rel(out + ".sec"), rel(out + ".pub")}
						case "verify":
						default:
							allow = []string{rel(allowed)}
						}
						before := t.snap(x.d)
						var ok bool
						var detail string
						if fail == "size limit" && !cli {
							limitFsize(t, uint64(t.Rng.Intn(200)), func() { ok, detail = x.do(op, args, false) })
						} else {
							ok, detail = x.do(op, args, cli)
						}
						after := t.snap(x.d)
						what := fmt.Sprintf("%s(%q), %s, protected %v, command %v: success %v (%s)", op, args, fail, pass != nil, cli, ok, detail)
						if d := before.diff(after, allow...); d != "" {
							t.Failf("%s changed files other than its output:\n%s", what, d)
						}
						if fail == "" && !ok {
							t.Failf("%s: should succeed", what)
						}
						// an existing signature survives a refusal
						if op == "sign" && !ok && fail != "size limit" {
							if d := before.diff(after); d != "" {
								t.Failf("%s: refused, but changed files:\n%s", what, d)
							}
							if _, was := before[rel(allowed)]; was {
								t.Obs("refused signings with an old signature", 1)
							}
						}
						// outputs of success keep their inode: not required, but content must be there
						if ok {
							for _, a := range allow {
								if !exists(sub(x.d, a)) {
									t.Failf("%s: no output", what)
								}
							}
							t.Obs("successful runs", 1)
						} else {
							t.Obs("failed runs", 1)
						}
						t.Eval("random", op, fail, cli, i, v)
						t.dropDirs()
					}
				}})
			}
			cs = append(cs, Case{Name: "obstacles", Ticks: 500, Fn: func(t *T) {
				// whoever is refused an input or the output does not help himself
				t.obstacles(func(e *cliEnv, what string, run func() cliResult) {
					before := t.snap(e.d) // with the home directory
					run()
					after := t.snap(e.d)
					if d := before.diff(after, "out/f", "out/f.sec", "out/f.pub"); d != "" {
						t.Failf("%s: other files have changed:\n%s", what, d)
					}
				})
			}})
			cs = append(cs, Case{Name: "bystanders", Ticks: 300, Fn: func(t *T) {
				// every operation and failure among files with akin names
				for v, op := range []string{"sign", "verify", "seal", "open", "gen"} {
					for fi, fail := range []string{"", "unusable key", "damaged key", "missing key", "missing message", "message is a directory", "damaged input", "foreign input", "no output directory", "output is a directory", "size limit", "wrong passphrase"} {
						for n := 0; n < cfg.pick(2, 12); n++ {
							var pass []byte
							if fail == "wrong passphrase" || n%4 == 3 {
								pass = []byte("a rather long passphrase, it is")
							}
							x := newTree(t, pass)
							t.bystanders(x.d, "msg", "enc", "out", "sig")
							t.bystanders(sub(x.d, "sub"), "out", "msg", "enc")
							t.bystanders(sub(x.d, "keys"), "k", "out")
							t.bystanders(sub(x.d, "cwd"), "msg", "out", "enc", "k")
							t.bystanders(sub(x.d, "tmp"), "msg", "out", "psignify", "k")
							t.bystanders(sub(x.d, "home"), "msg", "out", "psignify", "k")
							key := map[string]string{"sign": x.k.Sec, "verify": x.k.Pub, "seal": x.k.Pub, "open": x.k.Sec, "gen": ""}[op]
							in := map[string]string{"sign": "msg", "verify": "msg", "seal": "msg", "open": "enc", "gen": "msg"}[op]
							in = sub(x.d, in)
							out := sub(x.d, []string{"sub/result", "result"}[n%2])
							switch fail {
							case "unusable key":
								if key == x.k.Pub {
									t.Write(key, dataFile("c", (&pubRec{Alg: "Ed", KeyNum: x.k.PubRec.KeyNum, Key: offCurve(t.Rng)}).encode()))
								} else if key != "" {
									t.Write(key, dataFile("c", flip(x.k.Rec.encode(), 8*24+t.Rng.Intn(64))))
								}
							case "damaged key":
								if key != "" {
									t.damage(key)
								}
							case "missing key":
								if key != "" {
									os.Remove(key)
								}
							case "missing message":
								os.Remove(in)
							case "message is a directory":
								os.Remove(in)
								os.Mkdir(in, 0755)
							case "damaged input":
								b := t.Read(in)
								t.Write(in, b[:len(b)/2])
							case "foreign input":
								pl, err := refSeal(refBoxPub(t.RefKey(sub(x.d, "foreign"), nil, 0).PubRec.Key), randBytes(t.Rng, 32), x.msg)
								t.must(err, "refSeal")
								if op == "open" {
									t.Write(in, encFile("untrusted comment: x", pl, "\n"))
								}
								t.Write(sub(x.d, "sig"), t.Read(sub(x.d, "enc")))
							case "no output directory":
								out = sub(x.d, "none/result")
							case "output is a directory":
								out = sub(x.d, "home")
							case "wrong passphrase":
								x.pass = []byte("another rather long passphrase")
							}
							args := []string{key, in, out}
							var allow []string
							rel, _ := filepath.Rel(x.d, out)
							switch op {
							case "verify":
								args[2] = sub(x.d, "sig")
							case "gen":
								args = []string{out}
								allow = []string{rel + ".sec", rel + ".pub"}
							default:
								allow = []string{rel}
							}
							before := t.snap(x.d)
							var ok bool
							var detail string
							if fail == "size limit" {
								limitFsize(t, uint64(t.Rng.Intn(60)), func() { ok, detail = x.do(op, args, false) })
							} else {
								ok, detail = x.do(op, args, n%6 == 5)
							}
							what := fmt.Sprintf("%s(%q) among bystanders, %s: success %v (%s)", op, args, fail, ok, detail)
							if d := before.diff(t.snap(x.d), allow...); d != "" {
								t.Failf("%s changed files other than its output:\n%s", what, d)
							}
							if ok {
								t.Obs("successful runs", 1)
							} else {
								t.Obs("failed runs", 1)
							}
							t.Obs("runs among bystanders", 1)
							t.Eval("bystanders", v, fi, n)
							t.dropDirs()
						}
					}
				}
			}})
			for _, op := range []string{"sign", "verify", "seal", "open", "gen"} {
				op := op
				cs = append(cs, Case{Name: "traced/" + op, Ticks: 200, Fn: func(t *T) { traced(t, op) }})
			}
			cs = append(cs, Case{Name: "signature-survives", Fn: func(t *T) {
				// every way to refuse a signing, with an old signature in place
				for v := 0; v < 48; v++ {
					cli := v%6 == 5
					pass := []byte("a rather long passphrase, it is")
					if v%2 == 1 {
						pass = nil
					}
					x := newTree(t, pass)
					key, msg := x.k.Sec, sub(x.d, "msg")
					why := v / 2 % 8
					switch why {
					case 0: // wrong passphrase or damaged key
						if pass != nil {
							x.pass = []byte("wrong")
						} else {
							r := x.k.Rec.encode()
							t.Write(key, dataFile("c", flip(r, 8*40+t.Rng.Intn(8*64))))
						}
					case 1:
						os.Remove(key)
					case 2:
						os.Remove(msg)
					case 3:
						os.Remove(msg)
						t.must(os.Mkdir(msg, 0755), "mkdir")
					case 4:
						key = x.k.Pub
					case 5:
						t.Write(key, nil)
					case 6:
						r := x.k.Rec.encode()
						t.Write(key, dataFile("c", flip(r, 8*24+t.Rng.Intn(64))))
					case 7:
						t.Write(key, bytes.Replace(t.Read(key), []byte("RW"), []byte("XX"), 1))
					}
					sig := msg + ".sig"
					arg := ""
					if v%3 == 1 {
						sig = sub(x.d, "sub/mine.sig")
						arg = sig
					}
					t.Write(sig, dataFile("verify with k.pub", refSign(x.k, x.k.Clear, x.msg)))
					before := t.snap(x.d)
					ok, detail := x.do("sign", []string{key, msg, arg}, cli)
					if ok {
						t.Failf("signing (variant %d) should be refused", v)
					}
					if d := before.diff(t.snap(x.d)); d != "" {
						t.Failf("refused signing (variant %d, %s) changed files:\n%s", v, detail, d)
					}
					t.Obs("refused signings with an old signature", 1)
					t.Obs("failed runs", 1)
					t.Eval("survive", v)
					t.dropDirs()
				}
			}}, Case{Name: "prompt-error", Fn: func(t *T) {
				for v := 0; v < 12; v++ {
					x := newTree(t, []byte("a rather long passphrase, it is"))
					out := t.Write(sub(x.d, "out"), []byte("old content"))
					before := t.snap(x.d)
					op := []string{"sign", "open"}[v%2]
					in := map[string]string{"sign": "msg", "open": "enc"}[op]
					t.NoPass() // the prompt fails
					x.enter()
					var err error
					if op == "sign" {
						err = signify.Sign(x.k.Sec, sub(x.d, in), out)
					} else {
						err = crypto.Open(x.k.Sec, sub(x.d, in), out)
					}
					x.restore()
					if err == nil {
						t.Failf("%s succeeds although the prompt failed", op)
					}
					allow := []string{}
					if op == "open" {
						allow = append(allow, "out")
					}
					if d := before.diff(t.snap(x.d), allow...); d != "" {
						t.Failf("%s whose prompt failed changed files:\n%s", op, d)
					}
					t.Obs("failed runs", 1)
					t.Eval("prompt", v)
				}
			}}, Case{Name: "reading", Fn: func(t *T) {
				// loading, checking, converting and verifying change nothing
				for v := 0; v < 30; v++ {
					var pass []byte
					if v%2 == 0 {
						pass = []byte("a rather long passphrase, it is")
					}
					x := newTree(t, pass)
					if v%5 == 4 {
						t.damage(x.k.Sec)
						t.damage(x.k.Pub)
					}
					before := t.snap(x.d)
					x.enter()
					t.Pass(pass)
					for n := 0; n < 3; n++ {
						if p, err := signify.LoadPrivateKey(x.k.Sec); err == nil {
							p.Check()
							p.ToBox()
							p.ToBox()
						}
						if p, err := signify.LoadPublicKey(x.k.Pub); err == nil {
							p.ToBox()
						}
						signify.Verify(x.k.Pub, sub(x.d, "msg"), sub(x.d, "sig"))
						signify.Verify(x.k.Pub, sub(x.d, "bystander"), sub(x.d, "sig"))
						signify.Verify(x.k.Pub, sub(x.d, "msg"), sub(x.d, "none"))
						signify.Verify(x.k.Pub, sub(x.d, "msg"), "")
						signify.Verify(x.k.Pub, sub(x.d, "msg"), sub(x.d, "msg"))
						signify.GenerateKeypair([]byte("pp"), &signify.GenerateOptions{Rounds: 1})
					}
					x.restore()
					for _, s := range []string{"sig", "none", "msg", ""} {
						x.do("verify", []string{x.k.Pub, sub(x.d, "msg"), strings.TrimSuffix(sub(x.d, s), "/")}, true)
					}
					if d := before.diff(t.snap(x.d)); d != "" {
						t.Failf("reading operations changed files:\n%s", d)
					}
					t.Obs("successful runs", 1)
					t.Eval("reading", v)
				}
			}})
			return cs
		},
	})
}

// offCurve is a 32-byte string that is no Edwards point.
func offCurve(r *rand.Rand) []byte {
	for {
		b := randBytes(r, 32)
		b[31] &= 127
		if !onCurve(leToInt(b)) {
			return b
		}
	}
}

// The system calls that change files or directories by their name.
const changeCalls = "open,openat,openat2,creat,rename,renameat,renameat2,link,linkat,symlink,symlinkat,unlink,unlinkat,rmdir,mkdir,mkdirat,mknod,mknodat,truncate,chmod,fchmodat,fchmodat2,chown,lchown,fchownat,utime,utimes,utimensat,futimesat,setxattr,lsetxattr,removexattr,lremovexattr,mount,chroot,swapon,bind,connect"

var (
	reCall = regexp.MustCompile(`^(?:\d+ +)?([a-z_0-9]+)\((.*)`)
	reName = regexp.MustCompile(`(?:AT_FDCWD(?:<([^>]*)>)?, |\d+<([^>]*)>, )?"([^"]*)"`)
)

// changes lists the paths that a trace shows opened for writing, or created,
// renamed, deleted or altered by name.
func changes(log, dir string) (paths map[string]string, calls int) {
	paths = map[string]string{}
	b, _ := os.ReadFile(log)
	for _, l := range strings.Split(string(b), "\n") {
		m := reCall.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		calls++
		switch m[1] {
		case "open", "openat", "openat2":
			if !strings.Contains(m[2], "O_WRONLY") && !strings.Contains(m[2], "O_RDWR") && !strings.Contains(m[2], "O_CREAT") && !strings.Contains(m[2], "O_TRUNC") && !strings.Contains(m[2], "O_TMPFILE") {
				continue
			}
		}
		for _, n := range reName.FindAllStringSubmatch(m[2], -1) {
			p := n[3]
			if !filepath.IsAbs(p) {
				base := dir
				if n[2] != "" {
					base = n[2]
				}
				p = filepath.Join(base, p)
			}
			paths[filepath.Clean(p)] = l
		}
	}
	return
}

// traced watches the operations for changes outside the tree, however short,
// and for inputs truncated, moved or deleted and put back.
func traced(t *T, op string) {
	i := 0
	for _, protected := range []bool{false, true} {
		for _, byCommand := range []bool{false, true} {
			for _, fail := range []string{"", "default output", "wrong passphrase", "damaged key", "missing key", "missing message", "damaged input", "no output directory", "output is a directory"} {
				var pass []byte
				if protected {
					pass = []byte("a rather long passphrase, it is")
				} else if fail == "wrong passphrase" {
					continue
				}
				x := newTree(t, pass)
				key, in, out := x.k.Sec, sub(x.d, "msg"), sub(x.d, "result")
				if op == "verify" || op == "seal" {
					key = x.k.Pub
				}
				if op == "open" {
					in = sub(x.d, "enc")
				}
				if op == "verify" {
					out = sub(x.d, "sig")
				}
				switch fail {
				case "default output":
					if op == "open" {
						continue
					}
					out = ""
				case "wrong passphrase":
					x.pass = []byte("another passphrase")
				case "damaged key":
					t.Write(key, dataFile("c", flip(x.k.Rec.encode(), 8*40+t.Rng.Intn(8*64))))
				case "missing key":
					os.Remove(key)
				case "missing message":
					os.Remove(in)
				case "damaged input":
					b := t.Read(in)
					t.Write(in, b[:len(b)/2])
				case "no output directory":
					out = sub(x.d, "none/result")
				case "output is a directory":
					out = sub(x.d, "home")
				}
				log := sub(x.d, "tmp/trace")
				o := cliOpts{Dir: sub(x.d, "cwd"), Umask: 022, Env: []string{"TMPDIR=" + sub(x.d, "tmp"), "HOME=" + sub(x.d, "home")}, Ticks: 120, Wrap: tracer(log, changeCalls, "")}
				var r cliResult
				if byCommand {
					var fl []string
					switch op {
					case "sign":
						fl = []string{"-S", "-s", key, "-m", in, "-x", out}
					case "verify":
						fl = []string{"-V", "-p", key, "-m", in, "-x", out}
					case "seal":
						fl = []string{"-E", "-p", key, "-m", in, "-c", out}
					case "open":
						fl = []string{"-D", "-s", key, "-c", in, "-m", out}
					case "gen":
						fl = []string{"-G", "-n", "-p", sub(x.d, "keys/new")}
						if fail == "no output directory" {
							fl[3] = sub(x.d, "none/new")
						} else if strings.Contains(fail, "key") {
							fl[3] = sub(x.d, "keys/k")
						}
						if protected {
							fl = append(fl[:1], fl[2:]...)
							o.Answers = []string{"a passphrase", "a passphrase"}
						}
					}
					if protected && (op == "sign" || op == "open") {
						o.Answers = []string{string(x.pass)}
					}
					r = t.CLI(o, fl...)
				} else {
					sp := opSpec{Op: op, A: []string{key, in, out}, Pass: hex.EncodeToString(x.pass)}
					if op == "gen" {
						sp.A = []string{sub(x.d, "keys/new")}
						sp.Rounds = 1
					}
					r = t.Op(o, sp)
				}
				what := fmt.Sprintf("%s, %q, by command %v, protected %v (%v)", op, fail, byCommand, protected, r)
				paths, calls := changes(log, sub(x.d, "cwd"))
				if calls == 0 {
					t.Inconclusivef("%s: nothing traced", what)
				}
				for p, l := range paths {
					switch {
					case strings.HasPrefix(p, x.d+"/"):
						if p != key && p != in || op == "gen" {
							break
						}
						if strings.Contains(l, "open") && !strings.Contains(l, "O_TRUNC") {
							break // not harmed by that; the other cases look at the content
						}
						t.Failf("%s: an input is touched: %s", what, l)
					case strings.HasPrefix(p, "/dev/"), strings.HasPrefix(p, "/proc/self/"):
					default:
						t.Failf("%s: something outside is changed, or was to be: %s", what, l)
					}
				}
				t.Obs("runs traced", 1)
				t.Obs("system calls judged", int64(calls))
				i++
				t.Eval("traced", op, i)
				t.dropDirs()
			}
		}
	}
}
