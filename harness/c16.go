package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/kisom/psignify/signify"
)

// What may already be at a key path.
var occupants = []string{"none", "file", "empty", "read-only", "mode 0", "key", "symlink", "dangling", "symlink to dir", "dir", "hard link", "loop", "fifo"}

func (t *T) occupy(dir, path, kind string, other []byte) {
	side := sub(dir, "other-"+filepath.Base(path))
	var err error
	switch kind {
	case "file":
		err = os.WriteFile(path, randBytes(t.Rng, 300), 0644)
	case "empty":
		err = os.WriteFile(path, nil, 0644)
	case "read-only":
		err = os.WriteFile(path, []byte("precious\n"), 0444)
	case "mode 0":
		err = os.WriteFile(path, []byte("precious\n"), 0)
	case "key":
		err = os.WriteFile(path, other, 0600)
	case "symlink":
		t.Write(side, []byte("the file behind the link\n"))
		err = os.Symlink(side, path)
	case "dangling":
		err = os.Symlink(side, path)
	case "symlink to dir":
		t.must(os.Mkdir(side, 0755), "mkdir")
		err = os.Symlink(filepath.Base(side), path)
	case "dir":
		err = os.Mkdir(path, 0755)
	case "hard link":
		t.Write(side, []byte("one file, two names\n"))
		err = os.Link(side, path)
	case "loop":
		err = os.Symlink(filepath.Base(path), path)
	case "fifo":
		err = mkfifo(path)
	}
	t.must(err, "occupy "+kind)
}

// genInject runs generations in processes of their own under strace with one
// fault each.
func (t *T) genRun(kind, dir, log, inject string) cliResult {
	o := cliOpts{Dir: dir, Umask: 022, Env: []string{"TMPDIR=" + dir, "HOME=" + dir, "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1"}}
	if inject != "" {
		o.Wrap = tracer(log, fsCalls+",exit_group", inject)
	}
	switch kind {
	case "cli":
		return t.CLI(o, "-G", "-n", "-p", "k")
	case "lib":
		return t.Op(o, opSpec{Op: "gen", A: []string{sub(dir, "k")}})
	case "lib-relative":
		return t.Op(o, opSpec{Op: "gen", A: []string{"k"}})
	}
	return t.Op(o, opSpec{Op: "gen", A: []string{sub(dir, "k")}, Pass: "7070", Rounds: 1})
}

func genPass(kind string) []byte {
	if kind == "lib-protected" {
		return []byte("pp")
	}
	return nil
}

func init() {
	register(&Prop{
		ID:    "C16",
		Level: "fault_enumeration",
		Rule:  "one evaluation = one key generation in a directory that is compared before and after: with something at one or both target paths, in competition with others for the same name, killed at its n-th file system call, with its n-th call of one kind failing with one errno, or with its files limited to n bytes; distinct by (kind, situation, n)",
		Min: map[string]int64{"occupied targets": 250, "killed generations": 10, "injected failures that surfaced": 20, "size-limited generations": 200,
			"competing generations": 200, "pair states judged": 400, "complete pairs": 50},
		Assumptions: []string{"an interruption is the end of the process or one failing call, not the loss of data already accepted by the operating system", "not two failures in the same generation"},
		Cases: func(cfg *Config) []Case {
			var cs []Case
			for _, sk := range occupants {
				for _, pk := range occupants {
					if sk == "none" && pk == "none" {
						continue
					}
					sk, pk := sk, pk
					cs = append(cs, Case{Name: fmt.Sprintf("occupied/%s,%s", sk, pk), Fn: func(t *T) {
						for v, kind := range []string{"in-process", "in-process protected", "cli", "lib"} {
							child := v >= 2
							if !child && (sk == "fifo" || pk == "fifo") {
								continue
							}
							if child && !cfg.Thorough && (len(sk)*7+len(pk)+v)%5 != 0 && sk != "none" && pk != "none" {
								continue
							}
							dir := t.Dir()
							old := t.RefKey(sub(t.Dir(), "old"), nil, 0)
							t.occupy(dir, sub(dir, "k.sec"), sk, t.Read(old.Sec))
							t.occupy(dir, sub(dir, "k.pub"), pk, t.Read(old.Pub))
							if v%2 == 0 {
								t.bystanders(dir, "k")
							}
							before := t.snap(dir)
							failed := false
							switch kind {
							case "in-process":
								failed = signify.GenerateKey(sub(dir, "k"), nil, nil) != nil
							case "in-process protected":
								failed = signify.GenerateKey(sub(dir, "k"), []byte("pp"), &signify.GenerateOptions{Rounds: 1}) != nil
							case "cli":
								r := t.CLI(cliOpts{Dir: dir, Umask: 022, Ticks: 30}, "-G", "-n", "-p", "k")
								failed = r.Exit != 0 && !r.OKLine()
							case "lib":
								r := t.Op(cliOpts{Dir: dir, Umask: 022, Ticks: 30}, opSpec{Op: "gen", A: []string{"k"}})
								failed = r.Exit != 0
							}
							if !failed {
								t.Failf("%s: key generation succeeds although k.sec is %q and k.pub is %q", kind, sk, pk)
							}
							// nothing new may stay behind, or the next attempt fails, too
							if d := before.diff(t.snap(dir), "."); d != "" {
								t.Failf("%s: refused key generation (k.sec %q, k.pub %q) changed files:\n%s", kind, sk, pk, d)
							}
							if pk == "none" && exists(sub(dir, "k.pub")) {
								t.pairState(sub(dir, "k"), []byte("pp"), "refused generation")
							}
							t.Obs("occupied targets", 1)
							t.Eval(kind, sk, pk)
						}
						t.Sample("k.sec is %q, k.pub is %q", sk, pk)
					}})
				}
			}
			cs = append(cs, Case{Name: "again", Fn: func(t *T) {
				// a second generation never harms the first pair
				for i := 0; i < 40; i++ {
					dir := t.Dir()
					if i%8 == 7 {
						if r := t.genRun("cli", dir, "", ""); r.Exit != 0 {
							t.Failf("generation failed: %v", r)
						}
					} else if err := signify.GenerateKey(sub(dir, "k"), nil, nil); err != nil {
						t.Failf("GenerateKey: %v", err)
					}
					if i%3 == 1 {
						os.Remove(sub(dir, "k.pub"))
					} else if i%3 == 2 {
						os.Remove(sub(dir, "k.sec"))
					}
					before := t.snap(dir)
					var err error
					if i%8 == 6 {
						if r := t.genRun("cli", dir, "", ""); r.Exit != 0 {
							err = fmt.Errorf("%v", r)
						}
					} else {
						err = signify.GenerateKey(sub(dir, "k"), nil, nil)
					}
					if err == nil {
						t.Failf("second generation under the same name succeeds")
					}
					allow := []string{"."}
					if i%3 == 2 {
						allow = append(allow, "k.sec")
					}
					if d := before.diff(t.snap(dir), allow...); d != "" {
						t.Failf("second generation changed files:\n%s", d)
					}
					t.Obs("occupied targets", 1)
					t.Eval("again", i)
				}
			}})
			for i := 0; i < cfg.pick(4, 40); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("compete/%d", i), Fn: func(t *T) {
					for round := 0; round < 60; round++ {
						dir := t.Dir()
						n := 2 + t.Rng.Intn(7)
						errs := make([]error, n)
						start := make(chan bool)
						var wg sync.WaitGroup
						child := round%12 == 11
						for j := 0; j < n; j++ {
							wg.Add(1)
							go func(j int) {
								defer wg.Done()
								<-start
								if child {
									if r := t.genRun([]string{"cli", "lib"}[j%2], dir, "", ""); r.Exit != 0 {
										errs[j] = fmt.Errorf("%v", r)
									}
									return
								}
								errs[j] = signify.GenerateKey(sub(dir, "k"), nil, nil)
							}(j)
						}
						close(start)
						wg.Wait()
						won := 0
						for _, err := range errs {
							if err == nil {
								won++
							}
						}
						if won != 1 {
							t.Failf("%d of %d simultaneous generations under one name succeeded: %v", won, n, errs)
						}
						if pub, _ := t.pairState(sub(dir, "k"), nil, fmt.Sprintf("%d simultaneous generations", n)); !pub {
							t.Failf("the successful generation left no public key")
						}
						t.Obs("competing generations", int64(n))
						t.Eval("compete", i, round)
						t.dropDirs()
					}
				}})
			}
			// someone else creates one of the files in the middle of a generation
			for _, kind := range []string{"cli", "lib"} {
				for _, ext := range []string{".sec", ".pub"} {
					for part := 0; part < 4; part++ {
						kind, ext, part := kind, ext, part
						cs = append(cs, Case{Name: fmt.Sprintf("outsider/%s%s/%d", kind, ext, part), Fn: func(t *T) {
							for i := 0; i < t.cfg.pick(6, 30); i++ {
								dir := t.Dir()
								log := filepath.Join(t.Dir(), "trace")
								o := cliOpts{Dir: dir, Umask: 022, Env: []string{"GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1"}}
								o.Wrap = []string{"strace", "-f", "-qq", "-o", log, "-P", dir, "-P", sub(dir, "k.sec"), "-P", sub(dir, "k.pub"), "-P", "k.sec", "-P", "k.pub",
									"-e", "trace=openat,open,newfstatat,lstat,stat,statx,faccessat,faccessat2,access,unlinkat,renameat,renameat2,linkat,write,close,fchmod",
									"-e", "inject=openat,open,newfstatat,lstat,stat,statx,faccessat,faccessat2,access,unlinkat,renameat,renameat2,linkat,write,close,fchmod:delay_enter=40000"}
								mine := []byte(fmt.Sprintf("a file of someone else %d\n", i))
								path := sub(dir, "k"+ext)
								wait := time.Duration(10+t.Rng.Intn(40)+part*70) * time.Millisecond
								got := make(chan bool, 1)
								go func() {
									// start when the generation has reached the directory
									for q := 0; q < 4000; q++ {
										if b, _ := os.ReadFile(log); len(b) > 0 || exists(sub(dir, "k.sec")) {
											break
										}
										time.Sleep(time.Millisecond)
									}
									time.Sleep(wait)
									f, err := os.OpenFile(path, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0644)
									if err == nil {
										f.Write(mine)
										f.Close()
									}
									got <- err == nil
								}()
								var r cliResult
								if kind == "cli" {
									r = t.CLI(o, "-G", "-n", "-p", "k")
								} else {
									r = t.Op(o, opSpec{Op: "gen", A: []string{sub(dir, "k")}})
								}
								if <-got {
									if b, err := os.ReadFile(path); err != nil || string(b) != string(mine) {
										t.Failf("%s: the file %s, created by someone else during the generation (%v), was changed: %v %q", kind, path, r, err, b)
									}
									t.Obs("files created by others during a generation", 1)
								} else if r.Exit == 0 {
									if pub, _ := t.pairState(sub(dir, "k"), nil, "generation with an onlooker"); !pub {
										t.Failf("generation succeeded without a public key")
									}
								}
								t.Eval("outsider", kind, ext, part, i)
								t.dropDirs()
							}
						}})
					}
				}
			}
			kinds := []string{"cli", "lib", "lib-protected", "lib-relative"}
			for _, kind := range kinds {
				kind := kind
				cs = append(cs, Case{Name: "kill/" + kind, Ticks: 800, Fn: func(t *T) {
					var dir string
					var before snapshot
					n := t.killPoints(t.cfg.pick(150, 400), func(log, inj string) cliResult {
						dir = t.Dir()
						t.bystanders(dir, "k")
						before = t.snap(dir)
						return t.genRun(kind, dir, log, inj)
					}, func(n string, r cliResult) {
						pub, sec := t.pairState(sub(dir, "k"), genPass(kind), fmt.Sprintf("%s killed at %s", kind, n))
						if d := before.harmed(t.snap(dir)); d != "" {
							t.Failf("%s killed at %s: other files were changed:\n%s", kind, n, d)
						}
						t.Obs(fmt.Sprintf("left after kill: sec=%v pub=%v", sec, pub), 1)
						t.Eval("kill", kind, n)
						t.dropDirs()
					})
					t.Obs("killed generations", int64(n))
				}})
				// kill at the n-th call of one kind on one of the files
				for _, call := range []string{"openat", "write", "close", "unlinkat", "rename", "renameat", "renameat2", "linkat", "fsync", "fchmod", "fchmodat", "ftruncate"} {
					call := call
					cs = append(cs, Case{Name: fmt.Sprintf("fault/%s/%s", kind, call), Ticks: 800, Fn: func(t *T) {
						faults := []string{"signal=SIGKILL", "signal=SIGTERM", "signal=SIGINT", "error=EIO", "error=ENOSPC", "error=EACCES", "error=EDQUOT", "error=EINTR"}
						if call == "close" {
							faults = faults[:5]
						}
						for _, f := range faults {
							quiet := 0
							for n := 1; n <= t.cfg.pick(25, 80) && quiet < 2; n++ {
								dir := t.Dir()
								log := filepath.Join(t.Dir(), "trace")
								t.bystanders(dir, "k")
								before := t.snap(dir)
								r := t.genRun(kind, dir, log, fmt.Sprintf("%s:%s:when=%d", call, f, n))
								what := fmt.Sprintf("%s with %s on %s number %d (%v)", kind, f, call, n, r)
								if d := before.harmed(t.snap(dir)); d != "" {
									t.Failf("%s: other files were changed:\n%s", what, d)
								}
								pub, sec := t.pairState(sub(dir, "k"), genPass(kind), what)
								if r.Exit == 0 && r.Signal == "" && !(pub && sec) {
									t.Failf("%s: reported success without a key pair", what)
								}
								hit := r.Exit != 0 || r.Signal != ""
								if !hit {
									b, _ := os.ReadFile(log)
									hit = contains(b, "INJECTED")
								} else {
									t.Obs("injected failures that surfaced", 1)
								}
								if hit {
									quiet = 0
									t.Obs("injected faults", 1)
								} else {
									quiet++
								}
								t.Eval(kind, call, f, n)
								t.dropDirs()
							}
						}
					}})
				}
			}
			cs = append(cs, Case{Name: "size-limit", Fn: func(t *T) {
				for _, pass := range [][]byte{nil, []byte("pp")} {
					for n := 0; n <= 210; n++ {
						dir := t.Dir()
						t.bystanders(dir, "k")
						before := t.snap(dir)
						var err error
						limitFsize(t, uint64(n), func() {
							err = signify.GenerateKey(sub(dir, "k"), pass, &signify.GenerateOptions{Rounds: 1})
						})
						what := fmt.Sprintf("files limited to %d bytes (%v)", n, err)
						if d := before.harmed(t.snap(dir)); d != "" {
							t.Failf("%s: other files were changed:\n%s", what, d)
						}
						pub, sec := t.pairState(sub(dir, "k"), pass, what)
						if err != nil && (pub || sec) {
							t.Failf("%s: a failed generation left a file behind", what)
						}
						if err == nil && !(pub && sec) {
							t.Failf("%s: success without a key pair", what)
						}
						t.Obs("size-limited generations", 1)
						t.Eval("fsize", n, len(pass))
					}
					t.dropDirs()
				}
			}}, Case{Name: "size-limit/command", Fn: func(t *T) {
				for n := 0; n <= 210; n += t.cfg.pick(14, 1) {
					dir := t.Dir()
					r := t.CLI(cliOpts{Dir: dir, Umask: 022, Wrap: []string{"prlimit", fmt.Sprintf("--fsize=%d", n)}}, "-G", "-n", "-p", "k")
					what := fmt.Sprintf("files limited to %d bytes (%v)", n, r)
					pub, sec := t.pairState(sub(dir, "k"), nil, what)
					if r.Exit == 1 && (pub || sec) {
						t.Failf("%s: a failed generation left a file behind", what)
					}
					if r.Exit == 0 && !(pub && sec) {
						t.Failf("%s: success without a key pair", what)
					}
					t.Obs("size-limited generations", 1)
					t.Eval("fsize-cli", n)
				}
			}})
			return cs
		},
	})
}
