package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"

	"github.com/kisom/psignify/signify"
)

func isPubName(p string) bool { return strings.Contains(filepath.Base(p), ".pub") }

// secretModes judges the permissions of everything now in dir.
func (t *T) secretModes(dir, when string) (secs int) {
	es, err := os.ReadDir(dir)
	t.must(err, "readdir")
	for _, e := range es {
		fi, err := os.Lstat(filepath.Join(dir, e.Name()))
		if err != nil || fi.IsDir() {
			continue
		}
		if isPubName(e.Name()) {
			continue
		}
		secs++
		if fi.Mode().Perm()&0077 != 0 {
			t.Failf("%s: %s has mode %04o", when, e.Name(), fi.Mode().Perm())
		}
		if fi.Mode().Perm()&0400 == 0 {
			t.Failf("%s: %s is not readable by its owner (mode %04o)", when, e.Name(), fi.Mode().Perm())
		}
	}
	t.Obs("directory snapshots", 1)
	return
}

func (t *T) traceModes(log, dir string, umask int, when string) {
	evs, lines := parseModes(log, dir, uint32(umask))
	if lines == 0 {
		t.Inconclusivef("empty system call trace")
	}
	sec := 0
	for _, e := range evs {
		if !strings.HasPrefix(e.Path, dir+"/") || isPubName(e.Path) {
			continue
		}
		sec++
		if e.Mode&0077 != 0 {
			t.Failf("%s: the secret key file is given mode %04o for a moment: %s", when, e.Mode, e.Line)
		}
	}
	if sec == 0 {
		t.Inconclusivef("the trace shows no creation of a secret key file: %d calls", lines)
	}
	t.Obs("mode-setting system calls judged", int64(sec))
	t.Obs("system calls traced", int64(lines))
}

func init() {
	umasks := []int{0, 022, 002, 077, 027, 0177, 0400 >> 8, 0070, 0007}
	register(&Prop{
		ID:          "C15",
		Level:       "fault_enumeration",
		Rule:        "one evaluation = one key generation (library or command, plain or protected, some umask) with every system call traced, so that each creation and mode change of anything but the public key is judged, or killed at its n-th file system call with the modes on disk judged; distinct by (kind, umask, kill point)",
		Min:         map[string]int64{"mode-setting system calls judged": 25, "directory snapshots": 120, "killed generations": 8, "final modes": 100, "shared directories": 80, "odd surroundings": 8, "missing directories": 20, "parallel generations": 90, "numbers of rounds": 20},
		Assumptions: []string{"files with .pub in their name hold no secret", "strace reports every system call that sets a mode"},
		Cases: func(cfg *Config) []Case {
			var cs []Case
			gen := func(t *T, kind string, umask int, dir string, wrap []string) cliResult {
				o := cliOpts{Dir: dir, Umask: umask, Wrap: wrap, Env: []string{"TMPDIR=" + dir, "HOME=" + dir, "GOMAXPROCS=1"}}
				switch kind {
				case "cli":
					return t.CLI(o, "-G", "-n", "-p", "k")
				case "cli-protected":
					o.Answers = []string{"pp", "pp"}
					return t.CLI(o, "-G", "-p", "k")
				case "cli-user":
					t.must(os.Chown(dir, 54321, 54321), "chown")
					o.Uid = 54321
					return t.CLI(o, "-G", "-n", "-p", "k")
				case "lib":
					return t.Op(o, opSpec{Op: "gen", A: []string{sub(dir, "k")}})
				}
				return t.Op(o, opSpec{Op: "gen", A: []string{sub(dir, "k")}, Pass: "7070", Rounds: 1})
			}
			final := func(t *T, dir string, umask int, kind string) {
				if t.secretModes(dir, fmt.Sprintf("after generation (%s, umask %04o)", kind, umask)) != 1 || !exists(sub(dir, "k.sec")) {
					t.Failf("generation did not create exactly one secret key file")
				}
				fi, err := os.Lstat(sub(dir, "k.pub"))
				if err != nil || !fi.Mode().IsRegular() {
					t.Failf("no public key file: %v", err)
				}
				if want := os.FileMode(0444 &^ umask & 0444); fi.Mode().Perm()&want != want {
					t.Failf("the public key file has mode %04o under umask %04o: others cannot read it", fi.Mode().Perm(), umask)
				}
				t.Obs("final modes", 1)
			}
			for _, kind := range []string{"cli", "lib", "lib-protected", "cli-protected", "cli-user"} {
				kind := kind
				for _, um := range umasks {
					um := um
					cs = append(cs, Case{Name: fmt.Sprintf("trace/%s/%04o", kind, um), Fn: func(t *T) {
						dir := t.Dir()
						if kind != "cli-user" { // strace of another user's process is not needed
							log := filepath.Join(t.Dir(), "trace")
							r := gen(t, kind, um, dir, tracer(log, "all", ""))
							if r.Exit != 0 {
								t.Failf("generation failed: %v", r)
							}
							t.traceModes(log, dir, um, fmt.Sprintf("%s, umask %04o", kind, um))
						} else if r := gen(t, kind, um, dir, nil); r.Exit != 0 {
							t.Failf("generation failed: %v", r)
						}
						final(t, dir, um, kind)
						t.Eval(kind, um)
						t.Sample("all system calls of a generation under umask %04o", um)
					}})
				}
			}
			// whatever protects the key
			cs = append(cs, Case{Name: "rounds", Fn: func(t *T) {
				rounds := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 15, 16, 20, 24, 31, 32, 33, 48, 63, 64}
				if cfg.Thorough {
					for r := 65; r < 600; r += 1 + r/8 {
						rounds = append(rounds, r)
					}
				}
				for _, r := range rounds {
					dir := t.Dir()
					log := filepath.Join(t.Dir(), "trace")
					pass := randBytes(t.Rng, 1+t.Rng.Intn(20))
					res := t.Op(cliOpts{Dir: dir, Umask: 0, Wrap: tracer(log, "all", ""), Env: []string{"TMPDIR=" + dir, "HOME=" + dir, "GOMAXPROCS=1"}}, opSpec{Op: "gen", A: []string{sub(dir, "k")}, Pass: fmt.Sprintf("%x", pass), Rounds: r})
					if res.Exit != 0 {
						t.Failf("generation with %d rounds failed: %v", r, res)
					}
					t.traceModes(log, dir, 0, fmt.Sprintf("%d rounds", r))
					final(t, dir, 0, fmt.Sprintf("%d rounds", r))
					t.Obs("numbers of rounds", 1)
					t.Eval("rounds", r)
				}
			}})
			// directories shared with others, reached in different ways
			for _, mode := range []uint32{0777, 01777, 0775, 0770, 02775, 02777, 0711, 0707, 0750, 0700} {
				mode := mode
				cs = append(cs, Case{Name: fmt.Sprintf("directory/%05o", mode), Fn: func(t *T) {
					for _, kind := range []string{"cli", "lib", "lib-protected", "cli-user"} {
						for _, um := range []int{0, 022, 002} {
							dir := t.Dir()
							t.must(syscall.Chown(dir, 0, 54322), "chown")
							t.must(syscall.Chmod(dir, mode), "chmod")
							if kind == "cli-user" && mode&0100 == 0 {
								continue
							}
							log := filepath.Join(t.Dir(), "trace")
							var wrap []string
							if kind != "cli-user" {
								wrap = tracer(log, "all", "")
							}
							r := gen(t, kind, um, dir, wrap)
							if r.Exit != 0 {
								t.Failf("generation in a directory of mode %04o failed: %v", mode, r)
							}
							if wrap != nil {
								t.traceModes(log, dir, um, fmt.Sprintf("%s, umask %04o, directory of mode %04o", kind, um, mode))
							}
							final(t, dir, um, kind)
							t.Obs("shared directories", 1)
							t.Eval(kind, um, mode)
							t.dropDirs()
						}
					}
				}})
			}
			cs = append(cs, Case{Name: "surroundings", Fn: func(t *T) {
				// links to the directory, readable neighbours, long names, odd environments
				for i, kind := range []string{"cli", "lib", "cli", "lib", "cli", "lib", "cli", "lib"} {
					dir := t.Dir()
					what := ""
					o := cliOpts{Dir: dir, Umask: 0, Env: []string{"TMPDIR=" + dir, "HOME=" + dir}}
					key := sub(dir, "k")
					switch i / 2 {
					case 0:
						what = "other keys readable by all in the directory"
						t.Write(sub(dir, "old.pub"), []byte("x"))
						t.must(os.Chmod(sub(dir, "old.pub"), 0666), "chmod")
					case 1:
						what = "through a symbolic link to the directory"
						real := t.Dir()
						t.must(os.Chmod(real, 0777), "chmod")
						t.must(os.Symlink(real, sub(dir, "l")), "symlink")
						key = sub(dir, "l", "k")
					case 2:
						what = "odd spelling of the path"
						key = dir + "//./k"
					case 3:
						what = "odd environment"
						o.Env = append(o.Env, "UMASK=0", "SIGNIFY_MODE=0666", "DEBUG=1", "VERBOSE=1", "CI=1", "SUDO_UID=54321", "SUDO_USER=nobody")
					}
					log := filepath.Join(t.Dir(), "trace")
					o.Wrap = tracer(log, "all", "")
					var r cliResult
					if kind == "cli" {
						r = t.CLI(o, "-G", "-n", "-p", key)
					} else {
						r = t.Op(o, opSpec{Op: "gen", A: []string{key}})
					}
					if r.Exit != 0 {
						t.Failf("%s: generation failed: %v", what, r)
					}
					t.traceModes(log, dir, 0, what)
					fi, err := os.Stat(key + ".sec")
					if err != nil || fi.Mode().Perm()&0077 != 0 {
						t.Failf("%s: secret key file: %v %v", what, fi, err)
					}
					t.Obs("odd surroundings", 1)
					t.Eval(kind, what)
				}
			}})
			// directories that are not there: whatever is created is not open to others
			cs = append(cs, Case{Name: "missing-directory", Fn: func(t *T) {
				for i := 0; i < 24; i++ {
					dir := t.Dir()
					t.must(os.Chmod(dir, 0777), "chmod")
					o := cliOpts{Dir: dir, Umask: []int{0, 022}[i%2], Env: []string{"TMPDIR=" + dir, "HOME=" + dir, "USER=someone"}}
					log := filepath.Join(t.Dir(), "trace")
					o.Wrap = tracer(log, "all", "")
					key := sub(dir, []string{"no", "no/such", ".signify"}[i/2%3], "k")
					var r cliResult
					switch i % 4 {
					case 0:
						r = t.CLI(o, "-G", "-n", "-p", key)
					case 1:
						r = t.Op(o, opSpec{Op: "gen", A: []string{key}})
					case 2:
						r = t.Op(o, opSpec{Op: "gen", A: []string{key}, Pass: "7070", Rounds: 1})
					case 3: // the default place, in a home directory without it
						o.Wrap = nil
						o.Uid = 54321
						r = t.CLI(o, "-G", "-n")
					}
					what := fmt.Sprintf("generation into a missing directory (%v)", r)
					secs := 0
					err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
						if err != nil {
							return err
						}
						if fi.Mode().IsRegular() && !isPubName(p) {
							secs++
							if fi.Mode().Perm()&0077 != 0 {
								t.Failf("%s: %s has mode %04o", what, p, fi.Mode().Perm())
							}
						}
						return nil
					})
					t.must(err, "walk")
					if r.Exit == 0 && secs == 0 {
						t.Failf("%s: success without a secret key file", what)
					}
					if o.Wrap != nil {
						evs, lines := parseModes(log, dir, uint32(o.Umask))
						for _, e := range evs {
							if strings.HasPrefix(e.Path, dir+"/") && !isPubName(e.Path) && e.Mode&0077 != 0 {
								t.Failf("%s: %s is given mode %04o for a moment: %s", what, e.Path, e.Mode, e.Line)
							}
						}
						t.Obs("system calls traced", int64(lines))
					}
					t.Obs("missing directories", 1)
					t.Eval("missing", i)
				}
			}})
			kinds := []string{"cli", "lib", "lib-protected"}
			for _, kind := range kinds {
				kind := kind
				for _, um := range []int{0, 022}[:cfg.pick(1, 2)] {
					um := um
					cs = append(cs, Case{Name: fmt.Sprintf("kill/%s/%04o", kind, um), Ticks: 800, Fn: func(t *T) {
						var dir string
						n := t.killPoints(t.cfg.pick(150, 400), func(log, inj string) cliResult {
							dir = t.Dir()
							return gen(t, kind, um, dir, tracer(log, fsCalls, inj))
						}, func(n string, r cliResult) {
							t.secretModes(dir, fmt.Sprintf("%s, umask %04o, killed at %s", kind, um, n))
							t.Eval(kind, um, n)
							t.dropDirs()
						})
						t.Obs("killed generations", int64(n))
					}})
				}
			}
			cs = append(cs, Case{Name: "in-process", Fn: func(t *T) {
				// many generations under umask 0 with a poller looking on
				old := syscall.Umask(0)
				defer syscall.Umask(old)
				dir := t.Dir()
				stop := make(chan bool)
				bad := make(chan string, 1)
				done := make(chan int)
				go func() {
					seen := 0
					for {
						select {
						case <-stop:
							done <- seen
							return
						default:
						}
						es, _ := os.ReadDir(dir)
						for _, e := range es {
							if isPubName(e.Name()) {
								continue
							}
							if fi, err := os.Lstat(filepath.Join(dir, e.Name())); err == nil {
								seen++
								if fi.Mode().Perm()&0077 != 0 {
									select {
									case bad <- fmt.Sprintf("%s has mode %04o", e.Name(), fi.Mode().Perm()):
									default:
									}
								}
							}
						}
					}
				}()
				// many at the same time: nothing may depend on process-wide settings
				for i := 0; i < 12; i++ {
					var wg sync.WaitGroup
					errs := make([]error, 8)
					for j := range errs {
						j := j
						wg.Add(1)
						go func() {
							defer wg.Done()
							errs[j] = signify.GenerateKey(sub(dir, fmt.Sprintf("k%d", j)), nil, nil)
						}()
					}
					wg.Wait()
					for j, err := range errs {
						if err != nil {
							t.Failf("GenerateKey: %v", err)
						}
						for ext, want := range map[string]os.FileMode{".sec": 0, ".pub": 0044} {
							fi, err := os.Stat(sub(dir, fmt.Sprintf("k%d%s", j, ext)))
							if err != nil || fi.Mode().Perm()&0044 != want {
								t.Failf("one of eight parallel generations left %s with %v (%v)", ext, fi.Mode(), err)
							}
							os.Remove(sub(dir, fmt.Sprintf("k%d%s", j, ext)))
						}
						t.Obs("parallel generations", 1)
					}
				}
				for i := 0; i < 120; i++ {
					var pass []byte
					if i%10 == 0 {
						pass = []byte("pp")
					}
					if err := signify.GenerateKey(sub(dir, "k"), pass, &signify.GenerateOptions{Rounds: 1}); err != nil {
						t.Failf("GenerateKey: %v", err)
					}
					final(t, dir, 0, "in process")
					os.Remove(sub(dir, "k.sec"))
					os.Remove(sub(dir, "k.pub"))
					t.Eval("inproc", i)
				}
				close(stop)
				t.Obs("polled modes", int64(<-done))
				select {
				case b := <-bad:
					t.Failf("seen from outside during generation: %s", b)
				default:
				}
			}})
			return cs
		},
	})
}
