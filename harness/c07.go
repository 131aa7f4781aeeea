package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"

	"github.com/kisom/psignify/crypto"
)

// roundTrip seals msg and opens the result with the code under test.
func (t *T) roundTrip(k *KeyPair, msg []byte, what string, viaCLI, fifo, defPath, preexist bool) {
	d := t.Dir()
	m := sub(d, "message")
	enc, out := sub(d, "sealed"), sub(d, "opened")
	encArg := enc
	if defPath {
		enc = m + ".enc"
		encArg = ""
	}
	if preexist {
		t.Write(enc, bytes.Repeat([]byte("old contents\n"), (len(msg)*2+2000)/13))
		t.Write(out, bytes.Repeat([]byte("older contents\n"), (len(msg)*2+2000)/15))
	}
	fed := make(chan error, 1)
	if fifo {
		t.must(mkfifo(m), "mkfifo")
		parts := 1 + t.Rng.Intn(4)
		go func() {
			f, err := os.OpenFile(m, os.O_WRONLY, 0)
			if err == nil {
				for i := 0; i < parts; i++ {
					f.Write(msg[len(msg)*i/parts : len(msg)*(i+1)/parts])
				}
				f.Close()
			}
			fed <- err
		}()
	} else {
		t.Write(m, msg)
		fed <- nil
	}
	if len(msg) <= 1<<16 {
		t.Attach("message", msg)
	}
	if viaCLI {
		args := []string{"-E", "-p", k.Pub, "-m", m}
		if encArg != "" {
			args = append(args, "-c", encArg)
		}
		r := t.CLI(cliOpts{Dir: d, Umask: -1}, args...)
		if r.Exit != 0 || !r.OKLine() {
			t.Failf("%s: encrypting by command failed: %v", what, r)
		}
		<-fed
		o := cliOpts{Dir: d, Umask: -1}
		if k.Pass != nil {
			o.Answers = []string{string(k.Pass)}
		}
		r = t.CLI(o, "-D", "-s", k.Sec, "-c", enc, "-m", out)
		if r.Exit != 0 || !r.OKLine() {
			t.Failf("%s: decrypting by command failed: %v", what, r)
		}
		t.Obs("cli round trips", 1)
	} else {
		t.NoPass()
		if err := crypto.Seal(k.Pub, m, encArg); err != nil {
			t.Failf("%s: Seal of %d bytes failed: %v", what, len(msg), err)
		}
		<-fed
		t.Use(k)
		if err := crypto.Open(k.Sec, enc, out); err != nil {
			t.Failf("%s: Open of %d bytes failed: %v", what, len(msg), err)
		}
		t.Obs("library round trips", 1)
	}
	if got := t.Read(out); !bytes.Equal(got, msg) {
		t.Failf("%s: decrypted message differs (%s)", what, firstDiff(got, msg))
	}
	if fifo {
		t.Obs("messages read from a pipe", 1)
	}
	if preexist {
		t.Obs("older longer outputs replaced", 1)
	}
	if k.Pass != nil {
		t.Obs("protected keys", 1)
	}
	if len(msg) > refChunk {
		t.Obs("multi-chunk messages", 1)
	}
	t.Obs("bytes compared", int64(len(msg)))
	t.Eval(k.PubRec.Key, sum(msg), viaCLI, fifo, defPath, preexist)
	os.RemoveAll(d)
}

func init() {
	register(&Prop{
		ID:   "C07",
		Rule: "one evaluation = one message sealed and opened by the code under test, output compared byte for byte; sizes 0..300, all residues around multiples of the chunk size and of the base64 line, up to several hundred chunks; eight content classes; pipes, older longer outputs, default path, command; distinct by (key, message, mode)",
		Min:  map[string]int64{"library round trips": 900, "cli round trips": 60, "messages read from a pipe": 60, "bare names": 250, "older longer outputs replaced": 150, "protected keys": 60, "multi-chunk messages": 150, "messages of thousands of chunks": 30, "beginnings of huge messages checked": 10},
		Cases: func(cfg *Config) []Case {
			var cs []Case
			cs = append(cs, Case{Name: "looks", Fn: func(t *T) {
				k := t.GenKey(sub(t.Dir(), "k"), nil, 0)
				for i, msg := range looks(t.Rng) {
					t.roundTrip(k, msg, fmt.Sprintf("message %q", head(msg)), false, i%7 == 0, i%2 == 0, i%5 == 0)
				}
			}})
			cs = append(cs, Case{Name: "names", Fn: func(t *T) {
				// nothing but the name, for one file after the other
				wd, _ := os.Getwd()
				defer os.Chdir(wd)
				k := t.GenKey(sub(t.Dir(), "k"), nil, 0)
				t.Use(k)
				for i, name := range oddNames {
					for _, what := range []string{"message", "public", "secret", "encrypted", "output", "default"} {
						d := t.Dir()
						t.must(os.Chdir(d), "chdir")
						other := t.Dir()
						msg := content(t.Rng, i, 300+i)
						m, pub, sec, enc, out := sub(other, "m"), k.Pub, k.Sec, sub(other, "enc"), sub(other, "out")
						encArg := enc
						switch what {
						case "message":
							m = name
						case "public":
							pub = name
							t.Write(d+"/"+name, t.Read(k.Pub))
						case "secret":
							sec = name
							t.Write(d+"/"+name, t.Read(k.Sec))
						case "encrypted":
							enc, encArg = name, name
						case "output":
							out = name
						default:
							m, enc, encArg, out = name, name+".enc", "", name+".dec"
						}
						if filepath.IsAbs(m) {
							t.Write(m, msg)
						} else {
							t.Write(d+"/"+m, msg)
						}
						if err := crypto.Seal(pub, m, encArg); err != nil {
							t.Failf("bare name %q (%s): Seal: %v", name, what, err)
						}
						if err := crypto.Open(sec, enc, out); err != nil {
							t.Failf("bare name %q (%s): Open: %v", name, what, err)
						}
						if !filepath.IsAbs(out) {
							out = d + "/" + out
						}
						if got := t.Read(out); !bytes.Equal(got, msg) {
							t.Failf("bare name %q (%s): another message: %s", name, what, firstDiff(got, msg))
						}
						t.Obs("bare names", 1)
						t.Eval("names", what, name)
					}
				}
			}})
			for blk := 0; blk < 8; blk++ {
				blk := blk
				cs = append(cs, Case{Name: fmt.Sprintf("small/%d", blk), Fn: func(t *T) {
					k := t.GenKey(sub(t.Dir(), "k"), nil, 0)
					for n := blk; n <= 400; n += 8 {
						t.roundTrip(k, content(t.Rng, n/8, n), fmt.Sprintf("%d bytes", n), false, false, n%3 == 0, n%4 == 0)
					}
				}})
			}
			// residues around chunk multiples
			var mult []int
			for _, c := range []int{1, 2, 3, 4, 7} {
				mult = append(mult, c)
			}
			if cfg.Thorough {
				mult = append(mult, 5, 6, 8, 16, 31, 64, 255, 256, 257)
			}
			for _, c := range mult {
				c := c
				cs = append(cs, Case{Name: fmt.Sprintf("chunk/%d", c), Fn: func(t *T) {
					k := t.GenKey(sub(t.Dir(), "k"), nil, 0)
					for d := -20; d <= 20; d++ {
						t.roundTrip(k, content(t.Rng, d+40, c*refChunk+d), fmt.Sprintf("%d chunks %+d bytes", c, d), false, false, d%3 == 0, d%2 == 0)
					}
					for _, d := range []int{-54, -53, 53, 54, -72, 72, 1000, -1000} {
						t.roundTrip(k, content(t.Rng, d+80, c*refChunk+d), fmt.Sprintf("%d chunks %+d bytes", c, d), false, false, false, false)
					}
				}})
			}
			for i, n := range []int{1 << 12, 1<<12 + 1, 1<<13 - 1, 1 << 14, 16384, 16383, 16386, 16400, 16401, 16402, 1 << 15, 32768, 32769, 1 << 16, 65535, 65537, 1 << 17, 1 << 18, 1<<20 - 1, 1 << 20} {
				i, n := i, n
				cs = append(cs, Case{Name: fmt.Sprintf("power/%d-%d", i, n), Fn: func(t *T) {
					k := t.GenKey(sub(t.Dir(), "k"), nil, 0)
					for c := 0; c < 3; c++ {
						t.roundTrip(k, content(t.Rng, c*3+i, n), fmt.Sprintf("%d bytes", n), false, c == 2, c == 1, c == 0)
					}
				}})
			}
			big := []int{255, 256, 257, 300}
			if cfg.Thorough {
				big = append(big, 511, 512, 513, 1023, 1024, 1025, 4096, 65536, 65537)
			}
			for _, c := range big {
				c := c
				cs = append(cs, Case{Name: fmt.Sprintf("big/%d", c), Ticks: 600, Fn: func(t *T) {
					k := t.GenKey(sub(t.Dir(), "k"), nil, 0)
					t.roundTrip(k, content(t.Rng, c%4, c*refChunk-c%2), fmt.Sprintf("%d chunks", c), false, false, true, false)
					if c < 2000 {
						t.roundTrip(k, content(t.Rng, 4, c*refChunk+1), fmt.Sprintf("%d chunks", c+1), true, c%2 == 0, false, false)
					}
					t.Sample("message of %d chunks", c)
				}})
			}
			// messages of thousands of chunks, in processes of their own
			for i, c := range []int64{511, 512, 513, 1024, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 32768, 65535, 65536, 65537} {
				i, c := i, c
				if !cfg.Thorough && c > 32768 && c < 65536 {
					continue
				}
				cs = append(cs, Case{Name: fmt.Sprintf("stream/%d", c), Ticks: 3000, Fn: func(t *T) {
					if t.cfg.Fast == "" && c > 9000 && !t.cfg.Thorough {
						return
					}
					d := t.Dir()
					k := t.GenKey(sub(d, "k"), nil, 0)
					m, e, o := sub(d, "m"), sub(d, "e"), sub(d, "o")
					sizes := []int64{c*refChunk - 1, c * refChunk, c*refChunk + 1, c*refChunk + refChunk/2, c*refChunk + 16}
					if c > 9000 {
						sizes = sizes[i%2*2:][:1]
						if c == 65536 {
							sizes[0] = c*refChunk + 3*refChunk + 7
						}
					}
					for j, n := range sizes {
						what := fmt.Sprintf("message of %d bytes (%d chunks)", n, chunksOf(n))
						if c < 600 && j%2 == 0 {
							t.Write(m, content(t.Rng, i+j, int(n)))
						} else {
							t.sparse(m, n, 20*(j%2))
						}
						if r := t.BigOp(opSpec{Op: "seal", A: []string{k.Pub, m, e}}); r.Exit != 0 {
							t.Failf("%s: encrypting failed: %v", what, r)
						}
						if r := t.BigOp(opSpec{Op: "open", A: []string{k.Sec, e, o}}); r.Exit != 0 {
							t.Failf("%s: decrypting failed: %v", what, r)
						}
						t.sameFiles(o, m, what)
						t.Obs("messages of thousands of chunks", 1)
						t.Obs("bytes compared", n)
						t.Eval("stream", n, j)
					}
				}})
			}
			pipes := []int64{1<<24 + 1, 1<<26 + 1, 130<<20 + 9}
			if cfg.Thorough {
				pipes = append(pipes, 1<<28+1, 1<<29+1, 1<<30+5)
			}
			for _, n := range pipes {
				n := n
				cs = append(cs, Case{Name: fmt.Sprintf("stream/pipe/%d", n), Ticks: 3000, Fn: func(t *T) {
					if t.cfg.Fast == "" && n > 1<<25 && !t.cfg.Thorough {
						return
					}
					d := t.Dir()
					k := t.GenKey(sub(d, "k"), nil, 0)
					m, p, e, o := sub(d, "m"), sub(d, "p"), sub(d, "e"), sub(d, "o")
					what := fmt.Sprintf("message of %d bytes through a pipe", n)
					t.sparse(m, n, 20)
					t.must(mkfifo(p), "mkfifo")
					in, err := os.Open(m)
					t.must(err, "open message")
					go func() {
						defer in.Close()
						if f, err := os.OpenFile(p, os.O_WRONLY, 0); err == nil {
							io.Copy(f, in)
							f.Close()
						}
					}()
					if r := t.BigOp(opSpec{Op: "seal", A: []string{k.Pub, p, e}}); r.Exit != 0 {
						t.Failf("%s: encrypting failed: %v", what, r)
					}
					if r := t.BigOp(opSpec{Op: "open", A: []string{k.Sec, e, o}}); r.Exit != 0 {
						t.Failf("%s: decrypting failed: %v", what, r)
					}
					t.sameFiles(o, m, what)
					t.Obs("big messages through pipes", 1)
					t.Obs("bytes compared", n)
					t.Eval("stream pipe", n)
				}})
			}
			cs = append(cs, Case{Name: "huge", Fn: func(t *T) {
				k := t.GenKey(sub(t.Dir(), "k"), nil, 0)
				for _, n := range []int64{refChunk << 16, refChunk<<16 + 1, 1<<31 - 1, 1 << 31, 1<<31 + 5, 1<<32 - 1, 1 << 32, 1<<32 + 5, 3<<32 + 77, refChunk * 524288} {
					t.probeHuge(t.cfg.CLI, k, n)
				}
			}})
			for i := 0; i < cfg.pick(24, 300); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("random/%d", i), Fn: func(t *T) {
					d := t.Dir()
					var pass []byte
					if i%2 == 0 {
						pass = randBytes(t.Rng, 1+t.Rng.Intn(40))
					}
					k := t.GenKey(sub(d, "k"), pass, 1+i%3)
					for j := 0; j < 12; j++ {
						n := t.Rng.Intn([]int{100, 5000, 40000, 150000}[t.Rng.Intn(4)])
						t.roundTrip(k, content(t.Rng, t.Rng.Intn(8), n), fmt.Sprintf("%d bytes", n), false, t.Rng.Intn(4) == 0, t.Rng.Intn(2) == 0, t.Rng.Intn(2) == 0)
					}
				}})
			}
			for i := 0; i < cfg.pick(8, 60); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("pipe/%d", i), Fn: func(t *T) {
					k := t.GenKey(sub(t.Dir(), "k"), nil, 0)
					for _, n := range []int{0, 1, 100, 4096, 16384, 16385, 16386, 65536, 65537, 3*refChunk + i} {
						t.roundTrip(k, content(t.Rng, i+n, n), fmt.Sprintf("%d bytes through a pipe", n), i%4 == 3 && n > 60000, true, false, n%2 == 0)
					}
				}})
			}
			for i := 0; i < cfg.pick(8, 60); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("cli/%d", i), Ticks: 600, Fn: func(t *T) {
					var pass []byte
					if i%2 == 1 {
						pass = []byte("typed passphrase " + fmt.Sprint(i))
					}
					k := t.GenKey(sub(t.Dir(), "k"), pass, 1)
					for j, n := range []int{0, 1, 53, 54, 55, 16384, 16385, 16386, 40000, t.Rng.Intn(100000)} {
						t.roundTrip(k, content(t.Rng, i+j, n), fmt.Sprintf("%d bytes by command", n), true, j%4 == 1, j%2 == 0, j%3 == 0)
					}
				}})
			}
			cs = append(cs, Case{Name: "odd-sources", Fn: func(t *T) {
				d := t.Dir()
				k := t.GenKey(sub(d, "k"), nil, 0)
				// a regular file whose size is reported as 0
				for _, src := range []string{"/proc/version", "/proc/filesystems"} {
					want, err := os.ReadFile(src)
					if err != nil {
						continue
					}
					if err := crypto.Seal(k.Pub, src, sub(d, "e")); err != nil {
						t.Failf("Seal of %s failed: %v", src, err)
					}
					t.NoPass()
					if err := crypto.Open(k.Sec, sub(d, "e"), sub(d, "o")); err != nil {
						t.Failf("Open of sealed %s failed: %v", src, err)
					}
					if got := t.Read(sub(d, "o")); !bytes.Equal(got, want) {
						t.Failf("sealed %s opens to something else (%s)", src, firstDiff(got, want))
					}
					t.Eval("odd", src)
				}
				// names
				for i, name := range []string{"a b", "-m", "ümläut", "x.enc", "a\tb", "very" + string(bytes.Repeat([]byte("l"), 240)), "sub/dir/file", "%s", "'quote'", "line\nbreak", "\xff\xfe", "trail "} {
					msg := content(t.Rng, i, 1000+i)
					m := sub(d, "n", name)
					t.must(os.MkdirAll(filepath.Dir(m), 0755), "mkdir")
					t.Write(m, msg)
					if err := crypto.Seal(k.Pub, m, ""); err != nil {
						t.Failf("Seal of file named %q failed: %v", name, err)
					}
					if err := crypto.Open(k.Sec, m+".enc", sub(d, "o")); err != nil {
						t.Failf("Open of %q failed: %v", name+".enc", err)
					}
					if got := t.Read(sub(d, "o")); !bytes.Equal(got, msg) {
						t.Failf("file named %q: wrong result", name)
					}
					// links and relative paths
					os.Remove(sub(d, "ln"))
					t.must(os.Symlink(m, sub(d, "ln")), "symlink")
					if err := crypto.Seal(k.Pub, sub(d, "ln"), sub(d, "e2")); err != nil {
						t.Failf("Seal through a symbolic link failed: %v", err)
					}
					if err := crypto.Open(k.Sec, sub(d, "e2"), sub(d, "o2")); err != nil {
						t.Failf("Open failed: %v", err)
					}
					if got := t.Read(sub(d, "o2")); !bytes.Equal(got, msg) {
						t.Failf("message read through a link: wrong result")
					}
					t.Obs("library round trips", 2)
					t.Eval("name", name)
				}
				// the default path of a message whose path leads through a link to another directory and up again
				for i, up := range []string{"up", "up/.", "up//"} {
					far := sub(d, "far", fmt.Sprint(i))
					t.must(os.MkdirAll(sub(far, "deep"), 0755), "mkdir")
					t.must(os.MkdirAll(sub(d, "near", fmt.Sprint(i)), 0755), "mkdir")
					t.must(os.Symlink(sub(far, "deep"), sub(d, "near", fmt.Sprint(i), "up")), "symlink")
					msg := content(t.Rng, i, 3000+i)
					t.Write(sub(far, "m"), msg)
					m := sub(d, "near", fmt.Sprint(i)) + "/" + up + "/../m"
					if err := crypto.Seal(k.Pub, m, ""); err != nil {
						t.Failf("Seal of %q failed: %v", m, err)
					}
					if !exists(sub(far, "m.enc")) {
						t.Failf("Seal of %q made no %q", m, m+".enc")
					}
					if err := crypto.Open(k.Sec, m+".enc", m+".out"); err != nil {
						t.Failf("Open of %q failed: %v", m+".enc", err)
					}
					if got, err := os.ReadFile(sub(far, "m.out")); err != nil || !bytes.Equal(got, msg) {
						t.Failf("message %q: wrong result (%v)", m, err)
					}
					t.Obs("library round trips", 1)
					t.Eval("default path through a link", i)
				}
				// the command's default path for a message elsewhere
				for i, m := range []string{"w/x/m", "./w/x/m2", "w/../w/x/m3", sub(d, "w/x/abs"), "w/x/a.enc", "w/x/n.sig", "w/x/100%d", "w/x/p q"} {
					t.must(os.MkdirAll(sub(d, "w/x"), 0755), "mkdir")
					msg := content(t.Rng, i, 2000+i)
					p := m
					if !filepath.IsAbs(m) {
						p = filepath.Join(d, m)
					}
					t.Write(p, msg)
					if r := t.CLI(cliOpts{Dir: d, Umask: 022}, "-E", "-p", k.Pub, "-m", m); r.Exit != 0 || !r.OKLine() {
						t.Failf("encrypting %q by command failed: %v", m, r)
					}
					if !exists(p + ".enc") {
						t.Failf("encrypting %q by command made no %q", m, m+".enc")
					}
					if r := t.CLI(cliOpts{Dir: d, Umask: 022}, "-D", "-s", k.Sec, "-c", m+".enc", "-m", m+".out"); r.Exit != 0 || !r.OKLine() {
						t.Failf("decrypting %q by command failed: %v", m+".enc", r)
					}
					if got := t.Read(p + ".out"); !bytes.Equal(got, msg) {
						t.Failf("message %q: wrong result (%s)", m, firstDiff(got, msg))
					}
					t.Obs("cli round trips", 1)
					t.Eval("default path", m)
				}
				// foreign and fixture keys
				fx := t.fixture(d)
				for i := 0; i < 6; i++ {
					t.roundTrip(fx, content(t.Rng, i, 3000*i), "OpenBSD key pair", false, false, false, false)
				}
			}})
			return cs
		},
	})
}
