package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"strings"
	"syscall"
)

// usage is what a process of its own took.
type usage struct {
	CPU    float64 // seconds
	MaxRSS int64   // bytes
}

// rusageMain runs a command line and records what it used. It is small, so
// that the new process does not start with the size of a big one.
func rusageMain(args []string) {
	cmd := exec.Command(args[1], args[2:]...)
	cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr
	cmd.Run()
	if cmd.ProcessState == nil {
		os.Exit(9)
	}
	ru := cmd.ProcessState.SysUsage().(*syscall.Rusage)
	tv := func(t syscall.Timeval) float64 { return float64(t.Sec) + float64(t.Usec)/1e6 }
	js, _ := json.Marshal(usage{tv(ru.Utime) + tv(ru.Stime), int64(ru.Maxrss) << 10})
	os.WriteFile(args[0], js, 0644)
	if c := cmd.ProcessState.ExitCode(); c >= 0 {
		os.Exit(c)
	}
	os.Exit(99) // a signal
}

// measured runs an operation, by the command or the library, at most for the
// given processor time, or (below 0) in limited address space.
func (t *T) measured(byCommand bool, limit float64, sp opSpec) (usage, cliResult) {
	self, err := os.Executable()
	t.must(err, "executable")
	f := sub(t.dir, "usage")
	os.Remove(f)
	o := cliOpts{Umask: 022, Ticks: 600, Wrap: []string{self, "rusage", f}}
	if limit < 0 { // no address space for what is not there
		o.Pre = "ulimit -v 6000000"
		// A collector that competes with the program for processors lets the
		// heap grow at random on a busy machine.
		o.Env = []string{"GODEBUG=gcstoptheworld=2"}
	} else if limit > 0 {
		o.Pre = fmt.Sprintf("ulimit -t %d", int(math.Ceil(limit))+1)
	}
	var r cliResult
	if byCommand {
		a := map[string][]string{"seal": {"-E", "-p", "", "-m", "", "-c", ""}, "open": {"-D", "-s", "", "-c", "", "-m", ""}, "sign": {"-S", "-s", "", "-m", "", "-x", ""}, "verify": {"-V", "-p", "", "-m", "", "-x", ""}}[sp.Op]
		a = append([]string(nil), a...)
		for i := range sp.A {
			a[2+2*i] = sp.A[i]
		}
		r = t.CLI(o, a...)
	} else {
		r = t.Op(o, sp)
	}
	var u usage
	b, err := os.ReadFile(f)
	if err != nil {
		t.Inconclusivef("no measurement of %v: %v", sp, r)
	}
	t.must(json.Unmarshal(b, &u), "measurement")
	if strings.Contains(r.Stderr, "goroutine ") {
		t.Failf("%v crashes: %v", sp, r)
	}
	t.Obs("processes measured", 1)
	return u, r
}

// job24 prepares an operation on input of size n in directory d and tells
// whether it is to succeed.
type job24 func(t *T, d string, n int) (opSpec, bool)

func sealed24(t *T, k *KeyPair, msg []byte) []byte {
	pl, err := refSeal(refBoxPub(k.PubRec.Key), randBytes(t.Rng, 32), msg)
	t.must(err, "refSeal")
	return pl
}

// openJob decrypts a message of n bytes whose encrypted file is shaped by f.
func openJob(good bool, f func(t *T, k *KeyPair, n int) []byte) job24 {
	return func(t *T, d string, n int) (opSpec, bool) {
		k := t.RefKey(sub(d, "k"), nil, 0)
		t.Write(sub(d, "c"), f(t, k, n))
		return opSpec{Op: "open", A: []string{k.Sec, sub(d, "c"), sub(d, "m")}}, good
	}
}

const encComment = "untrusted comment: x"

// perLine breaks the payload's text after every so many characters.
func perLine(payload []byte, c int, eol string) []byte {
	s := b64s(payload)
	b := make([]byte, 0, len(s)+len(s)/c*len(eol)+100)
	b = append(b, encComment+"\n"...)
	for len(s) > c {
		b = append(append(b, s[:c]...), eol...)
		s = s[c:]
	}
	return append(append(b, s...), eol...)
}

// sigJob signs or verifies a message of n bytes.
func sigJob(op string, good bool) job24 {
	return func(t *T, d string, n int) (opSpec, bool) {
		k := t.RefKey(sub(d, "k"), nil, 0)
		msg := content(t.Rng, 0, n)
		t.Write(sub(d, "m"), msg)
		if op == "sign" {
			return opSpec{Op: op, A: []string{k.Sec, sub(d, "m"), sub(d, "s")}}, true
		}
		if !good {
			msg[n-1] ^= 1
		}
		t.Write(sub(d, "s"), dataFile("s", refSign(k, k.Clear, msg)))
		return opSpec{Op: op, A: []string{k.Pub, sub(d, "m"), sub(d, "s")}}, good
	}
}

// recordJob gives one of the record files of an operation n bytes of ballast.
func recordJob(op, which string, good bool, f func(rec []byte, n int) []byte) job24 {
	return func(t *T, d string, n int) (opSpec, bool) {
		k := t.RefKey(sub(d, "k"), nil, 0)
		msg := content(t.Rng, 0, 100)
		t.Write(sub(d, "m"), msg)
		sig := refSign(k, k.Clear, msg)
		t.Write(sub(d, "s"), dataFile("s", sig))
		t.Write(sub(d, "c"), encFile(encComment, sealed24(t, k, msg), "\n"))
		switch which {
		case "sec":
			t.Write(k.Sec, f(k.Rec.encode(), n))
		case "pub":
			t.Write(k.Pub, f(k.PubRec.encode(), n))
		case "sig":
			t.Write(sub(d, "s"), f(sig, n))
		}
		switch op {
		case "seal":
			return opSpec{Op: op, A: []string{k.Pub, sub(d, "m"), sub(d, "out")}}, good
		case "open":
			return opSpec{Op: op, A: []string{k.Sec, sub(d, "c"), sub(d, "out")}}, good
		case "sign":
			return opSpec{Op: op, A: []string{k.Sec, sub(d, "m"), sub(d, "out")}}, good
		}
		return opSpec{Op: op, A: []string{k.Pub, sub(d, "m"), sub(d, "s")}}, good
	}
}

func codingJob(op, mode string, c int) job24 {
	return func(t *T, d string, n int) (opSpec, bool) {
		b := content(t.Rng, 0, n)
		if op == "decode" {
			b = perLine(b, c, "\n")[len(encComment)+1:]
		}
		t.Write(sub(d, "f"), b)
		return opSpec{Op: op, A: []string{sub(d, "f"), mode}}, true
	}
}

var jobs24 = []struct {
	name string
	n    int // the smaller size, in KiB
	cmd  bool
	job  job24
}{
	{"seal", 256, true, sealJob},
	{"open/usual", 2048, true, openJob(true, func(t *T, k *KeyPair, n int) []byte {
		return encFile(encComment, sealed24(t, k, content(t.Rng, 0, n)), "\n")
	})},
	{"open/crlf", 1024, false, openJob(true, func(t *T, k *KeyPair, n int) []byte {
		return encFile(encComment, sealed24(t, k, content(t.Rng, 1, n)), "\r\n")
	})},
	{"open/one line", 1024, false, openJob(true, func(t *T, k *KeyPair, n int) []byte {
		return perLine(sealed24(t, k, content(t.Rng, 0, n)), 1<<30, "\n")
	})},
	{"open/one character per line", 512, false, openJob(true, func(t *T, k *KeyPair, n int) []byte {
		return perLine(sealed24(t, k, content(t.Rng, 0, n)), 1, "\n")
	})},
	{"open/three characters per line", 512, false, openJob(true, func(t *T, k *KeyPair, n int) []byte {
		return perLine(sealed24(t, k, content(t.Rng, 0, n)), 3, "\r\n")
	})},
	{"open/empty lines", 4096, false, openJob(true, func(t *T, k *KeyPair, n int) []byte {
		return perLine(sealed24(t, k, content(t.Rng, 0, n/8)), 72, "\n\n\n\n\n\n\n\n\n\n\n\n")
	})},
	{"open/many empty lines first", 4096, false, openJob(true, func(t *T, k *KeyPair, n int) []byte {
		b := perLine(sealed24(t, k, content(t.Rng, 0, 100)), 72, "\n")
		return append([]byte(encComment+strings.Repeat("\n", n)), b[len(encComment):]...)
	})},
	{"open/many empty lines last", 4096, false, openJob(true, func(t *T, k *KeyPair, n int) []byte {
		return append(perLine(sealed24(t, k, content(t.Rng, 0, 100)), 72, "\n"), strings.Repeat("\n", n)...)
	})},
	{"open/one big gap", 4096, false, openJob(true, func(t *T, k *KeyPair, n int) []byte {
		b := perLine(sealed24(t, k, content(t.Rng, 0, 50)), 1<<30, "\n")
		return append(append(append([]byte(nil), b[:77]...), strings.Repeat("\r\n", n/2)...), b[77:]...)
	})},
	{"open/long comment", 192, true, openJob(true, func(t *T, k *KeyPair, n int) []byte {
		return encFile(encComment+strings.Repeat("y", n), sealed24(t, k, content(t.Rng, 0, 100)), "\n")
	})},
	{"open/only a comment", 192, false, openJob(false, func(t *T, k *KeyPair, n int) []byte {
		return []byte(encComment + strings.Repeat("y", n))
	})},
	{"open/last box damaged", 2048, false, openJob(false, func(t *T, k *KeyPair, n int) []byte {
		pl := sealed24(t, k, content(t.Rng, 0, n))
		pl[len(pl)-1] ^= 1
		return encFile(encComment, pl, "\n")
	})},
	{"open/last box missing", 2048, false, openJob(false, func(t *T, k *KeyPair, n int) []byte {
		n = n / refChunk * refChunk
		pl := sealed24(t, k, content(t.Rng, 0, n))
		return encFile(encComment, pl[:len(pl)-refBox], "\n")
	})},
	{"open/foreign", 2048, false, openJob(false, func(t *T, k *KeyPair, n int) []byte {
		return encFile(encComment, sealed24(t, t.RefKey(sub(t.dir, "foreign"), nil, 0), content(t.Rng, 0, n)), "\n")
	})},
	{"open/no base64", 2048, false, openJob(false, func(t *T, k *KeyPair, n int) []byte {
		return append([]byte(encComment+"\n"), bytes.Repeat([]byte("????"), n/4)...)
	})},
	{"sign", 8192, true, sigJob("sign", true)},
	{"verify", 8192, true, sigJob("verify", true)},
	{"verify/other message", 8192, false, sigJob("verify", false)},
	{"encode/at once", 1024, false, codingJob("encode", "at once", 0)},
	{"encode/bytes", 1024, false, codingJob("encode", "bytes", 0)},
	{"decode/at once", 1024, false, codingJob("decode", "at once", 72)},
	{"decode/bytes", 1024, false, codingJob("decode", "bytes", 72)},
	{"decode/slow source", 1024, false, codingJob("decode", "slow source", 72)},
	{"decode/one line", 1024, false, codingJob("decode", "at once", 1<<30)},
	{"decode/one character per line", 512, false, codingJob("decode", "bytes", 1)},
}

// ballast puts n bytes into a record file.
var ballast = []struct {
	name string
	good bool
	f    func(rec []byte, n int) []byte
}{
	{"short comments", true, func(rec []byte, n int) []byte {
		return append([]byte(strings.Repeat(commentLead+"x\n", n/21)), dataFile("y", rec)...)
	}},
	{"empty comments", true, func(rec []byte, n int) []byte {
		return append([]byte(strings.Repeat(commentLead+"\n", n/20)), dataFile("y", rec)...)
	}},
	{"long comments", true, func(rec []byte, n int) []byte {
		return append([]byte(strings.Repeat(commentLead+strings.Repeat("z", 8000)+"\n", n/8000)), dataFile("y", rec)...)
	}},
	{"lines after it", true, func(rec []byte, n int) []byte {
		return append(dataFile("y", rec), strings.Repeat("more\n", n/5)...)
	}},
	{"one line after it", true, func(rec []byte, n int) []byte {
		return append(dataFile("y", rec), strings.Repeat("m", n)...)
	}},
	{"one comment", true, func(rec []byte, n int) []byte { return dataFile(strings.Repeat("z", n), rec) }},
	{"a long record", false, func(rec []byte, n int) []byte { return dataFile("z", bytes.Repeat(rec, n/len(rec))) }},
	{"empty lines first", false, func(rec []byte, n int) []byte {
		return append([]byte(strings.Repeat("\n", n)), dataFile("y", rec)...)
	}},
}

func sealJob(t *T, d string, n int) (opSpec, bool) {
	k := t.RefKey(sub(d, "k"), nil, 0)
	t.Write(sub(d, "m"), content(t.Rng, 0, n))
	return opSpec{Op: "seal", A: []string{k.Pub, sub(d, "m"), sub(d, "c")}}, true
}

const growth = 16

// linear compares the processor time for n and 16n bytes.
func linear(t *T, name string, byCommand bool, n int, j job24) (bad string) {
	for try := 0; try < 3; try++ {
		d := t.Dir()
		sp, good := j(t, d, n)
		limit := 0.5
		if n < 16<<10 {
			limit = 0
		}
		u1, r := t.measured(byCommand, limit, sp)
		if limit > 0 && u1.CPU > limit { // too slow to grow: compare smaller ones
			t.dropDirs()
			n /= 4
			try--
			continue
		}
		if (r.Exit == 0) != good {
			t.Failf("%s of %d bytes, by command %v: success is to be %v: %v", name, n, byCommand, good, r)
		}
		d = t.Dir()
		sp, good = j(t, d, growth*n)
		bound := 4 * growth * math.Max(u1.CPU, 0.05)
		u2, r := t.measured(byCommand, bound, sp)
		t.dropDirs()
		t.Sample("%s: %.3f s for %d bytes, %.3f s for %d", name, u1.CPU, n, u2.CPU, growth*n)
		if u2.CPU <= bound {
			if (r.Exit == 0) != good {
				t.Failf("%s of %d bytes, by command %v: success is to be %v: %v", name, growth*n, byCommand, good, r)
			}
			t.Obs("growth rates compared", 1)
			return ""
		}
		bad = fmt.Sprintf("%s, by command %v: %d bytes take %.3f s of processor time, but %d bytes (%d times as many) take %.3f s or more", name, byCommand, n, u1.CPU, growth*n, growth, u2.CPU)
	}
	return bad
}

// peaks compares the peak memory for two sizes.
func peaks(t *T, name string, byCommand bool, n, m int, j job24, bound func(small, size int64) int64) (bad string) {
	for try := 0; try < 3; try++ {
		sp, good := j(t, t.Dir(), n)
		u1, r := t.measured(byCommand, -1, sp)
		if (r.Exit == 0) != good {
			t.Failf("%s of %d bytes, by command %v: success is to be %v: %v", name, n, byCommand, good, r)
		}
		sp, good = j(t, t.Dir(), m)
		u2, r := t.measured(byCommand, -1, sp)
		t.dropDirs()
		if (r.Exit == 0) != good {
			t.Failf("%s of %d bytes, by command %v: success is to be %v: %v", name, m, byCommand, good, r)
		}
		t.Sample("%s: %d KiB for %d bytes, %d KiB for %d", name, u1.MaxRSS>>10, n, u2.MaxRSS>>10, m)
		if u2.MaxRSS <= bound(u1.MaxRSS, int64(m)) {
			t.Obs("peaks of memory compared", 1)
			return ""
		}
		bad = fmt.Sprintf("%s, by command %v: %d bytes need %d KiB of memory, but %d bytes need %d KiB", name, byCommand, n, u1.MaxRSS>>10, m, u2.MaxRSS>>10)
	}
	return bad
}

func init() {
	register(&Prop{
		ID: "C24",
		Rule: "one evaluation = one operation in processes of their own on two inputs of the same kind and different size (16 times as big for time), whose processor time or peak resident memory is compared; " +
			"distinct by (operation, kind of input, library or command)",
		Min:         map[string]int64{"processes measured": 100, "growth rates compared": 50, "peaks of memory compared": 14},
		Assumptions: []string{"peak memory is that of the resident set; 24 MiB of growth are allowed to a streaming operation", "processor time may grow four times faster than the input before it counts, over a 16-fold growth; times below 0.05 s count as 0.05 s"},
		Cases: func(cfg *Config) []Case {
			var cs []Case
			stream := func(small, size int64) int64 { return small + 24<<20 }
			multiple := func(small, size int64) int64 { return small + 32<<20 + 8*size }
			mem := func(name string, byCommand bool, m int, j job24, bound func(small, size int64) int64) {
				cs = append(cs, Case{Name: fmt.Sprintf("memory/%s/%v", name, byCommand), Ticks: 800, Fn: func(t *T) {
					if bad := peaks(t, name, byCommand, 1<<20, m<<20, j, bound); bad != "" {
						t.Failf("%s", bad)
					}
					t.Eval("memory", name, byCommand)
				}})
			}
			// the same for sizes in which the chunks go in or do not
			for i, r := range []int{0, 1, refChunk - 1, refChunk / 2, 54 * 3} {
				r := r
				mem(fmt.Sprintf("seal/chunks and %d", r), i%2 == 0, cfg.pick(32, 100), func(t *T, d string, n int) (opSpec, bool) {
					return sealJob(t, d, n/refChunk*refChunk+r)
				}, stream)
				mem(fmt.Sprintf("open/chunks and %d", r), i%2 == 1, cfg.pick(32, 100), openJob(true, func(t *T, k *KeyPair, n int) []byte {
					return encFile(encComment, sealed24(t, k, content(t.Rng, 0, n/refChunk*refChunk+r)), "\n")
				}), stream)
			}
			for _, c := range []bool{true, false} {
				mem("seal", c, cfg.pick(32, 300), sealJob, stream)
				mem("sign", c, cfg.pick(64, 500), sigJob("sign", true), multiple)
				mem("verify", c, cfg.pick(64, 500), sigJob("verify", true), multiple)
			}
			for _, j := range jobs24 {
				if strings.HasPrefix(j.name, "open/") && !strings.Contains(j.name, "comment") {
					mem(j.name, j.cmd, cfg.pick(32, 200), j.job, stream)
				} else if j := j; strings.HasPrefix(j.name, "open/") { // comments may be read slowly
					mem(j.name, j.cmd, cfg.pick(32, 200), func(t *T, d string, n int) (opSpec, bool) { return j.job(t, d, n>>4) }, stream)
				}
			}
			// a header that promises more than there is costs nothing
			for _, c := range []uint64{1 << 16, 1 << 24, 1 << 32, 1 << 40, 1 << 56, 1<<63 - 1, 1 << 63, 1<<64 - 1} {
				c := c
				mem(fmt.Sprintf("open/%d boxes promised", c), true, 2, openJob(false, func(t *T, k *KeyPair, n int) []byte {
					msg := content(t.Rng, 0, 3*refChunk)
					h, key, err := refHeaderFor(refBoxPub(k.PubRec.Key), randBytes(t.Rng, 32), map[bool]uint64{true: 4, false: c}[n == 1<<20])
					t.must(err, "header")
					for i := uint64(0); i < 3; i++ {
						h = append(h, boxSeal(key, msg[i*refChunk:(i+1)*refChunk], i)...)
					}
					return encFile(encComment, h, "\n")
				}), stream)
			}
			time := func(name string, byCommand bool, n int, j job24) {
				cs = append(cs, Case{Name: fmt.Sprintf("time/%s/%v", name, byCommand), Ticks: 800, Fn: func(t *T) {
					if bad := linear(t, name, byCommand, n, j); bad != "" {
						t.Failf("%s", bad)
					}
					t.Eval("time", name, byCommand)
				}})
			}
			for _, j := range jobs24 {
				n := j.n << 10
				if cfg.Thorough {
					n *= 4
				}
				time(j.name, false, n, j.job)
				if j.cmd {
					time(j.name, true, n, j.job)
				}
			}
			for i, b := range ballast {
				for l, o := range [][2]string{{"sign", "sec"}, {"open", "sec"}, {"seal", "pub"}, {"verify", "pub"}, {"verify", "sig"}} {
					time(fmt.Sprintf("%s/%s with %s", o[0], o[1], b.name), (i+l)%3 == 0, cfg.pick(512, 2048)<<10, recordJob(o[0], o[1], b.good, b.f))
				}
			}
			cs = append(cs, Case{Name: "self-test", Ticks: 300, Fn: func(t *T) {
				// the measurements notice what they are meant to notice
				hog := func(mode string) job24 {
					return func(t *T, d string, n int) (opSpec, bool) {
						t.Write(sub(d, "f"), content(t.Rng, 0, n))
						return opSpec{Op: "hog", A: []string{sub(d, "f"), mode}}, true
					}
				}
				if peaks(t, "hog", false, 1<<20, 40<<20, hog("memory"), stream) == "" {
					t.Inconclusivef("reading a whole file goes unnoticed")
				}
				if linear(t, "hog", false, 16<<10, hog("quadratic")) == "" {
					t.Inconclusivef("quadratic work goes unnoticed")
				}
				if bad := peaks(t, "hog", false, 1<<20, 8<<20, hog("memory"), multiple); bad != "" {
					t.Inconclusivef("the memory measured is too much: %s", bad)
				}
				t.Eval("self-test")
			}})
			return cs
		},
	})
}

func b64s(b []byte) string { return base64.StdEncoding.EncodeToString(b) }
