package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"

	"golang.org/x/crypto/nacl/secretbox"
)

func (c *Config) bin32(name string) string { return filepath.Join(filepath.Dir(c.CLI), "32", name) }

var ranCases = regexp.MustCompile(`(?m)^C\d\d \w+ seed=-?\d+: (\d+)/\d+ cases, (\d+) evaluations, (\d+) distinct`)

// monitor32 lets the 32-bit harness run a part of another property's monitor.
func (t *T) monitor32(prop string, every int, must, skip string) {
	self := t.cfg.bin32("harness")
	fast := t.cfg.bin32("harness-fast")
	if !exists(fast) {
		fast = ""
		if skip != "" {
			skip += ","
		}
		skip += "stream/,far/,big/"
	}
	d := t.Dir()
	os.Chmod(d, 0755)
	cmd := exec.Command(self, "run", "-prop", prop, "-tier", t.cfg.Tier, "-seed", fmt.Sprint(t.cfg.Seed), "-cli", t.cfg.bin32("psignify"), "-fast", fast, "-scratch", d,
		"-workers", "2", "-every", fmt.Sprint(every), "-must", must, "-skip", skip, "-replaydir", sub(d, "replays"))
	cmd.Dir = d
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	out, err := cmd.CombinedOutput()
	text := string(out)
	if err != nil && cmd.ProcessState == nil {
		t.Inconclusivef("the 32-bit harness does not start: %v", err)
	}
	if strings.Contains(text, "VIOLATION property="+prop) {
		t.Failf("on a 32-bit platform:\n%s", strings.ReplaceAll(text, "VIOLATION property=", "violation of "))
	}
	m := ranCases.FindStringSubmatch(text)
	if cmd.ProcessState.ExitCode() != 0 || m == nil {
		t.Inconclusivef("the monitor of %s: %v\n%s", prop, err, text)
	}
	n := func(i int) int64 { v, _ := strconv.ParseInt(m[i], 10, 64); return v }
	t.Obs("cases of other monitors", n(1))
	t.Obs("evaluations of other monitors", n(2))
	t.Eval("monitor", prop)
	t.Sample("%s on a 32-bit platform: %s", prop, m[0])
}

// either runs an operation in a process of the 64-bit or of the 32-bit kind.
func (t *T) either(bits32 bool, sp opSpec) cliResult {
	o := cliOpts{Umask: 022}
	if bits32 {
		t.Obs("32-bit operations", 1)
		return t.runOp(t.cfg.bin32("harness"), o, sp)
	}
	return t.Op(o, sp)
}

func init() {
	type part struct {
		prop       string
		every      int
		must, skip string
		slow       int // with every in the thorough tier
	}
	parts := []part{
		{"C01", 4, "", "sparse,large", 2}, {"C02", 4, "", "large,far", 2}, {"C03", 2, "", "", 1}, {"C04", 3, "", "", 1}, {"C05", 2, "rounds", "", 1}, {"C06", 4, "", "", 1},
		{"C07", 6, "huge", "", 2}, {"C08", 3, "", "far", 1}, {"C09", 3, "", "", 1}, {"C10", 3, "huge", "", 1}, {"C11", 1, "", "", 1}, {"C12", 4, "", "", 1}, {"C13", 4, "", "", 1},
		{"C14", 2, "rounds", "", 1}, {"C16", 4, "", "", 2}, {"C17", 3, "", "", 1}, {"C18", 4, "", "", 1}, {"C19", 6, "", "", 2}, {"C20", 2, "", "", 1}, {"C22", 4, "", "", 2}, {"C23", 3, "", "", 1}, {"C25", 3, "", "", 1}, {"C26", 3, "", "", 1},
	}
	register(&Prop{
		ID:          "C27",
		Rule:        "one evaluation = one monitor of another property run (in part) against a 32-bit build, one file exchanged between a 32-bit and a 64-bit process, or one size or count beyond 32 bits given to one of them; distinct by what was run and its inputs",
		Min:         map[string]int64{"cases of other monitors": 300, "evaluations of other monitors": 20000, "32-bit operations": 60, "outcomes equal on both": 200, "beginnings of huge messages checked": 10, "huge counts refused": 10},
		Assumptions: []string{"32-bit means GOARCH=386, run by the kernel of this machine; the Go compiler and run-time library for it are trusted"},
		Cases: func(cfg *Config) []Case {
			var cs []Case
			for _, p := range parts {
				p := p
				every := p.every
				if cfg.Thorough {
					every = p.slow
				}
				cs = append(cs, Case{Name: "monitor/" + p.prop, Ticks: cfg.pick(700, 5000), Fn: func(t *T) { t.monitor32(p.prop, every, p.must, p.skip) }})
			}
			for i := 0; i < cfg.pick(16, 120); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("exchange/%d", i), Fn: func(t *T) {
					d := t.Dir()
					r := t.Rng
					var pass []byte
					rounds := 0
					if i%3 == 1 {
						pass, rounds = randBytes(r, 1+r.Intn(80)), 1+r.Intn(4)
					}
					hx := hex.EncodeToString(pass)
					g := i%2 == 0
					what := fmt.Sprintf("key pair generated by a %d-bit process", map[bool]int{true: 32, false: 64}[g])
					if res := t.either(g, opSpec{Op: "gen", A: []string{sub(d, "k")}, Pass: hx, Rounds: rounds}); res.Exit != 0 {
						t.Failf("%s: %v", what, res)
					}
					k := t.pairOK(sub(d, "k"), pass, rounds)
					for _, n := range []int{0, 1, 31, refChunk - 1, refChunk, refChunk + 1, 3 * refChunk, r.Intn(100000)} {
						msg := content(r, i, n)
						m := t.Write(sub(d, "m"), msg)
						var sigs, encs [][]byte
						for _, b := range []bool{true, false} {
							s := sub(d, fmt.Sprint("s", b))
							if res := t.either(b, opSpec{Op: "sign", A: []string{k.Sec, m, s}, Pass: hx}); res.Exit != 0 {
								t.Failf("%s, %d bytes: signing failed: %v", what, n, res)
							}
							t.checkSigFile(k, k.Sec, t.Read(s), msg, what)
							sigs = append(sigs, t.Read(s))
							e := sub(d, fmt.Sprint("e", b))
							if res := t.either(b, opSpec{Op: "seal", A: []string{k.Pub, m, e}}); res.Exit != 0 {
								t.Failf("%s, %d bytes: encrypting failed: %v", what, n, res)
							}
							encs = append(encs, t.Read(e))
							_, pl, err := strictEncFile(t.Read(e))
							if err == nil {
								var got []byte
								got, err = refOpen(refBoxPriv(k.Clear), pl)
								if err == nil && !bytes.Equal(got, msg) {
									err = fmt.Errorf("another message")
								}
							}
							if err != nil {
								t.Failf("%s, %d bytes: encrypted file: %v", what, n, err)
							}
							if res := t.either(!b, opSpec{Op: "verify", A: []string{k.Pub, m, s}}); res.Exit != 0 {
								t.Failf("%s, %d bytes: signature of the other kind refused: %v", what, n, res)
							}
							out := sub(d, "o")
							if res := t.either(!b, opSpec{Op: "open", A: []string{k.Sec, e, out}, Pass: hx}); res.Exit != 0 || !bytes.Equal(t.Read(out), msg) {
								t.Failf("%s, %d bytes: encrypted file of the other kind not decrypted: %v", what, n, res)
							}
							t.Obs("outcomes equal on both", 4)
						}
						if !bytes.Equal(sigs[0], sigs[1]) {
							t.Failf("%s, %d bytes: the signatures differ", what, n)
						}
						if len(encs[0]) != len(encs[1]) {
							t.Failf("%s, %d bytes: the encrypted files differ in length", what, n)
						}
						t.Eval("exchange", k.Rec.encode(), n)
						// and damage
						for j := 0; j < 3; j++ {
							x := mangle(r, [][]byte{sigs[0], encs[0], t.Read(k.Pub), t.Read(k.Sec)}[(i+j)%4])
							p := t.Write(sub(d, "x"), x)
							sp := []opSpec{{Op: "verify", A: []string{k.Pub, m, p}}, {Op: "open", A: []string{k.Sec, p, sub(d, "o")}, Pass: hx}, {Op: "seal", A: []string{p, m, sub(d, "o")}}, {Op: "sign", A: []string{p, m, sub(d, "o")}, Pass: hx}}[(i+j)%4]
							if (i+j)%4 == 3 && maxRounds(x) > 32 {
								continue
							}
							var outs [2]string
							for q, b := range []bool{true, false} {
								os.Remove(sub(d, "o"))
								res := t.either(b, sp)
								o, _ := os.ReadFile(sub(d, "o"))
								if sp.Op == "seal" {
									o = []byte(fmt.Sprint(len(o)))
								}
								outs[q] = fmt.Sprintf("exit %d, output %x", res.Exit, o)
							}
							if outs[0] != outs[1] {
								t.Attach("file", x)
								t.Failf("%s of a damaged file: %.200s on 32 bits, %.200s on 64 bits", sp.Op, outs[0], outs[1])
							}
							t.Obs("outcomes equal on both", 1)
							t.Eval("damage", sp.Op, x)
						}
					}
				}})
			}
			// numbers of chunks that do not fit into 32 or 31 bits
			cs = append(cs, Case{Name: "counts", Fn: func(t *T) {
				d := t.Dir()
				k := t.RefKey(sub(d, "k"), nil, 0)
				for _, n := range []int{0, 1, 5000, refChunk, refChunk + 5, 2 * refChunk} {
					msg := content(t.Rng, 1, n)
					for _, hi := range []uint64{1, 2, 1 << 31, 1<<32 - 1, 1 << 16} {
						for _, add := range []int64{0, 1, -1} {
							eph := randBytes(t.Rng, 32)
							count := chunksOf(int64(n)) + hi<<32 + uint64(add)
							h, key, err := refHeaderFor(refBoxPub(k.PubRec.Key), eph, count)
							t.must(err, "header")
							for i := 0; i*refChunk < n; i++ {
								e := (i + 1) * refChunk
								if e > n {
									e = n
								}
								h = append(h, secretbox.Seal(nil, msg[i*refChunk:e], refNonce(uint64(i)), &key)...)
							}
							p := t.Write(sub(d, "e"), encFile("c", h, "\n"))
							for _, b := range []bool{true, false} {
								out := sub(d, "o")
								os.Remove(out)
								res := t.either(b, opSpec{Op: "open", A: []string{k.Sec, p, out}})
								o, _ := os.ReadFile(out)
								if res.Exit == 0 {
									t.Failf("a file of %d bytes that announces %d chunks is decrypted to %d bytes, 32 bits: %v", n, binary.BigEndian.Uint64(h), len(o), b)
								}
								if !isPrefix(o, msg) {
									t.Failf("a file that announces %d chunks yields something else than a prefix of the message", count)
								}
								t.Obs("huge counts refused", 1)
							}
							t.Eval("count", n, count)
						}
					}
				}
			}})
			var sizes []int64
			for _, s := range []int64{1<<31 - 1, 1 << 31, 1<<31 + 1, 3 << 30, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 100, 1<<32 + refChunk, 5 << 30, 1<<33 + 77, 1<<34 - 3, refChunk << 17, 1 << 40} {
				sizes = append(sizes, s)
			}
			for _, n := range sizes {
				n := n
				cs = append(cs, Case{Name: fmt.Sprintf("huge/%d", n), Fn: func(t *T) {
					k := t.RefKey(sub(t.Dir(), "k"), nil, 0)
					t.probeHuge(t.cfg.bin32("psignify"), k, n)
				}})
			}
			return cs
		},
	})
}
