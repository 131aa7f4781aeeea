package main

import (
	"bytes"
	"crypto/rand"
	"encoding/hex"
	"fmt"
	"io"
	mrand "math/rand"
	"os"
	"sync"

	"github.com/kisom/psignify/crypto"
)

// streams examines one sealed file whose message is known and logs what the
// offline checker needs: ephemeral key, header tag, box tags, keystreams.
func (t *T) streams(file string, msg []byte) {
	text := t.Read(file)
	_, pl, err := strictEncFile(text)
	if err != nil {
		t.Failf("sealed file is malformed: %v", err)
	}
	if len(pl) < refHeader {
		t.Failf("sealed file has no header")
	}
	t.Log("epub", pl[8:40])
	t.Log("headertag", pl[40:72])
	rest := pl[72:]
	seen := map[string]int{}
	for i := 0; len(msg) > 0; i++ {
		n := refChunk
		if n > len(msg) {
			n = len(msg)
		}
		if len(rest) < n+16 {
			t.Failf("sealed file is too short for its message")
		}
		tag, ct := rest[:16], rest[16:16+n]
		t.Log("boxtag", tag)
		ks := make([]byte, n)
		for j := range ks {
			ks[j] = ct[j] ^ msg[j]
		}
		if n >= 16 {
			t.Log("keystream", ks[:16])
		}
		for j := 0; j+16 <= n; j += 16 {
			w := string(ks[j : j+16])
			if o, dup := seen[w]; dup {
				t.Failf("the same 16 bytes of keystream are used at offset %d and at offset %d of one file", o, i*refChunk+j)
			}
			seen[w] = i*refChunk + j
		}
		t.Obs("keystream blocks compared", int64(n/16))
		msg, rest = msg[n:], rest[16+n:]
	}
	t.Obs("files examined", 1)
}

// noPlaintext demands that no 8-byte piece of msg appears in the file.
func (t *T) noPlaintext(file string, msg []byte) {
	text := t.Read(file)
	comment, pl, err := strictEncFile(text)
	if err != nil || len(pl) < 8 {
		t.Failf("sealed file is malformed: %v", err)
	}
	win := map[string]bool{}
	for i := 0; i+8 <= len(msg); i++ {
		win[string(msg[i:i+8])] = true
	}
	for _, hay := range [][]byte{pl[8:], text, []byte(comment)} {
		for i := 0; i+8 <= len(hay); i++ {
			if win[string(hay[i:i+8])] {
				t.Failf("the encrypted file contains %q from the message", hay[i:i+8])
			}
		}
	}
	t.Obs("plaintext scans", 1)
}

type teeReader struct {
	mu sync.Mutex
	r  io.Reader
	n  int
}

func (r *teeReader) Read(p []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	n, err := r.r.Read(p)
	r.n += n
	return n, err
}

// withRandom runs f with crypto/rand.Reader replaced and returns the bytes drawn.
func withRandom(r io.Reader, f func()) int {
	old := rand.Reader
	tee := &teeReader{r: r}
	rand.Reader = tee
	defer func() { rand.Reader = old }()
	f()
	return tee.n
}

// flipStream is a reproducible random stream with one bit changed.
func flipStream(seed int64, pos, bit int) io.Reader {
	b := make([]byte, 4096)
	mrand.New(mrand.NewSource(seed)).Read(b)
	if pos >= 0 {
		b[pos] ^= 1 << uint(bit)
	}
	return bytes.NewReader(b)
}

// entropy measures on how many of the random bytes drawn the outcome of f
// depends. It returns -1 if the outcome also depends on something else.
func (t *T) entropy(f func() string) (drawn, used int) {
	seed := t.Rng.Int63()
	var base string
	drawn = withRandom(flipStream(seed, -1, 0), func() { base = f() })
	for i := 0; i < 3; i++ {
		var again string
		withRandom(flipStream(seed, -1, 0), func() { again = f() })
		if again != base {
			return drawn, -1
		}
	}
	for p := 0; p < drawn && p < 4096; p++ {
		for _, bit := range []int{4, 5} { // untouched by clamping
			var o string
			withRandom(flipStream(seed, p, bit), func() { o = f() })
			if o != base {
				used++
				break
			}
		}
	}
	return
}

func distinctRecs(recs []Rec, kinds ...string) (*Violation, map[string]int64) {
	obs := map[string]int64{}
	seen := map[string]string{}
	for _, r := range recs {
		ok := false
		for _, k := range kinds {
			ok = ok || k == r.Kind
		}
		if !ok {
			continue
		}
		obs["distinct "+r.Kind]++
		id := r.Kind + ":" + r.Data
		if first, dup := seen[id]; dup {
			return &Violation{Case: r.Case, Key: "repeated " + r.Kind,
				Detail: fmt.Sprintf("the %s %s occurs twice, in %s and in %s", r.Kind, r.Data, first, r.Case)}, obs
		}
		seen[id] = r.Case
	}
	return nil, obs
}

// varied checks that every byte position takes many values and every bit both.
func varied(recs []Rec, kind string, n int) *Violation {
	var rows [][]byte
	for _, r := range recs {
		if r.Kind == kind {
			b, _ := hex.DecodeString(r.Data)
			rows = append(rows, b)
		}
	}
	if len(rows) < 64 {
		return nil
	}
	for p := 0; p < n; p++ {
		vals := map[byte]bool{}
		ones := [8]int{}
		for _, r := range rows {
			vals[r[p]] = true
			for b := 0; b < 8; b++ {
				ones[b] += int(r[p]>>uint(b)) & 1
			}
		}
		if len(vals) < 24 {
			return &Violation{Case: "offline", Key: "constant " + kind, Detail: fmt.Sprintf("byte %d of the %s takes only %d values in %d samples", p, kind, len(vals), len(rows))}
		}
		for b := 0; b < 8; b++ {
			// 12 standard deviations around one half
			dev := float64(ones[b]) - float64(len(rows))/2
			if dev*dev > 144*float64(len(rows))/4 {
				return &Violation{Case: "offline", Key: "biased " + kind, Detail: fmt.Sprintf("bit %d of byte %d of the %s is set in %d of %d samples", b, p, kind, ones[b], len(rows))}
			}
		}
	}
	return nil
}

func init() {
	register(&Prop{
		ID:          "C09",
		Rule:        "one evaluation = one encryption whose file is decomposed with the known message; an offline checker over all of them demands pairwise distinct ephemeral keys, header tags, box tags and keystream heads, balanced ephemeral key bytes; within a file all 16-byte keystream blocks are compared; entropy cases count the random bytes an ephemeral key depends on",
		Min:         map[string]int64{"files examined": 700, "keystream blocks compared": 400000, "plaintext scans": 200, "distinct epub": 700, "distinct keystream": 1200, "entropy measured": 3, "command encryptions": 60, "chunks of one file compared": 70000},
		Assumptions: []string{"16-byte values of independent random draws do not collide by chance"},
		Cases: func(cfg *Config) []Case {
			var cs []Case
			shared := content(mrand.New(mrand.NewSource(cfg.Seed)), 4, 3*refChunk+77)
			for i := 0; i < cfg.pick(12, 100); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("same/%d", i), Fn: func(t *T) {
					// identical message and key, again and again, in several processes at once
					d := t.Dir()
					s, priv := newSec(shared[:32], shared[:16], shared[:8], 0, nil)
					t.Write(sub(d, "k.pub"), dataFile("c", (&pubRec{"Ed", s.KeyNum, priv[32:]}).encode()))
					m := t.Write(sub(d, "m"), shared[:[]int{16, 100, 3*refChunk + 77}[i%3]])
					for j := 0; j < 30; j++ {
						e := sub(d, "e")
						if err := crypto.Seal(sub(d, "k.pub"), m, e); err != nil {
							t.Failf("Seal: %v", err)
						}
						t.streams(e, t.Read(m))
						t.Eval("same", i, j)
					}
					t.Sample("30 encryptions of one message to one key")
				}})
			}
			for i := 0; i < cfg.pick(8, 60); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("varied/%d", i), Fn: func(t *T) {
					d := t.Dir()
					for j := 0; j < 30; j++ {
						k := t.RefKey(sub(d, "k"), nil, 0)
						msg := content(t.Rng, []int{0, 1, 2, 4, 6, 0}[t.Rng.Intn(6)], 16+t.Rng.Intn([]int{100, 20000, 60000}[j%3]))
						m := t.Write(sub(d, "m"), msg)
						e := sub(d, "e")
						if err := crypto.Seal(k.Pub, m, e); err != nil {
							t.Failf("Seal: %v", err)
						}
						t.streams(e, msg)
						t.noPlaintext(e, msg)
						t.Eval("varied", sum(msg))
					}
				}})
			}
			for _, n := range []int{256, 257, 520} {
				n := n
				cs = append(cs, Case{Name: fmt.Sprintf("long/%d", n), Ticks: 800, Fn: func(t *T) {
					d := t.Dir()
					k := t.RefKey(sub(d, "k"), nil, 0)
					msg := content(t.Rng, 1, n*refChunk)
					m := t.Write(sub(d, "m"), msg)
					if err := crypto.Seal(k.Pub, m, sub(d, "e")); err != nil {
						t.Failf("Seal: %v", err)
					}
					t.streams(sub(d, "e"), msg)
					t.Eval("long", n)
					t.Obs("long files", 1)
				}})
			}
			for _, n := range append([]int64{1100, 8200, 65600}, map[bool][]int64{true: {16500, 33000, 131200, 262200}}[cfg.Thorough]...) {
				n := n
				cs = append(cs, Case{Name: fmt.Sprintf("longest/%d", n), Ticks: 3000, Fn: func(t *T) {
					d := t.Dir()
					k := t.RefKey(sub(d, "k"), nil, 0)
					m, e := sub(d, "m"), sub(d, "e")
					t.sparse(m, n*refChunk, 0) // all zero: its ciphertext is the keystream
					if r := t.BigOp(opSpec{Op: "seal", A: []string{k.Pub, m, e}}); r.Exit != 0 {
						t.Failf("encrypting %d chunks failed: %v", n, r)
					}
					seen := map[[16]byte]uint64{}
					t.bigBoxes(e, fmt.Sprintf("%d chunks", n), func(h []byte) { t.Log("epub", h[8:40]) }, func(i uint64, box []byte) {
						for off := 16; off+16 <= len(box); off += 4096 {
							var a [16]byte
							copy(a[:], box[off:])
							if j, dup := seen[a]; dup {
								t.Failf("the same 16 bytes of keystream are used in chunks %d and %d of %d", j, i, n)
							}
							seen[a] = i
						}
					})
					if int64(len(seen)) < n*4 {
						t.Failf("encrypting %d chunks stored only %d pieces of 4096 bytes", n, len(seen))
					}
					t.Obs("files examined", 1)
					t.Obs("keystream blocks compared", int64(len(seen)))
					t.Obs("chunks of one file compared", n)
					t.Eval("longest", n)
				}})
			}
			for i := 0; i < 4; i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("parallel/%d", i), Fn: func(t *T) {
					d := t.Dir()
					k := t.RefKey(sub(d, "k"), nil, 0)
					msg := content(t.Rng, 4, 500)
					m := t.Write(sub(d, "m"), msg)
					const n = 32
					errs := make([]error, n)
					var wg sync.WaitGroup
					for j := 0; j < n; j++ {
						wg.Add(1)
						go func(j int) {
							defer wg.Done()
							errs[j] = crypto.Seal(k.Pub, m, sub(d, fmt.Sprint("e", j)))
						}(j)
					}
					wg.Wait()
					for j := 0; j < n; j++ {
						if errs[j] != nil {
							t.Failf("Seal: %v", errs[j])
						}
						t.streams(sub(d, fmt.Sprint("e", j)), msg)
						t.Eval("parallel", i, j)
					}
				}})
				cs = append(cs, Case{Name: fmt.Sprintf("command/%d", i), Ticks: 400, Fn: func(t *T) {
					d := t.Dir()
					k := t.RefKey(sub(d, "k"), nil, 0)
					msg := content(t.Rng, 4, 300)
					t.Write(sub(d, "m"), msg)
					const n = 20
					res := make([]cliResult, n)
					var wg sync.WaitGroup
					for j := 0; j < n; j++ {
						wg.Add(1)
						go func(j int) {
							defer wg.Done()
							res[j] = t.CLI(cliOpts{Dir: d, Umask: -1}, "-E", "-p", k.Pub, "-m", "m", "-c", fmt.Sprint("e", j))
						}(j)
					}
					wg.Wait()
					for j := 0; j < n; j++ {
						if res[j].Exit != 0 {
							t.Failf("command failed: %v", res[j])
						}
						t.streams(sub(d, fmt.Sprint("e", j)), msg)
						t.Obs("command encryptions", 1)
						t.Eval("command", i, j)
					}
				}})
			}
			for i := 0; i < 4; i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("entropy/%d", i), Fn: func(t *T) {
					d := t.Dir()
					k := t.RefKey(sub(d, "k"), nil, 0)
					m := t.Write(sub(d, "m"), content(t.Rng, i, []int{0, 10, refChunk + 5, 1000}[i]))
					drawn, used := t.entropy(func() string {
						os.Remove(sub(d, "e"))
						if err := crypto.Seal(k.Pub, m, sub(d, "e")); err != nil {
							t.Failf("Seal: %v", err)
						}
						_, pl, err := strictEncFile(t.Read(sub(d, "e")))
						if err != nil || len(pl) < 40 {
							t.Failf("sealed file is malformed: %v", err)
						}
						return string(pl[8:40])
					})
					if drawn < 32 {
						t.Failf("an encryption drew only %d bytes from the system's random source", drawn)
					}
					if used >= 0 && used < 32 {
						t.Failf("the ephemeral key depends on only %d of the %d random bytes drawn", used, drawn)
					}
					t.Obs("entropy measured", 1)
					t.Eval("entropy", i)
					t.Sample("ephemeral key depends on %d of %d random bytes drawn", used, drawn)
				}})
			}
			cs = append(cs, counterCases(cfg)...)
			return cs
		},
		Offline: func(cfg *Config, recs []Rec) (*Violation, map[string]int64) {
			v, obs := distinctRecs(recs, "epub", "headertag", "boxtag", "keystream")
			if v == nil {
				v = varied(recs, "epub", 31)
			}
			return v, obs
		},
	})
}
