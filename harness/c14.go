package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha512"
	"encoding/hex"
	"fmt"
	"os"
	"sync"

	"github.com/kisom/psignify/signify"
)

// pairOK checks a generated pair on disk and logs its random parts.
func (t *T) pairOK(base string, pass []byte, rounds int) *KeyPair {
	k := t.LoadPair(base, pass)
	if k.Rec.Alg != "Ed" || k.Rec.Kdf != "BK" || k.PubRec.Alg != "Ed" {
		t.Failf("tags of a generated pair: %q %q %q", k.Rec.Alg, k.Rec.Kdf, k.PubRec.Alg)
	}
	if len(pass) == 0 {
		rounds = 0
	}
	if int64(k.Rec.Rounds) != int64(rounds) {
		t.Failf("generated key has %d rounds, asked for %d", k.Rec.Rounds, rounds)
	}
	if !bytes.Equal(k.Rec.KeyNum, k.PubRec.KeyNum) {
		t.Failf("key numbers differ: %x, %x", k.Rec.KeyNum, k.PubRec.KeyNum)
	}
	d := sha512.Sum512(k.Clear)
	if !bytes.Equal(d[:8], k.Rec.Check) {
		t.Failf("checksum %x, want %x (unmasked with the passphrase and %d rounds)", k.Rec.Check, d[:8], rounds)
	}
	if !bytes.Equal(ed25519.NewKeyFromSeed(k.Clear[:32]), k.Clear) || !bytes.Equal(k.Clear[32:], k.PubRec.Key) {
		t.Failf("the public key does not belong to the seed: seed %x, public half %x, public key %x", k.Clear[:32], k.Clear[32:], k.PubRec.Key)
	}
	t.Log("seed", k.Clear[:32])
	t.Log("salt", k.Rec.Salt)
	t.Log("keynum", k.Rec.KeyNum)
	t.Log("pub", k.PubRec.Key)
	t.Obs("pairs checked", 1)
	t.Eval(k.Rec.encode())
	return k
}

func init() {
	register(&Prop{
		ID:          "C14",
		Rule:        "one evaluation = one generated key pair parsed and checked for consistency by independent code; an offline checker over all seeds, salts, key numbers and public keys of the run demands pairwise distinctness, varying and balanced bytes and no common 8-byte piece; entropy cases count the random bytes the pair depends on; distinct by secret key record",
		Min:         map[string]int64{"pairs checked": 2000, "distinct seed": 2000, "distinct salt": 2000, "distinct keynum": 2000, "command pairs": 60, "protected pairs": 200, "entropy measured": 2, "round counts refused": 8},
		Assumptions: []string{"8-byte values of independent random draws do not collide by chance"},
		Cases: func(cfg *Config) []Case {
			var cs []Case
			for i := 0; i < cfg.pick(12, 150); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("sequence/%d", i), Fn: func(t *T) {
					d := t.Dir()
					for j := 0; j < 150; j++ {
						base := sub(d, fmt.Sprint("k", j))
						var pass []byte
						rounds := 0
						if j%6 == 0 {
							pass = randBytes(t.Rng, 1+t.Rng.Intn(30))
							rounds = 1 + t.Rng.Intn(3)
							t.Obs("protected pairs", 1)
						}
						opts := &signify.GenerateOptions{Rounds: rounds}
						if pass == nil {
							opts = []*signify.GenerateOptions{nil, {Rounds: 0}, {Rounds: 7}, {Rounds: -3}}[j%4]
						}
						if pass == nil && j%2 == 0 {
							pass = []byte{}
						}
						if err := signify.GenerateKey(base, append([]byte(nil), pass...), opts); err != nil {
							t.Failf("GenerateKey: %v", err)
						}
						t.pairOK(base, pass, rounds)
					}
					t.Sample("150 consecutive generations in one process")
				}})
			}
			for i := 0; i < cfg.pick(4, 40); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("parallel/%d", i), Fn: func(t *T) {
					d := t.Dir()
					const n = 64
					errs := make([]error, n)
					var wg sync.WaitGroup
					for j := 0; j < n; j++ {
						wg.Add(1)
						go func(j int) {
							defer wg.Done()
							var pass []byte
							if j%8 == 0 {
								pass = []byte("shared passphrase")
							}
							errs[j] = signify.GenerateKey(sub(d, fmt.Sprint("k", j)), pass, &signify.GenerateOptions{Rounds: 2})
						}(j)
					}
					wg.Wait()
					for j := 0; j < n; j++ {
						if errs[j] != nil {
							t.Failf("GenerateKey: %v", errs[j])
						}
						var pass []byte
						if j%8 == 0 {
							pass = []byte("shared passphrase")
							t.Obs("protected pairs", 1)
						}
						t.pairOK(sub(d, fmt.Sprint("k", j)), pass, 2)
					}
				}})
				cs = append(cs, Case{Name: fmt.Sprintf("command/%d", i), Ticks: 400, Fn: func(t *T) {
					d := t.Dir()
					const n = 20
					res := make([]cliResult, n)
					var wg sync.WaitGroup
					for j := 0; j < n; j++ {
						wg.Add(1)
						go func(j int) {
							defer wg.Done()
							res[j] = t.CLI(cliOpts{Dir: d, Umask: -1}, "-G", "-n", "-p", fmt.Sprint("k", j))
						}(j)
					}
					wg.Wait()
					for j := 0; j < n; j++ {
						if res[j].Exit != 0 {
							t.Failf("command: %v", res[j])
						}
						t.pairOK(sub(d, fmt.Sprint("k", j)), nil, 0)
						t.Obs("command pairs", 1)
					}
					if i < 2 {
						pass := []string{"typed passphrase", "x"}[i]
						r := t.CLI(cliOpts{Dir: d, Umask: -1, Answers: []string{pass, pass}}, "-G", "-p", "typed")
						if r.Exit != 0 {
							t.Failf("command: %v", r)
						}
						t.pairOK(sub(d, "typed"), []byte(pass), 42)
						t.Obs("protected pairs", 1)
					}
				}})
			}
			for _, r := range []int{100, 256, 257, 300, 1000}[:cfg.pick(3, 5)] {
				r := r
				cs = append([]Case{{Name: fmt.Sprintf("rounds/%d", r), Fn: func(t *T) {
					base := sub(t.Dir(), "k")
					if err := signify.GenerateKey(base, []byte("pp"), &signify.GenerateOptions{Rounds: r}); err != nil {
						t.Failf("GenerateKey with %d rounds: %v", r, err)
					}
					t.pairOK(base, []byte("pp"), r)
				}}}, cs...)
			}
			cs = append(cs, Case{Name: "rounds", Ticks: 120, Fn: func(t *T) {
				d := t.Dir()
				for _, r := range []int{1, 2, 3, 10, 43} {
					if err := signify.GenerateKey(sub(d, fmt.Sprint("r", r)), []byte("pp"), &signify.GenerateOptions{Rounds: r}); err != nil {
						t.Failf("GenerateKey with %d rounds: %v", r, err)
					}
					t.pairOK(sub(d, fmt.Sprint("r", r)), []byte("pp"), r)
				}
				if err := signify.GenerateKey(sub(d, "def"), []byte("pp"), nil); err != nil {
					t.Failf("GenerateKey: %v", err)
				}
				t.pairOK(sub(d, "def"), []byte("pp"), 42)
				// what the file cannot express must not become something weaker
				for i, r64 := range []int64{0, 1<<32 + 1, 1 << 32, 1<<40 + 2, 1<<33 + 3} {
					r := int(r64)
					if int64(r) != r64 {
						continue // no such int on this platform
					}
					base := sub(d, fmt.Sprint("bad", i))
					if err := signify.GenerateKey(base, []byte("pp"), &signify.GenerateOptions{Rounds: r}); err == nil {
						t.Failf("GenerateKey accepts %d rounds for a protected key", r)
					}
					if exists(base+".sec") || exists(base+".pub") {
						t.Failf("refused generation left files")
					}
					if _, _, err := signify.GenerateKeypair([]byte("pp"), &signify.GenerateOptions{Rounds: r}); err == nil {
						t.Failf("GenerateKeypair accepts %d rounds for a protected key", r)
					}
					t.Obs("round counts refused", 2)
					t.Eval("rounds", r)
				}
			}})
			cs = append(cs, Case{Name: "in-memory", Fn: func(t *T) {
				// pairs from GenerateKeypair are seen through their conversions
				for j := 0; j < 300; j++ {
					var pass []byte
					if j%10 == 0 {
						pass = []byte("pp")
					}
					priv, pub, err := signify.GenerateKeypair(append([]byte(nil), pass...), &signify.GenerateOptions{Rounds: 1})
					if err != nil {
						t.Failf("GenerateKeypair: %v", err)
					}
					if priv.IsEncrypted() != (pass != nil) {
						t.Failf("IsEncrypted() = %v", priv.IsEncrypted())
					}
					if (priv.Check() == nil) != (pass == nil) {
						t.Failf("Check() = %v, passphrase %q", priv.Check(), pass)
					}
					t.Pass(pass)
					s, err := priv.ToBox()
					if err != nil {
						t.Failf("ToBox: %v", err)
					}
					p, err := pub.ToBox()
					if err != nil {
						t.Failf("ToBox: %v", err)
					}
					if !bytes.Equal(x25519Base(s[:]), p[:]) {
						t.Failf("GenerateKeypair returned two keys that do not belong together")
					}
					t.Log("boxpub", p[:])
					t.Eval("mem", p[:])
				}
			}})
			for i := 0; i < 3; i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("entropy/%d", i), Fn: func(t *T) {
					d := t.Dir()
					var pass []byte
					if i == 1 {
						pass = []byte("pp")
					}
					drawn, used := t.entropy(func() string {
						os.Remove(sub(d, "k.sec"))
						os.Remove(sub(d, "k.pub"))
						k := t.GenKey(sub(d, "k"), pass, 1)
						return string(k.Clear[:32]) + string(k.Rec.Salt) + string(k.Rec.KeyNum)
					})
					if drawn < 56 {
						t.Failf("a key generation drew only %d bytes from the system's random source, it needs 56", drawn)
					}
					if used >= 0 && used < 56 {
						t.Failf("seed, salt and key number depend on only %d random bytes, not 56", used)
					}
					t.Obs("entropy measured", 1)
					t.Eval("entropy", i)
					t.Sample("seed, salt and key number depend on %d of %d random bytes drawn", used, drawn)
				}})
			}
			return cs
		},
		Offline: func(cfg *Config, recs []Rec) (*Violation, map[string]int64) {
			v, obs := distinctRecs(recs, "seed", "salt", "keynum", "pub", "boxpub")
			for _, f := range []struct {
				k string
				n int
			}{{"seed", 32}, {"salt", 16}, {"keynum", 8}, {"pub", 31}} {
				if v == nil {
					v = varied(recs, f.k, f.n)
				}
			}
			if v != nil {
				return v, obs
			}
			win := map[string]string{}
			for _, r := range recs {
				if r.Kind == "boxpub" {
					continue
				}
				b, _ := hex.DecodeString(r.Data)
				for i := 0; i+8 <= len(b); i++ {
					obs["8-byte pieces compared"]++
					w := string(b[i : i+8])
					me := r.Case + " " + r.Kind
					if o, dup := win[w]; dup {
						return &Violation{Case: r.Case, Key: "overlap " + r.Kind, Detail: fmt.Sprintf("the bytes %x occur in a %s (%s) and in a %s", w, me, r.Data, o)}, obs
					}
					win[w] = me
				}
			}
			return nil, obs
		},
	})
}
