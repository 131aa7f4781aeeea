package main

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"math/big"
	"os"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
)

// pubConv converts an encoded public key with the code under test and compares.
func (t *T) pubConv(file string, edpub []byte, what string) {
	y := append([]byte(nil), edpub...)
	y[31] &= 127
	yi := leToInt(y)
	if yi.Cmp(fieldP) >= 0 || yi.Cmp(one) == 0 || new(big.Int).Add(yi, one).Cmp(fieldP) == 0 {
		return // non-canonical encodings and the two points without a unique image
	}
	t.Write(file, dataFile("c", append([]byte("Ed\x00\x01\x02\x03\x04\x05\x06\x07"), edpub...)))
	t.Attach("public key", edpub)
	pub, err := signify.LoadPublicKey(file)
	if err != nil {
		t.Failf("%s: LoadPublicKey refuses a well-formed record: %v", what, err)
	}
	t.Eval("pub", edpub)
	on := onCurve(yi)
	for i := 0; i < 2; i++ {
		got, err := pub.ToBox()
		if !on {
			if err == nil {
				t.Failf("%s: %x encodes no curve point but was converted to %x", what, edpub, got[:])
			}
			t.Obs("invalid points refused", 1)
			continue
		}
		if err != nil {
			t.Failf("%s: valid public key %x refused: %v", what, edpub, err)
		}
		want := refBoxPub(edpub)
		if !bytes.Equal(got[:], want) {
			t.Failf("%s: %x converted (call %d) to %x, want %x", what, edpub, i+1, got[:], want)
		}
		t.Obs("public conversions compared", 1)
		for j := range got {
			got[j] = 0xaa // the caller owns the result
		}
	}
	if !on {
		out := file + ".enc"
		os.Remove(out)
		t.Write(file+".m", []byte("x"))
		if err := crypto.Seal(file, file+".m", out); err == nil {
			t.Failf("%s: encrypted to %x, which encodes no curve point", what, edpub)
		}
	}
}

func enc255(y *big.Int, sign int) []byte {
	b := intToLE(y)
	if sign == 1 {
		b[31] |= 128
	}
	return b
}

func init() {
	register(&Prop{
		ID:          "C11",
		Rule:        "one evaluation = one key converted by the code under test and compared with big-integer arithmetic (public: u=(1+y)/(1-y), off-curve refused) or SHA-512 clamping (secret), plus base-point consistency of generated pairs; random points and y, 1-y, u at limb boundaries and extremes; distinct by key",
		Min:         map[string]int64{"public conversions compared": 8000, "invalid points refused": 3000, "secret conversions compared": 1500, "pairs consistent": 800, "edge values": 4000},
		Assumptions: []string{"y = 1 (no image), y = -1 and non-canonical encodings are left unspecified"},
		Cases: func(cfg *Config) []Case {
			var cs []Case
			for i := 0; i < cfg.pick(8, 80); i++ {
				cs = append(cs, Case{Name: fmt.Sprintf("random/%d", i), Fn: func(t *T) {
					d := t.Dir()
					for j := 0; j < 500; j++ {
						t.pubConv(sub(d, "p"), randBytes(t.Rng, 32), "random bytes")
						pk := ed25519.NewKeyFromSeed(randBytes(t.Rng, 32))[32:]
						t.pubConv(sub(d, "p"), pk, "random key")
						pk[31] ^= 128
						t.pubConv(sub(d, "p"), pk, "other sign")
					}
				}})
			}
			edges := func() []*big.Int {
				var es []*big.Int
				add := func(x *big.Int) {
					x = new(big.Int).Mod(x, fieldP)
					es = append(es, x)
				}
				for k := uint(0); k < 256; k++ {
					p := new(big.Int).Lsh(one, k)
					for d := int64(-3); d <= 3; d++ {
						add(new(big.Int).Add(p, big.NewInt(d)))
					}
				}
				for d := int64(0); d < 200; d++ {
					add(big.NewInt(d))
					add(big.NewInt(-d))
				}
				// runs of ones
				for a := uint(0); a < 255; a += 17 {
					for b := a + 1; b <= 255; b += 13 {
						x := new(big.Int).Lsh(one, b)
						x.Sub(x, new(big.Int).Lsh(one, a))
						add(x)
					}
				}
				return es
			}
			for part := 0; part < 4; part++ {
				part := part
				cs = append(cs, Case{Name: fmt.Sprintf("edges/%d", part), Fn: func(t *T) {
					d := t.Dir()
					for i, e := range edges() {
						if i%4 != part {
							continue
						}
						sg := i / 4 & 1
						// as y, as 1-y, as 1+y, as u, as x^2's neighbours
						t.pubConv(sub(d, "p"), enc255(e, sg), "edge y")
						t.pubConv(sub(d, "p"), enc255(new(big.Int).Mod(new(big.Int).Sub(one, e), fieldP), sg), "edge 1-y")
						if y := edY(e); y != nil {
							t.pubConv(sub(d, "p"), enc255(y, sg), "edge u")
						}
						inv := new(big.Int)
						if e.Sign() != 0 {
							inv.ModInverse(e, fieldP)
							t.pubConv(sub(d, "p"), enc255(new(big.Int).Mod(new(big.Int).Sub(one, inv), fieldP), sg), "edge 1/(1-y)")
						}
						t.Obs("edge values", 4)
					}
					t.Sample("y, 1-y, 1/(1-y) and u at 2^k-3..2^k+3, 0..199, p-199..p and runs of ones")
				}})
			}
			for i := 0; i < cfg.pick(6, 60); i++ {
				cs = append(cs, Case{Name: fmt.Sprintf("limbs/%d", i), Fn: func(t *T) {
					// values with extreme limbs in radix 2^25.5, for y and for u
					d := t.Dir()
					for j := 0; j < 400; j++ {
						x := new(big.Int)
						sh := uint(0)
						for l := 0; l < 10; l++ {
							w := uint(26 - l%2)
							var v int64
							switch t.Rng.Intn(6) {
							case 0:
								v = 0
							case 1:
								v = 1<<w - 1
							case 2:
								v = 1 << (w - 1)
							case 3:
								v = 1<<(w-1) - 1
							case 4:
								v = 1
							case 5:
								v = t.Rng.Int63n(1 << w)
							}
							x.Add(x, new(big.Int).Lsh(big.NewInt(v), sh))
							sh += w
						}
						x.Mod(x, fieldP)
						t.pubConv(sub(d, "p"), enc255(x, j&1), "extreme limbs in y")
						if y := edY(x); y != nil {
							t.pubConv(sub(d, "p"), enc255(y, j&1), "extreme limbs in u")
						}
						t.Obs("edge values", 2)
					}
				}})
			}
			for i := 0; i < cfg.pick(8, 80); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("pairs/%d", i), Fn: func(t *T) {
					d := t.Dir()
					for j := 0; j < 120; j++ {
						var k *KeyPair
						switch {
						case j%20 == 0:
							k = t.GenKey(sub(d, fmt.Sprint("g", j)), []byte("some passphrase"), 1)
						case j%4 == 1:
							k = t.GenKey(sub(d, fmt.Sprint("g", j)), nil, 0)
						case j%4 == 2: // structured seeds
							s, priv := newSec(content(t.Rng, j, 32), make([]byte, 16), make([]byte, 8), 0, nil)
							k = &KeyPair{Sec: sub(d, "s.sec"), Pub: sub(d, "s.pub"), Rec: s, PubRec: &pubRec{"Ed", s.KeyNum, priv[32:]}, Clear: priv}
							t.Write(k.Sec, dataFile("c", s.encode()))
							t.Write(k.Pub, dataFile("c", k.PubRec.encode()))
						default:
							k = t.RefKey(sub(d, "r"), nil, 0)
						}
						t.Attach("seed", k.Clear[:32])
						priv, err := signify.LoadPrivateKey(k.Sec)
						if err != nil {
							t.Failf("LoadPrivateKey: %v", err)
						}
						pub, err := signify.LoadPublicKey(k.Pub)
						if err != nil {
							t.Failf("LoadPublicKey: %v", err)
						}
						want := refBoxPriv(k.Clear)
						for c := 0; c < 3; c++ {
							t.Use(k)
							got, err := priv.ToBox()
							if err != nil {
								t.Failf("secret conversion %d failed: %v", c+1, err)
							}
							if !bytes.Equal(got[:], want) {
								t.Failf("secret key with seed %x converted (call %d) to %x, want %x", k.Clear[:32], c+1, got[:], want)
							}
							bp, err := pub.ToBox()
							if err != nil {
								t.Failf("public conversion %d failed: %v", c+1, err)
							}
							if !bytes.Equal(bp[:], x25519Base(got[:])) {
								t.Failf("seed %x: public conversion %x does not belong to the secret one (call %d)", k.Clear[:32], bp[:], c+1)
							}
							t.Obs("secret conversions compared", 1)
							t.Obs("pairs consistent", 1)
							for q := range got {
								got[q], bp[q] = 0, 0
							}
							// other operations in between
							priv.IsEncrypted()
							priv.Check()
							if c == 1 && j%8 == 0 {
								t.Write(sub(d, "m"), content(t.Rng, j, 50))
								t.Use(k)
								if err := signify.Sign(k.Sec, sub(d, "m"), ""); err != nil {
									t.Failf("Sign: %v", err)
								}
								crypto.Seal(k.Pub, sub(d, "m"), "")
							}
						}
						t.Eval("pair", k.Clear)
					}
				}})
			}
			cs = append(cs, Case{Name: "in-memory", Fn: func(t *T) {
				for j := 0; j < 200; j++ {
					var pass []byte
					if j%10 == 0 {
						pass = []byte("pp")
					}
					priv, pub, err := signify.GenerateKeypair(append([]byte(nil), pass...), &signify.GenerateOptions{Rounds: 1})
					if err != nil {
						t.Failf("GenerateKeypair: %v", err)
					}
					for c := 0; c < 2; c++ {
						t.Pass(pass)
						a, err := priv.ToBox()
						if err != nil {
							t.Failf("secret conversion of a fresh key: %v", err)
						}
						b, err := pub.ToBox()
						if err != nil {
							t.Failf("public conversion of a fresh key: %v", err)
						}
						if !bytes.Equal(x25519Base(a[:]), b[:]) {
							t.Failf("conversions of a fresh pair do not belong together")
						}
						t.Obs("pairs consistent", 1)
						t.Eval("mem", a[:])
					}
				}
			}})
			return cs
		},
	})
}
