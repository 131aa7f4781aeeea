package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"os"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
)

type dmg struct {
	t      *T
	k      *KeyPair
	d      string
	msg    []byte
	m, e   string
	oldSig []byte
}

func newDmg(t *T, pass []byte, rounds uint32) *dmg {
	d := t.Dir()
	x := &dmg{t: t, d: d}
	if t.Rng.Intn(2) == 0 {
		x.k = t.RefKey(sub(d, "k"), pass, rounds)
	} else {
		x.k = t.GenKey(sub(d, "k"), pass, int(rounds))
		if rounds == 0 {
			x.k.Pass = nil
		}
	}
	x.msg = []byte("the message to be signed or decrypted")
	x.m = t.Write(sub(d, "m"), x.msg)
	pl, err := refSeal(refBoxPub(x.k.PubRec.Key), randBytes(t.Rng, 32), x.msg)
	t.must(err, "refSeal")
	x.e = t.Write(sub(d, "e"), encFile("c", pl, "\n"))
	x.oldSig = []byte("previous signature file")
	// sanity: the intact key works
	t.Use(x.k)
	if err := signify.Sign(x.k.Sec, x.m, sub(d, "ok")); err != nil {
		t.Failf("intact key refused: %v", err)
	}
	t.Use(x.k)
	if err := crypto.Open(x.k.Sec, x.e, sub(d, "oko")); err != nil {
		t.Failf("intact key refused by decryption: %v", err)
	}
	return x
}

// refused demands that a secret key file with this record is not used.
func (x *dmg) refused(rec []byte, what string) {
	t := x.t
	sec := t.Write(sub(x.d, "bad.sec"), dataFile("signify secret key", rec))
	t.Attach("secret key record", rec)
	arm := func() {
		// the right passphrase, should anyone ask
		if x.k.Pass != nil {
			t.Pass(x.k.Pass)
		} else {
			t.Pass([]byte("whatever"))
		}
	}
	sig := sub(x.d, "sig")
	os.Remove(sig)
	arm()
	err := signify.Sign(sec, x.m, sig)
	if err == nil || exists(sig) {
		b, _ := os.ReadFile(sig)
		t.Failf("%s: Sign returned %v with a damaged secret key; signature file: %q", what, err, b)
	}
	old := t.Write(sub(x.d, "old.sig"), x.oldSig)
	if x.k.Pass == nil {
		arm()
		err = signify.Sign(sec, x.m, old)
		if err == nil || !bytes.Equal(t.Read(old), x.oldSig) {
			t.Failf("%s: Sign with a damaged key replaced an existing signature file (err %v)", what, err)
		}
	}
	out := sub(x.d, "out")
	os.Remove(out)
	arm()
	err = crypto.Open(sec, x.e, out)
	b, _ := os.ReadFile(out)
	if err == nil || len(b) > 0 {
		t.Failf("%s: Open returned %v with a damaged secret key and wrote %d bytes", what, err, len(b))
	}
	arm()
	if pv, err := signify.LoadPrivateKey(sec); err == nil {
		if _, err := pv.ToBox(); err == nil {
			t.Failf("%s: a damaged key was loaded and converted", what)
		}
	}
	t.Obs("damaged keys refused", 1)
	t.Eval(rec)
}

func init() {
	register(&Prop{
		ID:          "C05",
		Rule:        "one evaluation = one damaged secret key record given to Sign, Open and ToBox with the right passphrase; all must refuse and produce nothing. Damage: each single bit of tag, KDF tag, checksum, key (and salt, low rounds bits when protected), all lengths 0-160, field swaps, multi-bit and structured damage; distinct by record",
		Min:         map[string]int64{"damaged keys refused": 1500, "protected": 300, "cli refused": 12, "special keys": 14, "changed high rounds bits not accepted": 40},
		Assumptions: []string{"an 8-byte checksum collision (2^-64) does not occur by chance"},
		Cases: func(cfg *Config) []Case {
			var cs []Case
			for rep := 0; rep < cfg.pick(1, 6); rep++ {
				rep := rep
				for blk := 0; blk < 8; blk++ {
					blk := blk
					cs = append(cs, Case{Name: fmt.Sprintf("plain/bits/%d/%d", rep, blk), Fn: func(t *T) {
						x := newDmg(t, nil, 0)
						rec := x.k.Rec.encode()
						for b := blk; b < secLen*8; b += 8 {
							by := b / 8
							if by < 4 || (by >= 24 && by < 32) || by >= 40 {
								x.refused(flip(rec, b), fmt.Sprintf("plain key, bit %d of byte %d flipped", b%8, by))
							}
						}
						t.Sample("every 8th bit of a plain key record flipped, starting at bit %d", blk)
					}})
				}
			}
			for rep := 0; rep < cfg.pick(1, 6); rep++ {
				rep := rep
				for blk := 0; blk < 16; blk++ {
					blk := blk
					cs = append(cs, Case{Name: fmt.Sprintf("protected/bits/%d/%d", rep, blk), Fn: func(t *T) {
						x := newDmg(t, []byte("right passphrase"), 1)
						rec := x.k.Rec.encode()
						for b := blk; b < secLen*8; b += 16 {
							by := b / 8
							if by == 7 && b%8 > 4 || by >= 4 && by < 7 || by >= 32 && by < 40 {
								continue // huge KDF work / key number
							}
							if !t.cfg.Thorough && by >= 8 && by < 24 && b%2 == 1 {
								continue
							}
							x.refused(flip(rec, b), fmt.Sprintf("protected key, bit %d of byte %d flipped", b%8, by))
							t.Obs("protected", 1)
						}
					}})
				}
			}
			for _, prot := range []bool{false, true} {
				prot := prot
				name := map[bool]string{false: "plain", true: "protected"}[prot]
				mk := func(t *T) *dmg {
					if prot {
						return newDmg(t, []byte("right passphrase"), 1)
					}
					return newDmg(t, nil, 0)
				}
				cs = append(cs, Case{Name: name + "/lengths", Fn: func(t *T) {
					x := mk(t)
					rec := x.k.Rec.encode()
					for n := 0; n <= 160; n++ {
						if n == secLen {
							continue
						}
						if prot && n >= 8 && n%4 != 0 && (n < 96 || n > 112) {
							continue
						}
						r := make([]byte, n)
						copy(r, rec)
						if n > secLen {
							copy(r[secLen:], rec)
						}
						x.refused(r, fmt.Sprintf("%s key, record of %d bytes", name, n))
						if n > secLen {
							copy(r[n-secLen:], rec)
							x.refused(r, fmt.Sprintf("%s key, %d bytes in front", name, n-secLen))
						}
						if n < secLen {
							x.refused(append([]byte(nil), rec[secLen-n:]...), fmt.Sprintf("%s key, only the last %d bytes", name, n))
						}
					}
				}})
				cs = append(cs, Case{Name: name + "/structured", Fn: func(t *T) {
					x := mk(t)
					y := mk(t)
					rec, rec2 := x.k.Rec.encode(), y.k.Rec.encode()
					cut := func(dst, src []byte, a, b int) []byte {
						r := append([]byte(nil), dst...)
						copy(r[a:b], src[a:b])
						return r
					}
					x.refused(cut(rec, rec2, 40, 104), "key bytes of another key")
					x.refused(cut(rec, rec2, 24, 32), "checksum of another key")
					x.refused(cut(rec, rec2, 40, 72), "seed of another key")
					x.refused(cut(rec, rec2, 72, 104), "public half of another key")
					if prot {
						x.refused(cut(rec, rec2, 8, 24), "salt of another key")
					}
					z := make([]byte, secLen)
					for _, ab := range [][2]int{{0, 2}, {2, 4}, {0, 4}, {24, 32}, {40, 72}, {72, 104}, {40, 104}, {40, 41}, {103, 104}, {24, 25}, {31, 32}, {24, 104}} {
						if !bytes.Equal(cut(rec, z, ab[0], ab[1]), rec) {
							x.refused(cut(rec, z, ab[0], ab[1]), fmt.Sprintf("bytes %d-%d zeroed", ab[0], ab[1]-1))
						}
					}
					for _, tag := range []string{"ed", "ED", "RW", "dE", "\x00\x00", "E\x00", "BK"} {
						x.refused(append([]byte(tag), rec[2:]...), "algorithm tag "+tag)
					}
					for _, tag := range []string{"bk", "KB", "\x00\x00", "B\x00", "Ed", "BB"} {
						x.refused(append(append([]byte("Ed"), tag...), rec[4:]...), "KDF tag "+tag)
					}
					r := append([]byte(nil), rec...)
					copy(r[40:72], rec[72:104])
					copy(r[72:104], rec[40:72])
					x.refused(r, "key halves swapped")
					for i := 40; i < 103; i += 3 {
						r := append([]byte(nil), rec...)
						if r[i] != r[i+1] {
							r[i], r[i+1] = r[i+1], r[i]
							x.refused(r, fmt.Sprintf("key bytes %d and %d exchanged", i, i+1))
						}
					}
					// damage that cancels out in a sum or a fold
					for i := 24; i < 32; i++ {
						for j := i + 1; j < 32; j++ {
							if prot && (i+j+int(x.k.Rec.KeyNum[0]))%7 != 0 && j != i+4 {
								continue
							}
							for v, m := range [][2]byte{{1, 1}, {0x80, 0x80}, {byte(1 + t.Rng.Intn(255)), 0}, {1, 0xff}} {
								if v == 2 {
									m[1] = m[0]
								}
								r := append([]byte(nil), rec...)
								if v < 3 {
									r[i], r[j] = r[i]^m[0], r[j]^m[1]
								} else {
									r[i], r[j] = r[i]+m[0], r[j]+m[1]
								}
								x.refused(r, fmt.Sprintf("bytes %d and %d of the record changed alike (%d)", i, j, v))
								if prot && v == 0 {
									break
								}
							}
							r := append([]byte(nil), rec...)
							r[i], r[j] = r[j], r[i]
							if !prot && r[i] != r[j] {
								x.refused(r, fmt.Sprintf("bytes %d and %d of the record exchanged", i, j))
							}
						}
					}
					if prot {
						for _, rounds := range []byte{0, 2, 3, 5, 9} {
							r := append([]byte(nil), rec...)
							r[7] = rounds
							x.refused(r, fmt.Sprintf("rounds changed from 1 to %d", rounds))
						}
						// unmasked key under a masked header
						r := append([]byte(nil), rec...)
						copy(r[40:], x.k.Clear)
						x.refused(r, "key bytes replaced by the clear key")
					} else {
						x.refused(append(bytes.Repeat([]byte{'E', 'd'}, 2), rec[4:]...), "tags overwritten")
					}
				}})
				// keys whose salt or number stands out
				for i, v := range [][2][]byte{
					{make([]byte, 16), nil}, {bytes.Repeat([]byte{255}, 16), nil}, {append([]byte{0}, bytes.Repeat([]byte{'s'}, 15)...), nil}, {append(make([]byte, 15), 1), nil},
					{nil, make([]byte, 8)}, {nil, bytes.Repeat([]byte{255}, 8)}, {make([]byte, 16), make([]byte, 8)},
				} {
					v := v
					cs = append(cs, Case{Name: fmt.Sprintf("%s/special/%d", name, i), Fn: func(t *T) {
						x := mk(t)
						salt, num := v[0], v[1]
						if salt == nil {
							salt = randBytes(t.Rng, 16)
						}
						if num == nil {
							num = randBytes(t.Rng, 8)
						}
						s, _ := newSec(x.k.Clear[:32], salt, num, x.k.Rec.Rounds, x.k.Pass)
						rec := s.encode()
						t.Write(x.k.Sec, dataFile("c", rec))
						t.Use(x.k)
						if err := signify.Sign(x.k.Sec, x.m, sub(x.d, "ok2")); err != nil {
							t.Failf("intact key refused: %v", err)
						}
						for by := 0; by < secLen; by++ {
							if by >= 4 && by < 24 || by >= 32 && by < 40 || prot && by%4 != i%4 {
								continue
							}
							b := by*8 + t.Rng.Intn(8)
							x.refused(flip(rec, b), fmt.Sprintf("%s key with salt %x and number %x, bit %d of byte %d flipped", name, salt, num, b%8, by))
						}
						t.Obs("special keys", 1)
					}})
				}
				cs = append(cs, Case{Name: name + "/repeated", Fn: func(t *T) {
					x := mk(t)
					rec := x.k.Rec.encode()
					for _, q := range []int{2, 3, 4, 5, 8, 16, 64, 256, 257, 631} {
						x.refused(bytes.Repeat(rec, q), fmt.Sprintf("%s key record %d times", name, q))
						x.refused(append(append([]byte(nil), rec...), make([]byte, (q-1)*secLen)...), fmt.Sprintf("%s key record, zero padded to %d records", name, q))
						x.refused(append(make([]byte, (q-1)*secLen), rec...), fmt.Sprintf("%s key record behind %d zero records", name, q-1))
					}
					for _, n := range []int{128, 192, 208, 256, 312, 360, 512, 1024, 65536, 65536 + secLen} {
						r := make([]byte, n)
						copy(r, rec)
						x.refused(r, fmt.Sprintf("%s key, record of %d bytes", name, n))
						copy(r[n-secLen:], rec)
						x.refused(r, fmt.Sprintf("%s key, record of %d bytes, intact at the end", name, n))
					}
				}})
				for i := 0; i < cfg.pick(4, 40); i++ {
					i := i
					cs = append(cs, Case{Name: fmt.Sprintf("%s/random/%d", name, i), Fn: func(t *T) {
						x := mk(t)
						rec := x.k.Rec.encode()
						n := 120
						if prot {
							n = 20
						}
						for j := 0; j < n; j++ {
							r := append([]byte(nil), rec...)
							for q := t.Rng.Intn(6); q >= 0; q-- {
								pos := []int{t.Rng.Intn(4), 24 + t.Rng.Intn(8), 40 + t.Rng.Intn(64), 40 + t.Rng.Intn(64), 40 + t.Rng.Intn(64)}[t.Rng.Intn(5)]
								r[pos] ^= byte(1 + t.Rng.Intn(255))
							}
							if !bytes.Equal(r, rec) {
								x.refused(r, name+" key, random damage")
							}
						}
					}})
				}
			}
			// damage that asks for endless key stretching: whoever says yes within
			// two seconds has not done the work
			for blk := 0; blk < 8; blk++ {
				blk := blk
				cs = append(cs, Case{Name: fmt.Sprintf("protected/rounds/%d", blk), Fn: func(t *T) {
					pass := []byte("right passphrase")
					x := newDmg(t, pass, uint32(1+blk%3))
					rec := x.k.Rec.encode()
					var bits []int
					for b := 9; b < 32; b++ {
						if (b-9)%8 == blk {
							bits = append(bits, b)
						}
					}
					var recs [][]byte
					for _, b := range bits {
						r := append([]byte(nil), rec...)
						binary.BigEndian.PutUint32(r[4:], x.k.Rec.Rounds|1<<uint(b))
						recs = append(recs, r)
					}
					r := append([]byte(nil), rec...)
					binary.BigEndian.PutUint32(r[4:], []uint32{x.k.Rec.Rounds << 24, 0xffffffff, 0xffff0000 | x.k.Rec.Rounds, 0x80000000, 0x7fffffff, 0x10000, 0x01000000, 0x80000000 | x.k.Rec.Rounds}[blk])
					recs = append(recs, r)
					for _, r := range recs {
						t.Write(sub(x.d, "bad.sec"), dataFile("c", r))
						t.Attach("secret key record", r)
						for _, sp := range []opSpec{{Op: "sign", A: []string{"bad.sec", "m", "hs"}}, {Op: "open", A: []string{"bad.sec", "e", "ho"}}} {
							sp.Pass = hex.EncodeToString(pass)
							res := t.Op(cliOpts{Dir: x.d, Umask: -1, Wrap: []string{"timeout", "-s", "KILL", "1.2"}}, sp)
							ob, _ := os.ReadFile(sub(x.d, "ho"))
							if res.Exit == 0 || exists(sub(x.d, "hs")) || len(ob) > 0 {
								t.Failf("%s accepts a key whose rounds were changed from %d to %#x", sp.Op, x.k.Rec.Rounds, r[4:8])
							}
							t.Obs("changed high rounds bits not accepted", 1)
						}
						t.Eval("rounds", r)
					}
				}})
			}
			cs = append(cs, Case{Name: "cli", Fn: func(t *T) {
				x := newDmg(t, nil, 0)
				rec := x.k.Rec.encode()
				for _, b := range []int{0, 17, 24*8 + 3, 40 * 8, 71*8 + 1, 72 * 8, 103*8 + 7} {
					t.Write(sub(x.d, "bad.sec"), dataFile("c", flip(rec, b)))
					r := t.CLI(cliOpts{Dir: x.d, Umask: -1}, "-S", "-s", "bad.sec", "-m", "m", "-x", "cs")
					if r.Exit == 0 || r.Exit < 0 || exists(sub(x.d, "cs")) {
						t.Failf("command signed with a damaged key (bit %d): %v", b, r)
					}
					r = t.CLI(cliOpts{Dir: x.d, Umask: -1}, "-D", "-s", "bad.sec", "-c", "e", "-m", "co")
					if ob, _ := os.ReadFile(sub(x.d, "co")); r.Exit == 0 || r.Exit < 0 || len(ob) > 0 || r.OKLine() {
						t.Failf("command decrypted with a damaged key (bit %d): %v", b, r)
					}
					t.Obs("cli refused", 2)
					t.Eval("cli", b)
				}
			}})
			return cs
		},
	})
}
