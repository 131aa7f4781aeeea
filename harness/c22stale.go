package main

import (
	"bytes"
	"fmt"
	"os"
	"time"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
)

// The parts of a world: two sets of input files that agree in every name,
// size, time and comment, and in the key number and salt.
var worldParts = []string{"k.sec", "k.pub", "m", "s", "e"}

const (
	partSec = iota
	partPub
	partMsg
	partSig
	partEnc
)

var staleWays = []string{"written in place", "patched in place", "renamed over", "link retargeted", "hard link exchanged", "directory changed", "directory link retargeted", "directory renamed"}

// staleCases changes the files behind the same paths between operations in
// ways that leave no trace in sizes, times or names, and demands that each
// operation sees what is there at that moment.
func staleCases(cfg *Config) []Case {
	var cs []Case
	for w := range staleWays {
		for v := 0; v < cfg.pick(2, 8); v++ {
			w, v := w, v
			cs = append(cs, Case{Name: fmt.Sprintf("stale/%d-%d", w, v), Ticks: 900, Fn: func(t *T) {
				d := t.Dir()
				n := []int{40, 3 * refChunk / 2, 1, 20000}[(w+v)%4]
				pass := []byte("the passphrase")
				rounds := uint32(v % 2)
				num, salt := randBytes(t.Rng, 8), randBytes(t.Rng, 16)
				var content2 [2][5][]byte
				var keys [2]*KeyPair
				var msgs [2][]byte
				msgs[0] = content(t.Rng, v%3, n)
				msgs[1] = flip(msgs[0], []int{0, n*8 - 1, n * 4, t.Rng.Intn(n * 8)}[(w+v/2)%4])
				for i := 0; i < 2; i++ {
					s, priv := newSec(randBytes(t.Rng, 32), salt, num, rounds, pass)
					k := &KeyPair{Rec: s, PubRec: &pubRec{"Ed", num, priv[32:]}, Clear: priv, Pass: pass}
					keys[i] = k
					pl, err := refSeal(refBoxPub(k.PubRec.Key), randBytes(t.Rng, 32), msgs[i])
					t.must(err, "seal")
					content2[i] = [5][]byte{
						dataFile("signify secret key", s.encode()), dataFile("signify public key", k.PubRec.encode()),
						msgs[i], dataFile("verify with k.pub", refSign(k, priv, msgs[i])), encFile("psignify encrypted file", pl, "\n"),
					}
				}
				when := time.Unix(1e9, 0)
				put := func(path string, b []byte) {
					t.Write(path, b)
					t.must(os.Chtimes(path, when, when), "times")
				}
				t.must(os.MkdirAll(sub(d, "out"), 0755), "mkdir")
				out := func(n string) string { return sub(d, "out", n) }
				cur := sub(d, "cur")
				comboDir := func(a [5]int) string {
					cd := sub(d, fmt.Sprintf("combo%d%d%d%d%d", a[0], a[1], a[2], a[3], a[4]))
					if !exists(cd) {
						t.must(os.Mkdir(cd, 0755), "mkdir")
						for i, n := range worldParts {
							put(sub(cd, n), content2[a[i]][i])
						}
						t.must(os.Chtimes(cd, when, when), "times")
					}
					return cd
				}
				if w < 5 {
					t.must(os.Mkdir(cur, 0755), "mkdir")
					for i := range worldParts {
						for j := 0; j < 2; j++ {
							put(sub(d, fmt.Sprintf("pool-%d-%d", i, j)), content2[j][i])
						}
					}
				}
				wd, _ := os.Getwd()
				defer os.Chdir(wd)
				var renamed string // what cur was called before
				first := true
				var state [5]int
				change := func(to [5]int) {
					for i, n := range worldParts {
						if w >= 5 || (!first && to[i] == state[i]) {
							continue
						}
						p, pool := sub(cur, n), sub(d, fmt.Sprintf("pool-%d-%d", i, to[i]))
						b := content2[to[i]][i]
						switch {
						case w == 3:
							os.Remove(p)
							t.must(os.Symlink(pool, p), "symlink")
						case w == 4:
							os.Remove(p)
							t.must(os.Link(pool, p), "link")
						case w == 2:
							put(p+".new", b)
							t.must(os.Rename(p+".new", p), "rename")
						case w == 1 && !first:
							f, err := os.OpenFile(p, os.O_WRONLY, 0)
							t.must(err, "open")
							_, err = f.WriteAt(b, 0)
							t.must(err, "patch")
							f.Close()
							t.must(os.Chtimes(p, when, when), "times")
						default:
							put(p, b)
						}
					}
					switch w {
					case 5:
						t.must(os.Chdir(comboDir(to)), "chdir")
					case 6:
						cd := comboDir(to)
						os.Remove(cur)
						t.must(os.Symlink(cd, cur), "symlink")
					case 7:
						if renamed != "" {
							t.must(os.Rename(cur, renamed), "rename")
						}
						renamed = comboDir(to)
						t.must(os.Rename(renamed, cur), "rename")
					}
					state, first = to, false
				}
				path := func(i int) string {
					if w == 5 {
						return worldParts[i]
					}
					return sub(cur, worldParts[i])
				}
				t.Pass(pass)
				var trace []string
				fail := func(format string, args ...interface{}) {
					t.Failf("files %s, key protected=%v, message of %d bytes, after\n%s\n%s", staleWays[w], rounds > 0, n, fmt.Sprint(trace), fmt.Sprintf(format, args...))
				}
				for step := 0; step < cfg.pick(24, 150); step++ {
					to := state
					switch {
					case step < 2: // all of one world
						for i := range to {
							to[i] = step
						}
					case step < 12: // one part at a time, there and back
						for i := range to {
							to[i] = 1
						}
						if step%2 == 0 {
							to[(step-2)/2] = 0
						}
					default:
						for i := range to {
							to[i] = t.Rng.Intn(2)
						}
					}
					change(to)
					trace = append(trace, fmt.Sprint(to))
					for _, op := range t.Rng.Perm(6)[:3+t.Rng.Intn(4)] {
						switch op {
						case 0:
							err := signify.Verify(path(partPub), path(partMsg), path(partSig))
							if want := to[partPub] == to[partSig] && to[partMsg] == to[partSig]; (err == nil) != want {
								fail("verification says %v", err)
							}
						case 1:
							if err := signify.Sign(path(partSec), path(partMsg), out("s")); err != nil {
								fail("signing: %v", err)
							}
							_, rec, err := strictDataFile(t.Read(out("s")))
							if err != nil || !bytes.Equal(rec, refSign(keys[to[partSec]], keys[to[partSec]].Clear, msgs[to[partMsg]])) {
								fail("the signature is not that of this key and message")
							}
						case 2:
							if err := crypto.Seal(path(partPub), path(partMsg), out("e")); err != nil {
								fail("encrypting: %v", err)
							}
							_, pl, err := strictEncFile(t.Read(out("e")))
							t.must(err, "encrypted file")
							got, err := refOpen(refBoxPriv(keys[to[partPub]].Clear[:32]), pl)
							if err != nil || !bytes.Equal(got, msgs[to[partMsg]]) {
								fail("the encrypted file is not that of this key and message: %v", err)
							}
						case 3:
							err := crypto.Open(path(partSec), path(partEnc), out("o"))
							if want := to[partSec] == to[partEnc]; (err == nil) != want {
								fail("decryption says %v", err)
							}
							if err == nil && !bytes.Equal(t.Read(out("o")), msgs[to[partEnc]]) {
								fail("decryption yields another message")
							}
						case 4:
							p, err := signify.LoadPublicKey(path(partPub))
							if err == nil {
								var b *[32]byte
								if b, err = p.ToBox(); err == nil && !bytes.Equal(b[:], refBoxPub(keys[to[partPub]].PubRec.Key)) {
									fail("another public key was loaded")
								}
							}
							if err != nil {
								fail("loading the public key: %v", err)
							}
						case 5:
							p, err := signify.LoadPrivateKey(path(partSec))
							if err == nil {
								var b *[32]byte
								if b, err = p.ToBox(); err == nil && !bytes.Equal(b[:], refBoxPriv(keys[to[partSec]].Clear[:32])) {
									fail("another secret key was loaded")
								}
							}
							if err != nil {
								fail("loading the secret key: %v", err)
							}
						}
						t.Obs("steps judged", 1)
						t.Obs("steps after changes that leave no trace", 1)
					}
					t.Eval("stale", w, v, step, to)
				}
				t.Sample("files %s between %d steps: %v", staleWays[w], len(trace), trace[:8])
			}})
		}
	}
	return cs
}
