package main

import (
	"bytes"
	"crypto/ed25519"
	"errors"
	"fmt"
	"os"
	"strings"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
)

// wrongVariants lists near misses of p.
func wrongVariants(t *T, p []byte) [][]byte {
	var w [][]byte
	add := func(b []byte) {
		if !bytes.Equal(b, p) {
			for _, o := range w {
				if bytes.Equal(o, b) {
					return
				}
			}
			w = append(w, append([]byte(nil), b...))
		}
	}
	add(p[:len(p)-1])
	add(p[1:])
	for _, s := range []string{"\x00", "\n", " ", "x", "\r"} {
		add(append(append([]byte(nil), p...), s...))
	}
	add(append([]byte(" "), p...))
	add(append(append([]byte(nil), p...), p...))
	add(bytes.ToUpper(p))
	add(bytes.ToLower(p))
	add(bytes.TrimSpace(p))
	add(bytes.TrimRight(p, "\x00"))
	add(bytes.TrimRight(p, "\r\n"))
	if i := bytes.IndexByte(p, 0); i >= 0 {
		add(p[:i])
	}
	for _, n := range []int{8, 16, 32, 56, 64, 71, 72, 73, 127, 128, 255, 256} {
		if n < len(p) {
			add(p[:n])
		}
	}
	add(nil)
	add(flip(p, len(p)*8-1))
	add(flip(p, 0))
	add(flip(p, 7))
	add(flip(p, t.Rng.Intn(len(p)*8)))
	add(flip(p, len(p)*8-8))
	add(bytes.Map(func(r rune) rune { return r & 0x7f }, p))
	c := append([]byte(nil), p...)
	for i, j := 0, len(c)-1; i < j; i, j = i+1, j-1 {
		c[i], c[j] = c[j], c[i]
	}
	add(c)
	add([]byte("passphrase"))
	return w
}

func init() {
	passes := map[string][]byte{
		"one": []byte("a"), "nulbyte": {0}, "space": []byte(" "), "newline": []byte("line\n"), "word": []byte("Passphrase1"), "nul inside": []byte("abc\x00def"),
		"nul tail": []byte("abc\x00\x00"), "high": {0xff, 0xfe, 0x80, 0x81}, "utf8": []byte("пароль-密码-é"), "72": []byte(strings.Repeat("0123456789ab", 6)),
		"73": []byte(strings.Repeat("0123456789ab", 6) + "Z"), "128": bytes.Repeat([]byte("q"), 128), "129": bytes.Repeat([]byte("q"), 129), "300": bytes.Repeat([]byte("wx"), 150), "5000": bytes.Repeat([]byte("long"), 1250),
		"70000": append(bytes.Repeat([]byte("0123456789"), 7000), '.'), "nul head": []byte("\x00abc"), "4096": append(bytes.Repeat([]byte{0xaa}, 4096), 1),
		"blank ends": []byte("  two words \t"), "crlf": []byte("pw\r\n"), "percent": []byte("%s%n"), "64": bytes.Repeat([]byte{'A', 'b'}, 32), "65": append(bytes.Repeat([]byte{'A', 'b'}, 32), 'c'),
	}
	register(&Prop{
		ID:   "C04",
		Rule: "one evaluation = one attempt to use a protected key (signing, decrypting or converting a loaded key) with a given passphrase, judged against equality with the generating passphrase; passphrases of many shapes, near-miss variants of each, random attempt sequences on one loaded key; distinct by (key, passphrase tried, operation)",
		Min:  map[string]int64{"right passphrase accepted": 150, "wrong passphrase refused": 500, "recoveries after refusal": 20, "stored keys unmasked": 20, "plain keys used without prompt": 20, "passphrases typed": 100, "unequal confirmations refused": 50},
		Cases: func(cfg *Config) []Case {
			var cs []Case
			var names []string
			for n := range passes {
				names = append(names, n)
			}
			sortStrings(names)
			for pi, pn := range names {
				pi, pn := pi, pn
				cs = append(cs, Case{Name: "pass/" + pn, Fn: func(t *T) {
					p := passes[pn]
					d := t.Dir()
					rounds := 2 + pi%2
					k := t.GenKey(sub(d, "k"), p, rounds)
					sec0 := t.Read(k.Sec)
					t.storedMasked(k, rounds)
					msg := []byte("message for " + pn)
					m := t.Write(sub(d, "m"), msg)
					pl, err := refSeal(refBoxPub(k.PubRec.Key), randBytes(t.Rng, 32), msg)
					t.must(err, "refSeal")
					e := t.Write(sub(d, "e"), encFile("c", pl, "\n"))
					sig := sub(d, "s")
					try := func(pass []byte, what string) {
						right := bytes.Equal(pass, p)
						os.Remove(sig)
						t.Attach("passphrase", p)
						t.Attach("tried", pass)
						t.Pass(pass)
						err := signify.Sign(k.Sec, m, sig)
						if t.Prompts() == 0 {
							t.Failf("%s: a protected key was used for signing without asking for the passphrase", what)
						}
						if right {
							if err != nil {
								t.Failf("%s: signing refused the right passphrase: %v", what, err)
							}
							t.checkSigFile(k, k.Sec, t.Read(sig), msg, what)
						} else if err == nil || exists(sig) {
							t.Failf("%s: signing with wrong passphrase %q: error %v, signature file present: %v", what, pass, err, exists(sig))
						}
						out := sub(d, "o")
						os.Remove(out)
						t.Pass(pass)
						err = crypto.Open(k.Sec, e, out)
						if t.Prompts() == 0 {
							t.Failf("%s: a protected key was used for decryption without asking for the passphrase", what)
						}
						ob, _ := os.ReadFile(out)
						if right {
							if err != nil || !bytes.Equal(ob, msg) {
								t.Failf("%s: decryption with the right passphrase: %v", what, err)
							}
							t.Obs("right passphrase accepted", 2)
						} else {
							if err == nil || len(ob) > 0 {
								t.Failf("%s: decryption with wrong passphrase %q: error %v, output %q", what, pass, err, ob)
							}
							t.Obs("wrong passphrase refused", 2)
						}
						if !bytes.Equal(t.Read(k.Sec), sec0) {
							t.Failf("%s: the key file changed", what)
						}
						t.Eval(k.Rec.encode(), pass, "sign/open")
					}
					try(p, "first use")
					ws := wrongVariants(t, p)
					for _, w := range ws {
						try(w, "near miss")
					}
					try(p, "after wrong attempts")
					t.Obs("recoveries after refusal", 1)
					t.Sample("passphrase %.40q, %d near misses, rounds %d", p, len(ws), rounds)
				}})
			}
			for i := 0; i < cfg.pick(24, 300); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("loaded/%d", i), Fn: func(t *T) {
					// attempt histories on one loaded key
					p := randBytes(t.Rng, 1+t.Rng.Intn(40))
					d := t.Dir()
					var priv *signify.Private
					var want []byte
					rounds := 1 + t.Rng.Intn(2)
					if i%2 == 0 {
						k := t.GenKey(sub(d, "k"), p, rounds)
						var err error
						priv, err = signify.LoadPrivateKey(k.Sec)
						if err != nil {
							t.Failf("LoadPrivateKey: %v", err)
						}
						want = refBoxPriv(k.Clear)
					} else {
						pv, pub, err := signify.GenerateKeypair(append([]byte(nil), p...), &signify.GenerateOptions{Rounds: rounds})
						if err != nil {
							t.Failf("GenerateKeypair: %v", err)
						}
						bp, err := pub.ToBox()
						if err != nil {
							t.Failf("Public.ToBox: %v", err)
						}
						priv = pv
						want = nil
						defer func() { _ = bp }()
						t.Attach("boxpub", bp[:])
						// the derived secret must match the public one
						check := bp
						t.loadedHistory(priv, p, func(got []byte) bool { return bytes.Equal(x25519Base(got), check[:]) }, i)
						return
					}
					t.loadedHistory(priv, p, func(got []byte) bool { return bytes.Equal(got, want) }, i)
				}})
			}
			// any number of refusals in a row does not count
			cs = append(cs, Case{Name: "patience", Fn: func(t *T) {
				p := randBytes(t.Rng, 1+t.Rng.Intn(40))
				d := t.Dir()
				k := t.RefKey(sub(d, "k"), p, 1)
				priv, err := signify.LoadPrivateKey(k.Sec)
				if err != nil {
					t.Failf("LoadPrivateKey: %v", err)
				}
				m := t.Write(sub(d, "m"), []byte("message"))
				n := cfg.pick(70, 1100)
				for i := 0; i < n; i++ {
					t.Pass(append([]byte("wrong"), p...))
					if _, err := priv.ToBox(); err == nil {
						t.Failf("a wrong passphrase is accepted after %d refusals", i)
					}
					if i%4 == 0 {
						t.Pass([]byte("wrong as well"))
						if signify.Sign(k.Sec, m, sub(d, "s")) == nil || exists(sub(d, "s")) {
							t.Failf("Sign accepts a wrong passphrase after %d refusals", i)
						}
					}
					t.Eval("patience", i)
				}
				t.Obs("refusals in a row", int64(n))
				t.Pass(p)
				got, err := priv.ToBox()
				if err != nil || !bytes.Equal(got[:], refBoxPriv(k.Clear)) {
					t.Failf("after %d refused attempts with a loaded key the right passphrase is not good any more: %v", n, err)
				}
				t.Pass(p)
				if err := signify.Sign(k.Sec, m, sub(d, "s")); err != nil {
					t.Failf("after %d refused attempts with a key file the right passphrase is not good any more: %v", n, err)
				}
				t.Sample("%d refused attempts before the right one", n)
			}})
			cs = append(cs, Case{Name: "plain", Fn: func(t *T) {
				for i := 0; i < 40; i++ {
					d := t.Dir()
					var pass []byte
					if i%2 == 0 {
						pass = []byte{}
					}
					k := t.GenKey(sub(d, "k"), pass, i%3)
					k.Pass = nil
					if k.Rec.Rounds != 0 {
						t.Failf("key generated with an empty passphrase has %d rounds", k.Rec.Rounds)
					}
					m := t.Write(sub(d, "m"), []byte("x"))
					t.NoPass()
					if err := signify.Sign(k.Sec, m, ""); err != nil || t.Prompts() != 0 {
						t.Failf("signing with an unprotected key: err=%v, prompts=%d", err, t.Prompts())
					}
					pl, err := refSeal(refBoxPub(k.PubRec.Key), randBytes(t.Rng, 32), []byte("x"))
					t.must(err, "refSeal")
					e := t.Write(sub(d, "e"), encFile("c", pl, "\n"))
					if err := crypto.Open(k.Sec, e, sub(d, "o")); err != nil || t.Prompts() != 0 {
						t.Failf("decrypting with an unprotected key: err=%v, prompts=%d", err, t.Prompts())
					}
					pv, err := signify.LoadPrivateKey(k.Sec)
					if err != nil || pv.IsEncrypted() {
						t.Failf("unprotected key: load error %v, IsEncrypted %v", err, pv.IsEncrypted())
					}
					if _, err := pv.ToBox(); err != nil || t.Prompts() != 0 {
						t.Failf("converting an unprotected key: err=%v, prompts=%d", err, t.Prompts())
					}
					t.Obs("plain keys used without prompt", 1)
					t.Eval("plain", k.Rec.encode())
				}
			}})
			cs = append(cs, Case{Name: "prompterror", Fn: func(t *T) {
				d := t.Dir()
				k := t.GenKey(sub(d, "k"), []byte("pw"), 1)
				m := t.Write(sub(d, "m"), []byte("x"))
				pl, err := refSeal(refBoxPub(k.PubRec.Key), randBytes(t.Rng, 32), []byte("x"))
				t.must(err, "refSeal")
				e := t.Write(sub(d, "e"), encFile("c", pl, "\n"))
				for i, f := range []func(bool) ([]byte, error){
					func(bool) ([]byte, error) { return nil, errors.New("no tty") },
					func(bool) ([]byte, error) { return []byte("pw"), errors.New("no tty") },
					func(bool) ([]byte, error) { return nil, nil },
					func(bool) ([]byte, error) { return []byte{}, nil },
				} {
					t.mu.Lock()
					t.prompt = f
					t.mu.Unlock()
					if err := signify.Sign(k.Sec, m, sub(d, "s")); err == nil || exists(sub(d, "s")) {
						t.Failf("signing went ahead although the prompt failed (%d): %v", i, err)
					}
					if err := crypto.Open(k.Sec, e, sub(d, "o")); err == nil {
						t.Failf("decryption went ahead although the prompt failed (%d)", i)
					}
					pv, err := signify.LoadPrivateKey(k.Sec)
					if err != nil {
						t.Failf("LoadPrivateKey: %v", err)
					}
					if _, err := pv.ToBox(); err == nil {
						t.Failf("conversion went ahead although the prompt failed (%d)", i)
					}
					t.Eval("prompterror", i)
					t.Obs("wrong passphrase refused", 3)
				}
			}})
			// passphrases typed on a terminal
			for i, p := range []string{"plain", " lead", "trail ", "  both  ", "Mixed Case", "ÜmläutÉ", "\xff\xfe\x80", strings.Repeat("long one ", 40), "100%d %s", "a", "quote'\"\\", "x\u00a0", "#!", strings.Repeat("k", 72) + "1", strings.Repeat("z", 255), strings.Repeat("w", 1000), strings.Repeat("v", 2047) + "1", strings.Repeat("u", 4000) + "1"} {
				i, p := i, p
				cs = append(cs, Case{Name: fmt.Sprintf("typed/%d", i), Fn: func(t *T) {
					d := t.Dir()
					o := func(a ...string) cliOpts { return cliOpts{Dir: d, Umask: 022, Answers: a} }
					var vs []string
					for _, v := range []string{strings.TrimSpace(p), p + " ", " " + p, strings.ToUpper(p), strings.ToLower(p), p[:len(p)-1], p + p, p + "x", strings.TrimRight(p, "1xyzw "), p[:len(p)-1] + string(rune(p[len(p)-1]^1)), strings.ReplaceAll(p, " ", "")} {
						dup := v == p
						for _, w := range vs {
							dup = dup || w == v
						}
						if !dup {
							vs = append(vs, v)
						}
					}
					for j, v := range vs {
						if r := t.CLI(o(p, v), "-G", "-p", "bad"); r.Exit == 0 || exists(sub(d, "bad.sec")) || exists(sub(d, "bad.pub")) {
							t.Failf("key generated although passphrase %q was confirmed as %q: %v", p, v, r)
						}
						if j%2 == 0 {
							if r := t.CLI(o(v, p), "-G", "-p", "bad"); r.Exit == 0 || exists(sub(d, "bad.sec")) {
								t.Failf("key generated although passphrase %q was confirmed as %q: %v", v, p, r)
							}
						}
						t.Obs("unequal confirmations refused", 1)
						t.Eval("confirm", p, v)
					}
					if r := t.CLI(o(p, p), "-G", "-p", "k"); r.Exit != 0 {
						t.Failf("-G with passphrase %q typed twice failed: %v", p, r)
					}
					k := t.LoadPair(sub(d, "k"), []byte(p))
					t.storedMasked(k, 42)
					// a cheaper key under the same passphrase
					c := t.RefKey(sub(d, "c"), []byte(p), 1)
					msg := []byte("typed " + p)
					t.Write(sub(d, "m"), msg)
					pl, err := refSeal(refBoxPub(c.PubRec.Key), randBytes(t.Rng, 32), msg)
					t.must(err, "refSeal")
					t.Write(sub(d, "e"), encFile("c", pl, "\n"))
					for j, v := range append([]string{p}, append(vs, p)...) {
						right := v == p
						os.Remove(sub(d, "s"))
						os.Remove(sub(d, "o"))
						r := t.CLI(o(v), "-S", "-s", "c.sec", "-m", "m", "-x", "s")
						if right && r.Exit != 0 || !right && (r.Exit == 0 || exists(sub(d, "s"))) {
							t.Failf("passphrase %q: signing with %q typed: %v", p, v, r)
						}
						r2 := t.CLI(o(v), "-D", "-s", "c.sec", "-c", "e", "-m", "o")
						ob, _ := os.ReadFile(sub(d, "o"))
						if right && (r2.Exit != 0 || !bytes.Equal(ob, msg)) || !right && (r2.Exit == 0 || len(ob) > 0) {
							t.Failf("passphrase %q: decrypting with %q typed: %v", p, v, r2)
						}
						if right {
							t.checkSigFile(c, c.Sec, t.Read(sub(d, "s")), msg, "typed passphrase")
							t.Obs("right passphrase accepted", 2)
						} else {
							t.Obs("wrong passphrase refused", 2)
						}
						t.Obs("passphrases typed", 2)
						t.Eval("typed", p, v, j)
					}
					if r := t.CLI(o(p), "-S", "-s", "k.sec", "-m", "m", "-x", "s2"); r.Exit != 0 {
						t.Failf("key generated with typed passphrase %q: signing refused: %v", p, r)
					}
					t.checkSigFile(k, k.Sec, t.Read(sub(d, "s2")), msg, "typed passphrase")
					t.Sample("passphrase %.40q typed, %d near misses", p, len(vs))
				}})
			}
			for i := 0; i < cfg.pick(16, 100); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("stored/%d", i), Fn: func(t *T) {
					d := t.Dir()
					p := randBytes(t.Rng, 1+t.Rng.Intn(90))
					rounds := 1 + i%5
					base := sub(d, "k")
					k := t.GenKey(base, p, rounds)
					t.storedMasked(k, rounds)
					// second key under the same passphrase: other salt, other mask
					k2 := t.GenKey(base+"2", p, rounds)
					if bytes.Equal(k.Rec.Salt, k2.Rec.Salt) {
						t.Failf("two keys with the same salt %x", k.Rec.Salt)
					}
					t.Eval("stored", k.Rec.encode())
				}})
			}
			return cs
		},
	})
}

// storedMasked checks that the stored key is masked by exactly the promised KDF output.
func (t *T) storedMasked(k *KeyPair, rounds int) {
	if int(k.Rec.Rounds) != rounds {
		t.Failf("stored rounds %d, requested %d", k.Rec.Rounds, rounds)
	}
	if !bytes.Equal(ed25519.NewKeyFromSeed(k.Clear[:32]), k.Clear) {
		t.Failf("the stored key is not masked with bcrypt_pbkdf(passphrase, salt, %d): unmasking gives no consistent key", rounds)
	}
	raw := k.Rec.encode()
	for i := 0; i+6 <= 64; i++ {
		if bytes.Contains(raw, k.Clear[i:i+6]) {
			t.Failf("protected key file contains clear key bytes %d-%d", i, i+5)
		}
	}
	t.Obs("stored keys unmasked", 1)
}

func (t *T) loadedHistory(priv *signify.Private, p []byte, good func([]byte) bool, i int) {
	if !priv.IsEncrypted() {
		t.Failf("IsEncrypted() is false for a protected key")
	}
	if priv.Check() == nil {
		t.Failf("Check() accepts a locked key")
	}
	unlocked := false
	hist := ""
	steps := 3 + t.Rng.Intn(8)
	for s := 0; s < steps; s++ {
		right := t.Rng.Intn(3) == 0 || s == steps-1
		pass := p
		if !right {
			switch t.Rng.Intn(4) {
			case 0:
				pass = flip(p, t.Rng.Intn(len(p)*8))
			case 1:
				pass = append(append([]byte(nil), p...), 'x')
			case 2:
				pass = []byte("utterly wrong")
			case 3:
				pass = nil
			}
		}
		hist += map[bool]string{true: "R", false: "w"}[right]
		t.Pass(pass)
		got, err := priv.ToBox()
		if !unlocked && t.Prompts() == 0 {
			t.Failf("history %s: locked key converted without asking", hist)
		}
		if unlocked || right {
			if err != nil {
				t.Failf("history %s (R right, w wrong passphrase): conversion failed: %v", hist, err)
			}
			if !good(got[:]) {
				t.Failf("history %s: conversion returned a wrong key", hist)
			}
			if !unlocked && strings.Contains(hist, "w") {
				t.Obs("recoveries after refusal", 1)
			}
			unlocked = true
			t.Obs("right passphrase accepted", 1)
		} else {
			if err == nil {
				t.Failf("history %s: conversion accepted a wrong passphrase", hist)
			}
			if priv.Check() == nil {
				t.Failf("history %s: Check() passes after a refused passphrase", hist)
			}
			t.Obs("wrong passphrase refused", 1)
		}
		t.Eval("loaded", i, s, pass)
	}
	t.Sample("attempt history %s on one loaded key", hist)
}
