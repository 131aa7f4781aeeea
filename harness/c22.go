package main

import (
	"bytes"
	"crypto/sha512"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/kisom/psignify/base64"
	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
)

// The reference model is stateless: it reads the files as they are before a
// step and says what must come out of it.

type modelPriv struct {
	obj      *signify.Private
	rec      *secRec // as loaded; nil: only known by what it converts to
	unlocked bool
	box      []byte
}

type modelPub struct {
	obj *signify.Public
	rec *pubRec
	box []byte
}

type history struct {
	t     *T
	d     string
	bases []string
	files []string // names in play, apart from key files
	pool  [][]byte // passphrases
	privs []*modelPriv
	pubs  []*modelPub
	log   []string
	nkey  int
}

func (h *history) p(n string) string { return sub(h.d, n) }

func (h *history) failf(format string, args ...interface{}) {
	tail := h.log
	if len(tail) > 40 {
		tail = tail[len(tail)-40:]
	}
	h.t.Failf("%s\nhistory (last %d of %d steps):\n  %s", fmt.Sprintf(format, args...), len(tail), len(h.log), strings.Join(tail, "\n  "))
}

func (h *history) record(path string) []byte {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	_, rec, err := strictDataFile(b)
	if err != nil {
		return nil
	}
	return rec
}

// sec is the secret key in the file, or nil.
func (h *history) sec(path string) *secRec {
	r := h.record(path)
	if r == nil {
		return nil
	}
	s, err := parseSec(r)
	if err != nil || s.Alg != "Ed" || s.Kdf != "BK" {
		return nil
	}
	return s
}

func (h *history) pub(path string) *pubRec {
	r := h.record(path)
	if r == nil {
		return nil
	}
	p, err := parsePub(r)
	if err != nil || p.Alg != "Ed" {
		return nil
	}
	return p
}

// unlock is the clear key, or nil if it cannot be had with that passphrase.
func unlock(s *secRec, pass []byte) []byte {
	c, err := s.clear(pass)
	if err != nil {
		return nil
	}
	d := sha512.Sum512(c)
	if !bytes.Equal(d[:8], s.Check) {
		return nil
	}
	return c
}

func sameInode(a, b string) bool {
	x, err1 := os.Stat(a)
	y, err2 := os.Stat(b)
	return err1 == nil && err2 == nil && os.SameFile(x, y)
}

func (h *history) anyFile() string {
	r := h.t.Rng
	if r.Intn(2) == 0 {
		return h.p(h.files[r.Intn(len(h.files))])
	}
	return h.p(h.bases[r.Intn(len(h.bases))] + []string{".sec", ".pub"}[r.Intn(2)])
}

func (h *history) aSec() string {
	if h.t.Rng.Intn(12) == 0 {
		return h.anyFile()
	}
	return h.p(h.bases[h.t.Rng.Intn(len(h.bases))] + ".sec")
}

func (h *history) aPub() string {
	if h.t.Rng.Intn(12) == 0 {
		return h.anyFile()
	}
	return h.p(h.bases[h.t.Rng.Intn(len(h.bases))] + ".pub")
}

func (h *history) named(prefix string) string {
	if h.t.Rng.Intn(14) == 0 {
		return h.anyFile()
	}
	return h.p(fmt.Sprintf("%s%d", prefix, h.t.Rng.Intn(4)))
}

// secret picks a passphrase, mostly one that fits the key file.
func (h *history) passFor(s *secRec) []byte {
	r := h.t.Rng
	if s != nil && s.Rounds > 0 && r.Intn(3) > 0 {
		for _, p := range h.pool {
			if unlock(s, p) != nil {
				return p
			}
		}
	}
	if r.Intn(6) == 0 {
		return randBytes(r, 1+r.Intn(20))
	}
	return h.pool[r.Intn(len(h.pool))]
}

func (h *history) step() {
	t, r := h.t, h.t.Rng
	before := t.snap(h.d)
	var allow []string
	rel := func(p string) string { x, _ := filepath.Rel(h.d, p); return x }
	note := func(format string, args ...interface{}) {
		h.log = append(h.log, strings.ReplaceAll(fmt.Sprintf(format, args...), h.d+"/", ""))
	}
	verdict := func(what string, ok, want bool, detail interface{}) {
		t.Obs(map[bool]string{true: "successes predicted", false: "failures predicted"}[want], 1)
		h.log[len(h.log)-1] += fmt.Sprintf(" -> %v", ok)
		if ok != want {
			h.failf("%s: the model says success=%v, the code says %v", what, want, detail)
		}
	}
	cli := r.Intn(25) == 0
	runCLI := func(args ...string) (bool, interface{}) {
		res := t.CLI(cliOpts{Dir: h.d, Umask: 022}, args...)
		t.Obs("steps through the command", 1)
		return res.Exit == 0, res
	}
	kind := r.Intn(100)
	switch {
	case kind < 14: // sign
		sec, msg, sig := h.aSec(), h.named("m"), h.named("s")
		s := h.sec(sec)
		pass := h.passFor(s)
		cli = cli && (s == nil || s.Rounds == 0)
		m, merr := os.ReadFile(msg)
		var c []byte
		if s != nil {
			c = unlock(s, pass)
		}
		want := c != nil && merr == nil && !sameInode(sig, sec) && !sameInode(sig, msg)
		note("sign(%s, %s, %s) pass=%x", sec, msg, sig, pass)
		var ok bool
		var detail interface{}
		if cli {
			ok, detail = runCLI("-S", "-s", sec, "-m", msg, "-x", sig)
		} else {
			t.Pass(pass)
			err := signify.Sign(sec, msg, sig)
			ok, detail = err == nil, err
		}
		verdict("sign", ok, want, detail)
		if want {
			allow = append(allow, rel(sig))
			rec := h.record(sig)
			exp := append(append([]byte("Ed"), s.KeyNum...), refSign(&KeyPair{PubRec: &pubRec{}}, c, m)[2:]...)
			if !bytes.Equal(rec, exp) {
				h.failf("sign: signature record %x, want %x", rec, exp)
			}
		}
	case kind < 30: // verify
		pub, msg, sig := h.aPub(), h.named("m"), h.named("s")
		m, merr := os.ReadFile(msg)
		p, sr := h.record(pub), h.record(sig)
		want := merr == nil && p != nil && sr != nil && refVerify(p, sr, m)
		note("verify(%s, %s, %s)", pub, msg, sig)
		var ok bool
		var detail interface{}
		if cli {
			ok, detail = runCLI("-V", "-p", pub, "-m", msg, "-x", sig)
		} else {
			err := signify.Verify(pub, msg, sig)
			ok, detail = err == nil, err
		}
		verdict("verify", ok, want, detail)
	case kind < 40: // seal
		pub, msg, enc := h.aPub(), h.named("m"), h.named("e")
		m, merr := os.ReadFile(msg)
		p := h.pub(pub)
		curve := false
		if p != nil {
			y := append([]byte(nil), p.Key...)
			y[31] &= 127
			curve = onCurve(leToInt(y))
		}
		want := curve && merr == nil && !sameInode(enc, pub) && !sameInode(enc, msg)
		note("seal(%s, %s, %s)", pub, msg, enc)
		if sameInode(enc, pub) || sameInode(enc, msg) || merr != nil || p == nil {
			// nothing may be touched
		} else {
			allow = append(allow, rel(enc))
		}
		var ok bool
		var detail interface{}
		if cli {
			ok, detail = runCLI("-E", "-p", pub, "-m", msg, "-c", enc)
		} else {
			err := crypto.Seal(pub, msg, enc)
			ok, detail = err == nil, err
		}
		verdict("seal", ok, want, detail)
		if want {
			_, pl, err := strictEncFile(t.Read(enc))
			if err != nil || len(pl) != 72+len(m)+16*((len(m)+16384)/16385) {
				h.failf("seal: malformed output (%v), payload of %d bytes for a message of %d", err, len(pl), len(m))
			}
			// open it with whichever known key it was made for
			found := false
			for _, b := range h.bases {
				s := h.sec(h.p(b + ".sec"))
				if s == nil {
					continue
				}
				for _, pp := range h.pool {
					if c := unlock(s, pp); c != nil && bytes.Equal(c[32:], p.Key) && !found {
						got, err := refOpen(refBoxPriv(c[:32]), pl)
						if err != nil || !bytes.Equal(got, m) {
							h.failf("seal: the output does not hold the message: %v", err)
						}
						found = true
						t.Obs("encrypted files opened by the model", 1)
					}
				}
			}
		}
	case kind < 54: // open
		sec, enc, out := h.aSec(), h.named("e"), h.named("o")
		s := h.sec(sec)
		pass := h.passFor(s)
		cli = cli && (s == nil || s.Rounds == 0)
		eb, eerr := os.ReadFile(enc)
		_, pl, perr := strictEncFile(eb)
		var c, m []byte
		if s != nil {
			c = unlock(s, pass)
		}
		want := c != nil && eerr == nil && perr == nil && !sameInode(out, sec) && !sameInode(out, enc)
		if want {
			var err error
			m, err = refOpen(refBoxPriv(c[:32]), pl)
			want = err == nil
		}
		note("open(%s, %s, %s) pass=%x", sec, enc, out, pass)
		if s != nil && eerr == nil && !sameInode(out, sec) && !sameInode(out, enc) {
			allow = append(allow, rel(out))
		}
		var ok bool
		var detail interface{}
		if cli {
			ok, detail = runCLI("-D", "-s", sec, "-c", enc, "-m", out)
		} else {
			t.Pass(pass)
			err := crypto.Open(sec, enc, out)
			ok, detail = err == nil, err
		}
		verdict("open", ok, want, detail)
		if want && !bytes.Equal(t.Read(out), m) {
			h.failf("open: wrong message: %s", firstDiff(t.Read(out), m))
		}
	case kind < 60: // generate
		b := h.bases[r.Intn(len(h.bases))]
		if r.Intn(3) > 0 { // free the name sometimes
			os.Remove(h.p(b + ".sec"))
			os.Remove(h.p(b + ".pub"))
			before = t.snap(h.d)
		}
		var pass []byte
		if r.Intn(3) == 0 {
			pass = h.pool[r.Intn(len(h.pool))]
		}
		cli = cli && pass == nil
		hasS, hasP := exists(h.p(b+".sec")), exists(h.p(b+".pub"))
		want := !hasS && !hasP
		note("generate(%s) pass=%x", b, pass)
		var ok bool
		var detail interface{}
		if cli {
			ok, detail = runCLI("-G", "-n", "-p", h.p(b))
		} else {
			err := signify.GenerateKey(h.p(b), append([]byte(nil), pass...), &signify.GenerateOptions{Rounds: 1})
			ok, detail = err == nil, err
		}
		verdict("generate", ok, want, detail)
		if !hasS {
			allow = append(allow, b+".sec")
		}
		if want {
			allow = append(allow, b+".pub")
			s, p := h.sec(h.p(b+".sec")), h.pub(h.p(b+".pub"))
			if s == nil || p == nil {
				h.failf("generate: malformed pair")
			}
			c := unlock(s, pass)
			if c == nil || !bytes.Equal(c[32:], p.Key) || !bytes.Equal(s.KeyNum, p.KeyNum) || (s.Rounds > 0) != (len(pass) > 0) {
				h.failf("generate: inconsistent pair")
			}
		}
	case kind < 66: // load objects
		if r.Intn(2) == 0 {
			sec := h.aSec()
			s := h.sec(sec)
			note("load secret %s", sec)
			o, err := signify.LoadPrivateKey(sec)
			verdict("load secret", err == nil, s != nil, err)
			if err == nil {
				h.privs = append(h.privs, &modelPriv{obj: o, rec: s})
			}
		} else {
			pub := h.aPub()
			p := h.pub(pub)
			note("load public %s", pub)
			o, err := signify.LoadPublicKey(pub)
			verdict("load public", err == nil, p != nil, err)
			if err == nil {
				h.pubs = append(h.pubs, &modelPub{obj: o, rec: p})
			}
		}
		if r.Intn(6) == 0 {
			a, b, err := signify.GenerateKeypair(nil, nil)
			if err != nil {
				h.failf("GenerateKeypair: %v", err)
			}
			h.privs = append(h.privs, &modelPriv{obj: a})
			h.pubs = append(h.pubs, &modelPub{obj: b})
		}
		if len(h.privs) > 6 {
			h.privs = h.privs[1:]
		}
		if len(h.pubs) > 6 {
			h.pubs = h.pubs[1:]
		}
	case kind < 80: // use objects
		if len(h.privs) > 0 && r.Intn(3) > 0 {
			i := r.Intn(len(h.privs))
			x := h.privs[i]
			if x.rec == nil {
				note("convert generated secret object %d", i)
				b, err := x.obj.ToBox()
				verdict("convert", err == nil, true, err)
				if x.box != nil && !bytes.Equal(x.box, b[:]) {
					h.failf("a secret key object converts to %x, earlier to %x", b[:], x.box)
				}
				x.box = append([]byte(nil), b[:]...)
				b[7] ^= 1
				break
			}
			if r.Intn(4) == 0 {
				note("check secret object %d", i)
				enc := x.obj.IsEncrypted()
				if enc != (x.rec.Rounds > 0) {
					h.failf("IsEncrypted() = %v for a key with %d rounds", enc, x.rec.Rounds)
				}
				if x.rec.Rounds == 0 {
					err := x.obj.Check()
					verdict("check", err == nil, unlock(x.rec, nil) != nil, err)
				}
				break
			}
			pass := h.passFor(x.rec)
			c := unlock(x.rec, pass)
			want := c != nil || x.unlocked
			note("convert secret object %d pass=%x unlocked=%v", i, pass, x.unlocked)
			t.Pass(pass)
			b, err := x.obj.ToBox()
			verdict("convert", err == nil, want, err)
			if err == nil {
				if c != nil {
					x.box = refBoxPriv(c[:32])
				}
				if !bytes.Equal(b[:], x.box) {
					h.failf("a secret key object converts to %x, want %x", b[:], x.box)
				}
				x.unlocked = x.unlocked || x.rec.Rounds > 0
				for j := range b {
					b[j] = 0x77
				}
			}
		} else if len(h.pubs) > 0 {
			i := r.Intn(len(h.pubs))
			x := h.pubs[i]
			note("convert public object %d", i)
			b, err := x.obj.ToBox()
			if x.rec == nil {
				verdict("convert", err == nil, true, err)
			} else {
				y := append([]byte(nil), x.rec.Key...)
				y[31] &= 127
				on := onCurve(leToInt(y))
				verdict("convert", err == nil, on, err)
				if on {
					x.box = refBoxPub(x.rec.Key)
				}
			}
			if err == nil {
				if x.box != nil && !bytes.Equal(b[:], x.box) {
					h.failf("a public key object converts to %x, want %x", b[:], x.box)
				}
				x.box = append([]byte(nil), b[:]...)
				b[0] ^= 1
			}
		} else {
			note("idle")
		}
	default: // edit the files
		h.edit(note)
		t.Obs("edits", 1)
		return
	}
	for _, a := range append([]string(nil), allow...) { // other names of the output
		for n := range before {
			if n != "." && n != a && sameInode(h.p(n), h.p(a)) {
				allow = append(allow, n)
			}
		}
	}
	if d := before.diff(t.snap(h.d), allow...); d != "" {
		h.failf("the step changed other files:\n%s", d)
	}
	t.Obs("steps judged", 1)
}

// notKeyLike are the classes of content that no reader of key files may take
// for one: how much text a key file may have around its record is C06's
// business, the model here reads the strict form only.
var notKeyLike = []int{0, 1, 2, 3, 4, 6, 7}

// edit changes the files behind the code's back.
func (h *history) edit(note func(string, ...interface{})) {
	t, r := h.t, h.t.Rng
	keep := func(path string, f func()) { // same size, same times, same inode if possible
		fi, err := os.Stat(path)
		f()
		if err == nil {
			os.Chtimes(path, time.Unix(0, 1), fi.ModTime())
		}
	}
	switch r.Intn(10) {
	case 0, 1:
		m := fmt.Sprintf("m%d", r.Intn(4))
		n := []int{0, 1, 20, 1000, 16385, 16386, 33000}[r.Intn(7)]
		note("new message %s of %d bytes", m, n)
		t.Write(h.p(m), content(r, notKeyLike[r.Intn(len(notKeyLike))], n))
	case 2:
		m := h.p(fmt.Sprintf("m%d", r.Intn(4)))
		if b, err := os.ReadFile(m); err == nil && len(b) > 0 && !bytes.HasPrefix(b, []byte("untrusted")) {
			// (what becomes of a key file with a damaged text form is C06's business)
			note("flip a bit of %s, keeping size and time", m)
			keep(m, func() { t.Write(m, flip(b, r.Intn(len(b)*8))) })
		} else {
			note("idle")
		}
	case 3:
		f := h.anyFile()
		note("delete %s", f)
		os.Remove(f)
	case 4: // another key under an old name
		b := h.bases[r.Intn(len(h.bases))]
		rounds := uint32(r.Intn(2))
		pass := h.pool[r.Intn(len(h.pool))]
		note("other key pair under %s, rounds %d pass=%x", b, rounds, pass)
		fi, err := os.Stat(h.p(b + ".sec"))
		k := t.RefKey(h.p(b), pass, rounds)
		if r.Intn(2) == 0 { // key numbers may repeat
			t.renumber(k, []byte("samenumb"))
		}
		if err == nil {
			os.Chtimes(h.p(b+".sec"), fi.ModTime(), fi.ModTime())
			os.Chtimes(h.p(b+".pub"), fi.ModTime(), fi.ModTime())
		}
	case 5: // swap
		a, b := h.bases[r.Intn(len(h.bases))], h.bases[r.Intn(len(h.bases))]
		ext := []string{".sec", ".pub"}[r.Intn(2)]
		note("swap %s%s and %s%s", a, ext, b, ext)
		os.Rename(h.p(a+ext), h.p("tmp"))
		os.Rename(h.p(b+ext), h.p(a+ext))
		os.Rename(h.p("tmp"), h.p(b+ext))
	case 6: // copy any file over any other
		a, b := h.anyFile(), h.anyFile()
		note("copy %s over %s", a, b)
		if c, err := os.ReadFile(a); err == nil {
			keep(b, func() { t.Write(b, c) })
		}
	case 7: // damage a record
		f := h.anyFile()
		if rec := h.record(f); rec != nil {
			bit := r.Intn(len(rec) * 8)
			if len(rec) == secLen && bit >= 32 && bit < 64 { // not the round count
				bit = 8*40 + r.Intn(8*64)
			}
			note("flip bit %d of the record in %s", bit, f)
			keep(f, func() { t.Write(f, dataFile("edited", flip(rec, bit))) })
		} else if b, err := os.ReadFile(f); err == nil {
			if _, pl, err := strictEncFile(b); err == nil && len(pl) >= 72 {
				// flip or cut the payload
				if r.Intn(2) == 0 {
					pl = flip(pl, 64+r.Intn(len(pl)*8-64))
					note("flip a bit of the payload of %s", f)
				} else {
					pl = pl[:len(pl)-1-r.Intn(len(pl)-1)]
					note("cut the payload of %s to %d bytes", f, len(pl))
				}
				keep(f, func() { t.Write(f, encFile("untrusted comment: edited", pl, "\n")) })
			} else {
				note("idle")
			}
		} else {
			note("idle")
		}
	case 8: // foreign signature or encrypted file
		b := h.bases[r.Intn(len(h.bases))]
		m, err := os.ReadFile(h.p(fmt.Sprintf("m%d", r.Intn(4))))
		p := h.pub(h.p(b + ".pub"))
		s := h.sec(h.p(b + ".sec"))
		if err != nil || p == nil || s == nil {
			note("idle")
			break
		}
		i := r.Intn(4)
		if r.Intn(2) == 0 {
			for _, pp := range h.pool {
				if c := unlock(s, pp); c != nil {
					note("signature of %s put into s%d", b, i)
					t.Write(h.p(fmt.Sprint("s", i)), dataFile("by the model", refSign(&KeyPair{PubRec: p}, c, m)))
					return
				}
			}
			note("idle")
		} else {
			y := append([]byte(nil), p.Key...)
			y[31] &= 127
			if !onCurve(leToInt(y)) {
				note("idle")
				break
			}
			pl, err := refSeal(refBoxPub(p.Key), randBytes(r, 32), m)
			if err != nil {
				note("idle")
				break
			}
			note("encrypted file for %s put into e%d", b, i)
			t.Write(h.p(fmt.Sprint("e", i)), encFile("untrusted comment: by the model", pl, "\n"))
		}
	case 9: // links
		a, b := h.anyFile(), h.p(fmt.Sprintf("%s%d", []string{"s", "e", "o"}[r.Intn(3)], r.Intn(4)))
		if a != b && exists(a) {
			os.Remove(b)
			note("make %s a hard link to %s", b, a)
			os.Link(a, b)
		} else {
			note("idle")
		}
	}
}

// renumber gives the pair another key number.
func (t *T) renumber(k *KeyPair, num []byte) {
	k.Rec.KeyNum, k.PubRec.KeyNum = num, num
	t.Write(k.Sec, dataFile("signify secret key", k.Rec.encode()))
	t.Write(k.Pub, dataFile("signify public key", k.PubRec.encode()))
}

// longRuns are histories of one kind, too monotonous for the random ones.
func longRuns(cfg *Config) []Case {
	var cs []Case
	pass := []byte("the passphrase")
	// a long run of one failure, then success
	fails := []string{"wrong passphrase, sign", "wrong passphrase, open", "wrong passphrase, convert", "bad signature", "missing key", "missing message", "malformed key", "forged file", "foreign file", "output is a directory", "existing key", "prompt error",
		"empty passphrase", "off-curve key", "invalid rounds", "malformed base64", "loading a public key as secret", "damaged unprotected key"}
	for _, f := range fails {
		f := f
		cs = append(cs, Case{Name: "long-run/" + f, Ticks: 600, Fn: func(t *T) {
			x := newTree(t, pass)
			u := t.RefKey(sub(x.d, "keys/u"), nil, 0)
			obj, err := signify.LoadPrivateKey(x.k.Sec)
			if err != nil {
				t.Failf("LoadPrivateKey: %v", err)
			}
			t.Write(sub(x.d, "forged"), encFile("c", flip(mustPayload(t, t.Read(sub(x.d, "enc"))), 8*60), "\n"))
			pl, err := refSeal(refBoxPub(u.PubRec.Key), randBytes(t.Rng, 32), x.msg)
			t.must(err, "refSeal")
			t.Write(sub(x.d, "foreign"), encFile("c", pl, "\n"))
			t.Write(sub(x.d, "off"), dataFile("c", (&pubRec{Alg: "Ed", KeyNum: u.PubRec.KeyNum, Key: offCurve(t.Rng)}).encode()))
			t.Write(sub(x.d, "damaged"), dataFile("c", flip(u.Rec.encode(), 8*26)))
			dobj, err := signify.LoadPrivateKey(sub(x.d, "damaged"))
			if err != nil {
				t.Failf("LoadPrivateKey of a damaged key: %v", err)
			}
			n := cfg.pick(130, 700)
			if !strings.Contains(f, "passphrase") {
				n = cfg.pick(600, 6000)
			}
			for i := 0; i < n; i++ {
				var err error
				t.Pass(pass)
				out := sub(x.d, "out")
				switch f {
				case "wrong passphrase, sign":
					t.Pass([]byte(fmt.Sprint("guess", i)))
					err = signify.Sign(x.k.Sec, sub(x.d, "msg"), out)
				case "wrong passphrase, open":
					t.Pass([]byte(fmt.Sprint("guess", i)))
					err = crypto.Open(x.k.Sec, sub(x.d, "enc"), out)
				case "wrong passphrase, convert":
					t.Pass([]byte(fmt.Sprint("guess", i)))
					_, err = obj.ToBox()
				case "empty passphrase":
					t.Pass([]byte{})
					_, err = obj.ToBox()
				case "prompt error":
					t.NoPass()
					err = signify.Sign(x.k.Sec, sub(x.d, "msg"), out)
				case "bad signature":
					err = signify.Verify(u.Pub, sub(x.d, "msg"), sub(x.d, "sig"))
				case "missing key":
					err = signify.Sign(sub(x.d, "none"), sub(x.d, "msg"), out)
				case "missing message":
					err = signify.Sign(u.Sec, sub(x.d, "none"), out)
				case "malformed key":
					_, err = signify.LoadPublicKey(sub(x.d, "msg"))
				case "forged file":
					err = crypto.Open(x.k.Sec, sub(x.d, "forged"), out)
				case "foreign file":
					err = crypto.Open(x.k.Sec, sub(x.d, "foreign"), out)
				case "output is a directory":
					err = crypto.Seal(u.Pub, sub(x.d, "msg"), sub(x.d, "home"))
				case "existing key":
					err = signify.GenerateKey(sub(x.d, "keys/u"), nil, nil)
				case "off-curve key":
					err = crypto.Seal(sub(x.d, "off"), sub(x.d, "msg"), out)
				case "invalid rounds":
					_, _, err = signify.GenerateKeypair([]byte("x"), &signify.GenerateOptions{Rounds: -i})
				case "malformed base64":
					_, err = io.ReadAll(base64.NewDecoder(strings.NewReader("AAA!")))
				case "loading a public key as secret":
					_, err = signify.LoadPrivateKey(x.k.Pub)
				case "damaged unprotected key":
					t.Pass([]byte("x"))
					if dobj.IsEncrypted() {
						t.Failf("after %d failures, a damaged unprotected key object counts as protected", i)
					}
					if dobj.Check() == nil {
						t.Failf("after %d failures, a damaged key object passes its check", i)
					}
					_, err = dobj.ToBox()
					if t.Prompts() > 0 {
						t.Failf("after %d failures, an unprotected key object asks for a passphrase", i)
					}
				}
				if err == nil {
					t.Failf("%s: attempt %d succeeds", f, i)
				}
				t.Obs("failures predicted", 1)
			}
			t.Pass(pass)
			// everything works as on the first day
			must := func(err error, what string) {
				if err != nil {
					t.Failf("after %d times %q, %s fails: %v", n, f, what, err)
				}
				t.Obs("successes predicted", 1)
			}
			os.Remove(sub(x.d, "out"))
			b, err := obj.ToBox()
			must(err, "conversion")
			if !bytes.Equal(b[:], refBoxPriv(x.k.Clear[:32])) {
				t.Failf("after %d times %q, a conversion gives the wrong key", n, f)
			}
			must(signify.Sign(x.k.Sec, sub(x.d, "msg"), sub(x.d, "out1")), "signing")
			_, rec, err := strictDataFile(t.Read(sub(x.d, "out1")))
			if err != nil || !refVerify(x.k.PubRec.encode(), rec, x.msg) {
				t.Failf("after %d times %q, the signature is wrong", n, f)
			}
			must(signify.Verify(x.k.Pub, sub(x.d, "msg"), sub(x.d, "out1")), "verification")
			must(crypto.Seal(x.k.Pub, sub(x.d, "msg"), sub(x.d, "out2")), "encryption")
			must(crypto.Open(x.k.Sec, sub(x.d, "out2"), sub(x.d, "out3")), "decryption")
			if !bytes.Equal(t.Read(sub(x.d, "out3")), x.msg) {
				t.Failf("after %d times %q, the decrypted message is wrong", n, f)
			}
			must(signify.GenerateKey(sub(x.d, "fresh"), append([]byte(nil), pass...), &signify.GenerateOptions{Rounds: 1}), "generation")
			t.pairOK(sub(x.d, "fresh"), pass, 1)
			must(signify.GenerateKey(sub(x.d, "fresh2"), nil, nil), "generation")
			t.pairOK(sub(x.d, "fresh2"), nil, 0)
			t.Obs("long runs of failures", 1)
			t.Eval("long-run", f)
		}})
	}
	// many successes: nothing wears out
	cs = append(cs, Case{Name: "long-run/successes", Ticks: 600, Fn: func(t *T) {
		x := newTree(t, nil)
		pub, err := signify.LoadPublicKey(x.k.Pub)
		t.must(err, "load")
		priv, err := signify.LoadPrivateKey(x.k.Sec)
		t.must(err, "load")
		n := cfg.pick(600, 8000)
		for i := 0; i < n; i++ {
			msg := []byte(fmt.Sprint("message ", i))
			t.Write(sub(x.d, "msg"), msg)
			if err := signify.Sign(x.k.Sec, sub(x.d, "msg"), ""); err != nil {
				t.Failf("signature %d: %v", i, err)
			}
			if err := signify.Verify(x.k.Pub, sub(x.d, "msg"), ""); err != nil {
				t.Failf("verification %d: %v", i, err)
			}
			t.Write(sub(x.d, "msg"), append(msg, '!'))
			if err := signify.Verify(x.k.Pub, sub(x.d, "msg"), ""); err == nil {
				t.Failf("verification %d accepts another message", i)
			}
			if err := crypto.Seal(x.k.Pub, sub(x.d, "msg"), ""); err != nil {
				t.Failf("encryption %d: %v", i, err)
			}
			if err := crypto.Open(x.k.Sec, sub(x.d, "msg.enc"), sub(x.d, "o")); err != nil || !bytes.Equal(t.Read(sub(x.d, "o")), append(msg, '!')) {
				t.Failf("decryption %d: %v", i, err)
			}
			a, err1 := pub.ToBox()
			b, err2 := priv.ToBox()
			if err1 != nil || err2 != nil || !bytes.Equal(a[:], refBoxPub(x.k.PubRec.Key)) || !bytes.Equal(b[:], refBoxPriv(x.k.Clear[:32])) || priv.Check() != nil || priv.IsEncrypted() {
				t.Failf("conversion %d: %v, %v", i, err1, err2)
			}
			p, q, err := signify.GenerateKeypair(nil, nil)
			if err != nil || p.Check() != nil {
				t.Failf("generation %d: %v", i, err)
			}
			c, err1 := p.ToBox()
			d, err2 := q.ToBox()
			if err1 != nil || err2 != nil || !bytes.Equal(x25519Base(c[:]), d[:]) {
				t.Failf("generation %d: inconsistent pair: %v, %v", i, err1, err2)
			}
			t.Obs("successes predicted", 7)
			t.Obs("failures predicted", 1)
		}
		t.Obs("long runs of successes", 1)
		t.Eval("long-run", "successes")
	}})
	// options of one generation do not outlive it
	cs = append(cs, Case{Name: "options", Ticks: 600, Fn: func(t *T) {
		d := t.Dir()
		seq := []int{1, 0, 3, 0, 42, 2, 0, 7, 1, 0, -1, 0, 43, 0} // 0: no options, -1: invalid ones
		for i, rounds := range seq {
			base := sub(d, fmt.Sprint("k", i))
			var o *signify.GenerateOptions
			want := 42
			if rounds != 0 {
				o = &signify.GenerateOptions{Rounds: rounds}
				want = rounds
			}
			given := append([]byte(nil), pass...)
			err := signify.GenerateKey(base, given, o)
			if (err == nil) != (rounds >= 0) {
				t.Failf("generation with rounds %d: %v", rounds, err)
			}
			if !bytes.Equal(given, pass) {
				t.Failf("generation changes the caller's passphrase to %x", given)
			}
			if o != nil && o.Rounds != rounds {
				t.Failf("the caller's options have changed from %d to %d rounds", rounds, o.Rounds)
			}
			if err == nil {
				t.pairOK(base, pass, want)
				t.Obs("successes predicted", 1)
			}
			if i%3 == 2 { // unprotected ones in between, with options that do not matter
				b := base + "u"
				if err := signify.GenerateKey(b, nil, o); err == nil {
					t.pairOK(b, nil, 0)
				}
			}
			t.Eval("options", i)
		}
		t.Obs("option sequences", 1)
	}})
	// a caller may use a passphrase again, and may wipe it afterwards
	cs = append(cs, Case{Name: "passphrases", Ticks: 600, Fn: func(t *T) {
		d := t.Dir()
		for _, n := range []int{1, 2, 8, 32, 71, 72, 73, 200, 5000} {
			room := append(randBytes(t.Rng, n), "the rest of the buffer"...)
			given, whole := room[:n], append([]byte(nil), room...)
			o := &signify.GenerateOptions{Rounds: 1}
			var privs []*signify.Private
			for i := 0; i < 3; i++ {
				base := sub(d, fmt.Sprint("k", n, "-", i))
				if err := signify.GenerateKey(base, given, o); err != nil {
					t.Failf("GenerateKey: %v", err)
				}
				priv, _, err := signify.GenerateKeypair(given, o)
				if err != nil {
					t.Failf("GenerateKeypair: %v", err)
				}
				privs = append(privs, priv)
				if !bytes.Equal(room, whole) || o.Rounds != 1 {
					t.Failf("generation changes the caller's passphrase or options: %x, %v", room, o)
				}
				t.pairOK(base, whole[:n], 1)
				t.Obs("successes predicted", 2)
			}
			for i := range room {
				room[i] = 0
			}
			for _, p := range privs {
				t.Pass(whole[:n])
				if _, err := p.ToBox(); err != nil {
					t.Failf("a generated key does not accept its passphrase after the caller has wiped its copy: %v", err)
				}
			}
			t.Eval("passphrases", n)
		}
	}})
	// pairs that agree in all that might serve as a cache key
	// files that are overwritten faster than the clock of the file system ticks
	cs = append(cs, Case{Name: "rapid", Ticks: 600, Fn: func(t *T) {
		d := t.Dir()
		type set struct {
			k              *KeyPair
			sec, pub       []byte
			msg, sig, seal []byte
		}
		var sets []*set
		num := randBytes(t.Rng, 8)
		for i := 0; i < 2; i++ {
			s, priv := newSec(randBytes(t.Rng, 32), randBytes(t.Rng, 16), num, 0, nil)
			k := &KeyPair{Sec: sub(d, "k.sec"), Pub: sub(d, "k.pub"), Rec: s, PubRec: &pubRec{"Ed", num, priv[32:]}, Clear: priv}
			x := &set{k: k, sec: dataFile("key", s.encode()), pub: dataFile("key", k.PubRec.encode()), msg: content(t.Rng, 0, 300)}
			x.sig = dataFile("sig", refSign(k, priv, x.msg))
			x.seal = encFile(encComment, sealed24(t, k, x.msg), "\n")
			sets = append(sets, x)
		}
		sec, pub, msg, sig, enc := sub(d, "k.sec"), sub(d, "k.pub"), sub(d, "m"), sub(d, "m.sig"), sub(d, "m.enc")
		put := func(path string, b []byte) { // in place, and as fast as can be
			f, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE, 0600)
			if err == nil {
				_, err = f.Write(b)
				f.Close()
			}
			t.must(err, "write")
		}
		var key [2]int
		for i := 0; i < cfg.pick(3000, 60000); i++ {
			q := sets[i%2]
			switch mode := i / 2 % 6; mode {
			case 0, 1:
				put(pub, q.pub)
				p, err := signify.LoadPublicKey(pub)
				if err != nil {
					t.Failf("LoadPublicKey: %v", err)
				}
				if b, err := p.ToBox(); err != nil || !bytes.Equal(b[:], refBoxPub(q.k.PubRec.Key)) {
					t.Failf("public key file overwritten in place (write %d): the key that is loaded is not the one in the file (%v)", i, err)
				}
				key[0]++
			case 2, 3:
				put(sec, q.sec)
				p, err := signify.LoadPrivateKey(sec)
				if err != nil {
					t.Failf("LoadPrivateKey: %v", err)
				}
				if b, err := p.ToBox(); err != nil || !bytes.Equal(b[:], refBoxPriv(q.k.Clear[:32])) {
					t.Failf("secret key file overwritten in place (write %d): the key that is loaded is not the one in the file (%v)", i, err)
				}
				key[1]++
			default:
				put(pub, q.pub)
				put(sec, q.sec)
				put(msg, q.msg)
				put(sig, q.sig)
				if err := signify.Verify(pub, msg, sig); err != nil {
					t.Failf("files overwritten in place (write %d): verification of what they hold now: %v", i, err)
				}
				o := sets[1-i%2]
				for j, w := range []struct {
					path     string
					bad, now []byte
				}{{pub, o.pub, q.pub}, {msg, o.msg, q.msg}, {sig, o.sig, q.sig}} {
					put(w.path, w.bad)
					if signify.Verify(pub, msg, sig) == nil {
						t.Failf("files overwritten in place (write %d, file %d): the verification succeeds as it did before", i, j)
					}
					put(w.path, w.now)
				}
				put(enc, q.seal)
				if err := crypto.Open(sec, enc, sub(d, "o")); err != nil || !bytes.Equal(t.Read(sub(d, "o")), q.msg) {
					t.Failf("files overwritten in place (write %d): decryption gives another message than the files hold now (%v)", i, err)
				}
			}
			t.Obs("rapid steps", 1)
			if i%100 == 0 {
				t.Eval("rapid", i)
			}
		}
		t.Obs("files overwritten rapidly", int64(key[0]+key[1]))
		t.Sample("%d public and %d secret keys loaded from files overwritten in place", key[0], key[1])
	}})
	cs = append(cs, Case{Name: "lookalikes", Ticks: 600, Fn: func(t *T) {
		for v := 0; v < cfg.pick(12, 120); v++ {
			d := t.Dir()
			n := 4
			var ks []*KeyPair
			num, salt := randBytes(t.Rng, 8), randBytes(t.Rng, 16)
			for i := 0; i < n; i++ {
				os.MkdirAll(sub(d, fmt.Sprint(i)), 0755)
				base := sub(d, fmt.Sprintf("%d/k", i)) // same file name, comment, number, salt, size, times
				if v%2 == 1 {
					base = sub(d, fmt.Sprintf("k%d", i))
				}
				rounds := uint32(v / 2 % 2)
				s, priv := newSec(randBytes(t.Rng, 32), salt, num, rounds, pass)
				k := &KeyPair{Sec: base + ".sec", Pub: base + ".pub", Rec: s, PubRec: &pubRec{"Ed", num, priv[32:]}, Clear: priv, Pass: pass}
				t.Write(k.Sec, dataFile("signify secret key", s.encode()))
				t.Write(k.Pub, dataFile("signify public key", k.PubRec.encode()))
				os.Chtimes(k.Sec, time.Unix(1e9, 0), time.Unix(1e9, 0))
				os.Chtimes(k.Pub, time.Unix(1e9, 0), time.Unix(1e9, 0))
				ks = append(ks, k)
			}
			t.Pass(pass)
			pubs, privs := make([]*signify.Public, n), make([]*signify.Private, n)
			load := func(i int) {
				var err error
				pubs[i], err = signify.LoadPublicKey(ks[i].Pub)
				if err == nil {
					privs[i], err = signify.LoadPrivateKey(ks[i].Sec)
				}
				if err != nil {
					t.Failf("loading: %v", err)
				}
			}
			for i := range ks {
				load(i)
			}
			msg := sub(d, "msg")
			t.Write(msg, []byte("the message"))
			for s := 0; s < 40; s++ {
				i, j := t.Rng.Intn(n), t.Rng.Intn(n)
				switch t.Rng.Intn(6) {
				case 0:
					load(i)
				case 1:
					if b, err := pubs[i].ToBox(); err != nil || !bytes.Equal(b[:], refBoxPub(ks[i].PubRec.Key)) {
						t.Failf("public key object %d of several with one key number converts to another key (%v)", i, err)
					}
				case 2:
					if b, err := privs[i].ToBox(); err != nil || !bytes.Equal(b[:], refBoxPriv(ks[i].Clear[:32])) {
						t.Failf("secret key object %d of several with one key number converts to another key (%v)", i, err)
					}
				case 3:
					if err := signify.Sign(ks[i].Sec, msg, sub(d, "sig")); err != nil {
						t.Failf("sign: %v", err)
					}
					if err := signify.Verify(ks[j].Pub, msg, sub(d, "sig")); (err == nil) != (i == j) {
						t.Failf("signature by key %d, checked with key %d of the same number: %v", i, j, err)
					}
				case 4:
					if err := crypto.Seal(ks[i].Pub, msg, sub(d, "enc")); err != nil {
						t.Failf("seal: %v", err)
					}
					if err := crypto.Open(ks[j].Sec, sub(d, "enc"), sub(d, "out")); (err == nil) != (i == j) {
						t.Failf("file for key %d, opened with key %d of the same number: %v", i, j, err)
					}
				case 5: // swap the files of two
					for _, x := range [][2]string{{ks[i].Sec, ks[j].Sec}, {ks[i].Pub, ks[j].Pub}} {
						if i != j {
							os.Rename(x[0], x[0]+".t")
							os.Rename(x[1], x[0])
							os.Rename(x[0]+".t", x[1])
						}
					}
					ks[i].Clear, ks[j].Clear = ks[j].Clear, ks[i].Clear
					ks[i].PubRec, ks[j].PubRec = ks[j].PubRec, ks[i].PubRec
					pubs[i], pubs[j] = pubs[j], pubs[i]
					privs[i], privs[j] = privs[j], privs[i]
				}
				t.Obs("steps judged", 1)
				t.Eval("lookalikes", v, s)
			}
			t.Obs("families of lookalike keys", 1)
			t.dropDirs()
		}
	}})
	return cs
}

func mustPayload(t *T, file []byte) []byte {
	_, pl, err := strictEncFile(file)
	t.must(err, "payload")
	return pl
}

func init() {
	register(&Prop{
		ID: "C22",
		Rule: "one evaluation = one step of a random history of key generations, signings, verifications, encryptions, decryptions, loads, conversions, checks and refusals over shared files and long-lived key objects, with files replaced, damaged, swapped, linked and deleted in between (also keeping size and modification time, also by links, renamed directories and changes of the current directory), " +
			"predicted by a reference model that only sees the present files and the record an object was loaded from; distinct by history prefix",
		Min: map[string]int64{"rapid steps": 2000, "steps judged": 2500, "successes predicted": 900, "failures predicted": 900, "edits": 500, "steps through the command": 60, "encrypted files opened by the model": 50,
			"long runs of failures": 18, "long runs of successes": 1, "option sequences": 1, "families of lookalike keys": 12, "steps after changes that leave no trace": 1000},
		Assumptions: []string{"Check() on a protected key object is not predicted after it has been unlocked", "round counts of stored keys are not edited"},
		Cases: func(cfg *Config) []Case {
			cs := append(longRuns(cfg), staleCases(cfg)...)
			for i := 0; i < cfg.pick(32, 400); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("history/%d", i), Ticks: 900, Fn: func(t *T) {
					h := &history{t: t, d: t.Dir()}
					h.bases = []string{"ka", "kb", "kc"}
					for _, p := range []string{"m", "s", "e", "o"} {
						for j := 0; j < 4; j++ {
							h.files = append(h.files, fmt.Sprint(p, j))
						}
					}
					h.pool = [][]byte{[]byte("first"), []byte("second"), []byte("first "), randBytes(t.Rng, 20)}
					for j, b := range h.bases {
						t.RefKey(h.p(b), h.pool[j], uint32(j%2))
					}
					for j := 0; j < 4; j++ {
						t.Write(h.p(fmt.Sprint("m", j)), content(t.Rng, notKeyLike[t.Rng.Intn(len(notKeyLike))], []int{0, 10, 5000, 20000}[j]))
					}
					for n := 0; n < t.cfg.pick(150, 500); n++ {
						h.step()
						if len(h.log) > 0 {
							t.Eval(i, len(h.log), h.log[len(h.log)-1])
						}
					}
					s := h.log
					if len(s) > 8 {
						s = s[:8]
					}
					t.Sample("%d steps, beginning with: %s", len(h.log), strings.Join(s, "; "))
				}})
			}
			return cs
		},
	})
}
