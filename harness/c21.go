package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/kisom/psignify/base64"
	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
)

// shared is what the goroutines of one case have in common. They only read it.
type shared struct {
	d        string
	pass     []byte // of keys generated
	opts     signify.GenerateOptions
	plain    *KeyPair
	prot     *KeyPair
	other    *KeyPair
	msgs     [][]byte
	msgPath  []string
	sigPath  []string // by plain
	encPath  []string // for plain
	encProt  []string // for prot
	pub      *signify.Public
	priv     *signify.Private
	boxPub   []byte
	boxPriv  []byte
	badSig   string
	badEnc   string
	bad      []string // files good for nothing
	wantSigs [][]byte // signatures are deterministic
}

// Concurrent workers must not synchronise with each other through the
// harness, or the race detector would see an order that is not there: results
// stay local until all have finished, and package fmt, which orders its callers
// by a sync.Pool, is left alone.
type step struct {
	kind       string
	start, end time.Duration
}

type actor struct {
	s     *shared
	r     *rand.Rand
	id    int
	dir   string
	steps []step
	bad   string
	secs  [][]byte // seeds generated
	ephs  [][]byte // ephemeral keys seen
	slow  bool
	modes map[string]os.FileMode // of the outputs
	nums  [][]byte               // key numbers generated
}

// rp names a shared file by its absolute or its relative path.
func (a *actor) rp(p string) string {
	if a.r.Intn(2) == 0 {
		return p
	}
	return strings.TrimPrefix(p, filepath.Dir(a.s.d)+"/")
}

func (a *actor) mode(kind, p string) {
	if fi, err := os.Stat(p); err == nil {
		a.modes[kind] |= fi.Mode()
		if a.modes[kind] != fi.Mode() {
			a.failf("%s: the modes of the outputs differ: %v, earlier %v", kind, fi.Mode(), a.modes[kind])
		}
	}
}

var c21Kinds = []string{"sign", "verify", "verify-bad", "seal", "open", "open-bad", "open-prot", "gen", "genpair", "gen-prot", "pub2box", "priv2box", "loadpub", "loadpriv", "check", "encode", "decode", "sign-prot", "fail", "fail2", "loadprot", "gen-default"}

func (a *actor) failf(format string, args ...interface{}) {
	if a.bad == "" {
		a.bad = fmt.Sprintf(format, args...)
	}
}

func (a *actor) do(kind string, n int, t0 time.Time) {
	s := a.s
	i := a.r.Intn(len(s.msgs))
	out := a.dir + "/o" + strconv.Itoa(a.id) + "-" + strconv.Itoa(n)
	st := time.Since(t0)
	rd := func(p string) []byte {
		b, err := os.ReadFile(p)
		if err != nil {
			a.failf("%s: output missing: %v", kind, err)
		}
		return b
	}
	switch kind {
	case "sign", "sign-prot":
		k := s.plain
		if kind == "sign-prot" {
			k = s.prot
		}
		arg, msg := out, a.rp(s.msgPath[i])
		if a.r.Intn(2) == 0 { // the default place
			if err := os.WriteFile(out, s.msgs[i], 0644); err != nil {
				a.failf("%v", err)
			}
			arg, msg, out = "", a.rp(out), out+".sig"
		}
		if err := signify.Sign(a.rp(k.Sec), msg, arg); err != nil {
			a.failf("%s: %v", kind, err)
			break
		}
		a.mode("sign", out)
		_, rec, err := strictDataFile(rd(out))
		if err != nil || !refVerify(k.PubRec.encode(), rec, s.msgs[i]) {
			a.failf("%s: wrong signature (%v)", kind, err)
		}
	case "verify":
		if err := signify.Verify(a.rp(s.plain.Pub), a.rp(s.msgPath[i]), a.rp(s.sigPath[i])); err != nil {
			a.failf("valid signature rejected: %v", err)
		}
	case "verify-bad":
		j := (i + 1) % len(s.msgs)
		if signify.Verify(a.rp(s.plain.Pub), a.rp(s.msgPath[i]), a.rp(s.sigPath[j])) == nil || signify.Verify(a.rp(s.other.Pub), a.rp(s.msgPath[i]), a.rp(s.sigPath[i])) == nil || signify.Verify(a.rp(s.plain.Pub), a.rp(s.msgPath[i]), a.rp(s.badSig)) == nil {
			a.failf("invalid signature accepted")
		}
	case "seal":
		arg, msg := out, a.rp(s.msgPath[i])
		if a.r.Intn(2) == 0 { // the default place
			if err := os.WriteFile(out, s.msgs[i], 0644); err != nil {
				a.failf("%v", err)
			}
			arg, msg, out = "", a.rp(out), out+".enc"
		}
		if err := crypto.Seal(a.rp(s.plain.Pub), msg, arg); err != nil {
			a.failf("seal: %v", err)
			break
		}
		a.mode("seal", out)
		_, pl, err := strictEncFile(rd(out))
		if err == nil {
			var m []byte
			m, err = refOpen(s.boxPriv, pl)
			if err == nil && !bytes.Equal(m, s.msgs[i]) {
				err = fmt.Errorf("another message")
			}
		}
		if err != nil {
			a.failf("seal: wrong output: %v", err)
			break
		}
		a.ephs = append(a.ephs, append([]byte(nil), pl[8:40]...))
	case "open", "open-prot":
		k, e := s.plain, s.encPath[i]
		if kind == "open-prot" {
			k, e = s.prot, s.encProt[i]
		}
		if err := crypto.Open(a.rp(k.Sec), e, out); err != nil {
			a.failf("%s: %v", kind, err)
			break
		}
		a.mode("open", out)
		if b := rd(out); !bytes.Equal(b, s.msgs[i]) {
			a.failf("%s: wrong message: %s", kind, firstDiff(b, s.msgs[i]))
		}
	case "open-bad":
		if crypto.Open(a.rp(s.other.Sec), a.rp(s.encPath[i]), out) == nil || crypto.Open(a.rp(s.plain.Sec), a.rp(s.badEnc), out+"b") == nil {
			a.failf("forged or foreign file opened")
		}
	case "gen", "gen-prot", "gen-default":
		var pass []byte
		opts := &s.opts
		if kind == "gen" {
			opts = nil
		} else {
			pass = s.pass
			if kind == "gen-default" {
				opts = nil
			}
		}
		if err := signify.GenerateKey(out, pass, opts); err != nil {
			a.failf("%s: %v", kind, err)
			break
		}
		_, rec, err := strictDataFile(rd(out + ".sec"))
		var sr *secRec
		var pr *pubRec
		var clear []byte
		if err == nil {
			sr, err = parseSec(rec)
		}
		if err == nil {
			clear, err = sr.clear(pass)
		}
		if err == nil {
			_, rec, err = strictDataFile(rd(out + ".pub"))
		}
		if err == nil {
			pr, err = parsePub(rec)
		}
		if err != nil || !bytes.Equal(clear[32:], pr.Key) || !bytes.Equal(sr.KeyNum, pr.KeyNum) {
			a.failf("%s: inconsistent pair: %v", kind, err)
			break
		}
		a.secs = append(a.secs, clear[:32])
		a.nums = append(a.nums, sr.KeyNum)
		a.mode("sec", out+".sec")
		a.mode("pub", out+".pub")
	case "genpair":
		priv, pub, err := signify.GenerateKeypair(nil, nil)
		if err != nil {
			a.failf("genpair: %v", err)
			break
		}
		x, err1 := priv.ToBox()
		y, err2 := pub.ToBox()
		if err1 != nil || err2 != nil || !bytes.Equal(x25519Base(x[:]), y[:]) {
			a.failf("genpair: inconsistent pair: %v %v", err1, err2)
		} else {
			a.secs = append(a.secs, x[:])
		}
	case "pub2box":
		if b, err := s.pub.ToBox(); err != nil || !bytes.Equal(b[:], s.boxPub) {
			a.failf("conversion of a shared public key: %v", err)
		} else {
			b[0] ^= 0xff // the result belongs to the caller
		}
	case "priv2box":
		if b, err := s.priv.ToBox(); err != nil || !bytes.Equal(b[:], s.boxPriv) {
			a.failf("conversion of a shared secret key: %v", err)
		} else {
			b[3] ^= 0xff
		}
	case "check":
		if err := s.priv.Check(); err != nil || s.priv.IsEncrypted() {
			a.failf("shared secret key: %v", err)
		}
	case "loadpub":
		p, err := signify.LoadPublicKey(a.rp(s.plain.Pub))
		if err != nil {
			a.failf("loadpub: %v", err)
		} else if b, err := p.ToBox(); err != nil || !bytes.Equal(b[:], s.boxPub) {
			a.failf("loadpub: %v", err)
		}
	case "loadpriv":
		p, err := signify.LoadPrivateKey(a.rp(s.plain.Sec))
		if err != nil {
			a.failf("loadpriv: %v", err)
		} else if b, err := p.ToBox(); err != nil || !bytes.Equal(b[:], s.boxPriv) {
			a.failf("loadpriv: %v", err)
		}
	case "loadprot":
		p, err := signify.LoadPrivateKey(s.prot.Sec)
		if err != nil {
			a.failf("loadprot: %v", err)
		} else if b, err := p.ToBox(); err != nil || !bytes.Equal(b[:], refBoxPriv(s.prot.Clear[:32])) {
			a.failf("loadprot: %v", err)
		}
	case "encode":
		var buf bytes.Buffer
		e := base64.NewEncoder(&buf)
		e.Write(s.msgs[i])
		e.Close()
		if strings.ReplaceAll(buf.String(), "\n", "") != strings.ReplaceAll(encBody(s.msgs[i]), "\n", "") {
			a.failf("encode: wrong text")
		}
	case "decode":
		b, err := io.ReadAll(base64.NewDecoder(strings.NewReader(encBody(s.msgs[i]))))
		if err != nil || !bytes.Equal(b, s.msgs[i]) {
			a.failf("decode: %v", err)
		}
	case "fail2": // failures of another kind at every place where one can arise
		for _, bad := range s.bad {
			if a.r.Intn(3) > 0 {
				continue
			}
			bad = a.rp(bad)
			if signify.Sign(bad, s.msgPath[i], out) == nil || signify.Verify(bad, s.msgPath[i], s.sigPath[i]) == nil || signify.Verify(s.plain.Pub, s.msgPath[i], bad) == nil ||
				crypto.Seal(bad, s.msgPath[i], out) == nil || crypto.Open(bad, s.encPath[i], out) == nil || crypto.Open(s.plain.Sec, bad, out) == nil {
				a.failf("an operation on the malformed file %s succeeds", bad)
			}
			if _, err := signify.LoadPublicKey(bad); err == nil && !strings.HasSuffix(bad, "off") {
				a.failf("the malformed file %s loads as a public key", bad)
			}
			p, err := signify.LoadPrivateKey(bad)
			if err == nil {
				if _, err := p.ToBox(); err == nil {
					a.failf("the damaged key %s converts", bad)
				}
				if strings.HasSuffix(bad, "-check") && p.Check() == nil {
					a.failf("the damaged key %s is called right", bad)
				}
			}
			if _, err := io.ReadAll(base64.NewDecoder(strings.NewReader("!!!!"))); err == nil {
				a.failf("malformed base64 decodes")
			}
		}
		noDir := filepath.Join(s.d, "none/x")
		if signify.Sign(s.plain.Sec, s.msgPath[i], noDir) == nil || crypto.Seal(s.plain.Pub, s.msgPath[i], noDir) == nil || crypto.Open(s.plain.Sec, s.encPath[i], noDir) == nil ||
			signify.GenerateKey(noDir, nil, nil) == nil || crypto.Seal(s.plain.Pub, s.msgPath[i], s.msgPath[i]) == nil || signify.Sign(s.plain.Sec, s.msgPath[i], s.msgPath[i]) == nil ||
			crypto.Open(s.plain.Sec, s.encPath[i], s.encPath[i]) == nil || signify.Sign(s.plain.Sec, s.d, out) == nil || crypto.Seal(s.plain.Pub, s.d, out) == nil {
			a.failf("an operation that cannot write its output succeeds")
		}
	case "fail":
		none := filepath.Join(s.d, "none")
		if signify.Sign(none, a.rp(s.msgPath[i]), out) == nil || signify.Sign(a.rp(s.plain.Sec), none, out) == nil || signify.Verify(none, a.rp(s.msgPath[i]), a.rp(s.sigPath[i])) == nil ||
			crypto.Seal(none, a.rp(s.msgPath[i]), out) == nil || crypto.Open(none, a.rp(s.encPath[i]), out) == nil || signify.GenerateKey(s.plain.Sec[:len(s.plain.Sec)-4], nil, nil) == nil {
			a.failf("an operation without its inputs succeeds")
		}
		if _, err := signify.LoadPrivateKey(a.rp(s.plain.Pub)); err == nil {
			a.failf("a public key loads as a secret key")
		}
	}
	a.steps = append(a.steps, step{kind, st, time.Since(t0)})
}

func encBody(b []byte) string {
	f := encFile("x", b, "\n")
	return string(f[bytes.IndexByte(f, '\n')+1:])
}

func newShared(t *T) *shared {
	s := newFiles(t)
	s.load(t)
	return s
}

// newFiles is newShared without loaded keys.
func newFiles(t *T) *shared {
	d := t.Dir()
	s := &shared{d: d, pass: []byte("of new keys"), opts: signify.GenerateOptions{Rounds: 1}}
	s.plain = t.RefKey(sub(d, "plain"), nil, 0)
	s.prot = t.RefKey(sub(d, "prot"), []byte("shared pass"), 1)
	s.other = t.RefKey(sub(d, "other"), nil, 0)
	s.boxPub, s.boxPriv = refBoxPub(s.plain.PubRec.Key), refBoxPriv(s.plain.Clear[:32])
	for i, n := range []int{0, 1, 53, 54, 55, 1000, 16385, 20000, 40000}[:6+t.Rng.Intn(4)] {
		m := content(t.Rng, t.Rng.Intn(8), n)
		s.msgs = append(s.msgs, m)
		s.msgPath = append(s.msgPath, t.Write(sub(d, fmt.Sprint("m", i)), m))
		s.sigPath = append(s.sigPath, t.Write(sub(d, fmt.Sprint("s", i)), dataFile("verify with plain.pub", refSign(s.plain, s.plain.Clear, m))))
		for j, k := range []*KeyPair{s.plain, s.prot} {
			pl, err := refSeal(refBoxPub(k.PubRec.Key), randBytes(t.Rng, 32), m)
			t.must(err, "refSeal")
			p := t.Write(sub(d, fmt.Sprintf("e%d-%d", i, j)), encFile("untrusted comment: x", pl, "\n"))
			if j == 0 {
				s.encPath = append(s.encPath, p)
				if i == 5 {
					s.badEnc = t.Write(sub(d, "badenc"), encFile("untrusted comment: x", flip(pl, 8*100), "\n"))
				}
			} else {
				s.encProt = append(s.encProt, p)
			}
		}
	}
	s.badSig = t.Write(sub(d, "badsig"), dataFile("x", flip(refSign(s.plain, s.plain.Clear, s.msgs[0]), 8*20)))
	sec, pub := t.Read(s.plain.Sec), t.Read(s.plain.Pub)
	for n, b := range map[string][]byte{"empty": nil, "text": []byte("hello\n"), "short": sec[:len(sec)-20], "shortpub": pub[:len(pub)-9], "crlf": bytes.ReplaceAll(pub, []byte("R"), []byte("!")), "rec-check": dataFile("c", flip(s.plain.Rec.encode(), 8*26)),
		"rec-key": dataFile("c", flip(s.plain.Rec.encode(), 8*50)), "alg": dataFile("c", append([]byte("Xx"), s.plain.PubRec.encode()[2:]...)), "kdf": dataFile("c", append([]byte("EdXX"), s.plain.Rec.encode()[4:]...)),
		"off": dataFile("c", (&pubRec{Alg: "Ed", KeyNum: s.plain.PubRec.KeyNum, Key: offCurve(t.Rng)}).encode()), "encshort": encFile("untrusted comment: x", randBytes(t.Rng, 30), "\n"), "encbad": encFile("untrusted comment: x", randBytes(t.Rng, 300), "\n")} {
		s.bad = append(s.bad, t.Write(sub(d, "bad-"+n), b))
	}
	sort.Strings(s.bad)
	return s
}

func (s *shared) load(t *T) {
	var err error
	s.pub, err = signify.LoadPublicKey(s.plain.Pub)
	if err != nil {
		t.Failf("LoadPublicKey: %v", err)
	}
	s.priv, err = signify.LoadPrivateKey(s.plain.Sec)
	if err != nil {
		t.Failf("LoadPrivateKey: %v", err)
	}
}

// storm runs n actors, each doing its own schedule of kinds.
func (t *T) storm(s *shared, n, steps int, schedule func(id, step int, r *rand.Rand) string, procs int) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(procs))
	signify.PassphrasePrompt = func(bool) ([]byte, error) { return []byte("shared pass"), nil } // no locks here
	defer func() { signify.PassphrasePrompt = promptHook }()
	before := t.snap(s.d)
	umask := syscall.Umask(022)
	syscall.Umask(umask)
	common := "" // all outputs in one directory
	if t.Rng.Intn(2) == 0 {
		common = t.Dir()
		t.Obs("storms in a shared directory", 1)
	}
	actors := make([]*actor, n)
	for i := range actors {
		actors[i] = &actor{s: s, r: rand.New(rand.NewSource(t.Rng.Int63())), id: i, dir: t.Dir(), modes: map[string]os.FileMode{}}
		if common != "" {
			actors[i].dir = common
		}
	}
	cwd, err := os.Getwd()
	t.must(err, "getwd")
	t.must(os.Chdir(filepath.Dir(s.d)), "chdir")
	defer os.Chdir(cwd)
	var wg sync.WaitGroup
	start, end := make(chan bool), make(chan bool)
	t0 := time.Now()
	for _, a := range actors {
		wg.Add(1)
		go func(a *actor) {
			<-start
			for k := 0; k < steps && a.bad == ""; k++ {
				a.do(schedule(a.id, k, a.r), k, t0)
				if a.r.Intn(4) == 0 {
					runtime.Gosched()
				}
			}
			wg.Done()
			<-end // the race detector reports nothing about goroutines that have gone
		}(a)
	}
	close(start)
	wg.Wait()
	close(end)
	// alone, and only now: what a process does for the first time is to be
	// done by many at once
	solo := &actor{s: s, r: rand.New(rand.NewSource(t.Rng.Int63())), id: n, dir: t.Dir(), modes: map[string]os.FileMode{}}
	for i, k := range []string{"sign", "seal", "open", "gen"} {
		solo.do(k, i, time.Now())
	}
	if solo.bad != "" {
		t.Failf("alone: %s", solo.bad)
	}
	type iv struct {
		step
		id int
	}
	var all []iv
	seen := map[string]string{}
	for _, a := range actors {
		if a.bad != "" {
			t.Failf("%d goroutines with %d steps each on %d processors; goroutine %d: %s", n, steps, procs, a.id, a.bad)
		}
		for _, st := range a.steps {
			all = append(all, iv{st, a.id})
			t.Obs("operations", 1)
		}
		for k, m := range a.modes {
			if want := solo.modes[k]; m != want {
				t.Failf("%d goroutines; goroutine %d: output (%s) of mode %v, alone it is %v", n, a.id, k, m, want)
			}
			t.Obs("output modes compared", 1)
		}
		for _, b := range append(append(append([][]byte(nil), a.secs...), a.ephs...), a.nums...) {
			if o, dup := seen[string(b)]; dup {
				t.Failf("the random value %x was given to two calls: goroutine %d and %s", b, a.id, o)
			}
			seen[string(b)] = fmt.Sprint("goroutine ", a.id)
			t.Obs("random values compared", 1)
		}
	}
	if string(s.pass) != "of new keys" || s.opts.Rounds != 1 {
		t.Failf("the passphrase or the options shared by generations have become %q and %v", s.pass, s.opts)
	}
	if now := syscall.Umask(umask); now != umask {
		t.Failf("the file creation mask has become %#o", now)
	}
	if now, err := os.Getwd(); err != nil || now != filepath.Dir(s.d) {
		t.Failf("the current directory has become %s (%v)", now, err)
	}
	if d := before.diff(t.snap(s.d)); d != "" {
		t.Failf("the shared files changed:\n%s", d)
	}
	// which kinds of operations really overlapped
	sort.Slice(all, func(i, j int) bool { return all[i].start < all[j].start })
	pairs := map[string]bool{}
	over := 0
	for i := range all {
		for j := i + 1; j < len(all) && all[j].start < all[i].end; j++ {
			if all[i].id == all[j].id {
				continue
			}
			over++
			x, y := all[i].kind, all[j].kind
			if x > y {
				x, y = y, x
			}
			pairs[x+" || "+y] = true
		}
	}
	t.Obs("overlapping operations", int64(over))
	for p := range pairs {
		t.Log("pair", []byte(p))
		t.Eval(p)
	}
	var sig strings.Builder
	for _, x := range all {
		fmt.Fprintf(&sig, "%d%s ", x.id, x.kind)
	}
	t.Eval(sig.String())
	t.Sample("%d goroutines, %d operations, %d overlaps, order of starts: %.160s...", n, len(all), over, sig.String())
}

const raceEnv = "GORACE=log_path={scratch}/race halt_on_error=0 exitcode=0 history_size=4"

func init() {
	quick := []string{"sign", "verify", "verify-bad", "seal", "open", "open-bad", "gen", "genpair", "pub2box", "priv2box", "loadpub", "loadpriv", "check", "encode", "decode", "fail", "fail2"}
	register(&Prop{
		ID:   "C21",
		Rule: "one evaluation = one storm of goroutines that share key files and loaded keys, under the Go race detector, with every result compared with independent code, or one pair of operation kinds seen to overlap; distinct by order of starts or pair",
		Min: map[string]int64{"operations": 4000, "overlapping operations": 4000, "distinct overlapping pairs of kinds": 120, "race detector self-tests": 1, "files snapshotted": 100,
			"random values compared": 200, "first uses by all at once": 20, "first uses of loaded keys": 1000, "operations while a passphrase was asked for": 100},
		Assumptions: []string{"the race detector reports the races that the executed interleavings expose", "a loaded protected key is not shared while it is being unlocked"},
		Env:         []string{raceEnv},
		Cases: func(cfg *Config) []Case {
			var cs []Case
			cs = append(cs, Case{Name: "self-test", Fn: func(t *T) {
				if !raceEnabled {
					t.Inconclusivef("the harness is built without the race detector")
				}
				d := t.Dir()
				// as in the workers, and after a change of directory like theirs
				r := t.Op(cliOpts{Dir: d, Env: []string{strings.Replace(raceEnv, "{scratch}/race", d+"/planted", 1)}}, opSpec{Op: "race"})
				logs, _ := filepath.Glob(d + "/planted.*")
				if r.Exit != 0 || len(logs) != 1 || !bytes.Contains(t.Read(logs[0]), []byte("DATA RACE")) {
					t.Inconclusivef("the race detector does not report a planted race: %v", r)
				}
				t.Obs("race detector self-tests", 1)
				t.Eval("self-test")
			}})
			for i := 0; i < cfg.pick(10, 120); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("mixed/%d", i), Ticks: 200, Fn: func(t *T) {
					t.storm(newShared(t), []int{4, 8, 16, 24}[i%4], []int{40, 25, 16, 12}[i%4], func(id, k int, r *rand.Rand) string {
						if r.Intn(40) == 0 {
							return []string{"open-prot", "sign-prot", "gen-prot", "loadprot"}[r.Intn(4)]
						}
						return quick[r.Intn(len(quick))]
					}, []int{8, 2, 4, 16}[i%4])
				}})
			}
			// while a passphrase is being asked for, everything else goes on
			for i := 0; i < cfg.pick(2, 12); i++ {
				cs = append(cs, Case{Name: fmt.Sprintf("asking/%d", i), Ticks: 400, Fn: func(t *T) {
					s := newShared(t)
					d := t.Dir()
					asked := int32(0)
					var meanwhile func()
					signify.PassphrasePrompt = func(bool) ([]byte, error) {
						if atomic.AddInt32(&asked, 1) == 1 {
							meanwhile()
						}
						return []byte("shared pass"), nil
					}
					defer func() { signify.PassphrasePrompt = promptHook }()
					cwd, err := os.Getwd()
					t.must(err, "getwd")
					t.must(os.Chdir(filepath.Dir(s.d)), "chdir")
					defer os.Chdir(cwd)
					var loaded *signify.Private
					for _, op := range []struct {
						name string
						f    func() error
					}{
						{"signing", func() error { return signify.Sign(s.prot.Sec, s.msgPath[2], filepath.Join(d, "asked.sig")) }},
						{"decrypting", func() error { return crypto.Open(s.prot.Sec, s.encProt[3], filepath.Join(d, "asked.m")) }},
						{"converting", func() error { _, err := loaded.ToBox(); return err }},
					} {
						for _, same := range []bool{false, true} {
							a := &actor{s: s, r: rand.New(rand.NewSource(t.Rng.Int63())), id: 1, dir: t.Dir(), modes: map[string]os.FileMode{}}
							var doing atomic.Value
							doing.Store("")
							meanwhile = func() {
								all := func() {
									for k, kind := range c21Kinds {
										if kind == "gen-default" {
											continue
										}
										doing.Store(kind)
										a.do(kind, k, time.Now())
									}
								}
								if same {
									all()
								} else {
									done := make(chan bool)
									go func() { all(); close(done) }()
									<-done
								}
							}
							atomic.StoreInt32(&asked, 0)
							if op.name == "converting" {
								if loaded, err = signify.LoadPrivateKey(s.prot.Sec); err != nil {
									t.Failf("LoadPrivateKey: %v", err)
								}
							}
							end := make(chan error, 1)
							go func() { end <- op.f() }()
							select {
							case err := <-end:
								if err != nil {
									t.Failf("%s with a protected key, others meanwhile: %v", op.name, err)
								}
							case <-time.After(200 * time.Second):
								t.Failf("while %s asks for a passphrase, %s by another call does not end", op.name, doing.Load())
							}
							if a.bad != "" {
								t.Failf("while %s asks for a passphrase: %s", op.name, a.bad)
							}
							t.Obs("operations while a passphrase was asked for", int64(len(c21Kinds)-1))
							t.Eval("asking", op.name, same)
						}
					}
				}})
			}
			// everybody the same operation at the same moment
			for _, k := range c21Kinds {
				k := k
				for i := 0; i < cfg.pick(1, 6); i++ {
					cs = append(cs, Case{Name: fmt.Sprintf("same/%s/%d", k, i), Ticks: 200, Fn: func(t *T) {
						steps := 30
						switch {
						case k == "gen-default":
							steps = 1
						case strings.Contains(k, "prot"):
							steps = 3
						}
						n := 8
						if k == "gen-default" {
							n = 4
						}
						t.storm(newShared(t), n, steps, func(id, st int, r *rand.Rand) string { return k }, 8)
					}})
				}
			}
			// what a process does for the first time, done by all at once
			for _, k := range c21Kinds {
				k := k
				for i := 0; i < cfg.pick(1, 12); i++ {
					cs = append(cs, Case{Name: fmt.Sprintf("fresh/%s/%d", k, i), Fresh: true, Ticks: 200, Fn: func(t *T) {
						s := newFiles(t)
						if k == "pub2box" || k == "priv2box" || k == "check" {
							s.load(t)
						}
						n, steps := 8, 3
						if k == "gen-default" {
							n, steps = 4, 1
						}
						t.storm(s, n, steps, func(id, st int, r *rand.Rand) string { return k }, 8)
						t.Obs("first uses by all at once", 1)
					}})
				}
			}
			// loaded keys used for the first time by all at once
			for i := 0; i < cfg.pick(2, 16); i++ {
				cs = append(cs, Case{Name: fmt.Sprintf("first/%d", i), Ticks: 200, Fn: func(t *T) {
					s := newFiles(t)
					for round := 0; round < 150; round++ {
						s.load(t)
						actors := make([]*actor, 2+t.Rng.Intn(6))
						var wg sync.WaitGroup
						start, end := make(chan bool), make(chan bool)
						for j := range actors {
							actors[j] = &actor{s: s, r: rand.New(rand.NewSource(t.Rng.Int63())), id: j}
							wg.Add(1)
							go func(a *actor) {
								<-start
								for _, k := range a.r.Perm(3) {
									a.do([]string{"pub2box", "priv2box", "check"}[k], 0, time.Time{})
								}
								wg.Done()
								<-end
							}(actors[j])
						}
						close(start)
						wg.Wait()
						close(end)
						for _, a := range actors {
							if a.bad != "" {
								t.Failf("%d goroutines use freshly loaded keys: %s", len(actors), a.bad)
							}
							t.Obs("first uses of loaded keys", 3)
						}
						t.Eval("first", round, len(actors))
					}
				}})
			}
			// two kinds against each other
			for i := 0; i < cfg.pick(16, 160); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("duel/%d", i), Ticks: 200, Fn: func(t *T) {
					a, b := quick[t.Rng.Intn(len(quick))], quick[t.Rng.Intn(len(quick))]
					t.storm(newShared(t), 6, 20, func(id, st int, r *rand.Rand) string {
						if id%2 == 0 {
							return a
						}
						return b
					}, 2+t.Rng.Intn(8))
				}})
			}
			for i := 0; i < cfg.pick(2, 12); i++ {
				i := i
				cs = append(cs, Case{Name: fmt.Sprintf("commands/%d", i), Ticks: 200, Fn: func(t *T) {
					s := newShared(t)
					before := t.snap(s.d)
					d := t.Dir()
					var wg sync.WaitGroup
					bad := make([]string, 24)
					for j := range bad {
						wg.Add(1)
						go func(j int) {
							defer wg.Done()
							m := j % len(s.msgs)
							out := sub(d, fmt.Sprint("o", j))
							var args []string
							switch j % 5 {
							case 0:
								args = []string{"-S", "-s", s.plain.Sec, "-m", s.msgPath[m], "-x", out}
							case 1:
								args = []string{"-V", "-p", s.plain.Pub, "-m", s.msgPath[m], "-x", s.sigPath[m]}
							case 2:
								args = []string{"-E", "-p", s.plain.Pub, "-m", s.msgPath[m], "-c", out}
							case 3:
								args = []string{"-D", "-s", s.plain.Sec, "-c", s.encPath[m], "-m", out}
							case 4:
								args = []string{"-G", "-n", "-p", out}
							}
							r := t.CLI(cliOpts{Dir: d, Umask: 022}, args...)
							if r.Exit != 0 {
								bad[j] = fmt.Sprintf("%v: %v", args, r)
								return
							}
							b, _ := os.ReadFile(out)
							switch j % 5 {
							case 0:
								_, rec, err := strictDataFile(b)
								if err != nil || !refVerify(s.plain.PubRec.encode(), rec, s.msgs[m]) {
									bad[j] = "wrong signature"
								}
							case 2:
								_, pl, err := strictEncFile(b)
								if err == nil {
									b, err = refOpen(s.boxPriv, pl)
								}
								if err != nil || !bytes.Equal(b, s.msgs[m]) {
									bad[j] = fmt.Sprint("wrong encrypted file: ", err)
								}
							case 3:
								if !bytes.Equal(b, s.msgs[m]) {
									bad[j] = "wrong message"
								}
							}
						}(j)
					}
					wg.Wait()
					for j, b := range bad {
						if b != "" {
							t.Failf("24 commands at once; command %d: %s", j, b)
						}
					}
					if d := before.diff(t.snap(s.d)); d != "" {
						t.Failf("the shared files changed:\n%s", d)
					}
					t.Obs("operations", int64(len(bad)))
					t.Eval("commands", i)
				}})
			}
			return cs
		},
		Offline: func(cfg *Config, recs []Rec) (*Violation, map[string]int64) {
			p := map[string]bool{}
			for _, r := range recs {
				p[r.Data] = true
			}
			return nil, map[string]int64{"distinct overlapping pairs of kinds": int64(len(p))}
		},
		Post: func(cfg *Config) (*Violation, map[string]int64) {
			logs, _ := filepath.Glob(filepath.Join(cfg.Scratch, "race.*"))
			obs := map[string]int64{"race reports": 0}
			var v *Violation
			for _, l := range logs {
				b, _ := os.ReadFile(l)
				n := int64(bytes.Count(b, []byte("WARNING: DATA RACE")))
				obs["race reports"] += n
				if n > 0 && v == nil {
					if len(b) > 6000 {
						b = b[:6000]
					}
					v = &Violation{Case: "race report", Key: "race", Detail: string(b)}
				}
			}
			return v, obs
		},
	})
}
