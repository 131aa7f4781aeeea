package main

// Independent reference implementation of the formats and conversions, used
// as the oracle. It shares no code with psignify: stdlib crypto, math/big and
// the NaCl/bcrypt primitives only.

import (
	"bytes"
	"crypto/ecdh"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"strings"

	"github.com/dchest/bcrypt_pbkdf"
	"golang.org/x/crypto/nacl/secretbox"
	"golang.org/x/crypto/salsa20/salsa"
)

const (
	secLen    = 2 + 2 + 4 + 16 + 8 + 8 + 64
	pubLen    = 2 + 8 + 32
	sigLen    = 2 + 8 + 64
	refChunk  = 16385
	refBox    = refChunk + 16
	refHeader = 72
)

const commentLead = "untrusted comment: "

// strictDataFile parses the two-line file format without any leniency.
func strictDataFile(b []byte) (comment string, rec []byte, err error) {
	lines := strings.Split(string(b), "\n")
	if len(lines) != 3 || lines[2] != "" {
		return "", nil, fmt.Errorf("file does not consist of two newline-terminated lines: %q", b)
	}
	if !strings.HasPrefix(lines[0], commentLead) {
		return "", nil, fmt.Errorf("first line is not an untrusted comment: %q", lines[0])
	}
	rec, err = base64.StdEncoding.Strict().DecodeString(lines[1])
	if err != nil {
		return "", nil, fmt.Errorf("second line is not standard base64: %v", err)
	}
	if strings.ContainsAny(lines[1], "\r\n") {
		return "", nil, errors.New("line break inside base64")
	}
	return lines[0][len(commentLead):], rec, nil
}

func dataFile(comment string, rec []byte) []byte {
	return []byte(commentLead + comment + "\n" + base64.StdEncoding.EncodeToString(rec) + "\n")
}

type secRec struct {
	Alg, Kdf string
	Rounds   uint32
	Salt     []byte
	Check    []byte
	KeyNum   []byte
	Key      []byte
}

func (s *secRec) encode() []byte {
	var b bytes.Buffer
	b.WriteString(s.Alg)
	b.WriteString(s.Kdf)
	var r [4]byte
	binary.BigEndian.PutUint32(r[:], s.Rounds)
	b.Write(r[:])
	b.Write(s.Salt)
	b.Write(s.Check)
	b.Write(s.KeyNum)
	b.Write(s.Key)
	return b.Bytes()
}

func parseSec(rec []byte) (*secRec, error) {
	if len(rec) != secLen {
		return nil, fmt.Errorf("secret key record has %d bytes, want %d", len(rec), secLen)
	}
	return &secRec{string(rec[:2]), string(rec[2:4]), binary.BigEndian.Uint32(rec[4:8]), rec[8:24], rec[24:32], rec[32:40], rec[40:104]}, nil
}

func mask(pass, salt []byte, rounds int) ([]byte, error) {
	return bcrypt_pbkdf.Key(pass, salt, rounds, 64)
}

// clear returns the unmasked 64-byte key.
func (s *secRec) clear(pass []byte) ([]byte, error) {
	k := append([]byte(nil), s.Key...)
	if s.Rounds == 0 {
		return k, nil
	}
	m, err := mask(pass, s.Salt, int(s.Rounds))
	if err != nil {
		return nil, err
	}
	for i := range k {
		k[i] ^= m[i]
	}
	return k, nil
}

// newSec builds a secret key record for seed.
func newSec(seed, salt, keynum []byte, rounds uint32, pass []byte) (*secRec, ed25519.PrivateKey) {
	priv := ed25519.NewKeyFromSeed(seed)
	d := sha512.Sum512(priv)
	s := &secRec{"Ed", "BK", rounds, append([]byte(nil), salt...), append([]byte(nil), d[:8]...), append([]byte(nil), keynum...), append([]byte(nil), priv...)}
	if rounds > 0 {
		m, err := mask(pass, salt, int(rounds))
		if err != nil {
			panic(err)
		}
		for i := range s.Key {
			s.Key[i] ^= m[i]
		}
	}
	return s, priv
}

type pubRec struct {
	Alg    string
	KeyNum []byte
	Key    []byte
}

func (p *pubRec) encode() []byte {
	return append(append([]byte(p.Alg), p.KeyNum...), p.Key...)
}

func parsePub(rec []byte) (*pubRec, error) {
	if len(rec) != pubLen {
		return nil, fmt.Errorf("public key record has %d bytes, want %d", len(rec), pubLen)
	}
	return &pubRec{string(rec[:2]), rec[2:10], rec[10:]}, nil
}

type sigRec struct {
	Alg    string
	KeyNum []byte
	Sig    []byte
}

func (s *sigRec) encode() []byte {
	return append(append([]byte(s.Alg), s.KeyNum...), s.Sig...)
}

func parseSig(rec []byte) (*sigRec, error) {
	if len(rec) != sigLen {
		return nil, fmt.Errorf("signature record has %d bytes, want %d", len(rec), sigLen)
	}
	return &sigRec{string(rec[:2]), rec[2:10], rec[10:]}, nil
}

// refSign makes a signature record without the code under test.
func refSign(k *KeyPair, priv, msg []byte) []byte {
	return (&sigRec{"Ed", k.PubRec.KeyNum, ed25519.Sign(ed25519.PrivateKey(priv), msg)}).encode()
}

// refVerify is the verdict the records and the message determine.
func refVerify(pub, sig, msg []byte) bool {
	p, err := parsePub(pub)
	if err != nil {
		return false
	}
	s, err := parseSig(sig)
	if err != nil {
		return false
	}
	return p.Alg == "Ed" && s.Alg == "Ed" && bytes.Equal(p.KeyNum, s.KeyNum) && ed25519.Verify(p.Key, msg, s.Sig)
}

// ---- Curve25519 ----

var (
	fieldP = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	one    = big.NewInt(1)
	edD    = func() *big.Int {
		d := new(big.Int).ModInverse(big.NewInt(121666), fieldP)
		d.Mul(d, big.NewInt(-121665))
		return d.Mod(d, fieldP)
	}()
)

func leToInt(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func intToLE(x *big.Int) []byte {
	b := make([]byte, 32)
	x.FillBytes(b)
	for i, j := 0, 31; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return b
}

// onCurve tells whether some x satisfies -x^2 + y^2 = 1 + d x^2 y^2.
func onCurve(y *big.Int) bool {
	y2 := new(big.Int).Mul(y, y)
	num := new(big.Int).Sub(y2, one)
	num.Mod(num, fieldP)
	den := new(big.Int).Mul(edD, y2)
	den.Add(den, one).Mod(den, fieldP)
	x2 := den.ModInverse(den, fieldP) // never 0: -1/d is no square
	x2.Mul(x2, num).Mod(x2, fieldP)
	if x2.Sign() == 0 {
		return true
	}
	return big.Jacobi(x2, fieldP) == 1
}

// montU returns (1+y)/(1-y).
func montU(y *big.Int) *big.Int {
	den := new(big.Int).Sub(one, y)
	den.Mod(den, fieldP)
	den.ModInverse(den, fieldP)
	u := new(big.Int).Add(one, y)
	u.Mul(u, den)
	return u.Mod(u, fieldP)
}

// edY returns the y with montU(y) = u, i.e. (u-1)/(u+1).
func edY(u *big.Int) *big.Int {
	den := new(big.Int).Add(u, one)
	den.Mod(den, fieldP)
	if den.Sign() == 0 {
		return nil
	}
	den.ModInverse(den, fieldP)
	y := new(big.Int).Sub(u, one)
	y.Mul(y, den)
	return y.Mod(y, fieldP)
}

func refBoxPub(edpub []byte) []byte {
	b := append([]byte(nil), edpub...)
	b[31] &= 127
	return intToLE(montU(leToInt(b)))
}

func refBoxPriv(seed []byte) []byte {
	d := sha512.Sum512(seed[:32])
	k := d[:32]
	k[0] &= 248
	k[31] &= 127
	k[31] |= 64
	return append([]byte(nil), k...)
}

func x25519(priv, pub []byte) ([]byte, error) {
	sk, err := ecdh.X25519().NewPrivateKey(priv)
	if err != nil {
		return nil, err
	}
	pk, err := ecdh.X25519().NewPublicKey(pub)
	if err != nil {
		return nil, err
	}
	return sk.ECDH(pk)
}

func x25519Base(priv []byte) []byte {
	sk, err := ecdh.X25519().NewPrivateKey(priv)
	if err != nil {
		panic(err)
	}
	return sk.PublicKey().Bytes()
}

func boxShared(priv, pub []byte) ([32]byte, error) {
	var out, in [32]byte
	s, err := x25519(priv, pub)
	if err != nil {
		return out, err
	}
	copy(in[:], s)
	var zero [16]byte
	salsa.HSalsa20(&out, &zero, &in, &salsa.Sigma)
	return out, nil
}

func refNonce(i uint64) *[24]byte {
	var n [24]byte
	binary.BigEndian.PutUint64(n[16:], i)
	return &n
}

func refTag(key [32]byte, m []byte) []byte {
	h := hmac.New(sha512.New, key[:])
	h.Write(m)
	return h.Sum(nil)[:32]
}

// refHeaderFor builds an authenticated header with an arbitrary chunk count.
func refHeaderFor(boxpub, ephPriv []byte, chunks uint64) ([]byte, [32]byte, error) {
	key, err := boxShared(ephPriv, boxpub)
	if err != nil {
		return nil, key, err
	}
	h := make([]byte, 40, 72)
	binary.BigEndian.PutUint64(h, chunks)
	copy(h[8:], x25519Base(ephPriv))
	h = append(h, refTag(key, h)...)
	return h, key, nil
}

func boxSeal(key [32]byte, m []byte, i uint64) []byte {
	return secretbox.Seal(nil, m, refNonce(i), &key)
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

// refSeal builds the binary payload of an encrypted file.
func refSeal(boxpub, ephPriv, msg []byte) ([]byte, error) {
	chunks := (len(msg) + refChunk - 1) / refChunk
	out, key, err := refHeaderFor(boxpub, ephPriv, uint64(chunks))
	if err != nil {
		return nil, err
	}
	for i := 0; i < chunks; i++ {
		end := (i + 1) * refChunk
		if end > len(msg) {
			end = len(msg)
		}
		out = secretbox.Seal(out, msg[i*refChunk:end], refNonce(uint64(i)), &key)
	}
	return out, nil
}

// refOpen strictly decrypts a payload.
func refOpen(boxpriv, payload []byte) ([]byte, error) {
	if len(payload) < refHeader {
		return nil, fmt.Errorf("payload has only %d bytes", len(payload))
	}
	key, err := boxShared(boxpriv, payload[8:40])
	if err != nil {
		return nil, err
	}
	if !hmac.Equal(refTag(key, payload[:40]), payload[40:72]) {
		return nil, errors.New("header tag does not verify")
	}
	chunks := binary.BigEndian.Uint64(payload)
	rest := payload[72:]
	msg := []byte{}
	for i := uint64(0); i < chunks; i++ {
		n := refBox
		if i == chunks-1 {
			n = len(rest)
		}
		if n > len(rest) || n > refBox || n <= 16 {
			return nil, fmt.Errorf("box %d of %d: bad size (%d bytes left)", i, chunks, len(rest))
		}
		out, ok := secretbox.Open(nil, rest[:n], refNonce(i), &key)
		if !ok {
			return nil, fmt.Errorf("box %d of %d does not open under nonce %d", i, chunks, i)
		}
		msg = append(msg, out...)
		rest = rest[n:]
	}
	if len(rest) != 0 {
		return nil, fmt.Errorf("%d bytes after the last box", len(rest))
	}
	return msg, nil
}

// wrap72 renders a payload as an encrypted file.
func encFile(comment string, payload []byte, eol string) []byte {
	var b bytes.Buffer
	b.WriteString(commentLead + comment + eol)
	s := base64.StdEncoding.EncodeToString(payload)
	for len(s) > 72 {
		b.WriteString(s[:72] + eol)
		s = s[72:]
	}
	b.WriteString(s + eol)
	return b.Bytes()
}

// strictWrapped checks the 72-column layout and returns the decoded bytes. A
// single empty last line (from data that fills its lines exactly) is allowed.
func strictWrapped(text string) ([]byte, error) {
	if !strings.HasSuffix(text, "\n") {
		return nil, errors.New("text does not end with a newline")
	}
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	for i, l := range lines {
		if i < len(lines)-1 && len(l) != 72 {
			return nil, fmt.Errorf("line %d of %d has %d characters", i+1, len(lines), len(l))
		}
		if len(l) > 72 {
			return nil, fmt.Errorf("last line has %d characters", len(l))
		}
	}
	s := strings.Join(lines, "")
	if strings.ContainsAny(s, "\r") {
		return nil, errors.New("carriage return in output")
	}
	return base64.StdEncoding.Strict().DecodeString(s)
}

// strictEncFile splits an encrypted file into comment and payload.
func strictEncFile(b []byte) (string, []byte, error) {
	i := bytes.IndexByte(b, '\n')
	if i < 0 || !bytes.HasPrefix(b, []byte(commentLead)) {
		return "", nil, fmt.Errorf("no untrusted comment line at the start: %.60q", b)
	}
	p, err := strictWrapped(string(b[i+1:]))
	return string(b[len(commentLead):i]), p, err
}
