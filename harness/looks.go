package main

import (
	"bytes"
	"math/rand"
)

// How known kinds of files begin and end.
var lookHeads = []string{
	"\xef\xbb\xbf", "\xfe\xff", "\xff\xfe", "\xff\xfe\x00\x00", "\x1f\x8b\x08\x00", "BZh9", "\xfd7zXZ\x00", "\x28\xb5\x2f\xfd", "PK\x03\x04", "%PDF-1.4\n", "\x7fELF\x02\x01", "#!/bin/sh\n", "#", "//", "<?xml ?>",
	"-----BEGIN PGP SIGNED MESSAGE-----\nHash: SHA512\n\n", "-----BEGIN PGP MESSAGE-----\n", "-----BEGIN CERTIFICATE-----\n", "- -----", "untrusted comment: ", "untrusted comment: x\n", "untrusted comment: psignify encrypted file\n", "untrusted comment: verify with k.pub\nRW",
	"trusted comment: ", "SHA256 (x) = ", "RWQ", "Ed", "EdBK", "\x00", "\x00\x00\x00\x00\x00\x00\x00\x01", " ", "\t", "\n", "\r", "\r\n", "\v", "\x1a", "\x04", "\x03", "\\", "%", "%s%n", "$HOME", "`", "\"", "'", "-", "--", "@", "\xff\xff", "\xed\xa0\x80", "\xc0\x80",
}

var lookTails = []string{
	"\n", "\r\n", "\r", "\n\n", "\n\r", " ", "\t", " \n", "\x00", "\x00\x00\x00\x00", "\x1a", "\x04", "\xff", "=", "==", "===", "\\", "\\\n", "\n.\n", "\n-- \n", "\n-----END PGP SIGNATURE-----\n", "\x80", "\x80\x00\x00\x00", "\x01", "\x02\x02",
	"\x10\x10\x10\x10\x10\x10\x10\x10\x10\x10\x10\x10\x10\x10\x10\x10", "\xef\xbb\xbf", "\xc3", "\xe2\x80\xa8", "\u00a0", "\u0085", "\nEOF\n", "%", "\"", "\v", "\f",
}

// looks are messages that look like something.
func looks(r *rand.Rand) [][]byte {
	var ms [][]byte
	body := func(n int) []byte { return content(r, r.Intn(8), n) }
	for _, h := range lookHeads {
		ms = append(ms, []byte(h), append([]byte(h), body(1+r.Intn(200))...), append([]byte(h+h), body(r.Intn(50))...))
	}
	for _, e := range lookTails {
		ms = append(ms, []byte(e), append(body(1+r.Intn(200)), e...), append(body(1+r.Intn(50)), e+e...))
	}
	for i := 0; i < 60; i++ {
		h, e := lookHeads[r.Intn(len(lookHeads))], lookTails[r.Intn(len(lookTails))]
		ms = append(ms, append(append([]byte(h), body(r.Intn(1<<uint(r.Intn(16))))...), e...))
	}
	return ms
}

// unlook is the message with what it begins or ends with taken away, or added
// once more.
func unlook(m []byte) [][]byte {
	var ms [][]byte
	for _, h := range lookHeads {
		if bytes.HasPrefix(m, []byte(h)) {
			ms = append(ms, m[len(h):], append([]byte(h), m...))
		}
	}
	for _, e := range lookTails {
		if bytes.HasSuffix(m, []byte(e)) {
			ms = append(ms, m[:len(m)-len(e)], append(append([]byte(nil), m...), e...))
		}
	}
	return ms
}

func head(b []byte) []byte { return b[:min(len(b), 60)] }
