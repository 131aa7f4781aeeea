package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
)

// A snapshot describes every file of a tree: kind, mode, owner, inode, link
// count, modification and change time, content or link target.
type snapshot map[string]string

func (t *T) snap(root string) snapshot {
	s := snapshot{}
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		st := fi.Sys().(*syscall.Stat_t)
		d := fmt.Sprintf("%v uid=%d ino=%d", fi.Mode(), st.Uid, st.Ino)
		switch {
		case fi.IsDir():
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			d += " -> " + l
		case fi.Mode().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			d += fmt.Sprintf(" nlink=%d size=%d mtime=%d.%09d ctime=%d.%09d sha256=%x", st.Nlink, len(b), st.Mtim.Sec, st.Mtim.Nsec, st.Ctim.Sec, st.Ctim.Nsec, sha256.Sum256(b))
		default:
			d += fmt.Sprintf(" nlink=%d", st.Nlink)
		}
		s[rel] = d
		return nil
	})
	t.must(err, "snapshot")
	t.Obs("files snapshotted", int64(len(s)))
	return s
}

// diff lists the paths that differ, except the allowed ones.
func (s snapshot) diff(o snapshot, allowed ...string) string {
	var out []string
	ok := map[string]bool{}
	for _, a := range allowed {
		ok[a] = true
	}
	for p, d := range s {
		if ok[p] {
			continue
		}
		n, there := o[p]
		if !there {
			out = append(out, fmt.Sprintf("%s deleted (was %s)", p, d))
		} else if n != d {
			out = append(out, fmt.Sprintf("%s changed: %s; before: %s", p, n, d))
		}
	}
	for p, d := range o {
		if _, there := s[p]; !there && !ok[p] {
			out = append(out, fmt.Sprintf("%s created: %s", p, d))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// harmed lists the files of s that are gone or changed in o.
func (s snapshot) harmed(o snapshot) string {
	var out []string
	for p, d := range s {
		if n, there := o[p]; p != "." && (!there || n != d) {
			out = append(out, fmt.Sprintf("%s: was %s, is %s", p, d, n))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// bystanders puts files with names akin to base into dir.
func (t *T) bystanders(dir string, bases ...string) {
	for _, b := range bases {
		for _, f := range []string{"%s.sec.sec", "%s.pub.pub", "%s.pub.sec", "%s.sec.pub", "%s.tmp", "%s.sec.tmp", "%s.pub.tmp", ".%s.tmp", ".%s.sec.swp", "%s.sec.part", "%s.part", "%s.sec.new", "%s.new", "%s.sec.lock", "%s.lock", "%s.sec.bak", "%s.bak",
			"%s.sec~", "%s~", "%s.sec.old", "%s.old", "%s.orig", "%s.sig", "%s.enc", "%s.sec.enc", "%s.sig.sig", "%s.sig.tmp", "%s.enc.tmp", "%s.enc.part", "%s.dec", "%s.out", "%s.txt", "%s.key", "%s.1", "tmp", "sec", ".sec", ".pub", "#%s#"} {
			n := f
			if strings.Contains(f, "%s") {
				n = fmt.Sprintf(f, b)
			}
			p := filepath.Join(dir, n)
			if !exists(p) {
				t.Write(p, []byte("bystander "+n+"\n"))
			}
		}
	}
}

// ---- pair state on disk ----

// pairState judges what a generation, possibly interrupted, left behind: a
// public key file needs the complete matching secret key.
func (t *T) pairState(base string, pass []byte, what string) (pub, sec bool) {
	pb, perr := os.ReadFile(base + ".pub")
	sb, serr := os.ReadFile(base + ".sec")
	pub, sec = perr == nil, serr == nil
	t.Obs("pair states judged", 1)
	if !pub {
		return
	}
	if !sec {
		t.Failf("%s: %d bytes of public key file are left without a secret key file", what, len(pb))
	}
	_, rec, err := strictDataFile(sb)
	var s *secRec
	if err == nil {
		s, err = parseSec(rec)
	}
	if err != nil {
		t.Failf("%s: a public key file (%d bytes) is left with an incomplete secret key file: %v: %q", what, len(pb), err, sb)
	}
	clear, err := s.clear(pass)
	if err != nil {
		t.Failf("%s: a public key file is left with an unusable secret key: %v", what, err)
	}
	_, rec, err = strictDataFile(pb)
	if err != nil {
		t.Obs("partial public key with complete secret key", 1)
		return
	}
	p, err := parsePub(rec)
	if err != nil {
		t.Failf("%s: malformed public key: %v", what, err)
	}
	if !bytes.Equal(p.Key, clear[32:]) || !bytes.Equal(p.KeyNum, s.KeyNum) {
		t.Failf("%s: the public key file does not match the secret key file", what)
	}
	t.Obs("complete pairs", 1)
	return
}

// ---- secrets ----

// leakScanner finds a secret, or any w-byte window of it, in raw, hex or
// base64 form.
type leakScanner struct {
	pats map[string]string
}

func (l *leakScanner) add(what string, secret []byte, w int) {
	if l.pats == nil {
		l.pats = map[string]string{}
	}
	if len(secret) < 8 {
		return
	}
	if w > len(secret) {
		w = len(secret)
	}
	for i := 0; i+w <= len(secret); i++ {
		win := secret[i : i+w]
		l.pats[string(win)] = what + " (raw)"
		h := hex.EncodeToString(win)
		l.pats[h] = what + " (hex)"
		l.pats[strings.ToUpper(h)] = what + " (hex)"
		for pad := 0; pad < 3; pad++ {
			for _, enc := range []*base64.Encoding{base64.StdEncoding, base64.URLEncoding} {
				e := enc.EncodeToString(append(make([]byte, pad), win...))
				// drop the characters that depend on the neighbours
				from := (pad*8 + 5) / 6
				to := (pad*8 + w*8) / 6
				l.pats[e[from:to]] = what + " (base64)"
			}
		}
		// %v of a byte slice
		var sb strings.Builder
		for _, b := range win {
			fmt.Fprintf(&sb, "%d ", b)
		}
		l.pats[strings.TrimSpace(sb.String())] = what + " (decimal)"
		sb.Reset()
		for _, b := range win {
			fmt.Fprintf(&sb, "%#x, ", b)
		}
		l.pats[strings.TrimSuffix(sb.String(), ", ")] = what + " (Go syntax)"
	}
}

func (l *leakScanner) find(data []byte) string {
	if len(data) == 0 {
		return ""
	}
	bare := bytes.ReplaceAll(bytes.ReplaceAll(data, []byte("\n"), nil), []byte("\r"), nil)
	for p, what := range l.pats {
		if bytes.Contains(data, []byte(p)) || len(bare) != len(data) && bytes.Contains(bare, []byte(p)) {
			return what
		}
	}
	return ""
}
