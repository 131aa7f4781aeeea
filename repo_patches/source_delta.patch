From 28bf2f38247336fc0f5de5dd0daa252f41c38864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:19 +0000
Subject: [PATCH 01/24] fix: base64 encoder reports the number of bytes it was
 given

Write counted only complete groups of three bytes, so it returned too
little for most inputs and more than len(p) for some, which breaks the
io.Writer contract (io.Copy fails with a short write).
---
 base64/coding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base64/coding.go b/base64/coding.go
index a309128..1d6f4a1 100644
--- a/base64/coding.go
+++ b/base64/coding.go
@@ -69,8 +69,8 @@ func (w *Encoder) Write(p []byte) (int, error) {
 				}
 				w.line = 0
 			}
-			written += 3
 		}
+		written++
 	}
 
 	return written, nil
-- 
2.43.0


From 850d19002021641c18f6a6bb951fc999dc1d7321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 02/24] fix: base64 decoder obeys the io.Reader contract

Read panicked when the buffer was not a multiple of three bytes, decoded
the wrong bytes when the source returned data together with io.EOF or no
data at all, never returned io.EOF, and failed on CRLF line breaks.
---
 base64/coding.go | 73 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 54 insertions(+), 19 deletions(-)

diff --git a/base64/coding.go b/base64/coding.go
index 1d6f4a1..76e2d2e 100644
--- a/base64/coding.go
+++ b/base64/coding.go
@@ -2,7 +2,9 @@
 package base64
 
 import (
+	"bufio"
 	"encoding/base64"
+	"errors"
 	"io"
 )
 
@@ -78,13 +80,17 @@ func (w *Encoder) Write(p []byte) (int, error) {
 
 // Decoder is a base64 decoder that handles sources with newlines.
 type Decoder struct {
-	r io.Reader
+	r   *bufio.Reader
+	buf [3]byte
+	out []byte // decoded bytes that have not been read yet
+	end bool   // padding has been seen
+	err error
 }
 
 // NewDecoder returns a new Decoder over a Reader.
 func NewDecoder(r io.Reader) io.ReadCloser {
 	return &Decoder{
-		r: r,
+		r: bufio.NewReader(r),
 	}
 }
 
@@ -92,32 +98,61 @@ func (r *Decoder) Close() error {
 	return nil
 }
 
-func (r *Decoder) Read(p []byte) (int, error) {
-	enclen := base64.StdEncoding.EncodedLen(len(p))
-	buf := make([]byte, 0, enclen)
-	c := make([]byte, 1)
-	n := 0
+// fill decodes the next group of four characters.
+func (r *Decoder) fill() error {
+	var group [4]byte
 
-	for {
-		if n == enclen {
-			break
-		}
-
-		_, err := r.r.Read(c)
+	for n := 0; n < len(group); {
+		c, err := r.r.ReadByte()
 		if err != nil {
-			if err == io.EOF {
-				break
+			if err == io.EOF && n > 0 {
+				err = io.ErrUnexpectedEOF
 			}
-			return 0, err
+			return err
 		}
 
-		if c[0] == 0xa {
+		if c == '\n' || c == '\r' {
 			continue
 		}
 
-		buf = append(buf, c[0])
+		if r.end {
+			return errors.New("base64: data after the padding")
+		}
+
+		group[n] = c
 		n++
 	}
 
-	return base64.StdEncoding.Decode(p, buf)
+	n, err := base64.StdEncoding.Decode(r.buf[:], group[:])
+	if err != nil {
+		return err
+	}
+
+	r.out = r.buf[:n]
+	r.end = n < len(r.buf)
+	return nil
+}
+
+func (r *Decoder) Read(p []byte) (int, error) {
+	n := 0
+
+	for n < len(p) {
+		if len(r.out) == 0 && r.err == nil {
+			r.err = r.fill()
+		}
+
+		if len(r.out) == 0 {
+			break
+		}
+
+		c := copy(p[n:], r.out)
+		r.out = r.out[c:]
+		n += c
+	}
+
+	if n == 0 && len(p) > 0 {
+		return 0, r.err
+	}
+
+	return n, nil
 }
-- 
2.43.0


From 101e622d6d5ae09e0cbbc2e45acc71ffad0bbae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 03/24] fix: encrypting an empty message writes a header

The encrypted file of an empty message held only the comment line and
could not be decrypted.
---
 crypto/crypto.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index d476fc0..a2dd0ab 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -51,10 +51,6 @@ func incrementNonce(nonce *[24]byte) error {
 }
 
 func seal(pub *signify.Public, message io.Reader, messageLen int, w io.Writer) error {
-	if messageLen == 0 {
-		return nil
-	}
-
 	var shared [32]byte
 	edpub, err := pub.ToBox()
 	if err != nil {
-- 
2.43.0


From d83b8d4b97949dc1474c9076289e85dd87b9e664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:41 +0000
Subject: [PATCH 04/24] fix: seal and open read complete chunks

A single Read may return less than a chunk without being at the end of
the input, in which case the message was sealed in pieces that cannot be
opened again, or cut off.
---
 crypto/crypto.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index a2dd0ab..00b87a7 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -93,12 +93,16 @@ func seal(pub *signify.Public, message io.Reader, messageLen int, w io.Writer) e
 	chunk := make([]byte, chunkSize)
 	nonce := [24]byte{}
 	for i := 0; i < chunks; i++ {
-		n, err := message.Read(chunk)
+		if left := messageLen - i*chunkSize; left < chunkSize {
+			chunk = chunk[:left]
+		}
+
+		_, err := io.ReadFull(message, chunk)
 		if err != nil {
 			return err
 		}
 
-		out := box.SealAfterPrecomputation(nil, chunk[:n], &nonce, &shared)
+		out := box.SealAfterPrecomputation(nil, chunk, &nonce, &shared)
 		_, err = w.Write(out)
 		if err != nil {
 			return err
@@ -159,11 +163,11 @@ func open(priv *signify.Private, message io.Reader, w io.Writer) error {
 	}
 
 	header := [headerSize]byte{}
-	n, err := message.Read(header[:])
-	if err != nil {
-		return err
-	} else if n != headerSize {
+	n, err := io.ReadFull(message, header[:])
+	if err == io.EOF || err == io.ErrUnexpectedEOF {
 		return fmt.Errorf("signify/crypto: couldn't read the full header (read %d)", n)
+	} else if err != nil {
+		return err
 	}
 
 	chunks := binary.BigEndian.Uint64(header[:8])
@@ -179,8 +183,8 @@ func open(priv *signify.Private, message io.Reader, w io.Writer) error {
 	chunk := make([]byte, sealedChunkSize)
 	nonce := [24]byte{}
 	for i := uint64(0); i < chunks; i++ {
-		n, err := message.Read(chunk)
-		if err != nil {
+		n, err := io.ReadFull(message, chunk)
+		if err != nil && !(err == io.ErrUnexpectedEOF && i == chunks-1) {
 			return err
 		}
 
-- 
2.43.0


From 6adff4667db6dde7f4d45d52edcc58556a7b9ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:42 +0000
Subject: [PATCH 05/24] fix: encrypt messages from pipes completely

The size reported for a pipe is 0, so its contents were silently left
out of the encrypted file.
---
 crypto/crypto.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index 00b87a7..14a5e38 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -1,11 +1,13 @@
 package crypto
 
 import (
+	"bytes"
 	"crypto/rand"
 	"encoding/binary"
 	"errors"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"os"
 
 	"github.com/kisom/psignify/base64"
@@ -136,6 +138,17 @@ func Seal(publicPath, messagePath, encryptedPath string) error {
 	}
 	messageLen := int(fi.Size())
 
+	// The size of anything but a regular file (and of some regular
+	// ones, as in /proc) is only known once it has been read.
+	var r io.Reader = message
+	if !fi.Mode().IsRegular() || messageLen == 0 {
+		data, err := ioutil.ReadAll(message)
+		if err != nil {
+			return err
+		}
+		r, messageLen = bytes.NewReader(data), len(data)
+	}
+
 	if encryptedPath == "" {
 		encryptedPath = messagePath + ".enc"
 	}
@@ -153,7 +166,7 @@ func Seal(publicPath, messagePath, encryptedPath string) error {
 	encoder := base64.NewEncoder(encrypted)
 	defer encoder.Close()
 
-	return seal(pub, message, messageLen, encoder)
+	return seal(pub, r, messageLen, encoder)
 }
 
 func open(priv *signify.Private, message io.Reader, w io.Writer) error {
-- 
2.43.0


From f1bf23df9cae1c14e91bdc13fb57eb84c0c37e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:43 +0000
Subject: [PATCH 06/24] fix: report errors when finishing the output of Seal
 and Open

The encoder writes its last characters when it is closed. Its error, and
that of closing the file, were dropped, so a cut-off file was reported
as success.
---
 crypto/crypto.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index 14a5e38..80a1b99 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -164,9 +164,18 @@ func Seal(publicPath, messagePath, encryptedPath string) error {
 	}
 
 	encoder := base64.NewEncoder(encrypted)
-	defer encoder.Close()
 
-	return seal(pub, r, messageLen, encoder)
+	err = seal(pub, r, messageLen, encoder)
+	if err != nil {
+		return err
+	}
+
+	err = encoder.Close()
+	if err != nil {
+		return err
+	}
+
+	return encrypted.Close()
 }
 
 func open(priv *signify.Private, message io.Reader, w io.Writer) error {
@@ -245,5 +254,10 @@ func Open(privatePath, encryptedPath, messagePath string) error {
 	}
 	defer message.Close()
 
-	return open(priv, decoder, message)
+	err = open(priv, decoder, message)
+	if err != nil {
+		return err
+	}
+
+	return message.Close()
 }
-- 
2.43.0


From 0a46819ff24e5aea438e8910583dfed8eb3667f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 07/24] fix: refuse signature records of the wrong length

Short ones caused a panic, and long ones were accepted with their rest
ignored.
---
 signify/signature.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/signify/signature.go b/signify/signature.go
index 9308cf7..8985f77 100644
--- a/signify/signature.go
+++ b/signify/signature.go
@@ -2,6 +2,7 @@ package signify
 
 import (
 	"bytes"
+	"fmt"
 	"io/ioutil"
 
 	"golang.org/x/crypto/ed25519"
@@ -25,6 +26,10 @@ func (sig *Signature) encode() []byte {
 }
 
 func readSignatureData(data []byte) (*Signature, error) {
+	if len(data) != (keyAlgoLength + keyNumLength + signatureLength) {
+		return nil, fmt.Errorf("signify: invalid signature length %d", len(data))
+	}
+
 	sig := &Signature{}
 	copy(sig.pkAlgo[:], data[:2])
 	copy(sig.keyNum[:], data[2:keyNumLength+2])
-- 
2.43.0


From 924aa47d5fd97050bc6ac128c82f438b92dee984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 08/24] fix: refuse secret key records of the wrong length or
 an unknown kind

Records that were cut short or extended and keys of an unknown algorithm
were used as if they were intact Ed25519 keys.
---
 signify/key.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index 7e49e25..679f7e0 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -134,6 +134,10 @@ func (priv *Private) sign(message []byte) (*Signature, error) {
 }
 
 func readPrivateKeyData(data []byte) (*Private, error) {
+	if len(data) != (keyAlgoLength + kdfAlgoLength + 4 + saltLength + checksumLength + keyNumLength + secretKeyLength) {
+		return nil, fmt.Errorf("signify: invalid private key length %d", len(data))
+	}
+
 	buf := bytes.NewBuffer(data)
 	priv := &Private{}
 
@@ -172,6 +176,14 @@ func readPrivateKeyData(data []byte) (*Private, error) {
 		return nil, err
 	}
 
+	if string(priv.keyAlgo[:]) != "Ed" {
+		return nil, errors.New("signify: unknown key algo " + string(priv.keyAlgo[:]))
+	}
+
+	if string(priv.kdfAlgo[:]) != "BK" {
+		return nil, errors.New("signify: unsupported KDF algorithm " + string(priv.kdfAlgo[:]))
+	}
+
 	return priv, nil
 }
 
-- 
2.43.0


From 95e7d54ff9c7822196df12518269c43b5adf6736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:47 +0000
Subject: [PATCH 09/24] fix: refuse public keys of an unknown algorithm

Verification did, but encryption used such a key as an Ed25519 one.
---
 signify/key.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index 679f7e0..e7ada76 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -364,6 +364,10 @@ func readPublicKeyData(data []byte) (*Public, error) {
 
 	copy(pub.key[:], data[didx:didx+publicKeyLength])
 
+	if string(pub.keyAlgo[:]) != "Ed" {
+		return nil, errors.New("signify: unknown key algo " + string(pub.keyAlgo[:]))
+	}
+
 	return pub, nil
 }
 
-- 
2.43.0


From f86d05ce948d2ad4a28812e1d2e815884ef5e339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 10/24] fix: check unprotected secret keys before using them

The checksum of an unprotected key was not checked when signing, and
when decrypting a mismatch led to a pointless passphrase prompt after
which the damaged key was used.
---
 signify/key.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index e7ada76..a40f2f4 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -229,6 +229,8 @@ func Sign(privatePath, messagePath, signaturePath string) error {
 		if err != nil {
 			return err
 		}
+	} else if err = priv.Check(); err != nil {
+		return err
 	}
 
 	message, err := ioutil.ReadFile(messagePath)
@@ -259,6 +261,10 @@ func Sign(privatePath, messagePath, signaturePath string) error {
 func (priv *Private) ToBox() (*[32]byte, error) {
 	err := priv.Check()
 	if err != nil {
+		if !priv.IsEncrypted() {
+			return nil, err
+		}
+
 		var passphrase []byte
 		passphrase, err = PassphrasePrompt(false)
 		if err != nil {
-- 
2.43.0


From 358a9c7ef6b463a1f0d7da322c9ee00af404ee5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:50 +0000
Subject: [PATCH 11/24] fix: a wrong passphrase leaves a loaded secret key
 intact

The key was overwritten before the check, so the right passphrase was
refused afterwards.
---
 signify/key.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/signify/key.go b/signify/key.go
index a40f2f4..f6b45a6 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -109,15 +109,17 @@ func (priv *Private) decrypt(password []byte) error {
 		return err
 	}
 
-	for i := range priv.key[:] {
-		priv.key[i] ^= xorkey[i]
+	decrypted := *priv
+	for i := range decrypted.key[:] {
+		decrypted.key[i] ^= xorkey[i]
 	}
 
-	err = priv.Check()
+	err = decrypted.Check()
 	if err != nil {
 		return err
 	}
 
+	priv.key = decrypted.key
 	return nil
 }
 
-- 
2.43.0


From 6ad3dcb907050845b3a249ce6bd473e48c117a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 12/24] fix: wipe the passphrase after unlocking a key for
 decryption

---
 signify/key.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/signify/key.go b/signify/key.go
index f6b45a6..ede574f 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -272,6 +272,7 @@ func (priv *Private) ToBox() (*[32]byte, error) {
 		if err != nil {
 			return nil, err
 		}
+		defer zero(&passphrase)
 
 		err = priv.decrypt(passphrase)
 		if err != nil {
-- 
2.43.0


From 36e4fc97dca1fe58844c12ee88e3b20391df41ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:53 +0000
Subject: [PATCH 13/24] fix: key generation does not overwrite existing keys

Generating a key over an existing one destroyed the secret key without
warning, and a failure half-way left half a key pair behind.
---
 signify/common.go | 28 ++++++++++++++++++++++++++--
 signify/key.go    |  6 ++++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/signify/common.go b/signify/common.go
index eb8cbd2..a003c56 100644
--- a/signify/common.go
+++ b/signify/common.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"encoding/base64"
 	"io/ioutil"
+	"os"
 	"strings"
 )
 
@@ -48,7 +49,7 @@ func readDataFileBytes(data []byte) (*dataFile, error) {
 	return dat, nil
 }
 
-func writeDataFile(path, comment string, data []byte) error {
+func encodeDataFile(comment string, data []byte) []byte {
 	encoded := make([]byte, base64.StdEncoding.EncodedLen(len(data)))
 	base64.StdEncoding.Encode(encoded, data)
 	dataFile := &dataFile{
@@ -56,7 +57,30 @@ func writeDataFile(path, comment string, data []byte) error {
 		data:    encoded,
 	}
 
-	return ioutil.WriteFile(path, dataFile.Encode(), 0644)
+	return dataFile.Encode()
+}
+
+func writeDataFile(path, comment string, data []byte) error {
+	return ioutil.WriteFile(path, encodeDataFile(comment, data), 0644)
+}
+
+// createDataFile is like writeDataFile, but the file must not exist yet. If
+// it can't be written completely, it is removed again.
+func createDataFile(path, comment string, data []byte, perm os.FileMode) error {
+	file, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_EXCL, perm)
+	if err != nil {
+		return err
+	}
+
+	_, err = file.Write(encodeDataFile(comment, data))
+	if cerr := file.Close(); err == nil {
+		err = cerr
+	}
+	if err != nil {
+		os.Remove(path)
+	}
+
+	return err
 }
 
 func zero(buf *[]byte) {
diff --git a/signify/key.go b/signify/key.go
index ede574f..fd7967c 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -8,6 +8,7 @@ import (
 	"errors"
 	"fmt"
 	"io/ioutil"
+	"os"
 	"path/filepath"
 	"strings"
 
@@ -498,13 +499,14 @@ func GenerateKey(keyPath string, passphrase []byte, opts *GenerateOptions) error
 		return err
 	}
 
-	err = writeDataFile(keyPath+".sec", "untrusted comment: signify private key", priv.encode())
+	err = createDataFile(keyPath+".sec", "untrusted comment: signify private key", priv.encode(), 0644)
 	if err != nil {
 		return err
 	}
 
-	err = writeDataFile(keyPath+".pub", "untrusted comment: signify public key", pub.encode())
+	err = createDataFile(keyPath+".pub", "untrusted comment: signify public key", pub.encode(), 0644)
 	if err != nil {
+		os.Remove(keyPath + ".sec")
 		return err
 	}
 
-- 
2.43.0


From d80d34abb79cb080e57c0119e90e8093f7484117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 14/24] fix: create secret key files readable by their owner
 only

---
 signify/key.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signify/key.go b/signify/key.go
index fd7967c..e115a8b 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -499,7 +499,7 @@ func GenerateKey(keyPath string, passphrase []byte, opts *GenerateOptions) error
 		return err
 	}
 
-	err = createDataFile(keyPath+".sec", "untrusted comment: signify private key", priv.encode(), 0644)
+	err = createDataFile(keyPath+".sec", "untrusted comment: signify private key", priv.encode(), 0600)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 3f2a64954440733683c47a3f8aaf49f9ab52e9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:55 +0000
Subject: [PATCH 15/24] fix: exit with an error status on unknown flags

The usage function exited with status 0 before the flag package could
exit with its error status.
---
 cmd/psignify/main.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cmd/psignify/main.go b/cmd/psignify/main.go
index 600a919..88fd9a9 100644
--- a/cmd/psignify/main.go
+++ b/cmd/psignify/main.go
@@ -25,7 +25,6 @@ Usage: %s -S -s seckey -m message [-x sigfile]
 func init() {
 	flag.Usage = func() {
 		usage(os.Stdout)
-		os.Exit(0)
 	}
 }
 
-- 
2.43.0


From a5b3d4f135ca396c5e43c820ec5844e94d0aab6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:56 +0000
Subject: [PATCH 16/24] fix: generate the default key pair under its default
 name

Without -p, -G wrote <base>.pub.sec and <base>.pub.pub, which no other
mode finds.
---
 cmd/psignify/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/psignify/main.go b/cmd/psignify/main.go
index 88fd9a9..7b770b3 100644
--- a/cmd/psignify/main.go
+++ b/cmd/psignify/main.go
@@ -76,7 +76,10 @@ func main() {
 	}
 
 	if pubKeyFile == "" && keyBase != "" {
-		pubKeyFile = keyBase + ".pub"
+		pubKeyFile = keyBase
+		if !generate {
+			pubKeyFile += ".pub"
+		}
 	}
 
 	if generate {
-- 
2.43.0


From e6928b5b183e8adec2e037a920031b694974b26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 17/24] fix: refuse round counts that the key file cannot hold

They were cut off to 32 bits, so that a key could end up protected by a
single round instead of the requested number.
---
 signify/key.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index e115a8b..3fe9011 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -8,6 +8,7 @@ import (
 	"errors"
 	"fmt"
 	"io/ioutil"
+	"math"
 	"os"
 	"path/filepath"
 	"strings"
@@ -453,6 +454,8 @@ func GenerateKeypair(passphrase []byte, opts *GenerateOptions) (*Private, *Publi
 
 	if len(passphrase) == 0 {
 		priv.kdfRounds = 0
+	} else if opts.Rounds < 1 || int64(opts.Rounds) > math.MaxUint32 {
+		return nil, nil, fmt.Errorf("signify: invalid number of rounds %d", opts.Rounds)
 	} else {
 		priv.kdfRounds = uint32(opts.Rounds)
 	}
-- 
2.43.0


From 621d674179b7e67c7372f0eb87791465e267bf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 18/24] fix: never overwrite an input file with the output

Naming an input as the output file truncated it, which destroyed the
message, the encrypted file or even the secret key.
---
 crypto/crypto.go  | 23 +++++++++++++++++++++++
 signify/common.go | 15 +++++++++++++++
 signify/key.go    |  4 ++++
 3 files changed, 42 insertions(+)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index 80a1b99..b55d8d3 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -119,6 +119,21 @@ func seal(pub *signify.Public, message io.Reader, messageLen int, w io.Writer) e
 	return nil
 }
 
+// sameFile returns true if both paths lead to the same existing file.
+func sameFile(a, b string) bool {
+	afi, err := os.Stat(a)
+	if err != nil {
+		return false
+	}
+
+	bfi, err := os.Stat(b)
+	if err != nil {
+		return false
+	}
+
+	return os.SameFile(afi, bfi)
+}
+
 // Seal secures a message.
 func Seal(publicPath, messagePath, encryptedPath string) error {
 	pub, err := signify.LoadPublicKey(publicPath)
@@ -153,6 +168,10 @@ func Seal(publicPath, messagePath, encryptedPath string) error {
 		encryptedPath = messagePath + ".enc"
 	}
 
+	if sameFile(encryptedPath, publicPath) || sameFile(encryptedPath, messagePath) {
+		return errors.New("signify/crypto: the encrypted file would overwrite an input file")
+	}
+
 	encrypted, err := os.Create(encryptedPath)
 	if err != nil {
 		return err
@@ -248,6 +267,10 @@ func Open(privatePath, encryptedPath, messagePath string) error {
 
 	decoder := base64.NewDecoder(encrypted)
 
+	if sameFile(messagePath, privatePath) || sameFile(messagePath, encryptedPath) {
+		return errors.New("signify/crypto: the message would overwrite an input file")
+	}
+
 	message, err := os.Create(messagePath)
 	if err != nil {
 		return err
diff --git a/signify/common.go b/signify/common.go
index a003c56..b423dfa 100644
--- a/signify/common.go
+++ b/signify/common.go
@@ -83,6 +83,21 @@ func createDataFile(path, comment string, data []byte, perm os.FileMode) error {
 	return err
 }
 
+// sameFile returns true if both paths lead to the same existing file.
+func sameFile(a, b string) bool {
+	afi, err := os.Stat(a)
+	if err != nil {
+		return false
+	}
+
+	bfi, err := os.Stat(b)
+	if err != nil {
+		return false
+	}
+
+	return os.SameFile(afi, bfi)
+}
+
 func zero(buf *[]byte) {
 	if buf == nil {
 		return
diff --git a/signify/key.go b/signify/key.go
index 3fe9011..82406e6 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -216,6 +216,10 @@ func Sign(privatePath, messagePath, signaturePath string) error {
 		signaturePath = messagePath + ".sig"
 	}
 
+	if sameFile(signaturePath, privatePath) || sameFile(signaturePath, messagePath) {
+		return errors.New("signify: the signature would overwrite an input file")
+	}
+
 	priv, err := LoadPrivateKey(privatePath)
 	if err != nil {
 		return err
-- 
2.43.0


From 22eff3157a87c9d28310303e54cad2a54d8c8d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:25 +0000
Subject: [PATCH 19/24] fix: decrypting asks for the passphrase of every
 protected key

A file marked as protected whose key bytes had been replaced by the
unmasked key was accepted without a passphrase; signing refuses it.
---
 signify/key.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/signify/key.go b/signify/key.go
index 82406e6..1fdb1b6 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -69,6 +69,7 @@ type Private struct {
 	checksum  [checksumLength]uint8
 	keyNum    [keyNumLength]uint8
 	key       [secretKeyLength]uint8
+	decrypted bool // key has been unmasked with the passphrase
 }
 
 func (priv *Private) encode() []byte {
@@ -122,6 +123,7 @@ func (priv *Private) decrypt(password []byte) error {
 	}
 
 	priv.key = decrypted.key
+	priv.decrypted = true
 	return nil
 }
 
@@ -267,14 +269,9 @@ func Sign(privatePath, messagePath, signaturePath string) error {
 
 // ToBox returns a nacl/box private key.
 func (priv *Private) ToBox() (*[32]byte, error) {
-	err := priv.Check()
-	if err != nil {
-		if !priv.IsEncrypted() {
-			return nil, err
-		}
-
+	if priv.IsEncrypted() && !priv.decrypted {
 		var passphrase []byte
-		passphrase, err = PassphrasePrompt(false)
+		passphrase, err := PassphrasePrompt(false)
 		if err != nil {
 			return nil, err
 		}
@@ -284,6 +281,8 @@ func (priv *Private) ToBox() (*[32]byte, error) {
 		if err != nil {
 			return nil, err
 		}
+	} else if err := priv.Check(); err != nil {
+		return nil, err
 	}
 
 	var sboxKey [32]byte
-- 
2.43.0


From e9d8d82e77c7bb519187c6dd58e1e000ab7f5495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 20/24] fix: reading a file with many comment lines takes
 linear time

Every line copied all earlier ones, so that a crafted key or signature
file of a few megabytes kept the program busy with gigabytes of copying.
---
 signify/common.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/signify/common.go b/signify/common.go
index b423dfa..88f79f5 100644
--- a/signify/common.go
+++ b/signify/common.go
@@ -26,6 +26,7 @@ func (dataFile *dataFile) Encode() []byte {
 
 func readDataFileBytes(data []byte) (*dataFile, error) {
 	var line string
+	var comment strings.Builder
 
 	dat := &dataFile{}
 	buf := bytes.NewBuffer(data)
@@ -34,12 +35,14 @@ func readDataFileBytes(data []byte) (*dataFile, error) {
 		line = scanner.Text()
 		// TODO: strip prefix
 		if strings.HasPrefix(line, commentPrefix) {
-			dat.comment += strings.TrimPrefix(line, commentPrefix)
+			comment.WriteString(strings.TrimPrefix(line, commentPrefix))
 			continue
 		}
 		break
 	}
 
+	dat.comment = comment.String()
+
 	var err error
 	dat.data, err = base64.StdEncoding.DecodeString(line)
 	if err != nil {
-- 
2.43.0


From cd7c4b789de2ee6c8852674fad516b6fe0ce5c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:19 +0000
Subject: [PATCH 21/24] fix: open outputs for writing only, so that pipes lose
 nothing

---
 crypto/crypto.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index b55d8d3..b43f9a7 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -134,6 +134,13 @@ func sameFile(a, b string) bool {
 	return os.SameFile(afi, bfi)
 }
 
+// createOutput is like os.Create, but opens the file for writing only: what is
+// written to a named pipe must not get lost because nobody reads from it yet,
+// and an existing file may be a write-only one.
+func createOutput(path string) (*os.File, error) {
+	return os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
+}
+
 // Seal secures a message.
 func Seal(publicPath, messagePath, encryptedPath string) error {
 	pub, err := signify.LoadPublicKey(publicPath)
@@ -172,7 +179,7 @@ func Seal(publicPath, messagePath, encryptedPath string) error {
 		return errors.New("signify/crypto: the encrypted file would overwrite an input file")
 	}
 
-	encrypted, err := os.Create(encryptedPath)
+	encrypted, err := createOutput(encryptedPath)
 	if err != nil {
 		return err
 	}
@@ -271,7 +278,7 @@ func Open(privatePath, encryptedPath, messagePath string) error {
 		return errors.New("signify/crypto: the message would overwrite an input file")
 	}
 
-	message, err := os.Create(messagePath)
+	message, err := createOutput(messagePath)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From fc11d901ac2be92d6d7cd8037ddb0a7bdf7bbd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:22 +0000
Subject: [PATCH 22/24] fix: read key and signature files with comments of any
 length

bufio.Scanner gives up on lines beyond 64 KiB, and what came after such a
comment was not seen.
---
 signify/common.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/signify/common.go b/signify/common.go
index 88f79f5..0ebff21 100644
--- a/signify/common.go
+++ b/signify/common.go
@@ -31,6 +31,7 @@ func readDataFileBytes(data []byte) (*dataFile, error) {
 	dat := &dataFile{}
 	buf := bytes.NewBuffer(data)
 	scanner := bufio.NewScanner(buf)
+	scanner.Buffer(nil, len(data)+1) // lines may be of any length
 	for scanner.Scan() {
 		line = scanner.Text()
 		// TODO: strip prefix
-- 
2.43.0


From 03cb2d8f4fced55d0083cc71ff1b955a51877099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:14 +0000
Subject: [PATCH 23/24] fix: encrypt files of 2 GiB and more on 32-bit
 platforms

The size of the message was squeezed into an int, so that only the low 32 bits
of it counted and Seal reported success after having encrypted the first few
bytes of the file, or nothing.
---
 crypto/crypto.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index b43f9a7..9c0995c 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -53,6 +53,12 @@ func incrementNonce(nonce *[24]byte) error {
 }
 
 func seal(pub *signify.Public, message io.Reader, messageLen int, w io.Writer) error {
+	return sealStream(pub, message, int64(messageLen), w)
+}
+
+// sealStream takes the length as an int64: where an int has 32 bits only, a
+// file can be larger than that.
+func sealStream(pub *signify.Public, message io.Reader, messageLen int64, w io.Writer) error {
 	var shared [32]byte
 	edpub, err := pub.ToBox()
 	if err != nil {
@@ -94,7 +100,7 @@ func seal(pub *signify.Public, message io.Reader, messageLen int, w io.Writer) e
 
 	chunk := make([]byte, chunkSize)
 	nonce := [24]byte{}
-	for i := 0; i < chunks; i++ {
+	for i := int64(0); i < chunks; i++ {
 		if left := messageLen - i*chunkSize; left < chunkSize {
 			chunk = chunk[:left]
 		}
@@ -158,7 +164,7 @@ func Seal(publicPath, messagePath, encryptedPath string) error {
 	if err != nil {
 		return err
 	}
-	messageLen := int(fi.Size())
+	messageLen := fi.Size()
 
 	// The size of anything but a regular file (and of some regular
 	// ones, as in /proc) is only known once it has been read.
@@ -168,7 +174,7 @@ func Seal(publicPath, messagePath, encryptedPath string) error {
 		if err != nil {
 			return err
 		}
-		r, messageLen = bytes.NewReader(data), len(data)
+		r, messageLen = bytes.NewReader(data), int64(len(data))
 	}
 
 	if encryptedPath == "" {
@@ -191,7 +197,7 @@ func Seal(publicPath, messagePath, encryptedPath string) error {
 
 	encoder := base64.NewEncoder(encrypted)
 
-	err = seal(pub, r, messageLen, encoder)
+	err = sealStream(pub, r, messageLen, encoder)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From f9a0105b7c0c0707fa851491a73e5988adafbf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:47 +0000
Subject: [PATCH 24/24] fix: keep the signature comment on one line

A line break in the name of the secret key file ended the comment, so that the
signature could not be verified.
---
 signify/key.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index 1fdb1b6..cb5a8f0 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -258,6 +258,8 @@ func Sign(privatePath, messagePath, signaturePath string) error {
 	}
 
 	pubKeyPath := strings.TrimSuffix(privatePath, ".sec") + ".pub"
+	// The comment is one line, whatever the name of the key.
+	pubKeyPath = strings.Replace(pubKeyPath, "\n", "?", -1)
 	comment := "untrusted comment: verify with " + filepath.Base(pubKeyPath)
 	err = writeDataFile(signaturePath, comment, sig.encode())
 	if err != nil {
-- 
2.43.0

