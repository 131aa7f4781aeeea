package main

import _ "embed"

//go:embed testdata/test.sec
var fxSec []byte

//go:embed testdata/test.pub
var fxPub []byte

//go:embed testdata/message.txt
var fxMsg []byte

//go:embed testdata/message.txt.sig
var fxSig []byte

// fixture installs the key pair made by OpenBSD signify (passphrase "passphrase").
func (t *T) fixture(d string) *KeyPair {
	t.Write(sub(d, "test.sec"), fxSec)
	t.Write(sub(d, "test.pub"), fxPub)
	return t.LoadPair(sub(d, "test"), []byte("passphrase"))
}
