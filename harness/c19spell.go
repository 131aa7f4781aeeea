package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
)

// spellings of real/<name> as seen from cwd: lnk leads to real/deep, so that
// taking "lnk/.." out of a path leads elsewhere, to a decoy of the same name.
var spellings = []string{"%s/lnk/../", "../lnk/../", "%s/real//", "%s/real/./", "%s/lnk/../deep/../", "../real/../lnk/.././", "%s/lnk//..//", "../lnk/../../lnk/../", "%s/real/deep/../../real/", "../REAL/../lnk/../"}

// spellingCases run each operation with paths spelled in unusual ways: the
// files they lead to, and no others, are to be used and written.
func spellingCases(cfg *Config) []Case {
	var cs []Case
	for i, form := range spellings {
		i, form := i, form
		cs = append(cs, Case{Name: fmt.Sprintf("spelling/%d", i), Fn: func(t *T) {
			for v := 0; v < 20; v++ {
				op := []string{"sign", "verify", "seal", "open", "gen"}[v%5]
				cli := v/5%2 == 1
				byDefault := v/10 == 1
				if op == "open" && byDefault {
					continue
				}
				x := newTree(t, nil)
				t.must(os.MkdirAll(sub(x.d, "real/deep"), 0755), "mkdir")
				t.must(os.Mkdir(sub(x.d, "REAL"), 0755), "mkdir")
				t.must(os.Symlink("real/deep", sub(x.d, "lnk")), "symlink")
				// decoys with keys and messages of their own
				for _, q := range []string{x.d, sub(x.d, "cwd"), sub(x.d, "real/deep"), sub(x.d, "REAL")} {
					k := t.RefKey(sub(q, "k"), nil, 0)
					m := content(t.Rng, 0, 1+t.Rng.Intn(500))
					pl, err := refSeal(refBoxPub(k.PubRec.Key), randBytes(t.Rng, 32), m)
					t.must(err, "refSeal")
					t.Write(sub(q, "msg"), m)
					t.Write(sub(q, "enc"), encFile("untrusted comment: x", pl, "\n"))
					t.Write(sub(q, "msg.sig"), dataFile("verify with k.pub", refSign(k, k.Clear, m)))
				}
				var k *KeyPair
				k = t.RefKey(sub(x.d, "real/k"), nil, 0)
				x.k = k
				msg := content(t.Rng, 4, t.Rng.Intn(2000))
				pl, err := refSeal(refBoxPub(k.PubRec.Key), randBytes(t.Rng, 32), msg)
				t.must(err, "refSeal")
				t.Write(sub(x.d, "real/msg"), msg)
				t.Write(sub(x.d, "real/enc"), encFile("untrusted comment: x", pl, "\n"))
				if op == "verify" {
					t.Write(sub(x.d, "real/msg.sig"), dataFile("verify with k.pub", refSign(k, k.Clear, msg)))
				}
				sp := func(name string) string {
					if form[0] == '%' {
						return fmt.Sprintf(form, x.d) + name
					}
					return form + name
				}
				var args, outs []string
				switch op {
				case "sign":
					args, outs = []string{sp("k.sec"), sp("msg"), sp("msg.sig")}, []string{"real/msg.sig"}
				case "verify":
					args = []string{sp("k.pub"), sp("msg"), sp("msg.sig")}
				case "seal":
					args, outs = []string{sp("k.pub"), sp("msg"), sp("msg.enc")}, []string{"real/msg.enc"}
				case "open":
					args, outs = []string{sp("k.sec"), sp("enc"), sp("out")}, []string{"real/out"}
				case "gen":
					args, outs = []string{sp("new")}, []string{"real/new.sec", "real/new.pub"}
				}
				if byDefault && op != "gen" {
					args[2] = ""
				}
				if op == "gen" && byDefault { // a directory and nothing more
					args, outs = []string{sp("deep/")}, []string{"real/deep/.sec", "real/deep/.pub"}
				}
				before := t.snap(x.d)
				ok, detail := x.do(op, args, cli)
				what := fmt.Sprintf("%s %q, where lnk leads to real/deep, command: %v", op, args, cli)
				if !ok {
					t.Failf("%s fails: %s", what, detail)
				}
				allowed := append([]string{"."}, outs...)
				for _, o := range outs {
					allowed = append(allowed, filepath.Dir(o))
				}
				if d := before.diff(t.snap(x.d), allowed...); d != "" {
					t.Failf("%s changed other files (%s):\n%s", what, detail, d)
				}
				for _, o := range outs {
					if !exists(sub(x.d, o)) {
						t.Failf("%s reports success, but there is no %s", what, o)
					}
				}
				switch op {
				case "sign":
					_, rec, err := strictDataFile(t.Read(sub(x.d, outs[0])))
					if err != nil || !bytes.Equal(rec, refSign(k, k.Clear, msg)) {
						t.Failf("%s wrote another signature (%v)", what, err)
					}
				case "seal":
					_, pl, err := strictEncFile(t.Read(sub(x.d, outs[0])))
					t.must(err, "encrypted file")
					if got, err := refOpen(refBoxPriv(k.Clear), pl); err != nil || !bytes.Equal(got, msg) {
						t.Failf("%s encrypted something else (%v)", what, err)
					}
				case "open":
					if !bytes.Equal(t.Read(sub(x.d, outs[0])), msg) {
						t.Failf("%s wrote another message", what)
					}
				}
				t.Obs("successful runs", 1)
				t.Obs("runs with paths through links and parents", 1)
				t.Eval("spelling", i, v)
				t.dropDirs()
			}
			t.Sample("paths like %smsg", form)
		}})
	}
	return cs
}
