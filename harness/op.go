package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"io"
	"os"
	"runtime"
	"testing/iotest"

	"github.com/kisom/psignify/base64"
	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
)

// opMain performs one library operation in a process of its own, so that it
// can be traced, killed or starved from outside. The result goes to fd 3 if
// that is open, else only into the exit status.
func opMain(args []string) {
	var spec opSpec
	if err := json.Unmarshal([]byte(args[0]), &spec); err != nil {
		os.Exit(9)
	}
	pass, _ := hex.DecodeString(spec.Pass)
	signify.PassphrasePrompt = func(bool) ([]byte, error) { return append([]byte(nil), pass...), nil }
	var err error
	switch spec.Op {
	case "gen":
		var o *signify.GenerateOptions
		if spec.Rounds > 0 {
			o = &signify.GenerateOptions{Rounds: spec.Rounds}
		}
		err = signify.GenerateKey(spec.A[0], pass, o)
	case "sign":
		err = signify.Sign(spec.A[0], spec.A[1], spec.A[2])
	case "verify":
		err = signify.Verify(spec.A[0], spec.A[1], spec.A[2])
	case "seal":
		err = crypto.Seal(spec.A[0], spec.A[1], spec.A[2])
	case "open":
		err = crypto.Open(spec.A[0], spec.A[1], spec.A[2])
	case "encode", "decode":
		err = codingOp(spec.Op, spec.A[0], spec.A[1])
	case "prompt":
		err = promptOp(spec.A[0], spec.A[1])
	case "promptstate":
		err = promptStateOp(spec.A[0], spec.A[1], spec.A[2])
	case "hog":
		// what the measurements are to notice: memory, or quadratic time
		err = hogOp(spec.A[0], spec.A[1])
	case "race":
		// a deliberate data race, to see that the detector is at work
		os.Chdir("/")
		x := 0
		done := make(chan bool)
		go func() { x++; done <- true }()
		x++
		<-done
		os.Exit(x & 0)
	default:
		os.Exit(9)
	}
	if err != nil {
		os.Stderr.WriteString(err.Error() + "\n")
		os.Exit(1)
	}
	os.Exit(0)
}

// codingOp runs the whole file through the encoder or decoder. The mode tells
// whether it goes through byte by byte or at once.
func codingOp(op, path, mode string) error {
	data, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	if op == "encode" {
		e := base64.NewEncoder(bufio.NewWriter(io.Discard))
		if mode == "bytes" {
			for i := range data {
				if _, err := e.Write(data[i : i+1]); err != nil {
					return err
				}
			}
		} else if _, err := e.Write(data); err != nil {
			return err
		}
		return e.Close()
	}
	var r io.Reader = bytes.NewReader(data)
	if mode == "slow source" {
		r = iotest.OneByteReader(r)
	}
	d := base64.NewDecoder(r)
	buf := make([]byte, 1)
	if mode == "at once" || mode == "slow source" {
		buf = make([]byte, len(data))
	}
	for {
		_, err := d.Read(buf)
		if err == io.EOF {
			return d.Close()
		} else if err != nil {
			return err
		}
	}
}

func hogOp(path, mode string) error {
	data, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	if mode == "quadratic" {
		x := byte(1)
		for i := range data {
			for _, c := range data[:i] {
				x = x*3 + c
			}
		}
		if x == data[0] {
			runtime.KeepAlive(data)
		}
	}
	return nil
}
