// Package base64 stands in for psignify's own base64 package in the "fast"
// build of the harness, which exists to push messages of gigabytes through
// crypto.Seal and crypto.Open: same interface and text, but buffered. (The
// real package is checked by C12 and C13 and in every other workload.)
package base64

import (
	"bufio"
	"encoding/base64"
	"io"
)

type lines struct {
	w   *bufio.Writer
	col int
}

func (l *lines) Write(p []byte) (int, error) {
	n := len(p)
	for len(p) > 0 {
		c := 72 - l.col
		if c > len(p) {
			c = len(p)
		}
		if _, err := l.w.Write(p[:c]); err != nil {
			return 0, err
		}
		p = p[c:]
		l.col += c
		if l.col == 72 {
			l.col = 0
			if err := l.w.WriteByte('\n'); err != nil {
				return 0, err
			}
		}
	}
	return n, nil
}

// Encoder encodes.
type Encoder struct {
	l *lines
	e io.WriteCloser
}

// NewEncoder returns a buffered encoder.
func NewEncoder(w io.Writer) io.WriteCloser {
	l := &lines{w: bufio.NewWriterSize(w, 1<<20)}
	return &Encoder{l, base64.NewEncoder(base64.StdEncoding, l)}
}

func (e *Encoder) Write(p []byte) (int, error) { return e.e.Write(p) }

// Close flushes.
func (e *Encoder) Close() error {
	if err := e.e.Close(); err != nil {
		return err
	}
	if err := e.l.w.WriteByte('\n'); err != nil {
		return err
	}
	return e.l.w.Flush()
}

// Decoder decodes.
type Decoder struct{ r io.Reader }

// NewDecoder returns a buffered decoder.
func NewDecoder(r io.Reader) io.ReadCloser {
	return &Decoder{base64.NewDecoder(base64.StdEncoding, bufio.NewReaderSize(r, 1<<20))}
}

func (d *Decoder) Read(p []byte) (int, error) { return d.r.Read(p) }

// Close does nothing.
func (d *Decoder) Close() error { return nil }
