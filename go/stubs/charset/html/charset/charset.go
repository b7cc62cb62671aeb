// Package charset stands in for golang.org/x/net/html/charset with the
// encodings the input files use.
package charset

import (
	"fmt"
	"io"
	"strings"
)

type latin1 struct {
	in   io.Reader
	buf  []byte
	err  error
	part [512]byte
}

func (l *latin1) Read(p []byte) (int, error) {
	for len(l.buf) == 0 {
		if l.err != nil {
			return 0, l.err
		}
		n, err := l.in.Read(l.part[:])
		for _, b := range l.part[:n] {
			l.buf = append(l.buf, string(rune(b))...)
		}
		l.err = err
	}
	n := copy(p, l.buf)
	l.buf = l.buf[n:]
	return n, nil
}

func NewReaderLabel(label string, input io.Reader) (io.Reader, error) {
	switch strings.ToLower(label) {
	case "utf-8", "utf8", "us-ascii":
		return input, nil
	case "iso-8859-1", "latin1", "windows-1252":
		return &latin1{in: input}, nil
	}
	return nil, fmt.Errorf("unsupported charset: %q", label)
}
