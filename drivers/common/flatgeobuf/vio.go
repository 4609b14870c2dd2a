package flatgeobuf_test

import (
	"bytes"
	"errors"
)

var vErrBoom = errors.New("boom")

// vLimit accepts n bytes and then fails.
type vLimit struct {
	b bytes.Buffer
	n int
}

func (l *vLimit) Write(p []byte) (int, error) {
	k := len(p)
	if k > l.n {
		k = l.n
	}
	l.b.Write(p[:k])
	l.n -= k
	if k < len(p) {
		return k, vErrBoom
	}
	return k, nil
}
