package flatgeobuf_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"testing"
	"time"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

func vSig(b []byte) bool {
	return len(b) >= 8 && bytes.Equal(b[0:3], []byte("fgb")) && bytes.Equal(b[4:7], []byte("fgb"))
}

// vHeaderCase opens b and compares with the given expectation (want: 0 must fail, 1 must succeed, 2 either).
func vHeaderCase(s *vStream, seekable bool, want int, size int, count uint64, ns uint16, what string) {
	desc := func() string {
		n := len(s.b)
		if n > 64 {
			n = 64
		}
		return fmt.Sprintf("%s: stream of %d bytes % x..., failing at %d", what, len(s.b), s.b[:n], s.failAt)
	}
	vguard(20*time.Second, func() {
		m := &vStream{b: s.b, failAt: s.failAt, seeks: -1, rnd: s.rnd}
		ver, err := flatgeobuf.Magic(vPlain{m})
		av := s.b
		if s.failAt >= 0 && s.failAt < len(av) {
			av = av[:s.failAt]
		}
		if vSig(av) != (err == nil) {
			vfail("Magic: error %v; %s", err, desc())
		}
		if err == nil && (ver.Major != av[3] || ver.Patch != av[7] || m.pos != 8) {
			vfail("Magic: %v after %d bytes; %s", ver, m.pos, desc())
		}
		r := flatgeobuf.NewFileReader(vWrap(s, seekable, true))
		h, err := r.Header()
		if want == 1 && err != nil || want == 0 && err == nil {
			vfail("Header: error %v; %s", err, desc())
		}
		if err == nil {
			if h == nil || s.pos != size {
				vfail("Header leaves the stream at %d, want %d; %s", s.pos, size, desc())
			}
			if !vSig(av) || av[3] != 3 || len(av) < 12 || binary.LittleEndian.Uint32(av[8:]) < 4 || binary.LittleEndian.Uint32(av[8:]) > 32<<20 || h.FeaturesCount() > math.MaxInt || h.IndexNodeSize() == 1 {
				vfail("Header accepted; %s", desc())
			}
			if want == 1 && (h.FeaturesCount() != count || h.IndexNodeSize() != ns) {
				vfail("Header says %d features, node size %d; want %d, %d; %s", h.FeaturesCount(), h.IndexNodeSize(), count, ns, desc())
			}
			if _, e := r.Header(); e == nil {
				vfail("second Header; %s", desc())
			}
			vR.Nontrivial++
			return
		}
		for k := 0; k < 2; k++ {
			_, e1 := r.Header()
			_, e2 := r.Index()
			_, e3 := r.IndexSearch(packedrtree.EmptyBox)
			_, e4 := r.Data(make([]flat.Feature, k))
			_, e5 := r.DataRem()
			e6 := r.Rewind()
			if e1 == nil || e2 == nil || e3 == nil || e4 == nil || e5 == nil || e6 == nil {
				vfail("an operation succeeds after the header was refused (%v): %v %v %v %v %v %v; %s", err, e1, e2, e3, e4, e5, e6, desc())
			}
		}
	}, desc)
	vR.Cases++
}

func TestVerifC12(t *testing.T) {
	vR.Rule = "a case counts when the header is accepted"
	rnd := vrand()
	rounds := 3000
	if vthorough() {
		rounds = 300000
	}
	file := func(count uint64, ns uint16, pad int) []byte {
		b := append(append([]byte{}, vMagic...), vHeaderTable(count, ns, pad)...)
		return append(b, 9, 8, 7, 6, 5)
	}
	full := func(b []byte) int { return 12 + int(binary.LittleEndian.Uint32(b[8:])) }
	// every signature byte
	for k := 0; k < 8; k++ {
		for x := 0; x < 256; x++ {
			b := file(3, 16, 0)
			b[k] = byte(x)
			w := 0
			if vSig(b) && b[3] == 3 {
				w = 1
			}
			vHeaderCase(&vStream{b: b, failAt: -1, seeks: -1}, false, w, full(b), 3, 16, "signature byte")
		}
	}
	// every truncation and failure point
	b := file(3, 2, 10)
	for k := 0; k <= len(b); k++ {
		w := 0
		if k >= full(b) {
			w = 1
		}
		vHeaderCase(&vStream{b: b[:k], failAt: -1, seeks: -1}, k%2 == 0, w, full(b), 3, 2, "truncated")
		vHeaderCase(&vStream{b: b, failAt: k, seeks: -1, rnd: rnd}, k%2 == 0, w, full(b), 3, 2, "failing read")
	}
	// counts and node sizes
	for _, c := range []uint64{0, 1, 2, math.MaxInt32, math.MaxInt64 - 1, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64 - 1, math.MaxUint64} {
		for _, n := range []uint16{0, 1, 2, 15, 16, 17, 65534, 65535} {
			b := file(c, n, 0)
			w := 1
			if c > math.MaxInt64 || n == 1 {
				w = 0
			}
			vHeaderCase(&vStream{b: b, failAt: -1, seeks: -1}, false, w, full(b), c, n, fmt.Sprintf("count %d, node size %d", c, n))
		}
	}
	// header lengths around the limits, complete and one byte short
	for _, l := range []int64{0, 1, 3, 4, 5, 32<<20 - 1, 32 << 20, 32<<20 + 1, 32<<20 + 8, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
		for _, d := range []int{0, 1} {
			h := file(1, 16, 0)[8:]
			h = h[:len(h)-5]
			have := l
			if have > 32<<20+8 {
				have = 32<<20 + 8
			}
			b := append(append([]byte{}, vMagic...), make([]byte, 4+have)...)
			copy(b[8:], h)
			binary.LittleEndian.PutUint32(b[8:], uint32(l))
			b = b[:len(b)-d]
			w := 0
			if l <= 32<<20 && l >= int64(len(h)-4) && d == 0 {
				w = 1
			} else if l >= 4 && l <= 32<<20 && d == 0 {
				w = 2
			}
			vHeaderCase(&vStream{b: b, failAt: -1, seeks: -1}, false, w, 12+int(l), 1, 16, fmt.Sprintf("header length %d, %d bytes missing", l, d))
		}
	}
	// damaged tables
	for i := 0; i < rounds; i++ {
		b := file(rnd.Uint64()>>uint(rnd.Intn(64)), uint16(rnd.Intn(5)), rnd.Intn(8))
		for k := 1 + rnd.Intn(3); k > 0; k-- {
			b[12+rnd.Intn(len(b)-12)] = []byte{0, 1, 4, 127, 128, 255, byte(rnd.Intn(256))}[rnd.Intn(7)]
		}
		vHeaderCase(&vStream{b: b, failAt: -1, seeks: -1}, false, 2, full(b), 0, 0, "damaged table")
	}
	vsample("%d header prefixes", vR.Cases)
	vwrite()
}
