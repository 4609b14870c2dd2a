package packedrtree_test

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"testing"
	"testing/iotest"
	"time"

	"github.com/gogama/flatgeobuf/packedrtree"
)

// v5short is a writer that takes n bytes and then fails.
type v5short struct {
	n   int
	buf []byte
}

var v5err = errors.New("v5 write failure")

func (w *v5short) Write(p []byte) (int, error) {
	if len(w.buf)+len(p) <= w.n {
		w.buf = append(w.buf, p...)
		return len(p), nil
	}
	k := w.n - len(w.buf)
	w.buf = append(w.buf, p[:k]...)
	return k, v5err
}

// v5reader fails with its own error after n bytes.
func v5reader(b []byte, n int) io.Reader {
	return io.MultiReader(bytes.NewReader(b[:n]), iotest.ErrReader(v5err))
}

func v5same(a, b []packedrtree.Result) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func TestVerifC05(t *testing.T) {
	vR.Rule = "a case counts when the index has more than two nodes"
	r := vrand()
	check := func(refs []packedrtree.Ref, ns int, cuts bool) {
		n := len(refs)
		d := func() string {
			return fmt.Sprintf("index over %d references, first %v, node size %d", n, refs[0], ns)
		}
		vguard(20*time.Second, func() {
			vR.Cases++
			if n > 1 {
				vR.Nontrivial++
			}
			size, err := packedrtree.Size(n, uint16(ns))
			if err != nil {
				vfail("Size(%d,%d): %v", n, ns, err)
			}
			tr, err := packedrtree.New(refs, uint16(ns))
			if err != nil {
				vfail("%s: New: %v", d(), err)
			}
			b := vmarshal(tr)
			if len(b) != size {
				vfail("%s: %d bytes serialized, Size says %d", d(), len(b), size)
			}
			// Expected bytes, independently.
			lv, total := vlevels(n, ns)
			inf := math.Inf(1)
			nd := make([]vnode, total)
			for i, f := range refs {
				nd[lv[0][0]+i] = vnode{[4]float64{f.XMin, f.YMin, f.XMax, f.YMax}, f.Offset}
			}
			for l := 1; l < len(lv); l++ {
				for p := lv[l][0]; p < lv[l][1]; p++ {
					c := lv[l-1][0] + (p-lv[l][0])*ns
					m := vnode{[4]float64{inf, inf, -inf, -inf}, int64(c)}
					for k := c; k < c+ns && k < lv[l-1][1]; k++ {
						for q := 0; q < 2; q++ {
							if nd[k].b[q] < m.b[q] {
								m.b[q] = nd[k].b[q]
							}
							if nd[k].b[q+2] > m.b[q+2] {
								m.b[q+2] = nd[k].b[q+2]
							}
						}
					}
					nd[p] = m
				}
			}
			if want := vserial(nd); !bytes.Equal(b, want) {
				k := 0
				for b[k] == want[k] {
					k++
				}
				vfail("%s: byte %d of the serialized index is %d, not %d", d(), k, b[k], want[k])
			}
			if b2 := vmarshal(tr); !bytes.Equal(b, b2) {
				vfail("%s: serializing twice gives different bytes", d())
			}
			// Round trip, with trailing bytes that must stay unread.
			rd := bytes.NewReader(append(append([]byte(nil), b...), 1, 2, 3))
			for pass := 0; pass < 3; pass++ {
				var in io.Reader
				switch pass {
				case 0:
					in = rd
				case 1:
					in = iotest.OneByteReader(bytes.NewReader(b))
				case 2:
					in = iotest.DataErrReader(bytes.NewReader(b))
				}
				if pass > 0 && len(b) > 20000 {
					continue
				}
				t2, err := packedrtree.Unmarshal(in, n, uint16(ns))
				if err != nil {
					vfail("%s: deserializing its own bytes (reader %d): %v", d(), pass, err)
				}
				if pass == 0 && rd.Len() != 3 {
					vfail("%s: deserializing leaves %d of the 3 trailing bytes", d(), rd.Len())
				}
				if t2.NumRefs() != n || int(t2.NodeSize()) != ns {
					vfail("%s: deserialized NumRefs %d NodeSize %d", d(), t2.NumRefs(), t2.NodeSize())
				}
				if !bytes.Equal(vmarshal(t2), b) {
					vfail("%s: the deserialized index serializes differently (reader %d)", d(), pass)
				}
				if t2.Bounds() != tr.Bounds() && tr.Bounds() == tr.Bounds() {
					vfail("%s: deserialized bounds %v, not %v", d(), t2.Bounds(), tr.Bounds())
				}
				for k := 0; k < 3; k++ {
					q := tr.Bounds()
					if k > 0 {
						q = refs[r.Intn(n)].Box
					}
					if !v5same(tr.Search(q), t2.Search(q)) {
						vfail("%s: query %v gives %d results before and %d after the round trip", d(), q, len(tr.Search(q)), len(t2.Search(q)))
					}
				}
			}
			if !cuts {
				return
			}
			var at []int
			for k := 0; k < size && k < 200; k++ {
				at = append(at, k)
			}
			for k := size - 90; k < size; k++ {
				if k >= 200 {
					at = append(at, k)
				}
			}
			for _, k := range at {
				if t2, err := packedrtree.Unmarshal(bytes.NewReader(b[:k]), n, uint16(ns)); err == nil || t2 != nil {
					vfail("%s: deserializing only %d of %d bytes gives %v, %v", d(), k, size, t2, err)
				}
				if t2, err := packedrtree.Unmarshal(v5reader(b, k), n, uint16(ns)); err == nil || t2 != nil {
					vfail("%s: deserializing with a read failure after %d of %d bytes gives %v, %v", d(), k, size, t2, err)
				}
				w := &v5short{n: k}
				m, err := tr.Marshal(w)
				if err == nil || m != k || !bytes.Equal(w.buf, b[:k]) {
					vfail("%s: serializing to a writer that fails after %d of %d bytes gives n=%d err=%v", d(), k, size, m, err)
				}
			}
		}, d)
	}
	shape := 0
	for i, p := range vpairs() {
		check(vrefs(r, p[0], shape), p[1], p[0] < 40 && i%5 == 0)
		shape = (shape + 1) % 12
	}
	m := 200
	if vthorough() {
		m = 8000
	}
	for i := 0; i < m; i++ {
		n, ns := 1+r.Intn(1500), 2+r.Intn(40)
		check(vrefs(r, n, r.Intn(12)), ns, i%20 == 0)
	}
	vwrite()
}
