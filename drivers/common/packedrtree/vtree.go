package packedrtree_test

import (
	"bytes"
	"encoding/binary"
	"math"
	"math/rand"

	"github.com/gogama/flatgeobuf/packedrtree"
)

type vnode struct {
	b   [4]float64
	off int64
}

// vparse decodes the serialized nodes independently of the package.
func vparse(b []byte) []vnode {
	out := make([]vnode, len(b)/40)
	for i := range out {
		for k := 0; k < 4; k++ {
			out[i].b[k] = math.Float64frombits(binary.LittleEndian.Uint64(b[i*40+8*k:]))
		}
		out[i].off = int64(binary.LittleEndian.Uint64(b[i*40+32:]))
	}
	return out
}

func vserial(ns []vnode) []byte {
	b := make([]byte, 0, 40*len(ns))
	for _, n := range ns {
		for k := 0; k < 4; k++ {
			b = binary.LittleEndian.AppendUint64(b, math.Float64bits(n.b[k]))
		}
		b = binary.LittleEndian.AppendUint64(b, uint64(n.off))
	}
	return b
}

func vmarshal(t *packedrtree.PackedRTree) []byte {
	var w bytes.Buffer
	n, err := t.Marshal(&w)
	if err != nil || n != w.Len() {
		vfail("Marshal of an index over %d references with node size %d: n=%d err=%v, %d bytes written", t.NumRefs(), t.NodeSize(), n, err, w.Len())
	}
	return w.Bytes()
}

// vlevels gives start and end of every level, leaves first, in nodes.
func vlevels(n, ns int) (lv [][2]int, total int) {
	var c []int
	for {
		c = append(c, n)
		total += n
		if n == 1 && len(c) > 1 {
			break
		}
		n = (n + ns - 1) / ns
	}
	e := total
	for _, k := range c {
		lv = append(lv, [2]int{e - k, e})
		e -= k
	}
	return
}

func vref(b packedrtree.Box, off int64) packedrtree.Ref { return packedrtree.Ref{Box: b, Offset: off} }

var vvals = []float64{0, 1, -1, math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, 5e-324, math.Copysign(0, -1), 2, 3, 1e-300}

// vrefs makes a reference list of n boxes, of several shapes.
func vrefs(r *rand.Rand, n int, shape int) []packedrtree.Ref {
	refs := make([]packedrtree.Ref, n)
	off := int64(0)
	for i := range refs {
		var b packedrtree.Box
		switch shape % 6 {
		case 0: // points on a line, far apart
			b = packedrtree.Box{XMin: float64(10 * i), YMin: 0, XMax: float64(10*i) + 1, YMax: 1}
		case 1: // random boxes
			x, y := r.Float64()*100, r.Float64()*100
			b = packedrtree.Box{XMin: x, YMin: y, XMax: x + r.Float64()*10, YMax: y + r.Float64()*10}
		case 2: // decreasing coordinates
			x := float64(-7 * i)
			b = packedrtree.Box{XMin: x, YMin: x - 1, XMax: x + 2, YMax: x + 3}
		case 3: // arbitrary, possibly inverted or infinite
			b = packedrtree.Box{XMin: vvals[r.Intn(len(vvals))], YMin: vvals[r.Intn(len(vvals))], XMax: vvals[r.Intn(len(vvals))], YMax: vvals[r.Intn(len(vvals))]}
		case 4: // all the same
			b = packedrtree.Box{XMin: 3, YMin: 4, XMax: 5, YMax: 6}
		case 5: // empty boxes among points
			if i%3 == 0 {
				b = packedrtree.EmptyBox
			} else {
				b = packedrtree.Box{XMin: float64(i % 17), YMin: float64(i % 13), XMax: float64(i % 17), YMax: float64(i % 13)}
			}
		}
		if shape >= 6 && shape < 12 && i%4 == 1 {
			off -= int64(r.Intn(5)) // duplicates and descending offsets
		}
		refs[i] = vref(b, off)
		off += int64(1 + r.Intn(100))
	}
	return refs
}

func vinter(a, b packedrtree.Box) bool {
	return !(a.XMax < b.XMin || a.YMax < b.YMin || b.XMax < a.XMin || b.YMax < a.YMin)
}

// vpairs are the (count, node size) pairs worth trying.
func vpairs() [][2]int {
	var out [][2]int
	for _, ns := range []int{2, 3, 4, 5, 8, 16, 17, 255, 256, 257, 1000, 32768, 65535} {
		m := map[int]bool{}
		for n := 1; n <= 20; n++ {
			m[n] = true
		}
		for p := ns; p <= 3000; p *= ns {
			for d := -1; d <= 1; d++ {
				m[p+d] = true
				if 2*p+d < 3000 {
					m[2*p+d] = true
				}
			}
		}
		for n := 1; n <= 3001; n++ {
			if m[n] {
				out = append(out, [2]int{n, ns})
			}
		}
	}
	return out
}
