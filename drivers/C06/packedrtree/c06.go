package packedrtree_test

import (
	"math"
	"testing"

	"github.com/gogama/flatgeobuf/packedrtree"
)

func TestVerifC06(t *testing.T) {
	vR.Rule = "a case counts when the boxes overlap in one axis at least, or one is degenerate or has an infinite side"
	vals := []float64{math.Inf(-1), -math.MaxFloat64, -2, -1, -math.SmallestNonzeroFloat64, math.Copysign(0, -1), 0, math.SmallestNonzeroFloat64, 1, 1.5, 2, math.MaxFloat64, math.Inf(1)}
	type box = packedrtree.Box
	mn := func(a, b float64) float64 {
		if b < a {
			return b
		}
		return a
	}
	mx := func(a, b float64) float64 {
		if b > a {
			return b
		}
		return a
	}
	eq := func(a, b box) bool {
		return a.XMin == b.XMin && a.YMin == b.YMin && a.XMax == b.XMax && a.YMax == b.YMax
	}
	share := func(a, b box) bool {
		return a.XMin <= b.XMax && b.XMin <= a.XMax && a.YMin <= b.YMax && b.YMin <= a.YMax
	}
	join := func(a, b box) box {
		return box{XMin: mn(a.XMin, b.XMin), YMin: mn(a.YMin, b.YMin), XMax: mx(a.XMax, b.XMax), YMax: mx(a.YMax, b.YMax)}
	}
	empty := box{XMin: math.Inf(1), YMin: math.Inf(1), XMax: math.Inf(-1), YMax: math.Inf(-1)}
	if packedrtree.EmptyBox != empty {
		vfail("EmptyBox is %v", packedrtree.EmptyBox)
	}
	pair := func(a, b box, search bool) {
		vR.Cases++
		if a.XMin <= b.XMax && b.XMin <= a.XMax || a.YMin <= b.YMax && b.YMin <= a.YMax {
			vR.Nontrivial++
		}
		g, arg := a, b
		g.Expand(&arg)
		if arg != b {
			vfail("Expand changes its argument: %v.Expand(%v) makes it %v", a, b, arg)
		}
		if w := join(a, b); !eq(g, w) {
			vfail("%v.Expand(%v) = %v, the smallest box containing both is %v", a, b, g, w)
		}
		g = a
		g.ExpandXY(b.XMin, b.YMin)
		pt := box{XMin: b.XMin, YMin: b.YMin, XMax: b.XMin, YMax: b.YMin}
		if w := join(a, pt); !eq(g, w) {
			vfail("%v.ExpandXY(%v, %v) = %v, the smallest box containing both is %v", a, b.XMin, b.YMin, g, w)
		}
		if search {
			tree, err := packedrtree.New([]packedrtree.Ref{{Box: a, Offset: 5}}, 2)
			if err != nil {
				vfail("New: %v", err)
			}
			n := len(tree.Search(b))
			if share(a, b) != (n == 1) || n > 1 {
				vfail("search of box %v in an index holding only %v gives %d results", b, a, n)
			}
		}
	}
	r := vrand()
	mk := func() box {
		v := func() float64 { return vals[r.Intn(len(vals))] }
		if r.Intn(4) == 0 {
			v = func() float64 { return float64(r.Intn(9)-4) / 2 }
		}
		b := box{XMin: v(), YMin: v(), XMax: v(), YMax: v()}
		if r.Intn(20) == 0 {
			return empty
		}
		if r.Intn(10) != 0 {
			if b.XMax < b.XMin {
				b.XMin, b.XMax = b.XMax, b.XMin
			}
			if b.YMax < b.YMin {
				b.YMin, b.YMax = b.YMax, b.YMin
			}
		}
		return b
	}
	// every pair of intervals on one axis, the other axis fixed
	small := []float64{math.Inf(-1), -1, 0, 1, math.Inf(1)}
	for _, a := range small {
		for _, b := range small {
			for _, c := range small {
				for _, d := range small {
					pair(box{XMin: a, XMax: b, YMin: 0, YMax: 1}, box{XMin: c, XMax: d, YMin: 0, YMax: 1}, true)
					pair(box{YMin: a, YMax: b, XMin: 0, XMax: 1}, box{YMin: c, YMax: d, XMin: 0, XMax: 1}, true)
				}
			}
		}
	}
	n := 200000
	if vthorough() {
		n = 4000000
	}
	for i := 0; i < n; i++ {
		a, b := mk(), mk()
		if i < 3 {
			vsample("%v, %v", a, b)
		}
		pair(a, b, i%4 == 0)
		// expanding by itself changes nothing
		c := a
		c.Expand(&c)
		if c != a {
			vfail("%v expanded by itself becomes %v", a, c)
		}
		if w, h := a.Width(), a.Height(); (w != a.XMax-a.XMin && !math.IsNaN(w)) || (h != a.YMax-a.YMin && !math.IsNaN(h)) {
			vfail("size of %v is %v by %v", a, w, h)
		}
	}
	vwrite()
}
