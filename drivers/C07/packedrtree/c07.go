package packedrtree_test

import (
	"fmt"
	"math"
	"testing"
	"time"

	"github.com/gogama/flatgeobuf/packedrtree"
)

func TestVerifC07(t *testing.T) {
	vR.Rule = "a case counts when at least two references have different curve positions"
	r := vrand()
	key := func(x packedrtree.Ref) [5]uint64 {
		return [5]uint64{math.Float64bits(x.XMin), math.Float64bits(x.YMin), math.Float64bits(x.XMax), math.Float64bits(x.YMax), uint64(x.Offset)}
	}
	check := func(refs []packedrtree.Ref, b packedrtree.Box, ordered bool) {
		in := append([]packedrtree.Ref(nil), refs...)
		d := func() string { return fmt.Sprintf("HilbertSort(%d references %.4v, bounds %v)", len(in), head(in), b) }
		vguard(20*time.Second, func() { packedrtree.HilbertSort(refs, b) }, d)
		vR.Cases++
		m := map[[5]uint64]int{}
		for _, x := range in {
			m[key(x)]++
		}
		for _, x := range refs {
			m[key(x)]--
			if m[key(x)] < 0 {
				vfail("%s: reference %v of the result is not in the input (or occurs there less often)", d(), x)
			}
		}
		if !ordered {
			return
		}
		pos := func(x packedrtree.Ref) uint32 {
			return vcanon(vscale((x.XMin+x.XMax)/2, b.XMin, b.XMax-b.XMin), vscale((x.YMin+x.YMax)/2, b.YMin, b.YMax-b.YMin))
		}
		diff := false
		for i := 1; i < len(refs); i++ {
			p, q := pos(refs[i-1]), pos(refs[i])
			if p < q {
				vfail("%s: references %d and %d are at positions %d and %d, not in descending order: %v, %v", d(), i-1, i, p, q, refs[i-1], refs[i])
			}
			diff = diff || p != q
		}
		if diff {
			vR.Nontrivial++
		}
	}
	bounds := func(refs []packedrtree.Ref) packedrtree.Box {
		b := packedrtree.Box{XMin: math.Inf(1), YMin: math.Inf(1), XMax: math.Inf(-1), YMax: math.Inf(-1)}
		for _, x := range refs {
			b.XMin, b.YMin = math.Min(b.XMin, x.XMin), math.Min(b.YMin, x.YMin)
			b.XMax, b.YMax = math.Max(b.XMax, x.XMax), math.Max(b.YMax, x.YMax)
		}
		return b
	}
	m := 4000
	if vthorough() {
		m = 100000
	}
	for i := 0; i < m; i++ {
		n := r.Intn(12)
		if i%7 == 0 {
			n = r.Intn(400)
		}
		refs := make([]packedrtree.Ref, n)
		gx, gy, sx, sy := float64(r.Intn(100)-50), float64(r.Intn(100)-50), math.Pow(10, float64(r.Intn(9)-4)), math.Pow(10, float64(r.Intn(9)-4))
		grid := r.Intn(2) == 0
		thin := r.Intn(8) // one axis without extent
		for k := range refs {
			f := func() float64 {
				if grid {
					return float64(r.Intn(17))
				}
				return r.Float64()
			}
			x, y, w, h := gx+sx*f(), gy+sy*f(), sx*f()*float64(r.Intn(2)), sy*f()*float64(r.Intn(2))
			if thin == 0 || thin == 2 {
				x, w = gx, 0
			}
			if thin == 1 || thin == 2 {
				y, h = gy, 0
			}
			refs[k] = vref(packedrtree.Box{XMin: x, YMin: y, XMax: x + w, YMax: y + h}, int64(r.Intn(1000)))
		}
		b := bounds(refs)
		if i%5 == 0 { // wider than needed
			b.XMin, b.XMax = b.XMin-sx*r.Float64(), b.XMax+sx
			b.YMax += 3 * sy
		}
		check(refs, b, true)
	}
	// whole grid cells: exact positions
	var refs []packedrtree.Ref
	for i := 0; i < 3000; i++ {
		x, y := float64(r.Intn(65536)), float64(r.Intn(65536))
		refs = append(refs, vref(packedrtree.Box{XMin: x, YMin: y, XMax: x, YMax: y}, int64(i)))
	}
	check(refs, packedrtree.Box{XMin: 0, YMin: 0, XMax: 65535, YMax: 65535}, true)
	// arbitrary coordinates: still a permutation
	for i := 0; i < m/4; i++ {
		n := r.Intn(40)
		refs := make([]packedrtree.Ref, n)
		v := func() float64 {
			if r.Intn(9) == 0 {
				return math.NaN()
			}
			return vvals[r.Intn(len(vvals))]
		}
		for k := range refs {
			refs[k] = vref(packedrtree.Box{XMin: v(), YMin: v(), XMax: v(), YMax: v()}, int64(k))
		}
		check(refs, packedrtree.Box{XMin: v(), YMin: v(), XMax: v(), YMax: v()}, false)
	}
	vwrite()
}

func head(r []packedrtree.Ref) []packedrtree.Ref {
	if len(r) > 3 {
		return r[:3]
	}
	return r
}
