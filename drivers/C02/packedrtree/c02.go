package packedrtree_test

import (
	"fmt"
	"math"
	"testing"
	"time"

	"github.com/gogama/flatgeobuf/packedrtree"
)

func TestVerifC02(t *testing.T) {
	vR.Rule = "a case counts when the tree has at least two internal levels"
	r := vrand()
	check := func(refs []packedrtree.Ref, ns int) {
		n := len(refs)
		cp := append([]packedrtree.Ref(nil), refs...)
		var tr *packedrtree.PackedRTree
		var err error
		d := func() string { return fmt.Sprintf("New(%d references, first %v, node size %d)", n, cp[0], ns) }
		vguard(20*time.Second, func() { tr, err = packedrtree.New(refs, uint16(ns)) }, d)
		vR.Cases++
		if n > ns {
			vR.Nontrivial++
		}
		if err != nil {
			vfail("%s: %v", d(), err)
		}
		for i := range refs {
			if refs[i] != cp[i] {
				vfail("%s changes reference %d", d(), i)
			}
		}
		if tr.NumRefs() != n || int(tr.NodeSize()) != ns {
			vfail("%s: NumRefs %d NodeSize %d", d(), tr.NumRefs(), tr.NodeSize())
		}
		lv, total := vlevels(n, ns)
		nd := vparse(vmarshal(tr))
		if len(nd) != total {
			vfail("%s: %d nodes, not %d", d(), len(nd), total)
		}
		s := lv[0][0]
		for i := range refs {
			b := refs[i]
			if nd[s+i] != (vnode{[4]float64{b.XMin, b.YMin, b.XMax, b.YMax}, b.Offset}) {
				vfail("%s: leaf %d is %v, not %v", d(), i, nd[s+i], b)
			}
		}
		inf := math.Inf(1)
		want := [4]float64{inf, inf, -inf, -inf}
		for l := 1; l < len(lv); l++ {
			for p := lv[l][0]; p < lv[l][1]; p++ {
				c := lv[l-1][0] + (p-lv[l][0])*ns
				if nd[p].off != int64(c) {
					vfail("%s: node %d of level %d has first child %d, not %d", d(), p, l, nd[p].off, c)
				}
				b := [4]float64{inf, inf, -inf, -inf}
				for k := c; k < c+ns && k < lv[l-1][1]; k++ {
					for q := 0; q < 2; q++ {
						b[q] = math.Min(b[q], nd[k].b[q])
						b[q+2] = math.Max(b[q+2], nd[k].b[q+2])
					}
				}
				if nd[p].b != b {
					vfail("%s: node %d of level %d has box %v, its children need %v", d(), p, l, nd[p].b, b)
				}
				want = b
			}
		}
		g := tr.Bounds()
		if ([4]float64{g.XMin, g.YMin, g.XMax, g.YMax}) != want {
			vfail("%s: bounds %v, not %v", d(), g, want)
		}
	}
	shape := 0
	for _, p := range vpairs() {
		check(vrefs(r, p[0], shape), p[1])
		shape = (shape + 1) % 12
	}
	m := 300
	if vthorough() {
		m = 20000
	}
	for i := 0; i < m; i++ {
		n, ns := 1+r.Intn(2000), 2+r.Intn(40)
		check(vrefs(r, n, r.Intn(12)), ns)
	}
	check(vrefs(r, 70000, 1), 2)
	check(vrefs(r, 65537, 1), 65535)
	check(vrefs(r, 40000, 1), 256)
	vwrite()
}
