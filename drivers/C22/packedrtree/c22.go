package packedrtree_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"testing"
	"time"

	"github.com/gogama/flatgeobuf/packedrtree"
)

func TestVerifC22(t *testing.T) {
	vR.Rule = "a case counts when the damaged index is searched, not refused"
	r := vrand()
	m := 4000
	if vthorough() {
		m = 200000
	}
	for i := 0; i < m; i++ {
		n, ns := 1+r.Intn(60), 2+r.Intn(6)
		if i%50 == 0 {
			n = 1 + r.Intn(2000)
		}
		if i%7 == 0 {
			ns = 65535
		}
		lv, total := vlevels(n, ns)
		var b []byte
		if i%5 == 0 {
			b = make([]byte, 40*total)
			r.Read(b)
		} else {
			tr, err := packedrtree.New(vrefs(r, n, r.Intn(12)), uint16(ns))
			if err != nil {
				vfail("New over %d references, node size %d: %v", n, ns, err)
			}
			b = vmarshal(tr)
		}
		nan := []byte{0, 0, 0, 0, 0, 0, 0xf8, 0x7f}
		for k := r.Intn(8); k >= 0; k-- {
			p := r.Intn(total)
			if r.Intn(3) > 0 {
				p = r.Intn(lv[0][0])
			}
			var v int64
			switch r.Intn(12) {
			case 0:
				v = int64(p)
			case 1:
				v = 0
			case 2:
				v = -1
			case 3:
				v = int64(total)
			case 4:
				v = int64(total - 1)
			case 5:
				v = math.MaxInt64 - int64(r.Intn(3))
			case 6:
				v = math.MinInt64 + int64(r.Intn(3))
			case 7:
				v = int64(r.Intn(total))
			case 8:
				v = int64(lv[0][0] + r.Intn(n))
			case 9: // some node of the next level
				for l := 1; l < len(lv); l++ {
					if lv[l][0] <= p && p < lv[l][1] {
						v = int64(lv[l-1][0] + r.Intn(lv[l-1][1]-lv[l-1][0]))
					}
				}
			case 10:
				copy(b[40*p+8*r.Intn(4):], nan)
				continue
			case 11:
				v = int64(binary.LittleEndian.Uint64(b[40*p+32:])) + 1<<32
			}
			binary.LittleEndian.PutUint64(b[40*p+32:], uint64(v))
		}
		if r.Intn(12) == 0 {
			b = b[:r.Intn(len(b)+1)]
		}
		nd := vparse(b)
		q := packedrtree.Box{XMin: math.Inf(-1), YMin: math.Inf(-1), XMax: math.Inf(1), YMax: math.Inf(1)}
		switch r.Intn(4) {
		case 0:
			q = packedrtree.Box{XMin: r.Float64() * 50, YMin: r.Float64() * 50, XMax: 50 + r.Float64()*50, YMax: 50 + r.Float64()*50}
		case 1:
			q.XMin = math.NaN()
		case 2:
			q = packedrtree.Box{XMin: 3, YMin: 4, XMax: 5, YMax: 6}
		}
		d := func() string {
			return fmt.Sprintf("search for %v in %d bytes taken for an index over %d references with node size %d, nodes %v", q, len(b), n, ns, nd[:vmin(len(nd), 9)])
		}
		sound := func(how string, res packedrtree.Results) {
			for _, x := range res {
				if x.RefIndex < 0 || x.RefIndex >= n {
					vfail("%s %s: result position %d is no reference", how, d(), x.RefIndex)
				}
				f := nd[lv[0][0]+x.RefIndex]
				if x.Offset != f.off || !vinter(packedrtree.Box{XMin: f.b[0], YMin: f.b[1], XMax: f.b[2], YMax: f.b[3]}, q) {
					vfail("%s %s: result %v for reference %v", how, d(), x, f)
				}
			}
		}
		vR.Cases++
		vguard(30*time.Second, func() {
			tr, err := packedrtree.Unmarshal(bytes.NewReader(b), n, uint16(ns))
			if err == nil {
				vR.Nontrivial++
				sound("in-memory", tr.Search(q))
			} else if tr != nil {
				vfail("deserializing: error %v with an index; %s", err, d())
			}
			res, err := packedrtree.Seek(bytes.NewReader(b), n, uint16(ns), q)
			if err != nil && len(res) > 0 {
				vfail("streaming %s: %d results with error %v", d(), len(res), err)
			}
			sound("streaming", res)
		}, d)
	}
	vwrite()
}

func vmin(a, b int) int {
	if a < b {
		return a
	}
	return b
}
