package packedrtree_test

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"github.com/gogama/flatgeobuf/packedrtree"
)

func TestVerifC04(t *testing.T) {
	vR.Rule = "a case counts when some but not all references touch the query"
	r := vrand()
	check := func(refs []packedrtree.Ref, ns, m int, faults bool) {
		n := len(refs)
		tr, err := packedrtree.New(refs, uint16(ns))
		if err != nil {
			vfail("New over %d references, node size %d: %v", n, ns, err)
		}
		b := vmarshal(tr)
		start := []int{0, 1, 7, 100, 1000}[r.Intn(5)]
		all := append(bytes.Repeat([]byte{0xab}, start), b...)
		end := int64(len(all))
		all = append(all, 0xcd, 0xcd, 0xcd)
		if r.Intn(4) == 0 {
			all = all[:end]
		}
		for _, q := range vqueries(r, refs, m) {
			q := q
			d := func() string {
				return fmt.Sprintf("streaming search for %v in an index over %d references with node size %d, first %v, that starts at byte %d", q, n, ns, refs[0], start)
			}
			vguard(20*time.Second, func() {
				want := vwant(refs, q)
				vR.Cases++
				if len(want) > 0 && len(want) < n {
					vR.Nontrivial++
				}
				s := &vseeker{b: all, pos: int64(start), chunk: []int{0, 0, 1, 39, 41, 64}[r.Intn(6)]}
				got, err := packedrtree.Seek(s, n, uint16(ns), q)
				if err != nil {
					vfail("%s: %v", d(), err)
				}
				if x := vdiff(got, want, true); x != "" {
					vfail("%s: %s", d(), x)
				}
				if s.pos != end {
					vfail("%s: the stream is left at byte %d, the index ends at %d", d(), s.pos, end)
				}
				if x := vdiff(tr.Search(q), want, false); x != "" {
					vfail("in-memory %s: %s", d(), x)
				}
				if !faults {
					return
				}
				ops := s.ops
				for k := 1; k <= ops && k < 40; k++ {
					f := &vseeker{b: all, pos: int64(start), chunk: s.chunk, failAt: k}
					got, err := packedrtree.Seek(f, n, uint16(ns), q)
					if err == nil || len(got) > 0 {
						vfail("%s: with operation %d of the stream failing: %d results, error %v", d(), k, len(got), err)
					}
				}
				f := &vseeker{b: all[:start+40*(n/2)], pos: int64(start)}
				if got, err := packedrtree.Seek(f, n, uint16(ns), q); len(got) > 0 && err != nil {
					vfail("%s: results along with error %v", d(), err)
				}
			}, d)
		}
	}
	shape := 0
	for i, p := range vpairs() {
		check(vrefs(r, p[0], shape), p[1], 8, i%4 == 0)
		shape = (shape + 1) % 12
	}
	m := 300
	if vthorough() {
		m = 8000
	}
	for i := 0; i < m; i++ {
		check(vrefs(r, 1+r.Intn(1200), r.Intn(12)), 2+r.Intn(40), 12, i%10 == 0)
	}
	// an index that cannot end within int64
	f := &vseeker{b: make([]byte, 100), pos: 1<<63 - 100}
	if _, err := packedrtree.Seek(f, 1, 2, packedrtree.EmptyBox); err != nil {
		// reading beyond the end fails either way
		_ = err
	} else {
		vfail("streaming search of an index that starts beyond the end of the stream succeeds")
	}
	vwrite()
}
