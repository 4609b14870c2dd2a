package packedrtree_test

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"github.com/gogama/flatgeobuf/packedrtree"
)

func TestVerifC03(t *testing.T) {
	vR.Rule = "a case counts when some but not all references touch the query"
	r := vrand()
	check := func(refs []packedrtree.Ref, ns, m int) {
		tr, err := packedrtree.New(refs, uint16(ns))
		if err != nil {
			vfail("New over %d references, node size %d: %v", len(refs), ns, err)
		}
		b := vmarshal(tr)
		t2, err := packedrtree.Unmarshal(bytes.NewReader(b), len(refs), uint16(ns))
		if err != nil {
			vfail("Unmarshal of an index over %d references, node size %d: %v", len(refs), ns, err)
		}
		for k, q := range vqueries(r, refs, m) {
			q := q
			d := func() string {
				return fmt.Sprintf("search for %v in an index over %d references with node size %d, first %v", q, len(refs), ns, refs[0])
			}
			vguard(20*time.Second, func() {
				want := vwant(refs, q)
				vR.Cases++
				if len(want) > 0 && len(want) < len(refs) {
					vR.Nontrivial++
				}
				x := tr
				if k%2 == 1 {
					x = t2
				}
				if s := vdiff(x.Search(q), want, false); s != "" {
					vfail("%s: %s", d(), s)
				}
			}, d)
		}
		if !bytes.Equal(vmarshal(tr), b) {
			vfail("searching changes the index over %d references with node size %d", len(refs), ns)
		}
	}
	shape := 0
	for _, p := range vpairs() {
		check(vrefs(r, p[0], shape), p[1], 12)
		shape = (shape + 1) % 12
	}
	m := 300
	if vthorough() {
		m = 10000
	}
	for i := 0; i < m; i++ {
		check(vrefs(r, 1+r.Intn(1500), r.Intn(12)), 2+r.Intn(40), 20)
	}
	vwrite()
}
