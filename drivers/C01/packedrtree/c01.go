package packedrtree_test

import (
	"fmt"
	"math"
	"math/big"
	"testing"
	"time"

	"github.com/gogama/flatgeobuf/packedrtree"
)

// vsize is the number of bytes of the tree, computed without overflow.
func vsize(n int, ns uint16) *big.Int {
	N, S := big.NewInt(int64(n)), big.NewInt(int64(ns))
	total := new(big.Int).Set(N)
	one := big.NewInt(1)
	for {
		N = new(big.Int).Div(new(big.Int).Sub(new(big.Int).Add(N, S), one), S)
		total.Add(total, N)
		if N.Cmp(one) == 0 {
			break
		}
	}
	return total.Mul(total, big.NewInt(40))
}

func TestVerifC01(t *testing.T) {
	vR.Rule = "a case counts when the tree has at least two internal levels or its size does not fit an int"
	check := func(n int, ns uint16) {
		var got int
		var err error
		vguard(20*time.Second, func() { got, err = packedrtree.Size(n, ns) }, func() string { return fmt.Sprintf("Size(%d, %d)", n, ns) })
		want := vsize(n, ns)
		vR.Cases++
		if n > int(ns) {
			vR.Nontrivial++
		}
		if want.IsInt64() {
			if err != nil || int64(got) != want.Int64() {
				vfail("Size(%d, %d) = %d, %v; the tree has %v bytes", n, ns, got, err, want)
			}
		} else if err == nil {
			vfail("Size(%d, %d) = %d, nil; the tree has %v bytes, more than an int can hold", n, ns, got, want)
		}
	}
	mustPanic := func(n int, ns uint16) {
		p := false
		func() {
			defer func() { p = recover() != nil }()
			packedrtree.Size(n, ns)
		}()
		vR.Cases++
		if !p {
			vfail("Size(%d, %d) does not panic", n, ns)
		}
	}
	for _, n := range []int{0, -1, math.MinInt64, 1, 5} {
		for _, ns := range []uint16{0, 1} {
			mustPanic(n, ns)
		}
	}
	for _, n := range []int{0, -1, -2, math.MinInt64, math.MinInt64 + 1} {
		for _, ns := range []uint16{2, 16, 65535} {
			mustPanic(n, ns)
		}
	}
	for n := 1; n <= 300; n++ {
		for ns := 2; ns <= 70; ns++ {
			check(n, uint16(ns))
		}
	}
	all := []uint16{2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 1000, 32767, 32768, 32769, 65534, 65535}
	for _, ns := range all {
		// the largest count whose size fits, by bisection
		lo, hi := 1, math.MaxInt64
		for lo < hi {
			mid := lo + (hi-lo)/2 + (hi-lo)%2
			if vsize(mid, ns).IsInt64() {
				lo = mid
			} else {
				hi = mid - 1
			}
		}
		vsample("largest count for node size %d: %d", ns, lo)
		for d := -40; d <= 40; d++ {
			if lo+d >= 1 {
				check(lo+d, ns)
			}
		}
		// powers of the node size and of two
		for p := 1; p > 0 && p < math.MaxInt64/int(ns); p *= int(ns) {
			for d := -2; d <= 2; d++ {
				if p+d >= 1 {
					check(p+d, ns)
				}
			}
		}
		for b := 0; b < 63; b++ {
			for d := -2; d <= 2; d++ {
				if n := 1<<b + d; n >= 1 {
					check(n, ns)
				}
			}
		}
		for d := 0; d < 40; d++ {
			check(math.MaxInt64-d, ns)
		}
	}
	r := vrand()
	m := 20000
	if vthorough() {
		m = 1000000
	}
	for i := 0; i < m; i++ {
		n := int(uint64(r.Int63())>>uint(r.Intn(63))) + 1
		if n < 1 {
			n = math.MaxInt64
		}
		ns := uint16(2 + r.Intn(65534)>>uint(r.Intn(15)))
		if ns < 2 {
			ns = 2
		}
		check(n, ns)
	}
	vwrite()
}
