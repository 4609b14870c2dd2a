package packedrtree

import (
	"encoding/json"
	"fmt"
	"os"
	"sync"
	"testing"
)

// TestVerifC08 compares the position of every cell of the grid with the
// canonical recursive definition of the curve: exhaustive, 2^32 cells.
func TestVerifC08(t *testing.T) {
	type st struct{ s, c uint32 }
	step := func(q st, x, y uint32) (st, uint32) {
		if q.s == 1 {
			x, y = y, x
		}
		x ^= q.c
		y ^= q.c
		d := x<<1 | x ^ y
		if y == 0 {
			q.s ^= 1
			q.c ^= x
		}
		return q, d
	}
	// tables for 8 levels at a time
	var low [4][256][256]uint16
	var lowState [4][256][256]uint8
	for k := 0; k < 4; k++ {
		for x := uint32(0); x < 256; x++ {
			for y := uint32(0); y < 256; y++ {
				q := st{uint32(k) & 1, uint32(k) >> 1}
				var d, e uint32
				for i := 7; i >= 0; i-- {
					q, e = step(q, x>>uint(i)&1, y>>uint(i)&1)
					d = d<<2 | e
				}
				low[k][x][y] = uint16(d)
				lowState[k][x][y] = uint8(q.s | q.c<<1)
			}
		}
	}
	var mu sync.Mutex
	fail := ""
	var wg sync.WaitGroup
	for w := uint32(0); w < 8; w++ {
		wg.Add(1)
		go func(w uint32) {
			defer wg.Done()
			for x := w; x < 65536; x += 8 {
				for y := uint32(0); y < 65536; y++ {
					k := lowState[0][x>>8][y>>8]
					want := uint32(low[0][x>>8][y>>8])<<16 | uint32(low[k][x&255][y&255])
					if got := hilbertOfXY(x, y); got != want {
						mu.Lock()
						if fail == "" {
							fail = fmt.Sprintf("hilbertOfXY(%d, %d) = %d, the order-16 curve has %d there", x, y, got, want)
						}
						mu.Unlock()
						return
					}
				}
			}
		}(w)
	}
	wg.Wait()
	b, _ := json.Marshal(map[string]interface{}{"cases": 1 << 32, "nontrivial": 1 << 32, "rule": "every cell of the 65536 x 65536 grid", "samples": []string{fmt.Sprint("cell (65535,0): ", hilbertOfXY(65535, 0)), fmt.Sprint("cell (1,2): ", hilbertOfXY(1, 2))}, "fail": fail})
	if f := os.Getenv("VERIF_OUT"); f != "" {
		os.WriteFile(f, b, 0644)
	}
	if fail != "" {
		fmt.Println("FAIL:", fail)
		os.Exit(3)
	}
}
