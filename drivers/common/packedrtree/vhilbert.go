package packedrtree_test

import "math"

// vcanon is the position of a cell on the Hilbert curve of order 16, by the
// recursive definition.
func vcanon(x, y uint32) uint32 {
	var d uint32
	var s, c uint32
	for i := 15; i >= 0; i-- {
		X, Y := x>>uint(i)&1, y>>uint(i)&1
		if s == 1 {
			X, Y = Y, X
		}
		X ^= c
		Y ^= c
		d = d<<2 | X<<1 | X ^ Y
		if Y == 0 {
			s ^= 1
			c ^= X
		}
	}
	return d
}

func vscale(m, e, w float64) uint32 {
	if w == 0 {
		return 0
	}
	return uint32(math.Floor(65535 * ((m - e) / w)))
}
