package flatgeobuf_test

import (
	"math/rand"
	"testing"
)

// random call sequences on random files against a model of the reader
func TestVerifC16(t *testing.T) {
	n := 4000
	if vthorough() {
		n = 200000
	}
	vReaderRun("C16", n, func(v *vSession, rnd *rand.Rand) {
		v.seekable = rnd.Intn(5) > 0
		if rnd.Intn(4) == 0 {
			vFaults(v, rnd)
		}
	})
	vwrite()
}
