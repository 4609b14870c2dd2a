package flatgeobuf_test

import (
	"math/rand"
	"testing"
)

// random call sequences on random files against a model of the reader
func TestVerifC15(t *testing.T) {
	n := 5000
	if vthorough() {
		n = 200000
	}
	vReaderRun("C15", n, func(v *vSession, rnd *rand.Rand) {
		if rnd.Intn(4) == 0 {
			vFaults(v, rnd)
		}
	})
	vwrite()
}
