package flatgeobuf_test

import (
	"math/rand"
	"testing"
)

// random call sequences on random files against a model of the reader
func TestVerifC13(t *testing.T) {
	n := 4000
	if vthorough() {
		n = 200000
	}
	vReaderRun("C13", n, func(v *vSession, rnd *rand.Rand) {
		vFaults(v, rnd)
	})
	vwrite()
}
