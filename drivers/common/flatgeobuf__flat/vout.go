package flat_test

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"time"
)

type vres struct {
	Cases      int      `json:"cases"`
	Nontrivial int      `json:"nontrivial"`
	Rule       string   `json:"rule"`
	Samples    []string `json:"samples"`
	Fail       string   `json:"fail"`
}

var vR vres

func vwrite() {
	b, _ := json.Marshal(vR)
	if f := os.Getenv("VERIF_OUT"); f != "" {
		_ = os.WriteFile(f, b, 0644)
	}
}

// vfail records the first failing input and ends the run.
func vfail(f string, a ...interface{}) {
	vR.Fail = fmt.Sprintf(f, a...)
	vwrite()
	fmt.Println("FAIL:", vR.Fail)
	os.Exit(3)
}

func vsample(f string, a ...interface{}) {
	if len(vR.Samples) < 5 {
		vR.Samples = append(vR.Samples, fmt.Sprintf(f, a...))
	}
}

func vthorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func vrand() *rand.Rand {
	s, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(s)))
}

// vguard runs f; a hang longer than d or a panic is a failure with the given description.
func vguard(d time.Duration, f func(), desc func() string) {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case p := <-done:
		if p != nil {
			vfail("panic: %v; %s", p, desc())
		}
	case <-t.C:
		vfail("no answer after %v; %s", d, desc())
	}
}
