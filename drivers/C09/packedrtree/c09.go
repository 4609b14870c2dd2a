package packedrtree_test

import (
	"encoding/json"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
)

// The package as it is built for s390x, its build constraints removed, runs
// here on a little-endian machine: the byte order it then reads and writes is
// the reverse, field by field, of what this machine would write.
const v9main = `package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"time"

	"vswap/packedrtree"
)

var cases, nontrivial int

func report(fail string) {
	b, _ := json.Marshal(map[string]interface{}{"cases": cases, "nontrivial": nontrivial, "fail": fail})
	fmt.Println(string(b))
	os.Exit(0)
}

func fail(f string, a ...interface{}) { report("on a big-endian host: " + fmt.Sprintf(f, a...)) }

type short struct {
	n, max int
	buf  []byte
}

var errW = errors.New("write failure")

func (w *short) Write(p []byte) (int, error) {
	k := len(p)
	var err error
	if len(w.buf)+k > w.n {
		k, err = w.n-len(w.buf), errW
	}
	w.buf = append(w.buf, p[:k]...)
	return k, err
}

type node struct {
	b   [4]float64
	off int64
}

func be(ns []node) []byte {
	var b []byte
	put := func(u uint64) {
		for k := 7; k >= 0; k-- {
			b = append(b, byte(u>>(8*k)))
		}
	}
	for _, n := range ns {
		for k := 0; k < 4; k++ {
			put(math.Float64bits(n.b[k]))
		}
		put(uint64(n.off))
	}
	return b
}

func levels(n, ns int) (lv [][2]int, total int) {
	var c []int
	for {
		c = append(c, n)
		total += n
		if n == 1 && len(c) > 1 {
			break
		}
		n = (n + ns - 1) / ns
	}
	e := total
	for _, k := range c {
		lv = append(lv, [2]int{e - k, e})
		e -= k
	}
	return
}

func check(r *rand.Rand, n, ns int, cuts bool) {
	cases++
	if n > 1 {
		nontrivial++
	}
	refs := make([]packedrtree.Ref, n)
	for i := range refs {
		x, y := r.NormFloat64()*1000, r.NormFloat64()*1e-3
		refs[i] = packedrtree.Ref{Box: packedrtree.Box{XMin: x, YMin: y, XMax: x + r.Float64(), YMax: y + r.Float64()*3}, Offset: int64(r.Uint64() >> 1)}
	}
	d := fmt.Sprintf("index over %d references, first %v, node size %d", n, refs[0], ns)
	tr, err := packedrtree.New(refs, uint16(ns))
	if err != nil {
		fail("%s: %v", d, err)
	}
	lv, total := levels(n, ns)
	nd := make([]node, total)
	for i, f := range refs {
		nd[lv[0][0]+i] = node{[4]float64{f.XMin, f.YMin, f.XMax, f.YMax}, f.Offset}
	}
	inf := math.Inf(1)
	for l := 1; l < len(lv); l++ {
		for p := lv[l][0]; p < lv[l][1]; p++ {
			c := lv[l-1][0] + (p-lv[l][0])*ns
			m := node{[4]float64{inf, inf, -inf, -inf}, int64(c)}
			for k := c; k < c+ns && k < lv[l-1][1]; k++ {
				for q := 0; q < 2; q++ {
					m.b[q] = math.Min(m.b[q], nd[k].b[q])
					m.b[q+2] = math.Max(m.b[q+2], nd[k].b[q+2])
				}
			}
			nd[p] = m
		}
	}
	want := be(nd)
	for pass := 0; pass < 2; pass++ {
		var w bytes.Buffer
		m, err := tr.Marshal(&w)
		if err != nil || m != len(want) {
			fail("%s: Marshal returns %d, %v for %d bytes", d, m, err, len(want))
		}
		if !bytes.Equal(w.Bytes(), want) {
			k := 0
			for k < w.Len() && w.Bytes()[k] == want[k] {
				k++
			}
			fail("%s: byte %d of the serialized index is wrong (serialization %d)", d, k, pass+1)
		}
	}
	rd := bytes.NewReader(append(append([]byte{9, 9}, want...), 1, 2, 3))
	rd.Seek(2, io.SeekStart)
	t2, err := packedrtree.Unmarshal(rd, n, uint16(ns))
	if err != nil || rd.Len() != 3 {
		fail("%s: Unmarshal of its own bytes: %v, %d bytes left", d, err, rd.Len())
	}
	var w bytes.Buffer
	if _, err := t2.Marshal(&w); err != nil || !bytes.Equal(w.Bytes(), want) {
		fail("%s: the deserialized index serializes differently, err %v", d, err)
	}
	for k := 0; k < 4; k++ {
		q := tr.Bounds()
		if k > 0 {
			q = refs[r.Intn(n)].Box
		}
		a, b := tr.Search(q), t2.Search(q)
		rd.Seek(2, io.SeekStart)
		c, err := packedrtree.Seek(rd, n, uint16(ns), q)
		if err != nil || len(a) != len(b) || len(a) != len(c) || len(a) == 0 {
			fail("%s: query %v: %d results, %d after deserializing, %d from the stream, err %v", d, q, len(a), len(b), len(c), err)
		}
		in := map[packedrtree.Result]bool{}
		for i := range a {
			in[a[i]] = true
		}
		for i := range a {
			if !in[b[i]] || !in[c[i]] {
				fail("%s: query %v: results %v, %v after deserializing, %v from the stream", d, q, a, b, c)
			}
		}
	}
	if cuts {
		for i := 0; i < 40; i++ {
			k := r.Intn(len(want))
			if i < 4 {
				k = len(want) - 1 - i
			}
			w := &short{n: k}
			m, err := tr.Marshal(w)
			if err != errW || m != k || !bytes.Equal(w.buf, want[:k]) {
				fail("%s: Marshal to a writer that fails after %d of %d bytes returns %d, %v", d, k, len(want), m, err)
			}
			if t3, err := packedrtree.Unmarshal(bytes.NewReader(want[:k]), n, uint16(ns)); err == nil || t3 != nil {
				fail("%s: Unmarshal of %d of %d bytes succeeds", d, k, len(want))
			}
		}
	}
}

func main() {
	r := rand.New(rand.NewSource(SEED))
	defer func() {
		if p := recover(); p != nil {
			fail("panic: %v", p)
		}
	}()
	go func() {
		time.Sleep(60 * time.Second)
		fail("no answer after 60 s")
	}()
	for n := 1; n <= 60; n++ {
		for _, ns := range []int{2, 3, 4, 7, 16, 255} {
			check(r, n, ns, n%7 == 1)
		}
	}
	// sizes around multiples of internal buffers (8096 = 4 * 2024, 4096, 8192, 32768, 65536)
	for _, k := range []int{2024, 2023, 2025, 4048, 8096, 4096, 8192, 819, 1638, 6554, 202, 203, 404, 405} {
		check(r, k, 16, true)
		check(r, k-k/16, 16, true)
	}
	for i := 0; i < 150; i++ {
		check(r, 1+r.Intn(1200), 2+r.Intn(20), i%10 == 0)
	}
	report("")
}
`

func v9run(env []string, dir, name string, a ...string) (string, error) {
	c := exec.Command(name, a...)
	c.Dir = dir
	c.Env = append(os.Environ(), env...)
	b, err := c.CombinedOutput()
	return string(b), err
}

func TestVerifC09(t *testing.T) {
	vR.Rule = "a case counts when the index has more than two nodes"
	repo, err := filepath.Abs("..")
	if err != nil {
		t.Skip(err)
	}
	tmp, err := os.MkdirTemp("", "v9")
	if err != nil {
		t.Skip(err)
	}
	fail := func(f string, a ...interface{}) {
		os.RemoveAll(tmp)
		vfail(f, a...)
	}
	archs := []string{"s390x"}
	if vthorough() {
		archs = []string{"s390x", "ppc64", "mips", "mips64"}
	}
	for _, a := range archs {
		vR.Cases++
		if out, err := v9run([]string{"GOARCH=" + a, "CGO_ENABLED=0"}, repo, "go", "build", "-o", filepath.Join(tmp, "x.a"), "./packedrtree"); err != nil {
			fail("GOARCH=%s go build ./packedrtree: %v\n%s", a, err, out)
		}
	}
	out, err := v9run([]string{"GOARCH=s390x", "CGO_ENABLED=0"}, repo, "go", "list", "-f", "{{join .GoFiles \" \"}}", "./packedrtree")
	if err != nil {
		t.Skip(out)
	}
	pd := filepath.Join(tmp, "packedrtree")
	os.MkdirAll(pd, 0755)
	for i, f := range strings.Fields(out) {
		b, err := os.ReadFile(filepath.Join(repo, "packedrtree", f))
		if err != nil {
			t.Skip(err)
		}
		var ls []string
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "//go:build") || strings.HasPrefix(l, "// +build") {
				continue
			}
			ls = append(ls, l)
		}
		os.WriteFile(filepath.Join(pd, "f"+string(rune('a'+i))+".go"), []byte(strings.Join(ls, "\n")), 0644)
	}
	os.WriteFile(filepath.Join(tmp, "go.mod"), []byte("module vswap\n\ngo 1.20\n"), 0644)
	seed := os.Getenv("VERIF_SEED")
	if seed == "" {
		seed = "1"
	}
	os.WriteFile(filepath.Join(tmp, "main.go"), []byte(strings.ReplaceAll(v9main, "SEED", seed)), 0644)
	out, err = v9run([]string{"GOFLAGS="}, tmp, "go", "run", ".")
	i := strings.LastIndex(strings.TrimSpace(out), "\n")
	var m struct {
		Cases, Nontrivial int
		Fail              string
	}
	if json.Unmarshal([]byte(out[i+1:]), &m) != nil {
		if err != nil && strings.Contains(out, "panic") {
			fail("on a big-endian host: %s", out)
		}
		os.RemoveAll(tmp)
		t.Fatalf("%v\n%s", err, out)
	}
	vR.Cases += m.Cases
	vR.Nontrivial += m.Nontrivial
	if m.Fail != "" {
		fail("%s", m.Fail)
	}
	os.RemoveAll(tmp)
	vwrite()
}
