package flatgeobuf_test

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"time"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

// vSession drives one FileReader and a model of it side by side.
type vSession struct {
	prop     string // property whose deviations count
	f        *vFile
	s        *vStream
	seekable bool
	closer   bool
	rnd      *rand.Rand
	r        *flatgeobuf.FileReader
	log      []string
	// model
	st      int // 0 start, 1 after header, 2 after index, 3 in data, 4 end
	failing bool
	closed  bool
	next    int // next feature
	rewound bool
	got     []flat.Feature
	want    []int
	nontriv bool
}

func (v *vSession) desc() string {
	return fmt.Sprintf("%v; available=%d failAt=%d seekable=%v; calls: %v", v.f, len(v.s.b), v.s.failAt, v.seekable, v.log)
}

// bad reports a deviation that belongs to one of the given properties.
func (v *vSession) bad(props string, f string, a ...interface{}) {
	for i := 0; i+3 <= len(props); i += 4 {
		p := props[i : i+3]
		if p == v.prop || v.prop == "ALL" {
			vfail("%s; %s", fmt.Sprintf(f, a...), v.desc())
		}
	}
	panic(vStop{})
}

type vStop struct{} // the model and the code disagree about another property: end the session

// tags adds C16 when the reader was rewound before.
func (v *vSession) tags(p string) string {
	if v.rewound {
		return p + " C16"
	}
	return p
}

func (v *vSession) avail(e int) bool { return len(v.s.b) >= e }

// failOp checks an operation that must fail; sticky says whether it poisons the reader.
func (v *vSession) mustFail(props string, err error, sticky, eofOK bool) {
	if err == nil || (!eofOK && err == io.EOF) {
		v.bad(props, "last call returned error %v where an error is due", err)
	}
	if v.closed && !errors.Is(err, flatgeobuf.ErrClosed) {
		v.bad("C13", "last call returned %v on a closed reader", err)
	}
	if sticky {
		v.failing = true
	}
}

func (v *vSession) header() {
	pos := v.s.pos
	fl := v.s.faults
	h, err := v.r.Header()
	v.log = append(v.log, fmt.Sprintf("Header()=%v", err))
	switch {
	case v.failing:
		v.mustFail("C13", err, true, false)
	case v.st != 0:
		v.mustFail("C13", err, false, false)
		if v.s.pos != pos {
			v.bad("C13", "a refused Header moved the stream")
		}
	case v.s.faults > fl || !v.avail(v.f.hend):
		v.mustFail("C12 C13", err, true, false)
	default:
		if err != nil || h == nil {
			v.bad("C12", "Header of a valid file fails: %v", err)
		}
		if v.s.pos != v.f.hend {
			v.bad("C12", "Header left the stream at %d, not at %d", v.s.pos, v.f.hend)
		}
		if int(h.FeaturesCount()) != v.f.announced {
			v.bad("C12", "Header feature count %d", h.FeaturesCount())
		}
		v.st = 1
	}
}

func (v *vSession) index() {
	pos := v.s.pos
	fl := v.s.faults
	t, err := v.r.Index()
	v.log = append(v.log, fmt.Sprintf("Index()=%v", err))
	switch {
	case v.failing:
		v.mustFail("C13", err, true, false)
	case v.st != 1:
		v.mustFail("C13", err, false, false)
		if v.s.pos != pos {
			v.bad("C13", "a refused Index moved the stream")
		}
	case v.f.ns == 0:
		if err != nil || t != nil {
			v.bad("C13", "Index of a file without index: %v, %v", t, err)
		}
		v.st = 2
	case v.s.faults > fl:
		v.mustFail("C13", err, true, false)
	case v.avail(v.f.data) || err == nil:
		if err != nil || t == nil {
			v.bad(v.tags("C14"), "Index fails: %v", err)
		}
		var w bytes.Buffer
		if _, err = t.Marshal(&w); err != nil || !bytes.Equal(w.Bytes(), v.f.index) {
			v.bad(v.tags("C14"), "Index differs from the one in the file")
		}
		v.st = 2
	default:
		v.mustFail("C13 C14", err, true, false)
	}
}

// feature checks a delivered feature.
func (v *vSession) feature(props string, g flat.Feature, k int) {
	if !bytes.Equal(g.Table().Bytes, v.f.feats[k]) {
		v.bad(props, "feature %d has wrong bytes", k)
	}
	if w := 4 + int(uint32(v.f.feats[k][4])|uint32(v.f.feats[k][5])<<8|uint32(v.f.feats[k][6])<<16|uint32(v.f.feats[k][7])<<24); int(g.Table().Pos) != int(uint32(w)) {
		v.bad(props, "feature %d is read from position %d, not %d", k, g.Table().Pos, w)
	}
	v.got = append(v.got, g)
	v.want = append(v.want, k)
}

func (v *vSession) search() {
	q := vBox(v.rnd)
	if v.rnd.Intn(4) == 0 {
		q = packedrtree.Box{XMin: -100, YMin: -100, XMax: 100, YMax: 100}
	}
	pos := v.s.pos
	fl := v.s.faults
	fs, err := v.r.IndexSearch(q)
	v.log = append(v.log, fmt.Sprintf("IndexSearch(%v)=%d,%v", q, len(fs), err))
	if v.failing {
		v.mustFail("C13", err, true, false)
		return
	}
	if v.st != 1 {
		v.mustFail("C13", err, false, false)
		if v.s.pos != pos {
			v.bad("C13", "a refused IndexSearch moved the stream")
		}
		return
	}
	if v.f.ns == 0 {
		if err != flatgeobuf.ErrNoIndex || fs != nil {
			v.bad("C13", "IndexSearch without index: %v", err)
		}
		v.st = 2
		return
	}
	if v.s.faults > fl {
		v.mustFail("C13 C15", err, true, false)
		return
	}
	m := v.f.matches(q)
	end := v.f.data
	if len(m) > 0 {
		k := m[len(m)-1]
		end += v.f.off[k] + len(v.f.feats[k])
	}
	if !v.avail(end) && (!v.seekable || len(m) > 0 || err != nil) {
		v.mustFail("C15", err, true, false)
		if fs != nil {
			v.bad("C15", "results in spite of an error")
		}
		return
	}
	if err != nil || len(fs) != len(m) {
		v.bad(v.tags("C15"), "IndexSearch returns %d features and error %v, want %d", len(fs), err, len(m))
	}
	for i, k := range m {
		v.feature(v.tags("C15"), fs[i], k)
	}
	v.nontriv = v.nontriv || len(m) > 0
	v.st = 4
}

// expect simulates reading up to k features (k<0: the rest).
func (v *vSession) expect(k int) (n int, end, fail bool) {
	if v.st == 1 || v.st == 2 {
		if v.st == 1 && !v.seekable && v.f.ns > 0 && !v.avail(v.f.data) {
			return 0, false, true
		}
		v.st = 3
		v.next = 0
	}
	rem := v.f.announced - v.next
	for k < 0 || n < k {
		if v.f.announced > 0 && n == rem {
			break
		}
		i := v.next + n
		if i >= len(v.f.feats) || !v.avail(v.f.data+v.f.off[i]+len(v.f.feats[i])) {
			e := v.f.data
			if i > 0 {
				e += v.f.off[i-1] + len(v.f.feats[i-1])
			}
			if v.f.announced == 0 && len(v.s.b) <= e {
				return n, true, false
			}
			return n, false, true
		}
		n++
	}
	return n, v.f.announced > 0 && n == rem, false
}

func (v *vSession) data(k int) {
	pos := v.s.pos
	fl := v.s.faults
	var fs []flat.Feature
	var err error
	var n int
	if k < 0 {
		fs, err = v.r.DataRem()
		n = len(fs)
		v.log = append(v.log, fmt.Sprintf("DataRem()=%d,%v", n, err))
	} else {
		fs = make([]flat.Feature, k)
		n, err = v.r.Data(fs)
		v.log = append(v.log, fmt.Sprintf("Data(%d)=%d,%v", k, n, err))
		if n < 0 || n > k {
			v.bad("C14", "Data(%d) returns %d", k, n)
		}
		fs = fs[:n]
	}
	switch {
	case v.failing:
		v.mustFail("C13", err, true, false)
		if n != 0 {
			v.bad("C13", "features after a failure")
		}
		return
	case v.st == 0:
		v.mustFail("C13", err, false, false)
		if v.s.pos != pos || n != 0 {
			v.bad("C13", "a refused read moved the stream")
		}
		return
	case v.st == 4:
		if n != 0 || (k >= 0 && err != io.EOF) || (k < 0 && err != nil) {
			v.bad(v.tags("C14"), "reading at the end: %d features, error %v", n, err)
		}
		return
	}
	if v.s.faults > fl {
		v.mustFail("C13 C14", err, true, false)
		if v.st < 3 {
			v.next = 0
		}
		for i := 0; i < n && v.next+i < len(v.f.feats); i++ {
			v.feature(v.tags("C14"), fs[i], v.next+i)
		}
		return
	}
	wn, end, fail := v.expect(k)
	if n != wn {
		v.bad(v.tags("C14"), "%d features delivered, want %d", n, wn)
	}
	for i := 0; i < n; i++ {
		v.feature(v.tags("C14"), fs[i], v.next+i)
	}
	v.next += n
	v.nontriv = v.nontriv || n > 0
	switch {
	case fail:
		v.mustFail(v.tags("C14"), err, true, false)
	case end:
		if (k >= 0 && err != io.EOF) || (k < 0 && err != nil) {
			v.bad(v.tags("C14"), "error %v at the end", err)
		}
		v.st = 4
	default:
		if err != nil {
			v.bad(v.tags("C14"), "error %v before the end", err)
		}
	}
}

func (v *vSession) rewind() {
	pos := v.s.pos
	err := v.r.Rewind()
	v.log = append(v.log, fmt.Sprintf("Rewind()=%v", err))
	switch {
	case v.failing:
		v.mustFail("C13", err, true, false)
	case v.st == 1:
		if err != nil {
			v.bad("C16", "Rewind directly after the header: %v", err)
		}
	case v.st != 0 && v.seekable && v.f.ns > 0:
		if err != nil {
			v.bad("C16", "Rewind fails: %v", err)
		}
		v.st = 1
		v.next = 0
		v.rewound = true
	default:
		v.mustFail("C16", err, false, false)
		if v.s.pos != pos {
			v.bad("C16", "a refused Rewind moved the stream")
		}
	}
}

func (v *vSession) close() {
	c := v.s.closed
	err := v.r.Close()
	v.log = append(v.log, fmt.Sprintf("Close()=%v", err))
	if v.closed {
		v.mustFail("C13", err, true, false)
		if v.s.closed != c {
			v.bad("C13", "closed again")
		}
		return
	}
	if err != nil {
		v.bad("C13", "Close: %v", err)
	}
	if v.closer && v.s.closed != c+1 {
		v.bad("C13", "Close does not close the stream")
	}
	v.closed = true
	v.failing = true
}

// finish checks that the delivered features are still what they were and share nothing.
func (v *vSession) finish() {
	for i := range v.got {
		b := v.got[i].Table().Bytes
		if !bytes.Equal(b, v.f.feats[v.want[i]]) {
			v.bad("C14", "feature %d changed after delivery", v.want[i])
		}
		for k := range b {
			b[k] ^= 255
		}
		for j := i + 1; j < len(v.got); j++ {
			if !bytes.Equal(v.got[j].Table().Bytes, v.f.feats[v.want[j]]) {
				v.bad("C14", "features %d and %d share storage", v.want[i], v.want[j])
			}
		}
		for k := range b {
			b[k] ^= 255
		}
	}
}

// vReaderRun runs random sessions and counts deviations of property prop.
func vReaderRun(prop string, cases int, shape func(v *vSession, rnd *rand.Rand)) {
	rnd := vrand()
	vR.Rule = "a session counts when at least one feature was delivered"
	for c := 0; c < cases; c++ {
		n := rnd.Intn(7)
		if rnd.Intn(40) == 0 {
			n = 1025 + rnd.Intn(3000)
		}
		ns := []int{0, 2, 2, 3, 16, 65535}[rnd.Intn(6)]
		f := vRandFile(rnd, n, ns, rnd.Intn(4) == 0)
		s := &vStream{b: f.b, failAt: -1, seeks: -1}
		if rnd.Intn(2) == 0 && n < 100 {
			s.rnd = rnd
		}
		v := &vSession{prop: prop, f: f, s: s, rnd: rnd, seekable: rnd.Intn(3) > 0, closer: rnd.Intn(2) == 0}
		if shape != nil {
			shape(v, rnd)
		}
		v.r = flatgeobuf.NewFileReader(vWrap(s, v.seekable, v.closer))
		steps := 1 + rnd.Intn(14)
		vguard(20*time.Second, func() {
			defer func() {
				if p := recover(); p != nil {
					if _, ok := p.(vStop); !ok {
						vfail("panic: %v; %s", p, v.desc())
					}
				}
			}()
			if rnd.Intn(10) > 0 {
				v.header()
			}
			for i := 0; i < steps; i++ {
				switch rnd.Intn(12) {
				case 0:
					v.header()
				case 1, 2:
					v.index()
				case 3, 4:
					v.search()
				case 5, 6, 7:
					v.data(rnd.Intn(4))
				case 8:
					v.data(-1)
				case 9, 10:
					v.rewind()
				case 11:
					if rnd.Intn(4) == 0 {
						v.close()
					} else {
						v.data(rnd.Intn(1500))
					}
				}
			}
			v.finish()
		}, v.desc)
		vR.Cases++
		if v.nontriv {
			vR.Nontrivial++
			vsample("%s", v.desc())
		}
	}
}

// vFaults truncates the stream or makes it fail.
func vFaults(v *vSession, rnd *rand.Rand) {
	switch rnd.Intn(4) {
	case 0:
		v.s.b = v.s.b[:rnd.Intn(len(v.s.b)+1)]
	case 1:
		v.s.failAt = rnd.Intn(len(v.s.b) + 1)
	case 2:
		v.s.seeks = rnd.Intn(6)
	}
}
