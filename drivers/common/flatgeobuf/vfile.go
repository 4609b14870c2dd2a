package flatgeobuf_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"sort"

	flatbuffers "github.com/google/flatbuffers/go"

	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

// vFile is a FlatGeobuf file assembled without the package's writer.
type vFile struct {
	b         []byte // the bytes
	announced int    // feature count in the header
	ns        int    // effective index node size (0: no index)
	hend      int    // end of the header
	data      int    // start of the data section
	feats     [][]byte
	off       []int // offset of each feature in the data section
	boxes     []packedrtree.Box
	index     []byte
}

func (f *vFile) String() string {
	return fmt.Sprintf("file of %d bytes: announced=%d nodeSize=%d header end=%d data=%d features=%d", len(f.b), f.announced, f.ns, f.hend, f.data, len(f.feats))
}

func vHeaderTable(count uint64, ns uint16, pad int) []byte {
	b := flatbuffers.NewBuilder(64)
	var name flatbuffers.UOffsetT
	if pad > 0 {
		name = b.CreateString(string(bytes.Repeat([]byte("x"), pad)))
	}
	flat.HeaderStart(b)
	if pad > 0 {
		flat.HeaderAddName(b, name)
	}
	flat.HeaderAddFeaturesCount(b, count)
	flat.HeaderAddIndexNodeSize(b, ns)
	b.FinishSizePrefixed(flat.HeaderEnd(b))
	return b.FinishedBytes()
}

var vMagic = []byte{'f', 'g', 'b', 3, 'f', 'g', 'b', 0}

func vBox(rnd *rand.Rand) packedrtree.Box {
	x, y := float64(rnd.Intn(20)-10), float64(rnd.Intn(20)-10)
	return packedrtree.Box{XMin: x, YMin: y, XMax: x + float64(rnd.Intn(5)), YMax: y + float64(rnd.Intn(5))}
}

func vTouch(a, b packedrtree.Box) bool {
	return a.XMin <= b.XMax && a.XMax >= b.XMin && a.YMin <= b.YMax && a.YMax >= b.YMin
}

// vRandFile makes a file with n features.
func vRandFile(rnd *rand.Rand, n, ns int, unknown bool) *vFile {
	f := &vFile{announced: n, ns: ns}
	if unknown {
		f.announced = 0
	}
	h := vHeaderTable(uint64(f.announced), uint16(ns), rnd.Intn(3)*rnd.Intn(30))
	if f.announced == 0 {
		f.ns = 0
	}
	f.b = append(append(f.b, vMagic...), h...)
	f.b[7] = byte(rnd.Intn(3))
	f.hend = len(f.b)
	var data []byte
	for i := 0; i < n; i++ {
		l := 4 + rnd.Intn(24)
		p := make([]byte, 4+l)
		rnd.Read(p)
		binary.LittleEndian.PutUint32(p, uint32(l))
		f.off = append(f.off, len(data))
		f.feats = append(f.feats, p)
		f.boxes = append(f.boxes, vBox(rnd))
		data = append(data, p...)
	}
	if f.ns > 0 {
		refs := make([]packedrtree.Ref, n)
		for i := range refs {
			refs[i] = packedrtree.Ref{Box: f.boxes[i], Offset: int64(f.off[i])}
		}
		if rnd.Intn(2) == 0 {
			rnd.Shuffle(n, func(i, j int) { refs[i], refs[j] = refs[j], refs[i] })
		}
		t, err := packedrtree.New(refs, uint16(f.ns))
		if err != nil {
			vfail("New: %v", err)
		}
		var w bytes.Buffer
		if _, err = t.Marshal(&w); err != nil {
			vfail("Marshal: %v", err)
		}
		f.index = w.Bytes()
		f.b = append(f.b, f.index...)
	}
	f.data = len(f.b)
	f.b = append(f.b, data...)
	return f
}

// matches lists the features whose boxes share a point with q, in file order.
func (f *vFile) matches(q packedrtree.Box) []int {
	var m []int
	for i := range f.boxes {
		if vTouch(f.boxes[i], q) {
			m = append(m, i)
		}
	}
	sort.Ints(m)
	return m
}

// vStream is a byte stream that may end early, fail, and read in small pieces.
type vStream struct {
	b       []byte
	pos     int
	failAt  int // reads at or beyond this position fail (-1: never)
	seeks   int // seeks until one fails (-1: never)
	faults  int
	rnd     *rand.Rand
	closed  int
	closeEr error
}

func (s *vStream) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if s.failAt >= 0 && s.pos >= s.failAt {
		s.faults++
		return 0, vErrBoom
	}
	if s.pos >= len(s.b) {
		return 0, io.EOF
	}
	e := len(s.b)
	if s.failAt >= 0 && e > s.failAt {
		e = s.failAt
	}
	n := copy(p, s.b[s.pos:e])
	if s.rnd != nil {
		switch s.rnd.Intn(8) {
		case 0:
			return 0, nil
		case 1, 2, 3:
			n = 1 + s.rnd.Intn(n)
		}
	}
	s.pos += n
	if s.pos == len(s.b) && s.rnd != nil && s.rnd.Intn(2) == 0 {
		return n, io.EOF
	}
	return n, nil
}

func (s *vStream) seek(o int64, w int) (int64, error) {
	if s.seeks == 0 {
		s.faults++
		return 0, vErrBoom
	}
	if s.seeks > 0 {
		s.seeks--
	}
	switch w {
	case io.SeekCurrent:
		o += int64(s.pos)
	case io.SeekEnd:
		o += int64(len(s.b))
	}
	if o < 0 {
		return 0, vErrBoom
	}
	s.pos = int(o)
	return o, nil
}

func (s *vStream) close() error {
	s.closed++
	return s.closeEr
}

type vPlain struct{ *vStream }
type vPlainC struct{ *vStream }
type vSeek struct{ *vStream }
type vSeekC struct{ *vStream }

func (s vPlainC) Close() error                      { return s.close() }
func (s vSeekC) Close() error                       { return s.close() }
func (s vSeek) Seek(o int64, w int) (int64, error)  { return s.seek(o, w) }
func (s vSeekC) Seek(o int64, w int) (int64, error) { return s.seek(o, w) }
func vWrap(s *vStream, seekable, closer bool) io.Reader {
	switch {
	case seekable && closer:
		return vSeekC{s}
	case seekable:
		return vSeek{s}
	case closer:
		return vPlainC{s}
	}
	return vPlain{s}
}
