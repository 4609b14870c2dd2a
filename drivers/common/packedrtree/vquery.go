package packedrtree_test

import (
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"sort"

	"github.com/gogama/flatgeobuf/packedrtree"
)

// vqueries makes query boxes that are worth trying against refs.
func vqueries(r *rand.Rand, refs []packedrtree.Ref, m int) []packedrtree.Box {
	inf := math.Inf(1)
	out := []packedrtree.Box{{XMin: -inf, YMin: -inf, XMax: inf, YMax: inf}, packedrtree.EmptyBox}
	for i := 0; i < m; i++ {
		f := refs[r.Intn(len(refs))].Box
		g := refs[r.Intn(len(refs))].Box
		switch r.Intn(9) {
		case 0:
			out = append(out, f)
		case 1: // its corner
			out = append(out, packedrtree.Box{XMin: f.XMax, YMin: f.YMax, XMax: f.XMax, YMax: f.YMax})
		case 2: // its other corner
			out = append(out, packedrtree.Box{XMin: f.XMin, YMin: f.YMin, XMax: f.XMin, YMax: f.YMin})
		case 3: // ends at it from the left
			out = append(out, packedrtree.Box{XMin: f.XMin - 3, YMin: f.YMin, XMax: f.XMin, YMax: f.YMax})
		case 4: // just misses it
			out = append(out, packedrtree.Box{XMin: f.XMin - 3, YMin: f.YMin, XMax: math.Nextafter(f.XMin, -inf), YMax: f.YMax})
		case 5: // from one to another
			out = append(out, packedrtree.Box{XMin: math.Min(f.XMin, g.XMin), YMin: math.Min(f.YMin, g.YMin), XMax: math.Max(f.XMax, g.XMax), YMax: math.Max(f.YMax, g.YMax)})
		case 6: // above
			out = append(out, packedrtree.Box{XMin: -inf, YMin: f.YMax, XMax: inf, YMax: inf})
		case 7:
			x, y := r.Float64()*110, r.Float64()*110
			out = append(out, packedrtree.Box{XMin: x, YMin: y, XMax: x + r.Float64()*20, YMax: y + r.Float64()*20})
		case 8:
			out = append(out, packedrtree.Box{XMin: vvals[r.Intn(len(vvals))], YMin: vvals[r.Intn(len(vvals))], XMax: vvals[r.Intn(len(vvals))], YMax: vvals[r.Intn(len(vvals))]})
		}
	}
	return out
}

// vwant gives the positions of the references that touch q, ascending.
func vwant(refs []packedrtree.Ref, q packedrtree.Box) []packedrtree.Result {
	var out []packedrtree.Result
	for i := range refs {
		if vinter(refs[i].Box, q) {
			out = append(out, packedrtree.Result{Offset: refs[i].Offset, RefIndex: i})
		}
	}
	return out
}

// vdiff compares results with those wanted; ordered says whether their order matters.
func vdiff(got packedrtree.Results, want []packedrtree.Result, ordered bool) string {
	g := append([]packedrtree.Result(nil), got...)
	if !ordered {
		sort.SliceStable(g, func(i, j int) bool { return g[i].RefIndex < g[j].RefIndex })
	}
	for i := range g {
		if i >= len(want) || g[i] != want[i] {
			w := "nothing"
			if i < len(want) {
				w = fmt.Sprint(want[i])
			}
			return fmt.Sprintf("result %d (by position) is {offset position} %v, wanted %s", i, g[i], w)
		}
	}
	if len(g) < len(want) {
		return fmt.Sprintf("reference %d is missing", want[len(g)].RefIndex)
	}
	return ""
}

var verr = errors.New("stream failure")

// vseeker is a seekable stream that serves at most chunk bytes at a time and
// fails at operation failAt (from 1; 0 for never).
type vseeker struct {
	b      []byte
	pos    int64
	chunk  int
	ops    int
	failAt int
	reads  [][2]int64
}

func (s *vseeker) Read(p []byte) (int, error) {
	s.ops++
	if s.ops == s.failAt {
		return 0, verr
	}
	if s.pos >= int64(len(s.b)) {
		return 0, io.EOF
	}
	if s.chunk > 0 && len(p) > s.chunk {
		p = p[:s.chunk]
	}
	n := copy(p, s.b[s.pos:])
	s.pos += int64(n)
	return n, nil
}

func (s *vseeker) Seek(o int64, w int) (int64, error) {
	s.ops++
	if s.ops == s.failAt {
		return 0, verr
	}
	switch w {
	case io.SeekCurrent:
		o += s.pos
	case io.SeekEnd:
		o += int64(len(s.b))
	}
	if o < 0 {
		return 0, errors.New("seek before the start")
	}
	s.pos = o
	return o, nil
}
