package flat_test

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"testing"
	"time"

	flatbuffers "github.com/google/flatbuffers/go"

	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
)

type vField struct {
	name   string
	slot   int
	dflt   interface{}
	prep   func(*flatbuffers.Builder, *rand.Rand) (func(), interface{})
	get    func(interface{}) interface{}
	mutate func(interface{}, *rand.Rand) (bool, interface{})
}

type vTable struct {
	name             string
	start            func(*flatbuffers.Builder)
	end              func(*flatbuffers.Builder) flatbuffers.UOffsetT
	finish, finishSP func(*flatbuffers.Builder, flatbuffers.UOffsetT)
	root, rootSP     func([]byte, flatbuffers.UOffsetT) interface{}
	table            func(interface{}) flatbuffers.Table
	fields           []vField
}

func vU32(r *rand.Rand) uint32 {
	switch r.Intn(4) {
	case 0:
		return uint32(r.Intn(20))
	case 1:
		return uint32(int32(-1 - r.Intn(3)))
	}
	return r.Uint32()
}
func vU64(r *rand.Rand) uint64 {
	if r.Intn(3) == 0 {
		return uint64(r.Intn(20))
	}
	return r.Uint64()
}
func vF64(r *rand.Rand) float64 { return math.Float64frombits(vU64(r) &^ (1 << 52)) }
func vStr(r *rand.Rand) string {
	b := make([]byte, r.Intn(9))
	r.Read(b)
	return string(b)
}
func vBytesDiffer(p []byte, w []uint64) bool {
	for i := range p {
		if uint64(p[i]) != w[i] {
			return true
		}
	}
	return false
}

func vEq(a, b interface{}) bool {
	if x, ok := a.([]byte); ok {
		y, ok := b.([]byte)
		return ok && string(x) == string(y) && (x == nil) == (y == nil)
	}
	return reflect.DeepEqual(a, b)
}

func vCheck(t *vTable, x interface{}, want []interface{}, what string) {
	for i, f := range t.fields {
		if got := f.get(x); !vEq(got, want[i]) {
			vfail("%s.%s reads %#v, want %#v (%s)", t.name, f.name, got, want[i], what)
		}
	}
}

func TestVerifFlat(t *testing.T) {
	r := vrand()
	n := 400
	if vthorough() {
		n = 20000
	}
	vR.Rule = "for every table, random subsets of its fields written through the builder functions (each field alone at least once) and read back through every accessor, mutated in place and read again; every vtable slot checked; all 256 values of the enumerations"
	for _, tb := range vTables {
		for k := 0; k < n; k++ {
			desc := ""
			vguard(60*time.Second, func() {
				b := flatbuffers.NewBuilder(16)
				want := make([]interface{}, len(tb.fields))
				set := make([]bool, len(tb.fields))
				var adds []func()
				for i, f := range tb.fields {
					want[i] = f.dflt
					if k < len(tb.fields) && k == i || k >= len(tb.fields) && r.Intn(2) == 0 {
						a, w := f.prep(b, r)
						adds, want[i], set[i] = append(adds, a), w, true
					}
				}
				sizeP, pad := r.Intn(2) == 1, 0
				tb.start(b)
				for _, i := range r.Perm(len(adds)) {
					adds[i]()
				}
				o := tb.end(b)
				var x interface{}
				if sizeP {
					tb.finishSP(b, o)
				} else {
					tb.finish(b, o)
				}
				buf := b.FinishedBytes()
				if r.Intn(2) == 1 {
					pad = 4 * (1 + r.Intn(3))
					buf = append(make([]byte, pad), buf...)
				}
				if sizeP {
					x = tb.rootSP(buf, flatbuffers.UOffsetT(pad))
				} else {
					x = tb.root(buf, flatbuffers.UOffsetT(pad))
				}
				desc = fmt.Sprintf("table %s, size prefix %v, at %d, bytes %x", tb.name, sizeP, pad, buf)
				vCheck(tb, x, want, desc)
				tab := tb.table(x)
				for i, f := range tb.fields {
					// a field that is not default-valued must be in its slot, one not written must not
					in := tab.Offset(flatbuffers.VOffsetT(4+2*f.slot)) != 0
					if in && !set[i] || !in && set[i] && !vEq(want[i], f.dflt) {
						vfail("%s.%s: slot %d in use: %v, written: %v (%s)", tb.name, f.name, f.slot, in, set[i], desc)
					}
				}
				for _, i := range r.Perm(len(tb.fields)) {
					f := tb.fields[i]
					if f.mutate == nil {
						continue
					}
					in := tab.Offset(flatbuffers.VOffsetT(4+2*f.slot)) != 0
					ok, w := f.mutate(x, r)
					if in {
						if !ok {
							vfail("%s.Mutate%s reports false for a field that is there (%s)", tb.name, f.name, desc)
						}
						want[i] = w
					} else if wv, isv := w.([]uint64); ok && !(isv && len(wv) == 0) {
						vfail("%s.Mutate%s reports true for a field that is absent (%s)", tb.name, f.name, desc)
					}
					vCheck(tb, x, want, "after Mutate"+f.name+" "+desc)
				}
			}, func() string { return desc })
			vR.Cases++
			if k >= len(tb.fields) {
				vR.Nontrivial++
			}
			vsample("%s", desc)
		}
	}
	for v := 0; v < 256; v++ {
		ws, g := "GeometryType("+strconv.Itoa(v)+")", flat.GeometryType(v)
		if v < len(vGeometryTypeNames) {
			ws = vGeometryTypeNames[v]
			if flat.EnumNamesGeometryType[g] != ws || flat.EnumValuesGeometryType[ws] != g {
				vfail("GeometryType %d: name %q, value of %q is %d", v, flat.EnumNamesGeometryType[g], ws, flat.EnumValuesGeometryType[ws])
			}
		}
		if g.String() != ws {
			vfail("GeometryType(%d).String() = %q, want %q", v, g.String(), ws)
		}
		ws, c := "ColumnType("+strconv.Itoa(v)+")", flat.ColumnType(v)
		if v < len(vColumnTypeNames) {
			ws = vColumnTypeNames[v]
			if flat.EnumNamesColumnType[c] != ws || flat.EnumValuesColumnType[ws] != c {
				vfail("ColumnType %d: name %q, value of %q is %d", v, flat.EnumNamesColumnType[c], ws, flat.EnumValuesColumnType[ws])
			}
		}
		if c.String() != ws {
			vfail("ColumnType(%d).String() = %q, want %q", v, c.String(), ws)
		}
		vR.Cases += 2
	}
	if len(flat.EnumNamesGeometryType) != len(vGeometryTypeNames) || len(flat.EnumValuesGeometryType) != len(vGeometryTypeNames) || len(flat.EnumNamesColumnType) != len(vColumnTypeNames) || len(flat.EnumValuesColumnType) != len(vColumnTypeNames) {
		vfail("an enumeration has a wrong number of names")
	}
	vwrite()
}
