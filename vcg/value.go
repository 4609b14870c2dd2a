package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic value: *Term for scalars, or one of the types below.
type Val interface{}

type StructV struct {
	T types.Type
	F []Val
}

// ArrV is the contents of an array or slice backing store: C has the shape of
// one element with every scalar leaf lifted to an SMT array.
type ArrV struct {
	Elem types.Type
	C    Val
	N    *Term // length (arrays and backing stores)
}

// LSliceV is a lifted byte slice (inside an ArrV): contents, length, nil flag
// per index. It is also used un-lifted nowhere.
type LSliceV struct{ C, Len, Nil *Term }

// LPtrV is a lifted pointer: array of opaque references.
type LPtrV struct {
	R    *Term
	Elem types.Type
}

type SliceV struct {
	Obj           int
	Off, Len, Cap *Term
	Nil           *Term
	Elem          types.Type
	View          *ViewV // byte view of a typed backing store
}

// ViewV: bytes of a backing store whose elements have a fixed layout.
type ViewV struct {
	Elem  types.Type // element type of the underlying object
	Size  int64
	First *Term // element index where the view starts
}

type Step struct {
	Field int
	Idx   *Term // nil for a field step
}

type PtrV struct {
	Obj  int
	Path []Step
	Nil  *Term
	Elem types.Type
	View *ViewV // *byte pointing at the first byte of element Path
	Ref  *Term  // opaque reference it was loaded from
}

type IfaceV struct {
	T   types.Type // static interface type
	Dyn types.Type // nil when opaque
	V   Val
	Ext int // external object id (stream, schema...) when opaque
	Nil *Term
	Any *Term // opaque value of sort Any
}

type FuncV struct {
	Fn   *ssa.Function
	Bind []Val
	Ext  string // opaque function
	Nil  *Term
	Sig  *types.Signature
}

type TupleV []Val

type StrV struct {
	Const  *string
	C      *Term // bytes
	Off    *Term
	Len    *Term
	Opaque *Term // sort Str
}

func isErrType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

type intInfo struct {
	bits   int
	signed bool
}

var wordBits = 64

func intType(t types.Type) (intInfo, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intInfo{}, false
	}
	switch b.Kind() {
	case types.Int, types.UntypedInt:
		return intInfo{wordBits, true}, true
	case types.Int64:
		return intInfo{64, true}, true
	case types.Int32, types.UntypedRune:
		return intInfo{32, true}, true
	case types.Int16:
		return intInfo{16, true}, true
	case types.Int8:
		return intInfo{8, true}, true
	case types.Uint, types.Uintptr:
		return intInfo{wordBits, false}, true
	case types.Uint64:
		return intInfo{64, false}, true
	case types.Uint32:
		return intInfo{32, false}, true
	case types.Uint16:
		return intInfo{16, false}, true
	case types.Uint8:
		return intInfo{8, false}, true
	}
	return intInfo{}, false
}

func (ii intInfo) min() *big.Int {
	if !ii.signed {
		return new(big.Int)
	}
	return new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), uint(ii.bits-1)))
}
func (ii intInfo) max() *big.Int {
	n := ii.bits
	if ii.signed {
		n--
	}
	return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(n)), big.NewInt(1))
}

func isFloat64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Float64 || b.Kind() == types.UntypedFloat)
}
func isFloat32(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float32
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	ii, ok := intType(s.Elem())
	return ok && ii.bits == 8 && !ii.signed
}

type Unsupported struct{ Msg string }

func unsup(f string, a ...interface{}) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

// mapVal applies f to scalar leaves of parallel values.
func mapLeaves(v Val, f func(*Term) *Term) Val {
	switch x := v.(type) {
	case *Term:
		return f(x)
	case *StructV:
		n := &StructV{T: x.T, F: make([]Val, len(x.F))}
		for i := range x.F {
			n.F[i] = mapLeaves(x.F[i], f)
		}
		return n
	case *LSliceV:
		return &LSliceV{f(x.C), f(x.Len), f(x.Nil)}
	case *LPtrV:
		return &LPtrV{f(x.R), x.Elem}
	case *StrV:
		if x.Opaque != nil {
			return &StrV{Opaque: f(x.Opaque)}
		}
	case *IfaceV:
		if x.Any != nil {
			return &IfaceV{T: x.T, Any: f(x.Any)}
		}
	}
	panic(Unsupported{fmt.Sprintf("mapLeaves %T", v)})
}

func mapLeaves2(v, w Val, f func(a, b *Term) *Term) Val {
	switch x := v.(type) {
	case *Term:
		return f(x, w.(*Term))
	case *StructV:
		y := w.(*StructV)
		n := &StructV{T: x.T, F: make([]Val, len(x.F))}
		for i := range x.F {
			n.F[i] = mapLeaves2(x.F[i], y.F[i], f)
		}
		return n
	case *LSliceV:
		y := w.(*LSliceV)
		return &LSliceV{f(x.C, y.C), f(x.Len, y.Len), f(x.Nil, y.Nil)}
	case *LPtrV:
		return &LPtrV{f(x.R, w.(*LPtrV).R), x.Elem}
	case *StrV:
		return &StrV{Opaque: f(x.Opaque, w.(*StrV).Opaque)}
	case *IfaceV:
		return &IfaceV{T: x.T, Any: f(x.Any, w.(*IfaceV).Any)}
	}
	panic(Unsupported{fmt.Sprintf("mapLeaves2 %T", v)})
}

func leaves(v Val, out *[]*Term) {
	mapLeaves(v, func(t *Term) *Term { *out = append(*out, t); return t })
}

// eqVal is the conjunction of equalities of all scalar leaves.
func eqLeaves(a, b Val) *Term {
	var cs []*Term
	mapLeaves2(a, b, func(x, y *Term) *Term { cs = append(cs, Eq(x, y)); return x })
	return And(cs...)
}
