package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obj struct {
	id      int
	T       types.Type // element type for backing stores
	arr     bool
	name    string
	initial bool
	glob    *ssa.Global
	ext     bool
}

type pcNode struct {
	t    *Term
	prev *pcNode
	mark bool // the head of a loop
}

type State struct {
	mem    map[int]Val
	ghost  map[string]*Term
	pc     *pcNode
	frozen map[int]bool
	panicV Val // value of an in-flight panic being handled by deferred calls
	recov  bool
	dead   bool
}

func (s *State) clone() *State {
	n := &State{mem: make(map[int]Val, len(s.mem)+8), ghost: make(map[string]*Term, len(s.ghost)), pc: s.pc, frozen: make(map[int]bool, len(s.frozen)), panicV: s.panicV, recov: s.recov}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	for k, v := range s.frozen {
		n.frozen[k] = v
	}
	return n
}

func (s *State) assume(t *Term) {
	if t == True {
		return
	}
	if t == False {
		s.dead = true
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	s.pc = &pcNode{t: t, prev: s.pc}
}

func (s *State) pcList() []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for n := s.pc; n != nil; n = n.prev {
		if !n.mark && !seen[n.t] {
			seen[n.t] = true
			out = append(out, n.t)
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// pcKeep is pcList without the quantified facts about the enclosing loop's
// state that the invariants of the innermost loop ought to restate.
func (s *State) pcKeep() []*Term {
	var first, last *pcNode
	for n := s.pc; n != nil; n = n.prev {
		if n.mark {
			first = n
			if last == nil {
				last = n
			}
		}
	}
	if first == last {
		return nil
	}
	drop, keep, in := map[*Term]bool{}, map[*Term]bool{}, false
	for n := s.pc; n != nil; n = n.prev {
		if n == last {
			in = true
		}
		if n == first {
			in = false
		}
		if n.mark {
			continue
		}
		if in && quantified(n.t, map[*Term]bool{}) {
			drop[n.t] = true
		} else {
			keep[n.t] = true
		}
	}
	var out []*Term
	for _, t := range s.pcList() {
		if keep[t] || !drop[t] {
			out = append(out, t)
		}
	}
	return out
}

func quantified(t *Term, seen map[*Term]bool) bool {
	if t.Op == "forall" || t.Op == "exists" {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	for _, a := range t.Args {
		if quantified(a, seen) {
			return true
		}
	}
	return false
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	defers []deferred
	loops  map[*ssa.BasicBlock]*loopCtx
	parent *Frame
	spec   *Contract                // contract being verified, for loops (root) or nil
	limit  map[*ssa.BasicBlock]bool // dry run: stay inside
	head   *ssa.BasicBlock
	depth  int
}

type deferred struct {
	fn   FuncV
	args []Val
	call *ssa.CallCommon
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env)+4)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferred{}, f.defers...)
	n.loops = make(map[*ssa.BasicBlock]*loopCtx, len(f.loops))
	for k, v := range f.loops {
		n.loops[k] = v
	}
	return &n
}

type Outcome struct {
	st    *State
	vals  []Val
	panic bool
	pv    Val
}

type writeKey struct {
	obj  int
	path string // field path "0.1"
}

type writeSink struct {
	maxObj int // only objects with id < maxObj existed before
	keys   map[writeKey]bool
	ghosts map[string]bool
	frozen map[int]bool
	fresh  map[string]bool // slice cells that get another backing store in the loop
	heads  map[string]int  // backing store of each slice cell at the loop head
}

type Obligation struct {
	Name   string
	Kind   string
	Fn     string
	Pos    string
	Props  []string
	Assum  []*Term
	Keep   []*Term // Assum for the first attempt
	Goal   *Term
	Result SolveResult
	Status string // proved, failed, unknown
	Cover  bool   // must NOT be provable (reachability)
	Label  string
	Site   string
	Reason string
}

type Exec struct {
	modHavoc        bool
	indLemma        string // lemma being proved by induction
	indLow, indHigh *Term
	w               *World
	mode            string
	root            *Contract
	rootFn          *ssa.Function
	objs            []*Obj
	obls            []*Obligation
	dry             int
	sinks           []*writeSink
	globals         map[*ssa.Global]int
	oldSt           *State
	env0            *Env
	wrapAt          map[string]bool // sites that get exact wrap-around
	dropInv         map[string]bool // pruned invariants
	viewB           map[string]*Term
	ranges          map[*Term]int // known upper bound in bits (unsigned)
	matPtr          map[*Term]int
	refFun          map[int]string
	matSl           map[string]int
	used            map[string]bool // contracts used
	inlined         map[string]bool
	notes           map[string]bool
	errN            int
	curPos          token.Pos
	steps           int
	pool            bool // try every invariant at every loop
	oblSeen         map[string]bool
	cbSt            *State
	sliceCell       map[string]bool
	ghost0          map[*Term]bool
	base            []*Term
	globVal         map[*ssa.Global]Val
	lemmas          map[string]bool
	visible         int // objects with an id up to this may be known to the caller
	hsink           *writeSink
}

func newExec(w *World, c *Contract) *Exec {
	return &Exec{w: w, mode: c.Mode, root: c, globals: map[*ssa.Global]int{}, wrapAt: map[string]bool{}, dropInv: map[string]bool{}, viewB: map[string]*Term{}, ranges: map[*Term]int{}, matPtr: map[*Term]int{}, refFun: map[int]string{}, matSl: map[string]int{}, used: map[string]bool{}, inlined: map[string]bool{}, notes: map[string]bool{}, oblSeen: map[string]bool{}, ghost0: map[*Term]bool{}, globVal: map[*ssa.Global]Val{}, lemmas: map[string]bool{}}
}

func (e *Exec) usedLemma(n string) { e.lemmas[n] = true }

// ---- arithmetic by mode ----

func (e *Exec) bv() bool { return e.mode == "bv" }

func (e *Exec) idxSort() *Sort {
	if e.bv() {
		return SBV(64)
	}
	return SInt
}

func (e *Exec) byteSort() *Sort {
	if e.bv() {
		return SBV(8)
	}
	return SInt
}
func (e *Exec) arrOf(s *Sort) *Sort { return SArrI(e.idxSort(), s) }

func (e *Exec) intSort(ii intInfo) *Sort {
	if e.bv() {
		return SBV(ii.bits)
	}
	return SInt
}

func (e *Exec) n(v int64) *Term { // an int constant (Go int)
	if e.bv() {
		return BVCi(v, 64)
	}
	return IntC(v)
}

func (e *Exec) constInt(v *big.Int, ii intInfo) *Term {
	if e.bv() {
		return BVC(v, ii.bits)
	}
	return BigC(v)
}

func isBV(t *Term) bool { return t.S.Bits > 0 }

func tAdd(a, b *Term) *Term {
	if isBV(a) {
		return bvop("bvadd", a, b)
	}
	return Add(a, b)
}
func tSub(a, b *Term) *Term {
	if isBV(a) {
		return bvop("bvsub", a, b)
	}
	return Sub(a, b)
}
func tMul(a, b *Term) *Term {
	if isBV(a) {
		return bvop("bvmul", a, b)
	}
	return Mul(a, b)
}
func tLe(a, b *Term) *Term { // signed
	if isBV(a) {
		return bvcmp("bvsle", a, b)
	}
	return Le(a, b)
}
func tLt(a, b *Term) *Term {
	if isBV(a) {
		return bvcmp("bvslt", a, b)
	}
	return Lt(a, b)
}

func sgn(v *big.Int, w int) *big.Int {
	if v.Bit(w-1) == 1 {
		return new(big.Int).Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(w)))
	}
	return v
}

func bvcmp(op string, a, b *Term) *Term {
	if a.isC() && b.isC() {
		x, y := a.Val, b.Val
		if strings.HasPrefix(op, "bvs") {
			x, y = sgn(x, a.S.Bits), sgn(y, a.S.Bits)
		}
		c := x.Cmp(y)
		if strings.HasSuffix(op, "le") {
			return BoolC(c <= 0)
		}
		return BoolC(c < 0)
	}
	if a == b {
		return BoolC(strings.HasSuffix(op, "le"))
	}
	return mk(op, SBool, a, b)
}

func bvop(op string, a, b *Term) *Term {
	if a.S != b.S {
		panic(fmt.Sprintf("bvop %s on %s and %s", op, a.S.Name, b.S.Name))
	}
	w := a.S.Bits
	if a.isC() && b.isC() {
		x, y := a.Val, b.Val
		r := new(big.Int)
		switch op {
		case "bvadd":
			return BVC(r.Add(x, y), w)
		case "bvsub":
			return BVC(r.Sub(x, y), w)
		case "bvmul":
			return BVC(r.Mul(x, y), w)
		case "bvand":
			return BVC(r.And(x, y), w)
		case "bvor":
			return BVC(r.Or(x, y), w)
		case "bvxor":
			return BVC(r.Xor(x, y), w)
		case "bvshl":
			if y.Cmp(big.NewInt(int64(w))) >= 0 {
				return BVCi(0, w)
			}
			return BVC(r.Lsh(x, uint(y.Int64())), w)
		case "bvlshr":
			if y.Cmp(big.NewInt(int64(w))) >= 0 {
				return BVCi(0, w)
			}
			return BVC(r.Rsh(x, uint(y.Int64())), w)
		}
	}
	if b.isC() && b.Val.Sign() == 0 {
		switch op {
		case "bvadd", "bvsub", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr":
			return a
		}
	}
	if a.isC() && a.Val.Sign() == 0 {
		switch op {
		case "bvadd", "bvor", "bvxor":
			return b
		}
	}
	return mk(op, a.S, a, b)
}

// ---- types to fresh values ----

func (e *Exec) newObj(T types.Type, arr bool, name string) *Obj {
	o := &Obj{id: len(e.objs) + 1, T: T, arr: arr, name: name}
	e.objs = append(e.objs, o)
	return o
}
func (e *Exec) obj(id int) *Obj { return e.objs[id-1] }

func (e *Exec) rangeFact(t *Term, ii intInfo) *Term {
	if isBV(t) {
		return True
	}
	if !ii.signed {
		if b, ok := e.ranges[t]; !ok || b > ii.bits {
			e.ranges[t] = ii.bits
		}
	}
	return And(Le(BigC(ii.min()), t), Le(t, BigC(ii.max())))
}

// symVal makes an unconstrained value of type T.
func (e *Exec) symVal(T types.Type, name string, st *State) Val {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		if ii, ok := intType(T); ok {
			t := Fresh(name, e.intSort(ii))
			st.assume(e.rangeFact(t, ii))
			return t
		}
		switch {
		case isBool(T):
			return Fresh(name, SBool)
		case isFloat64(T):
			return Fresh(name, SF64)
		case isFloat32(T):
			return Fresh(name, SF32)
		case isString(T):
			l := Fresh(name+".len", e.idxSort())
			st.assume(tLe(e.n(0), l))
			return &StrV{C: Fresh(name, e.arrOf(e.byteSort())), Off: e.n(0), Len: l}
		case u.Kind() == types.UnsafePointer:
			return &PtrV{Nil: True}
		}
	case *types.Struct:
		s := &StructV{T: T}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, e.symVal(u.Field(i).Type(), name+"."+u.Field(i).Name(), st))
		}
		return s
	case *types.Array:
		return &ArrV{Elem: u.Elem(), C: e.lifted(u.Elem(), name), N: e.n(u.Len())}
	case *types.Slice:
		return e.symSlice(T, u.Elem(), name, st)
	case *types.Pointer:
		o := e.newObj(u.Elem(), false, name)
		st.mem[o.id] = e.symVal(u.Elem(), name, st)
		return &PtrV{Obj: o.id, Nil: Fresh(name+".nil", SBool), Elem: u.Elem()}
	case *types.Interface:
		if isErrType(T) {
			return Fresh(name, SErr)
		}
		o := e.newObj(T, false, name)
		o.ext = true
		return &IfaceV{T: T, Ext: o.id, Nil: Fresh(name+".nil", SBool)}
	case *types.Map, *types.Chan:
		return &PoisonV{name}
	case *types.Signature:
		return &FuncV{Ext: name, Nil: Fresh(name+".nil", SBool), Sig: u}
	case *types.Tuple:
		var t TupleV
		for i := 0; i < u.Len(); i++ {
			t = append(t, e.symVal(u.At(i).Type(), fmt.Sprintf("%s.%d", name, i), st))
		}
		return t
	}
	unsup("symbolic value of type %s", T)
	return nil
}

func (e *Exec) symSlice(T, elem types.Type, name string, st *State) *SliceV {
	o := e.newObj(elem, true, name)
	l, c := Fresh(name+".len", e.idxSort()), Fresh(name+".cap", e.idxSort())
	nl := Fresh(name+".nil", SBool)
	st.assume(And(tLe(e.n(0), l), tLe(l, c), Imp(nl, Eq(c, e.n(0)))))
	if !e.bv() {
		st.assume(Le(c, e.maxLen(elem)))
	}
	st.mem[o.id] = &ArrV{Elem: elem, C: e.lifted(elem, name), N: c}
	return &SliceV{Obj: o.id, Off: e.n(0), Len: l, Cap: c, Nil: nl, Elem: elem}
}

// maxLen: no slice takes more than MaxInt bytes.
func (e *Exec) maxLen(elem types.Type) *Term {
	m := new(big.Int).Set(intInfo{wordBits, true}.max())
	if n := e.w.Sizes.Sizeof(elem); n > 1 {
		m.Div(m, big.NewInt(n))
	}
	return BigC(m)
}

// lifted makes a fresh lifted element tree.
func (e *Exec) lifted(T types.Type, name string) Val {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		if ii, ok := intType(T); ok {
			return Fresh(name, e.arrOf(e.intSort(ii)))
		}
		switch {
		case isBool(T):
			return Fresh(name, e.arrOf(SBool))
		case isFloat64(T):
			return Fresh(name, e.arrOf(SF64))
		case isFloat32(T):
			return Fresh(name, e.arrOf(SF32))
		case isString(T):
			return &StrV{Opaque: Fresh(name, e.arrOf(SStr))}
		}
	case *types.Struct:
		s := &StructV{T: T}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, e.lifted(u.Field(i).Type(), name+"."+u.Field(i).Name()))
		}
		return s
	case *types.Slice:
		if isByteSlice(T) {
			return &LSliceV{C: Fresh(name, e.arrOf(e.arrOf(e.byteSort()))), Len: Fresh(name+".len", e.arrOf(e.idxSort())), Nil: Fresh(name+".nil", e.arrOf(SBool))}
		}
	case *types.Pointer:
		return &LPtrV{R: Fresh(name, e.arrOf(SInt)), Elem: u.Elem()}
	case *types.Interface:
		if isErrType(T) {
			return Fresh(name, e.arrOf(SErr))
		}
		return &IfaceV{T: T, Any: Fresh(name, e.arrOf(SAny))}
	}
	unsup("array of %s", T)
	return nil
}

func (e *Exec) zero(T types.Type, st *State) Val {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		if ii, ok := intType(T); ok {
			return e.constInt(new(big.Int), ii)
		}
		switch {
		case isBool(T):
			return False
		case isFloat64(T):
			return e.f64const(0)
		case isFloat32(T):
			return Sym("f32.zero", SF32)
		case isString(T):
			s := ""
			return &StrV{Const: &s, Off: e.n(0), Len: e.n(0), C: ConstArr(e.arrOf(e.byteSort()), e.zeroByte())}
		case u.Kind() == types.UnsafePointer:
			return &PtrV{Nil: True}
		}
	case *types.Struct:
		s := &StructV{T: T}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, e.zero(u.Field(i).Type(), st))
		}
		return s
	case *types.Array:
		return &ArrV{Elem: u.Elem(), C: e.zeroLifted(u.Elem()), N: e.n(u.Len())}
	case *types.Slice:
		return &SliceV{Obj: 0, Off: e.n(0), Len: e.n(0), Cap: e.n(0), Nil: True, Elem: u.Elem()}
	case *types.Pointer:
		return &PtrV{Nil: True, Elem: u.Elem()}
	case *types.Interface:
		if isErrType(T) {
			return errNil
		}
		return &IfaceV{T: T, Nil: True}
	case *types.Signature:
		return &FuncV{Nil: True, Sig: u}
	}
	if strings.Contains(T.String(), "deferStack") {
		return nil
	}
	unsup("zero value of type %s", T)
	return nil
}

func (e *Exec) zeroByte() *Term {
	if e.bv() {
		return BVCi(0, 8)
	}
	return IntC(0)
}

func (e *Exec) zeroLifted(T types.Type) Val {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		if isString(T) {
			return &StrV{Opaque: ConstArr(e.arrOf(SStr), Sym("str.empty", SStr))}
		}
		z := e.zero(T, nil).(*Term)
		return ConstArr(e.arrOf(z.S), z)
	case *types.Struct:
		s := &StructV{T: T}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, e.zeroLifted(u.Field(i).Type()))
		}
		return s
	case *types.Slice:
		if isByteSlice(T) {
			inner := ConstArr(e.arrOf(e.byteSort()), e.zeroByte())
			return &LSliceV{C: ConstArr(e.arrOf(inner.S), inner), Len: ConstArr(e.arrOf(e.idxSort()), e.n(0)), Nil: ConstArr(e.arrOf(SBool), True)}
		}
	case *types.Pointer:
		return &LPtrV{R: ConstArr(e.arrOf(SInt), IntC(0)), Elem: u.Elem()}
	case *types.Interface:
		if isErrType(T) {
			return ConstArr(e.arrOf(SErr), errNil)
		}
		return &IfaceV{T: T, Any: ConstArr(e.arrOf(SAny), Sym("any.nil", SAny))}
	}
	unsup("array of %s", T)
	return nil
}

var errNil = Sym("err.nil", SErr)

// toElem turns a selected (element-level) tree into ordinary values.
func (e *Exec) toElem(v Val, T types.Type, st *State) Val {
	switch x := v.(type) {
	case *Term:
		if ii, ok := intType(T); ok && !x.hasV {
			st.assume(e.rangeFact(x, ii))
		}
		return x
	case *StructV:
		u := T.Underlying().(*types.Struct)
		n := &StructV{T: T}
		for i := range x.F {
			n.F = append(n.F, e.toElem(x.F[i], u.Field(i).Type(), st))
		}
		return n
	case *LSliceV:
		key := fmt.Sprint(x.C.id, ",", x.Len.id)
		id, ok := e.matSl[key]
		elem := T.Underlying().(*types.Slice).Elem()
		if !ok {
			o := e.newObj(elem, true, "frozen")
			id = o.id
			e.matSl[key] = id
		}
		if _, ok := st.mem[id]; !ok {
			st.mem[id] = &ArrV{Elem: elem, C: x.C, N: x.Len}
			st.frozen[id] = true
			if !x.Len.hasV {
				st.assume(And(tLe(e.n(0), x.Len), Imp(x.Nil, Eq(x.Len, e.n(0)))))
				if !e.bv() {
					st.assume(Le(x.Len, BigC(intInfo{wordBits, true}.max())))
				}
			}
		}
		return &SliceV{Obj: id, Off: e.n(0), Len: x.Len, Cap: x.Len, Nil: x.Nil, Elem: elem}
	case *LPtrV:
		return e.refPtr(x.R, x.Elem, st)
	case *StrV:
		return x
	case *IfaceV:
		return x
	}
	unsup("toElem %T", v)
	return nil
}

// refPtr materialises the object an opaque reference points at.
func (e *Exec) refPtr(r *Term, elem types.Type, st *State) *PtrV {
	id, ok := e.matPtr[r]
	if !ok {
		o := e.newObj(elem, false, "ref")
		id = o.id
		e.matPtr[r] = id
	}
	if _, ok := st.mem[id]; !ok {
		c := e.refContent(elem, "ref:"+elem.String(), r)
		st.mem[id] = e.toElem(c, elem, st)
		st.frozen[id] = true
	}
	return &PtrV{Obj: id, Nil: Eq(r, IntC(0)), Elem: elem, Ref: r}
}

// refContent: contents of an immutable referenced object, as functions of the reference.
func (e *Exec) refContent(T types.Type, name string, r *Term) Val {
	f := func(n string, s *Sort) *Term { declFun(n, s, SInt); return App(n, r) }
	switch u := T.Underlying().(type) {
	case *types.Basic:
		if ii, ok := intType(T); ok {
			return f(name, e.intSort(ii))
		}
		if isBool(T) {
			return f(name, SBool)
		}
		if isFloat64(T) {
			return f(name, SF64)
		}
	case *types.Struct:
		s := &StructV{T: T}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, e.refContent(u.Field(i).Type(), name+"."+u.Field(i).Name(), r))
		}
		return s
	case *types.Slice:
		if isByteSlice(T) {
			return &LSliceV{C: f(name, e.arrOf(e.byteSort())), Len: f(name+".len", e.idxSort()), Nil: f(name+".nil", SBool)}
		}
	}
	unsup("referenced object of type %s", T)
	return nil
}

// fromElem turns an ordinary value into an element-level tree for storing.
func (e *Exec) fromElem(v Val, T types.Type, st *State) Val {
	switch x := v.(type) {
	case *Term:
		return x
	case *StructV:
		u := T.Underlying().(*types.Struct)
		n := &StructV{T: T}
		for i := range x.F {
			n.F = append(n.F, e.fromElem(x.F[i], u.Field(i).Type(), st))
		}
		return n
	case *SliceV:
		if !isByteSlice(T) {
			unsup("slice of %s stored in an array", T)
		}
		if x.Obj != 0 && !st.frozen[x.Obj] {
			e.markFrozen(st, x.Obj)
		}
		return &LSliceV{C: e.bytesOf(x, st), Len: x.Len, Nil: x.Nil}
	case *PtrV:
		if x.Ref != nil {
			return &LPtrV{R: x.Ref, Elem: x.Elem}
		}
		if x.Nil == True {
			return &LPtrV{R: IntC(0), Elem: x.Elem}
		}
		return &LPtrV{R: e.ptrRef(x, st), Elem: x.Elem}
	case *StrV:
		if x.Opaque != nil {
			return x
		}
		return &StrV{Opaque: e.strTerm(x)}
	case *IfaceV:
		return &IfaceV{T: x.T, Any: e.anyTerm(x, st)}
	}
	unsup("storing %T in an array", v)
	return nil
}

// ptrRef gives an opaque reference for a pointer to an object whose contents
// are frozen from now on.
func (e *Exec) ptrRef(p *PtrV, st *State) *Term {
	if len(p.Path) == 1 && p.Path[0].Idx != nil {
		fn, ok := e.refFun[p.Obj]
		if !ok {
			fn = fmt.Sprintf("refof!%d", p.Obj)
			declFun(fn, SInt, e.idxSort())
			e.refFun[p.Obj] = fn
		}
		arr := st.mem[p.Obj].(*ArrV)
		v := BVar("ri", e.idxSort())
		r := App(fn, v)
		c := e.refContent(arr.Elem, "ref:"+arr.Elem.String(), r)
		el := mapLeaves(arr.C, func(t *Term) *Term { return Select(t, v) })
		st.assume(Forall([]*Term{v}, And(eqLeaves(c, el), Not(Eq(r, IntC(0)))), []*Term{r}))
		e.markFrozen(st, p.Obj)
		return App(fn, p.Path[0].Idx)
	}
	unsup("pointer stored in an array")
	return nil
}

func (e *Exec) markFrozen(st *State, obj int) {
	st.frozen[obj] = true
	for _, s := range e.sinks {
		if obj < s.maxObj {
			s.frozen[obj] = true
		}
	}
}

func (e *Exec) strTerm(s *StrV) *Term {
	if s.Opaque != nil {
		return s.Opaque
	}
	if s.Const != nil {
		return Sym("str:"+fmt.Sprintf("%x", *s.Const), SStr)
	}
	fn := "mkstr." + e.mode
	declFun(fn, SStr, e.arrOf(e.byteSort()), e.idxSort())
	return App(fn, e.shift(s.C, s.Off), s.Len)
}

// declBox declares the constructor of boxed values of one type, with what can
// be read off them: the type, and the length and bytes of strings and []byte.
func (e *Exec) declBox(name string, ss ...*Sort) {
	declFun(name, SAny, ss...)
	declFun("boxtype", SInt, SAny)
	declFun("boxlen."+e.mode, e.idxSort(), SAny)
	declFun("boxbytes."+e.mode, e.arrOf(e.byteSort()), SAny)
	var vs []*Term
	for i, s := range ss {
		vs = append(vs, BVar(fmt.Sprintf("v%d", i), s))
	}
	b := App(name, vs...)
	axOnce("boxtype:"+name, []string{name}, Forall(vs, Eq(App("boxtype", b), IntC(boxNo(name))), []*Term{b}))
	if len(ss) == 2 {
		axOnce("boxlen."+e.mode+":"+name, []string{name}, Forall(vs, And(Eq(App("boxlen."+e.mode, b), vs[1]), Eq(App("boxbytes."+e.mode, b), vs[0])), []*Term{b}))
	}
	if len(ss) == 1 && ss[0] == SStr {
		fn := "mkstr." + e.mode
		declFun(fn, SStr, e.arrOf(e.byteSort()), e.idxSort())
		c, n, k := BVar("c", e.arrOf(e.byteSort())), BVar("n", e.idxSort()), BVar("k", e.idxSort())
		sb := App(name, App(fn, c, n))
		axOnce("boxlen."+e.mode+":"+name, []string{name}, Forall([]*Term{c, n}, Imp(tLe(e.n(0), n), Eq(App("boxlen."+e.mode, sb), n)), []*Term{sb}))
		bk := Select(App("boxbytes."+e.mode, sb), k)
		axOnce("boxbytes."+e.mode+":"+name, []string{name}, Forall([]*Term{c, n, k}, Imp(And(tLe(e.n(0), k), tLt(k, n)), Eq(bk, Select(c, k))), []*Term{bk}))
		axOnce("boxempty."+e.mode+":"+name, []string{"str:"}, Eq(App("boxlen."+e.mode, App(name, Sym("str:", SStr))), e.n(0)))
	}
}

func boxName(t string) string { return "box:" + strings.ReplaceAll(t, "byte", "uint8") }

var boxNos = map[string]int64{}

func boxNo(name string) int64 {
	if _, ok := boxNos[name]; !ok {
		boxNos[name] = int64(len(boxNos) + 1)
	}
	return boxNos[name]
}

// anyTerm boxes an interface value.
func (e *Exec) anyTerm(x *IfaceV, st *State) *Term {
	if x.Any != nil {
		return x.Any
	}
	if x.Nil == True {
		return Sym("any.nil", SAny)
	}
	if x.Dyn == nil {
		return Sym(fmt.Sprintf("any.ext!%d", x.Ext), SAny)
	}
	name := boxName(types.TypeString(x.Dyn, nil))
	switch v := x.V.(type) {
	case *Term:
		e.declBox(name, v.S)
		return App(name, v)
	case *SliceV:
		if isByteSlice(x.Dyn) {
			e.declBox(name, e.arrOf(e.byteSort()), e.idxSort())
			return App(name, e.bytesOf(v, st), v.Len)
		}
	case *StrV:
		e.declBox(name, SStr)
		return App(name, e.strTerm(v))
	case *PtrV:
		return Sym(fmt.Sprintf("any.ptr!%d", v.Obj), SAny)
	}
	return Fresh("any", SAny)
}

// shift returns the array b with b[k] = a[k+off].
func (e *Exec) shift(a, off *Term) *Term {
	if off.isC() && off.Val.Sign() == 0 {
		return a
	}
	fn := "shift:" + a.S.Name
	if funcDecls[fn] == nil {
		declFun(fn, a.S, a.S, a.S.Idx)
		x, o, k := BVar("a", a.S), BVar("o", a.S.Idx), BVar("k", a.S.Idx)
		ap := App(fn, x, o)
		axioms = append(axioms, &Axiom{Name: fn, Keys: []string{fn}, T: Forall([]*Term{x, o, k}, Eq(Select(ap, k), Select(x, tAdd(k, o))), []*Term{Select(ap, k)})})
	}
	return App(fn, a, off)
}

// bytesOf returns the contents of a byte slice re-based at 0.
func (e *Exec) bytesOf(s *SliceV, st *State) *Term {
	if s.View != nil {
		return e.viewBytes(s, st)
	}
	if s.Obj == 0 {
		return ConstArr(e.arrOf(e.byteSort()), e.zeroByte())
	}
	a := st.mem[s.Obj].(*ArrV)
	return e.shift(a.C.(*Term), s.Off)
}

// ---- memory ----

func (e *Exec) elemType(T types.Type, step Step) types.Type {
	switch u := T.Underlying().(type) {
	case *types.Struct:
		return u.Field(step.Field).Type()
	case *types.Array:
		return u.Elem()
	}
	unsup("path step into %s", T)
	return nil
}

func (e *Exec) loadPath(v Val, T types.Type, isBack bool, path []Step, st *State) Val {
	for i, s := range path {
		if a, ok := v.(*ArrV); ok {
			if s.Idx == nil {
				unsup("field step into array")
			}
			// walk the remaining field steps on the lifted tree
			c, et := a.C, a.Elem
			rest := path[i+1:]
			for _, r := range rest {
				if r.Idx != nil {
					unsup("nested arrays")
				}
				c = c.(*StructV).F[r.Field]
				et = e.elemType(et, r)
			}
			return e.toElem(mapLeaves(c, func(t *Term) *Term { return Select(t, s.Idx) }), et, st)
		}
		if s.Idx != nil {
			unsup("index step into %T", v)
		}
		sv, ok := v.(*StructV)
		if !ok {
			unsup("field step into %T", v)
		}
		v = sv.F[s.Field]
	}
	return v
}

func (e *Exec) load(p *PtrV, st *State) Val {
	v, ok := st.mem[p.Obj]
	if !ok {
		unsup("load from unknown object %d (%v)", p.Obj, p.Elem)
	}
	return e.loadPath(v, nil, false, p.Path, st)
}

func pathKey(path []Step) string {
	var sb strings.Builder
	for _, s := range path {
		if s.Idx != nil {
			sb.WriteString("*.")
		} else {
			fmt.Fprintf(&sb, "%d.", s.Field)
		}
	}
	return sb.String()
}

func (e *Exec) storePath(v Val, path []Step, x Val, st *State) Val {
	if len(path) == 0 {
		return x
	}
	s := path[0]
	switch a := v.(type) {
	case *ArrV:
		c, et := a.C, a.Elem
		var rec func(c Val, et types.Type, rest []Step) Val
		rec = func(c Val, et types.Type, rest []Step) Val {
			if len(rest) == 0 {
				el := e.fromElem(x, et, st)
				return mapLeaves2(c, el, func(arr, val *Term) *Term { return Store(arr, s.Idx, val) })
			}
			sv := c.(*StructV)
			n := &StructV{T: sv.T, F: append([]Val{}, sv.F...)}
			n.F[rest[0].Field] = rec(sv.F[rest[0].Field], e.elemType(et, rest[0]), rest[1:])
			return n
		}
		return &ArrV{Elem: a.Elem, C: rec(c, et, path[1:]), N: a.N}
	case *StructV:
		n := &StructV{T: a.T, F: append([]Val{}, a.F...)}
		n.F[s.Field] = e.storePath(a.F[s.Field], path[1:], x, st)
		return n
	}
	unsup("store path into %T", v)
	return nil
}

func (e *Exec) noteWrite(st *State, obj int, path []Step) {
	for _, s := range e.sinks {
		if obj < s.maxObj {
			s.keys[writeKey{obj, pathKey(path)}] = true
		}
	}
}

func (e *Exec) store(p *PtrV, x Val, st *State) {
	if p.View != nil {
		unsup("store through a byte view")
	}
	v, ok := st.mem[p.Obj]
	if !ok {
		unsup("store to unknown object")
	}
	if st.frozen[p.Obj] {
		e.oblige(st, False, "alias", "write to memory that is already part of another value", nil)
	}
	e.noteWrite(st, p.Obj, p.Path)
	st.mem[p.Obj] = e.storePath(v, p.Path, x, st)
}

func (e *Exec) setGhost(st *State, name string, t *Term) {
	for _, s := range e.sinks {
		s.ghosts[name] = true
	}
	st.ghost[name] = t
}

// ---- obligations ----

func (e *Exec) posStr() string {
	p := e.w.Fset.Position(e.curPos)
	if !p.IsValid() {
		return "-"
	}
	return fmt.Sprintf("%s:%d", shortFile(p.Filename), p.Line)
}

func shortFile(f string) string {
	f = strings.TrimPrefix(f, "/repo/")
	if i := strings.Index(f, "/pkg/mod/"); i >= 0 {
		f = f[i+9:]
	}
	return f
}

func (e *Exec) oblige(st *State, goal *Term, kind, label string, props []string) {
	if e.dry > 0 || goal == True || st.dead {
		return
	}
	for _, k := range e.root.Skip {
		if k == kind {
			e.notes["obligations of kind "+kind+" are not generated for "+e.rootName()] = true
			return
		}
	}
	name := e.rootName() + "/" + kind
	if label != "" {
		name += "/" + label
	}
	o := &Obligation{Name: name, Kind: kind, Fn: e.rootName(), Pos: e.posStr(), Props: props, Assum: st.pcList(), Goal: goal, Label: label}
	if e.root != nil && len(e.root.Omit) > 0 {
		o.Keep = st.pcKeep()
	}
	// drop exact duplicates
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s|%d", kind, goal.id)
	for _, a := range o.Assum {
		if a == goal {
			o.Status = "proved"
			o.Result = SolveResult{Status: "unsat", Backend: "syntactic"}
		}
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	if e.oblSeen[sb.String()] {
		return
	}
	e.oblSeen[sb.String()] = true
	e.obls = append(e.obls, o)
}

func (e *Exec) rootName() string {
	n := e.root.Key
	if e.root.Variant != "" {
		n += "@" + e.root.Variant
	}
	return n
}

func (fr *Frame) recovering() bool {
	for f := fr; f != nil; f = f.parent {
		if len(f.defers) > 0 {
			return true
		}
	}
	return false
}

// require makes sure ok holds; otherwise the program panics here.
func (e *Exec) require(fr *Frame, st *State, ok *Term, kind, label string, outs *[]Outcome) {
	if ok == True || st.dead {
		return
	}
	if fr != nil && fr.recovering() {
		s2 := st.clone()
		s2.assume(Not(ok))
		e.panicPath(fr.clone(), s2, nil, outs)
		st.assume(ok)
		return
	}
	if e.root.MayPanic && !e.root.OwnPanics {
		st.assume(ok)
		return
	}
	goal := ok
	if e.root.Panics != nil && e.oldSt != nil {
		goal = Or(ok, e.evalBool(e.root.Panics.E, e.env0.with(e.oldSt, e.oldSt)))
	}
	e.oblige(st, goal, kind, label, nil)
	st.assume(ok)
}

func (e *Exec) panicPath(fr *Frame, st *State, pv Val, outs *[]Outcome) {
	if st.dead {
		return
	}
	if len(fr.defers) == 0 {
		if fr.parent == nil || !fr.recovering() {
			// uncaught
			*outs = append(*outs, Outcome{st: st, panic: true, pv: pv})
			return
		}
		*outs = append(*outs, Outcome{st: st, panic: true, pv: pv})
		return
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	st.panicV = &IfaceV{T: types.NewInterfaceType(nil, nil), Any: Fresh("panicval", SAny), Nil: False}
	st.recov = false
	var os []Outcome
	e.callFn(fr, st, d.fn, d.args, &os)
	for _, o := range os {
		f2 := fr.clone()
		if o.panic {
			e.panicPath(f2, o.st, o.pv, outs)
			continue
		}
		if o.st.recov {
			o.st.recov = false
			o.st.panicV = nil
			// remaining defers run normally, then the recover block
			e.runDefers(f2, o.st, func(f3 *Frame, s3 *State) {
				if f3.fn.Recover != nil {
					e.run(f3, s3, f3.fn.Recover, 0, nil, outs)
				} else {
					*outs = append(*outs, Outcome{st: s3, vals: e.zeroResults(f3.fn, s3)})
				}
			}, outs)
			continue
		}
		e.panicPath(f2, o.st, pv, outs)
	}
}

func (e *Exec) zeroResults(fn *ssa.Function, st *State) []Val {
	var out []Val
	r := fn.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		out = append(out, e.zero(r.At(i).Type(), st))
	}
	return out
}

func (e *Exec) runDefers(fr *Frame, st *State, k func(*Frame, *State), outs *[]Outcome) {
	if len(fr.defers) == 0 {
		k(fr, st)
		return
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	var os []Outcome
	e.callFn(fr, st, d.fn, d.args, &os)
	for _, o := range os {
		f2 := fr.clone()
		if o.panic {
			e.panicPath(f2, o.st, o.pv, outs)
			continue
		}
		e.runDefers(f2, o.st, k, outs)
	}
}

// ---- loops ----

type loopCtx struct {
	info      *loopInfo
	spec      []*LoopSpec
	dec       *Term
	decSt     *State
	allocN    int
	active    []invRef
	entryObjs int
	sink      *writeSink
}

type invRef struct {
	cl  *Clause
	key string
}

type loopInfo struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	ord  int
	pos  token.Pos
	fn   *ssa.Function
	back map[*ssa.BasicBlock]bool
}

func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	out := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := out[s]
				if li == nil {
					li = &loopInfo{head: s, body: map[*ssa.BasicBlock]bool{s: true}, fn: fn, back: map[*ssa.BasicBlock]bool{}}
					out[s] = li
				}
				li.back[b] = true
				// natural loop
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if li.body[x] {
						continue
					}
					li.body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	var ls []*loopInfo
	for _, l := range out {
		l.pos = loopPos(l)
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		if ls[i].pos != ls[j].pos {
			return ls[i].pos < ls[j].pos
		}
		if len(ls[i].body) != len(ls[j].body) {
			return len(ls[i].body) > len(ls[j].body)
		}
		return ls[i].head.Index < ls[j].head.Index
	})
	for i, l := range ls {
		l.ord = i
	}
	return out
}

func loopPos(l *loopInfo) token.Pos {
	best := token.NoPos
	for b := range l.body {
		for _, in := range b.Instrs {
			p := in.Pos()
			if a, ok := in.(*ssa.Alloc); ok && a.Comment == "rangeindex" {
				continue
			}
			if p.IsValid() && (best == token.NoPos || p < best) {
				best = p
			}
		}
	}
	return best
}

func (w *World) loops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	if l, ok := w.loopTab[fn]; ok {
		return l
	}
	l := loopsOf(fn)
	w.loopTab[fn] = l
	return l
}

// jump transfers control along an edge.
func (e *Exec) jump(fr *Frame, st *State, from, to *ssa.BasicBlock, outs *[]Outcome) {
	if st.dead {
		return
	}
	if fr.limit != nil && !fr.limit[to] {
		return // dry run left the loop
	}
	li := e.w.loops(fr.fn)[to]
	if li == nil {
		e.run(fr, st, to, 0, from, outs)
		return
	}
	if li.body[from] {
		// back edge
		if fr.limit != nil && fr.head == to {
			if lc := fr.loops[to]; lc != nil {
				e.checkCells(st, lc.sink, true)
			}
			return
		}
		e.backEdge(fr, st, li, from, outs)
		return
	}
	e.enterLoop(fr, st, li, from, outs)
}

func (e *Exec) loopSpecs(fr *Frame, li *loopInfo) []*LoopSpec {
	var out []*LoopSpec
	c := e.root
	fname := e.w.fnKey(fr.fn)
	for _, l := range c.Loops {
		match := false
		if l.Fn == "" {
			match = fr.fn == e.rootFn && l.Ord == li.ord
		} else {
			match = (l.Fn == fr.fn.Name() || l.Fn == fname || strings.HasSuffix(fname, "."+l.Fn)) && l.Ord == li.ord
		}
		if match {
			out = append(out, l)
		}
	}
	if e.pool || len(out) == 0 {
		// offer every other invariant as a candidate
		have := map[*LoopSpec]bool{}
		for _, l := range out {
			have[l] = true
		}
		for _, l := range c.Loops {
			if !have[l] && e.pool {
				out = append(out, l)
			}
		}
	}
	return out
}

func (e *Exec) enterLoop(fr *Frame, st *State, li *loopInfo, from *ssa.BasicBlock, outs *[]Outcome) {
	lc := &loopCtx{info: li, spec: e.loopSpecs(fr, li)}
	e.setPos(li.pos)
	lname := fmt.Sprintf("%s.loop%d", fr.fn.Name(), li.ord)
	e.applyHints(fr, st, li)
	// phis at the head: bind to the entry edge for evaluation
	// (naive form has none for source variables)
	// 1. entry
	for si, l := range lc.spec {
		for i := range l.Inv {
			cl := &l.Inv[i]
			key := fmt.Sprintf("%s#%d.%d", lname, si, i)
			if e.dropInv[key] {
				continue
			}
			t, ok := e.tryEval(cl.E, fr, st, li)
			if !ok {
				e.notes["invariant not applicable at "+lname+": "+cl.Src] = true
				continue
			}
			lab := cl.Label
			if lab == "" {
				lab = fmt.Sprintf("%d", i)
			}
			e.obligeInv(st, t, "inv-entry", lname+"/"+lab, cl, key)
			lc.active = append(lc.active, invRef{cl, key})
		}
	}
	if t := e.rangeInv(fr, st, li); t != nil {
		e.oblige(st, t, "inv-entry", lname+"/range", nil)
	}
	// 2. write set
	sink := &writeSink{maxObj: len(e.objs) + 1, keys: map[writeKey]bool{}, ghosts: map[string]bool{}, frozen: map[int]bool{}, fresh: map[string]bool{}}
	lc.sink = sink
	for round := 0; ; round++ {
		if round > 12 {
			unsup("write set of %s does not settle", lname)
		}
		n0 := len(sink.keys) + len(sink.ghosts) + len(sink.frozen) + len(sink.fresh)
		s2 := st.clone()
		f2 := fr.clone()
		e.havoc(f2, s2, sink, lname)
		s2.dead = false
		f2.limit = li.body
		f2.head = li.head
		lc2 := *lc
		f2.loops[li.head] = &lc2
		e.dry++
		e.sinks = append(e.sinks, sink)
		var o2 []Outcome
		e.run(f2, s2, li.head, 0, from, &o2)
		for si, l := range lc.spec {
			_ = si
			for _, g := range l.Ghost {
				sink.ghosts[g.Name] = true
			}
		}
		e.sinks = e.sinks[:len(e.sinks)-1]
		e.dry--
		if len(sink.keys)+len(sink.ghosts)+len(sink.frozen)+len(sink.fresh) == n0 {
			break
		}
	}
	// propagate to the outer sinks
	for _, s := range e.sinks {
		for k := range sink.keys {
			if k.obj < s.maxObj {
				s.keys[k] = true
			}
		}
		for g := range sink.ghosts {
			s.ghosts[g] = true
		}
		for f := range sink.frozen {
			if f < s.maxObj {
				s.frozen[f] = true
			}
		}
	}
	// 3. havoc and assume
	fr = fr.clone()
	st = st.clone()
	if e.root != nil && len(e.root.Omit) > 0 {
		st.pc = &pcNode{t: True, prev: st.pc, mark: true}
	}
	e.havoc(fr, st, sink, lname)
	if t := e.rangeInv(fr, st, li); t != nil {
		st.assume(t)
	}
	for _, a := range lc.active {
		t, ok := e.tryEval(a.cl.E, fr, st, li)
		if ok {
			st.assume(t)
		}
	}
	e.applyHints(fr, st, li)
	lc.dec = nil
	for _, l := range lc.spec {
		if l.Dec != nil && lc.dec == nil {
			if t, ok := e.tryEvalTerm(l.Dec.E, fr, st, li); ok {
				lc.dec = t
			}
		}
	}
	lc.decSt = st.clone()
	fr.loops[li.head] = lc
	if e.dry == 0 {
		noterm := false
		for _, l := range lc.spec {
			if l.NoTerm {
				noterm = true
			}
		}
		if lc.dec == nil {
			if noterm {
				e.notes["termination of "+lname+" not proved"] = true
			} else if lc.dec = e.autoVariant(fr, st, li); lc.dec == nil {
				e.notes["termination of "+lname+" not proved"] = true
			}
		}
	}
	e.run(fr, st, li.head, 0, from, outs)
}

// autoVariant guesses a termination measure from the loop's exit test.
func (e *Exec) autoVariant(fr *Frame, st *State, li *loopInfo) *Term {
	iff, ok := li.head.Instrs[len(li.head.Instrs)-1].(*ssa.If)
	if !ok || e.bv() {
		return nil
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	val := func(v ssa.Value) *Term {
		t, ok := e.headVal(fr, st, li, v)
		if !ok {
			return nil
		}
		return t
	}
	x, y := val(bo.X), val(bo.Y)
	if x == nil || y == nil || x.S != SInt || y.S != SInt {
		return nil
	}
	switch bo.Op {
	case token.LSS, token.LEQ:
		return Sub(y, x)
	case token.GTR, token.GEQ:
		return Sub(x, y)
	case token.NEQ:
		return Sub(y, x)
	}
	return nil
}

// rangeInv is the built-in invariant of a range loop over a slice: the hidden
// index lies between -1 and the length. It is checked like any other invariant.
func (e *Exec) rangeInv(fr *Frame, st *State, li *loopInfo) *Term {
	iff, ok := li.head.Instrs[len(li.head.Instrs)-1].(*ssa.If)
	if !ok || e.bv() {
		return nil
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok || bo.Op != token.LSS {
		return nil
	}
	add, ok := bo.X.(*ssa.BinOp)
	if !ok || add.Op != token.ADD {
		return nil
	}
	ld, ok := add.X.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return nil
	}
	a, ok := ld.X.(*ssa.Alloc)
	if !ok || a.Comment != "rangeindex" {
		return nil
	}
	if b, ok := bo.Y.(ssa.Instruction); ok && li.body[b.Block()] {
		return nil
	}
	p, ok := fr.env[a].(*PtrV)
	if !ok {
		return nil
	}
	i, ok1 := e.load(p, st).(*Term)
	n, ok2 := e.get(fr, st, bo.Y).(*Term)
	if !ok1 || !ok2 || i.S != SInt {
		return nil
	}
	return And(Le(IntC(-1), i), Or(Lt(i, n), Eq(i, IntC(-1))))
}

// headVal evaluates a head-block expression at the loop head.
func (e *Exec) headVal(fr *Frame, st *State, li *loopInfo, v ssa.Value) (t *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
	switch x := v.(type) {
	case *ssa.Const:
		t, ok = e.constVal(x, st).(*Term)
		return
	case *ssa.UnOp:
		if x.Op == token.MUL {
			p, ok2 := e.get(fr, st, x.X).(*PtrV)
			if !ok2 {
				return nil, false
			}
			t, ok = e.load(p, st).(*Term)
			return
		}
	case *ssa.BinOp:
		if x.Block() == li.head {
			a, ok1 := e.headVal(fr, st, li, x.X)
			b, ok2 := e.headVal(fr, st, li, x.Y)
			if ok1 && ok2 {
				switch x.Op {
				case token.ADD:
					return Add(a, b), true
				case token.SUB:
					return Sub(a, b), true
				}
			}
			return nil, false
		}
	case *ssa.Convert:
		if x.Block() == li.head {
			return e.headVal(fr, st, li, x.X)
		}
	case *ssa.Call:
		if b, ok2 := x.Call.Value.(*ssa.Builtin); ok2 && b.Name() == "len" && x.Block() == li.head {
			if u, ok3 := x.Call.Args[0].(*ssa.UnOp); ok3 && u.Op == token.MUL {
				p := e.get(fr, st, u.X).(*PtrV)
				if s, ok4 := e.load(p, st).(*SliceV); ok4 {
					return s.Len, true
				}
			}
			return nil, false
		}
	}
	if b, ok2 := v.(ssa.Instruction); ok2 && b.Block() == li.head {
		return nil, false
	}
	t, ok = fr.env[v].(*Term)
	return
}

func (e *Exec) obligeInv(st *State, t *Term, kind, label string, cl *Clause, key string) {
	n := len(e.obls)
	if t.Op == "and" && t.S == SBool {
		for i, a := range t.Args {
			e.oblige(st, a, kind, fmt.Sprintf("%s.%d", label, i), cl.Props)
		}
	} else {
		e.oblige(st, t, kind, label, cl.Props)
	}
	for ; n < len(e.obls); n++ {
		e.obls[n].Site = "inv:" + key
	}
}

func (e *Exec) backEdge(fr *Frame, st *State, li *loopInfo, from *ssa.BasicBlock, outs *[]Outcome) {
	lc := fr.loops[li.head]
	if lc == nil {
		unsup("irreducible loop")
	}
	e.setPos(li.pos)
	lname := fmt.Sprintf("%s.loop%d", fr.fn.Name(), li.ord)
	st = st.clone()
	for _, l := range lc.spec {
		for _, g := range l.Ghost {
			env := e.frameEnv(fr, st, li)
			env.iter = lc.decSt
			if t, ok := e.tryEvalEnv(g.E, env); ok {
				e.setGhost(st, g.Name, t)
			} else {
				e.notes["ghost update not applicable at "+lname+": "+g.Name] = true
			}
		}
	}
	e.checkCells(st, lc.sink, false)
	if e.dry > 0 {
		return
	}
	e.applyHints(fr, st, li)
	if t := e.rangeInv(fr, st, li); t != nil {
		e.oblige(st, t, "inv-preserved", lname+"/range", nil)
	}
	for _, a := range lc.active {
		t, ok := e.tryEval(a.cl.E, fr, st, li)
		if !ok {
			e.notes["invariant not applicable at back edge: "+a.cl.Src] = true
			continue
		}
		lab := a.cl.Label
		if lab == "" {
			lab = a.key[strings.LastIndex(a.key, ".")+1:]
		}
		e.obligeInv(st, t, "inv-preserved", lname+"/"+lab, a.cl, a.key)
	}
	if lc.dec != nil {
		var now *Term
		for _, l := range lc.spec {
			if l.Dec != nil {
				if t, ok := e.tryEvalTerm(l.Dec.E, fr, st, li); ok {
					now = t
					break
				}
			}
		}
		if now == nil {
			now = e.autoVariant(fr, st, li)
		}
		if now != nil {
			// the loop was entered with a non-negative measure and it went down
			e.oblige(st, And(Le(IntC(0), lc.dec), Lt(now, lc.dec)), "terminates", lname, nil)
		}
	}
	// reachability: the end of the loop body must be reachable
	e.cover(st, lname+"/body")
}

func (e *Exec) cover(st *State, label string) {
	if e.dry > 0 || st.dead {
		return
	}
	e.obls = append(e.obls, &Obligation{Name: e.rootName() + "/cover/" + label, Kind: "cover", Fn: e.rootName(), Pos: e.posStr(), Assum: st.pcList(), Goal: False, Cover: true, Label: label})
}

// havoc gives everything in the write set an unknown value.
func (e *Exec) havoc(fr *Frame, st *State, sink *writeSink, lname string) {
	var keys []writeKey
	for k := range sink.keys {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		if keys[i].obj != keys[j].obj {
			return keys[i].obj < keys[j].obj
		}
		return keys[i].path < keys[j].path
	})
	// drop keys covered by a prefix
	for i, k := range keys {
		cov := false
		for j, k2 := range keys {
			if i != j && k2.obj == k.obj && strings.HasPrefix(k.path, k2.path) && len(k2.path) < len(k.path) {
				cov = true
			}
		}
		if cov {
			continue
		}
		v, ok := st.mem[k.obj]
		if !ok {
			continue
		}
		o := e.obj(k.obj)
		e.hsink = sink
		st.mem[k.obj] = e.havocPath(v, k.path, o, st)
		e.hsink = nil
	}
	sink.heads = map[string]int{}
	e.walkCells(st, sink, func(k string, x *SliceV) { sink.heads[k] = x.Obj })
	var gs []string
	for g := range sink.ghosts {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		if t := st.ghost[g]; t != nil {
			st.ghost[g] = Fresh("g."+g, t.S)
			e.ghostFact(st, g)
		} else if strings.Contains(g, "@") {
			st.ghost[g] = Fresh("g."+g, e.ghostSort(g))
			e.ghostFact(st, g)
		}
	}
	for f := range sink.frozen {
		st.frozen[f] = true
	}
}

func (e *Exec) ghostFact(st *State, g string) {
	if t := st.ghost[g]; t != nil && (strings.HasPrefix(g, "pos@") || strings.HasPrefix(g, "outlen@")) {
		st.assume(tLe(e.n(0), t))
		if !e.bv() {
			st.assume(Le(t, BigC(intInfo{64, true}.max())))
		}
	}
}

func (e *Exec) havocPath(v Val, path string, o *Obj, st *State) Val {
	return e.havocPathN(v, path, o, e.cellName(o), st)
}

func (e *Exec) havocPathN(v Val, path string, o *Obj, name string, st *State) Val {
	if path == "" {
		if t, ok := v.(*Term); ok && !o.arr {
			return e.havocTyped(t, o.T, name, st)
		}
		return e.havocVal(v, name, st)
	}
	i := strings.IndexByte(path, '.')
	step, rest := path[:i], path[i+1:]
	if step == "*" {
		a := v.(*ArrV)
		return &ArrV{Elem: a.Elem, C: e.havocPath2(a.C, rest), N: a.N}
	}
	var f int
	fmt.Sscanf(step, "%d", &f)
	s := v.(*StructV)
	n := &StructV{T: s.T, F: append([]Val{}, s.F...)}
	fl := s.T.Underlying().(*types.Struct).Field(f)
	if rest == "" {
		n.F[f] = e.havocTyped(s.F[f], fl.Type(), name+"."+fl.Name(), st)
		return n
	}
	o2 := *o
	o2.T = fl.Type()
	n.F[f] = e.havocPathN(s.F[f], rest, &o2, name+"."+fl.Name(), st)
	return n
}

func (e *Exec) havocPath2(c Val, path string) Val {
	if path == "" {
		return mapLeaves(c, func(t *Term) *Term { return Fresh("h", t.S) })
	}
	i := strings.IndexByte(path, '.')
	var f int
	fmt.Sscanf(path[:i], "%d", &f)
	s := c.(*StructV)
	n := &StructV{T: s.T, F: append([]Val{}, s.F...)}
	n.F[f] = e.havocPath2(s.F[f], path[i+1:])
	return n
}

func (e *Exec) havocVal(v Val, name string, st *State) Val {
	switch x := v.(type) {
	case *Term:
		t := Fresh(name, x.S)
		if b, ok := e.ranges[x]; ok {
			e.ranges[t] = b
		}
		return t
	case *StructV:
		n := &StructV{T: x.T}
		u := x.T.Underlying().(*types.Struct)
		for i := range x.F {
			n.F = append(n.F, e.havocTyped(x.F[i], u.Field(i).Type(), name+"."+u.Field(i).Name(), st))
		}
		return n
	case *ArrV:
		return &ArrV{Elem: x.Elem, C: mapLeaves(x.C, func(t *Term) *Term { return Fresh(name, t.S) }), N: x.N}
	case *SliceV:
		return e.havocSlice(x, name, st)
	case *IfaceV, *PtrV, *FuncV, *StrV, *PoisonV:
		return e.havocTyped(v, nil, name, st)
	case nil:
		return nil
	}
	unsup("havoc of %T", v)
	return nil
}

// PoisonV is the value of a pointer or object variable that a loop changes:
// any use before it is assigned again is outside the subset.
type PoisonV struct{ name string }

func (e *Exec) havocTyped(v Val, T types.Type, name string, st *State) Val {
	switch x := v.(type) {
	case *Term:
		t := Fresh(name, x.S)
		if T != nil {
			if ii, ok := intType(T); ok {
				st.assume(e.rangeFact(t, ii))
			}
		}
		return t
	case *SliceV:
		if e.modHavoc && T != nil { // a callee may store any slice
			return e.symVal(T, name, st)
		}
	case *PtrV:
		return &PoisonV{name}
	case *StrV:
		return e.symVal(types.Typ[types.String], name, st)
	case *IfaceV:
		if x.Any != nil {
			return &IfaceV{T: x.T, Any: Fresh(name, SAny), Nil: Fresh(name+".nil", SBool)}
		}
		return &PoisonV{name}
	case *PoisonV:
		return x
	case *FuncV:
		return &FuncV{Ext: name, Nil: Fresh(name+".nil", SBool), Sig: x.Sig}
	}
	return e.havocVal(v, name, st)
}

// havocSlice: a slice variable that changes in the loop keeps its backing
// store; if some iteration gives it another one (append) it gets a store of
// its own, which is only right while nothing else refers to the old one.
func (e *Exec) havocSlice(x *SliceV, name string, st *State) Val {
	if x.View != nil {
		unsup("a byte view changes in a loop: %s", name)
	}
	if e.hsink == nil || !e.hsink.fresh[name] {
		if x.Obj == 0 {
			return x
		}
		n := &SliceV{Obj: x.Obj, Off: Fresh(name+".off", e.idxSort()), Len: Fresh(name+".len", e.idxSort()), Cap: Fresh(name+".cap", e.idxSort()), Nil: x.Nil, Elem: x.Elem}
		a := st.mem[x.Obj].(*ArrV)
		st.assume(And(tLe(e.n(0), n.Off), tLe(e.n(0), n.Len), tLe(n.Len, n.Cap), tLe(tAdd(n.Off, n.Cap), a.N)))
		return n
	}
	if x.Obj != 0 && (x.Obj <= e.visible || e.sharedObj(st, x.Obj)) {
		unsup("%s is given another backing store in a loop while its first one is shared", name)
	}
	return e.symSlice(nil, x.Elem, name, st)
}

// walkCells visits the slice values in the cells a loop writes.
func (e *Exec) walkCells(st *State, sink *writeSink, f func(string, *SliceV)) {
	seen := map[int]bool{}
	for k := range sink.keys {
		if seen[k.obj] {
			continue
		}
		seen[k.obj] = true
		o := e.obj(k.obj)
		var rec func(v Val, name string)
		rec = func(v Val, name string) {
			switch x := v.(type) {
			case *SliceV:
				f(name, x)
			case *StructV:
				u := x.T.Underlying().(*types.Struct)
				for i := range x.F {
					rec(x.F[i], name+"."+u.Field(i).Name())
				}
			}
		}
		if v, ok := st.mem[k.obj]; ok {
			rec(v, e.cellName(o))
		}
	}
}

func (e *Exec) cellName(o *Obj) string { return fmt.Sprintf("%s#%d", o.name, o.id) }

// checkCells compares the backing stores of slice cells at a back edge with
// those at the loop head.
func (e *Exec) checkCells(st *State, sink *writeSink, dry bool) {
	e.walkCells(st, sink, func(k string, x *SliceV) {
		h, ok := sink.heads[k]
		if !ok || h == x.Obj {
			return
		}
		if !sink.fresh[k] {
			if !dry && e.dry == 0 {
				unsup("backing store of %s changes in the loop", k)
			}
			sink.fresh[k] = true
			return
		}
		if x.Obj != 0 && (x.Obj <= e.visible || e.sharedObj(st, x.Obj)) {
			unsup("%s refers to a shared backing store at the end of a loop body", k)
		}
	})
}

func (e *Exec) sharedObj(st *State, obj int) bool { return e.refCount(st, obj) > 1 }

func (e *Exec) refCount(st *State, obj int) int {
	n := 0
	var scan func(v Val)
	scan = func(v Val) {
		switch x := v.(type) {
		case *SliceV:
			if x.Obj == obj {
				n++
			}
		case *PtrV:
			if x.Obj == obj {
				n++
			}
		case *StructV:
			for _, f := range x.F {
				scan(f)
			}
		case *IfaceV:
			scan(x.V)
		}
	}
	for _, v := range st.mem {
		scan(v)
	}
	return n
}

func (e *Exec) setPos(p token.Pos) {
	if p.IsValid() {
		e.curPos = p
	}
}

// ---- constants ----

func (e *Exec) constVal(c *ssa.Const, st *State) Val {
	T := c.Type()
	if c.Value == nil {
		return e.zero(T, st)
	}
	if ii, ok := intType(T); ok {
		v := constant.ToInt(c.Value)
		b, _ := new(big.Int).SetString(v.ExactString(), 10)
		return e.constInt(b, ii)
	}
	switch {
	case isBool(T):
		return BoolC(constant.BoolVal(c.Value))
	case isString(T):
		return e.strConst(constant.StringVal(c.Value))
	case isFloat64(T):
		f, _ := constant.Float64Val(c.Value)
		return e.f64const(f)
	case isFloat32(T):
		f, _ := constant.Float32Val(c.Value)
		return Sym(fmt.Sprintf("f32:%g", f), SF32)
	}
	unsup("constant of type %s", T)
	return nil
}

func (e *Exec) strConst(s string) *StrV {
	c := ConstArr(e.arrOf(e.byteSort()), e.zeroByte())
	if len(s) <= 16 {
		for i := 0; i < len(s); i++ {
			if e.bv() {
				c = Store(c, e.n(int64(i)), BVCi(int64(s[i]), 8))
			} else {
				c = Store(c, e.n(int64(i)), IntC(int64(s[i])))
			}
		}
	} else {
		c = Sym("strbytes:"+fmt.Sprintf("%x", s), e.arrOf(e.byteSort()))
	}
	return &StrV{Const: &s, C: c, Off: e.n(0), Len: e.n(int64(len(s)))}
}
