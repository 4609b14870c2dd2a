package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxSteps = 400000

func (e *Exec) get(fr *Frame, st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x, st)
	case *ssa.Global:
		return e.globalPtr(x, st)
	case *ssa.Function:
		return &FuncV{Fn: x, Nil: False, Sig: x.Signature}
	}
	r, ok := fr.env[v]
	if !ok {
		unsup("value %s of %s is not available", v.Name(), fr.fn.Name())
	}
	return r
}

func (e *Exec) term(fr *Frame, st *State, v ssa.Value) *Term {
	t, ok := e.get(fr, st, v).(*Term)
	if !ok {
		unsup("scalar expected for %s, have %T", v, e.get(fr, st, v))
	}
	return t
}

// run interprets block b from instruction idx; every path ends in outs.
func (e *Exec) run(fr *Frame, st *State, b *ssa.BasicBlock, idx int, from *ssa.BasicBlock, outs *[]Outcome) {
	for ; idx < len(b.Instrs); idx++ {
		if st.dead {
			return
		}
		e.steps++
		if e.steps > maxSteps {
			unsup("too many execution steps in %s", e.rootName())
		}
		in := b.Instrs[idx]
		e.setPos(in.Pos())
		switch x := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			for i, p := range b.Preds {
				if p == from {
					fr.env[x] = e.get(fr, st, x.Edges[i])
				}
			}
		case *ssa.Jump:
			e.jump(fr, st, b, b.Succs[0], outs)
			return
		case *ssa.If:
			c := e.term(fr, st, x.Cond)
			if c == True {
				e.jump(fr, st, b, b.Succs[0], outs)
				return
			}
			if c == False {
				e.jump(fr, st, b, b.Succs[1], outs)
				return
			}
			// prune paths already decided by the path condition
			if e.inPC(st, Not(c)) {
				e.jump(fr, st, b, b.Succs[1], outs)
				return
			}
			if e.inPC(st, c) {
				e.jump(fr, st, b, b.Succs[0], outs)
				return
			}
			s2, f2 := st.clone(), fr.clone()
			st.assume(c)
			s2.assume(Not(c))
			if !e.infeasible(st) {
				e.jump(fr, st, b, b.Succs[0], outs)
			}
			if !e.infeasible(s2) {
				e.jump(f2, s2, b, b.Succs[1], outs)
			}
			return
		case *ssa.Return:
			var vals []Val
			for _, r := range x.Results {
				vals = append(vals, e.get(fr, st, r))
			}
			if fr.limit == nil && fr.parent != nil {
				// the locals of an inlined function are gone
				for _, l := range fr.fn.Locals {
					if p, ok := fr.env[l].(*PtrV); ok {
						delete(st.mem, p.Obj)
					}
				}
			}
			*outs = append(*outs, Outcome{st: st, vals: vals})
			return
		case *ssa.Panic:
			if fr.recovering() {
				e.panicPath(fr, st, nil, outs)
				return
			}
			*outs = append(*outs, Outcome{st: st, panic: true})
			return
		case *ssa.RunDefers:
			if len(fr.defers) == 0 {
				continue
			}
			e.runDefers(fr, st, func(f2 *Frame, s2 *State) { e.run(f2, s2, b, idx+1, from, outs) }, outs)
			return
		case *ssa.Defer:
			fv, args := e.callTarget(fr, st, &x.Call)
			f, ok := fv.(*FuncV)
			if !ok {
				unsup("defer of %s", x.Call.Value)
			}
			fr.defers = append(fr.defers, deferred{fn: *f, args: args})
		case *ssa.Call:
			var os []Outcome
			e.call(fr, st, x, &os)
			for k, o := range os {
				f2, s2 := fr, o.st
				if k < len(os)-1 {
					f2 = fr.clone()
				}
				if o.panic {
					if fr.recovering() && len(f2.defers) > 0 {
						e.panicPath(f2.clone(), s2, o.pv, outs)
					} else {
						*outs = append(*outs, o)
					}
					continue
				}
				switch len(o.vals) {
				case 0:
				case 1:
					f2.env[x] = o.vals[0]
				default:
					f2.env[x] = TupleV(o.vals)
				}
				e.run(f2, s2, b, idx+1, from, outs)
			}
			return
		case ssa.Value:
			if e.value(fr, st, x, outs) {
				continue
			}
			return
		case *ssa.Store:
			p := e.get(fr, st, x.Addr).(*PtrV)
			e.require(fr, st, Not(p.Nil), "nil", "store through nil pointer", outs)
			e.store(p, e.get(fr, st, x.Val), st)
		case *ssa.MapUpdate:
			unsup("map update")
		default:
			unsup("instruction %T", in)
		}
	}
}

// inPC reports whether c is literally on the path condition (recent part).
func (e *Exec) inPC(st *State, c *Term) bool {
	k := 0
	for n := st.pc; n != nil && k < 200; n, k = n.prev, k+1 {
		if n.t == c {
			return true
		}
	}
	return false
}

// infeasible: a cheap syntactic check only.
func (e *Exec) infeasible(st *State) bool {
	if st.dead {
		return true
	}
	if st.pc == nil {
		return false
	}
	t := st.pc.t
	if t.Op == "=" && t.Args[0].S == SInt {
		// x == c against earlier x == d
		var x, c *Term
		if t.Args[0].isC() {
			x, c = t.Args[1], t.Args[0]
		} else if t.Args[1].isC() {
			x, c = t.Args[0], t.Args[1]
		}
		if x != nil {
			k := 0
			for n := st.pc.prev; n != nil && k < 300; n, k = n.prev, k+1 {
				u := n.t
				if u.Op == "=" && (u.Args[0] == x && u.Args[1].isC() && u.Args[1] != c || u.Args[1] == x && u.Args[0].isC() && u.Args[0] != c) {
					return true
				}
			}
		}
	}
	nt := Not(t)
	k := 0
	for n := st.pc.prev; n != nil && k < 300; n, k = n.prev, k+1 {
		if n.t == nt {
			return true
		}
	}
	return false
}

// value executes a value-producing instruction other than a call. It returns
// false if the path ended.
func (e *Exec) value(fr *Frame, st *State, in ssa.Value, outs *[]Outcome) bool {
	switch x := in.(type) {
	case *ssa.Alloc:
		T := x.Type().Underlying().(*types.Pointer).Elem()
		o := e.newObj(T, false, x.Comment)
		st.mem[o.id] = e.zero(T, st)
		fr.env[x] = &PtrV{Obj: o.id, Nil: False, Elem: T}
	case *ssa.BinOp:
		fr.env[x] = e.binop(fr, st, x, outs)
	case *ssa.UnOp:
		return e.unop(fr, st, x, outs)
	case *ssa.ChangeType:
		v := e.get(fr, st, x.X)
		if sv, ok := v.(*StructV); ok {
			v = &StructV{T: x.Type(), F: sv.F}
		}
		fr.env[x] = v
	case *ssa.Convert:
		fr.env[x] = e.convert(fr, st, x)
	case *ssa.ChangeInterface:
		fr.env[x] = e.changeIface(e.get(fr, st, x.X), x.Type())
	case *ssa.MakeInterface:
		v := e.get(fr, st, x.X)
		if isErrType(x.Type()) {
			t := Fresh("err", SErr)
			st.assume(Not(Eq(t, errNil)))
			fr.env[x] = t
			break
		}
		fr.env[x] = &IfaceV{T: x.Type(), Dyn: x.X.Type(), V: v, Nil: False}
	case *ssa.MakeClosure:
		f := &FuncV{Fn: x.Fn.(*ssa.Function), Nil: False, Sig: x.Fn.(*ssa.Function).Signature}
		for _, b := range x.Bindings {
			f.Bind = append(f.Bind, e.get(fr, st, b))
		}
		fr.env[x] = f
	case *ssa.MakeSlice:
		l, c := e.term(fr, st, x.Len), e.term(fr, st, x.Cap)
		l, c = e.toInt64(l, x.Len.Type()), e.toInt64(c, x.Cap.Type())
		e.require(fr, st, And(tLe(e.n(0), l), tLe(l, c)), "make", "make: length out of range", outs)
		elem := x.Type().Underlying().(*types.Slice).Elem()
		fr.env[x] = e.makeSlice(st, elem, l, c, "make")
	case *ssa.Extract:
		fr.env[x] = e.get(fr, st, x.Tuple).(TupleV)[x.Index]
	case *ssa.Field:
		v := e.get(fr, st, x.X)
		fr.env[x] = v.(*StructV).F[x.Field]
	case *ssa.FieldAddr:
		p, ok := e.get(fr, st, x.X).(*PtrV)
		if !ok {
			unsup("field address of %T", e.get(fr, st, x.X))
		}
		e.require(fr, st, Not(p.Nil), "nil", "field of nil pointer", outs)
		T := x.Type().Underlying().(*types.Pointer).Elem()
		fr.env[x] = &PtrV{Obj: p.Obj, Path: append(append([]Step{}, p.Path...), Step{Field: x.Field}), Nil: False, Elem: T}
	case *ssa.IndexAddr:
		i := e.toInt64(e.term(fr, st, x.Index), x.Index.Type())
		T := x.Type().Underlying().(*types.Pointer).Elem()
		switch b := e.get(fr, st, x.X).(type) {
		case *SliceV:
			e.bounds(fr, st, i, b.Len, outs)
			if b.Obj == 0 {
				st.dead = true
				return false
			}
			fr.env[x] = &PtrV{Obj: b.Obj, Path: []Step{{Idx: tAdd(b.Off, i)}}, Nil: False, Elem: T, View: b.View}
		case *PtrV:
			at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			e.require(fr, st, Not(b.Nil), "nil", "index of nil array pointer", outs)
			e.bounds(fr, st, i, e.n(at.Len()), outs)
			fr.env[x] = &PtrV{Obj: b.Obj, Path: append(append([]Step{}, b.Path...), Step{Idx: i}), Nil: False, Elem: T}
		default:
			unsup("index address of %T", b)
		}
	case *ssa.Index:
		i := e.toInt64(e.term(fr, st, x.Index), x.Index.Type())
		switch b := e.get(fr, st, x.X).(type) {
		case *StrV:
			e.bounds(fr, st, i, b.Len, outs)
			t := Select(b.C, tAdd(b.Off, i))
			st.assume(e.rangeFact(t, intInfo{8, false}))
			fr.env[x] = t
		case *ArrV:
			e.bounds(fr, st, i, b.N, outs)
			fr.env[x] = e.toElem(mapLeaves(b.C, func(t *Term) *Term { return Select(t, i) }), b.Elem, st)
		default:
			unsup("index of %T", b)
		}
	case *ssa.Lookup:
		switch b := e.get(fr, st, x.X).(type) {
		case *StrV:
			i := e.toInt64(e.term(fr, st, x.Index), x.Index.Type())
			e.bounds(fr, st, i, b.Len, outs)
			t := Select(b.C, tAdd(b.Off, i))
			st.assume(e.rangeFact(t, intInfo{8, false}))
			fr.env[x] = t
		default:
			// map lookup: an unknown value, nothing is written
			T := x.Type()
			if tp, ok := T.(*types.Tuple); ok {
				fr.env[x] = TupleV{e.symVal(tp.At(0).Type(), "mapval", st), Fresh("mapok", SBool)}
			} else {
				fr.env[x] = e.symVal(T, "mapval", st)
			}
		}
	case *ssa.Slice:
		return e.sliceOp(fr, st, x, outs)
	case *ssa.TypeAssert:
		return e.typeAssert(fr, st, x, outs)
	case *ssa.SliceToArrayPointer:
		unsup("slice to array pointer conversion")
	case *ssa.MakeMap:
		fr.env[x] = nil
	default:
		if strings.Contains(fmt.Sprint(in), "deferstack") {
			fr.env[in] = nil
			break
		}
		unsup("instruction %T", in)
	}
	return true
}

func (e *Exec) bounds(fr *Frame, st *State, i, n *Term, outs *[]Outcome) {
	e.require(fr, st, And(tLe(e.n(0), i), tLt(i, n)), "bounds", "index out of range", outs)
}

// toInt64 widens an index of any integer type.
func (e *Exec) toInt64(t *Term, T types.Type) *Term {
	if !e.bv() {
		return t
	}
	ii, _ := intType(T)
	return bvExt(t, ii, 64)
}

func bvExt(t *Term, ii intInfo, w int) *Term {
	if ii.bits == w {
		return t
	}
	if ii.bits > w {
		if t.isC() {
			return BVC(t.Val, w)
		}
		return intern(&Term{Op: fmt.Sprintf("(_ extract %d 0)", w-1), S: SBV(w), Args: []*Term{t}})
	}
	if t.isC() {
		if ii.signed {
			return BVC(sgn(t.Val, ii.bits), w)
		}
		return BVC(t.Val, w)
	}
	op := "zero_extend"
	if ii.signed {
		op = "sign_extend"
	}
	return intern(&Term{Op: fmt.Sprintf("(_ %s %d)", op, w-ii.bits), S: SBV(w), Args: []*Term{t}})
}

func (e *Exec) makeSlice(st *State, elem types.Type, l, c *Term, name string) *SliceV {
	o := e.newObj(elem, true, name)
	st.mem[o.id] = &ArrV{Elem: elem, C: e.zeroLifted(elem), N: c}
	return &SliceV{Obj: o.id, Off: e.n(0), Len: l, Cap: c, Nil: False, Elem: elem}
}

func (e *Exec) unop(fr *Frame, st *State, x *ssa.UnOp, outs *[]Outcome) bool {
	switch x.Op {
	case token.MUL:
		if strings.Contains(x.Type().String(), "deferStack") {
			fr.env[x] = nil
			return true
		}
		p, ok := e.get(fr, st, x.X).(*PtrV)
		if !ok {
			unsup("load through %T", e.get(fr, st, x.X))
		}
		e.require(fr, st, Not(p.Nil), "nil", "nil pointer dereference", outs)
		if p.Obj == 0 {
			st.dead = true
			return false
		}
		if p.View != nil {
			unsup("load through a byte view")
		}
		fr.env[x] = e.load(p, st)
	case token.NOT:
		fr.env[x] = Not(e.term(fr, st, x.X))
	case token.SUB:
		t := e.term(fr, st, x.X)
		if ii, ok := intType(x.Type()); ok {
			if isBV(t) {
				fr.env[x] = bvop("bvsub", BVCi(0, ii.bits), t)
			} else {
				fr.env[x] = e.arith(fr, st, Neg(t), ii, x)
			}
		} else {
			declFun("fneg."+t.S.Name, t.S, t.S)
			fr.env[x] = App("fneg."+t.S.Name, t)
		}
	case token.XOR:
		t := e.term(fr, st, x.X)
		ii, _ := intType(x.Type())
		if isBV(t) {
			fr.env[x] = mk("bvnot", t.S, t)
		} else if ii.signed {
			fr.env[x] = Sub(IntC(-1), t)
		} else {
			fr.env[x] = Sub(BigC(ii.max()), t)
		}
	default:
		unsup("unary %s", x.Op)
	}
	return true
}

func (e *Exec) siteKey(in ssa.Instruction) string {
	b := in.Block()
	for i, x := range b.Instrs {
		if x == in {
			return fmt.Sprintf("%s:%d.%d", in.Parent().String(), b.Index, i)
		}
	}
	return "?"
}

// wrapInt is the value of the mathematical integer t in the given type.
func wrapInt(t *Term, ii intInfo) *Term {
	if t.isC() {
		return BigC(wrapBig(t.Val, ii))
	}
	m := new(big.Int).Lsh(big.NewInt(1), uint(ii.bits))
	if !ii.signed {
		return ModC(t, m)
	}
	h := new(big.Int).Lsh(big.NewInt(1), uint(ii.bits-1))
	return Sub(ModC(Add(t, BigC(h)), m), BigC(h))
}

func wrapBig(v *big.Int, ii intInfo) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), uint(ii.bits))
	r := new(big.Int).Mod(v, m)
	if ii.signed && r.Bit(ii.bits-1) == 1 {
		r.Sub(r, m)
	}
	return r
}

func inRange(t *Term, ii intInfo) *Term {
	return And(Le(BigC(ii.min()), t), Le(t, BigC(ii.max())))
}

// arith gives the machine value of mathematical result t.
func (e *Exec) arith(fr *Frame, st *State, t *Term, ii intInfo, in ssa.Instruction) *Term {
	r := inRange(t, ii)
	if r == True {
		return t
	}
	if b, ok := e.ub(t); ok && (!ii.signed && b <= ii.bits || ii.signed && b < ii.bits) {
		return t
	}
	key := e.siteKey(in)
	if e.wrapAt[key] {
		return Ite(r, t, wrapInt(t, ii))
	}
	n := len(e.obls)
	e.oblige(st, r, "overflow", fmt.Sprint(in), nil)
	for ; n < len(e.obls); n++ {
		e.obls[n].Site = "wrap:" + key
	}
	st.assume(r)
	return t
}

// ub: t is known to be in [0, 2^k).
func (e *Exec) ub(t *Term) (int, bool) {
	if t.Op == "int" {
		if t.Val.Sign() < 0 {
			return 0, false
		}
		return t.Val.BitLen(), true
	}
	if b, ok := e.ranges[t]; ok {
		return b, true
	}
	switch t.Op {
	case "mod":
		if m := t.Args[1].Val; m.Sign() > 0 {
			return new(big.Int).Sub(m, big.NewInt(1)).BitLen(), true
		}
	case "*":
		if t.Args[0].Op == "int" && t.Args[0].Val.Sign() > 0 {
			if b, ok := e.ub(t.Args[1]); ok {
				c := t.Args[0].Val
				if new(big.Int).And(c, new(big.Int).Sub(c, big.NewInt(1))).Sign() == 0 {
					return b + c.BitLen() - 1, true
				}
				return b + c.BitLen(), true
			}
		}
	case "div":
		if b, ok := e.ub(t.Args[0]); ok {
			k := b - (t.Args[1].Val.BitLen() - 1)
			if k < 0 {
				k = 0
			}
			return k, true
		}
	case "+":
		// sum of parts that do not overlap
		tot := new(big.Int)
		for _, a := range t.Args {
			b, ok := e.ub(a)
			if !ok {
				return 0, false
			}
			// largest value is 2^b - 2^tz
			z := tz(a)
			if z > b {
				z = b
			}
			mx := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(b)), new(big.Int).Lsh(big.NewInt(1), uint(z)))
			if a.Op == "int" {
				mx = a.Val
			}
			tot.Add(tot, mx)
		}
		return tot.BitLen(), true
	case "ite":
		a, ok := e.ub(t.Args[1])
		b, ok2 := e.ub(t.Args[2])
		if ok && ok2 {
			if a < b {
				a = b
			}
			return a, true
		}
	}
	return 0, false
}

// tz: t is a multiple of 2^tz(t).
func tz(t *Term) int {
	switch t.Op {
	case "int":
		if t.Val.Sign() == 0 {
			return 64
		}
		return int(new(big.Int).Abs(t.Val).TrailingZeroBits())
	case "*":
		if t.Args[0].Op == "int" {
			return tz(t.Args[0]) + tz(t.Args[1])
		}
	case "+":
		m := 64
		for _, a := range t.Args {
			if z := tz(a); z < m {
				m = z
			}
		}
		return m
	case "mod":
		a, b := tz(t.Args[0]), tz(t.Args[1])
		if a < b {
			return a
		}
		return b
	case "ite":
		a, b := tz(t.Args[1]), tz(t.Args[2])
		if a < b {
			return a
		}
		return b
	}
	return 0
}

func (e *Exec) binop(fr *Frame, st *State, x *ssa.BinOp, outs *[]Outcome) Val {
	a, b := e.get(fr, st, x.X), e.get(fr, st, x.Y)
	ta, aok := a.(*Term)
	tb, bok := b.(*Term)
	T := x.X.Type()
	if aok && bok {
		if ii, ok := intType(T); ok {
			return e.intBinop(fr, st, x, ta, tb, ii, outs)
		}
		if isFloat64(T) || isFloat32(T) {
			return e.floatBinop(x.Op, ta, tb)
		}
		switch x.Op {
		case token.EQL:
			return Eq(ta, tb)
		case token.NEQ:
			return Not(Eq(ta, tb))
		}
	}
	switch x.Op {
	case token.EQL:
		return e.goEq(a, b, T, st)
	case token.NEQ:
		return Not(e.goEq(a, b, T, st))
	case token.ADD:
		if sa, ok := a.(*StrV); ok {
			sb := b.(*StrV)
			if sa.Const != nil && sb.Const != nil {
				return e.strConst(*sa.Const + *sb.Const)
			}
			l := Fresh("str.len", e.idxSort())
			st.assume(tLe(e.n(0), l))
			return &StrV{C: Fresh("str", e.arrOf(e.byteSort())), Off: e.n(0), Len: l}
		}
	}
	unsup("binary %s on %s", x.Op, T)
	return nil
}

// goEq is Go's == on two values.
func (e *Exec) goEq(a, b Val, T types.Type, st *State) *Term {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			unsup("comparison of %T and %T", a, b)
		}
		if x.S == SF64 || x.S == SF32 {
			return e.floatBinop(token.EQL, x, y)
		}
		return Eq(x, y)
	case *StructV:
		y := b.(*StructV)
		u := x.T.Underlying().(*types.Struct)
		var cs []*Term
		for i := range x.F {
			cs = append(cs, e.goEq(x.F[i], y.F[i], u.Field(i).Type(), st))
		}
		return And(cs...)
	case *PtrV:
		y := b.(*PtrV)
		if y.Nil == True {
			return x.Nil
		}
		if x.Nil == True {
			return y.Nil
		}
		if x.Obj != y.Obj || len(x.Path) != len(y.Path) {
			return And(x.Nil, y.Nil)
		}
		cs := []*Term{}
		for i := range x.Path {
			if x.Path[i].Idx != nil && y.Path[i].Idx != nil {
				cs = append(cs, Eq(x.Path[i].Idx, y.Path[i].Idx))
			} else if x.Path[i].Field != y.Path[i].Field || (x.Path[i].Idx == nil) != (y.Path[i].Idx == nil) {
				return And(x.Nil, y.Nil)
			}
		}
		return Or(And(x.Nil, y.Nil), And(Not(x.Nil), Not(y.Nil), And(cs...)))
	case *SliceV:
		if y, ok := b.(*SliceV); ok && y.Nil == True {
			return x.Nil
		}
		if x.Nil == True {
			return b.(*SliceV).Nil
		}
	case *FuncV:
		y := b.(*FuncV)
		if y.Nil == True {
			return x.Nil
		}
		if x.Nil == True {
			return y.Nil
		}
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok {
			break
		}
		if y.Nil == True {
			return e.ifaceNil(x)
		}
		if x.Nil == True {
			return e.ifaceNil(y)
		}
		if x.Ext != 0 && x.Ext == y.Ext {
			return Eq(x.Nil, y.Nil)
		}
		if x.Any != nil && y.Any != nil {
			return Fresh("ifaceeq", SBool)
		}
	case *StrV:
		y := b.(*StrV)
		if x.Const != nil && y.Const != nil {
			return BoolC(*x.Const == *y.Const)
		}
		if y.Const != nil && *y.Const == "" && x.Len != nil {
			return Eq(x.Len, e.n(0))
		}
		return Eq(e.strTerm(x), e.strTerm(y))
	}
	unsup("comparison of %T (%s)", a, T)
	return nil
}

func (e *Exec) ifaceNil(x *IfaceV) *Term {
	if x.Nil != nil {
		return x.Nil
	}
	if x.Any != nil {
		return Eq(x.Any, Sym("any.nil", SAny))
	}
	return False
}

func (e *Exec) intBinop(fr *Frame, st *State, x *ssa.BinOp, a, b *Term, ii intInfo, outs *[]Outcome) *Term {
	if e.bv() {
		return e.bvBinop(fr, st, x, a, b, ii, outs)
	}
	switch x.Op {
	case token.EQL:
		return Eq(a, b)
	case token.NEQ:
		return Not(Eq(a, b))
	case token.LSS:
		return Lt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GTR:
		return Lt(b, a)
	case token.GEQ:
		return Le(b, a)
	case token.ADD:
		return e.arith(fr, st, Add(a, b), ii, x)
	case token.SUB:
		return e.arith(fr, st, Sub(a, b), ii, x)
	case token.MUL:
		return e.arith(fr, st, Mul(a, b), ii, x)
	case token.QUO, token.REM:
		e.require(fr, st, Not(Eq(b, IntC(0))), "divzero", "division by zero", outs)
		var q *Term
		if b.isC() && b.Val.Sign() > 0 {
			if !ii.signed {
				q = DivC(a, b.Val)
			} else {
				q = Ite(Le(IntC(0), a), DivC(a, b.Val), Neg(DivC(Neg(a), b.Val)))
				if _, ok := e.ub(a); ok {
					q = DivC(a, b.Val)
				}
			}
			if x.Op == token.REM {
				if _, ok := e.ub(a); ok || !ii.signed {
					return ModC(a, b.Val)
				}
				return Sub(a, Mul(b, q))
			}
			return q
		}
		if a.isC() && b.isC() {
			qq := new(big.Int).Quo(a.Val, b.Val)
			if x.Op == token.REM {
				return BigC(new(big.Int).Rem(a.Val, b.Val))
			}
			return BigC(qq)
		}
		q = e.udiv(a, b)
		st.assume(e.udivFact(a, b))
		if ii.signed {
			ok := And(Le(IntC(0), a), Lt(IntC(0), b))
			e.oblige(st, ok, "divneg", "signed division of possibly negative numbers", nil)
			st.assume(ok)
		}
		if x.Op == token.REM {
			return Sub(a, Mul(b, q))
		}
		return q
	case token.SHL:
		if b.isC() {
			if b.Val.Cmp(big.NewInt(int64(ii.bits))) >= 0 {
				return IntC(0)
			}
			t := Mul(BigC(new(big.Int).Lsh(big.NewInt(1), uint(b.Val.Int64()))), a)
			if k, ok := e.ub(t); ok && (!ii.signed && k <= ii.bits || k < ii.bits) {
				return t
			}
			r := inRange(t, ii)
			if r == True {
				return t
			}
			return wrapInt(t, ii)
		}
	case token.SHR:
		if b.isC() {
			if b.Val.Cmp(big.NewInt(int64(ii.bits))) >= 0 {
				return Ite(Lt(a, IntC(0)), IntC(-1), IntC(0))
			}
			return DivC(a, new(big.Int).Lsh(big.NewInt(1), uint(b.Val.Int64())))
		}
	case token.OR:
		if a.isC() && b.isC() {
			return BigC(new(big.Int).Or(a.Val, b.Val))
		}
		if k, ok := e.ub(a); ok && tz(b) >= k {
			return Add(a, b)
		}
		if k, ok := e.ub(b); ok && tz(a) >= k {
			return Add(a, b)
		}
		declFun("bitor", SInt, SInt, SInt)
		if a.id > b.id {
			a, b = b, a
		}
		t := App("bitor", a, b)
		st.assume(e.rangeFact(t, ii))
		return t
	case token.AND:
		if a.isC() && b.isC() {
			return BigC(new(big.Int).And(a.Val, b.Val))
		}
		if a.isC() {
			a, b = b, a
		}
		if b.isC() && b.Val.Sign() > 0 {
			p := new(big.Int).Add(b.Val, big.NewInt(1))
			if new(big.Int).And(p, b.Val).Sign() == 0 {
				return ModC(a, p)
			}
		}
		if b.isC() && b.Val.Sign() == 0 {
			return IntC(0)
		}
		declFun("bitand", SInt, SInt, SInt)
		if a.id > b.id {
			a, b = b, a
		}
		t := App("bitand", a, b)
		st.assume(e.rangeFact(t, ii))
		return t
	case token.XOR:
		if a.isC() && b.isC() {
			return BigC(wrapBig(new(big.Int).Xor(a.Val, b.Val), ii))
		}
		declFun("bitxor", SInt, SInt, SInt)
		if a.id > b.id {
			a, b = b, a
		}
		t := App("bitxor", a, b)
		st.assume(e.rangeFact(t, ii))
		return t
	}
	unsup("integer %s", x.Op)
	return nil
}

func (e *Exec) udiv(a, b *Term) *Term {
	declFun("udiv", SInt, SInt, SInt)
	return App("udiv", a, b)
}

// udivFact states what udiv(a,b) is for a >= 0, b > 0.
func (e *Exec) udivFact(a, b *Term) *Term {
	q := e.udiv(a, b)
	return Imp(And(Le(IntC(0), a), Lt(IntC(0), b)), And(Le(IntC(0), q), Le(q, a), Le(Mul(q, b), a), Lt(a, Add(Mul(q, b), b))))
}

func (e *Exec) bvBinop(fr *Frame, st *State, x *ssa.BinOp, a, b *Term, ii intInfo, outs *[]Outcome) *Term {
	s := "bvu"
	if ii.signed {
		s = "bvs"
	}
	switch x.Op {
	case token.EQL:
		return Eq(a, b)
	case token.NEQ:
		return Not(Eq(a, b))
	case token.LSS:
		return bvcmp(s+"lt", a, b)
	case token.LEQ:
		return bvcmp(s+"le", a, b)
	case token.GTR:
		return bvcmp(s+"lt", b, a)
	case token.GEQ:
		return bvcmp(s+"le", b, a)
	case token.ADD:
		return bvop("bvadd", a, b)
	case token.SUB:
		return bvop("bvsub", a, b)
	case token.MUL:
		return bvop("bvmul", a, b)
	case token.AND:
		return bvop("bvand", a, b)
	case token.OR:
		return bvop("bvor", a, b)
	case token.XOR:
		return bvop("bvxor", a, b)
	case token.AND_NOT:
		return bvop("bvand", a, mk("bvnot", b.S, b))
	case token.SHL, token.SHR:
		yi, _ := intType(x.Y.Type())
		if yi.signed {
			e.require(fr, st, bvcmp("bvsle", BVCi(0, yi.bits), b), "shift", "negative shift", outs)
		}
		var k *Term
		if yi.bits > ii.bits {
			// saturate
			lim := BVCi(int64(ii.bits), yi.bits)
			k = bvExt(Ite(bvcmp("bvult", b, lim), b, lim), intInfo{yi.bits, false}, ii.bits)
		} else {
			k = bvExt(b, intInfo{yi.bits, false}, ii.bits)
		}
		if x.Op == token.SHL {
			return bvop("bvshl", a, k)
		}
		if ii.signed {
			return mk("bvashr", a.S, a, k)
		}
		return bvop("bvlshr", a, k)
	case token.QUO, token.REM:
		e.require(fr, st, Not(Eq(b, BVCi(0, ii.bits))), "divzero", "division by zero", outs)
		op := map[bool]map[token.Token]string{true: {token.QUO: "bvsdiv", token.REM: "bvsrem"}, false: {token.QUO: "bvudiv", token.REM: "bvurem"}}[ii.signed][x.Op]
		return mk(op, a.S, a, b)
	}
	unsup("integer %s", x.Op)
	return nil
}

func (e *Exec) convert(fr *Frame, st *State, x *ssa.Convert) Val {
	v := e.get(fr, st, x.X)
	from, to := x.X.Type(), x.Type()
	if fi, ok := intType(from); ok {
		t := v.(*Term)
		if ti, ok := intType(to); ok {
			if e.bv() {
				return bvExt(t, fi, ti.bits)
			}
			return e.convInt(st, t, fi, ti)
		}
		if isFloat64(to) || isFloat32(to) {
			s := SF64
			if isFloat32(to) {
				s = SF32
			}
			n := fmt.Sprintf("i%d%vto%s", fi.bits, fi.signed, s.Name)
			declFun(n, s, t.S)
			return App(n, t)
		}
	}
	if isFloat64(from) || isFloat32(from) {
		t := v.(*Term)
		if ti, ok := intType(to); ok {
			n := fmt.Sprintf("%stoi%d%v.%s", t.S.Name, ti.bits, ti.signed, e.mode)
			declFun(n, e.intSort(ti), t.S)
			r := App(n, t)
			st.assume(e.rangeFact(r, ti))
			return r
		}
		if isFloat64(from) && isFloat64(to) || isFloat32(from) && isFloat32(to) {
			return t
		}
		s := SF64
		if isFloat32(to) {
			s = SF32
		}
		n := t.S.Name + "to" + s.Name
		declFun(n, s, t.S)
		return App(n, t)
	}
	if isString(from) && isByteSlice(to) {
		s := v.(*StrV)
		sl := e.makeSlice(st, to.Underlying().(*types.Slice).Elem(), s.Len, s.Len, "strbytes")
		if s.C != nil {
			st.mem[sl.Obj] = &ArrV{Elem: sl.Elem, C: e.shift(s.C, s.Off), N: s.Len}
		}
		return sl
	}
	if isByteSlice(from) && isString(to) {
		s := v.(*SliceV)
		return &StrV{C: e.bytesOf(s, st), Off: e.n(0), Len: s.Len}
	}
	if isString(from) && isString(to) {
		return v
	}
	if p, ok := v.(*PtrV); ok {
		np := *p
		if pt, ok := to.Underlying().(*types.Pointer); ok {
			if ii, ok := intType(pt.Elem()); ok && ii.bits == 8 && p.Elem != nil {
				if pi, ok := intType(p.Elem); !ok || pi.bits != 8 {
					if len(p.Path) != 1 || p.Path[0].Idx == nil {
						unsup("byte pointer to %s", p.Elem)
					}
					np.View = &ViewV{Elem: p.Elem, Size: e.w.Sizes.Sizeof(p.Elem), First: p.Path[0].Idx}
					return &np
				}
			}
			if p.Elem != nil && !types.Identical(p.Elem, pt.Elem()) {
				unsup("pointer conversion from *%s to %s", p.Elem, to)
			}
		}
		return &np
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

func (e *Exec) convInt(st *State, t *Term, fi, ti intInfo) *Term {
	if t.isC() {
		return BigC(wrapBig(t.Val, ti))
	}
	if fi.min().Cmp(ti.min()) >= 0 && fi.max().Cmp(ti.max()) <= 0 {
		return t
	}
	if k, ok := e.ub(t); ok && (!ti.signed && k <= ti.bits || k < ti.bits) {
		return t
	}
	if ti.bits <= 16 {
		// a byte of something: the plain form is the useful one
		return wrapInt(t, ti)
	}
	r := inRange(t, ti)
	if e.inPC(st, r) {
		return t
	}
	var lo, hi *Term = Le(BigC(ti.min()), t), Le(t, BigC(ti.max()))
	// keep the half that can fail
	var cs []*Term
	if fi.min().Cmp(ti.min()) < 0 {
		cs = append(cs, lo)
	}
	if fi.max().Cmp(ti.max()) > 0 {
		cs = append(cs, hi)
	}
	return Ite(And(cs...), t, wrapInt(t, ti))
}

func (e *Exec) changeIface(v Val, T types.Type) Val {
	switch x := v.(type) {
	case *Term: // error
		if isErrType(T) {
			return x
		}
		return &IfaceV{T: T, Dyn: types.Universe.Lookup("error").Type(), V: x, Nil: Eq(x, errNil)}
	case *IfaceV:
		n := *x
		n.T = T
		return &n
	}
	unsup("change interface of %T", v)
	return nil
}

func (e *Exec) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert, outs *[]Outcome) bool {
	v := e.get(fr, st, x.X)
	T := x.AssertedType
	set := func(val Val, ok *Term) bool {
		if x.CommaOk {
			fr.env[x] = TupleV{val, ok}
			return true
		}
		e.require(fr, st, ok, "typeassert", "type assertion", outs)
		fr.env[x] = val
		return true
	}
	iv, ok := v.(*IfaceV)
	if !ok {
		if t, isT := v.(*Term); isT && t.S == SErr {
			// an error asserted to something else
			val := e.symVal(T, "asserted", st)
			return set(val, And(Not(Eq(t, errNil)), Fresh("asserts", SBool)))
		}
		unsup("type assertion on %T", v)
	}
	if iv.Dyn != nil {
		if types.IsInterface(T) {
			okk := BoolC(types.Implements(iv.Dyn, T.Underlying().(*types.Interface)))
			n := *iv
			n.T = T
			return set(&n, And(Not(e.ifaceNil(iv)), okk))
		}
		if types.Identical(iv.Dyn, T) {
			return set(iv.V, Not(e.ifaceNil(iv)))
		}
		return set(e.zero(T, st), False)
	}
	if iv.Ext != 0 {
		if it, ok := T.Underlying().(*types.Interface); ok {
			has := e.implements(iv, it)
			okk := And(Not(e.ifaceNil(iv)), has)
			if x.CommaOk {
				fr.env[x] = TupleV{&IfaceV{T: T, Ext: iv.Ext, Nil: Not(okk)}, okk}
				return true
			}
			e.require(fr, st, okk, "typeassert", "type assertion", outs)
			fr.env[x] = &IfaceV{T: T, Ext: iv.Ext, Nil: False}
			return true
		}
		return set(e.symVal(T, "asserted", st), Fresh("asserts", SBool))
	}
	if iv.Nil == True {
		return set(e.zero(T, st), False)
	}
	return set(e.symVal(T, "asserted", st), Fresh("asserts", SBool))
}

// implements: does the external object have all methods of the interface.
func (e *Exec) implements(iv *IfaceV, it *types.Interface) *Term {
	var cs []*Term
	have := map[string]bool{}
	if st, ok := iv.T.Underlying().(*types.Interface); ok {
		for i := 0; i < st.NumMethods(); i++ {
			have[st.Method(i).Name()] = true
		}
	}
	if o, ok := e.obj(iv.Ext).T.Underlying().(*types.Interface); ok {
		for i := 0; i < o.NumMethods(); i++ {
			have[o.Method(i).Name()] = true
		}
	}
	for i := 0; i < it.NumMethods(); i++ {
		if n := it.Method(i).Name(); !have[n] {
			cs = append(cs, e.hasMethod(iv.Ext, n))
		}
	}
	return And(cs...)
}

func (e *Exec) hasMethod(ext int, n string) *Term {
	return Sym(fmt.Sprintf("has:%s@%d", n, ext), SBool)
}

func (e *Exec) sliceOp(fr *Frame, st *State, x *ssa.Slice, outs *[]Outcome) bool {
	idx := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return e.toInt64(e.term(fr, st, v), v.Type())
	}
	lo, hi, mx := idx(x.Low), idx(x.High), idx(x.Max)
	if lo == nil {
		lo = e.n(0)
	}
	switch b := e.get(fr, st, x.X).(type) {
	case *SliceV:
		if hi == nil {
			hi = b.Len
		}
		c := b.Cap
		if mx != nil {
			e.require(fr, st, And(tLe(hi, mx), tLe(mx, b.Cap)), "slice", "slice bounds out of range", outs)
			c = mx
		}
		e.require(fr, st, And(tLe(e.n(0), lo), tLe(lo, hi), tLe(hi, b.Cap)), "slice", "slice bounds out of range", outs)
		n := &SliceV{Obj: b.Obj, Off: tAdd(b.Off, lo), Len: tSub(hi, lo), Cap: tSub(c, lo), Nil: b.Nil, Elem: b.Elem}
		if b.View != nil {
			n.View = b.View
		}
		fr.env[x] = n
	case *PtrV:
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		e.require(fr, st, Not(b.Nil), "nil", "slice of nil array pointer", outs)
		if len(b.Path) != 0 {
			unsup("slice of a nested array")
		}
		if hi == nil {
			hi = e.n(at.Len())
		}
		c := e.n(at.Len())
		e.require(fr, st, And(tLe(e.n(0), lo), tLe(lo, hi), tLe(hi, c)), "slice", "slice bounds out of range", outs)
		fr.env[x] = &SliceV{Obj: b.Obj, Off: lo, Len: tSub(hi, lo), Cap: tSub(c, lo), Nil: False, Elem: at.Elem()}
	case *StrV:
		if hi == nil {
			hi = b.Len
		}
		e.require(fr, st, And(tLe(e.n(0), lo), tLe(lo, hi), tLe(hi, b.Len)), "slice", "slice bounds out of range", outs)
		fr.env[x] = &StrV{C: b.C, Off: tAdd(b.Off, lo), Len: tSub(hi, lo)}
	default:
		unsup("slice of %T", b)
	}
	return true
}
