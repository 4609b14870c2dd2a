package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Env is the environment a specification expression is evaluated in.
type Env struct {
	e      *Exec
	vars   map[string]Val
	st     *State
	old    *State
	iter   *State // state at the start of the iteration (ghost updates)
	pkg    string
	parent *Env
	fr     *Frame
	li     *loopInfo
	q      int // quantifier depth
	inOld  bool
}

func (v *Env) with(st, old *State) *Env {
	n := *v
	n.st, n.old = st, old
	return &n
}

type specErr struct{ msg string }

// specNil: the specification dereferences a literal nil. The innermost
// implication around it reads its consequent as false.
type specNil struct{ msg string }

func badNil(f string, a ...interface{}) { panic(specNil{fmt.Sprintf(f, a...)}) }

func (e *Exec) consequent(x *Expr, env *Env) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(specNil); !ok {
				panic(r)
			}
			t = False
		}
	}()
	return e.evalBool(x, env)
}

func bad(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

func (e *Exec) frameEnv(fr *Frame, st *State, li *loopInfo) *Env {
	n := &Env{e: e, vars: map[string]Val{}, st: st, old: e.oldSt, pkg: e.root.Pkg, fr: fr, li: li}
	if e.env0 != nil {
		n.parent = e.env0
	}
	return n
}

func (e *Exec) tryEvalEnv(x *Expr, env *Env) (t *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			switch z := r.(type) {
			case specErr:
				e.notes["not evaluable: "+z.msg] = true
			case specNil:
				e.notes["not evaluable: "+z.msg] = true
			case Unsupported:
				e.notes["not evaluable: "+z.Msg] = true
			default:
				panic(r)
			}
			ok = false
		}
	}()
	return e.evalTerm(x, env), true
}

func (e *Exec) tryEval(x *Expr, fr *Frame, st *State, li *loopInfo) (*Term, bool) {
	t, ok := e.tryEvalEnv(x, e.frameEnv(fr, st, li))
	if ok && t.S != SBool {
		ok = false
	}
	return t, ok
}

func (e *Exec) tryEvalTerm(x *Expr, fr *Frame, st *State, li *loopInfo) (*Term, bool) {
	return e.tryEvalEnv(x, e.frameEnv(fr, st, li))
}

func (e *Exec) evalBool(x *Expr, env *Env) *Term {
	t := e.evalTerm(x, env)
	if t.S != SBool {
		bad("not a boolean: %s", x.Src)
	}
	return t
}

func (e *Exec) evalTerm(x *Expr, env *Env) *Term {
	v := e.evalVal(x, env)
	t, ok := v.(*Term)
	if !ok {
		bad("not a scalar (%T): %s", v, exprString(x))
	}
	return t
}

func exprString(x *Expr) string {
	if x.Src != "" {
		return x.Src
	}
	switch x.K {
	case "sel":
		return exprString(x.Args[0]) + "." + x.Name
	case "call":
		var as []string
		for _, a := range x.Args {
			as = append(as, exprString(a))
		}
		return x.Name + "(" + strings.Join(as, ",") + ")"
	case "bin":
		return exprString(x.Args[0]) + x.Name + exprString(x.Args[1])
	case "idx":
		return exprString(x.Args[0]) + "[" + exprString(x.Args[1]) + "]"
	}
	return x.K + ":" + x.Name
}

// applyHints assumes the instances of lemmas named by apply clauses.
func (e *Exec) applyHints(fr *Frame, st *State, li *loopInfo) {
	for _, c := range e.root.Apply {
		if c.Label == "exit" {
			continue
		}
		if t, ok := e.tryEvalEnv(c.E, e.frameEnv(fr, st, li)); ok && t.S == SBool {
			st.assume(t)
		}
	}
}

var nilMark = &PtrV{Nil: True}

func (e *Exec) lookup(env *Env, name string) (Val, bool) {
	if v, ok := env.vars[name]; ok {
		return v, true
	}
	if t := env.st.ghost[name]; t != nil {
		return t, true
	}
	if env.fr != nil {
		for f := env.fr; f != nil; f = f.parent {
			li := env.li
			if f != env.fr {
				li = nil
			}
			if v, ok := e.localVar(f, env.st, name, li); ok {
				return v, true
			}
		}
	}
	if env.parent != nil {
		if v, ok := env.parent.vars[name]; ok {
			return v, true
		}
	}
	switch name {
	case "true":
		return True, true
	case "false":
		return False, true
	case "nil":
		return nilMark, true
	case "emptyset":
		return ConstArr(SArr(SBool), False), true
	case "zeros":
		return ConstArr(SArr(SInt), IntC(0)), true
	}
	// package-level objects
	pkg := env.pkg
	if p := e.w.pkgByName(pkg); p != nil {
		if v, ok := e.pkgObj(p, name, env); ok {
			return v, true
		}
	}
	return nil, false
}

func (e *Exec) pkgObj(p *ssa.Package, name string, env *Env) (Val, bool) {
	switch m := p.Members[name].(type) {
	case *ssa.NamedConst:
		v := m.Value
		if v.Value != nil && v.Value.Kind() == constant.Int {
			b, _ := new(big.Int).SetString(v.Value.ExactString(), 10)
			return BigC(b), true
		}
		return e.constVal(v, env.st), true
	case *ssa.Global:
		return e.load(e.globalPtr(m, env.st), env.st), true
	case *ssa.Function:
		return &FuncV{Fn: m, Nil: False, Sig: m.Signature}, true
	}
	return nil, false
}

// localVar finds a source-level variable of a frame.
func (e *Exec) localVar(f *Frame, st *State, name string, li *loopInfo) (Val, bool) {
	var best *ssa.Alloc
	consider := func(a *ssa.Alloc) {
		if a.Comment != name {
			return
		}
		if _, ok := f.env[a]; !ok {
			return
		}
		if best == nil || a.Pos() > best.Pos() {
			best = a
		}
	}
	for _, a := range f.fn.Locals {
		consider(a)
	}
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && a.Heap {
				consider(a)
			}
		}
	}
	if best != nil {
		p, ok := f.env[best].(*PtrV)
		if !ok {
			return nil, false
		}
		if li != nil && li.fn == f.fn {
			if ri := rangeIndexOf(best, li); ri != nil {
				if rp, ok := f.env[ri].(*PtrV); ok {
					if t, ok := e.load(rp, st).(*Term); ok {
						return tAdd(t, e.n(1)), true
					}
				}
			}
		}
		if _, ok := st.mem[p.Obj]; !ok {
			return nil, false
		}
		return e.load(p, st), true
	}
	for _, fv := range f.fn.FreeVars {
		if fv.Name() == name {
			if p, ok := f.env[fv].(*PtrV); ok {
				return e.load(p, st), true
			}
		}
	}
	// parameters that are not spilled
	for _, p := range f.fn.Params {
		if p.Name() == name {
			v, ok := f.env[p]
			return v, ok
		}
	}
	return nil, false
}

// rangeIndexOf returns the hidden index of a range loop when a is its key variable.
func rangeIndexOf(a *ssa.Alloc, li *loopInfo) *ssa.Alloc {
	idx := func(v ssa.Value) *ssa.Alloc {
		if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
			v = b.X
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if x, ok := u.X.(*ssa.Alloc); ok && x.Comment == "rangeindex" {
				return x
			}
		}
		return nil
	}
	for b := range li.body {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == a {
				if r := idx(s.Val); r != nil {
					// the index must be advanced in this loop's head
					for _, h := range li.head.Instrs {
						if hs, ok := h.(*ssa.Store); ok && hs.Addr == r {
							return r
						}
					}
				}
			}
		}
	}
	return nil
}

func fieldPath(T types.Type, name string) []int {
	if p, ok := T.Underlying().(*types.Pointer); ok {
		T = p.Elem()
	}
	s, ok := T.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return []int{i}
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			if _, isPtr := s.Field(i).Type().Underlying().(*types.Pointer); isPtr {
				continue
			}
			if p := fieldPath(s.Field(i).Type(), name); p != nil {
				return append([]int{i}, p...)
			}
		}
	}
	return nil
}

func (e *Exec) sel(v Val, name string, env *Env) Val {
	switch x := v.(type) {
	case *PtrV:
		if x.Obj == 0 {
			badNil("field %s of nil", name)
		}
		return e.sel(e.load(x, env.st), name, env)
	case *StructV:
		p := fieldPath(x.T, name)
		if p == nil {
			bad("no field %s in %s", name, x.T)
		}
		var r Val = x
		for _, i := range p {
			r = r.(*StructV).F[i]
		}
		return r
	case *IfaceV:
		if x.Dyn != nil {
			return e.sel(x.V, name, env)
		}
	}
	bad("field %s of %T", name, v)
	return nil
}

func (e *Exec) evalVal(x *Expr, env *Env) Val {
	switch x.K {
	case "num":
		b, ok := new(big.Int).SetString(x.Name, 0)
		if !ok {
			bad("number %s", x.Name)
		}
		return BigC(b)
	case "str":
		return e.strConst(x.Name)
	case "name":
		v, ok := e.lookup(env, x.Name)
		if !ok {
			bad("unknown name %s", x.Name)
		}
		return v
	case "sel":
		if n := x.Args[0]; n.K == "name" {
			if _, ok := e.lookup(env, n.Name); !ok {
				if p := e.w.pkgByName(n.Name); p != nil {
					if v, ok := e.pkgObj(p, x.Name, env); ok {
						return v
					}
				}
				if n.Name == "io" {
					return errSym("io." + x.Name)
				}
			}
		}
		return e.sel(e.evalVal(x.Args[0], env), x.Name, env)
	case "idx":
		b := e.evalVal(x.Args[0], env)
		i := e.coerceIdx(e.evalTerm(x.Args[1], env))
		switch a := b.(type) {
		case *Term:
			if a.S.Idx == SInt || a.S.Idx == i.S {
				return Select(a, i)
			}
			bad("index into %s", a.S.Name)
		case *SliceV:
			return e.sliceElem(a, i, env)
		case *ArrV:
			return e.toElem(mapLeaves(a.C, func(t *Term) *Term { return Select(t, i) }), a.Elem, env.st)
		case *PtrV:
			if v, ok := e.load(a, env.st).(*ArrV); ok {
				return e.toElem(mapLeaves(v.C, func(t *Term) *Term { return Select(t, i) }), v.Elem, env.st)
			}
		case *StrV:
			return Select(a.C, tAdd(a.Off, i))
		}
		bad("index into %T", b)
	case "un":
		switch x.Name {
		case "!":
			return Not(e.evalBool(x.Args[0], env))
		case "-":
			t := e.evalTerm(x.Args[0], env)
			if isBV(t) {
				return tSub(BVCi(0, t.S.Bits), t)
			}
			return Neg(t)
		case "~":
			t := e.evalTerm(x.Args[0], env)
			return mk("bvnot", t.S, t)
		case "*":
			p, ok := e.evalVal(x.Args[0], env).(*PtrV)
			if !ok || p.Obj == 0 {
				bad("dereference of non-pointer")
			}
			return e.load(p, env.st)
		}
	case "bin":
		return e.evalBin(x, env)
	case "if":
		c := e.evalBool(x.Args[0], env)
		a, b := e.evalVal(x.Args[1], env), e.evalVal(x.Args[2], env)
		if c == True {
			return a
		}
		if c == False {
			return b
		}
		ta, ok1 := a.(*Term)
		tb, ok2 := b.(*Term)
		if !ok1 || !ok2 {
			bad("if on non-scalars")
		}
		ta, tb = e.unify(ta, tb)
		return Ite(c, ta, tb)
	case "let":
		v := e.evalVal(x.Args[0], env)
		n := *env
		n.vars = map[string]Val{}
		for k, w := range env.vars {
			n.vars[k] = w
		}
		n.vars[x.Name] = v
		return e.evalVal(x.Args[1], &n)
	case "quant":
		n := *env
		n.vars = map[string]Val{}
		for k, w := range env.vars {
			n.vars[k] = w
		}
		var vs []*Term
		for _, bv := range x.Vars {
			s := SInt
			if bv.Type == "int" {
				s = e.idxSort()
			} else {
				s = specSort(bv.Type)
			}
			n.q++
			t := BVar(fmt.Sprintf("%s'%d", bv.Name, n.q), s)
			vs = append(vs, t)
			n.vars[bv.Name] = t
		}
		body := e.evalBool(x.Args[0], &n)
		if x.Name == "exists" {
			return Exists(vs, body)
		}
		var pats [][]*Term
		for _, g := range x.Trigs {
			var p []*Term
			for _, t := range g {
				v := e.evalVal(t, &n)
				switch z := v.(type) {
				case *Term:
					p = append(p, z)
				default:
					var ls []*Term
					leaves(z, &ls)
					p = append(p, ls[0])
				}
			}
			good := len(p) > 0
			for _, t := range p {
				if t.Op != "app" && t.Op != "select" {
					good = false
				}
			}
			if good {
				pats = append(pats, p)
			}
		}
		return Forall(vs, body, pats...)
	case "old":
		n := *env
		if env.old == nil {
			bad("no old state")
		}
		n.st = env.old
		n.inOld = true
		if env.fr != nil {
			// entry values of parameters
			n.fr = nil
			n.vars = map[string]Val{}
			for k, v := range env.vars {
				n.vars[k] = v
			}
		}
		return e.evalVal(x.Args[0], &n)
	case "call":
		return e.evalCall(x, env)
	}
	bad("expression %s", x.K)
	return nil
}

func (e *Exec) coerceIdx(t *Term) *Term {
	if e.bv() && t.S == SInt && t.isC() {
		return BVC(t.Val, 64)
	}
	return t
}

func (e *Exec) sliceElem(a *SliceV, i *Term, env *Env) Val {
	if a.Obj == 0 {
		badNil("element of nil slice")
	}
	if a.View != nil {
		return Select(e.viewBytes(a, env.st), i)
	}
	arr, ok := env.st.mem[a.Obj].(*ArrV)
	if !ok {
		bad("backing store not available")
	}
	k := tAdd(a.Off, i)
	return e.toElem(mapLeaves(arr.C, func(t *Term) *Term { return Select(t, k) }), arr.Elem, env.st)
}

func (e *Exec) unify(a, b *Term) (*Term, *Term) {
	if a.S == b.S {
		return a, b
	}
	if isBV(a) && b.S == SInt && b.isC() {
		return a, BVC(b.Val, a.S.Bits)
	}
	if isBV(b) && a.S == SInt && a.isC() {
		return BVC(a.Val, b.S.Bits), b
	}
	bad("sorts %s and %s: %s / %s", a.S.Name, b.S.Name, a, b)
	return nil, nil
}

func (e *Exec) specEq(a, b Val, env *Env) *Term {
	if a == nilMark {
		a, b = b, a
	}
	if b == nilMark {
		switch x := a.(type) {
		case *Term:
			if x.S == SErr {
				return Eq(x, errNil)
			}
			if x.S == SAny {
				return Eq(x, Sym("any.nil", SAny))
			}
		case *PtrV:
			return x.Nil
		case *SliceV:
			return x.Nil
		case *IfaceV:
			return e.ifaceNil(x)
		case *FuncV:
			return x.Nil
		}
		bad("%T compared with nil", a)
	}
	if t, ok := b.(*Term); ok && t.S == SAny {
		if iv, ok := a.(*IfaceV); ok {
			return Eq(e.anyTerm(iv, env.st), t)
		}
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			bad("== of %T and %T", a, b)
		}
		x, y = e.unify(x, y)
		return Eq(x, y)
	case *StructV:
		y, ok := b.(*StructV)
		if !ok {
			bad("== of %T and %T", a, b)
		}
		var cs []*Term
		for i := range x.F {
			cs = append(cs, e.specEq(x.F[i], y.F[i], env))
		}
		return And(cs...)
	case *SliceV:
		y, ok := b.(*SliceV)
		if !ok {
			bad("== of %T and %T", a, b)
		}
		if x.Obj != y.Obj {
			return And(x.Nil, y.Nil)
		}
		return And(Eq(x.Off, y.Off), Eq(x.Len, y.Len), Eq(x.Cap, y.Cap), Eq(x.Nil, y.Nil))
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok {
			bad("== of %T and %T", a, b)
		}
		return e.goEq(x, y, types.NewPointer(x.Elem), env.st)
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok {
			bad("== of %T and %T", a, b)
		}
		if x.Ext != 0 && x.Ext == y.Ext {
			return Eq(e.ifaceNil(x), e.ifaceNil(y))
		}
		if x.Dyn != nil && y.Dyn != nil && types.Identical(x.Dyn, y.Dyn) {
			return e.specEq(x.V, y.V, env)
		}
		return Eq(e.anyTerm(x, env.st), e.anyTerm(y, env.st))
	case *StrV:
		y, ok := b.(*StrV)
		if !ok {
			bad("== of %T and %T", a, b)
		}
		return e.goEq(x, y, types.Typ[types.String], env.st)
	case *FuncV:
		y, ok := b.(*FuncV)
		if ok && x.Fn != nil && y.Fn != nil {
			return BoolC(x.Fn == y.Fn)
		}
		if ok && x.Ext != "" && x.Ext == y.Ext {
			return True
		}
		return And(x.Nil, y.Nil)
	case *ArrV:
		y, ok := b.(*ArrV)
		if ok {
			return eqLeaves(x.C, y.C)
		}
	}
	bad("== of %T and %T", a, b)
	return nil
}

func (e *Exec) evalBin(x *Expr, env *Env) Val {
	switch x.Name {
	case "&&":
		a := e.evalBool(x.Args[0], env)
		if a == False {
			return False
		}
		return And(a, e.evalBool(x.Args[1], env))
	case "||":
		a := e.evalBool(x.Args[0], env)
		if a == True {
			return True
		}
		return Or(a, e.evalBool(x.Args[1], env))
	case "==>":
		a := e.evalBool(x.Args[0], env)
		if a == False {
			return True
		}
		return Imp(a, e.consequent(x.Args[1], env))
	case "<==>":
		return Eq(e.evalBool(x.Args[0], env), e.evalBool(x.Args[1], env))
	case "==":
		return e.specEq(e.evalVal(x.Args[0], env), e.evalVal(x.Args[1], env), env)
	case "!=":
		return Not(e.specEq(e.evalVal(x.Args[0], env), e.evalVal(x.Args[1], env), env))
	}
	a, b := e.evalTerm(x.Args[0], env), e.evalTerm(x.Args[1], env)
	a, b = e.unify(a, b)
	if a.S == SF64 || a.S == SF32 {
		bad("arithmetic on floats in a specification: use flt/fle")
	}
	bv := isBV(a)
	switch x.Name {
	case "+":
		return tAdd(a, b)
	case "-":
		return tSub(a, b)
	case "*":
		return tMul(a, b)
	case "/":
		if bv {
			return mk("bvudiv", a.S, a, b)
		}
		if b.isC() && b.Val.Sign() > 0 {
			return DivC(a, b.Val)
		}
		return e.udiv(a, b)
	case "%":
		if bv {
			return mk("bvurem", a.S, a, b)
		}
		if b.isC() && b.Val.Sign() > 0 {
			return ModC(a, b.Val)
		}
		return Sub(a, Mul(b, e.udiv(a, b)))
	case "<=":
		return tLe(a, b)
	case "<":
		return tLt(a, b)
	case ">=":
		return tLe(b, a)
	case ">":
		return tLt(b, a)
	case "&":
		if bv {
			return bvop("bvand", a, b)
		}
	case "|":
		if bv {
			return bvop("bvor", a, b)
		}
	case "^":
		if bv {
			return bvop("bvxor", a, b)
		}
	case "<<":
		if bv {
			return bvop("bvshl", a, b)
		}
		if b.isC() {
			return Mul(a, BigC(new(big.Int).Lsh(big.NewInt(1), uint(b.Val.Int64()))))
		}
	case ">>":
		if bv {
			return bvop("bvlshr", a, b)
		}
		if b.isC() {
			return DivC(a, new(big.Int).Lsh(big.NewInt(1), uint(b.Val.Int64())))
		}
	}
	bad("operator %s", x.Name)
	return nil
}

// leBytes is the little-endian value of n bytes of arr at off.
func leBytes(arr, off *Term, n int) *Term {
	r := IntC(0)
	for k := 0; k < n; k++ {
		r = Add(r, Mul(BigC(new(big.Int).Lsh(big.NewInt(1), uint(8*k))), Select(arr, Add(off, IntC(int64(k))))))
	}
	return r
}

func (e *Exec) strOf(x *Expr) string {
	if x.K == "str" || x.K == "name" {
		return x.Name
	}
	bad("string expected")
	return ""
}

func (e *Exec) evalCall(x *Expr, env *Env) Val {
	if m := e.w.Spec.Macros[x.Name]; m != nil {
		if len(m.Params) != len(x.Args) {
			bad("def %s: %d arguments", x.Name, len(x.Args))
		}
		n := &Env{e: e, vars: map[string]Val{}, st: env.st, old: env.old, iter: env.iter, pkg: env.pkg, q: env.q}
		for i, a := range x.Args {
			n.vars[m.Params[i]] = e.evalVal(a, env)
		}
		return e.evalVal(m.Body, n)
	}
	if l := e.w.Spec.Lemmas[x.Name]; l != nil {
		if len(l.Vars) != len(x.Args) {
			bad("lemma %s: %d arguments", x.Name, len(x.Args))
		}
		n := &Env{e: e, vars: map[string]Val{}, st: env.st, old: env.old, pkg: env.pkg, q: env.q}
		for i, a := range x.Args {
			n.vars[l.Vars[i].Name] = e.evalVal(a, env)
		}
		if l.Name == e.indLemma {
			// the lemma within its own proof: strong induction
			k, ok := n.vars[l.By].(*Term)
			if !ok {
				bad("lemma %s: induction variable", l.Name)
			}
			return Imp(And(Le(e.indLow, k), Lt(k, e.indHigh)), e.evalBool(l.Body, n))
		}
		e.usedLemma(l.Name)
		return e.evalBool(l.Body, n)
	}
	arg := func(i int) Val { return e.evalVal(x.Args[i], env) }
	term := func(i int) *Term { return e.evalTerm(x.Args[i], env) }
	need := func(n int) {
		if len(x.Args) != n {
			bad("%s: want %d arguments", x.Name, n)
		}
	}
	stream := func(i int) int {
		v := arg(i)
		if p, ok := v.(*PtrV); ok {
			return p.Obj
		}
		iv, ok := v.(*IfaceV)
		if !ok {
			bad("%s of %T", x.Name, v)
		}
		id := e.streamID(iv)
		if id == 0 {
			bad("%s of something that is not a stream", x.Name)
		}
		return id
	}
	gh := func(n string) *Term { return e.ghost(env.st, n) }
	switch x.Name {
	case "len":
		need(1)
		switch a := arg(0).(type) {
		case *SliceV:
			return a.Len
		case *StrV:
			if a.Len != nil {
				return a.Len
			}
		case *ArrV:
			return a.N
		}
		bad("len")
	case "cap":
		return arg(0).(*SliceV).Cap
	case "off":
		return arg(0).(*SliceV).Off
	case "isnil":
		return e.specEq(arg(0), nilMark, env)
	case "pos":
		return gh(fmt.Sprintf("pos@%d", stream(0)))
	case "content":
		return e.content(stream(0))
	case "endpos":
		return e.endpos(stream(0))
	case "out":
		return gh(fmt.Sprintf("out@%d", stream(0)))
	case "outlen":
		return gh(fmt.Sprintf("outlen@%d", stream(0)))
	case "healthy":
		return e.healthy(stream(0))
	case "closed":
		n := fmt.Sprintf("closed@%d", stream(0))
		return gh(n)
	case "has":
		iv := arg(0).(*IfaceV)
		m := e.strOf(x.Args[1])
		if iv.Ext != 0 {
			return e.hasMethod(iv.Ext, m)
		}
		if iv.Dyn != nil {
			return BoolC(types.NewMethodSet(iv.Dyn).Lookup(nil, m) != nil)
		}
		bad("has")
	case "ext":
		iv, ok := arg(0).(*IfaceV)
		if !ok {
			bad("ext of non-interface")
		}
		return e.anyTerm(iv, env.st)
	case "bytes":
		switch a := arg(0).(type) {
		case *SliceV:
			return e.bytesOf(a, env.st)
		case *StrV:
			return e.shift(a.C, a.Off)
		case *Term:
			return a
		}
		bad("bytes")
	case "elems": // raw array of a slice of scalars
		a := arg(0).(*SliceV)
		if a.Obj == 0 {
			badNil("elems of nil")
		}
		t, ok := env.st.mem[a.Obj].(*ArrV).C.(*Term)
		if !ok {
			bad("elems of structs")
		}
		return e.shift(t, a.Off)
	case "col": // raw array of one field of a slice of structs
		a := arg(0).(*SliceV)
		if a.Obj == 0 {
			badNil("col of nil")
		}
		arr := env.st.mem[a.Obj].(*ArrV)
		c, T := arr.C, arr.Elem
		for _, ax := range x.Args[1:] {
			p := fieldPath(T, e.strOf(ax))
			if p == nil {
				bad("no field %s", e.strOf(ax))
			}
			for _, i := range p {
				c = c.(*StructV).F[i]
				T = T.Underlying().(*types.Struct).Field(i).Type()
			}
		}
		return e.shift(c.(*Term), a.Off)
	case "le8", "le16", "le32", "le64":
		n := map[string]int{"le8": 1, "le16": 2, "le32": 4, "le64": 8}[x.Name]
		return leBytes(term(0), term(1), n)
	case "sle8", "sle16", "sle32", "sle64":
		n := map[string]int{"sle8": 1, "sle16": 2, "sle32": 4, "sle64": 8}[x.Name]
		return wrapInt(leBytes(term(0), term(1), n), intInfo{8 * n, true})
	case "wraps8", "wraps16", "wraps32", "wraps64":
		n := map[string]int{"wraps8": 8, "wraps16": 16, "wraps32": 32, "wraps64": 64}[x.Name]
		return wrapInt(term(0), intInfo{n, true})
	case "wrapu8", "wrapu16", "wrapu32", "wrapu64":
		n := map[string]int{"wrapu8": 8, "wrapu16": 16, "wrapu32": 32, "wrapu64": 64}[x.Name]
		return wrapInt(term(0), intInfo{n, false})
	case "f64le", "f64be", "i64le", "i64be":
		return App(x.Name, term(0), term(1))
	case "f64host", "i64host":
		s := "le"
		if e.w.BigEndian {
			s = "be"
		}
		return App(x.Name[:3]+s, term(0), term(1))
	case "bigendian":
		return BoolC(e.w.BigEndian)
	case "shift":
		return e.shift(term(0), term(1))
	case "nan":
		return App("nan", term(0))
	case "rank":
		return App("rank", term(0))
	case "flt":
		return e.floatBinop(token.LSS, term(0), term(1))
	case "fle":
		return e.floatBinop(token.LEQ, term(0), term(1))
	case "feq":
		return e.floatBinop(token.EQL, term(0), term(1))
	case "fadd":
		return e.floatBinop(token.ADD, term(0), term(1))
	case "fsub":
		return e.floatBinop(token.SUB, term(0), term(1))
	case "fmul":
		return e.floatBinop(token.MUL, term(0), term(1))
	case "fdiv":
		return e.floatBinop(token.QUO, term(0), term(1))
	case "udiv":
		return e.udiv(term(0), term(1))
	case "cdiv":
		a, b := term(0), term(1)
		return e.udiv(Add(a, Sub(b, IntC(1))), b)
	case "divfact": // the meaning of udiv
		return e.udivFact(term(0), term(1))
	case "min":
		a, b := term(0), term(1)
		return Ite(tLe(a, b), a, b)
	case "max":
		a, b := term(0), term(1)
		return Ite(tLe(a, b), b, a)
	case "store":
		return Store(term(0), term(1), term(2))
	case "constarr":
		t := term(0)
		return ConstArr(SArr(t.S), t)
	case "iseof":
		return App("iseof", term(0))
	case "erank":
		return App("erank", term(0))
	case "isfunc":
		f, ok := arg(0).(*FuncV)
		if !ok {
			bad("isfunc")
		}
		n := e.strOf(x.Args[1])
		if f.Fn != nil {
			return BoolC(e.w.fnKey(f.Fn) == n || e.w.fnKey(f.Fn) == env.pkg+"."+n)
		}
		if f.Nil == True {
			return BoolC(n == "nil")
		}
		if n == "nil" {
			return f.Nil
		}
		return And(Sym("isfunc:"+f.Ext+":"+n, SBool), Not(f.Nil))
	case "sameobj":
		a, b := arg(0), arg(1)
		id := func(v Val) int {
			switch y := v.(type) {
			case *SliceV:
				return y.Obj
			case *PtrV:
				return y.Obj
			}
			bad("sameobj of %T", v)
			return 0
		}
		return BoolC(id(a) == id(b))
	case "box":
		T := e.strOf(x.Args[0])
		v := arg(1)
		tt := e.w.typeByName(T)
		return e.anyTerm(&IfaceV{T: types.NewInterfaceType(nil, nil), Dyn: tt, V: v, Nil: False}, env.st)
	case "boxlen", "boxbytes", "boxtype":
		e.declBox(boxName("[]byte"), e.arrOf(e.byteSort()), e.idxSort())
		e.declBox("box:string", SStr)
		var a *Term
		switch v := arg(0).(type) {
		case *IfaceV:
			a = e.anyTerm(v, env.st)
		case *Term:
			a = v
		default:
			bad(x.Name)
		}
		if x.Name == "boxtype" {
			return Eq(App("boxtype", a), IntC(boxNo(boxName(e.strOf(x.Args[1])))))
		}
		return App(x.Name+"."+e.mode, a)
	case "any":
		switch v := arg(0).(type) {
		case *IfaceV:
			return e.anyTerm(v, env.st)
		case *Term:
			return v
		}
		bad("any")
	case "dyn":
		v := arg(0)
		if iv, ok := v.(*IfaceV); ok {
			if iv.Dyn == nil {
				bad("dyn of opaque interface")
			}
			return iv.V
		}
		return v
	case "dyntype":
		iv, ok := arg(0).(*IfaceV)
		if !ok || iv.Dyn == nil {
			bad("dyntype")
		}
		return BoolC(types.TypeString(iv.Dyn, func(p *types.Package) string { return p.Name() }) == e.strOf(x.Args[1]))
	case "bv":
		t := term(0)
		n := e.evalTerm(x.Args[1], env)
		w := int(n.Val.Int64())
		if t.S == SInt {
			if !t.isC() {
				bad("bv of non-constant")
			}
			return BVC(t.Val, w)
		}
		return bvExt(t, intInfo{t.S.Bits, false}, w)
	case "last": // a ghost result of the latest call
		t := env.st.ghost["last."+e.strOf(x.Args[0])]
		if t == nil {
			bad("no ghost result %s", e.strOf(x.Args[0]))
		}
		return t
	case "fnval": // the value of a scalar function
		var vs []Val
		for i := 1; i < len(x.Args); i++ {
			vs = append(vs, term(i))
		}
		return e.fnval(e.strOf(x.Args[0]), SInt, vs)
	case "flit":
		t := e.evalTerm(x.Args[0], env)
		if !t.isC() {
			bad("flit")
		}
		f, _ := new(big.Float).SetInt(t.Val).Float64()
		return f64Const(f)
	case "ffloor":
		declFun("f64floor", SF64, SF64)
		return App("f64floor", term(0))
	case "f2u32":
		declFun("F64toi32false.int", SInt, SF64)
		return App("F64toi32false.int", term(0))
	case "bits": // bits(v, hi, lo)
		t, hi, lo := term(0), e.evalTerm(x.Args[1], env), e.evalTerm(x.Args[2], env)
		if !isBV(t) || !hi.isC() || !lo.isC() {
			bad("bits")
		}
		return bvBits(t, int(hi.Val.Int64()), int(lo.Val.Int64()))
	case "eqbits": // equality of two bit vectors, bit by bit
		a, b := e.unify(term(0), term(1))
		var cs []*Term
		for i := 0; i < a.S.Bits; i++ {
			cs = append(cs, Eq(bvBits(a, i, i), bvBits(b, i, i)))
		}
		return And(cs...)
	case "concat":
		r := term(0)
		for i := 1; i < len(x.Args); i++ {
			r = bvConcat(r, term(i))
		}
		return r
	case "iter":
		if env.iter == nil {
			bad("no iteration state")
		}
		n := *env
		n.st = env.iter
		return e.evalVal(x.Args[0], &n)
	case "ult":
		a, b := e.unify(term(0), term(1))
		return bvcmp("bvult", a, b)
	case "ule":
		a, b := e.unify(term(0), term(1))
		return bvcmp("bvule", a, b)
	case "call": // pure call of a Go function by name, inlined; must have one outcome
		return e.pureCall(x, env)
	case "copied":
		// bytes p of a are at offset off of arr
		p, arr, off, n := term(0), term(1), term(2), term(3)
		if n.isC() && n.Val.Int64() <= 64 {
			var cs []*Term
			for k := int64(0); k < n.Val.Int64(); k++ {
				cs = append(cs, Eq(Select(arr, Add(off, IntC(k))), Select(p, IntC(k))))
			}
			return And(cs...)
		}
		k := BVar(fmt.Sprintf("cp'%d", env.q+1), SInt)
		return Forall([]*Term{k}, Imp(And(Le(IntC(0), k), Lt(k, n)), Eq(Select(arr, Add(off, k)), Select(p, k))), []*Term{Select(p, k)}, []*Term{Select(arr, Add(off, k))})
	}
	if f := funcDecls[x.Name]; f != nil {
		var as []*Term
		for i := range x.Args {
			v := arg(i)
			switch t := v.(type) {
			case *Term:
				if i < len(f.Args) && isBVSort(f.Args[i]) && t.S == SInt && t.isC() {
					t = BVC(t.Val, f.Args[i].Bits)
				}
				as = append(as, t)
			case *IfaceV:
				as = append(as, e.anyTerm(t, env.st))
			case *StrV:
				as = append(as, e.strTerm(t))
			default:
				bad("argument %d of %s is %T", i, x.Name, v)
			}
		}
		if len(as) != len(f.Args) {
			bad("%s: %d arguments", x.Name, len(as))
		}
		for i := range as {
			if as[i].S != f.Args[i] {
				bad("%s: argument %d has sort %s, want %s", x.Name, i, as[i].S.Name, f.Args[i].Name)
			}
		}
		return App(x.Name, as...)
	}
	bad("unknown function %s", x.Name)
	return nil
}

func isBVSort(s *Sort) bool { return s.Bits > 0 }

// pureCall evaluates call("Type.Method", args...) by running the real body
// on a scratch state; it must be loop free and end in exactly one outcome.
func (e *Exec) pureCall(x *Expr, env *Env) Val {
	name := e.strOf(x.Args[0])
	fn := e.w.function(env.pkg + "." + name)
	if fn == nil {
		fn = e.w.function(name)
	}
	if fn == nil {
		bad("no function %s", name)
	}
	var args []Val
	for _, a := range x.Args[1:] {
		args = append(args, e.evalVal(a, env))
	}
	var outs []Outcome
	s2 := env.st.clone()
	e.dry++
	func() {
		defer func() { e.dry-- }()
		e.callFn(nil, s2, FuncV{Fn: fn, Nil: False, Sig: fn.Signature}, args, &outs)
	}()
	if len(outs) != 1 || outs[0].panic || len(outs[0].vals) != 1 {
		bad("call(%s) has %d outcomes", name, len(outs))
	}
	return outs[0].vals[0]
}

// evalLoc evaluates a modifies item.
func (e *Exec) evalLoc(x *Expr, env *Env) []loc {
	switch x.K {
	case "call":
		id := func() int {
			v := e.evalVal(x.Args[0], env)
			if p, ok := v.(*PtrV); ok {
				return p.Obj
			}
			if iv, ok := v.(*IfaceV); ok {
				return e.streamID(iv)
			}
			bad("%s of %T", x.Name, v)
			return 0
		}
		switch x.Name {
		case "pos":
			if i := id(); i != 0 {
				return []loc{{ghost: fmt.Sprintf("pos@%d", i)}}
			}
			return nil
		case "sink":
			if i := id(); i != 0 {
				return []loc{{ghost: fmt.Sprintf("out@%d", i)}, {ghost: fmt.Sprintf("outlen@%d", i)}}
			}
			return nil
		case "closed":
			if i := id(); i != 0 {
				return []loc{{ghost: fmt.Sprintf("closed@%d", i)}}
			}
			return nil
		}
	case "un":
		if x.Name == "*" {
			v := e.evalVal(x.Args[0], env)
			if iv, ok := v.(*IfaceV); ok && iv.Dyn != nil {
				v = iv.V
			}
			p, ok := v.(*PtrV)
			if !ok {
				bad("modifies *%T", v)
			}
			if p.Obj == 0 {
				return nil
			}
			return []loc{{obj: p.Obj, path: p.Path, T: p.Elem}}
		}
	case "idxall":
		v := e.evalVal(x.Args[0], env)
		s, ok := v.(*SliceV)
		if !ok {
			bad("modifies [*] of %T", v)
		}
		if s.Obj == 0 {
			return nil
		}
		if s.View != nil {
			return []loc{{obj: s.Obj, view: s}}
		}
		return []loc{{obj: s.Obj}}
	case "sel", "idx":
		p := e.lval(x, env)
		if p.Obj == 0 {
			return nil
		}
		return []loc{{obj: p.Obj, path: p.Path, T: p.Elem}}
	case "name":
		if env.st.ghost[x.Name] != nil {
			return []loc{{ghost: x.Name}}
		}
		if p := e.w.pkgByName(env.pkg); p != nil {
			if g, ok := p.Members[x.Name].(*ssa.Global); ok {
				gp := e.globalPtr(g, env.st)
				return []loc{{obj: gp.Obj, T: gp.Elem}}
			}
		}
	}
	bad("modifies %s", exprString(x))
	return nil
}

func (e *Exec) lval(x *Expr, env *Env) *PtrV {
	switch x.K {
	case "sel":
		var base *PtrV
		v := e.evalVal(x.Args[0], env)
		if iv, ok := v.(*IfaceV); ok && iv.Dyn != nil {
			v = iv.V
		}
		if p, ok := v.(*PtrV); ok {
			base = p
		} else {
			base = e.lval(x.Args[0], env)
		}
		if base.Obj == 0 {
			return base
		}
		fp := fieldPath(base.Elem, x.Name)
		if fp == nil {
			bad("no field %s in %s", x.Name, base.Elem)
		}
		n := &PtrV{Obj: base.Obj, Path: append([]Step{}, base.Path...), Nil: False, Elem: base.Elem}
		for _, i := range fp {
			n.Path = append(n.Path, Step{Field: i})
			n.Elem = n.Elem.Underlying().(*types.Struct).Field(i).Type()
		}
		return n
	case "idx":
		i := e.coerceIdx(e.evalTerm(x.Args[1], env))
		if s, ok := e.evalVal(x.Args[0], env).(*SliceV); ok {
			return &PtrV{Obj: s.Obj, Path: []Step{{Idx: tAdd(s.Off, i)}}, Nil: False, Elem: s.Elem}
		}
	case "un":
		if x.Name == "*" {
			if p, ok := e.evalVal(x.Args[0], env).(*PtrV); ok {
				return p
			}
		}
	}
	bad("not a location: %s", exprString(x))
	return nil
}

func bvConcat(a, b *Term) *Term {
	if !isBV(a) || !isBV(b) {
		bad("concat of something that is not a bit vector")
	}
	if a.isC() && b.isC() {
		v := new(big.Int).Lsh(a.Val, uint(b.S.Bits))
		return BVC(v.Or(v, b.Val), a.S.Bits+b.S.Bits)
	}
	return mk("concat", SBV(a.S.Bits+b.S.Bits), a, b)
}

// bvBits is bits hi..lo of t.
func bvBits(t *Term, hi, lo int) *Term {
	if hi-lo+1 == t.S.Bits {
		return t
	}
	if t.isC() {
		return BVC(new(big.Int).Rsh(t.Val, uint(lo)), hi-lo+1)
	}
	switch t.Op {
	case "bvand", "bvor", "bvxor":
		return bvop(t.Op, bvBits(t.Args[0], hi, lo), bvBits(t.Args[1], hi, lo))
	case "bvnot":
		return mk("bvnot", SBV(hi-lo+1), bvBits(t.Args[0], hi, lo))
	case "ite":
		return Ite(t.Args[0], bvBits(t.Args[1], hi, lo), bvBits(t.Args[2], hi, lo))
	case "bvlshr", "bvshl":
		if t.Args[1].isC() && hi == lo {
			k := int(t.Args[1].Val.Int64())
			if t.Op == "bvshl" {
				k = -k
			}
			if lo+k < 0 || lo+k >= t.S.Bits {
				return BVCi(0, 1)
			}
			return bvBits(t.Args[0], lo+k, lo+k)
		}
	}
	if t.Op == "concat" {
		n := t.Args[1].S.Bits
		if hi < n {
			return bvBits(t.Args[1], hi, lo)
		}
		if lo >= n {
			return bvBits(t.Args[0], hi-n, lo-n)
		}
	}
	return mk(fmt.Sprintf("(_ extract %d %d)", hi, lo), SBV(hi-lo+1), t)
}
