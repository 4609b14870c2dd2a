package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callTarget evaluates the callee and arguments of a call.
func (e *Exec) callTarget(fr *Frame, st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	if c.IsInvoke() {
		recv := e.get(fr, st, c.Value)
		for _, a := range c.Args {
			args = append(args, e.get(fr, st, a))
		}
		return recv, args
	}
	for _, a := range c.Args {
		args = append(args, e.get(fr, st, a))
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil, args
	}
	return e.get(fr, st, c.Value), args
}

func (e *Exec) call(fr *Frame, st *State, x *ssa.Call, outs *[]Outcome) {
	c := &x.Call
	recv, args := e.callTarget(fr, st, c)
	if b, ok := c.Value.(*ssa.Builtin); ok {
		e.builtin(fr, st, x, b.Name(), args, outs)
		return
	}
	if c.IsInvoke() {
		e.invoke(fr, st, recv, c.Method, args, outs)
		return
	}
	f, ok := recv.(*FuncV)
	if !ok {
		unsup("call of %T", recv)
	}
	var po []Outcome
	e.require(fr, st, Not(f.Nil), "nil", "call of nil function", &po)
	*outs = append(*outs, po...)
	e.callFn(fr, st, *f, args, outs)
}

// invoke calls an interface method.
func (e *Exec) invoke(fr *Frame, st *State, recv Val, m *types.Func, args []Val, outs *[]Outcome) {
	iv, ok := recv.(*IfaceV)
	if !ok {
		if t, isT := recv.(*Term); isT && t.S == SErr && m.Name() == "Error" {
			e.require(fr, st, Not(Eq(t, errNil)), "nil", "Error() on nil error", outs)
			*outs = append(*outs, Outcome{st: st, vals: []Val{e.symVal(types.Typ[types.String], "errtext", st)}})
			return
		}
		unsup("method call on %T", recv)
	}
	e.require(fr, st, Not(e.ifaceNil(iv)), "nil", "method "+m.Name()+" of nil interface", outs)
	if st.dead {
		return
	}
	if iv.Dyn != nil {
		if id := e.streamID(iv); id != 0 && e.streamCall(fr, st, id, m.Name(), args, outs) {
			return
		}
		fn := e.w.Prog.LookupMethod(iv.Dyn, m.Pkg(), m.Name())
		if fn == nil {
			unsup("no method %s on %s", m.Name(), iv.Dyn)
		}
		e.callFn(fr, st, FuncV{Fn: fn, Nil: False, Sig: fn.Signature}, append([]Val{iv.V}, args...), outs)
		return
	}
	if iv.Ext != 0 {
		if e.streamCall(fr, st, iv.Ext, m.Name(), args, outs) {
			return
		}
		// an interface declared in the repository: an assumed contract
		if n, ok := iv.T.(*types.Named); ok {
			key := n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + m.Name()
			if c := e.w.contract(key); c != nil {
				e.applyContract(fr, st, c, m.Type().(*types.Signature), append([]Val{iv}, args...), outs)
				return
			}
		}
	}
	unsup("call of method %s on unknown value of type %s", m.Name(), iv.T)
}

// knownFunc finds the function that a value of function type is assumed to be (isfunc).
func (e *Exec) knownFunc(fr *Frame, st *State, f FuncV) *ssa.Function {
	if f.Ext == "" {
		return nil
	}
	pre := "isfunc:" + f.Ext + ":"
	name := ""
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.Op == "and" {
			for _, a := range t.Args {
				walk(a)
			}
			return
		}
		if n := t.Name; t.Op == "sym" && strings.HasPrefix(n, pre) {
			name = n[len(pre):]
		}
	}
	for _, t := range e.base {
		walk(t)
	}
	for _, t := range st.pcList() {
		walk(t)
	}
	if name == "" || name == "nil" {
		return nil
	}
	for _, p := range e.w.pkgs {
		if m, ok := p.Members[name].(*ssa.Function); ok {
			return m
		}
	}
	return nil
}

func (e *Exec) callFn(fr *Frame, st *State, f FuncV, args []Val, outs *[]Outcome) {
	if st.dead {
		return
	}
	fn := f.Fn
	if fn == nil {
		if fn = e.knownFunc(fr, st, f); fn == nil {
			unsup("call of unknown function value %s", f.Ext)
		}
	}
	key := e.w.fnKey(fn)
	if c := e.w.contract(key); c != nil && !c.Inline && !c.InlineCalls {
		e.applyContract(fr, st, c, fn.Signature, args, outs)
		return
	}
	if len(args) > 0 {
		// a contract for one dynamic type of the first argument
		if iv, ok := args[0].(*IfaceV); ok && iv.Dyn != nil {
			T := iv.Dyn
			if p, ok := T.(*types.Pointer); ok {
				T = p.Elem()
			}
			if n, ok := T.(*types.Named); ok {
				if c := e.w.contract(key + "@" + n.Obj().Name()); c != nil {
					e.applyContract(fr, st, c, fn.Signature, args, outs)
					return
				}
			}
		}
	}
	if e.extCall(fr, st, fn, key, args, outs) {
		return
	}
	if fn.Blocks == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if fn.Blocks == nil {
		unsup("no body for %s", key)
	}
	if !e.w.inlinable(fn) {
		unsup("call of external function %s, which has no model", key)
	}
	d := 0
	if fr != nil {
		d = fr.depth + 1
		for p := fr; p != nil; p = p.parent {
			if p.fn == fn {
				unsup("recursive function %s has no contract", key)
			}
		}
	}
	if d > 24 {
		unsup("call depth")
	}
	if e.dry == 0 {
		e.inlined[key] = true
	}
	nf := &Frame{fn: fn, env: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*loopCtx{}, parent: fr, depth: d}
	if len(args) != len(fn.Params) {
		unsup("argument count of %s", key)
	}
	for i, p := range fn.Params {
		nf.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		nf.env[fv] = f.Bind[i]
	}
	e.run(nf, st, fn.Blocks[0], 0, nil, outs)
}

// ---- contracts ----

func (e *Exec) applyContract(fr *Frame, st *State, c *Contract, sig *types.Signature, args []Val, outs *[]Outcome) {
	if e.dry == 0 {
		e.used[contractName(c)] = true
	}
	pos := e.curPos
	if c.Mode != e.root.Mode && (c.Mode == "bv" || e.root.Mode == "bv") {
		e.applyOpaque(st, c, sig, args, outs)
		return
	}
	env := &Env{e: e, vars: map[string]Val{}, st: st, old: st, pkg: c.Pkg}
	if len(c.Params) != len(args) {
		unsup("contract %s names %d parameters, the function has %d", c.Key, len(c.Params), len(args))
	}
	for i, n := range c.Params {
		env.vars[n] = args[i]
	}
	short := c.Key
	for i, a := range args {
		if p, ok := a.(*PtrV); ok && !c.mayBeNil(c.Params[i]) {
			e.require(fr, st, Not(p.Nil), "pre", short+"/nil argument "+c.Params[i], outs)
		}
	}
	if st.dead {
		return
	}
	for i := range c.Req {
		t := e.evalBool(c.Req[i].E, env)
		lab := c.Req[i].Label
		if lab == "" {
			lab = fmt.Sprint(i)
		}
		e.oblige(st, t, "pre", short+"/"+lab, nil)
		st.assume(t)
	}
	for _, cf := range c.Config {
		e.checkConfig(st, cf, env, short)
	}
	if c.Dec != nil && fr != nil && e.root == c && e.oldSt != nil {
		now := e.evalTerm(c.Dec.E, env)
		was := e.evalTerm(c.Dec.E, e.env0.with(e.oldSt, e.oldSt))
		e.oblige(st, And(Le(IntC(0), now), Lt(now, was)), "terminates", "recursion", nil)
	}
	if c.Panics != nil && !c.MayPanic {
		cond := e.evalBool(c.Panics.E, env)
		if c.PanicsMay {
			// may panic under cond
			if fr != nil && fr.recovering() {
				s2 := st.clone()
				s2.assume(cond)
				e.havocMod(s2, c, env)
				*outs = append(*outs, Outcome{st: s2, panic: true})
			} else if !e.root.MayPanic {
				e.require(fr, st, Not(cond), "panic", short+" may panic", outs)
			}
		} else {
			if fr != nil && fr.recovering() {
				s2 := st.clone()
				s2.assume(cond)
				*outs = append(*outs, Outcome{st: s2, panic: true})
				st.assume(Not(cond))
			} else {
				e.require(fr, st, Not(cond), "panic", short+" panics", outs)
			}
		}
	}
	if c.MayPanic {
		if fr != nil && fr.recovering() {
			s2 := st.clone()
			e.havocMod(s2, c, env)
			*outs = append(*outs, Outcome{st: s2, panic: true})
		} else if !e.root.MayPanic {
			e.oblige(st, False, "panic", short+" may panic and nothing recovers", nil)
		}
	}
	if st.dead {
		return
	}
	old := st.clone()
	e.havocMod(st, c, env)
	var vals []Val
	res := sig.Results()
	env2 := &Env{e: e, vars: map[string]Val{}, st: st, old: old, pkg: c.Pkg, parent: nil}
	for k, v := range env.vars {
		env2.vars[k] = v
	}
	for i := 0; i < res.Len(); i++ {
		name := "result"
		if i < len(c.Results) {
			name = c.Results[i]
		}
		var v Val
		if a := c.Alias[name]; strings.HasPrefix(a, "dyn ") {
			T := e.w.lookupType(c.Pkg, strings.TrimPrefix(a, "dyn "))
			v = &IfaceV{T: res.At(i).Type(), Dyn: T, V: e.symVal(T, name, st), Nil: False}
		} else if a != "" {
			ex, err := ParseExpr(a)
			if err != nil {
				unsup("alias: %v", err)
			}
			v = e.evalVal(ex, env2)
		} else {
			v = e.symVal(res.At(i).Type(), c.Key[strings.LastIndex(c.Key, ".")+1:]+"."+name, st)
		}
		env2.vars[name] = v
		if i == 0 && res.Len() == 1 {
			env2.vars["result"] = v
		}
		vals = append(vals, v)
	}
	for _, g := range c.RetGhost {
		s := SInt
		if g.Sort != "" {
			s = specSort(g.Sort)
		}
		for _, d := range c.Ghosts {
			if d.Name == g.Name {
				s = specSort(d.Type)
			}
		}
		env2.vars[g.Name] = Fresh("rg."+g.Name, s)
		if e.dry == 0 || true {
			st.ghost["last."+g.Name] = env2.vars[g.Name].(*Term)
		}
	}
	for _, cf := range c.Config {
		_ = cf
	}
	for i := range c.Ens {
		st.assume(e.evalBool(c.Ens[i].E, env2))
	}
	e.curPos = pos
	*outs = append(*outs, Outcome{st: st, vals: vals})
}

func (c *Contract) mayBeNil(p string) bool {
	for _, cf := range c.Config {
		if cf.Label == "maybenil" && cf.E.K == "name" && cf.E.Name == p {
			return true
		}
	}
	return false
}

func contractName(c *Contract) string {
	if c.Variant != "" {
		return c.Key + "@" + c.Variant
	}
	return c.Key
}

// checkConfig makes sure a "config x = fn" binding holds at a call.
func (e *Exec) checkConfig(st *State, cf Clause, env *Env, short string) {
	if cf.Label == "nonnil" {
		if iv, ok := e.evalVal(cf.E, env).(*IfaceV); ok {
			e.oblige(st, Not(e.ifaceNil(iv)), "pre", short+"/config "+cf.Src, nil)
			return
		}
	}
	if cf.Label == "maybenil" || strings.HasPrefix(cf.Label, "alias ") {
		return
	}
	v := e.evalVal(cf.E, env)
	f, ok := v.(*FuncV)
	good := ok && (cf.Label == "nil" && f.Nil == True || f.Fn != nil && e.w.fnKey(f.Fn) == env.pkg+"."+cf.Label)
	if !good {
		if ok && f.Ext != "" {
			// recorded as a representation invariant
			e.notes["function value "+f.Ext+" is taken to be "+cf.Label+" (set only by noo)"] = true
			return
		}
		e.oblige(st, False, "pre", short+"/config "+cf.Src, nil)
	}
}

func (e *Exec) havocMod(st *State, c *Contract, env *Env) {
	// evaluate all locations in the pre-state first
	pre := env.with(st.clone(), env.old)
	type lv struct{ l loc }
	var ls []loc
	for i := range c.Mod {
		ls = append(ls, e.evalLoc(c.Mod[i].E, pre)...)
	}
	for _, l := range ls {
		if l.ghost != "" {
			e.setGhost(st, l.ghost, Fresh("g."+l.ghost, e.ghostSort(l.ghost)))
			e.ghostFact(st, l.ghost)
			continue
		}
		if l.obj == 0 {
			continue
		}
		if l.view != nil {
			e.noteWrite(st, l.obj, []Step{{Idx: e.n(0)}})
			e.viewFill(st, l.view, nil, nil, nil, false)
			continue
		}
		v, ok := st.mem[l.obj]
		if !ok {
			unsup("modified object of %s is unknown", c.Key)
		}
		if st.frozen[l.obj] {
			e.oblige(st, False, "alias", c.Key+" writes to memory that is already part of another value", nil)
		}
		e.noteWrite(st, l.obj, l.path)
		cur := e.loadPath(v, nil, false, l.path, st)
		e.modHavoc = true
		nv := e.havocTyped(cur, l.T, "mod", st)
		e.modHavoc = false
		st.mem[l.obj] = e.storePath(v, l.path, nv, st)
	}
}

type loc struct {
	obj   int
	path  []Step
	T     types.Type
	ghost string
	view  *SliceV // the elements a byte view shows
}

// ---- builtins ----

func (e *Exec) builtin(fr *Frame, st *State, x *ssa.Call, name string, args []Val, outs *[]Outcome) {
	one := func(v Val) { *outs = append(*outs, Outcome{st: st, vals: []Val{v}}) }
	switch name {
	case "len":
		switch a := args[0].(type) {
		case *SliceV:
			one(a.Len)
		case *StrV:
			if a.Len == nil {
				declFun("strlen", e.idxSort(), SStr)
				t := App("strlen", a.Opaque)
				st.assume(tLe(e.n(0), t))
				one(t)
				return
			}
			one(a.Len)
		case *ArrV:
			one(a.N)
		default:
			unsup("len of %T", a)
		}
	case "cap":
		one(args[0].(*SliceV).Cap)
	case "append":
		e.appendOp(fr, st, x, args, outs)
	case "copy":
		d := args[0].(*SliceV)
		var n, src, off, sl *Term
		var srcV Val
		switch s := args[1].(type) {
		case *SliceV:
			sl = s.Len
			if s.View != nil {
				src, off = e.viewBytes(s, st), e.n(0)
			} else if s.Obj != 0 {
				srcV = st.mem[s.Obj].(*ArrV).C
				off = s.Off
			} else {
				one(e.n(0))
				return
			}
		case *StrV:
			sl, src, off = s.Len, s.C, s.Off
		}
		if src != nil {
			srcV = src
		}
		n = Ite(tLe(d.Len, sl), d.Len, sl)
		if e.inPC(st, tLe(sl, d.Len)) {
			n = sl
		}
		if n.isC() && d.Obj == 0 {
			one(e.n(0))
			return
		}
		e.copyInto(st, d, srcV, off, n)
		one(n)
	case "recover":
		p := st.panicV
		if p == nil {
			one(&IfaceV{T: types.NewInterfaceType(nil, nil), Nil: True})
			return
		}
		st.recov = true
		st.panicV = nil
		one(p)
	case "ssa:wrapnilchk":
		one(args[0])
	case "ssa:deferstack":
		one(nil)
	case "min", "max":
		a, ok1 := args[0].(*Term)
		if !ok1 || a.S != SInt {
			unsup("builtin %s", name)
		}
		r := a
		for _, b := range args[1:] {
			if name == "min" {
				r = Ite(Le(r, b.(*Term)), r, b.(*Term))
			} else {
				r = Ite(Le(b.(*Term), r), r, b.(*Term))
			}
		}
		one(r)
	case "Slice": // unsafe.Slice(ptr, n)
		p := args[0].(*PtrV)
		n := e.toInt64(args[1].(*Term), x.Call.Args[1].Type())
		e.require(fr, st, tLe(e.n(0), n), "unsafe", "unsafe.Slice length", outs)
		if p.Ref == nil && p.Obj == 0 {
			// from unsafe.StringData or nil
			one(e.zero(x.Type(), st))
			return
		}
		e.require(fr, st, Not(p.Nil), "unsafe", "unsafe.Slice of nil pointer", outs)
		a, ok := st.mem[p.Obj].(*ArrV)
		if !ok || len(p.Path) > 1 {
			unsup("unsafe.Slice of %s", p.Elem)
		}
		if p.View != nil {
			// n bytes from element First on must lie inside the object
			avail := tMul(e.n(p.View.Size), tSub(a.N, p.View.First))
			e.oblige(st, tLe(n, avail), "unsafe", "unsafe.Slice stays inside its object", nil)
			st.assume(tLe(n, avail))
			one(&SliceV{Obj: p.Obj, Off: e.n(0), Len: n, Cap: n, Nil: False, Elem: types.Typ[types.Uint8], View: p.View})
			return
		}
		off := e.n(0)
		if len(p.Path) == 1 {
			off = p.Path[0].Idx
		}
		e.oblige(st, tLe(tAdd(off, n), a.N), "unsafe", "unsafe.Slice stays inside its object", nil)
		one(&SliceV{Obj: p.Obj, Off: off, Len: n, Cap: n, Nil: False, Elem: a.Elem})
	case "String": // unsafe.String
		p := args[0].(*PtrV)
		n := e.toInt64(args[1].(*Term), x.Call.Args[1].Type())
		a, ok := st.mem[p.Obj].(*ArrV)
		if !ok || len(p.Path) != 1 || p.View != nil {
			unsup("unsafe.String of %s", p.Elem)
		}
		off := p.Path[0].Idx
		e.oblige(st, And(tLe(e.n(0), n), tLe(tAdd(off, n), a.N)), "unsafe", "unsafe.String stays inside its object", nil)
		e.markFrozen(st, p.Obj)
		one(&StrV{C: a.C.(*Term), Off: off, Len: n})
	case "StringData":
		s := args[0].(*StrV)
		o := e.newObj(types.Typ[types.Uint8], true, "stringdata")
		c := s.C
		if c == nil {
			unsup("StringData of an opaque string")
		}
		st.mem[o.id] = &ArrV{Elem: types.Typ[types.Uint8], C: c, N: tAdd(s.Off, s.Len)}
		st.frozen[o.id] = true
		one(&PtrV{Obj: o.id, Path: []Step{{Idx: s.Off}}, Nil: False, Elem: types.Typ[types.Uint8]})
	case "print", "println":
		*outs = append(*outs, Outcome{st: st})
	default:
		unsup("builtin %s", name)
	}
}

// copyInto sets d[0..n) = src[off..off+n).
func (e *Exec) copyInto(st *State, d *SliceV, src Val, off, n *Term) {
	if d.View != nil {
		unsup("copy into a byte view")
	}
	if d.Obj == 0 {
		return
	}
	a := st.mem[d.Obj].(*ArrV)
	if st.frozen[d.Obj] {
		e.oblige(st, False, "alias", "write to memory that is already part of another value", nil)
	}
	e.noteWrite(st, d.Obj, []Step{{Idx: e.n(0)}})
	st.mem[d.Obj] = &ArrV{Elem: a.Elem, C: e.blit(st, a.C, d.Off, src, off, n), N: a.N}
}

// blit returns dst with dst[doff+k] = src[soff+k] for 0 <= k < n.
func (e *Exec) blit(st *State, dst Val, doff *Term, src Val, soff, n *Term) Val {
	return mapLeaves2(dst, src, func(x, y *Term) *Term {
		if n.isC() && n.Val.Cmp(big.NewInt(64)) <= 0 {
			r := x
			for k := int64(0); k < n.Val.Int64(); k++ {
				r = Store(r, tAdd(doff, e.n(k)), Select(y, tAdd(soff, e.n(k))))
			}
			return r
		}
		r := Fresh("blit", x.S)
		k := BVar("k", e.idxSort())
		rk := Select(r, k)
		in := And(tLe(doff, k), tLt(k, tAdd(doff, n)))
		st.assume(Forall([]*Term{k}, Eq(rk, Ite(in, Select(y, tAdd(soff, tSub(k, doff))), Select(x, k))), []*Term{rk}))
		return r
	})
}

func (e *Exec) appendOp(fr *Frame, st *State, x *ssa.Call, args []Val, outs *[]Outcome) {
	s := args[0].(*SliceV)
	var add Val
	var aoff, an *Term
	switch t := args[1].(type) {
	case *SliceV:
		an, aoff = t.Len, t.Off
		if t.View != nil {
			unsup("append of a byte view")
		}
		if t.Obj != 0 {
			add = st.mem[t.Obj].(*ArrV).C
			if t.Obj != 0 && e.obj(t.Obj).name == "varargs" {
				delete(st.mem, t.Obj)
			}
		}
	case *StrV:
		an, aoff, add = t.Len, t.Off, t.C
	default:
		unsup("append of %T", t)
	}
	if add == nil || an.isC() && an.Val.Sign() == 0 {
		*outs = append(*outs, Outcome{st: st, vals: []Val{s}})
		return
	}
	if s.View != nil {
		unsup("append to a byte view")
	}
	newLen := tAdd(s.Len, an)
	if !e.bv() {
		// a slice longer than the address space cannot exist
		st.assume(Le(newLen, BigC(intInfo{wordBits, true}.max())))
	}
	elem := s.Elem
	// in place, when the backing store is visible to someone else
	shared := s.Obj != 0 && (s.Obj <= e.visible || e.sharedObj(st, s.Obj) || !sameCellAppend(x) && e.refCount(st, s.Obj) > 0)
	if shared {
		s2 := st.clone()
		fits := tLe(newLen, s.Cap)
		s2.assume(fits)
		if !e.infeasible(s2) && !s2.dead {
			n := *s
			n.Len = newLen
			d := &SliceV{Obj: s.Obj, Off: tAdd(s.Off, s.Len), Len: an, Cap: an, Nil: False, Elem: elem}
			e.copyInto(s2, d, add, aoff, an)
			*outs = append(*outs, Outcome{st: s2, vals: []Val{&n}})
		}
		st.assume(Not(fits))
		if st.dead {
			return
		}
	}
	o := e.newObj(elem, true, "append")
	nc := Fresh("cap", e.idxSort())
	st.assume(tLe(newLen, nc))
	var base Val
	off := s.Off
	if s.Obj == 0 {
		base = e.zeroLifted(elem)
		off = e.n(0)
	} else {
		base = st.mem[s.Obj].(*ArrV).C
	}
	if !e.bv() {
		st.assume(Le(Add(off, nc), BigC(intInfo{wordBits, true}.max())))
		st.assume(Le(nc, e.maxLen(elem)))
	}
	c := e.blit(st, base, tAdd(off, s.Len), add, aoff, an)
	st.mem[o.id] = &ArrV{Elem: elem, C: c, N: tAdd(off, nc)}
	*outs = append(*outs, Outcome{st: st, vals: []Val{&SliceV{Obj: o.id, Off: off, Len: newLen, Cap: nc, Nil: False, Elem: elem}}})
}

// ---- floats ----

func init() {
	declFun("nan", SBool, SF64)
	declFun("rank", SInt, SF64)
	declFun("nan32", SBool, SF32)
	declFun("rank32", SInt, SF32)
	x := BVar("x", SF64)
	inf := new(big.Int).SetUint64(math.Float64bits(math.Inf(1)))
	axioms = append(axioms, &Axiom{Name: "rank-bounds", Keys: []string{"rank"}, T: Forall([]*Term{x},
		And(Imp(Not(App("nan", x)), And(Le(BigC(new(big.Int).Neg(inf)), App("rank", x)), Le(App("rank", x), BigC(inf))))), []*Term{App("rank", x)})})
	declFun("f64bits", SInt, SF64)
	declFun("f64frombits", SF64, SInt)
	declFun("f32bits", SInt, SF32)
	declFun("f32frombits", SF32, SInt)
	for _, p := range []struct {
		to, from string
		s        *Sort
		b        uint
	}{{"f64bits", "f64frombits", SF64, 64}, {"f32bits", "f32frombits", SF32, 32}} {
		y, u := BVar("y", p.s), BVar("u", SInt)
		lim := BigC(new(big.Int).Lsh(big.NewInt(1), p.b))
		axioms = append(axioms, &Axiom{Name: p.to, Keys: []string{p.to, p.from}, T: And(
			Forall([]*Term{y}, And(Eq(App(p.from, App(p.to, y)), y), Le(IntC(0), App(p.to, y)), Lt(App(p.to, y), lim)), []*Term{App(p.to, y)}),
			Forall([]*Term{u}, Imp(And(Le(IntC(0), u), Lt(u, lim)), Eq(App(p.to, App(p.from, u)), u)), []*Term{App(p.from, u)}))})
	}
	declFun("f64of8", SF64, SInt, SInt, SInt, SInt, SInt, SInt, SInt, SInt)
	declFun("i64of8", SInt, SInt, SInt, SInt, SInt, SInt, SInt, SInt, SInt)
	a, o := BVar("a", SArr(SInt)), BVar("o", SInt)
	for _, p := range []struct {
		n string
		s *Sort
	}{{"f64", SF64}, {"i64", SInt}} {
		for _, en := range []string{"le", "be"} {
			declFun(p.n+en, p.s, SArr(SInt), SInt)
			var bs []*Term
			for k := int64(0); k < 8; k++ {
				kk := k
				if en == "be" {
					kk = 7 - k
				}
				bs = append(bs, Select(a, Add(o, IntC(kk))))
			}
			ap := App(p.n+en, a, o)
			axioms = append(axioms, &Axiom{Name: p.n + en, Keys: []string{p.n + en}, T: Forall([]*Term{a, o}, Eq(ap, App(p.n+"of8", bs...)), []*Term{ap})})
		}
	}
	declFun("iseof", SBool, SErr)
	declFun("erank", SInt, SErr)
	declFun("iswrapper", SBool, SErr)
	axioms = append(axioms, &Axiom{Name: "eof", Keys: []string{"iseof"}, T: And(App("iseof", errSym("io.EOF")), Not(App("iseof", errNil)), Not(App("iseof", errSym("io.ErrUnexpectedEOF"))))})
	axioms = append(axioms, &Axiom{Name: "eof-distinct", Keys: []string{"err:io.EOF", "err:io.ErrUnexpectedEOF"}, T: And(Not(Eq(errSym("io.EOF"), errSym("io.ErrUnexpectedEOF"))), Not(Eq(errSym("io.EOF"), errNil)), Not(Eq(errSym("io.ErrUnexpectedEOF"), errNil)), Lt(App("erank", errSym("io.EOF")), IntC(0)), Lt(App("erank", errSym("io.ErrUnexpectedEOF")), IntC(0)))})
	declFun("box:error", SAny, SErr)
	declFun("unbox:error", SErr, SAny)
	er := BVar("er", SErr)
	axioms = append(axioms, &Axiom{Name: "boxerr", Keys: []string{"unbox:error"}, T: Forall([]*Term{er}, Eq(App("unbox:error", App("box:error", er)), er), []*Term{App("box:error", er)})})
}

func errSym(n string) *Term { return Sym("err:"+n, SErr) }

func f64Rank(f float64) *big.Int {
	b := math.Float64bits(f)
	if b>>63 == 1 {
		return new(big.Int).Neg(new(big.Int).SetUint64(b &^ (1 << 63)))
	}
	return new(big.Int).SetUint64(b)
}

func (e *Exec) f64const(f float64) *Term { return f64Const(f) }

var f64seen = map[*Term]bool{}

func f64Const(f float64) *Term {
	t := Sym(fmt.Sprintf("f64:%016x", math.Float64bits(f)), SF64)
	if !f64seen[t] {
		f64seen[t] = true
		axioms = append(axioms, &Axiom{Name: t.Name, Keys: []string{t.Name}, T: And(Not(App("nan", t)), Eq(App("rank", t), BigC(f64Rank(f))), Eq(App("f64bits", t), BigC(new(big.Int).SetUint64(math.Float64bits(f)))))})
	}
	return t
}

func (e *Exec) floatBinop(op token.Token, a, b *Term) *Term {
	nan, rank := "nan", "rank"
	if a.S == SF32 {
		nan, rank = "nan32", "rank32"
	}
	ok := And(Not(App(nan, a)), Not(App(nan, b)))
	ra, rb := App(rank, a), App(rank, b)
	switch op {
	case token.LSS:
		return And(ok, Lt(ra, rb))
	case token.LEQ:
		return And(ok, Le(ra, rb))
	case token.GTR:
		return And(ok, Lt(rb, ra))
	case token.GEQ:
		return And(ok, Le(rb, ra))
	case token.EQL:
		return And(ok, Eq(ra, rb))
	case token.NEQ:
		return Not(And(ok, Eq(ra, rb)))
	}
	names := map[token.Token]string{token.ADD: "fadd", token.SUB: "fsub", token.MUL: "fmul", token.QUO: "fdiv"}
	n, okk := names[op]
	if !okk {
		unsup("float %s", op)
	}
	n += "." + a.S.Name
	declFun(n, a.S, a.S, a.S)
	if (op == token.ADD || op == token.MUL) && a.id > b.id {
		a, b = b, a
	}
	return App(n, a, b)
}

// ---- streams ----

// streamID identifies the stream behind an interface value (0: none).
func (e *Exec) streamID(iv *IfaceV) int {
	if iv.Ext != 0 {
		return iv.Ext
	}
	if p, ok := iv.V.(*PtrV); ok && iv.Dyn != nil {
		if strings.HasSuffix(iv.Dyn.String(), "bytes.Reader") {
			return p.Obj
		}
	}
	return 0
}

func (e *Exec) ghostSort(name string) *Sort {
	switch {
	case strings.HasPrefix(name, "pos@"), strings.HasPrefix(name, "outlen@"), strings.HasPrefix(name, "nwr@"):
		return e.idxSort()
	case strings.HasPrefix(name, "out@"):
		return e.arrOf(e.byteSort())
	case strings.HasPrefix(name, "closed@"):
		return SBool
	}
	for _, d := range e.root.Ghosts {
		if d.Name == name {
			return specSort(d.Type)
		}
	}
	unsup("ghost %s", name)
	return nil
}

func (e *Exec) ghost(st *State, name string) *Term {
	if t := st.ghost[name]; t != nil {
		return t
	}
	if !strings.Contains(name, "@") {
		return nil
	}
	t := Sym(name+"$0", e.ghostSort(name))
	if !e.ghost0[t] {
		e.ghost0[t] = true
		if strings.HasPrefix(name, "pos@") || strings.HasPrefix(name, "outlen@") {
			f := tLe(e.n(0), t)
			if !e.bv() {
				f = And(f, Le(t, BigC(intInfo{64, true}.max())))
			}
			e.base = append(e.base, f)
		}
	}
	return t
}

func (e *Exec) content(id int) *Term {
	t := Sym(fmt.Sprintf("content@%d", id), e.arrOf(e.byteSort()))
	if !e.bv() && !e.ghost0[t] {
		e.ghost0[t] = true
		k := BVar("k", SInt)
		tk := Select(t, k)
		e.base = append(e.base, Forall([]*Term{k}, And(Le(IntC(0), tk), Le(tk, IntC(255))), []*Term{tk}))
	}
	return t
}
func (e *Exec) endpos(id int) *Term {
	t := Sym(fmt.Sprintf("end@%d", id), e.idxSort())
	if !e.ghost0[t] {
		e.ghost0[t] = true
		e.base = append(e.base, tLe(e.n(0), t))
		if !e.bv() {
			e.base = append(e.base, Le(t, BigC(intInfo{64, true}.max())))
		}
	}
	return t
}

// extErr is an error that comes from outside the package.
func (e *Exec) extErr(st *State, name string) *Term {
	t := Fresh(name, SErr)
	st.assume(And(Not(Eq(t, errNil)), Lt(App("erank", t), IntC(0))))
	e.assumeNote("errors returned by streams are none of the package's own sentinel errors")
	return t
}

func (e *Exec) newErr(st *State, name string) *Term {
	t := Fresh(name, SErr)
	e.errN++
	st.assume(And(Not(Eq(t, errNil)), Eq(App("erank", t), IntC(int64(1000+e.errN)))))
	return t
}

func (e *Exec) assumeNote(s string) { e.notes["assumed: "+s] = true }

// fill puts n stream bytes starting at p into buf[0..n).
func (e *Exec) fill(st *State, buf *SliceV, id int, p, n *Term, full bool) {
	if buf.Obj == 0 {
		return
	}
	if buf.View == nil {
		e.copyInto(st, buf, e.content(id), p, n)
		return
	}
	e.noteWrite(st, buf.Obj, []Step{{Idx: e.n(0)}})
	e.viewFill(st, buf, e.content(id), p, n, full)
}

// viewFill replaces the viewed elements by those decoded from src[p..].
func (e *Exec) viewFill(st *State, buf *SliceV, src, p, n *Term, full bool) {
	if st.frozen[buf.Obj] {
		e.oblige(st, False, "alias", "write to memory that is already part of another value", nil)
	}
	a := st.mem[buf.Obj].(*ArrV)
	v := buf.View
	first := v.First
	sz := big.NewInt(v.Size)
	if !(buf.Off.isC() && buf.Off.Val.Sign() == 0) {
		e.oblige(st, Eq(ModC(buf.Off, sz), IntC(0)), "view", "byte view starts at an element", nil)
		first = Add(first, DivC(buf.Off, sz))
	}
	cnt := DivC(Add(buf.Len, IntC(v.Size-1)), sz)
	if m := ModC(buf.Len, sz); m != IntC(0) {
		e.oblige(st, Eq(m, IntC(0)), "view", "byte view covers whole elements", nil)
	} else {
		cnt = DivC(buf.Len, sz)
	}
	offs := e.layout(v.Elem)
	li := 0
	st.mem[buf.Obj] = &ArrV{Elem: a.Elem, N: a.N, C: mapLeaves(a.C, func(x *Term) *Term {
		lo := offs[li]
		li++
		r := Fresh("view", x.S)
		i := BVar("i", SInt)
		ri := Select(r, i)
		in := And(Le(first, i), Lt(i, Add(first, cnt)))
		old := Select(x, i)
		val := ri
		if full {
			val = e.decHost(lo, src, Add(p, Mul(IntC(v.Size), Sub(i, first))))
		}
		if full {
			st.assume(Forall([]*Term{i}, Eq(ri, Ite(in, val, old)), []*Term{ri}))
		} else {
			st.assume(Forall([]*Term{i}, Imp(Not(in), Eq(ri, old)), []*Term{ri}))
		}
		return r
	})}
	if !e.w.BigEndian {
		return
	}
	// the same facts on the bytes the view now shows
	vb := e.viewBytes(buf, st)
	k := BVar("k", SInt)
	vk := Select(vb, k)
	if full {
		st.assume(Forall([]*Term{k}, Imp(And(Le(IntC(0), k), Lt(k, buf.Len)), Eq(vk, Select(src, Add(p, k)))), []*Term{vk}))
	}
	li = 0
	mapLeaves(st.mem[buf.Obj].(*ArrV).C, func(x *Term) *Term {
		lo := offs[li]
		li++
		xk := Select(x, k)
		d := e.decHost(lo, vb, Sub(Mul(IntC(v.Size), Sub(k, v.First)), buf.Off))
		pair := "pair:" + xk.S.Name
		if funcDecls[pair] == nil {
			declFun(pair, SBool, xk.S, xk.S)
		}
		// the atom only brings the bytes to the prover's attention
		st.assume(Forall([]*Term{k}, And(App(pair, xk, d), Imp(And(Le(first, k), Lt(k, Add(first, cnt))), Eq(xk, d))), []*Term{xk}))
		return x
	})
}

type leafOff struct {
	off int64
	f64 bool
}

// layout lists the scalar leaves of a fixed-layout struct.
func (e *Exec) layout(T types.Type) []leafOff {
	var out []leafOff
	var rec func(T types.Type, base int64)
	rec = func(T types.Type, base int64) {
		switch u := T.Underlying().(type) {
		case *types.Struct:
			var fs []*types.Var
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, u.Field(i))
			}
			os := e.w.Sizes.Offsetsof(fs)
			for i := range fs {
				rec(fs[i].Type(), base+os[i])
			}
			return
		case *types.Basic:
			if u.Kind() == types.Float64 {
				out = append(out, leafOff{base, true})
				return
			}
			if u.Kind() == types.Int64 {
				out = append(out, leafOff{base, false})
				return
			}
		}
		unsup("byte view of %s", T)
	}
	rec(T, 0)
	return out
}

func (e *Exec) decHost(l leafOff, arr, base *Term) *Term {
	n := "i64"
	if l.f64 {
		n = "f64"
	}
	if e.w.BigEndian {
		n += "be"
	} else {
		n += "le"
	}
	return App(n, arr, Add(base, IntC(l.off)))
}

// viewBytes gives the byte array a view shows, re-based at 0.
func (e *Exec) viewBytes(s *SliceV, st *State) *Term {
	a := st.mem[s.Obj].(*ArrV)
	var ls []*Term
	leaves(a.C, &ls)
	en := "le"
	if e.w.BigEndian {
		en = "be"
	}
	fn := fmt.Sprintf("viewb:%s:%s", types.TypeString(s.View.Elem, nil), en)
	if funcDecls[fn] == nil {
		var srt []*Sort
		var vs []*Term
		for i, l := range ls {
			srt = append(srt, l.S)
			vs = append(vs, BVar(fmt.Sprintf("l%d", i), l.S))
		}
		for _, n := range []string{"first", "off", "len"} {
			srt = append(srt, SInt)
			vs = append(vs, BVar(n, SInt))
		}
		declFun(fn, SArr(SInt), srt...)
		b := App(fn, vs...)
		first, off, ln := vs[len(ls)], vs[len(ls)+1], vs[len(ls)+2]
		i := BVar("i", SInt)
		offs := e.layout(s.View.Elem)
		var cs []*Term
		for k := range ls {
			li := Select(vs[k], i)
			in := And(Le(first, i), Lt(Mul(IntC(s.View.Size), Sub(Add(i, IntC(1)), first)), Add(Add(off, ln), IntC(1))))
			cs = append(cs, Forall(append(append([]*Term{}, vs...), i), Imp(in, Eq(e.decHost(offs[k], b, Sub(Mul(IntC(s.View.Size), Sub(i, first)), off)), li)), []*Term{b, li}))
		}
		bk := Select(b, i)
		cs = append(cs, Forall(append(append([]*Term{}, vs...), i), And(Le(IntC(0), bk), Le(bk, IntC(255))), []*Term{bk}))
		axioms = append(axioms, &Axiom{Name: fn, Keys: []string{fn}, T: And(cs...)})
	}
	t := App(fn, append(ls, s.View.First, s.Off, s.Len)...)
	key := fmt.Sprint(t.id)
	c, ok := e.viewB[key]
	if !ok { // a ground name, so that the axiom above is instantiated
		c = Fresh("viewbytes", SArr(SInt))
		e.viewB[key] = c
		axioms = append(axioms, &Axiom{Name: c.Name, Keys: []string{c.Name}, T: Eq(c, t)})
	}
	return c
}

// healthy: the stream never fails by itself. Only such a stream's errors are
// predictable; nothing else is assumed about it.
func (e *Exec) healthy(id int) *Term { return Sym(fmt.Sprintf("healthy@%d", id), SBool) }

// streamCall models Read, Write, Seek and Close of a stream.
func (e *Exec) streamCall(fr *Frame, st *State, id int, m string, args []Val, outs *[]Outcome) bool {
	pg := fmt.Sprintf("pos@%d", id)
	emit := func(s *State, v ...Val) { *outs = append(*outs, Outcome{st: s, vals: v}) }
	switch m {
	case "Read":
		e.assumeNote("io.Reader contract of the underlying stream (0 <= n <= len(p), the n bytes are the next bytes of the stream, io.EOF only at its end)")
		buf := args[0].(*SliceV)
		p := e.ghost(st, pg)
		n := Fresh("n", e.idxSort())
		err := Fresh("readerr", SErr)
		st.assume(And(Le(IntC(0), n), Le(n, buf.Len), Lt(App("erank", err), IntC(0)), Imp(Lt(IntC(0), n), Le(Add(p, n), e.endpos(id)))))
		st.assume(Imp(Eq(err, errSym("io.EOF")), Le(e.endpos(id), Add(p, n))))
		st.assume(Imp(e.healthy(id), Or(Eq(err, errNil), Eq(err, errSym("io.EOF")))))
		e.fill(st, buf, id, p, n, false)
		e.setGhost(st, pg, Add(p, n))
		e.ghostFact(st, pg)
		emit(st, n, err)
	case "Write":
		e.assumeNote("io.Writer contract of the underlying stream (0 <= n <= len(p), error when n < len(p), p is not modified or retained)")
		buf := args[0].(*SliceV)
		og, lg := fmt.Sprintf("out@%d", id), fmt.Sprintf("outlen@%d", id)
		o, l := e.ghost(st, og), e.ghost(st, lg)
		var src, soff *Term
		if buf.View != nil {
			src, soff = e.viewBytes(buf, st), e.n(0)
		} else if buf.Obj != 0 {
			src, soff = st.mem[buf.Obj].(*ArrV).C.(*Term), buf.Off
		} else {
			src, soff = ConstArr(e.arrOf(e.byteSort()), e.zeroByte()), e.n(0)
		}
		// failure
		s2 := st.clone()
		n := Fresh("n", e.idxSort())
		err := e.extErr(s2, "writeerr")
		s2.assume(And(tLe(e.n(0), n), tLe(n, buf.Len)))
		s2.assume(Not(e.healthy(id)))
		e.setGhost(s2, og, e.blit(s2, o, l, src, soff, n).(*Term))
		e.setGhost(s2, lg, tAdd(l, n))
		e.ghostFact(s2, lg)
		emit(s2, n, err)
		// success
		e.setGhost(st, og, e.blit(st, o, l, src, soff, buf.Len).(*Term))
		e.setGhost(st, lg, tAdd(l, buf.Len))
		e.ghostFact(st, lg)
		emit(st, buf.Len, errNil)
	case "Seek":
		e.assumeNote("io.Seeker contract of the underlying stream (on success the new absolute offset is returned and taken)")
		off, wh := args[0].(*Term), args[1].(*Term)
		p := e.ghost(st, pg)
		s2 := st.clone()
		err := e.extErr(s2, "seekerr")
		e.setGhost(s2, pg, Fresh("g."+pg, e.idxSort()))
		e.ghostFact(s2, pg)
		emit(s2, Fresh("n", e.idxSort()), err)
		if f := s2; f != nil {
			if ii, ok := intType(types.Typ[types.Int64]); ok {
				t := (*outs)[len(*outs)-1].vals[0].(*Term)
				s2.assume(e.rangeFact(t, ii))
			}
		}
		var np *Term
		if wh.isC() {
			switch wh.Val.Int64() {
			case 0:
				np = off
			case 1:
				np = Add(p, off)
			case 2:
				np = Add(e.endpos(id), off)
			}
		}
		if np == nil {
			unsup("Seek with unknown whence")
		}
		s2.assume(Imp(e.healthy(id), Not(And(inRange(np, intInfo{64, true}), Le(IntC(0), np)))))
		st.assume(inRange(np, intInfo{64, true}))
		st.assume(Le(IntC(0), np))
		e.setGhost(st, pg, np)
		emit(st, np, errNil)
	case "Close":
		e.assumeNote("io.Closer contract of the underlying stream")
		e.setGhost(st, fmt.Sprintf("closed@%d", id), True)
		err := Fresh("closeerr", SErr)
		st.assume(Imp(e.healthy(id), Eq(err, errNil)))
		st.assume(Lt(App("erank", err), IntC(0)))
		emit(st, err)
	default:
		return false
	}
	return true
}

// ---- external functions ----

func (e *Exec) extCall(fr *Frame, st *State, fn *ssa.Function, key string, args []Val, outs *[]Outcome) bool {
	emit := func(v ...Val) { *outs = append(*outs, Outcome{st: st, vals: v}) }
	full := fn.String()
	switch full {
	case "io.ReadFull":
		iv := args[0].(*IfaceV)
		e.require(fr, st, Not(e.ifaceNil(iv)), "nil", "io.ReadFull of nil reader", outs)
		id := e.streamID(iv)
		if id == 0 {
			unsup("io.ReadFull on %s", iv.Dyn)
		}
		e.assumeNote("io.ReadFull over a stream keeping the io.Reader contract: nil error exactly when all bytes were read, io.EOF only when the stream is at its end and nothing was read")
		buf := args[1].(*SliceV)
		pg := fmt.Sprintf("pos@%d", id)
		p := e.ghost(st, pg)
		if !(buf.Len.isC() && buf.Len.Val.Sign() == 0) {
			s2 := st.clone()
			n := Fresh("n", e.idxSort())
			err := e.extErr(s2, "readerr")
			s2.assume(And(tLe(e.n(0), n), tLt(n, buf.Len), tLe(tAdd(p, n), Ite(tLe(p, e.endpos(id)), e.endpos(id), p))))
			s2.assume(Imp(Eq(err, errSym("io.EOF")), And(Eq(n, e.n(0)), tLe(e.endpos(id), p))))
			s2.assume(Imp(Eq(err, errSym("io.ErrUnexpectedEOF")), tLt(e.n(0), n)))
			s2.assume(Imp(e.healthy(id), And(tLt(e.endpos(id), tAdd(p, buf.Len)), Eq(n, Ite(tLe(p, e.endpos(id)), tSub(e.endpos(id), p), e.n(0))), Eq(err, Ite(Eq(n, e.n(0)), errSym("io.EOF"), errSym("io.ErrUnexpectedEOF"))))))
			e.assumeNote("a stream does not itself return io.ErrUnexpectedEOF before delivering a byte")
			e.fill(s2, buf, id, p, n, false)
			e.setGhost(s2, pg, tAdd(p, n))
			e.ghostFact(s2, pg)
			*outs = append(*outs, Outcome{st: s2, vals: []Val{n, err}})
		}
		st.assume(Or(Eq(buf.Len, e.n(0)), tLe(tAdd(p, buf.Len), e.endpos(id))))
		e.fill(st, buf, id, p, buf.Len, true)
		e.setGhost(st, pg, tAdd(p, buf.Len))
		e.ghostFact(st, pg)
		emit(buf.Len, errNil)
		return true
	case "errors.New":
		t := e.newErr(st, "errors.New")
		st.assume(Not(App("iseof", t)))
		emit(t)
		return true
	case "fmt.Errorf":
		t := e.newErr(st, "fmt.Errorf")
		if sv, ok := args[1].(*SliceV); ok && sv.Obj != 0 {
			if av, ok := st.mem[sv.Obj].(*ArrV); ok {
				if iv, ok := av.C.(*IfaceV); ok && iv.Any != nil {
					last := App("unbox:error", Select(iv.Any, tAdd(sv.Off, tSub(sv.Len, e.n(1)))))
					st.assume(Imp(App("iseof", t), App("iseof", last)))
					e.assumeNote("an error made by fmt.Errorf wraps at most the last of its arguments")
				}
			}
		} else {
			st.assume(Not(App("iseof", t)))
		}
		emit(t)
		return true
	case "fmt.Sprintf", "fmt.Sprint":
		e.assumeNote("fmt formatting terminates and does not write to the package's memory")
		emit(e.symVal(types.Typ[types.String], "sprintf", st))
		return true
	case "fmt.Fprintf", "fmt.Fprint":
		e.assumeNote("fmt formatting into a strings.Builder only changes the builder")
		emit(e.symVal(types.Typ[types.Int], "n", st), e.extErrOrNil(st))
		return true
	case "(*strings.Builder).WriteString", "(*strings.Builder).Write":
		e.assumeNote("strings.Builder methods only change the builder")
		emit(e.symVal(types.Typ[types.Int], "n", st), errNil)
		return true
	case "(*strings.Builder).WriteByte":
		emit(errNil)
		return true
	case "(*strings.Builder).String":
		emit(e.symVal(types.Typ[types.String], "built", st))
		return true
	case "bytes.NewReader":
		o := e.newObj(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem(), false, "bytes.Reader")
		b := args[0].(*SliceV)
		st.mem[o.id] = &StructV{T: o.T}
		p := &PtrV{Obj: o.id, Nil: False, Elem: o.T}
		k := BVar("k", e.idxSort())
		c := e.content(o.id)
		bs := e.bytesOf(b, st)
		st.assume(Forall([]*Term{k}, Eq(Select(c, k), Select(bs, k)), []*Term{Select(c, k)}))
		st.assume(Eq(e.endpos(o.id), b.Len))
		e.setGhost(st, fmt.Sprintf("pos@%d", o.id), e.n(0))
		e.assumeNote("bytes.Reader yields the bytes it was made from")
		emit(p)
		return true
	case "math.Inf":
		s := args[0].(*Term)
		if s.isC() {
			if s.Val.Sign() >= 0 && !(s.S.Bits > 0 && sgn(s.Val, s.S.Bits).Sign() < 0) {
				emit(e.f64const(math.Inf(1)))
			} else {
				emit(e.f64const(math.Inf(-1)))
			}
			return true
		}
	case "math.IsNaN":
		emit(App("nan", args[0].(*Term)))
		return true
	case "math.IsInf":
		if s := args[1].(*Term); s.isC() && !e.bv() {
			x := args[0].(*Term)
			pi := And(Not(App("nan", x)), Eq(App("rank", x), BigC(f64Rank(math.Inf(1)))))
			ni := And(Not(App("nan", x)), Eq(App("rank", x), BigC(f64Rank(math.Inf(-1)))))
			switch s.Val.Sign() {
			case 0:
				emit(Or(pi, ni))
			case 1:
				emit(pi)
			default:
				emit(ni)
			}
			return true
		}
	case "math.Min", "math.Max":
		x, y := args[0].(*Term), args[1].(*Term)
		// Go: NaN if either is NaN (infinities take precedence), -0 < +0
		t := Fresh("minmax", SF64)
		ox, oy := Not(App("nan", x)), Not(App("nan", y))
		r := App("rank", t)
		if full == "math.Min" {
			st.assume(Imp(And(ox, oy), And(Not(App("nan", t)), Eq(r, Ite(Le(App("rank", x), App("rank", y)), App("rank", x), App("rank", y))))))
		} else {
			st.assume(Imp(And(ox, oy), And(Not(App("nan", t)), Eq(r, Ite(Le(App("rank", x), App("rank", y)), App("rank", y), App("rank", x))))))
		}
		st.assume(Imp(And(ox, oy), Or(Eq(t, x), Eq(t, y))))
		emit(t)
		return true
	case "math.Floor":
		declFun("f64floor", SF64, SF64)
		emit(App("f64floor", args[0].(*Term)))
		return true
	case "math.Float64frombits", "math.Float32frombits", "math.Float64bits", "math.Float32bits":
		if !e.bv() {
			n := map[string]string{"math.Float64frombits": "f64frombits", "math.Float32frombits": "f32frombits", "math.Float64bits": "f64bits", "math.Float32bits": "f32bits"}[full]
			t := App(n, args[0].(*Term))
			if strings.HasSuffix(n, "tobits") || n == "f64bits" || n == "f32bits" {
				b := 64
				if n == "f32bits" {
					b = 32
				}
				st.assume(e.rangeFact(t, intInfo{b, false}))
			}
			emit(t)
			return true
		}
	}
	return false
}

func (e *Exec) extErrOrNil(st *State) *Term {
	t := Fresh("err", SErr)
	st.assume(Lt(App("erank", t), IntC(0)))
	return t
}

// ---- globals ----

func (e *Exec) globalPtr(g *ssa.Global, st *State) *PtrV {
	T := g.Type().Underlying().(*types.Pointer).Elem()
	id, ok := e.globals[g]
	if !ok {
		o := e.newObj(T, false, g.Name())
		o.glob = g
		id = o.id
		e.globals[g] = id
	}
	if _, ok := st.mem[id]; !ok {
		st.mem[id] = e.globalInit(g, T, st)
	}
	return &PtrV{Obj: id, Nil: False, Elem: T}
}

func (e *Exec) globalInit(g *ssa.Global, T types.Type, st *State) Val {
	if v, ok := e.globVal[g]; ok {
		return v
	}
	var v Val
	if isErrType(T) {
		n := g.Pkg.Pkg.Name() + "." + g.Name()
		t := errSym(n)
		v = t
		if e.w.isRepo(g.Pkg) {
			axOnce("sentinel:"+n, []string{t.Name}, And(Not(Eq(t, errNil)), Not(App("iseof", t)), Eq(App("erank", t), IntC(e.w.sentinelNo(n)))))
			e.w.checkErrGlobal(g)
		}
	} else if e.w.isRepo(g.Pkg) && !e.w.storedOutsideInit(g) {
		v = e.w.initValue(e, g, st)
	}
	if v == nil {
		v = e.symVal(T, "global."+g.Name(), st)
	}
	e.globVal[g] = v
	return v
}

var axSeen = map[string]bool{}

func axOnce(name string, keys []string, t *Term) {
	if axSeen[name] {
		return
	}
	axSeen[name] = true
	axioms = append(axioms, &Axiom{Name: name, Keys: keys, T: t})
}

// sameCellAppend: x = append(x, ...)
func sameCellAppend(c *ssa.Call) bool {
	if c == nil {
		return false
	}
	ld, ok := c.Call.Args[0].(*ssa.UnOp)
	if !ok || ld.Op != token.MUL || c.Referrers() == nil {
		return false
	}
	stores := 0
	for _, r := range *c.Referrers() {
		switch y := r.(type) {
		case *ssa.Store:
			if y.Val != c || !sameAddr(y.Addr, ld.X) {
				return false
			}
			stores++
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return stores == 1
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	fa, ok1 := a.(*ssa.FieldAddr)
	fb, ok2 := b.(*ssa.FieldAddr)
	if ok1 && ok2 && fa.Field == fb.Field {
		if sameAddr(fa.X, fb.X) {
			return true
		}
		la, ok1 := fa.X.(*ssa.UnOp)
		lb, ok2 := fb.X.(*ssa.UnOp)
		return ok1 && ok2 && la.Op == token.MUL && lb.Op == token.MUL && la.X == lb.X
	}
	return false
}

// applyOpaque: a contract in terms of bit vectors, called from a function
// verified over integers (or the other way round). The callee is a total
// function of scalars: its value is an unknown function of its arguments.
func (e *Exec) applyOpaque(st *State, c *Contract, sig *types.Signature, args []Val, outs *[]Outcome) {
	if len(c.Req) > 0 || len(c.Mod) > 0 || c.Panics != nil || c.MayPanic || sig.Results().Len() != 1 {
		unsup("%s is specified over bit vectors", c.Key)
	}
	ii, ok := intType(sig.Results().At(0).Type())
	if !ok {
		unsup("%s is specified over bit vectors", c.Key)
	}
	t := e.fnval(c.Key, e.intSort(ii), args)
	st.assume(e.rangeFact(t, ii))
	*outs = append(*outs, Outcome{st: st, vals: []Val{t}})
}

func (e *Exec) fnval(key string, res *Sort, args []Val) *Term {
	var ts []*Term
	var ss []*Sort
	for _, a := range args {
		t, ok := a.(*Term)
		if !ok {
			unsup("value of %s: argument is not a scalar", key)
		}
		ts = append(ts, t)
		ss = append(ss, t.S)
	}
	declFun("val."+key, res, ss...)
	return App("val."+key, ts...)
}
