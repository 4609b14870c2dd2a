package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// FnReport is the result of verifying one function (or lemma).
type FnReport struct {
	Name       string
	Props      []string
	Obls       []*Obligation
	Err        string // could not be verified at all
	Notes      []string
	Used       []string // contracts relied on
	Inlined    []string
	Lemmas     []string
	Pos        string
	WrapAt     []string
	Dropped    []string
	Pool       bool
	SolverSecs float64
	IsLemma    bool
}

func (r *FnReport) failed() []*Obligation {
	var out []*Obligation
	for _, o := range r.Obls {
		if o.Status != "proved" {
			out = append(out, o)
		}
	}
	return out
}

func (r *FnReport) ok() bool { return r.Err == "" && len(r.failed()) == 0 }

var quickSecs, fullSecs = 5, 40

// setup makes the initial state of a contract's function.
func (e *Exec) setup(c *Contract) (fn *ssa.Function, st *State, env *Env) {
	fn = e.w.function(c.Key)
	if fn == nil {
		unsup("function %s does not exist", c.Key)
	}
	e.rootFn = fn
	st = e.runInit()
	e.base = append(e.base, st.pcList()...)
	st.pc = nil
	if len(fn.Params) != len(c.Params) {
		unsup("contract of %s names %d parameters, the function has %d", c.Key, len(c.Params), len(fn.Params))
	}
	env = &Env{e: e, vars: map[string]Val{}, st: st, pkg: c.Pkg}
	for i, p := range fn.Params {
		v := e.symVal(p.Type(), c.Params[i], st)
		if pv, ok := v.(*PtrV); ok && !c.mayBeNil(c.Params[i]) {
			pv.Nil = False
		}
		env.vars[c.Params[i]] = v
	}
	for _, cf := range c.Config {
		switch {
		case cf.Label == "maybenil":
		case strings.HasPrefix(cf.Label, "alias "):
			env.vars[cf.E.Name] = e.evalVal(mustParse(strings.TrimPrefix(cf.Label, "alias ")), env)
		case strings.HasPrefix(cf.Label, "dyn "):
			// an interface parameter whose dynamic type is known
			T := e.w.typeOf(c.Pkg, strings.TrimPrefix(cf.Label, "dyn "))
			v := e.symVal(T, cf.E.Name, st)
			if pv, ok := v.(*PtrV); ok {
				pv.Nil = False
			}
			old := env.vars[cf.E.Name].(*IfaceV)
			env.vars[cf.E.Name] = &IfaceV{T: old.T, Dyn: T, V: v, Nil: False}
		case cf.Label == "nonnil":
			p := e.evalVal(cf.E, env)
			switch x := p.(type) {
			case *PtrV:
				x.Nil = False
			case *IfaceV:
				x.Nil = False
			}
		default:
			p := e.lval(cf.E, env)
			var v Val
			if cf.Label == "nil" {
				v = &FuncV{Nil: True}
			} else {
				f := e.w.function(c.Pkg + "." + cf.Label)
				if f == nil {
					unsup("function %s named in a config clause does not exist", cf.Label)
				}
				v = &FuncV{Fn: f, Nil: False, Sig: f.Signature}
			}
			st.mem[p.Obj] = e.storePath(st.mem[p.Obj], p.Path, v, st)
		}
	}
	for _, g := range c.Ghosts {
		// parameters of kind ghost: arbitrary
		if g.Init != nil {
			v := e.evalTerm(g.Init, env)
			if v.S == SBool && strings.Contains(v.String(), "forall") {
				// a name for the formula: a formula with quantifiers in the
				// left of many implications would swamp the solvers
				n := Fresh("ghost."+g.Name, SBool)
				st.assume(Eq(n, v))
				v = n
			}
			st.ghost[g.Name] = v
		}
	}
	return
}

func mustParse(s string) *Expr {
	x, err := ParseExpr(s)
	if err != nil {
		bad("%v", err)
	}
	return x
}

func (w *World) typeOf(pkg, n string) types.Type {
	ptr := strings.HasPrefix(n, "*")
	n = strings.TrimPrefix(n, "*")
	var T types.Type
	if i := strings.Index(n, "."); i >= 0 {
		for path, p := range w.all {
			if path == n[:i] || p.Pkg.Name() == n[:i] {
				if m, ok := p.Members[n[i+1:]].(*ssa.Type); ok {
					T = m.Type()
				}
			}
		}
	} else {
		T = w.lookupType(pkg, n)
	}
	if T == nil {
		bad("type %s", n)
	}
	if ptr {
		return types.NewPointer(T)
	}
	return T
}

func (w *World) execContract(c *Contract, wrapAt, drop map[string]bool, pool bool) (e *Exec, err error) {
	e = newExec(w, c)
	e.wrapAt, e.dropInv, e.pool = wrapAt, drop, pool
	defer func() {
		if r := recover(); r != nil {
			switch z := r.(type) {
			case Unsupported:
				err = fmt.Errorf("outside the verifier's subset: %s (at %s)", z.Msg, e.posStr())
			case specErr:
				err = fmt.Errorf("specification: %s", z.msg)
			case specNil:
				err = fmt.Errorf("specification: %s", z.msg)
			default:
				if os.Getenv("VCG_DEBUG") != "" {
					panic(r)
				}
				err = fmt.Errorf("internal: %v (at %s)", r, e.posStr())
			}
		}
	}()
	fn, st, env := e.setup(c)
	for _, r := range c.Req {
		st.assume(e.evalBool(r.E, env))
	}
	e.visible = len(e.objs)
	e.oldSt = st.clone()
	env.old = e.oldSt
	e.env0 = env.with(e.oldSt, e.oldSt)
	st.dead = false
	e.setPos(fn.Pos())
	e.cover(st, "precondition")
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*loopCtx{}, spec: c}
	for i, p := range fn.Params {
		fr.env[p] = env.vars[c.Params[i]]
	}
	nObjs := len(e.objs)
	var outs []Outcome
	e.run(fr, st, fn.Blocks[0], 0, nil, &outs)
	returns := 0
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		e.setPos(fn.Pos())
		if o.panic {
			switch {
			case c.MayPanic:
			case c.Panics != nil:
				e.oblige(o.st, e.evalBool(c.Panics.E, e.env0), "panic", "panics only when allowed", c.Panics.Props)
			default:
				e.oblige(o.st, False, "panic", "does not panic", nil)
			}
			continue
		}
		returns++
		env2 := &Env{e: e, vars: map[string]Val{}, st: o.st, old: e.oldSt, pkg: c.Pkg}
		for k, v := range env.vars {
			env2.vars[k] = v
		}
		for i, v := range o.vals {
			n := fmt.Sprintf("result%d", i)
			if i < len(c.Results) {
				n = c.Results[i]
			}
			env2.vars[n] = v
			if len(o.vals) == 1 {
				env2.vars["result"] = v
			}
		}
		for n, a := range c.Alias {
			if strings.HasPrefix(a, "dyn ") {
				continue
			}
			have := env2.vars[n]
			want := e.evalVal(mustParse(a), env2)
			e.oblige(o.st, e.aliasOK(have, want), "ensures", "alias "+n, nil)
		}
		if c.Panics != nil && !c.PanicsMay && !c.MayPanic {
			e.oblige(o.st, Not(e.evalBool(c.Panics.E, e.env0)), "panic", "panics whenever required", c.Panics.Props)
		}
		for _, cl := range c.Apply {
			if cl.Label == "loops" {
				continue
			}
			if t, ok := e.tryEvalEnv(cl.E, env2); ok && t.S == SBool {
				o.st.assume(t)
			}
		}
		for _, g := range c.RetGhost {
			t := e.evalTerm(g.E, env2)
			env2.vars[g.Name] = t
		}
		for i := range c.Ens {
			cl := &c.Ens[i]
			lab := cl.Label
			if lab == "" {
				lab = fmt.Sprint(i)
			}
			t := e.evalBool(cl.E, env2)
			if t.Op == "and" {
				for _, a := range t.Args {
					e.oblige(o.st, a, "ensures", lab, cl.Props)
				}
			} else {
				e.oblige(o.st, t, "ensures", lab, cl.Props)
			}
		}
		if !c.NoFrame {
			e.frameCheck(o.st, c, nObjs)
		} else {
			e.notes["frame not checked for "+e.rootName()] = true
		}
	}
	_ = returns
	return e, nil
}

func (e *Exec) aliasOK(have, want Val) *Term {
	switch h := have.(type) {
	case *SliceV:
		w, ok := want.(*SliceV)
		if !ok {
			return False
		}
		if h.Obj != w.Obj {
			return And(h.Nil, w.Nil)
		}
		return And(Eq(h.Off, w.Off), Eq(h.Len, w.Len), Eq(h.Cap, w.Cap), Eq(h.Nil, w.Nil))
	case *PtrV:
		w, ok := want.(*PtrV)
		if !ok {
			return False
		}
		if h.Obj != w.Obj || pathKey(h.Path) != pathKey(w.Path) {
			return And(h.Nil, w.Nil)
		}
		return Eq(h.Nil, w.Nil)
	case *IfaceV:
		w, ok := want.(*IfaceV)
		if ok && h.Ext != 0 && h.Ext == w.Ext {
			return True
		}
	case *Term:
		if w, ok := want.(*Term); ok {
			return Eq(h, w)
		}
	}
	return False
}

// frameCheck: everything that existed before and is not named in a modifies
// clause is unchanged.
func (e *Exec) frameCheck(st *State, c *Contract, nObjs int) {
	var ls []loc
	for i := range c.Mod {
		ls = append(ls, e.evalLoc(c.Mod[i].E, e.env0)...)
	}
	ghostOK := map[string]bool{}
	objOK := map[int][]string{}
	for _, l := range ls {
		if l.ghost != "" {
			ghostOK[l.ghost] = true
		} else {
			objOK[l.obj] = append(objOK[l.obj], pathKey(l.path))
		}
	}
	for id, ov := range e.oldSt.mem {
		if id > nObjs {
			continue
		}
		nv, ok := st.mem[id]
		if !ok {
			continue
		}
		e.frameDiff(st, e.obj(id).name, ov, nv, "", objOK[id])
	}
	var gs []string
	for g := range st.ghost {
		if strings.Contains(g, "@") {
			gs = append(gs, g)
		}
	}
	sort.Strings(gs)
	for _, g := range gs {
		var id int
		fmt.Sscanf(g[strings.Index(g, "@")+1:], "%d", &id)
		if id > nObjs || ghostOK[g] {
			continue
		}
		o := e.ghost(e.oldSt, g)
		if o != st.ghost[g] {
			e.oblige(st, Eq(o, st.ghost[g]), "frame", g[:strings.Index(g, "@")]+" of "+e.obj(id).name, nil)
		}
	}
}

func (e *Exec) frameDiff(st *State, name string, o, n Val, path string, ok []string) {
	for _, p := range ok {
		if strings.HasPrefix(path, p) || p == "" {
			return
		}
	}
	if o == n {
		return
	}
	switch x := o.(type) {
	case *StructV:
		y := n.(*StructV)
		u := x.T.Underlying().(*types.Struct)
		for i := range x.F {
			e.frameDiff(st, name+"."+u.Field(i).Name(), x.F[i], y.F[i], path+fmt.Sprintf("%d.", i), ok)
		}
	case *ArrV:
		y := n.(*ArrV)
		for _, p := range ok {
			if strings.HasPrefix(p, path+"*.") {
				e.frameArr(st, name, x, y, p[len(path)+2:])
				return
			}
		}
		e.oblige(st, eqLeaves(x.C, y.C), "frame", name, nil)
	case *Term:
		e.oblige(st, Eq(x, n.(*Term)), "frame", name, nil)
	default:
		t, okk := func() (t *Term, k bool) {
			defer func() {
				if recover() != nil {
					k = false
				}
			}()
			return e.specEq(o, n, e.env0), true
		}()
		if !okk {
			t = False
		}
		e.oblige(st, t, "frame", name, nil)
	}
}

func (e *Exec) frameArr(st *State, name string, x, y *ArrV, rest string) {
	// "modifies s[i]": the index terms were lost; handled by an ensures clause
	// of the contract that names the other elements.
	e.notes["frame of "+name+" is element-wise; other elements are covered by ensures clauses only"] = true
}

// ---- solving ----

func (e *Exec) fullAssum(o *Obligation) []*Term {
	return append(append([]*Term{}, e.base...), o.Assum...)
}

func dumpQuery(o *Obligation, q string) {
	if d := os.Getenv("VCG_DUMP"); d != "" {
		n := strings.Map(func(r rune) rune {
			if r == '/' || r == ' ' || r == '|' || r == ':' {
				return '_'
			}
			return r
		}, o.Name)
		if len(n) > 120 {
			n = n[:120]
		}
		os.MkdirAll(d, 0755)
		os.WriteFile(fmt.Sprintf("%s/%s_%p.smt2", d, n, o), []byte(q), 0644)
	}
}

// goalParts splits a goal into goals that together imply it.
func goalParts(g *Term) []*Term {
	switch g.Op {
	case "and":
		var out []*Term
		for _, a := range g.Args {
			out = append(out, goalParts(a)...)
		}
		return out
	case "=>":
		var out []*Term
		for _, p := range goalParts(g.Args[1]) {
			out = append(out, Imp(g.Args[0], p))
		}
		return out
	case "forall":
		var out []*Term
		for _, p := range goalParts(g.Args[0]) {
			out = append(out, Forall(g.Vars, p))
		}
		return out
	}
	return []*Term{g}
}

func (e *Exec) solveAll(obls []*Obligation, quick, full int) float64 {
	return e.solveList(obls, quick, full, false)
}

// solveList discharges obligations; patient: one after the other.
func (e *Exec) solveList(obls []*Obligation, quick, full int, patient bool) float64 {
	var wg sync.WaitGroup
	var lone sync.Mutex
	var mu sync.Mutex
	secs := 0.0
	type job struct {
		o  *Obligation
		q  string
		q0 string
	}
	var jobs []job
	covers := map[string][]job{}
	for _, o := range obls {
		if o.Status != "" {
			continue
		}
		if !o.Cover && o.Goal == False {
			// still needs the solver: the path may be infeasible
		}
		q := Query(e.fullAssum(o), o.Goal, false)
		dumpQuery(o, q)
		if o.Cover {
			covers[o.Label] = append(covers[o.Label], job{o, q, ""})
			continue
		}
		q0 := ""
		if len(e.root.Omit) > 0 {
			axiomOff = map[string]bool{}
			for _, n := range e.root.Omit {
				axiomOff["spec:"+n], axiomOff["lemma:"+n] = true, true
			}
		}
		fa := e.fullAssum(o)
		if o.Keep != nil {
			fa = append(append([]*Term{}, e.base...), o.Keep...)
		}
		if ab, nl := abstractNL(append(fa, o.Goal)); nl || axiomOff != nil {
			q0 = Query(ab[:len(ab)-1], ab[len(ab)-1], false)
			if os.Getenv("VCG_DUMP0") != "" {
				dumpQuery(o, q0)
			}
		}
		axiomOff = nil
		jobs = append(jobs, job{o, q, q0})
	}
	for _, j := range jobs {
		wg.Add(1)
		go func(j job) {
			defer wg.Done()
			var r SolveResult
			if patient {
				lone.Lock()
				defer lone.Unlock()
			}
			if j.q0 != "" {
				f0 := 0
				if len(e.root.Omit) > 0 {
					f0 = full / 3
				}
				if patient {
					f0 = full
				}
				q1 := quick
				if f0 == 0 && q1 > 2 {
					q1 = 2
				}
				if r = fast(j.q0, q1); r.Status != "unsat" && f0 > 0 {
					if r2 := fast(j.q, quick); r2.Status == "unsat" {
						r = r2
					} else {
						r = portfolio(j.q0, r, f0)
					}
				}
				r.Backend += " (linear abstraction)"
				if r.Status != "unsat" && os.Getenv("VCG_SLOW") != "" {
					fmt.Println("   first attempt failed", j.o.Name, r.Secs)
				}
			}
			if r.Status != "unsat" {
				mu.Lock()
				var ps []string
				if gs := goalParts(j.o.Goal); len(gs) > 1 {
					for _, g := range gs {
						ps = append(ps, Query(e.fullAssum(j.o), g, false))
					}
				}
				mu.Unlock()
				r = solve(j.q, quick, full, ps...)
			}
			mu.Lock()
			secs += r.Secs
			mu.Unlock()
			j.o.Result = r
			switch r.Status {
			case "unsat":
				j.o.Status = "proved"
			case "sat":
				j.o.Status = "failed"
			case "error":
				j.o.Status = "error"
				j.o.Reason = strings.SplitN(r.Output, "\n", 2)[0]
			default:
				j.o.Status = "unknown"
			}
		}(j)
	}
	for _, js := range covers {
		wg.Add(1)
		go func(js []job) {
			defer wg.Done()
			good := false
			for _, j := range js {
				r := solve(j.q, 2, 0)
				mu.Lock()
				secs += r.Secs
				mu.Unlock()
				j.o.Result = r
				if r.Status != "unsat" {
					good = true
					break
				}
			}
			for _, j := range js {
				if good {
					j.o.Status = "proved"
				} else {
					j.o.Status = "failed"
					j.o.Reason = "unreachable: the assumptions are contradictory"
				}
			}
		}(js)
	}
	wg.Wait()
	return secs
}

func verifyContract(w *World, c *Contract) *FnReport {
	wrapAt, drop := map[string]bool{}, map[string]bool{}
	return verifyPool(w, c, verifyMode(w, c, wrapAt, drop, false))
}

// verifyPool retries a failed verification with every invariant at every loop.
func verifyPool(w *World, c *Contract, rep *FnReport) *FnReport {
	if !rep.ok() && rep.Err == "" && len(c.Loops) > 0 {
		bad := false
		for _, o := range rep.failed() {
			if o.Status == "error" {
				bad = true
			}
		}
		if !bad && os.Getenv("VCG_NOPOOL") == "" {
			// a loop may have been rewritten: offer every invariant at every loop
			r2 := verifyMode(w, c, map[string]bool{}, map[string]bool{}, true)
			if r2.ok() {
				r2.Pool = true
				return r2
			}
		}
	}
	return rep
}

func verifyMode(w *World, c *Contract, wrapAt, drop map[string]bool, pool bool) *FnReport {
	rep := &FnReport{Name: contractName(c), Props: c.Props}
	axiomPkg = strings.SplitN(c.Key, ".", 2)[0]
	axiomFor = c.Key[len(axiomPkg)+1:]
	defer func() { axiomPkg, axiomFor = "", "" }()
	for round := 0; ; round++ {
		e, err := w.execContract(c, wrapAt, drop, pool)
		if err != nil {
			rep.Err = err.Error()
			rep.finish(e)
			return rep
		}
		var wraps []*Obligation
		for _, o := range e.obls {
			if strings.HasPrefix(o.Site, "wrap:") && o.Status == "" {
				wraps = append(wraps, o)
			}
		}
		again := false
		if len(wraps) > 0 {
			// an overflow that can really happen costs the whole attempt
			rep.SolverSecs += e.solveAll(wraps, quickSecs, 8)
			for _, o := range wraps {
				if o.Status != "proved" {
					if k := strings.TrimPrefix(o.Site, "wrap:"); !wrapAt[k] {
						wrapAt[k] = true
						again = true
					}
				}
			}
		}
		if again && round < 12 {
			continue
		}
		rep.SolverSecs += e.solveAll(e.obls, quickSecs, fullSecs)
		if !pool && os.Getenv("VCG_NOPOOL") == "" {
			// a few obligations that only ran out of time get a second, undisturbed attempt
			var open []*Obligation
			hard := false
			for _, o := range e.obls {
				if o.Status == "unknown" && !o.Cover {
					open = append(open, o)
				} else if o.Status != "proved" {
					hard = true
				}
			}
			if !hard && len(open) > 0 && len(open) <= 4 {
				for _, o := range open {
					o.Status = ""
				}
				rep.SolverSecs += e.solveList(open, quickSecs, 2*fullSecs, true)
			}
		}
		if pool && round < 12 {
			d := false
			for _, o := range e.obls {
				if o.Status != "proved" && strings.HasPrefix(o.Site, "inv:") {
					if k := strings.TrimPrefix(o.Site, "inv:"); !drop[k] {
						drop[k] = true
						d = true
					}
				}
			}
			if d {
				continue
			}
		}
		rep.Obls = e.obls
		rep.finish(e)
		for k := range wrapAt {
			rep.WrapAt = append(rep.WrapAt, k)
		}
		for k := range drop {
			rep.Dropped = append(rep.Dropped, k)
		}
		sort.Strings(rep.WrapAt)
		return rep
	}
}

func (r *FnReport) finish(e *Exec) {
	if e == nil {
		return
	}
	r.Notes = keys(e.notes)
	r.Used = keys(e.used)
	r.Inlined = keys(e.inlined)
	r.Lemmas = keys(e.lemmas)
	if e.rootFn != nil {
		p := e.w.Fset.Position(e.rootFn.Pos())
		r.Pos = fmt.Sprintf("%s:%d", shortFile(p.Filename), p.Line)
	}
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- lemmas and axioms ----

var axiomCut = -1            // lemmas with an index >= this are not available
var axiomOff map[string]bool // axioms left out (dropping an assumption is always sound)
var axiomFor string          // the function or lemma being verified
var axiomPkg string          // the package of the function being verified

func (w *World) lemmaExec() *Exec {
	return newExec(w, &Contract{Key: "lemma", Mode: "int"})
}

// loadAxioms turns the specification's definitions and auto lemmas into axioms.
func (w *World) loadAxioms() (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch z := r.(type) {
			case specErr:
				err = fmt.Errorf("axiom: %s", z.msg)
			case Unsupported:
				err = fmt.Errorf("axiom: %s", z.Msg)
			default:
				panic(r)
			}
		}
	}()
	e := w.lemmaExec()
	st := &State{mem: map[int]Val{}, ghost: map[string]*Term{}, frozen: map[int]bool{}}
	for _, a := range w.Spec.Axioms {
		env := &Env{e: e, vars: map[string]Val{}, st: st}
		t := e.evalBool(a.E, env)
		ax := &Axiom{Name: "spec:" + a.Name, T: t}
		for _, k := range a.Keys {
			if strings.HasPrefix(k, "@") {
				ax.Pkg = k[1:]
			} else {
				ax.Keys = append(ax.Keys, k)
			}
		}
		axioms = append(axioms, ax)
	}
	for i, n := range w.Spec.LemmaOrder {
		l := w.Spec.Lemmas[n]
		if !l.Auto {
			continue
		}
		env := &Env{e: e, vars: map[string]Val{}, st: st, pkg: l.Pkg}
		q := &Expr{K: "quant", Name: "forall", Vars: l.Vars, Trigs: l.Trigs, Args: []*Expr{l.Body}}
		t := e.evalBool(q, env)
		ks := map[string]bool{}
		for _, p := range t.Pats {
			for _, x := range p {
				var rec func(x *Term)
				rec = func(x *Term) {
					if x.Op == "app" {
						ks[x.Name] = true
					}
					for _, a := range x.Args {
						rec(a)
					}
				}
				rec(x)
			}
		}
		axioms = append(axioms, &Axiom{Name: "lemma:" + n, Keys: keys(ks), T: t, Ord: i + 1, Only: l.AutoFor})
	}
	return nil
}

func verifyLemma(w *World, l *Lemma) (rep *FnReport) {
	rep = &FnReport{Name: "lemma " + l.Name, Props: l.Props, IsLemma: true}
	if l.Trusted {
		rep.Notes = append(rep.Notes, "lemma "+l.Name+" is taken on trust")
		return
	}
	defer func() {
		if r := recover(); r != nil {
			switch z := r.(type) {
			case specErr:
				rep.Err = z.msg
			case specNil:
				rep.Err = z.msg
			case Unsupported:
				rep.Err = z.Msg
			default:
				panic(r)
			}
		}
	}()
	axiomFor = l.Name
	defer func() { axiomFor = "" }()
	e := w.lemmaExec()
	e.root.Key = "lemma." + l.Name
	if l.Mode != "" {
		e.mode = l.Mode
	}
	st := &State{mem: map[int]Val{}, ghost: map[string]*Term{}, frozen: map[int]bool{}}
	env := &Env{e: e, vars: map[string]Val{}, st: st, old: st, pkg: l.Pkg}
	for _, v := range l.Vars {
		s := e.idxSort()
		if v.Type != "int" {
			s = specSort(v.Type)
		}
		env.vars[v.Name] = Fresh(v.Name, s)
	}
	use := func(env *Env, st *State) {
		for _, u := range l.Uses {
			st.assume(e.evalBool(u, env))
		}
	}
	idx := 0
	for i, n := range w.Spec.LemmaOrder {
		if n == l.Name {
			idx = i
		}
	}
	if l.By == "" {
		s2 := st.clone()
		use(env.with(s2, s2), s2)
		e.oblige(s2, e.evalBool(l.Body, env), "lemma", "direct", nil)
	} else {
		k := env.vars[l.By].(*Term)
		from := IntC(0)
		if l.From != nil {
			from = e.evalTerm(l.From, env)
		}
		at := func(t *Term) *Env {
			n := *env
			n.vars = map[string]Val{}
			for a, b := range env.vars {
				n.vars[a] = b
			}
			n.vars[l.By] = t
			return &n
		}
		e.indLemma, e.indLow, e.indHigh = l.Name, from, from
		s1 := st.clone()
		use(at(from), s1)
		e.oblige(s1, e.evalBool(l.Body, at(from)), "lemma", "base", nil)
		s2 := st.clone()
		s2.assume(Le(from, k))
		// hypothesis at k, for the other variables as they are and for all
		s2.assume(e.evalBool(l.Body, env))
		var vs []*Term
		hy := at(k)
		for _, v := range l.Vars {
			if v.Name != l.By {
				b := BVar("ih'"+v.Name, env.vars[v.Name].(*Term).S)
				hy.vars[v.Name] = b
				vs = append(vs, b)
			}
		}
		if len(l.Trigs) > 0 && len(vs) > 0 {
			var pats [][]*Term
			for _, g := range l.Trigs {
				var p []*Term
				for _, t := range g {
					p = append(p, e.evalTerm(t, hy))
				}
				pats = append(pats, p)
			}
			s2.assume(Forall(vs, e.evalBool(l.Body, hy), pats...))
		}
		nx := at(Add(k, IntC(1)))
		e.indHigh = Add(k, IntC(1))
		use(nx, s2)
		e.oblige(s2, e.evalBool(l.Body, nx), "lemma", "step", nil)
	}
	// no circular use
	for u := range e.lemmas {
		for i, n := range w.Spec.LemmaOrder {
			if n == u && i >= idx {
				bad("lemma %s uses %s, which comes later", l.Name, u)
			}
		}
	}
	axiomCut = idx + 1
	defer func() { axiomCut = -1 }()
	rep.SolverSecs = e.solveAll(e.obls, quickSecs, fullSecs)
	rep.Obls = e.obls
	rep.finish(e)
	return
}
