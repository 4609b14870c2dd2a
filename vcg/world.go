package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the loaded program plus the specifications.
type World struct {
	Fset      *token.FileSet
	Prog      *ssa.Program
	Sizes     types.Sizes
	BigEndian bool
	Arch      string
	Spec      *SpecDB
	loopTab   map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	pkgs      map[string]*ssa.Package // repository packages by name
	all       map[string]*ssa.Package
	fns       map[string]*ssa.Function
	sentinels map[string]int64
	badErr    map[string]bool
	stored    map[*ssa.Global]bool
	storedOK  bool
}

const repoMod = "github.com/gogama/flatgeobuf"

var repoDir = "/repo"

func loadWorld(arch string, spec *SpecDB) (*World, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Tests: false}
	env := os.Environ()
	if arch != "" {
		env = append(env, "GOARCH="+arch, "CGO_ENABLED=0")
	}
	cfg.Env = env
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pk {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s", e)
		}
	}
	prog, _ := ssautil.AllPackages(pk, ssa.NaiveForm)
	w := &World{Fset: prog.Fset, Prog: prog, Arch: arch, Spec: spec, loopTab: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}, pkgs: map[string]*ssa.Package{}, all: map[string]*ssa.Package{}, fns: map[string]*ssa.Function{}, sentinels: map[string]int64{}, badErr: map[string]bool{}}
	w.BigEndian = arch == "s390x"
	w.Sizes = pk[0].TypesSizes
	for _, p := range prog.AllPackages() {
		w.all[p.Pkg.Path()] = p
		if strings.HasPrefix(p.Pkg.Path(), repoMod) {
			if strings.Contains(p.Pkg.Path(), "/testutil") {
				continue
			}
			w.pkgs[p.Pkg.Name()] = p
			p.Build()
		}
	}
	for _, p := range w.pkgs {
		w.indexFns(p)
	}
	if p := w.all["github.com/google/flatbuffers/go"]; p != nil { // contracts on the dependency
		p.Build()
		w.indexFns(p)
	}
	return w, nil
}

func (w *World) indexFns(p *ssa.Package) {
	add := func(f *ssa.Function) {
		if f == nil {
			return
		}
		var rec func(f *ssa.Function)
		rec = func(f *ssa.Function) {
			w.fns[w.fnKey(f)] = f
			for _, a := range f.AnonFuncs {
				rec(a)
			}
		}
		rec(f)
	}
	for _, m := range p.Members {
		switch x := m.(type) {
		case *ssa.Function:
			add(x)
		case *ssa.Type:
			for _, T := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := w.Prog.MethodSets.MethodSet(T)
				for i := 0; i < ms.Len(); i++ {
					f := w.Prog.MethodValue(ms.At(i))
					if f != nil && f.Synthetic == "" {
						add(f)
					}
				}
			}
		}
	}
}

func (w *World) function(key string) *ssa.Function { return w.fns[key] }

func (w *World) pkgByName(n string) *ssa.Package { return w.pkgs[n] }

func pkgOf(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	return nil
}

func recvName(T types.Type) string {
	if p, ok := T.(*types.Pointer); ok {
		T = p.Elem()
	}
	if n, ok := T.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func (w *World) fnKey(fn *ssa.Function) string {
	if fn.Parent() != nil {
		n := fn.Name()
		if i := strings.LastIndex(n, "$"); i >= 0 {
			n = n[i:]
		}
		return w.fnKey(fn.Parent()) + n
	}
	pn := ""
	if p := pkgOf(fn); p != nil {
		pn = p.Name() + "."
	}
	if r := fn.Signature.Recv(); r != nil {
		return pn + recvName(r.Type()) + "." + fn.Name()
	}
	if len(fn.Params) > 0 && strings.HasSuffix(fn.Synthetic, "thunk") {
		return pn + recvName(fn.Params[0].Type()) + "." + fn.Name() + "$thunk"
	}
	return pn + fn.Name()
}

func (w *World) contract(key string) *Contract {
	if w.BigEndian {
		if c := w.Spec.Contracts[key+"@be"]; c != nil {
			return c
		}
	}
	return w.Spec.Contracts[key]
}

func (w *World) inlinable(fn *ssa.Function) bool {
	p := pkgOf(fn)
	if p == nil {
		return fn.Synthetic != ""
	}
	if p.Path() == "container/heap" || p.Path() == "encoding/binary" || p.Path() == "math/bits" {
		return true
	}
	return strings.HasPrefix(p.Path(), repoMod) || strings.Contains(p.Path(), "google/flatbuffers")
}

func (w *World) isRepo(p *ssa.Package) bool {
	return p != nil && strings.HasPrefix(p.Pkg.Path(), repoMod)
}

func (w *World) sentinelNo(n string) int64 {
	if len(w.sentinels) == 0 {
		var all []string
		for _, p := range w.pkgs {
			for _, m := range p.Members {
				if g, ok := m.(*ssa.Global); ok && isErrType(g.Type().Underlying().(*types.Pointer).Elem()) {
					all = append(all, p.Pkg.Name()+"."+g.Name())
				}
			}
		}
		sort.Strings(all)
		for i, x := range all {
			w.sentinels[x] = int64(i + 1)
		}
	}
	return w.sentinels[n]
}

// checkErrGlobal: a sentinel error must be initialised once, by a call that
// makes a new error that wraps nothing, and never be stored again.
func (w *World) checkErrGlobal(g *ssa.Global) {
	if w.storedOutsideInit(g) {
		w.badErr[g.Name()] = true
		unsup("error variable %s is assigned outside package initialisation", g.Name())
	}
	ok := false
	for _, b := range g.Pkg.Func("init").Blocks {
		for _, in := range b.Instrs {
			if s, is := in.(*ssa.Store); is && s.Addr == g {
				c, isCall := s.Val.(*ssa.Call)
				if !isCall {
					unsup("error variable %s is not made by a call", g.Name())
				}
				f := c.Call.StaticCallee()
				if f == nil {
					unsup("error variable %s", g.Name())
				}
				key := w.fnKey(f)
				if key != "errors.New" && !(strings.HasPrefix(key, "packedrtree.") || strings.HasPrefix(key, "flatgeobuf.")) && key != "fmt.Errorf" {
					unsup("error variable %s is made by %s", g.Name(), key)
				}
				ok = true
			}
		}
	}
	if !ok {
		unsup("error variable %s has no initialiser", g.Name())
	}
}

func (w *World) storedOutsideInit(g *ssa.Global) bool {
	if !w.storedOK {
		w.storedOK = true
		w.stored = map[*ssa.Global]bool{}
		for _, p := range w.pkgs {
			_ = p
		}
		var chk func(v ssa.Value, g *ssa.Global, in ssa.Instruction)
		for f := range w.allRepoFns() {
			if f.Name() == "init" && f.Synthetic != "" {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if op == nil || *op == nil {
							continue
						}
						gg, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						chk(gg, gg, in)
						switch x := in.(type) {
						case *ssa.UnOp:
						case *ssa.IndexAddr, *ssa.FieldAddr:
							v := in.(ssa.Value)
							for _, r := range *v.Referrers() {
								if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
									continue
								}
								if _, ok := r.(*ssa.DebugRef); ok {
									continue
								}
								if fa, ok := r.(*ssa.FieldAddr); ok {
									lo := true
									for _, r2 := range *fa.Referrers() {
										if u, ok := r2.(*ssa.UnOp); !ok || u.Op != token.MUL {
											lo = false
										}
									}
									if lo {
										continue
									}
								}
								w.stored[gg] = true
							}
						case *ssa.Slice:
							// slicing an array variable: only reads are allowed
							for _, r := range *x.Referrers() {
								_ = r
							}
							w.stored[gg] = w.stored[gg] || !onlyRead(x)
						case *ssa.DebugRef:
						default:
							w.stored[gg] = true
						}
					}
				}
			}
		}
		_ = chk
	}
	return w.stored[g]
}

func onlyRead(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Call:
			// handed to a call: treated as reading it (copy, Write, Read comparisons)
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && x.Call.Args[0] == v {
				return false
			}
		case *ssa.Slice:
			if !onlyRead(x) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (w *World) allRepoFns() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range w.fns {
		out[f] = true
	}
	return out
}

func (w *World) typeByName(n string) types.Type {
	if b := types.Universe.Lookup(n); b != nil {
		return b.Type()
	}
	switch n {
	case "[]byte":
		return types.NewSlice(types.Typ[types.Byte])
	}
	if i := strings.Index(n, "."); i >= 0 {
		return w.lookupType(n[:i], n[i+1:])
	}
	bad("type %s", n)
	return nil
}

func (w *World) lookupType(pkg, name string) types.Type {
	ptr := false
	if strings.HasPrefix(name, "*") {
		ptr = true
		name = name[1:]
	}
	p := w.pkgByName(pkg)
	if p == nil {
		bad("package %s", pkg)
	}
	m, ok := p.Members[name].(*ssa.Type)
	if !ok {
		bad("type %s.%s", pkg, name)
	}
	if ptr {
		return types.NewPointer(m.Type())
	}
	return m.Type()
}

// runInit executes the package initialisers symbolically and keeps the values
// of the variables nothing else stores to.
func (e *Exec) runInit() *State {
	st := &State{mem: map[int]Val{}, ghost: map[string]*Term{}, frozen: map[int]bool{}}
	var names []string
	for n := range e.w.pkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	e.dry++
	defer func() { e.dry-- }()
	notes := e.notes
	e.notes = map[string]bool{}
	defer func() { e.notes = notes }()
	for _, n := range names {
		p := e.w.pkgs[n]
		fn := p.Func("init")
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*loopCtx{}}
		written := map[*ssa.Global]bool{}
		failed := map[*ssa.Global]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				e.initInstr(fr, st, in, written, failed)
			}
		}
		for g := range written {
			if failed[g] || e.w.storedOutsideInit(g) || isErrType(g.Type().Underlying().(*types.Pointer).Elem()) {
				continue
			}
			e.globVal[g] = st.mem[e.globals[g]]
		}
	}
	// only what the kept variables refer to survives; everything else is
	// made afresh when it is first looked at
	keep := map[int]bool{}
	var mark func(v Val)
	mark = func(v Val) {
		id := 0
		switch x := v.(type) {
		case *SliceV:
			id = x.Obj
		case *PtrV:
			id = x.Obj
		case *StructV:
			for _, f := range x.F {
				mark(f)
			}
		case *IfaceV:
			mark(x.V)
		}
		if id != 0 && !keep[id] {
			keep[id] = true
			mark(st.mem[id])
		}
	}
	for g, v := range e.globVal {
		keep[e.globals[g]] = true
		mark(v)
	}
	n := &State{mem: map[int]Val{}, ghost: map[string]*Term{}, frozen: map[int]bool{}, pc: st.pc}
	for id := range keep {
		n.mem[id] = st.mem[id]
	}
	return n
}

func (e *Exec) initInstr(fr *Frame, st *State, in ssa.Instruction, written, failed map[*ssa.Global]bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case Unsupported, specErr:
			case error, string:
			}
			if s, ok := in.(*ssa.Store); ok {
				if g := rootGlobal(s.Addr); g != nil {
					failed[g] = true
				}
			}
		}
	}()
	var outs []Outcome
	switch x := in.(type) {
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.Name() == "init" {
			return
		}
		e.call(fr, st, x, &outs)
		if len(outs) == 1 && !outs[0].panic && outs[0].st == st {
			if len(outs[0].vals) == 1 {
				fr.env[x] = outs[0].vals[0]
			} else {
				fr.env[x] = TupleV(outs[0].vals)
			}
		}
	case *ssa.Store:
		g := rootGlobal(x.Addr)
		if g != nil && g.Name() == "init$guard" {
			return
		}
		if g != nil {
			if _, ok := e.globals[g]; !ok {
				T := g.Type().Underlying().(*types.Pointer).Elem()
				o := e.newObj(T, false, g.Name())
				o.glob = g
				e.globals[g] = o.id
				if isErrType(T) {
					return
				}
				st.mem[o.id] = e.zero(T, st)
			}
			written[g] = true
		}
		e.store(e.get(fr, st, x.Addr).(*PtrV), e.get(fr, st, x.Val), st)
	case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef:
	case ssa.Value:
		if ia, ok := x.(*ssa.IndexAddr); ok {
			if g := rootGlobal(ia); g != nil {
				e.initGlobalObj(g, st)
			}
		}
		if fa, ok := x.(*ssa.FieldAddr); ok {
			if g := rootGlobal(fa); g != nil {
				e.initGlobalObj(g, st)
			}
		}
		e.value(fr, st, x, &outs)
	}
}

func (e *Exec) initGlobalObj(g *ssa.Global, st *State) {
	if _, ok := e.globals[g]; ok {
		return
	}
	T := g.Type().Underlying().(*types.Pointer).Elem()
	o := e.newObj(T, false, g.Name())
	o.glob = g
	e.globals[g] = o.id
	st.mem[o.id] = e.zero(T, st)
}

func rootGlobal(v ssa.Value) *ssa.Global {
	switch x := v.(type) {
	case *ssa.Global:
		return x
	case *ssa.FieldAddr:
		return rootGlobal(x.X)
	case *ssa.IndexAddr:
		return rootGlobal(x.X)
	}
	return nil
}

func (w *World) initValue(e *Exec, g *ssa.Global, st *State) Val { return nil }
