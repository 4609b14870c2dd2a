package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Sort is an SMT sort.
type Sort struct {
	Name string // printed form
	Elem *Sort  // arrays only
	Idx  *Sort
	Bits int // bit vectors only
}

var sortTab = map[string]*Sort{}

func mkSort(n string) *Sort {
	if s := sortTab[n]; s != nil {
		return s
	}
	s := &Sort{Name: n}
	sortTab[n] = s
	return s
}

var (
	SBool = mkSort("Bool")
	SInt  = mkSort("Int")
	SF64  = mkSort("F64")
	SF32  = mkSort("F32")
	SErr  = mkSort("Err")
	SAny  = mkSort("Any")
	SStr  = mkSort("Str")
)

func SBV(n int) *Sort {
	s := mkSort(fmt.Sprintf("(_ BitVec %d)", n))
	s.Bits = n
	return s
}

func SArr(elem *Sort) *Sort { return SArrI(SInt, elem) }
func SArrI(idx, elem *Sort) *Sort {
	s := mkSort("(Array " + idx.Name + " " + elem.Name + ")")
	s.Elem, s.Idx = elem, idx
	return s
}

// Term is a hash-consed SMT term.
type Term struct {
	Op   string // "sym","int","bv","app","forall","exists","var", or builtin op
	Name string
	Args []*Term
	S    *Sort
	Val  *big.Int
	Vars []*Term   // quantifiers
	Pats [][]*Term // triggers
	id   int
	hasV bool // contains bound variables
}

var termTab = map[string]*Term{}
var termCount int

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteString(t.Name)
	sb.WriteByte('|')
	sb.WriteString(t.S.Name)
	if t.Val != nil {
		sb.WriteByte('|')
		sb.WriteString(t.Val.String())
	}
	for _, a := range t.Args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	for _, a := range t.Vars {
		fmt.Fprintf(&sb, ";%d", a.id)
	}
	for _, p := range t.Pats {
		sb.WriteByte('{')
		for _, a := range p {
			fmt.Fprintf(&sb, ",%d", a.id)
		}
	}
	k := sb.String()
	if x := termTab[k]; x != nil {
		return x
	}
	termCount++
	t.id = termCount
	for _, a := range t.Args {
		if a.hasV {
			t.hasV = true
		}
	}
	if t.Op == "var" {
		t.hasV = true
	}
	if t.Op == "forall" || t.Op == "exists" {
		// hasV iff a free variable remains
		t.hasV = len(freeVars(t)) > 0
	}
	termTab[k] = t
	return t
}

func freeVars(t *Term) map[*Term]bool {
	out := map[*Term]bool{}
	var rec func(t *Term, bound map[*Term]bool)
	rec = func(t *Term, bound map[*Term]bool) {
		if t.Op == "var" {
			if !bound[t] {
				out[t] = true
			}
			return
		}
		if t.Op == "forall" || t.Op == "exists" {
			nb := map[*Term]bool{}
			for k := range bound {
				nb[k] = true
			}
			for _, v := range t.Vars {
				nb[v] = true
			}
			bound = nb
		} else if !t.hasV {
			return
		}
		for _, a := range t.Args {
			rec(a, bound)
		}
	}
	rec(t, map[*Term]bool{})
	return out
}

type FuncDecl struct {
	Name string
	Args []*Sort
	Ret  *Sort
	Def  string // optional define-fun body
}

var funcDecls = map[string]*FuncDecl{}

func declFun(name string, ret *Sort, args ...*Sort) *FuncDecl {
	if f := funcDecls[name]; f != nil {
		return f
	}
	f := &FuncDecl{Name: name, Args: args, Ret: ret}
	funcDecls[name] = f
	return f
}

func App(name string, args ...*Term) *Term {
	f := funcDecls[name]
	if f == nil {
		panic("undeclared function " + name)
	}
	if len(args) != len(f.Args) {
		panic(fmt.Sprintf("function %s: want %d args, have %d", name, len(f.Args), len(args)))
	}
	for i, a := range args {
		if a.S != f.Args[i] {
			panic(fmt.Sprintf("function %s: arg %d has sort %s, want %s", name, i, a.S.Name, f.Args[i].Name))
		}
	}
	if len(args) == 0 {
		return Sym(name, f.Ret)
	}
	return intern(&Term{Op: "app", Name: name, Args: args, S: f.Ret})
}

func Sym(name string, s *Sort) *Term  { return intern(&Term{Op: "sym", Name: name, S: s}) }
func BVar(name string, s *Sort) *Term { return intern(&Term{Op: "var", Name: name, S: s}) }

var freshN int

func Fresh(hint string, s *Sort) *Term {
	freshN++
	hint = strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '$' {
			return r
		}
		return '_'
	}, hint)
	return Sym(fmt.Sprintf("%s!%d", hint, freshN), s)
}

var (
	True  = intern(&Term{Op: "true", S: SBool})
	False = intern(&Term{Op: "false", S: SBool})
)

func IntC(n int64) *Term    { return BigC(big.NewInt(n)) }
func BigC(n *big.Int) *Term { return intern(&Term{Op: "int", S: SInt, Val: n}) }
func BVC(n *big.Int, w int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	v := new(big.Int).Mod(n, m)
	return intern(&Term{Op: "bv", S: SBV(w), Val: v})
}
func BVCi(n int64, w int) *Term { return BVC(big.NewInt(n), w) }

func BoolC(b bool) *Term {
	if b {
		return True
	}
	return False
}

func mk(op string, s *Sort, args ...*Term) *Term {
	return intern(&Term{Op: op, S: s, Args: args})
}

func (t *Term) isC() bool { return t.Val != nil }

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.Op == "not":
		return a.Args[0]
	}
	return mk("not", SBool, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == True || seen[a] {
			return true
		}
		if a == False {
			return false
		}
		if a.Op == "and" {
			for _, b := range a.Args {
				if !add(b) {
					return false
				}
			}
			return true
		}
		if seen[Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if a.S != SBool {
			panic("And of " + a.S.Name + ": " + a.String())
		}
		if !add(a) {
			return False
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return mk("and", SBool, out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a == False || seen[a] {
			continue
		}
		if a == True || seen[Not(a)] {
			return True
		}
		if a.Op == "or" {
			for _, b := range a.Args {
				if !seen[b] {
					seen[b] = true
					out = append(out, b)
				}
			}
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return mk("or", SBool, out...)
}

func Imp(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True || a == b {
		return True
	}
	if b == False {
		return Not(a)
	}
	if b.Op == "=>" {
		return Imp(And(a, b.Args[0]), b.Args[1])
	}
	return mk("=>", SBool, a, b)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.S != b.S {
		panic(fmt.Sprintf("Eq of %s and %s: %s == %s", a.S.Name, b.S.Name, a, b))
	}
	if a.isC() && b.isC() {
		return BoolC(a.Val.Cmp(b.Val) == 0)
	}
	if a.S == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.S == SInt {
		ba, ca := splitC(a)
		bb, cb := splitC(b)
		if ba == bb && ba != nil {
			return BoolC(ca.Cmp(cb) == 0)
		}
	}
	if a.Op == "ite" && b.isC() && a.Args[1].isC() && a.Args[2].isC() {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", SBool, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.S != b.S {
		panic("Ite sorts " + a.S.Name + " " + b.S.Name)
	}
	if a == True && b == False {
		return c
	}
	if a == False && b == True {
		return Not(c)
	}
	if a.S == SBool {
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
	}
	return mk("ite", a.S, c, a, b)
}

// splitC splits an Int term into base + constant.
func splitC(a *Term) (*Term, *big.Int) {
	if a.Op == "int" {
		return nil, a.Val
	}
	if a.Op == "+" && len(a.Args) == 2 && a.Args[1].Op == "int" {
		return a.Args[0], a.Args[1].Val
	}
	return a, big.NewInt(0)
}

// linear normal form: map term->coeff plus const
type lin struct {
	m map[*Term]*big.Int
	c *big.Int
}

func toLin(a *Term) lin {
	l := lin{map[*Term]*big.Int{}, new(big.Int)}
	var rec func(a *Term, k *big.Int)
	rec = func(a *Term, k *big.Int) {
		switch {
		case a.Op == "int":
			l.c.Add(l.c, new(big.Int).Mul(a.Val, k))
		case a.Op == "+":
			for _, x := range a.Args {
				rec(x, k)
			}
		case a.Op == "-" && len(a.Args) == 2:
			rec(a.Args[0], k)
			rec(a.Args[1], new(big.Int).Neg(k))
		case a.Op == "*" && a.Args[0].Op == "int":
			rec(a.Args[1], new(big.Int).Mul(k, a.Args[0].Val))
		default:
			if o := l.m[a]; o != nil {
				l.m[a] = new(big.Int).Add(o, k)
			} else {
				l.m[a] = new(big.Int).Set(k)
			}
		}
	}
	rec(a, big.NewInt(1))
	return l
}

func fromLin(l lin) *Term {
	var keys []*Term
	for k, v := range l.m {
		if v.Sign() != 0 {
			keys = append(keys, k)
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	var pos []*Term
	for _, k := range keys {
		v := l.m[k]
		if v.IsInt64() && v.Int64() == 1 {
			pos = append(pos, k)
		} else {
			pos = append(pos, mk("*", SInt, BigC(v), k))
		}
	}
	if len(pos) == 0 {
		return BigC(l.c)
	}
	var base *Term
	if len(pos) == 1 {
		base = pos[0]
	} else {
		base = mk("+", SInt, pos...)
	}
	if l.c.Sign() == 0 {
		return base
	}
	return mk("+", SInt, base, BigC(l.c))
}

func Add(a, b *Term) *Term {
	la, lb := toLin(a), toLin(b)
	for k, v := range lb.m {
		if o := la.m[k]; o != nil {
			la.m[k] = new(big.Int).Add(o, v)
		} else {
			la.m[k] = v
		}
	}
	la.c = new(big.Int).Add(la.c, lb.c)
	return fromLin(la)
}

func Neg(a *Term) *Term    { return Mul(IntC(-1), a) }
func Sub(a, b *Term) *Term { return Add(a, Neg(b)) }

func Mul(a, b *Term) *Term {
	if b.Op == "int" {
		a, b = b, a
	}
	if a.Op == "int" {
		l := toLin(b)
		for k, v := range l.m {
			l.m[k] = new(big.Int).Mul(v, a.Val)
		}
		l.c = new(big.Int).Mul(l.c, a.Val)
		return fromLin(l)
	}
	// distribute over sums so that equal products get equal terms
	if a.Op == "+" {
		r := IntC(0)
		for _, x := range a.Args {
			r = Add(r, Mul(x, b))
		}
		return r
	}
	if b.Op == "+" {
		r := IntC(0)
		for _, x := range b.Args {
			r = Add(r, Mul(a, x))
		}
		return r
	}
	if a.Op == "*" && a.Args[0].Op == "int" {
		return Mul(a.Args[0], Mul(a.Args[1], b))
	}
	if b.Op == "*" && b.Args[0].Op == "int" {
		return Mul(b.Args[0], Mul(a, b.Args[1]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("*", SInt, a, b)
}

// DivC: floor division by a positive constant; ModC likewise.
func DivC(a *Term, c *big.Int) *Term {
	if c.IsInt64() && c.Int64() == 1 {
		return a
	}
	if a.Op == "int" {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.Val, c, m)
		return BigC(q)
	}
	l := toLin(a)
	ok := true
	for _, v := range l.m {
		if new(big.Int).Mod(v, c).Sign() != 0 {
			ok = false
		}
	}
	if ok {
		for k, v := range l.m {
			l.m[k] = new(big.Int).Div(v, c)
		}
		l.c = new(big.Int).Div(l.c, c) // Euclidean = floor for c>0
		return fromLin(l)
	}
	return mk("div", SInt, a, BigC(c))
}

func ModC(a *Term, c *big.Int) *Term {
	if a.Op == "int" {
		return BigC(new(big.Int).Mod(a.Val, c))
	}
	l := toLin(a)
	all := true
	for k, v := range l.m {
		r := new(big.Int).Mod(v, c)
		if r.Sign() == 0 {
			delete(l.m, k)
		} else {
			all = false
		}
	}
	l.c = new(big.Int).Mod(l.c, c)
	if all {
		return BigC(l.c)
	}
	return mk("mod", SInt, fromLin(l), BigC(c))
}

func Le(a, b *Term) *Term {
	if a == b {
		return True
	}
	l := toLin(Sub(b, a))
	z := true
	for _, v := range l.m {
		if v.Sign() != 0 {
			z = false
		}
	}
	if z {
		return BoolC(l.c.Sign() >= 0)
	}
	return mk("<=", SBool, a, b)
}
func Lt(a, b *Term) *Term {
	if a == b {
		return False
	}
	l := toLin(Sub(b, a))
	z := true
	for _, v := range l.m {
		if v.Sign() != 0 {
			z = false
		}
	}
	if z {
		return BoolC(l.c.Sign() > 0)
	}
	return mk("<", SBool, a, b)
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Select(a, i *Term) *Term {
	if a.S.Elem == nil {
		panic("select on " + a.S.Name)
	}
	if i.S != a.S.Idx {
		panic("select index " + i.S.Name + " on " + a.S.Name)
	}
	for {
		if a.Op == "store" {
			j := a.Args[1]
			e := Eq(i, j)
			if e == True {
				return a.Args[2]
			}
			if e == False {
				a = a.Args[0]
				continue
			}
		}
		if a.Op == "constarr" {
			return a.Args[0]
		}
		break
	}
	return mk("select", a.S.Elem, a, i)
}

func Store(a, i, v *Term) *Term {
	if a.S.Elem != v.S {
		panic("store " + v.S.Name + " into " + a.S.Name)
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return mk("store", a.S, a, i, v)
}

func ConstArr(s *Sort, v *Term) *Term { return mk("constarr", s, v) }

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body == True || body == False || len(vars) == 0 {
		return body
	}
	return intern(&Term{Op: "forall", S: SBool, Vars: vars, Args: []*Term{body}, Pats: pats})
}
func Exists(vars []*Term, body *Term) *Term {
	if body == True || body == False || len(vars) == 0 {
		return body
	}
	return intern(&Term{Op: "exists", S: SBool, Vars: vars, Args: []*Term{body}})
}

// Subst replaces bound variables / symbols.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args, rec)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term, rec func(*Term) *Term) *Term {
	switch t.Op {
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "not":
		return Not(args[0])
	case "=>":
		return Imp(args[0], args[1])
	case "=":
		return Eq(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "+":
		r := args[0]
		for _, a := range args[1:] {
			r = Add(r, a)
		}
		return r
	case "*":
		return Mul(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "div":
		return DivC(args[0], args[1].Val)
	case "mod":
		return ModC(args[0], args[1].Val)
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	}
	n := *t
	n.Args = args
	n.hasV = false
	if t.Op == "forall" || t.Op == "exists" {
		n.Pats = nil
		for _, p := range t.Pats {
			var q []*Term
			for _, x := range p {
				q = append(q, rec(x))
			}
			n.Pats = append(n.Pats, q)
		}
	}
	return intern(&n)
}

// ---- printing ----

func quoteSym(s string) string {
	ok := true
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.!$-+", r)) {
			ok = false
		}
	}
	if ok && s != "" && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	return "|" + s + "|"
}

func (t *Term) head() string {
	switch t.Op {
	case "sym", "var":
		return quoteSym(t.Name)
	case "int":
		if t.Val.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.Val).String() + ")"
		}
		return t.Val.String()
	case "bv":
		return fmt.Sprintf("(_ bv%s %d)", t.Val.String(), t.S.Bits)
	case "true", "false":
		return t.Op
	}
	return ""
}

// String prints without sharing (for messages).
func (t *Term) String() string {
	s := printTerm(t, nil)
	if len(s) > 2000 {
		return s[:2000] + "..."
	}
	return s
}

func printTerm(t *Term, names map[*Term]string) string {
	var sb strings.Builder
	var rec func(t *Term)
	rec = func(t *Term) {
		if sb.Len() > 1<<22 && names == nil {
			return
		}
		if names != nil {
			if n, ok := names[t]; ok {
				sb.WriteString(n)
				return
			}
		}
		if h := t.head(); h != "" {
			sb.WriteString(h)
			return
		}
		switch t.Op {
		case "forall", "exists":
			sb.WriteString("(" + t.Op + " (")
			for i, v := range t.Vars {
				if i > 0 {
					sb.WriteByte(' ')
				}
				sb.WriteString("(" + quoteSym(v.Name) + " " + v.S.Name + ")")
			}
			sb.WriteString(") ")
			if len(t.Pats) > 0 {
				sb.WriteString("(! ")
			}
			rec(t.Args[0])
			if len(t.Pats) > 0 {
				for _, p := range t.Pats {
					sb.WriteString(" :pattern (")
					for i, x := range p {
						if i > 0 {
							sb.WriteByte(' ')
						}
						rec(x)
					}
					sb.WriteString(")")
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
			return
		case "constarr":
			sb.WriteString("((as const " + t.S.Name + ") ")
			rec(t.Args[0])
			sb.WriteString(")")
			return
		}
		sb.WriteByte('(')
		if t.Op == "app" {
			sb.WriteString(quoteSym(t.Name))
		} else {
			sb.WriteString(t.Op)
		}
		for _, a := range t.Args {
			sb.WriteByte(' ')
			rec(a)
		}
		sb.WriteByte(')')
	}
	rec(t)
	return sb.String()
}

// Axiom is a global fact included when one of its symbols is used.
type Axiom struct {
	Name string
	T    *Term
	Keys []string // included when any of these function symbols occurs
	Ord  int      // 1 + index for lemmas, 0 for definitions
	Pkg  string   // only while verifying functions of this package
	Only []string // if set, only while verifying these
}

var axioms []*Axiom

func collectSyms(ts []*Term, syms map[*Term]bool, funs map[string]bool, sorts map[*Sort]bool, seen map[*Term]bool) {
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		sorts[t.S] = true
		switch t.Op {
		case "sym":
			syms[t] = true
		case "app":
			funs[t.Name] = true
		}
		for _, v := range t.Vars {
			sorts[v.S] = true
		}
		for _, a := range t.Args {
			rec(a)
		}
		for _, p := range t.Pats {
			for _, a := range p {
				rec(a)
			}
		}
	}
	for _, t := range ts {
		rec(t)
	}
}

// Query renders an SMT-LIB query asserting that assumptions hold and goal does not.
func Query(assum []*Term, goal *Term, getModel bool) string {
	neg := Not(goal)
	roots := append(append([]*Term{}, assum...), neg)
	syms, funs, sorts := map[*Term]bool{}, map[string]bool{}, map[*Sort]bool{}
	seen := map[*Term]bool{}
	collectSyms(roots, syms, funs, sorts, seen)
	used := map[*Axiom]bool{}
	var axs []*Term
	for {
		ch := false
		for _, ax := range axioms {
			if used[ax] || axiomCut >= 0 && ax.Ord >= axiomCut || ax.Pkg != "" && ax.Pkg != axiomPkg || axiomOff[ax.Name] || ax.Only != nil && !contains(ax.Only, axiomFor) {
				continue
			}
			hit := false
			for _, k := range ax.Keys {
				if funs[k] {
					hit = true
				} else {
					for s := range syms {
						if s.Name == k {
							hit = true
							break
						}
					}
				}
				if hit {
					break
				}
			}
			if hit {
				used[ax] = true
				axMu.Lock()
				axUsed[ax.Name] = true
				axMu.Unlock()
				axs = append(axs, ax.T)
				collectSyms([]*Term{ax.T}, syms, funs, sorts, seen)
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	all := append(append([]*Term{}, axs...), roots...)
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	for _, s := range []*Sort{SF64, SF32, SErr, SAny, SStr} {
		sb.WriteString("(declare-sort " + s.Name + " 0)\n")
	}
	var fn []string
	for f := range funs {
		fn = append(fn, f)
	}
	sort.Strings(fn)
	for _, f := range fn {
		d := funcDecls[f]
		var as []string
		for _, a := range d.Args {
			as = append(as, a.Name)
		}
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", quoteSym(f), strings.Join(as, " "), d.Ret.Name)
	}
	var sl []*Term
	for s := range syms {
		sl = append(sl, s)
	}
	sort.Slice(sl, func(i, j int) bool { return sl[i].id < sl[j].id })
	for _, s := range sl {
		fmt.Fprintf(&sb, "(declare-const %s %s)\n", quoteSym(s.Name), s.S.Name)
	}
	// shared ground subterms
	refs := map[*Term]int{}
	var order []*Term
	vis := map[*Term]bool{}
	var cnt func(t *Term)
	cnt = func(t *Term) {
		refs[t]++
		if vis[t] {
			return
		}
		vis[t] = true
		for _, a := range t.Args {
			cnt(a)
		}
		for _, p := range t.Pats {
			for _, a := range p {
				cnt(a)
			}
		}
		order = append(order, t)
	}
	for _, t := range all {
		cnt(t)
	}
	names := map[*Term]string{}
	for _, t := range order {
		if refs[t] > 1 && !t.hasV && len(t.Args) > 0 && t.Op != "forall" && t.Op != "exists" {
			n := fmt.Sprintf("$t%d", t.id)
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, t.S.Name, printTerm(t, names))
			names[t] = n
		}
	}
	for _, t := range all {
		fmt.Fprintf(&sb, "(assert %s)\n", printTerm(t, names))
	}
	sb.WriteString("(check-sat)\n")
	if getModel {
		sb.WriteString("(get-model)\n")
	}
	return sb.String()
}
