package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Expr is a specification expression.
type Expr struct {
	K     string // "num","name","sel","idx","slice","call","un","bin","if","let","quant","old","str","chain"
	Name  string
	Args  []*Expr
	Vars  []BoundVar
	Trigs [][]*Expr
	Src   string
}

type BoundVar struct{ Name, Type string }

type tok struct {
	k string // "id","num","op","str","eof"
	s string
	p int
}

func lex(s string) ([]tok, error) {
	var out []tok
	ops := []string{"<==>", "==>", "<<", ">>", "&&", "||", "==", "!=", "<=", ">=", "::", "&^"}
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				j++
			}
			out = append(out, tok{"str", s[i+1 : j], i})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == 'x' || s[j] >= 'a' && s[j] <= 'f' || s[j] >= 'A' && s[j] <= 'F') {
				j++
			}
			out = append(out, tok{"num", s[i:j], i})
			i = j
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$':
			j := i
			for j < len(s) && (s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] == '_' || s[j] == '$' || s[j] == '\'' || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			out = append(out, tok{"id", s[i:j], i})
			i = j
		default:
			hit := false
			for _, o := range ops {
				if strings.HasPrefix(s[i:], o) {
					out = append(out, tok{"op", o, i})
					i += len(o)
					hit = true
					break
				}
			}
			if !hit {
				if !strings.ContainsRune("+-*/%()[]{},.:<>!&|^~=", rune(c)) {
					return nil, fmt.Errorf("bad character %q", c)
				}
				out = append(out, tok{"op", string(c), i})
				i++
			}
		}
	}
	out = append(out, tok{"eof", "", len(s)})
	return out, nil
}

type parser struct {
	toks []tok
	i    int
	src  string
}

func (p *parser) peek() tok { return p.toks[p.i] }
func (p *parser) is(s string) bool {
	t := p.peek()
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (p *parser) acc(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) want(s string) {
	if !p.acc(s) {
		panic(fmt.Sprintf("spec syntax: want %q at %q", s, p.src[p.peek().p:]))
	}
}
func (p *parser) ident() string {
	t := p.peek()
	if t.k != "id" {
		panic(fmt.Sprintf("spec syntax: want identifier at %q", p.src[t.p:]))
	}
	p.i++
	return t.s
}

func ParseExpr(s string) (e *Expr, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v in %q", r, s)
		}
	}()
	ts, err := lex(s)
	if err != nil {
		return nil, fmt.Errorf("%v in %q", err, s)
	}
	p := &parser{toks: ts, src: s}
	e = p.expr()
	if p.peek().k != "eof" {
		return nil, fmt.Errorf("trailing input %q in %q", s[p.peek().p:], s)
	}
	e.Src = s
	return e, nil
}

func (p *parser) expr() *Expr { return p.iff() }

func (p *parser) iff() *Expr {
	l := p.imp()
	for p.acc("<==>") {
		r := p.imp()
		l = &Expr{K: "bin", Name: "<==>", Args: []*Expr{l, r}}
	}
	return l
}
func (p *parser) imp() *Expr {
	l := p.or()
	if p.acc("==>") {
		r := p.imp()
		return &Expr{K: "bin", Name: "==>", Args: []*Expr{l, r}}
	}
	return l
}
func (p *parser) or() *Expr {
	l := p.and()
	for p.acc("||") {
		l = &Expr{K: "bin", Name: "||", Args: []*Expr{l, p.and()}}
	}
	return l
}
func (p *parser) and() *Expr {
	l := p.cmp()
	for p.acc("&&") {
		l = &Expr{K: "bin", Name: "&&", Args: []*Expr{l, p.cmp()}}
	}
	return l
}
func (p *parser) cmp() *Expr {
	l := p.bor()
	var conj *Expr
	for {
		op := ""
		for _, o := range []string{"==", "!=", "<=", ">=", "<", ">"} {
			if p.is(o) {
				op = o
				break
			}
		}
		if op == "" {
			break
		}
		p.i++
		r := p.bor()
		c := &Expr{K: "bin", Name: op, Args: []*Expr{l, r}}
		if conj == nil {
			conj = c
		} else {
			conj = &Expr{K: "bin", Name: "&&", Args: []*Expr{conj, c}}
		}
		l = r
	}
	if conj != nil {
		return conj
	}
	return l
}
func (p *parser) bor() *Expr {
	l := p.add()
	for {
		switch {
		case p.is("|"), p.is("^"), p.is("&"), p.is("<<"), p.is(">>"):
			op := p.peek().s
			p.i++
			l = &Expr{K: "bin", Name: op, Args: []*Expr{l, p.add()}}
		default:
			return l
		}
	}
}
func (p *parser) add() *Expr {
	l := p.mul()
	for p.is("+") || p.is("-") {
		op := p.peek().s
		p.i++
		l = &Expr{K: "bin", Name: op, Args: []*Expr{l, p.mul()}}
	}
	return l
}
func (p *parser) mul() *Expr {
	l := p.unary()
	for p.is("*") || p.is("/") || p.is("%") {
		op := p.peek().s
		p.i++
		l = &Expr{K: "bin", Name: op, Args: []*Expr{l, p.unary()}}
	}
	return l
}
func (p *parser) unary() *Expr {
	for _, o := range []string{"!", "-", "~", "*", "&"} {
		if p.acc(o) {
			return &Expr{K: "un", Name: o, Args: []*Expr{p.unary()}}
		}
	}
	return p.postfix()
}
func (p *parser) postfix() *Expr {
	e := p.primary()
	for {
		switch {
		case p.acc("."):
			e = &Expr{K: "sel", Name: p.ident(), Args: []*Expr{e}}
		case p.acc("["):
			if p.acc("*") {
				p.want("]")
				e = &Expr{K: "idxall", Args: []*Expr{e}}
				continue
			}
			i := p.expr()
			p.want("]")
			e = &Expr{K: "idx", Args: []*Expr{e, i}}
		default:
			return e
		}
	}
}
func (p *parser) primary() *Expr {
	t := p.peek()
	switch {
	case t.k == "num":
		p.i++
		return &Expr{K: "num", Name: t.s}
	case t.k == "str":
		p.i++
		return &Expr{K: "str", Name: t.s}
	case p.acc("("):
		e := p.expr()
		p.want(")")
		return e
	case p.is("if"):
		p.i++
		c := p.expr()
		p.want("then")
		a := p.expr()
		p.want("else")
		b := p.expr()
		return &Expr{K: "if", Args: []*Expr{c, a, b}}
	case p.is("let"):
		p.i++
		n := p.ident()
		p.want("=")
		v := p.expr()
		p.want("in")
		b := p.expr()
		return &Expr{K: "let", Name: n, Args: []*Expr{v, b}}
	case p.is("forall"), p.is("exists"):
		q := t.s
		p.i++
		var vs []BoundVar
		for {
			n := p.ident()
			vs = append(vs, BoundVar{n, ""})
			if p.acc(":") {
				ty := p.ident()
				for i := range vs {
					if vs[i].Type == "" {
						vs[i].Type = ty
					}
				}
			}
			if !p.acc(",") {
				break
			}
		}
		for i := range vs {
			if vs[i].Type == "" {
				vs[i].Type = "int"
			}
		}
		var tr [][]*Expr
		for p.acc("{") {
			var g []*Expr
			for {
				g = append(g, p.expr())
				if !p.acc(",") {
					break
				}
			}
			p.want("}")
			tr = append(tr, g)
		}
		p.want("::")
		b := p.expr()
		return &Expr{K: "quant", Name: q, Vars: vs, Trigs: tr, Args: []*Expr{b}}
	case t.k == "id":
		p.i++
		if p.acc("(") {
			var args []*Expr
			if !p.acc(")") {
				for {
					args = append(args, p.expr())
					if !p.acc(",") {
						break
					}
				}
				p.want(")")
			}
			if t.s == "old" {
				return &Expr{K: "old", Args: args}
			}
			return &Expr{K: "call", Name: t.s, Args: args}
		}
		return &Expr{K: "name", Name: t.s}
	}
	panic(fmt.Sprintf("spec syntax: unexpected %q", p.src[t.p:]))
}

// ---- spec files ----

type Clause struct {
	Label string
	E     *Expr
	Src   string
	Props []string // properties this clause belongs to (default: function's)
}

type LoopSpec struct {
	Fn     string // for loops of inlined functions: function name, "" = own
	Ord    int
	Inv    []Clause
	Dec    *Clause
	Ghost  []GhostUpd
	NoTerm bool
}

type GhostUpd struct {
	Sort string
	Name string
	E    *Expr
}

type GhostDecl struct {
	Name string
	Type string
	Init *Expr
}

type Contract struct {
	Key         string // package-qualified function key, e.g. packedrtree.Box.Expand
	Pkg         string
	Params      []string
	Results     []string
	Mode        string // "int" or "bv"
	Trusted     bool
	Inline      bool
	MayPanic    bool
	OwnPanics   bool   // maypanic calls: only callees may panic
	InlineCalls bool   // verified, but callers see the body
	Assume      string // reason, for trusted
	Req         []Clause
	Ens         []Clause
	Mod         []Clause
	Panics      *Clause // panics exactly when (allowed panics)
	Loops       []*LoopSpec
	Ghosts      []GhostDecl
	Apply       []Clause
	Props       []string
	Config      []Clause // "config x = fn" initial bindings
	Arch        string   // "" all, "le", "be"
	NoFrame     bool
	Variant     string
	Alias       map[string]string
	Dec         *Clause // recursion measure
	File        string
	Line        int
	RetGhost    []GhostUpd
	PanicsMay   bool // may panic under the condition (not must)
	NoVerify    bool
	Skip        []string // obligation kinds not generated (documented)
	Omit        []string // axioms and auto lemmas left out of the first attempt
}

type Macro struct {
	Name   string
	Params []string
	Body   *Expr
}

type Lemma struct {
	Pkg     string
	Name    string
	Vars    []BoundVar
	Body    *Expr
	By      string  // "" direct, or induction variable
	From    *Expr   // induction base value
	Uses    []*Expr // instances: call expressions of other lemmas / itself
	Props   []string
	Auto    bool     // available as a quantified axiom everywhere
	AutoFor []string // or only in these functions and lemmas
	Trigs   [][]*Expr
	Trusted bool
	Mode    string
}

type SpecDB struct {
	Contracts  map[string]*Contract
	Macros     map[string]*Macro
	Lemmas     map[string]*Lemma
	Order      []string
	LemmaOrder []string
	Axioms     []AxiomSpec
	Funs       map[string][]string
}

type AxiomSpec struct {
	Name string
	E    *Expr
	Keys []string
}

func NewSpecDB() *SpecDB {
	return &SpecDB{Contracts: map[string]*Contract{}, Macros: map[string]*Macro{}, Lemmas: map[string]*Lemma{}, Funs: map[string][]string{}}
}

var topKw = map[string]bool{"func": true, "def": true, "fun": true, "axiom": true, "lemma": true, "package": true, "assume": true}
var clauseKw = map[string]bool{"requires": true, "ensures": true, "modifies": true, "panics": true, "maypanic": true, "trusted": true, "inline": true, "inlinecalls": true, "loop": true, "invariant": true, "decreases": true, "ghost": true, "apply": true, "prop": true, "mode": true, "config": true, "arch": true, "noframe": true, "alias": true, "measure": true, "uses": true, "by": true, "auto": true, "returnghost": true, "panicsmay": true, "noverify": true, "noterm": true, "skip": true, "omit": true, "trigger": true}

func (db *SpecDB) LoadDir(dir string) error {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		if err := db.load(f, string(b)); err != nil {
			return err
		}
	}
	return nil
}

func splitNames(s string) []string {
	var out []string
	for _, x := range strings.Split(s, ",") {
		x = strings.TrimSpace(x)
		if x != "" {
			out = append(out, strings.Fields(x)[0])
		}
	}
	return out
}

func splitVars(s string) []BoundVar {
	var out []BoundVar
	for _, x := range strings.Split(s, ",") {
		f := strings.Fields(strings.ReplaceAll(x, ":", " "))
		if len(f) == 1 {
			out = append(out, BoundVar{f[0], "int"})
		} else if len(f) == 2 {
			out = append(out, BoundVar{f[0], f[1]})
		}
	}
	return out
}

func (db *SpecDB) load(file, src string) (err error) {
	type ln struct {
		kw, rest string
		n        int
	}
	var lines []ln
	for n, raw := range strings.Split(src, "\n") {
		if i := strings.Index(raw, "//"); i >= 0 {
			raw = raw[:i]
		}
		t := strings.TrimSpace(raw)
		if t == "" {
			continue
		}
		f := strings.Fields(t)
		if topKw[f[0]] || clauseKw[f[0]] {
			lines = append(lines, ln{f[0], strings.TrimSpace(t[len(f[0]):]), n + 1})
		} else if len(lines) > 0 {
			lines[len(lines)-1].rest += " " + t
		} else {
			return fmt.Errorf("%s:%d: unexpected %q", file, n+1, t)
		}
	}
	pkg := ""
	var c *Contract
	var lp *LoopSpec
	var lm *Lemma
	bad := func(l ln, f string, a ...interface{}) error {
		return fmt.Errorf("%s:%d: %s", file, l.n, fmt.Sprintf(f, a...))
	}
	ex := func(l ln, s string) (*Expr, error) {
		e, err := ParseExpr(s)
		if err != nil {
			return nil, bad(l, "%v", err)
		}
		return e, nil
	}
	clause := func(l ln) (Clause, error) {
		s := l.rest
		cl := Clause{}
		// [Cxx,Cyy] prefix, label: prefix
		if strings.HasPrefix(s, "[") {
			j := strings.Index(s, "]")
			cl.Props = splitNames(s[1:j])
			s = strings.TrimSpace(s[j+1:])
		}
		if j := strings.Index(s, ":"); j > 0 && j < 60 && !strings.HasPrefix(s[j:], "::") {
			lab := strings.TrimSpace(s[:j])
			ok := lab != ""
			for _, r := range lab {
				if !(r == '-' || r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9') {
					ok = false
				}
			}
			if ok {
				cl.Label = lab
				s = strings.TrimSpace(s[j+1:])
			}
		}
		cl.Src = s
		e, err := ex(l, s)
		cl.E = e
		return cl, err
	}
	for _, l := range lines {
		switch l.kw {
		case "package":
			pkg = l.rest
			c, lp, lm = nil, nil, nil
		case "func", "assume":
			s := l.rest
			if l.kw == "assume" {
				s = strings.TrimSpace(strings.TrimPrefix(s, "func"))
			}
			key := s
			var params, results []string
			if j := strings.Index(s, "("); j >= 0 {
				key = strings.TrimSpace(s[:j])
				k := strings.Index(s, ")")
				params = splitNames(s[j+1 : k])
				rest := strings.TrimSpace(s[k+1:])
				rest = strings.Trim(rest, "()")
				results = splitNames(rest)
			}
			variant := ""
			if j := strings.Index(key, "@"); j >= 0 {
				variant = key[j+1:]
				key = key[:j]
			}
			if !strings.Contains(key, "/") && pkg != "" && l.kw == "func" {
				key = pkg + "." + key
			}
			c = &Contract{Key: key, Pkg: pkg, Params: params, Results: results, Mode: "int", File: file, Line: l.n, Variant: variant, Alias: map[string]string{}}
			if l.kw == "assume" {
				c.Trusted = true
			}
			full := key
			if variant != "" {
				full += "@" + variant
			}
			if db.Contracts[full] != nil {
				return bad(l, "duplicate contract %s", full)
			}
			db.Contracts[full] = c
			db.Order = append(db.Order, full)
			lp, lm = nil, nil
		case "def":
			j := strings.Index(l.rest, "(")
			k := strings.Index(l.rest, ")")
			q := strings.Index(l.rest[k:], "=") + k
			name := strings.TrimSpace(l.rest[:j])
			e, err := ex(l, l.rest[q+1:])
			if err != nil {
				return err
			}
			if db.Macros[name] != nil {
				return bad(l, "duplicate def %s", name)
			}
			db.Macros[name] = &Macro{name, splitNames(l.rest[j+1 : k]), e}
			c, lp, lm = nil, nil, nil
		case "fun":
			j := strings.Index(l.rest, "(")
			k := strings.LastIndex(l.rest, ")")
			var as []*Sort
			for _, x := range strings.Split(l.rest[j+1:k], ",") {
				if x = strings.TrimSpace(x); x != "" {
					as = append(as, specSort(x))
				}
			}
			declFun(strings.TrimSpace(l.rest[:j]), specSort(strings.TrimSpace(l.rest[k+1:])), as...)
			c, lp, lm = nil, nil, nil
		case "axiom":
			j := strings.Index(l.rest, ":")
			head := strings.Fields(l.rest[:j])
			e, err := ex(l, l.rest[j+1:])
			if err != nil {
				return err
			}
			db.Axioms = append(db.Axioms, AxiomSpec{head[0], e, head[1:]})
			c, lp, lm = nil, nil, nil
		case "lemma":
			j := strings.Index(l.rest, "(")
			k := strings.Index(l.rest, ")")
			q := strings.Index(l.rest[k:], ":") + k
			e, err := ex(l, l.rest[q+1:])
			if err != nil {
				return err
			}
			lm = &Lemma{Name: strings.TrimSpace(l.rest[:j]), Vars: splitVars(l.rest[j+1 : k]), Body: e, Pkg: pkg}
			if db.Lemmas[lm.Name] != nil {
				return bad(l, "duplicate lemma %s", lm.Name)
			}
			db.Lemmas[lm.Name] = lm
			db.LemmaOrder = append(db.LemmaOrder, lm.Name)
			c, lp = nil, nil
		default:
			if lm != nil {
				switch l.kw {
				case "by":
					f := strings.Fields(l.rest) // induction k from e
					lm.By = f[1]
					if len(f) > 3 {
						e, err := ex(l, strings.Join(f[3:], " "))
						if err != nil {
							return err
						}
						lm.From = e
					}
				case "uses":
					e, err := ex(l, l.rest)
					if err != nil {
						return err
					}
					lm.Uses = append(lm.Uses, e)
				case "trigger":
					e, err := ex(l, "forall zz {"+l.rest+"} :: true")
					if err != nil {
						return err
					}
					lm.Trigs = append(lm.Trigs, e.Trigs...)
				case "auto":
					lm.Auto = true
					if l.rest != "" {
						lm.AutoFor = strings.Fields(l.rest)
					}
				case "trusted":
					lm.Trusted = true
				case "mode":
					lm.Mode = l.rest
				case "prop":
					lm.Props = strings.Fields(l.rest)
				default:
					return bad(l, "unexpected %s in lemma", l.kw)
				}
				continue
			}
			if c == nil {
				return bad(l, "clause outside func")
			}
			switch l.kw {
			case "requires", "ensures", "apply", "modifies":
				if l.kw == "modifies" {
					for _, x := range splitTop(l.rest) {
						e, err := ex(l, x)
						if err != nil {
							return err
						}
						c.Mod = append(c.Mod, Clause{E: e, Src: x})
					}
					continue
				}
				cl, err := clause(l)
				if err != nil {
					return err
				}
				switch l.kw {
				case "requires":
					c.Req = append(c.Req, cl)
				case "ensures":
					c.Ens = append(c.Ens, cl)
				case "apply":
					c.Apply = append(c.Apply, cl)
				}
			case "panics", "panicsmay":
				l.rest = strings.TrimSpace(strings.TrimPrefix(l.rest, "when"))
				cl, err := clause(l)
				if err != nil {
					return err
				}
				c.Panics = &cl
				c.PanicsMay = l.kw == "panicsmay"
			case "maypanic":
				c.MayPanic = true
				c.OwnPanics = strings.TrimSpace(l.rest) == "calls"
			case "inlinecalls":
				c.InlineCalls = true
			case "trusted":
				c.Trusted = true
				c.Assume = l.rest
			case "noverify":
				c.NoVerify = true
				c.Assume = l.rest
			case "inline":
				c.Inline = true
			case "noframe":
				c.NoFrame = true
			case "mode":
				c.Mode = l.rest
			case "arch":
				c.Arch = l.rest
			case "omit":
				c.Omit = append(c.Omit, strings.Fields(l.rest)...)
			case "skip":
				c.Skip = append(c.Skip, strings.Fields(l.rest)...)
			case "prop":
				c.Props = strings.Fields(l.rest)
			case "alias":
				f := strings.Fields(l.rest) // alias result r.cachedIndex
				c.Alias[f[0]] = strings.Join(f[1:], " ")
			case "loop":
				f := strings.Fields(l.rest)
				lp = &LoopSpec{}
				if len(f) == 2 {
					lp.Fn = f[0]
					f = f[1:]
				}
				fmt.Sscanf(f[0], "%d", &lp.Ord)
				c.Loops = append(c.Loops, lp)
			case "noterm":
				lp.NoTerm = true
			case "invariant":
				if lp == nil {
					return bad(l, "invariant outside loop")
				}
				cl, err := clause(l)
				if err != nil {
					return err
				}
				lp.Inv = append(lp.Inv, cl)
			case "decreases":
				cl, err := clause(l)
				if err != nil {
					return err
				}
				lp.Dec = &cl
			case "measure":
				cl, err := clause(l)
				if err != nil {
					return err
				}
				c.Dec = &cl
			case "returnghost":
				j := strings.Index(l.rest, "=")
				e, err := ex(l, l.rest[j+1:])
				if err != nil {
					return err
				}
				h := strings.Fields(l.rest[:j])
				g := GhostUpd{Name: h[0], E: e}
				if len(h) > 1 {
					g.Sort = h[1]
				}
				c.RetGhost = append(c.RetGhost, g)
			case "ghost":
				j := strings.Index(l.rest, "=")
				e, err := ex(l, l.rest[j+1:])
				if err != nil {
					return err
				}
				h := strings.Fields(l.rest[:j])
				if lp != nil {
					lp.Ghost = append(lp.Ghost, GhostUpd{Name: h[0], E: e})
				} else {
					c.Ghosts = append(c.Ghosts, GhostDecl{h[0], h[1], e})
				}
			case "config":
				j := strings.Index(l.rest, "=")
				e1, err := ex(l, l.rest[:j])
				if err != nil {
					return err
				}
				c.Config = append(c.Config, Clause{Label: strings.TrimSpace(l.rest[j+1:]), E: e1, Src: l.rest})
			default:
				return bad(l, "unexpected %s", l.kw)
			}
		}
	}
	return nil
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i, r := range s {
		switch r {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[st:]); t != "" {
		out = append(out, t)
	}
	return out
}

func specSort(n string) *Sort {
	switch n {
	case "int":
		return SInt
	case "bool":
		return SBool
	case "f64":
		return SF64
	case "f32":
		return SF32
	case "err":
		return SErr
	case "any":
		return SAny
	case "ints", "bytes":
		return SArr(SInt)
	case "bools":
		return SArr(SBool)
	case "f64s":
		return SArr(SF64)
	case "bytess":
		return SArr(SArr(SInt))
	}
	if strings.HasPrefix(n, "bv") {
		var w int
		fmt.Sscanf(n, "bv%d", &w)
		return SBV(w)
	}
	panic("unknown spec sort " + n)
}
