package main

// Contract files: a small Gobra-like specification language.
//
//   logic NAME(Sort,...) Sort            uninterpreted specification function
//   const NAME Sort                      arbitrary (Skolem) constant
//   axiom [vars] {patterns} expr         law of the specification functions
//   macro NAME ... end                   textual group of clauses
//   callback NAME(params) ... end        contract of a function value of the client
//   contract FUNC(params) ... end        contract of a function of the repository
//
// Clauses: let, family, callbackparam, alias, requires, ensures, raises,
// effect, modifies, rec, use, nopanic.

import (
	"fmt"
	"os"
	"strings"
	"unicode"
)

// Expr is a parsed specification expression.
type Expr struct {
	Op   string // ident, int, call, index, forall, exists, unary/binary operator
	Name string
	Args []*Expr
	Vars []string
	VSor []Sort
	Pats [][]*Expr
	Src  string
}

type lexer struct {
	s   string
	pos int
	tok string
}

func (l *lexer) next() {
	for l.pos < len(l.s) && unicode.IsSpace(rune(l.s[l.pos])) {
		l.pos++
	}
	if l.pos >= len(l.s) {
		l.tok = ""
		return
	}
	c := l.s[l.pos]
	start := l.pos
	switch {
	case unicode.IsLetter(rune(c)) || c == '_':
		for l.pos < len(l.s) && (unicode.IsLetter(rune(l.s[l.pos])) || unicode.IsDigit(rune(l.s[l.pos])) || l.s[l.pos] == '_' || l.s[l.pos] == '\'') {
			l.pos++
		}
	case unicode.IsDigit(rune(c)):
		for l.pos < len(l.s) && unicode.IsDigit(rune(l.s[l.pos])) {
			l.pos++
		}
	default:
		for _, op := range []string{"<==>", "==>", "==", "!=", "<=", ">=", "&&", "||", "::"} {
			if strings.HasPrefix(l.s[l.pos:], op) {
				l.pos += len(op)
				l.tok = op
				return
			}
		}
		l.pos++
	}
	l.tok = l.s[start:l.pos]
}

func (l *lexer) expect(t string) {
	if l.tok != t {
		panic(fmt.Sprintf("spec: expected %q, found %q in %q", t, l.tok, l.s))
	}
	l.next()
}

func parseExpr(s string) *Expr {
	l := &lexer{s: s}
	l.next()
	e := l.expr(0)
	if l.tok != "" {
		panic(fmt.Sprintf("spec: trailing %q in %q", l.tok, s))
	}
	e.Src = strings.TrimSpace(s)
	return e
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (l *lexer) expr(min int) *Expr {
	x := l.unary()
	for {
		p, ok := prec[l.tok]
		if !ok || p < min || p == 0 {
			return x
		}
		op := l.tok
		l.next()
		var y *Expr
		if op == "==>" {
			y = l.expr(p) // right associative
		} else {
			y = l.expr(p + 1)
		}
		x = &Expr{Op: op, Args: []*Expr{x, y}}
	}
}

func (l *lexer) unary() *Expr {
	switch l.tok {
	case "!":
		l.next()
		return &Expr{Op: "!", Args: []*Expr{l.unary()}}
	case "-":
		l.next()
		return &Expr{Op: "neg", Args: []*Expr{l.unary()}}
	case "forall", "exists":
		q := &Expr{Op: l.tok}
		l.next()
		for {
			q.Vars = append(q.Vars, l.tok)
			l.next()
			s := SInt
			if l.tok == "U" {
				s = SU
				l.next()
			}
			q.VSor = append(q.VSor, s)
			if l.tok == "," {
				l.next()
				continue
			}
			break
		}
		for l.tok == "{" {
			l.next()
			var p []*Expr
			for {
				p = append(p, l.expr(0))
				if l.tok == "," {
					l.next()
					continue
				}
				break
			}
			l.expect("}")
			q.Pats = append(q.Pats, p)
		}
		l.expect("::")
		q.Args = []*Expr{l.expr(0)}
		return q
	}
	x := l.primary()
	for {
		switch l.tok {
		case "[":
			l.next()
			i := l.expr(0)
			l.expect("]")
			x = &Expr{Op: "index", Args: []*Expr{x, i}}
		case ".":
			l.next()
			x = &Expr{Op: "field", Name: l.tok, Args: []*Expr{x}}
			l.next()
		default:
			return x
		}
	}
}

func (l *lexer) primary() *Expr {
	t := l.tok
	switch {
	case t == "(":
		l.next()
		x := l.expr(0)
		l.expect(")")
		return x
	case t == "":
		panic("spec: unexpected end in " + l.s)
	case unicode.IsDigit(rune(t[0])):
		l.next()
		return &Expr{Op: "int", Name: t}
	case unicode.IsLetter(rune(t[0])) || t[0] == '_':
		l.next()
		if l.tok == "(" {
			l.next()
			c := &Expr{Op: "call", Name: t}
			for l.tok != ")" {
				c.Args = append(c.Args, l.expr(0))
				if l.tok == "," {
					l.next()
				}
			}
			l.next()
			return c
		}
		return &Expr{Op: "ident", Name: t}
	}
	panic(fmt.Sprintf("spec: unexpected %q in %q", t, l.s))
}

// Clause of a contract.
type Clause struct {
	Kind  string
	Tag   string
	Name  string // let/alias/effect target, family callback, ...
	Own   bool
	Exact bool // the effect also holds when the function panics
	E     *Expr
	Text  string
}

// Contract of a repository function, a recursive helper, or a callback.
type Contract struct {
	Name    string
	Params  []string
	Clauses []*Clause
	Recs    []*Contract
	Parent  *Contract
	Raises  bool
	NoPanic bool
	File    string
}

func (c *Contract) of(kind string) []*Clause {
	var out []*Clause
	for _, x := range c.Clauses {
		if x.Kind == kind {
			out = append(out, x)
		}
	}
	return out
}

type logicFn struct {
	Name string
	Args []Sort
	Ret  Sort
}

// Spec is the content of one group of contract files.
type Spec struct {
	Logic     map[string]logicFn
	Consts    map[string]Sort
	Axioms    []*Expr
	Macros    map[string][]string
	Callbacks map[string]*Contract
	Contracts map[string]*Contract
	Order     []string
	Templates []*Template
	Ghosts    map[string]bool // name -> own?
}

// Template is a candidate loop invariant schema.
type Template struct {
	Fn     string // function the template belongs to ("" = any)
	Params []string
	E      *Expr
	Text   string
}

func parseSort(s string) Sort {
	switch s {
	case "Int":
		return SInt
	case "Bool":
		return SBool
	case "U":
		return SU
	}
	panic("spec: sort " + s)
}

func splitParams(s string) []string {
	var out []string
	for _, p := range strings.Split(s, ",") {
		if p = strings.TrimSpace(p); p != "" {
			out = append(out, p)
		}
	}
	return out
}

func newSpec() *Spec {
	return &Spec{Logic: map[string]logicFn{}, Consts: map[string]Sort{}, Macros: map[string][]string{}, Callbacks: map[string]*Contract{}, Contracts: map[string]*Contract{}, Ghosts: map[string]bool{}}
}

func (sp *Spec) load(file string) {
	data, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	var lines []string
	for _, ln := range strings.Split(string(data), "\n") {
		if i := strings.Index(ln, "//"); i >= 0 {
			ln = ln[:i]
		}
		if i := strings.Index(ln, "#"); i >= 0 {
			ln = ln[:i]
		}
		ln = strings.TrimRight(ln, " \t")
		if strings.TrimSpace(ln) == "" {
			continue
		}
		if len(lines) > 0 && strings.HasSuffix(lines[len(lines)-1], "\\") {
			p := lines[len(lines)-1]
			lines[len(lines)-1] = p[:len(p)-1] + " " + strings.TrimSpace(ln)
			continue
		}
		lines = append(lines, strings.TrimSpace(ln))
	}
	for i := 0; i < len(lines); i++ {
		ln := lines[i]
		kw, rest, _ := strings.Cut(ln, " ")
		rest = strings.TrimSpace(rest)
		switch kw {
		case "logic":
			name, r, _ := strings.Cut(rest, "(")
			args, ret, _ := strings.Cut(r, ")")
			f := logicFn{Name: name, Ret: parseSort(strings.TrimSpace(ret))}
			for _, a := range splitParams(args) {
				f.Args = append(f.Args, parseSort(a))
			}
			sp.Logic[name] = f
		case "const":
			f := strings.Fields(rest)
			sp.Consts[f[0]] = parseSort(f[1])
		case "ghost":
			for _, g := range splitParams(rest) {
				own := strings.HasPrefix(g, "own ")
				sp.Ghosts[strings.TrimPrefix(g, "own ")] = own
			}
		case "axiom":
			sp.Axioms = append(sp.Axioms, parseExpr(rest))
		case "macro":
			var body []string
			for i++; lines[i] != "end"; i++ {
				body = append(body, lines[i])
			}
			sp.Macros[rest] = body
		case "template":
			name, r, _ := strings.Cut(rest, "(")
			ps, ex, _ := strings.Cut(r, ")")
			sp.Templates = append(sp.Templates, &Template{Fn: strings.TrimSpace(name), Params: splitParams(ps), E: parseExpr(strings.TrimPrefix(strings.TrimSpace(ex), ":")), Text: ln})
		case "contract", "callback":
			name, r, _ := strings.Cut(rest, "(")
			ps, _, _ := strings.Cut(r, ")")
			c := &Contract{Name: strings.TrimSpace(name), Params: splitParams(ps), File: file}
			var body []string
			for i++; lines[i] != "end"; i++ {
				body = append(body, lines[i])
			}
			sp.clauses(c, body)
			if kw == "callback" {
				sp.Callbacks[c.Name] = c
			} else {
				sp.Contracts[c.Name] = c
				sp.Order = append(sp.Order, c.Name)
			}
		default:
			panic("spec: unknown declaration " + ln)
		}
	}
}

func (sp *Spec) clauses(c *Contract, body []string) {
	cur := c
	for _, ln := range body {
		kw, rest, _ := strings.Cut(ln, " ")
		rest = strings.TrimSpace(rest)
		cl := &Clause{Kind: kw, Text: ln}
		for kw == "effect" && (strings.HasPrefix(rest, "own ") || strings.HasPrefix(rest, "exact ")) {
			f, r, _ := strings.Cut(rest, " ")
			cl.Own = cl.Own || f == "own"
			cl.Exact = cl.Exact || f == "exact"
			rest = strings.TrimSpace(r)
		}
		if strings.HasPrefix(rest, "[") {
			i := strings.Index(rest, "]")
			cl.Tag = rest[1:i]
			rest = strings.TrimSpace(rest[i+1:])
		}
		switch kw {
		case "use":
			m, ok := sp.Macros[rest]
			if !ok {
				panic("spec: macro " + rest)
			}
			sp.clauses(cur, m)
			continue
		case "rec":
			ps := strings.Trim(rest, "()")
			r := &Contract{Name: c.Name + ".rec", Params: splitParams(ps), Parent: c, File: c.File}
			c.Recs = append(c.Recs, r)
			cur = r
			continue
		case "let", "alias":
			n, ex, _ := strings.Cut(rest, "=")
			cl.Name = strings.TrimSpace(n)
			cl.E = parseExpr(ex)
		case "family", "calls":
			n, cb, _ := strings.Cut(rest, ":")
			cl.Name = strings.TrimSpace(n)
			cl.Text = strings.TrimSpace(cb)
		case "effect":
			n, ex, _ := strings.Cut(rest, "+=")
			cl.Name = strings.TrimSpace(n)
			if own, ok := sp.Ghosts[cl.Name]; !ok || own != cl.Own {
				panic("spec: effect on undeclared counter in " + ln)
			}
			cl.E = parseExpr(ex)
		case "modifies":
			cl.Name = rest
		case "nopanic":
			cur.NoPanic = true
			continue
		case "requires", "ensures", "raises", "assumes", "cover", "decreases":
			cl.E = parseExpr(rest)
			if kw == "raises" {
				cur.Raises = true
			}
		default:
			panic("spec: unknown clause " + ln)
		}
		cur.Clauses = append(cur.Clauses, cl)
	}
}

// ---- evaluation

// Env resolves names of a specification expression.
type Env struct {
	e      *Engine
	sp     *Spec
	vars   map[string]Val
	st     *State // state for ghosts/heap
	old    *State
	lookup func(name string) (Val, bool)
	fun    func(env *Env, name string, args []*Expr) (Val, bool)
}

func (v *Env) with(name string, x Val) *Env {
	n := *v
	n.vars = map[string]Val{}
	for k, y := range v.vars {
		n.vars[k] = y
	}
	n.vars[name] = x
	return &n
}

func (v *Env) term(x *Expr) *Term {
	r := v.eval(x)
	t, ok := r.(*Term)
	if !ok {
		if r == nil {
			panic(fmt.Sprintf("spec: no value for %q", x.Src))
		}
		return box(r)
	}
	return t
}

func (v *Env) bool(x *Expr) *Term {
	t := v.term(x)
	if t.Sort != SBool {
		panic(fmt.Sprintf("spec: %q is not a condition", x.Src))
	}
	return t
}

func (v *Env) eval(x *Expr) Val {
	switch x.Op {
	case "int":
		return IntLitS(x.Name)
	case "ident":
		if y, ok := v.vars[x.Name]; ok {
			return y
		}
		if v.lookup != nil {
			if y, ok := v.lookup(x.Name); ok {
				return y
			}
		}
		switch x.Name {
		case "true":
			return True
		case "false":
			return False
		case "nil":
			return nilU
		}
		if s, ok := v.sp.Consts[x.Name]; ok {
			return Const("K."+x.Name, s)
		}
		if own, ok := v.sp.Ghosts[x.Name]; ok {
			if own {
				return v.st.total(x.Name, v.st.cur)
			}
			return v.st.g(x.Name)
		}
		panic(fmt.Sprintf("spec: unknown name %s in %q", x.Name, x.Src))
	case "!":
		return Not(v.bool(x.Args[0]))
	case "neg":
		return Neg(v.term(x.Args[0]))
	case "&&":
		return And(v.bool(x.Args[0]), v.bool(x.Args[1]))
	case "||":
		return Or(v.bool(x.Args[0]), v.bool(x.Args[1]))
	case "==>":
		return Implies(v.bool(x.Args[0]), v.bool(x.Args[1]))
	case "<==>":
		return Eq(v.bool(x.Args[0]), v.bool(x.Args[1]))
	case "==", "!=":
		a, b := v.eval(x.Args[0]), v.eval(x.Args[1])
		var r *Term
		ta, ok1 := a.(*Term)
		tb, ok2 := b.(*Term)
		switch {
		case ok1 && ok2:
			r = Eq(ta, tb)
		case ok2 && tb == nilU:
			if s, ok := a.(SliceV); ok {
				r = s.Nil
			} else if p, ok := a.(Ptr); ok {
				r = BoolLit(p.isNil())
			} else {
				r = False
			}
		default:
			r = Eq(box(a), box(b))
		}
		if x.Op == "!=" {
			return Not(r)
		}
		return r
	case "<":
		return Lt(v.term(x.Args[0]), v.term(x.Args[1]))
	case "<=":
		return Le(v.term(x.Args[0]), v.term(x.Args[1]))
	case ">":
		return Lt(v.term(x.Args[1]), v.term(x.Args[0]))
	case ">=":
		return Le(v.term(x.Args[1]), v.term(x.Args[0]))
	case "+":
		return Add(v.term(x.Args[0]), v.term(x.Args[1]))
	case "-":
		return Sub(v.term(x.Args[0]), v.term(x.Args[1]))
	case "*":
		return Mul(v.term(x.Args[0]), v.term(x.Args[1]))
	case "/":
		return EDiv(v.term(x.Args[0]), v.term(x.Args[1]))
	case "%":
		return EMod(v.term(x.Args[0]), v.term(x.Args[1]))
	case "index":
		switch s := v.eval(x.Args[0]).(type) {
		case SliceV:
			return Select(v.e.arrOf(v.st, s), Add(s.Off, v.term(x.Args[1])))
		case *Term:
			return Select(s, v.term(x.Args[1]))
		}
		panic("spec: index of non-slice in " + x.Src)
	case "forall", "exists":
		n := v
		var bs []*Term
		for i, name := range x.Vars {
			b := freshBound(name, x.VSor[i])
			bs = append(bs, b)
			n = n.with(name, b)
		}
		body := n.bool(x.Args[0])
		if x.Op == "exists" {
			return Exists(bs, body)
		}
		var pats [][]*Term
		for _, p := range x.Pats {
			var ts []*Term
			for _, q := range p {
				ts = append(ts, n.term(q))
			}
			pats = append(pats, ts)
		}
		return Forall(bs, body, pats...)
	case "call":
		return v.callExpr(x)
	}
	panic("spec: cannot evaluate " + x.Op + " in " + x.Src)
}

func (v *Env) callExpr(x *Expr) Val {
	arg := func(i int) *Term { return v.term(x.Args[i]) }
	if v.fun != nil {
		if r, ok := v.fun(v, x.Name, x.Args); ok {
			return r
		}
	}
	switch x.Name {
	case "old":
		if v.old == nil {
			panic("spec: old() without old state")
		}
		n := *v
		n.st = v.old
		return n.eval(x.Args[0])
	case "ite":
		return Ite(v.bool(x.Args[0]), arg(1), arg(2))
	case "in":
		return And(Le(arg(1), arg(0)), Lt(arg(0), arg(2)))
	case "b2i":
		return Ite(v.bool(x.Args[0]), IntLit(1), IntLit(0))
	case "min":
		return Ite(Le(arg(0), arg(1)), arg(0), arg(1))
	case "max":
		return Ite(Le(arg(0), arg(1)), arg(1), arg(0))
	case "off":
		return v.eval(x.Args[0]).(SliceV).Off
	case "len":
		switch s := v.eval(x.Args[0]).(type) {
		case SliceV:
			return s.Len
		case *Term:
			return UF("len!str", SInt, s)
		}
	case "at":
		s := v.eval(x.Args[0]).(SliceV)
		return Select(v.e.arrOf(v.st, s), arg(1))
	case "root":
		return UF("root", SU, arg(0))
	case "is_error":
		return UF("is!error", SBool, arg(0))
	case "chain":
		return UF("chain", SBool, arg(0))
	case "add":
		return UF("add", SU, arg(0), arg(1))
	case "mul":
		return UF("mul", SU, arg(0), arg(1))
	case "zero":
		return Const("zero!T", SU)
	case "one":
		return UF("const!1", SU)
	}
	if f, ok := v.sp.Logic[x.Name]; ok {
		if len(f.Args) != len(x.Args) {
			panic(fmt.Sprintf("spec: %s expects %d arguments", x.Name, len(f.Args)))
		}
		ts := make([]*Term, len(x.Args))
		for i := range ts {
			ts[i] = arg(i)
			if ts[i].Sort != f.Args[i] {
				panic(fmt.Sprintf("spec: %s argument %d has sort %s in %q", x.Name, i, ts[i].Sort, x.Src))
			}
		}
		return UF("f."+x.Name, f.Ret, ts...)
	}
	panic("spec: unknown function " + x.Name + " in " + x.Src)
}
