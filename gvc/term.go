package main

// Terms: hash-consed SMT-LIB terms with light simplification.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Sort is the SMT sort, written as it is printed.
type Sort string

const (
	SBool Sort = "Bool"
	SInt  Sort = "Int"
	SU    Sort = "U" // opaque values: type-parameter values, strings, floats, interfaces
)

func arr(e Sort) Sort  { return Sort("(Array Int " + string(e) + ")") }
func arrU(e Sort) Sort { return Sort("(Array U " + string(e) + ")") }

func elemSort(s Sort) Sort {
	str := string(s)
	if strings.HasPrefix(str, "(Array Int ") {
		return Sort(str[len("(Array Int ") : len(str)-1])
	}
	if strings.HasPrefix(str, "(Array U ") {
		return Sort(str[len("(Array U ") : len(str)-1])
	}
	panic("elemSort " + str)
}

type Term struct {
	Op   string // "const" (declared symbol), "int", "true", "false", "app" ops by SMT name, "forall", "exists", "bound"
	Name string // symbol for const/bound/uf; literal for int
	Args []*Term
	Sort Sort
	id   int
	// quantifiers
	Vars []*Term
	Pats [][]*Term
	str  string
}

var termTab = map[string]*Term{}
var termCount int

func key(op, name string, s Sort, args []*Term) string {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(string(s))
	for _, a := range args {
		fmt.Fprintf(&b, "|%d", a.id)
	}
	return b.String()
}

func mk(op, name string, s Sort, args ...*Term) *Term {
	k := key(op, name, s, args)
	if t, ok := termTab[k]; ok {
		return t
	}
	termCount++
	t := &Term{Op: op, Name: name, Args: args, Sort: s, id: termCount}
	termTab[k] = t
	return t
}

var (
	True  = mk("true", "", SBool)
	False = mk("false", "", SBool)
)

func Const(name string, s Sort) *Term { return mk("const", name, s) }
func Bound(name string, s Sort) *Term { return mk("bound", name, s) }
func IntLit(i int64) *Term            { return mk("int", fmt.Sprint(i), SInt) }
func IntLitS(s string) *Term          { return mk("int", s, SInt) }
func UF(name string, s Sort, args ...*Term) *Term {
	if len(args) == 0 {
		return Const(name, s)
	}
	return mk("uf", name, s, args...)
}
func BoolLit(b bool) *Term {
	if b {
		return True
	}
	return False
}

func (t *Term) isInt() (*big.Int, bool) {
	if t.Op == "int" {
		n, ok := new(big.Int).SetString(t.Name, 10)
		return n, ok
	}
	return nil, false
}
func bigLit(n *big.Int) *Term { return IntLitS(n.String()) }

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.Op == "not":
		return a.Args[0]
	}
	return mk("not", "", SBool, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a == nil || a == True {
			continue
		}
		if a == False {
			return False
		}
		sub := []*Term{a}
		if a.Op == "and" {
			sub = a.Args
		}
		for _, s := range sub {
			if seen[s] {
				continue
			}
			if seen[Not(s)] {
				return False
			}
			seen[s] = true
			out = append(out, s)
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return mk("and", "", SBool, out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a == False {
			continue
		}
		if a == True {
			return True
		}
		sub := []*Term{a}
		if a.Op == "or" {
			sub = a.Args
		}
		for _, s := range sub {
			if seen[s] {
				continue
			}
			if seen[Not(s)] {
				return True
			}
			seen[s] = true
			out = append(out, s)
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return mk("or", "", SBool, out...)
}

func Implies(a, b *Term) *Term {
	switch {
	case a == True:
		return b
	case a == False, b == True:
		return True
	case b == False:
		return Not(a)
	case a == b:
		return True
	}
	return mk("=>", "", SBool, a, b)
}

func Ite(c, a, b *Term) *Term {
	switch {
	case c == True:
		return a
	case c == False:
		return b
	case a == b:
		return a
	case a == True && b == False:
		return c
	case a == False && b == True:
		return Not(c)
	}
	if a.Sort == SBool {
		return And(Implies(c, a), Implies(Not(c), b))
	}
	return mk("ite", "", a.Sort, c, a, b)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sort mismatch: %s:%s vs %s:%s", a, a.Sort, b, b.Sort))
	}
	if a.Sort == SBool {
		switch {
		case a == True:
			return b
		case b == True:
			return a
		case a == False:
			return Not(b)
		case b == False:
			return Not(a)
		}
	}
	if a.Sort == SInt {
		d := linSub(a, b)
		if d.isConst() {
			return BoolLit(d.c.Sign() == 0)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", SBool, a, b)
}

func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

// ---- linear arithmetic normal form

type lin struct {
	c *big.Int
	m map[*Term]*big.Int
}

func (l *lin) isConst() bool { return len(l.m) == 0 }

func toLin(t *Term) *lin {
	l := &lin{c: new(big.Int), m: map[*Term]*big.Int{}}
	addLin(l, t, big.NewInt(1))
	return l
}

func addLin(l *lin, t *Term, k *big.Int) {
	if n, ok := t.isInt(); ok {
		l.c.Add(l.c, new(big.Int).Mul(n, k))
		return
	}
	switch t.Op {
	case "+":
		for _, a := range t.Args {
			addLin(l, a, k)
		}
		return
	case "*":
		if n, ok := t.Args[0].isInt(); ok && len(t.Args) == 2 {
			addLin(l, t.Args[1], new(big.Int).Mul(k, n))
			return
		}
	}
	v, ok := l.m[t]
	if !ok {
		v = new(big.Int)
		l.m[t] = v
	}
	v.Add(v, k)
	if v.Sign() == 0 {
		delete(l.m, t)
	}
}

func linSub(a, b *Term) *lin {
	l := toLin(a)
	addLin(l, b, big.NewInt(-1))
	return l
}

func (l *lin) term() *Term {
	var ts []*Term
	for t := range l.m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var out []*Term
	for _, t := range ts {
		k := l.m[t]
		if k.IsInt64() && k.Int64() == 1 {
			out = append(out, t)
		} else {
			out = append(out, mk("*", "", SInt, bigLit(k), t))
		}
	}
	if l.c.Sign() != 0 || len(out) == 0 {
		out = append(out, bigLit(l.c))
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("+", "", SInt, out...)
}

func Add(as ...*Term) *Term {
	l := &lin{c: new(big.Int), m: map[*Term]*big.Int{}}
	for _, a := range as {
		addLin(l, a, big.NewInt(1))
	}
	return l.term()
}
func Sub(a, b *Term) *Term { return linSub(a, b).term() }
func Neg(a *Term) *Term    { return Sub(IntLit(0), a) }
func Mul(a, b *Term) *Term {
	if n, ok := a.isInt(); ok {
		l := &lin{c: new(big.Int), m: map[*Term]*big.Int{}}
		addLin(l, b, n)
		return l.term()
	}
	if n, ok := b.isInt(); ok {
		_ = n
		return Mul(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("*", "", SInt, a, b)
}

// cmp builds a (op) b for op in <=,<.
func Le(a, b *Term) *Term {
	d := linSub(a, b)
	if d.isConst() {
		return BoolLit(d.c.Sign() <= 0)
	}
	return mk("<=", "", SBool, a, b)
}
func Lt(a, b *Term) *Term {
	d := linSub(a, b)
	if d.isConst() {
		return BoolLit(d.c.Sign() < 0)
	}
	return mk("<", "", SBool, a, b)
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

// Euclidean SMT div/mod.
func EDiv(a, b *Term) *Term {
	if x, ok := a.isInt(); ok {
		if y, ok := b.isInt(); ok && y.Sign() > 0 {
			q, _ := new(big.Int).DivMod(x, y, new(big.Int))
			return bigLit(q)
		}
	}
	return mk("div", "", SInt, a, b)
}
func EMod(a, b *Term) *Term {
	if x, ok := a.isInt(); ok {
		if y, ok := b.isInt(); ok && y.Sign() > 0 {
			_, m := new(big.Int).DivMod(x, y, new(big.Int))
			return bigLit(m)
		}
	}
	return mk("mod", "", SInt, a, b)
}

func Select(a, i *Term) *Term {
	for a.Op == "store" {
		e := Eq(a.Args[1], i)
		if e == True {
			return a.Args[2]
		}
		if e == False {
			a = a.Args[0]
			continue
		}
		break
	}
	return mk("select", "", elemSort(a.Sort), a, i)
}
func Store(a, i, v *Term) *Term { return mk("store", "", a.Sort, a, i, v) }

var boundN int

func freshBound(hint string, s Sort) *Term {
	boundN++
	return Bound(fmt.Sprintf("%s!%d", hint, boundN), s)
}

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return quant("forall", vars, body, pats)
}
func Exists(vars []*Term, body *Term) *Term { return quant("exists", vars, body, nil) }
func quant(op string, vars []*Term, body *Term, pats [][]*Term) *Term {
	if body == True || body == False || len(vars) == 0 {
		return body
	}
	for i, p := range pats {
		for j, t := range p {
			// the solver rewrites reads of updated arrays: match on the base
			for t.Op == "select" && t.Args[0].Op == "store" {
				t = mk("select", "", elemSort(t.Args[0].Sort), t.Args[0].Args[0], t.Args[1])
			}
			pats[i][j] = t
		}
	}
	termCount++
	// structural interning modulo bound names is not attempted
	t := &Term{Op: op, Sort: SBool, Args: []*Term{body}, Vars: vars, Pats: pats, id: termCount}
	k := t.String()
	if o, ok := termTab["Q"+k]; ok {
		return o
	}
	termTab["Q"+k] = t
	return t
}

func (t *Term) String() string {
	if t.str != "" {
		return t.str
	}
	var s string
	switch t.Op {
	case "true", "false":
		s = t.Op
	case "int":
		if strings.HasPrefix(t.Name, "-") {
			s = "(- " + t.Name[1:] + ")"
		} else {
			s = t.Name
		}
	case "const", "bound":
		s = sym(t.Name)
	case "forall", "exists":
		var b strings.Builder
		b.WriteString("(" + t.Op + " (")
		for _, v := range t.Vars {
			fmt.Fprintf(&b, "(%s %s)", sym(v.Name), v.Sort)
		}
		b.WriteString(") ")
		if len(t.Pats) > 0 {
			b.WriteString("(! ")
		}
		b.WriteString(t.Args[0].String())
		for _, p := range t.Pats {
			b.WriteString(" :pattern (")
			for i, x := range p {
				if i > 0 {
					b.WriteByte(' ')
				}
				b.WriteString(x.String())
			}
			b.WriteString(")")
		}
		if len(t.Pats) > 0 {
			b.WriteString(")")
		}
		b.WriteString(")")
		s = b.String()
	default:
		op := t.Op
		if op == "uf" {
			op = sym(t.Name)
		}
		parts := make([]string, 0, len(t.Args)+1)
		parts = append(parts, op)
		for _, a := range t.Args {
			parts = append(parts, a.String())
		}
		s = "(" + strings.Join(parts, " ") + ")"
	}
	t.str = s
	return s
}

func sym(s string) string {
	for _, r := range s {
		if !(r == '_' || r == '!' || r == '.' || r == '$' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z') {
			return "|" + strings.ReplaceAll(s, "|", "_") + "|"
		}
	}
	return s
}

// collect declared symbols
type decls struct {
	seen map[*Term]bool
	syms map[string]string
}

func (d *decls) visit(t *Term) {
	if d.seen[t] {
		return
	}
	d.seen[t] = true
	switch t.Op {
	case "const":
		d.syms[t.Name] = fmt.Sprintf("(declare-fun %s () %s)", sym(t.Name), t.Sort)
	case "uf":
		ss := make([]string, len(t.Args))
		for i, a := range t.Args {
			ss[i] = string(a.Sort)
		}
		d.syms[t.Name] = fmt.Sprintf("(declare-fun %s (%s) %s)", sym(t.Name), strings.Join(ss, " "), t.Sort)
	}
	for _, a := range t.Args {
		d.visit(a)
	}
	for _, p := range t.Pats {
		for _, x := range p {
			d.visit(x)
		}
	}
}

// Subst replaces constants/bounds by terms.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = f(a)
			ch = ch || args[i] != a
		}
		var r *Term
		switch {
		case !ch && len(t.Pats) == 0:
			r = t
		case t.Op == "forall" || t.Op == "exists":
			var ps [][]*Term
			for _, p := range t.Pats {
				var q []*Term
				for _, x := range p {
					q = append(q, f(x))
				}
				ps = append(ps, q)
			}
			r = quant(t.Op, t.Vars, args[0], ps)
		default:
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "=>":
		return Implies(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "=":
		return Eq(a[0], a[1])
	case "+":
		return Add(a...)
	case "*":
		return Mul(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "<":
		return Lt(a[0], a[1])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "div":
		return EDiv(a[0], a[1])
	case "mod":
		return EMod(a[0], a[1])
	}
	return mk(t.Op, t.Name, t.Sort, a...)
}
