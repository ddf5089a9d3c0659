package main

// Contracts of package psort.
//
// A collection is a ghost array of tokens: the token of a cell says where its
// element was when the function under contract was entered (so at entry cell k
// holds k), and rank orders the elements: Less(i, j) is rank(c[i]) < rank(c[j])
// for an arbitrary rank (every strict weak order on the elements of a
// collection has this form).  Sorting is then: rank increases with the index,
// the tokens of the range are those of the range, each once, and (stable) equal
// ranks keep their tokens in increasing order.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type collInfo struct {
	obj  int
	term *Term // the interface value
	name string
	typ  types.Type
}

// sortCtx is the contract of the body being verified.
type sortCtx struct {
	kind   string // "sort", "merge", "test", or "" (the exported function)
	lo, hi *Term  // sort, test: the range
	p1, e1 *Term  // merge: the runs [p1, e1) and [p2, e2)
	p2, e2 *Term
	p3     *Term // merge: where the result starts
	src    *collInfo
	dst    *collInfo
	dec    *Term // measure
	ent    map[int]*Term
}

type sortInst struct {
	fn   *ssa.Function
	args []Val // role positions are nil
	opt  *sortOpt
	bind []Val
	st   *State
	src  *collInfo
	dst  *collInfo
}

// sortOpt says which arguments carry the range.
type sortOpt struct {
	pos  []int // positions of the int arguments in the order of the contract
	ends bool  // (lo, hi) instead of (lo, size); runs given by their ends, half open
}

type psort struct {
	d      *Driver
	colls  []*collInfo
	n      *Term
	rank   string
	rankN  int
	cur    *sortCtx
	stable bool // SequentialSort is stable, and stability is wanted
	unit   string
	queue  []*sortInst
	insts  map[string]*sortInst
	opts   map[*ssa.Function]*sortOpt
	picks  *picks
	inl    map[*ssa.Function]bool
	sorted *Term // IsSorted of the collection at entry
}

var z0 = IntLit(0)

func (p *psort) rk(x *Term) *Term { return UF(p.rank, SInt, x) }

func (p *psort) cont(st *State, c *collInfo) *Term { return p.d.e.obj(st, c.obj).Arr }

func (p *psort) setCont(st *State, c *collInfo, a *Term) {
	o := p.d.e.obj(st, c.obj).clone()
	o.Arr = a
	st.heap[c.obj] = o
}

func (p *psort) newColl(st *State, name string) *collInfo {
	e := p.d.e
	c := &collInfo{name: name, term: e.fresh(name, SU)}
	st.assume(Ne(c.term, nilU))
	c.obj = e.newObj(st, &Obj{Name: name, Kind: kColl, Arr: e.fresh(name+".c", arr(SInt))})
	p.colls = append(p.colls, c)
	return c
}

func (p *psort) coll(v Val) *collInfo {
	if t, ok := v.(*Term); ok {
		for _, c := range p.colls {
			if c.term == t {
				return c
			}
		}
	}
	return nil
}

func within(k, lo, hi *Term) *Term { return And(Le(lo, k), Lt(k, hi)) }

// identity: every cell holds its own index.
func (p *psort) identity(a *Term) *Term {
	k := freshBound("k", SInt)
	return Forall([]*Term{k}, Eq(Select(a, k), k), []*Term{Select(a, k)})
}

// sortedBy: the ranks increase on [lo, hi); strictly with equal ranks ordered by token.
func (p *psort) sortedBy(a, lo, hi *Term, stable bool) *Term {
	k, l := freshBound("k", SInt), freshBound("l", SInt)
	x, y := Select(a, k), Select(a, l)
	body := Le(p.rk(x), p.rk(y))
	if stable {
		body = p.before(x, y)
	}
	return Forall([]*Term{k, l}, Implies(And(Le(lo, k), Lt(k, l), Lt(l, hi)), body), []*Term{x, y})
}

// before: the element of token x sorts before the one of token y (stably).
func (p *psort) before(x, y *Term) *Term {
	return Or(Lt(p.rk(x), p.rk(y)), And(Eq(p.rk(x), p.rk(y)), Lt(x, y)))
}

// adjacent: no descent between neighbours k-1, k for k in [lo, hi).
func (p *psort) adjacent(a, lo, hi *Term) *Term {
	k := freshBound("k", SInt)
	return Forall([]*Term{k}, Implies(within(k, lo, hi), Le(p.rk(Select(a, Sub(k, IntLit(1)))), p.rk(Select(a, k)))), []*Term{Select(a, k)})
}

// holdsRange: the cells of [lo, hi) hold tokens of [lo, hi).
func (p *psort) holdsRange(a, lo, hi *Term) *Term {
	k := freshBound("k", SInt)
	return Forall([]*Term{k}, Implies(within(k, lo, hi), within(Select(a, k), lo, hi)), []*Term{Select(a, k)})
}

// distinct: no token occurs twice in [lo, hi).
func (p *psort) distinct(a, lo, hi *Term) *Term {
	k, l := freshBound("k", SInt), freshBound("l", SInt)
	return Forall([]*Term{k, l}, Implies(And(Le(lo, k), Lt(k, l), Lt(l, hi)), Ne(Select(a, k), Select(a, l))), []*Term{Select(a, k), Select(a, l)})
}

// frame: b is a outside [lo, hi).
func (p *psort) frame(a, b, lo, hi *Term) *Term {
	k := freshBound("k", SInt)
	return Forall([]*Term{k}, Implies(Or(Lt(k, lo), Le(hi, k)), Eq(Select(b, k), Select(a, k))), []*Term{Select(b, k)})
}

func (p *psort) read(c *CallCtx, x *collInfo, lo, hi *Term) {
	p.d.e.access(c.st, Access{Obj: x.obj, Lo: lo, Hi: hi}, c.pos)
}

func (p *psort) write(c *CallCtx, x *collInfo, lo, hi *Term) {
	p.d.e.access(c.st, Access{Obj: x.obj, Lo: lo, Hi: hi, Write: true}, c.pos)
}

func (p *psort) bounds(c *CallCtx, what string, t *Term) {
	if p.d.e.oblige(c.st, "bounds", what+" is asked for elements of the collection only", c.pos, t) {
		c.st.assume(t)
	}
}

// permuted assumes the effect of sorting [lo, hi) of x.
func (p *psort) permuted(c *CallCtx, x *collInfo, lo, hi *Term, stable bool) {
	e, st := p.d.e, c.st
	p.write(c, x, lo, hi)
	a := p.cont(st, x)
	b := e.fresh(x.name+".c", arr(SInt))
	pi, inv := e.fresh("perm", SInt).Name, e.fresh("perm.inv", SInt).Name
	k, l := freshBound("k", SInt), freshBound("l", SInt)
	f := func(t *Term) *Term { return UF(pi, SInt, t) }
	in := within(k, lo, hi)
	st.assume(p.frame(a, b, lo, hi))
	st.assume(Forall([]*Term{k}, Implies(in, And(within(f(k), lo, hi), Eq(Select(b, k), Select(a, f(k))), Eq(UF(inv, SInt, f(k)), k))), []*Term{Select(b, k)}))
	st.assume(p.sortedBy(b, lo, hi, false))
	if stable {
		st.assume(Forall([]*Term{k, l}, Implies(And(Le(lo, k), Lt(k, l), Lt(l, hi), Eq(p.rk(Select(b, k)), p.rk(Select(b, l)))), Lt(f(k), f(l))), []*Term{Select(b, k), Select(b, l)}))
	}
	p.setCont(st, x, b)
}

func isInt(v Val) *Term {
	if t, ok := v.(*Term); ok && t.Sort == SInt {
		return t
	}
	return nil
}

// install gives the methods of collections their contracts.
func (p *psort) install() {
	e := p.d.e
	one := IntLit(1)
	installLocalChans(e)
	e.invoke = func(e *Engine, c *CallCtx, recv Val, m *types.Func) ([]Outcome, bool) {
		x := p.coll(recv)
		if x == nil {
			return nil, false
		}
		arg := func(i int) *Term { return c.args[i].(*Term) }
		switch m.Name() {
		case "Len":
			return c.ret(p.n), true
		case "Less":
			i, j := arg(0), arg(1)
			p.bounds(c, "Less", And(within(i, z0, p.n), within(j, z0, p.n)))
			p.read(c, x, i, Add(i, one))
			p.read(c, x, j, Add(j, one))
			a := p.cont(c.st, x)
			return c.ret(Lt(p.rk(Select(a, i)), p.rk(Select(a, j)))), true
		case "Swap":
			i, j := arg(0), arg(1)
			p.bounds(c, "Swap", And(within(i, z0, p.n), within(j, z0, p.n)))
			p.write(c, x, i, Add(i, one))
			p.write(c, x, j, Add(j, one))
			a := p.cont(c.st, x)
			p.setCont(c.st, x, Store(Store(a, i, Select(a, j)), j, Select(a, i)))
			return c.ret(), true
		case "SequentialSort":
			i, j := arg(0), arg(1)
			p.bounds(c, "SequentialSort", And(Le(z0, i), Le(i, j), Le(j, p.n)))
			p.permuted(c, x, i, j, p.stable)
			return c.ret(), true
		case "NewTemp":
			e.access(c.st, Access{Obj: x.obj, Lo: z0, Hi: z0}, c.pos)
			k := 1
			if v, ok := c.st.mem["temps"].(*Term); ok {
				n, _ := v.isInt()
				k = int(n.Int64()) + 1
			}
			c.st.mem["temps"] = IntLit(int64(k))
			if k >= len(p.colls) {
				p.newColl(c.st, fmt.Sprintf("temp%d", k)).typ = c.sig.Results().At(0).Type()
			} else {
				t := p.colls[k]
				c.st.assume(Ne(t.term, nilU))
				c.st.heap[t.obj] = &Obj{ID: t.obj, Name: t.name, Kind: kColl, Arr: e.fresh(t.name+".c", arr(SInt)), Owner: c.st.cur}
			}
			return c.ret(p.colls[k].term), true
		case "Assign":
			y := p.coll(c.args[0])
			if y == nil {
				e.unsup("Assign from %T", c.args[0])
			}
			e.access(c.st, Access{Obj: x.obj, Lo: z0, Hi: z0}, c.pos)
			return c.ret(&FuncV{Native: "psort.assign", NArgs: []Val{x.term, y.term}}), true
		}
		return nil, false
	}
	e.models["psort.assign"] = func(e *Engine, c *CallCtx) []Outcome {
		x, y := p.coll(c.bind[0]), p.coll(c.bind[1])
		i, j, n := c.args[0].(*Term), c.args[1].(*Term), c.args[2].(*Term)
		p.bounds(c, "Assign", And(Le(z0, n), Le(z0, i), Le(Add(i, n), p.n), Le(z0, j), Le(Add(j, n), p.n)))
		p.read(c, y, j, Add(j, n))
		p.write(c, x, i, Add(i, n))
		a, s := p.cont(c.st, x), p.cont(c.st, y)
		if k, ok := n.isInt(); ok && k.IsInt64() && k.Int64() == 1 {
			p.setCont(c.st, x, Store(a, i, Select(s, j)))
			return c.ret()
		}
		b := e.fresh(x.name+".c", arr(SInt))
		k := freshBound("k", SInt)
		c.st.assume(p.frame(a, b, i, Add(i, n)))
		c.st.assume(Forall([]*Term{k}, Implies(within(k, i, Add(i, n)), Eq(Select(b, k), Select(s, Add(k, Sub(j, i))))), []*Term{Select(b, k)}))
		p.setCont(c.st, x, b)
		return c.ret()
	}
	isSorted := func(e *Engine, c *CallCtx) []Outcome {
		x := p.coll(c.args[0])
		if x == nil {
			e.unsup("IsSorted of %T", c.args[0])
		}
		p.read(c, x, z0, p.n)
		r := e.fresh("issorted", SBool)
		w := e.fresh("descent", SInt)
		a := p.cont(c.st, x)
		c.st.assume(Implies(r, p.adjacent(a, one, p.n)),
			Implies(Not(r), And(Le(one, w), Lt(w, p.n), Lt(p.rk(Select(a, w)), p.rk(Select(a, Sub(w, one)))))))
		return c.ret(r)
	}
	e.models["sort.IsSorted"] = isSorted
	if p.unit != "psort.IsSorted" {
		if f := p.d.P.fn("psort.IsSorted"); f != nil {
			e.contr[e.body(f)] = isSorted
		}
	}
	for _, n := range []string{"parallel.Do", "parallel.And", "parallel.Or", "speculative.Do", "speculative.And", "speculative.Or"} {
		if f := p.d.P.fn(n); f != nil && e.contr[f] == nil {
			v := &Verifier{e: e}
			n := n
			e.contr[f] = func(e *Engine, c *CallCtx) []Outcome {
				outs, ok := v.compose(&Contract{Name: n}, c)
				if !ok {
					e.unsup("%s on unknown functions", n)
				}
				return outs
			}
		}
	}
	// a collection has the methods its parameter type promises
	e.assertHk = func(e *Engine, st *State, t *Term, T types.Type) ([]typeCase, bool) {
		it, ok := under(T).(*types.Interface)
		if c := p.coll(t); ok && c != nil && c.typ != nil && types.Implements(c.typ, it) {
			return []typeCase{{typ: T, cond: True, val: t}}, true
		}
		return nil, false
	}
	e.recH = p.recCall
	e.noAlt = true
	e.mergePure = true
	e.termLoops = true
	e.cands = p.cands
}

// ---- recursive helpers

func ints(args []Val) (pos []int) {
	for i, a := range args {
		if isInt(a) != nil {
			pos = append(pos, i)
		}
	}
	return
}

// reachColls finds the collections behind a value: what it compares, and what
// it assigns from and to.
func (p *psort) reachColls(st *State, v Val, depth int) (less, dst, src *collInfo) {
	if depth > 4 {
		return
	}
	merge := func(v Val) {
		a, b, c := p.reachColls(st, v, depth+1)
		if less == nil {
			less = a
		}
		if dst == nil {
			dst, src = b, c
		}
	}
	switch x := v.(type) {
	case *Term:
		if c := p.coll(x); c != nil {
			return c, nil, nil
		}
		if y := unbox(x); y != nil && y != Val(x) {
			merge(y)
		}
	case IfaceV:
		merge(x.V)
	case Ptr:
		if x.Obj != 0 {
			if o := st.heap[x.Obj]; o != nil && o.Kind == kVar {
				merge(getPath(o.Val, pathIdx(x.Path)))
			}
		}
	case StructV:
		for _, f := range x.Fields {
			merge(f)
		}
	case *FuncV:
		if x.Native == "psort.assign" {
			return nil, p.coll(x.NArgs[0]), p.coll(x.NArgs[1])
		}
		if x.Fn != nil && strings.HasPrefix(x.Fn.Name(), "Less") {
			for _, b := range x.Bind {
				merge(b)
			}
		}
	}
	return
}

func (p *psort) kindOf(fn *ssa.Function, args []Val) string {
	if fn.Signature.Results().Len() == 1 && types.Identical(under(fn.Signature.Results().At(0).Type()), types.Typ[types.Bool]) {
		return "test"
	}
	if fn.Signature.Results().Len() != 0 {
		return ""
	}
	switch k := len(ints(args)); {
	case k >= 5:
		return "merge"
	case k >= 2:
		return "sort"
	}
	return ""
}

// options: how the contract's range may be passed, most likely first.
func (p *psort) options(fn *ssa.Function, args []Val, kind string) []*sortOpt {
	is := ints(args)
	var out []*sortOpt
	if kind == "merge" {
		if len(is) == 5 {
			out = append(out, &sortOpt{is, false}, &sortOpt{is, true})
		}
		return out
	}
	for _, ends := range []bool{false, true} {
		for _, a := range is {
			for _, b := range is {
				if a < b {
					out = append(out, &sortOpt{[]int{a, b}, ends})
				}
			}
		}
	}
	for _, ends := range []bool{false, true} {
		for _, a := range is {
			for _, b := range is {
				if a > b {
					out = append(out, &sortOpt{[]int{a, b}, ends})
				}
			}
		}
	}
	return out
}

func (p *psort) context(fn *ssa.Function, args []Val, kind string, opt *sortOpt) *sortCtx {
	x := &sortCtx{kind: kind}
	at := func(i int) *Term { return args[opt.pos[i]].(*Term) }
	one := IntLit(1)
	if kind == "merge" {
		x.p1, x.e1, x.p2, x.e2, x.p3 = at(0), at(1), at(2), at(3), at(4)
		if !opt.ends {
			x.e1, x.e2 = Add(x.e1, one), Add(x.e2, one)
		}
		x.dec = Add(Sub(x.e1, x.p1), Sub(x.e2, x.p2))
		return x
	}
	x.lo, x.hi = at(0), at(1)
	if !opt.ends {
		x.hi = Add(x.lo, x.hi)
	}
	x.dec = Sub(x.hi, x.lo)
	return x
}

func (p *psort) roles(st *State, args []Val) (src, dst *collInfo) {
	var from *collInfo
	for _, a := range args {
		l, d, s := p.reachColls(st, a, 0)
		if src == nil && l != nil {
			src = l
		}
		if d != nil {
			dst, from = d, s
		}
	}
	if src == nil || dst == nil || from != src || dst == src {
		p.d.e.unsup("the collections of a merge are not recognised")
	}
	return
}

// requires is the precondition of the contract of a recursive helper.
func (p *psort) requires(x *sortCtx, st *State) *Term {
	switch x.kind {
	case "sort":
		return And(Le(z0, x.lo), Le(x.lo, x.hi), Le(x.hi, p.n))
	case "test":
		return And(Le(IntLit(1), x.lo), Le(x.lo, x.hi), Le(x.hi, p.n))
	}
	return And(Le(z0, x.p1), Le(x.p1, x.e1), Le(x.e1, x.p2), Le(x.p2, x.e2), Le(x.e2, p.n), Le(z0, x.p3), Le(Add(x.p3, x.dec), p.n))
}

func (p *psort) recCall(e *Engine, c *CallCtx, ri *RecInfo) []Outcome {
	fn := e.body(c.fn)
	args := append([]Val(nil), c.args...)
	kind := p.kindOf(fn, args)
	if kind == "" {
		e.unsup("recursive function %s without contract", shortFn(fn))
	}
	opt := p.opts[fn]
	if opt == nil {
		os := p.options(fn, args, kind)
		if len(os) == 0 {
			e.unsup("the arguments of recursive function %s do not match a contract", shortFn(fn))
		}
		opt = os[p.picks.of(fn, len(os))]
		p.opts[fn] = opt
	}
	x := p.context(fn, args, kind, opt)
	if kind == "sort" && p.unit == "psort.StableSort" && p.cur.kind == "" && !p.inl[fn] {
		// the outermost call: by its body, so that it is known what has been waited for
		p.inl[fn] = true
		defer func() { p.inl[fn] = false }()
		return e.execFn(c.st, fn, c.args, c.bind, c.recID)
	}
	role := map[int]bool{}
	for _, i := range opt.pos {
		role[i] = true
	}
	key := shortFn(fn)
	inst := &sortInst{fn: fn, opt: opt, bind: c.bind, args: make([]Val, len(args))}
	for i, a := range args {
		if isInt(a) == nil {
			inst.args[i] = a
			key += "|" + valKey(a)
		}
	}
	for _, b := range c.bind {
		key += "|" + valKey(b)
	}
	if kind == "merge" {
		x.src, x.dst = p.roles(c.st, args)
		inst.src, inst.dst = x.src, x.dst
	}
	if e.quiet == 0 {
		if old := p.insts[key]; old != nil {
			v := &Verifier{e: e}
			for id, o := range old.st.heap {
				n := c.st.heap[id]
				if n == nil || n == o || o.Kind != kVar {
					continue
				}
				if !sameVal(o.Val, n.Val) && v.reach(c.st, append(append([]Val{}, c.bind...), inst.args...), id) {
					e.unsup("recursive function %s shares variable %s that changes between calls", shortFn(fn), o.Name)
				}
			}
		} else {
			inst.st = c.st.clone()
			p.insts[key] = inst
			p.queue = append(p.queue, inst)
		}
	}
	return p.apply(c, x, fn)
}

// apply replaces a call by the contract.
func (p *psort) apply(c *CallCtx, x *sortCtx, fn *ssa.Function) []Outcome {
	e, st := p.d.e, c.st
	if e.quiet == 0 && p.picks.open(fn) {
		// a reading of the parameters that does not fit the calls is not the right one
		if !e.proves(st, p.requires(x, st)) || (p.cur.dec != nil && p.cur.kind == x.kind && !e.proves(st, And(Le(z0, x.dec), Lt(x.dec, p.cur.dec)))) {
			p.picks.reject(fn)
		}
	}
	if e.oblige(st, "pre", "the range passed to "+shortFn(fn)+" lies within the collection", c.pos, p.requires(x, st)) {
		st.assume(p.requires(x, st))
	}
	if p.cur.dec != nil && p.cur.kind == x.kind {
		e.oblige(st, "term", shortFn(fn)+" is called for less than its caller has to do", c.pos, And(Le(z0, x.dec), Lt(x.dec, p.cur.dec)))
	}
	one := IntLit(1)
	switch x.kind {
	case "sort":
		p.permuted(c, p.colls[0], x.lo, x.hi, p.stable)
		if p.unit == "psort.StableSort" && len(p.colls) > 1 {
			t := p.colls[1]
			p.write(c, t, x.lo, x.hi)
			b := e.fresh(t.name+".c", arr(SInt))
			st.assume(p.frame(p.cont(st, t), b, x.lo, x.hi))
			p.setCont(st, t, b)
		}
		return c.ret()
	case "test":
		p.read(c, p.colls[0], Sub(x.lo, one), x.hi)
		r := e.fresh("tested", SBool)
		st.assume(Implies(r, p.adjacent(p.cont(st, p.colls[0]), x.lo, x.hi)), Implies(Not(r), Not(p.sorted)))
		return c.ret(r)
	}
	s := p.cont(st, x.src)
	e.oblige(st, "pre", "the runs passed to "+shortFn(fn)+" are sorted", c.pos, And(p.sortedBy(s, x.p1, x.e1, false), p.sortedBy(s, x.p2, x.e2, false)))
	p.read(c, x.src, x.p1, x.e1)
	p.read(c, x.src, x.p2, x.e2)
	end := Add(x.p3, x.dec)
	p.write(c, x.dst, x.p3, end)
	a := p.cont(st, x.dst)
	b := e.fresh(x.dst.name+".c", arr(SInt))
	sg := e.fresh("from", SInt).Name
	k, l := freshBound("k", SInt), freshBound("l", SInt)
	f := func(t *Term) *Term { return UF(sg, SInt, t) }
	st.assume(p.frame(a, b, x.p3, end))
	st.assume(Forall([]*Term{k}, Implies(within(k, x.p3, end), And(Eq(Select(b, k), Select(s, f(k))), Or(within(f(k), x.p1, x.e1), within(f(k), x.p2, x.e2)))), []*Term{Select(b, k)}))
	rx, ry := p.rk(Select(b, k)), p.rk(Select(b, l))
	st.assume(Forall([]*Term{k, l}, Implies(And(Le(x.p3, k), Lt(k, l), Lt(l, end)), Or(Lt(rx, ry), And(Eq(rx, ry), Lt(f(k), f(l))))), []*Term{Select(b, k), Select(b, l)}))
	p.setCont(st, x.dst, b)
	return c.ret()
}

// verifyInst verifies the body of a recursive helper against its contract.
func (p *psort) verifyInst(inst *sortInst) {
	d := p.d
	e := d.e
	st := inst.st.clone()
	// a thread of its own that knows what the caller knows; what other threads
	// do to the collections is the caller's concern
	me := st.ntid
	st.ntid++
	u := st.thread()
	known := mergeKnown(u.Known, map[int]int{st.cur: len(u.Log)})
	drop := map[int]bool{}
	for _, c := range p.colls {
		drop[c.obj] = true
	}
	for id, t := range st.thr {
		n := t.clone()
		n.Log = append([]Access(nil), t.Log...)
		for i := range n.Log {
			if drop[n.Log[i].Obj] {
				n.Log[i] = Access{Obj: -1}
			}
		}
		st.thr[id] = n
	}
	st.thr[me] = &Thread{ID: me, Parent: st.cur, Known: known, Own: map[string]*Term{}, Joined: map[int]map[string]*Term{}, Name: "helper"}
	st.cur = me
	st.tasks = 1
	p.newRank()
	args := append([]Val(nil), inst.args...)
	for i := range args {
		if args[i] == nil {
			nm := inst.fn.Params[i].Name()
			if nm == "" {
				nm = fmt.Sprintf("arg%d", i)
			}
			args[i] = e.symVal(st, inst.fn.Params[i].Type(), nm)
		}
	}
	kind := p.kindOf(inst.fn, args)
	x := p.context(inst.fn, args, kind, inst.opt)
	x.src, x.dst = inst.src, inst.dst
	x.ent = map[int]*Term{}
	for _, c := range p.colls {
		a := e.fresh(c.name+".c", arr(SInt))
		p.setCont(st, c, a)
		x.ent[c.obj] = a
		if kind == "merge" && c == x.dst {
			continue
		}
		if kind != "test" {
			st.assume(p.identity(a))
		}
	}
	st.assume(p.requires(x, st))
	if kind == "merge" {
		s := p.cont(st, x.src)
		st.assume(p.sortedBy(s, x.p1, x.e1, false), p.sortedBy(s, x.p2, x.e2, false))
	}
	if kind == "test" {
		p.unsortedFact(st)
	}
	p.cur = x
	heap0 := map[int]*Obj{}
	for id, o := range st.heap {
		heap0[id] = o
	}
	outs := d.e.execFn(st, inst.fn, args, inst.bind, 0)
	normal, panics := split(outs)
	for _, o := range panics {
		if e.feasible(o.st) {
			d.ob(o.st, "panicfree", shortFn(inst.fn)+" does not panic", False)
		}
	}
	for _, o := range normal {
		p.post(o, x, shortFn(inst.fn))
		// nothing but the collections changes
		for id, h := range heap0 {
			n := o.st.heap[id]
			if h.Kind == kVar && n != nil && !sameVal(h.Val, n.Val) && p.shared(o.st, id) {
				e.unsup("recursive function %s changes variable %s", shortFn(inst.fn), h.Name)
			}
		}
		// other instances of the function may run at the same time
		var acc []Access
		for id, t := range o.st.thr {
			if id >= me {
				acc = append(acc, t.Log...)
			}
		}
		for i, a := range acc {
			h := heap0[a.Obj]
			if h == nil || h.Kind != kVar {
				continue
			}
			for _, b := range acc[i:] {
				if b.Obj == a.Obj && (a.Write || b.Write) && !(a.Atomic && b.Atomic) && overlapPath(a.Path, b.Path) && !commonLock(a.Locks, b.Locks) {
					e.oblige(o.st, "race", fmt.Sprintf("no data race on %s between concurrent calls of %s", h.Name, shortFn(inst.fn)), token.NoPos, False)
				}
			}
		}
	}
	d.reach(shortFn(inst.fn), normal)
}

// shared: variables that a helper may change (the flag of IsSorted).
func (p *psort) shared(st *State, id int) bool {
	_, ok := st.mem[fmt.Sprintf("flag:%d", id)]
	return !ok
}

func (p *psort) post(o Outcome, x *sortCtx, name string) {
	d := p.d
	st := o.st
	c := p.colls[0]
	switch x.kind {
	case "sort":
		a := p.cont(st, c)
		if p.stable {
			d.ob(st, "sorted", name+" leaves the range sorted, equal elements in their order", p.sortedBy(a, x.lo, x.hi, true))
		} else {
			d.ob(st, "sorted", name+" leaves the range sorted", p.sortedBy(a, x.lo, x.hi, false))
		}
		p.permPost(st, a, x.ent[c.obj], x.lo, x.hi, name)
		for _, t := range p.colls[1:] {
			d.ob(st, "perm", name+" uses its part of the temporary collection only", p.frame(x.ent[t.obj], p.cont(st, t), x.lo, x.hi))
		}
	case "test":
		r := o.vals[0].(*Term)
		a := p.cont(st, c)
		d.ob(st, "issorted", name+" reports true only if the range has no descent", Implies(r, p.adjacent(a, x.lo, x.hi)))
		d.ob(st, "issorted", name+" reports false only if the collection is not sorted", Implies(Not(r), Not(p.sorted)))
		d.ob(st, "perm", name+" does not modify the collection", Eq(a, x.ent[c.obj]))
	case "merge":
		a := p.cont(st, x.dst)
		end := Add(x.p3, x.dec)
		k := freshBound("k", SInt)
		d.ob(st, "sorted", name+" merges in order, equal elements of the first run first", p.sortedBy(a, x.p3, end, true))
		d.ob(st, "perm", name+" takes the elements of the two runs", Forall([]*Term{k}, Implies(within(k, x.p3, end), Or(within(Select(a, k), x.p1, x.e1), within(Select(a, k), x.p2, x.e2))), []*Term{Select(a, k)}))
		d.ob(st, "perm", name+" does not modify anything else", And(p.frame(x.ent[x.dst.obj], a, x.p3, end), Eq(p.cont(st, x.src), x.ent[x.src.obj])))
	}
	p.joined(st, name)
}

func (p *psort) permPost(st *State, a, a0, lo, hi *Term, name string) {
	d := p.d
	d.ob(st, "perm", name+" keeps the elements of the range in the range", p.holdsRange(a, lo, hi))
	d.ob(st, "perm", name+" does not duplicate an element", p.distinct(a, lo, hi))
	d.ob(st, "perm", name+" does not touch anything outside the range", p.frame(a0, a, lo, hi))
}

// joined: everything other threads did to the collections happened before.
func (p *psort) joined(st *State, name string) {
	t := st.thread()
	ok := true
	for id, u := range st.thr {
		if id == st.cur {
			continue
		}
		for k := t.Known[id]; k < len(u.Log); k++ {
			for _, c := range p.colls {
				if u.Log[k].Obj == c.obj {
					ok = false
				}
			}
		}
	}
	p.d.ob(st, "wait", "nothing touches the collection after "+name+" has returned", BoolLit(ok))
}

func (p *psort) newRank() {
	p.rankN++
	p.rank = fmt.Sprintf("rank%d", p.rankN)
}

// ---- candidate invariants

func (p *psort) cands(e *Engine, lc *LoopCtx) []Cand {
	x := p.cur
	var out []Cand
	if x.kind == "" && p.unit != "psort.IsSorted" {
		return nil
	}
	add := func(name string, f func(v *View) *Term) { out = append(out, Cand{name, f}) }
	rs := e.roles(lc)
	var vars, invs []Role
	for _, r := range rs {
		if strings.HasPrefix(r.Name, "ghost:") {
			continue
		}
		if r.Inv {
			invs = append(invs, r)
		} else {
			vars = append(vars, r)
		}
	}
	if x.kind == "merge" {
		// not the parameters, except where one is all there is
		ends := map[*Term]bool{}
		for _, t := range []*Term{x.p1, x.e1, x.p2, x.e2, x.p3} {
			ends[t], ends[Sub(t, IntLit(1))] = true, true
		}
		var keep []Role
		for _, r := range invs {
			if !ends[r.Get(lc.entry)] {
				keep = append(keep, r)
			}
		}
		invs = keep
	}
	if len(invs) > 8 {
		invs = invs[len(invs)-8:]
	}
	one := IntLit(1)
	modified := func(c *collInfo) bool { return lc.mods[fmt.Sprint(c.obj)] }
	get := func(v *View, c *collInfo) *Term {
		o := v.st.heap[c.obj]
		if o == nil {
			return nil
		}
		return o.Arr
	}
	data := p.colls[0]
	switch x.kind {
	case "sort":
		if modified(data) {
			a0 := x.ent[data.obj]
			add("perm:in", func(v *View) *Term { return p.holdsRange(get(v, data), x.lo, x.hi) })
			add("perm:distinct", func(v *View) *Term { return p.distinct(get(v, data), x.lo, x.hi) })
			add("perm:frame", func(v *View) *Term { return p.frame(a0, get(v, data), x.lo, x.hi) })
		}
		// one side of the range compared with a fixed element
		type ix struct {
			n string
			f func(v *View) *Term
		}
		fixed := []ix{{"lo", func(*View) *Term { return x.lo }}, {"hi", func(*View) *Term { return x.hi }}}
		pivots := []ix{{"lo", func(*View) *Term { return x.lo }}, {"hi-1", func(*View) *Term { return Sub(x.hi, one) }}}
		for _, w := range vars {
			w := w
			for _, d := range []int64{0, 1} {
				d := d
				at := func(v *View) *Term { return nn(w.Get(v), func(t *Term) *Term { return Add(t, IntLit(d)) }) }
				for _, fx := range fixed {
					for _, pv := range pivots {
						for _, dir := range []bool{true, false} {
							fx, pv, dir := fx, pv, dir
							add(fmt.Sprintf("side:%s%+d:%s:%s:%v", w.Name, d, fx.n, pv.n, dir), func(v *View) *Term {
								b := at(v)
								if b == nil {
									return nil
								}
								lo, hi := b, fx.f(v)
								if fx.n == "lo" {
									lo, hi = hi, lo
								}
								a := get(v, data)
								k := freshBound("k", SInt)
								r, q := p.rk(Select(a, k)), p.rk(Select(a, pv.f(v)))
								if !dir {
									r, q = q, r
								}
								return Forall([]*Term{k}, Implies(within(k, lo, hi), Le(r, q)), []*Term{Select(a, k)})
							})
						}
					}
				}
			}
		}
	case "test", "":
		if len(vars) > 3 {
			vars = vars[:3]
		}
		los := []Role{{Name: "0", Get: func(*View) *Term { return z0 }}}
		if x.kind == "test" {
			los = []Role{{Name: "lo", Get: func(*View) *Term { return x.lo }}}
		}
		for _, w := range vars {
			for _, l := range los {
				for _, b := range append([]Role{{Name: "0", Get: func(*View) *Term { return z0 }}}, invs...) {
					for _, d := range []int64{0, 1} {
						w, l, b, d := w, l, b, d
						add(fmt.Sprintf("asc:%s:%s+%s%+d", l.Name, w.Name, b.Name, d), func(v *View) *Term {
							t, o, lo := w.Get(v), b.Get(v), l.Get(v)
							if t == nil || o == nil {
								return nil
							}
							if l.Name == "0" {
								lo = one
							}
							return p.adjacent(get(v, data), lo, Add(t, o, IntLit(d)))
						})
					}
				}
			}
		}
	case "merge":
		src, dst := x.src, x.dst
		k := freshBound("k", SInt)
		m := freshBound("m", SInt)
		// bounds of searches: everything on one side compares with a fixed element
		all := append(append([]Role{}, vars...), invs...)
		if !modified(dst) {
			for _, w := range vars {
				for _, pv := range all {
					if pv.Name == w.Name {
						continue
					}
					{
						if t := w.Get(lc.entry); t == nil {
							continue
						}
						for side := 0; side < 2; side++ {
							for cmp := 2 * side; cmp < 2*side+2; cmp++ {
								w, pv, side, cmp := w, pv, side, cmp
								add(fmt.Sprintf("search:%s:%s:%d:%d", w.Name, pv.Name, side, cmp), func(v *View) *Term {
									t, q := w.Get(v), pv.Get(v)
									if t == nil || q == nil {
										return nil
									}
									lo, hi := w.Get(lc.entry), t
									if side == 1 {
										lo, hi = hi, lo
									}
									s := get(v, src)
									r, rq := p.rk(Select(s, k)), p.rk(Select(s, q))
									var g *Term
									switch cmp {
									case 0:
										g = Le(r, rq)
									case 1:
										g = Lt(r, rq)
									case 2:
										g = Le(rq, r)
									default:
										g = Lt(rq, r)
									}
									return Forall([]*Term{k}, Implies(within(k, lo, hi), g), []*Term{Select(s, k)})
								})
							}
						}
					}
				}
			}
			break
		}
		for _, w := range vars {
			w := w
			// the part of the result that is filled
			add("filled:sorted:"+w.Name, func(v *View) *Term {
				return nn(w.Get(v), func(t *Term) *Term { return p.sortedBy(get(v, dst), x.p3, t, true) })
			})
			for _, u := range vars {
				u := u
				if u.Name == w.Name {
					continue
				}
				for i, run := range [][2]*Term{{x.p1, x.e1}, {x.p2, x.e2}} {
					run := run
					add(fmt.Sprintf("filled:before:%s:%s:%d", w.Name, u.Name, i), func(v *View) *Term {
						t, q := w.Get(v), u.Get(v)
						if t == nil || q == nil {
							return nil
						}
						a, s := get(v, dst), get(v, src)
						return Forall([]*Term{k, m}, Implies(And(within(k, x.p3, t), within(m, q, run[1])), p.before(Select(a, k), Select(s, m))), []*Term{Select(a, k), Select(s, m)})
					})
				}
				for _, u2 := range vars {
					u2 := u2
					if u2.Name == w.Name || u2.Name == u.Name {
						continue
					}
					add(fmt.Sprintf("filled:from:%s:%s:%s", w.Name, u.Name, u2.Name), func(v *View) *Term {
						t, q, r := w.Get(v), u.Get(v), u2.Get(v)
						if t == nil || q == nil || r == nil {
							return nil
						}
						a := get(v, dst)
						return Forall([]*Term{k}, Implies(within(k, x.p3, t), Or(within(Select(a, k), x.p1, q), within(Select(a, k), x.p2, r))), []*Term{Select(a, k)})
					})
					add(fmt.Sprintf("filled:count:%s:%s:%s", w.Name, u.Name, u2.Name), func(v *View) *Term {
						t, q, r := w.Get(v), u.Get(v), u2.Get(v)
						if t == nil || q == nil || r == nil {
							return nil
						}
						return Eq(Sub(t, x.p3), Add(Sub(q, x.p1), Sub(r, x.p2)))
					})
				}
			}
			add("filled:frame:"+w.Name, func(v *View) *Term {
				return nn(w.Get(v), func(t *Term) *Term { return p.frame(x.ent[dst.obj], get(v, dst), x.p3, t) })
			})
		}
	}
	return out
}

// ---- drivers

// picks selects among the readings of the parameters of recursive functions.
type picks struct {
	idx, n map[*ssa.Function]int
	out    map[*ssa.Function]map[int]bool // rejected
	fixed  map[*ssa.Function]bool         // every reading was rejected: an error in the code
}

func (k *picks) of(fn *ssa.Function, n int) int {
	k.n[fn] = n
	return k.idx[fn]
}

func (k *picks) open(fn *ssa.Function) bool { return k.n[fn] > 1 && !k.fixed[fn] }

// next moves on to another reading of fn.
func (k *picks) next(fn *ssa.Function) bool {
	if k.out[fn] == nil {
		k.out[fn] = map[int]bool{}
	}
	k.out[fn][k.idx[fn]] = true
	for i := 0; i < k.n[fn]; i++ {
		if !k.out[fn][i] {
			k.idx[fn] = i
			return true
		}
	}
	return false
}

func (k *picks) reject(fn *ssa.Function) {
	if !k.next(fn) {
		k.fixed[fn], k.idx[fn] = true, 0
	}
	panic(restart{})
}

// rerun runs f again with the functions found to be recursive known, and with
// other readings of their parameters while obligations fail.
func (d *Driver) rerun(f func(p *psort)) {
	e := d.e
	type snap struct {
		obls  map[string]*Obl
		order []string
		bad   int
	}
	var best *snap
	e.sums = true
	start := time.Now()
	pk := &picks{idx: map[*ssa.Function]int{}, n: map[*ssa.Function]int{}, out: map[*ssa.Function]map[int]bool{}, fixed: map[*ssa.Function]bool{}}
	for {
		for try := 0; try < 30; try++ {
			e.obls, e.order = map[string]*Obl{}, nil
			e.stack, e.colls, e.surv = nil, nil, map[string]map[string]bool{}
			e.quiet, e.explore = 0, 0
			p := &psort{d: d, insts: map[string]*sortInst{}, opts: map[*ssa.Function]*sortOpt{}, inl: map[*ssa.Function]bool{}, picks: pk, unit: d.name}
			p.newRank()
			rs := protect(e, func() { f(p) })
			if rs == nil {
				break
			}
			if rs.fn != nil {
				e.recs[e.body(rs.fn)] = &RecInfo{fn: rs.fn, data: map[string]any{}}
			}
		}
		e.settle()
		bad := 0
		for _, o := range e.obls {
			if o.Failed {
				bad++
			}
		}
		if best == nil || bad < best.bad {
			best = &snap{e.obls, e.order, bad}
		}
		more := false
		if bad > 0 && time.Since(start) < 100*time.Second {
			var fns []*ssa.Function
			for fn := range pk.n {
				if pk.open(fn) {
					fns = append(fns, fn)
				}
			}
			sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
			for _, fn := range fns {
				if more = pk.next(fn); more {
					break
				}
			}
		}
		if !more {
			break
		}
	}
	e.obls, e.order = best.obls, best.order
}

func (p *psort) start(fn *ssa.Function) *State {
	e := p.d.e
	st := newState()
	p.n = e.fresh("n", SInt)
	st.assume(Le(z0, p.n), Le(p.n, IntLit(1<<61)))
	c := p.newColl(st, "data")
	c.typ = fn.Params[0].Type()
	p.install()
	p.cur = &sortCtx{ent: map[int]*Term{c.obj: p.cont(st, c)}}
	return st
}

func (p *psort) drain() {
	for len(p.queue) > 0 {
		i := p.queue[0]
		p.queue = p.queue[1:]
		p.verifyInst(i)
	}
}

func sortDriver(d *Driver, name string, stable bool) {
	d.rerun(func(p *psort) {
		p.stable = stable
		fn := d.fn("psort." + name)
		st := p.start(fn)
		c := p.colls[0]
		a0 := p.cont(st, c)
		st.assume(p.identity(a0))
		outs := d.exec(st, fn, c.term)
		normal, panics := split(outs)
		for _, o := range panics {
			if d.e.feasible(o.st) {
				d.ob(o.st, "panicfree", name+" does not panic", False)
			}
		}
		for _, o := range normal {
			a := p.cont(o.st, c)
			if stable {
				d.ob(o.st, "sorted", name+" leaves the collection sorted, equal elements in their order", p.sortedBy(a, z0, p.n, true))
			} else {
				d.ob(o.st, "sorted", name+" leaves the collection sorted", p.adjacent(a, IntLit(1), p.n))
			}
			p.permPost(o.st, a, a0, z0, p.n, name)
			p.joined(o.st, name)
		}
		d.reach(name, normal)
		p.drain()
	})
}

// unsortedFact ties the flag "the collection is sorted" to its content.
func (p *psort) unsortedFact(st *State) {
	e := p.d.e
	a := p.cont(st, p.colls[0])
	s := e.fresh("sorted", SBool)
	w := e.fresh("descent", SInt)
	one := IntLit(1)
	st.assume(Implies(s, p.adjacent(a, one, p.n)), Implies(Not(s), And(within(w, one, p.n), Lt(p.rk(Select(a, w)), p.rk(Select(a, Sub(w, one)))))))
	p.sorted = s
}

func isSortedDriver(d *Driver) {
	d.rerun(func(p *psort) {
		name := "IsSorted"
		fn := d.fn("psort.IsSorted")
		st := p.start(fn)
		c := p.colls[0]
		a0 := p.cont(st, c)
		p.unsortedFact(st)
		p.flags()
		outs := d.exec(st, fn, c.term)
		normal, panics := split(outs)
		for _, o := range panics {
			if d.e.feasible(o.st) {
				d.ob(o.st, "panicfree", name+" does not panic", False)
			}
		}
		for _, o := range normal {
			r := o.vals[0].(*Term)
			a := p.cont(o.st, c)
			d.ob(o.st, "issorted", name+" reports true only if no element sorts before its predecessor", Implies(r, p.adjacent(a, IntLit(1), p.n)))
			d.ob(o.st, "issorted", name+" reports false only if some element sorts before its predecessor", Implies(Not(r), Not(p.sorted)))
			d.ob(o.st, "perm", name+" does not modify the collection", Eq(a, a0))
			p.joined(o.st, name)
		}
		d.reach(name, normal)
		p.drain()
	})
}

// flags gives atomic variables that tasks share the invariant "set only if the
// collection is not sorted": every store is checked, every load gives any value
// the invariant allows.
func (p *psort) flags() {
	e := p.d.e
	cell := func(c *CallCtx) Ptr {
		q, ok := c.args[0].(Ptr)
		if !ok {
			e.unsup("atomic operation on %T", c.args[0])
		}
		if o := e.obj(c.st, q.Obj); o.Kind == kVar {
			if s, ok := getPath(o.Val, pathIdx(q.Path)).(StructV); ok {
				q.Path = fmt.Sprintf("%s/%d", q.Path, len(s.Fields)-1)
			}
		}
		c.st.mem[fmt.Sprintf("flag:%d", q.Obj)] = True
		return q
	}
	num := func(v Val) *Term {
		t := v.(*Term)
		if t.Sort == SBool {
			return Ite(t, IntLit(1), z0)
		}
		return t
	}
	load := func(b bool) func(e *Engine, c *CallCtx) []Outcome {
		return func(e *Engine, c *CallCtx) []Outcome {
			q := cell(c)
			e.access(c.st, Access{Obj: q.Obj, Path: q.Path, Atomic: true}, c.pos)
			v := e.fresh("flag", SInt)
			lo, hi := intRange(types.Typ[types.Int32])
			c.st.assume(Le(lo, v), Le(v, hi), Implies(Ne(v, z0), Not(p.sorted)))
			if b {
				return c.ret(Ne(v, z0))
			}
			return c.ret(v)
		}
	}
	store := func(e *Engine, c *CallCtx) []Outcome {
		q := cell(c)
		e.access(c.st, Access{Obj: q.Obj, Path: q.Path, Atomic: true, Write: true}, c.pos)
		e.oblige(c.st, "issorted", "the flag is set only if the collection is not sorted", c.pos, Implies(Ne(num(c.args[1]), z0), Not(p.sorted)))
		return c.ret()
	}
	for _, s := range []string{"Int32", "Int64", "Uint32", "Uint64", "Bool"} {
		e.models["sync/atomic.Load"+s] = load(false)
		e.models["sync/atomic.Store"+s] = store
		e.models["(*sync/atomic."+s+").Load"] = load(s == "Bool")
		e.models["(*sync/atomic."+s+").Store"] = store
	}
}

func init() {
	drivers["psort.Sort"] = func(d *Driver) { sortDriver(d, "Sort", false) }
	drivers["psort.StableSort"] = func(d *Driver) { sortDriver(d, "StableSort", true) }
	drivers["psort.IsSorted"] = isSortedDriver
}

var _ = token.NoPos
var _ = sort.Ints
