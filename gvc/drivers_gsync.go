package main

import (
	"go/types"
)

// gsync.Map: every method is one operation of the underlying sync.Map, with
// keys and values converted to and from interfaces without loss.
//
// The abstract map is (has, val) over typed keys and values.  Between two
// operations on the underlying map other goroutines can change it (havoc);
// the method has to be explained by exactly one of its operations, at which
// it takes effect, while the others change nothing.

type mapOp struct {
	has0, val0, has1, val1 *Term
}

type gmap struct {
	d        *Driver
	m        Ptr
	has, val *Term
	ops      map[*State]int
}

const opsKey = "gmap.ops"

func init() {
	for _, m := range []string{"Load", "Store", "LoadOrStore", "LoadAndDelete", "Delete", "Swap", "CompareAndSwap", "CompareAndDelete", "Range"} {
		m := m
		drivers["gsync.Map."+m] = func(d *Driver) { mapDriver(d, m) }
	}
	drivers["gsync.Pool.Get"] = func(d *Driver) { poolDriver(d, "Get") }
	drivers["gsync.Pool.Put"] = func(d *Driver) { poolDriver(d, "Put") }
}

type opsV struct{ ops []mapOp }

func getOps(st *State) []mapOp {
	if v, ok := st.mem[opsKey].(*opsV); ok {
		return v.ops
	}
	return nil
}

func mapDriver(d *Driver, name string) {
	e := d.e
	fn := d.fn("gsync.Map." + name)
	T := recvType(fn)
	if fn.Signature.RecvTypeParams().Len() != 2 {
		e.unsup("gsync.Map with other type parameters")
	}
	K := fn.Signature.RecvTypeParams().At(0)
	V := fn.Signature.RecvTypeParams().At(1)
	st := newState()
	m := Ptr{Obj: e.newObj(st, &Obj{Name: "m", Kind: kOpaqu, Typ: T})}

	typed := func(c *CallCtx, v Val, P *types.TypeParam, what string) *Term {
		iv, ok := v.(IfaceV)
		okT := ok && sameType(iv.Typ, P)
		e.oblige(c.st, "map", what+" is passed on as a value of its declared type", c.pos, BoolLit(okT))
		if !okT {
			return e.fresh("untyped", SU)
		}
		return box(iv.V)
	}
	zero := e.zeroT(V).(*Term)
	// op performs one atomic operation on the abstract map.
	op := func(c *CallCtx, eff func(has, val *Term) (h2, v2 *Term)) (has, val *Term) {
		e.oblige(c.st, "map", "the operation is on the map's own sync.Map", c.pos, BoolLit(sameVal(c.args[0], m)))
		has, val = e.fresh("has", arrU(SBool)), e.fresh("val", arrU(SU))
		h2, v2 := eff(has, val)
		c.st.mem[opsKey] = &opsV{append(append([]mapOp{}, getOps(c.st)...), mapOp{has, val, h2, v2})}
		return
	}
	anyOf := func(c *CallCtx, present *Term, v *Term) []res {
		// the stored interface: a V when present, nil otherwise
		var out []res
		if e.feasible(c.st, present) {
			s2 := c.st.clone()
			s2.assume(present)
			out = append(out, res{st: s2, val: IfaceV{V, v}})
		}
		if e.feasible(c.st, Not(present)) {
			s2 := c.st.clone()
			s2.assume(Not(present))
			out = append(out, res{st: s2, val: nilU})
		}
		return out
	}
	id := func(h, v *Term) (*Term, *Term) { return h, v }
	sm := "(*sync.Map)."
	e.models[sm+"Load"] = func(e *Engine, c *CallCtx) []Outcome {
		k := typed(c, c.args[1], K, "the key")
		h, v := op(c, id)
		var out []Outcome
		for _, r := range anyOf(c, Select(h, k), Select(v, k)) {
			out = append(out, Outcome{st: r.st, vals: []Val{r.val, BoolLit(r.val != Val(nilU))}})
		}
		return out
	}
	e.models[sm+"Store"] = func(e *Engine, c *CallCtx) []Outcome {
		k, x := typed(c, c.args[1], K, "the key"), typed(c, c.args[2], V, "the value")
		op(c, func(h, v *Term) (*Term, *Term) { return Store(h, k, True), Store(v, k, x) })
		return c.ret()
	}
	e.models[sm+"Delete"] = func(e *Engine, c *CallCtx) []Outcome {
		k := typed(c, c.args[1], K, "the key")
		op(c, func(h, v *Term) (*Term, *Term) { return Store(h, k, False), v })
		return c.ret()
	}
	e.models[sm+"LoadAndDelete"] = func(e *Engine, c *CallCtx) []Outcome {
		k := typed(c, c.args[1], K, "the key")
		h, v := op(c, func(h, v *Term) (*Term, *Term) { return Store(h, k, False), v })
		var out []Outcome
		for _, r := range anyOf(c, Select(h, k), Select(v, k)) {
			out = append(out, Outcome{st: r.st, vals: []Val{r.val, BoolLit(r.val != Val(nilU))}})
		}
		return out
	}
	e.models[sm+"LoadOrStore"] = func(e *Engine, c *CallCtx) []Outcome {
		k, x := typed(c, c.args[1], K, "the key"), typed(c, c.args[2], V, "the value")
		h, v := op(c, func(h, v *Term) (*Term, *Term) {
			return Store(h, k, True), Store(v, k, Ite(Select(h, k), Select(v, k), x))
		})
		p := Select(h, k)
		return c.ret(IfaceV{V, Ite(p, Select(v, k), x)}, p)
	}
	e.models[sm+"Swap"] = func(e *Engine, c *CallCtx) []Outcome {
		k, x := typed(c, c.args[1], K, "the key"), typed(c, c.args[2], V, "the value")
		h, v := op(c, func(h, v *Term) (*Term, *Term) { return Store(h, k, True), Store(v, k, x) })
		var out []Outcome
		for _, r := range anyOf(c, Select(h, k), Select(v, k)) {
			out = append(out, Outcome{st: r.st, vals: []Val{r.val, BoolLit(r.val != Val(nilU))}})
		}
		return out
	}
	e.models[sm+"CompareAndSwap"] = func(e *Engine, c *CallCtx) []Outcome {
		k, o, x := typed(c, c.args[1], K, "the key"), typed(c, c.args[2], V, "the old value"), typed(c, c.args[3], V, "the new value")
		h, v := op(c, func(h, v *Term) (*Term, *Term) {
			hit := And(Select(h, k), Eq(Select(v, k), o))
			return h, Store(v, k, Ite(hit, x, Select(v, k)))
		})
		return c.ret(And(Select(h, k), Eq(Select(v, k), o)))
	}
	e.models[sm+"CompareAndDelete"] = func(e *Engine, c *CallCtx) []Outcome {
		k, o := typed(c, c.args[1], K, "the key"), typed(c, c.args[2], V, "the old value")
		h, v := op(c, func(h, v *Term) (*Term, *Term) {
			hit := And(Select(h, k), Eq(Select(v, k), o))
			return Store(h, k, And(Select(h, k), Not(hit))), v
		})
		return c.ret(And(Select(h, k), Eq(Select(v, k), o)))
	}

	k, x, y := Val(e.fresh("k", SU)), Val(e.fresh("x", SU)), Val(e.fresh("y", SU))
	kt, xt, yt := k.(*Term), x.(*Term), y.(*Term)
	type sp func(o mapOp, r []Val) *Term
	var args []Val
	var spec sp
	hit := func(o mapOp) *Term { return Select(o.has0, kt) }
	old := func(o mapOp) *Term { return Select(o.val0, kt) }
	T1 := func(v Val) *Term { return v.(*Term) }
	u := freshBound("k", SU)
	// the operation sets the entry of k to (h, v) and leaves the others alone
	sets := func(o mapOp, h, v *Term) *Term {
		return And(Forall([]*Term{u}, Eq(Select(o.has1, u), Ite(Eq(u, kt), h, Select(o.has0, u)))),
			Forall([]*Term{u}, Implies(Select(o.has1, u), Eq(Select(o.val1, u), Ite(Eq(u, kt), v, Select(o.val0, u))))))
	}
	same := func(o mapOp) *Term { return sets(o, hit(o), old(o)) }
	switch name {
	case "Load":
		args = []Val{m, k}
		spec = func(o mapOp, r []Val) *Term {
			return And(same(o), Eq(T1(r[1]), hit(o)), Eq(T1(r[0]), Ite(hit(o), old(o), zero)))
		}
	case "Store":
		args = []Val{m, k, x}
		spec = func(o mapOp, r []Val) *Term { return sets(o, True, xt) }
	case "Delete":
		args = []Val{m, k}
		spec = func(o mapOp, r []Val) *Term { return sets(o, False, old(o)) }
	case "LoadAndDelete":
		args = []Val{m, k}
		spec = func(o mapOp, r []Val) *Term {
			return And(sets(o, False, old(o)), Eq(T1(r[1]), hit(o)), Eq(T1(r[0]), Ite(hit(o), old(o), zero)))
		}
	case "LoadOrStore":
		args = []Val{m, k, x}
		spec = func(o mapOp, r []Val) *Term {
			v := Ite(hit(o), old(o), xt)
			return And(sets(o, True, v), Eq(T1(r[1]), hit(o)), Eq(T1(r[0]), v))
		}
	case "Swap":
		args = []Val{m, k, x}
		spec = func(o mapOp, r []Val) *Term {
			return And(sets(o, True, xt), Eq(T1(r[1]), hit(o)), Eq(T1(r[0]), Ite(hit(o), old(o), zero)))
		}
	case "CompareAndSwap":
		args = []Val{m, k, x, y}
		spec = func(o mapOp, r []Val) *Term {
			ok := And(hit(o), Eq(old(o), xt))
			return And(sets(o, hit(o), Ite(ok, yt, old(o))), Eq(T1(r[0]), ok))
		}
	case "CompareAndDelete":
		args = []Val{m, k, x}
		spec = func(o mapOp, r []Val) *Term {
			ok := And(hit(o), Eq(old(o), xt))
			return And(sets(o, And(hit(o), Not(ok)), old(o)), Eq(T1(r[0]), ok))
		}
	case "Range":
		mapRange(d, m, K, V)
		return
	}
	outs := d.exec(st, fn, args...)
	n, ps := split(outs)
	for _, o := range ps {
		d.ob(o.st, "map", name+" does not panic for keys and values of any type, nil interfaces included", False)
	}
	for _, o := range n {
		ops := getOps(o.st)
		var alts []*Term
		for i := range ops {
			c := spec(ops[i], o.vals)
			for j := range ops {
				if j != i {
					c = And(c, same(ops[j]))
				}
			}
			alts = append(alts, c)
		}
		d.ob(o.st, "map", name+" takes effect in one operation of the underlying map and returns its result with the declared types", Or(alts...))
	}
	d.reach("return of "+name, n)
}

func mapRange(d *Driver, m Ptr, K, V *types.TypeParam) {
	e := d.e
	fn := d.fn("gsync.Map.Range")
	st := newState()
	f := e.fresh("f", SU)
	st.assume(Ne(f, nilU))
	calls, rets := 0, 0
	_ = rets
	// the client function: arbitrary result, can panic
	e.opaque = func(e *Engine, c *CallCtx, g *Term) ([]Outcome, bool) {
		if g != f {
			return nil, false
		}
		calls++
		c.st.addOwn("fcalls", IntLit(1))
		c.st.mem["fk"], c.st.mem["fv"] = c.args[0], c.args[1]
		r := e.fresh("fres", SBool)
		c.st.mem["fr"] = r
		s2 := c.st.clone()
		p := e.fresh("fpanic", SU)
		s2.assume(Ne(p, nilU))
		s2.mem["fp"] = p
		return []Outcome{{st: c.st, vals: []Val{r}}, {st: s2, panic: true, pval: p}}, true
	}
	e.models["(*sync.Map).Range"] = func(e *Engine, c *CallCtx) []Outcome {
		e.oblige(c.st, "map", "the operation is on the map's own sync.Map", c.pos, BoolLit(sameVal(c.args[0], m)))
		c.st.addOwn("ranges", IntLit(1))
		// one arbitrary entry is offered to the callback
		k, v := e.fresh("ek", SU), e.fresh("ev", SU)
		var out []Outcome
		s0 := c.st.clone()
		out = append(out, Outcome{st: s0}) // no entries
		before := c.st.total("fcalls", c.st.cur)
		cb := c.args[1]
		if t, ok := cb.(*Term); ok {
			cb = unbox(t)
		}
		fv, ok := cb.(*FuncV)
		if !ok {
			e.unsup("Range passes an unknown callback")
		}
		for _, o := range e.call(c.st, c.fr, callee{fn: fv, args: []Val{IfaceV{K, k}, IfaceV{V, v}}, sig: fv.sig()}, c.pos, 0) {
			if o.panic {
				e.oblige(o.st, "map", "Range panics only with a panic of the function it was given", c.pos, BoolLit(o.st.mem["fp"] != nil && sameVal(o.pval, o.st.mem["fp"])))
				out = append(out, o)
				continue
			}
			once := Eq(o.st.total("fcalls", o.st.cur), Add(before, IntLit(1)))
			e.oblige(o.st, "map", "Range calls the function exactly once for each entry of the underlying map", c.pos, once)
			if o.st.mem["fk"] != nil {
				e.oblige(o.st, "map", "Range passes each key and value with the declared types", c.pos, And(Eq(box(o.st.mem["fk"]), k), Eq(box(o.st.mem["fv"]), v)))
				e.oblige(o.st, "map", "Range continues exactly as long as the function returns true", c.pos, Eq(o.vals[0].(*Term), o.st.mem["fr"].(*Term)))
			}
			out = append(out, Outcome{st: o.st})
		}
		return out
	}
	outs := d.exec(st, fn, m, f)
	n, ps := split(outs)
	for _, o := range ps {
		d.ob(o.st, "map", "Range does not panic of its own", BoolLit(o.st.mem["fp"] != nil))
	}
	for _, o := range n {
		d.ob(o.st, "map", "Range ranges over the underlying map once", Eq(o.st.total("ranges", 0), IntLit(1)))
	}
	d.reach("return of Range", n)
	d.ob(newState(), "vacuity", "the function is called", BoolLit(calls > 0))
}

// gsync.Pool: all calls use one sync.Pool (the one installed first); Get
// returns an element that was Put, or else the result of one call of New, or
// else nil.
func poolDriver(d *Driver, name string) {
	e := d.e
	fn := d.fn("gsync.Pool." + name)
	T := recvType(fn)
	S := under(T).(*types.Struct)
	TP := fn.Signature.RecvTypeParams().At(0)
	ptrT := types.NewPointer(TP)
	st := newState()
	// the element pointer and New are arbitrary
	newf := e.fresh("New", SU)
	x := d.variable(st, TP, "x", e.fresh("xv", SU))       // argument of Put
	item := d.variable(st, TP, "item", e.fresh("iv", SU)) // what the pool holds
	made := d.variable(st, TP, "made", e.fresh("mv", SU)) // result of New
	other := Ptr{Obj: e.newObj(st, &Obj{Name: "otherpool", Kind: kOpaqu})}
	fs := map[string]Val{}
	var poolField string
	for i := 0; i < S.NumFields(); i++ {
		f := S.Field(i)
		if f.Name() == "New" {
			fs["New"] = newf
		} else if under(f.Type()) != nil {
			poolField = f.Name()
		}
	}
	_ = poolField
	p := d.structVar(st, T, "pool", fs)
	d.setPrivate(st, p)
	// the installed pool, as seen by this goroutine: nil, its own, or another one
	inst := func(st *State) Val { return st.mem["installed"] }
	e.models["(*sync/atomic.Pointer[T]).Load"] = func(e *Engine, c *CallCtx) []Outcome {
		if v := inst(c.st); v != nil {
			return c.ret(v)
		}
		s2 := c.st.clone()
		s2.mem["installed"] = other
		return []Outcome{{st: c.st, vals: []Val{Ptr{}}}, {st: s2, vals: []Val{other}}}
	}
	e.models["(*sync/atomic.Pointer[T]).CompareAndSwap"] = func(e *Engine, c *CallCtx) []Outcome {
		old, _ := c.args[1].(Ptr)
		nw, ok := c.args[2].(Ptr)
		if !ok {
			e.unsup("CompareAndSwap of %T", c.args[2])
		}
		e.oblige(c.st, "pool", "the installed sync.Pool is never replaced", c.pos, BoolLit(old.isNil() && !nw.isNil()))
		if inst(c.st) != nil {
			return c.ret(False)
		}
		s2 := c.st.clone()
		s2.mem["installed"] = other
		c.st.mem["installed"] = nw
		return []Outcome{{st: c.st, vals: []Val{True}}, {st: s2, vals: []Val{False}}}
	}
	e.models["(*sync/atomic.Pointer[T]).Store"] = func(e *Engine, c *CallCtx) []Outcome {
		e.oblige(c.st, "pool", "the installed sync.Pool is never replaced", c.pos, False)
		c.st.mem["installed"] = c.args[1]
		return c.ret()
	}
	e.models["(*sync/atomic.Pointer[T]).Swap"] = func(e *Engine, c *CallCtx) []Outcome {
		e.oblige(c.st, "pool", "the installed sync.Pool is never replaced", c.pos, False)
		c.st.mem["installed"] = c.args[1]
		return c.ret(Ptr{})
	}
	e.opaque = func(e *Engine, c *CallCtx, g *Term) ([]Outcome, bool) {
		if g != newf {
			return nil, false
		}
		c.st.addOwn("news", IntLit(1))
		return c.ret(made), true
	}
	uses := func(c *CallCtx) {
		c.st.addOwn("uses", IntLit(1))
		e.oblige(c.st, "pool", "every goroutine uses the installed sync.Pool", c.pos, BoolLit(inst(c.st) != nil && sameVal(c.args[0], inst(c.st))))
	}
	e.models["(*sync.Pool).Put"] = func(e *Engine, c *CallCtx) []Outcome {
		uses(c)
		iv, ok := c.args[1].(IfaceV)
		e.oblige(c.st, "pool", "Put stores the element itself, with its declared type", c.pos, BoolLit(ok && sameType(iv.Typ, ptrT) && sameVal(iv.V, x)))
		return c.ret()
	}
	e.models["(*sync.Pool).Get"] = func(e *Engine, c *CallCtx) []Outcome {
		uses(c)
		// an element put before
		s1 := c.st.clone()
		s1.mem["from"] = IntLit(1)
		out := []Outcome{{st: s1, vals: []Val{IfaceV{ptrT, item}}}}
		// empty: the New function of the pool
		pl := c.args[0].(Ptr)
		if sameVal(pl, other) {
			// installed by another goroutine running this code: its New has the
			// contract that is checked below for the pool installed here
			s2 := c.st.clone()
			s2.assume(Eq(newf, nilU))
			s2.mem["from"] = IntLit(3)
			s3 := c.st.clone()
			s3.assume(Ne(newf, nilU))
			s3.mem["from"] = IntLit(2)
			return append(out, Outcome{st: s2, vals: []Val{IfaceV{ptrT, Ptr{}}}}, Outcome{st: s3, vals: []Val{IfaceV{ptrT, made}}})
		}
		nf := d.field(c.st, pl, "New")
		if t, ok := nf.(*Term); ok {
			nf = unbox(t)
		}
		fv, ok := nf.(*FuncV)
		if !ok {
			s2 := c.st.clone()
			s2.mem["from"] = IntLit(3)
			e.oblige(s2, "pool", "the sync.Pool has a New function unless New is nil", c.pos, Eq(newf, nilU))
			s2.assume(Eq(newf, nilU))
			return append(out, Outcome{st: s2, vals: []Val{nilU}})
		}
		for _, o := range e.call(c.st, c.fr, callee{fn: fv, sig: fv.sig()}, c.pos, 0) {
			if o.panic {
				e.oblige(o.st, "pool", "Get does not panic on an empty pool", c.pos, False)
				continue
			}
			iv, ok := o.vals[0].(IfaceV)
			okT := ok && sameType(iv.Typ, ptrT)
			if okT && sameVal(iv.V, Ptr{}) || o.vals[0] == Val(nilU) {
				e.oblige(o.st, "pool", "an empty pool gives nil only without a New function", c.pos, And(Eq(newf, nilU), Eq(o.st.total("news", o.st.cur), IntLit(0))))
				o.st.assume(Eq(newf, nilU))
				o.st.mem["from"] = IntLit(3)
			} else {
				e.oblige(o.st, "pool", "an empty pool gives the result of one call of New", c.pos, And(BoolLit(okT && sameVal(iv.V, made)), Eq(o.st.total("news", o.st.cur), IntLit(1))))
				o.st.mem["from"] = IntLit(2)
			}
			out = append(out, Outcome{st: o.st, vals: []Val{o.vals[0]}})
		}
		return out
	}
	args := []Val{p}
	if name == "Put" {
		args = append(args, x)
	}
	outs := d.exec(st.clone(), fn, args...)
	if name == "Get" {
		// Put first, then New is replaced, then Get
		put := d.fn("gsync.Pool.Put")
		old := e.fresh("oldNew", SU)
		s2 := st.clone()
		d.setField(s2, p, "New", old)
		for _, o := range d.exec(s2, put, p, x) {
			if o.panic {
				d.ob(o.st, "pool", "Put does not panic", False)
				continue
			}
			d.setField(o.st, p, "New", newf)
			s3 := o.st.modThread(o.st.cur)
			s3.Own["uses"] = IntLit(0)
			outs = append(outs, d.exec(o.st, fn, p)...)
		}
	}
	n, ps := split(outs)
	for _, o := range ps {
		d.ob(o.st, "pool", name+" does not panic", False)
	}
	for _, o := range n {
		d.ob(o.st, "pool", name+" uses the pool exactly once", Eq(o.st.total("uses", 0), IntLit(1)))
		if name == "Get" {
			want := Val(item)
			switch o.st.mem["from"] {
			case IntLit(2):
				want = made
			case IntLit(3):
				want = Ptr{}
			}
			d.ob(o.st, "pool", "Get returns the element of the pool, with its declared type", BoolLit(sameVal(o.vals[0], want)))
		}
	}
	d.reach("return of "+name, n)
}

// setPrivate exempts an object from race checks.
func (d *Driver) setPrivate(st *State, p Ptr) {
	o := st.heap[p.Obj].clone()
	o.Extra = map[string]*Term{"private": True}
	st.heap[p.Obj] = o
}
