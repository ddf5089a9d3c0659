package main

// Package pipeline: the sequentially executed parts (error state, batch
// sizes, ready-made filters, sources).

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Pipe is a pipeline object with arbitrary content.
type Pipe struct {
	d      *Driver
	p, ps  Ptr
	T      types.Type // Pipeline[T]
	PS     types.Type // pipelineState
	ctx    *Term
	cancel *Term
	err0   *Term
	source *Term
	nodes  SliceV
	NA     *Term
}

// pipe allocates an arbitrary pipeline; its mutable fields are symbolic.
func (d *Driver) pipe(st *State) *Pipe {
	e := d.e
	fn := d.fn("pipeline.Pipeline.SetErr")
	x := &Pipe{d: d, T: recvType(fn)}
	S := under(x.T).(*types.Struct)
	for i := 0; i < S.NumFields(); i++ {
		if f := S.Field(i); f.Embedded() {
			x.PS = under(f.Type()).(*types.Pointer).Elem()
		}
	}
	if x.PS == nil {
		e.unsup("Pipeline has no embedded state")
	}
	x.ctx, x.cancel, x.err0, x.source = e.fresh("ctx", SU), e.fresh("cancel", SU), e.fresh("err", SU), e.fresh("source", SU)
	st.assume(Ne(x.ctx, nilU), Ne(x.cancel, nilU), Ne(x.source, nilU))
	x.ps = d.structVar(st, x.PS, "pipelineState", map[string]Val{"ctx": x.ctx, "cancel": x.cancel, "err": x.err0,
		"nofBatches": e.symVal(st, types.Typ[types.Int], "nofBatches"), "batchInc": e.symVal(st, types.Typ[types.Int], "batchInc"),
		"maxBatchSize": e.symVal(st, types.Typ[types.Int], "maxBatchSize")})
	x.nodes = e.symVal(st, types.NewSlice(types.NewInterfaceType(nil, nil)), "nodes").(SliceV)
	x.NA = st.heap[x.nodes.Obj].Arr
	x.p = d.structVar(st, x.T, "pipeline", map[string]Val{"pipelineState": x.ps, "source": x.source, "nodes": x.nodes})
	return x
}

// critical sections: what the protected field held at acquisition and release
type section struct{ before, after *Term }
type secsV struct{ s []section }

func getSecs(st *State) []section {
	if v, ok := st.mem["secs"].(*secsV); ok {
		return v.s
	}
	return nil
}

func init() {
	drivers["pipeline.SetErr"] = func(d *Driver) { errDriver(d, true) }
	drivers["pipeline.Err"] = func(d *Driver) { errDriver(d, false) }
	drivers["pipeline.batchsize"] = batchSizeDriver
	for _, f := range []string{"Every", "NotEvery", "Some", "NotAny"} {
		f := f
		drivers["pipeline."+f] = func(d *Driver) { boolFilterDriver(d, f) }
	}
	drivers["pipeline.Append"] = appendDriver
	drivers["pipeline.Count"] = countDriver
	drivers["pipeline.Limit"] = func(d *Driver) { limitDriver(d, true) }
	drivers["pipeline.Skip"] = func(d *Driver) { limitDriver(d, false) }
}

func errDriver(d *Driver, set bool) {
	e := d.e
	st := newState()
	x := d.pipe(st)
	errPath := d.fieldPtr(x.PS, x.ps, "err").Path
	mutex := locKey(d.fieldPtr(x.PS, x.ps, "mutex"))
	held := func(st *State, write bool) bool {
		for _, l := range st.thread().Locks {
			if l == mutex || !write && l == mutex+"#r" {
				return true
			}
		}
		return false
	}
	e.onAccess = func(st *State, a Access, pos token.Pos) {
		if a.Obj == x.ps.Obj && a.Path == errPath {
			e.oblige(st, "errlock", rw(a)+" of the error value happens under the lock", pos, BoolLit(held(st, a.Write)))
		}
	}
	cur := func(st *State) *Term { return box(d.field(st, x.ps, "err")) }
	e.onLock = func(c *CallCtx, k string, acquire bool) {
		if k != mutex && k != mutex+"#r" {
			return
		}
		ss := append([]section{}, getSecs(c.st)...)
		if acquire {
			// other goroutines can have set the error in the meantime
			old := cur(c.st)
			now := e.fresh("err", SU)
			c.st.assume(Implies(Ne(old, nilU), Eq(now, old)))
			d.setField(c.st, x.ps, "err", now)
			ss = append(ss, section{now, now})
		} else if len(ss) > 0 {
			ss[len(ss)-1].after = cur(c.st)
		}
		c.st.mem["secs"] = &secsV{ss}
	}
	arg := e.fresh("arg", SU)
	st.ghost["cancels"] = IntLit(0)
	e.opaque = func(e *Engine, c *CallCtx, g *Term) ([]Outcome, bool) {
		if g != x.cancel {
			return nil, false
		}
		c.st.ghost["cancels"] = Add(c.st.g("cancels"), IntLit(1))
		// the error is visible before the cancelation
		e.oblige(c.st, "errset", "the pipeline is canceled only after the error is set", c.pos, Eq(cur(c.st), arg))
		return c.ret(), true
	}
	name := "pipeline.Pipeline.Err"
	args := []Val{x.p}
	if set {
		name = "pipeline.Pipeline.SetErr"
		args = append(args, arg)
	}
	outs := d.exec(st, d.fn(name), args...)
	n, ps := split(outs)
	for _, o := range ps {
		d.ob(o.st, "errset", name+" does not panic", False)
	}
	for _, o := range n {
		d.ob(o.st, "errset", "no lock is held on return", BoolLit(len(o.st.thread().Locks) == 0))
		secs := getSecs(o.st)
		var alts []*Term
		for i, s := range secs {
			var c *Term
			if set {
				r := o.vals[0].(*Term)
				c = And(Eq(r, Eq(s.before, nilU)), Eq(s.after, Ite(Eq(s.before, nilU), arg, s.before)))
			} else {
				c = And(Eq(box(o.vals[0]), s.before), Eq(s.after, s.before))
			}
			for j, t := range secs {
				if j != i {
					c = And(c, Eq(t.after, t.before))
				}
			}
			alts = append(alts, c)
		}
		if set {
			d.ob(o.st, "errset", "SetErr stores the error and returns true if and only if there was none before, in one critical section", Or(alts...))
			d.ob(o.st, "errset", "SetErr cancels the pipeline exactly when it stored the error", Eq(Lt(IntLit(0), o.st.g("cancels")), o.vals[0].(*Term)))
		} else {
			d.ob(o.st, "errset", "Err returns the current error", Or(alts...))
			d.ob(o.st, "errset", "Err does not cancel", Eq(o.st.g("cancels"), IntLit(0)))
		}
	}
	d.reach("return", n)
}

// run-once helper: executes f and states that it does not panic.
func (d *Driver) must(st *State, tag, what string, fn *ssa.Function, args ...Val) []Outcome {
	n, ps := split(d.exec(st, fn, args...))
	for _, o := range ps {
		d.ob(o.st, tag, what+" does not panic", False)
	}
	return n
}

func (d *Driver) mustCall(st *State, tag, what string, f Val, args ...Val) []Outcome {
	n, ps := split(d.callVal(st, f, args...))
	for _, o := range ps {
		d.ob(o.st, tag, what+" does not panic", False)
	}
	return n
}

// NofBatches, SetVariableBatchSize, the default sizes and the growth of batches.
func batchSizeDriver(d *Driver) {
	e := d.e
	I := types.Typ[types.Int]
	fnN := d.fn("pipeline.Pipeline.NofBatches")
	{
		st := newState()
		x := d.pipe(st)
		old := d.field(st, x.ps, "nofBatches").(*Term)
		n := e.symVal(st, I, "n").(*Term)
		outs := d.must(st, "size", "NofBatches", fnN, x.p, n)
		for _, o := range outs {
			r := o.vals[0].(*Term)
			d.ob(o.st, "size", "NofBatches(n) with n >= 1 sets and returns n", Implies(Le(IntLit(1), n), Eq(r, n)))
			d.ob(o.st, "size", "NofBatches(n) with n < 1 returns the number set before", Implies(And(Lt(n, IntLit(1)), Le(IntLit(1), old)), Eq(r, old)))
			d.ob(o.st, "size", "NofBatches always gives at least one batch", Le(IntLit(1), r))
			for _, q := range d.must(o.st, "size", "NofBatches", fnN, x.p, IntLit(0)) {
				d.ob(q.st, "size", "NofBatches keeps its value", Eq(q.vals[0].(*Term), r))
			}
		}
		d.reach("NofBatches", outs)
	}
	// sizes: set, then the defaults, then the sequence of sizes
	st := newState()
	x := d.pipe(st)
	inc, mx := e.symVal(st, I, "inc").(*Term), e.symVal(st, I, "max").(*Term)
	for _, o := range d.must(st, "size", "SetVariableBatchSize", d.fn("pipeline.Pipeline.SetVariableBatchSize"), x.p, inc, mx) {
		fin := d.P.fn("pipeline.Pipeline.finalizeVariableBatchSize")
		next := d.P.fn("pipeline.Pipeline.nextBatchSize")
		if fin == nil || next == nil {
			e.unsup("finalizeVariableBatchSize or nextBatchSize not found")
		}
		for _, o := range d.must(o.st, "size", "finalizeVariableBatchSize", d.e.body(fin), x.p) {
			I2, M2 := Ite(Lt(inc, IntLit(1)), IntLit(512), inc), Ite(Lt(mx, IntLit(1)), IntLit(4096), mx)
			b := e.symVal(o.st, I, "b").(*Term)
			o.st.assume(Le(IntLit(0), b), Le(b, M2))
			outs := d.must(o.st, "size", "nextBatchSize", d.e.body(next), x.p, b)
			for _, q := range outs {
				r := q.vals[0].(*Term)
				want := Ite(Le(Add(b, I2), M2), Add(b, I2), M2)
				d.ob(q.st, "size", "batch sizes grow by the increment up to the maximum", Eq(r, want))
				d.ob(q.st, "size", "batch sizes are positive", Le(IntLit(1), r))
			}
			d.reach("nextBatchSize", outs)
		}
	}
}

// ---- filters

// record is what the collector of a quiet execution saw.
func (d *Driver) writesOf(st *State, f Val, args ...Val) []string {
	e := d.e
	e.quiet++
	col := &collector{writes: map[string]bool{}, base: st.pc}
	e.colls = append(e.colls, col)
	d.callVal(st.clone(), f, args...)
	e.colls = e.colls[:len(e.colls)-1]
	e.quiet--
	var out []string
	for k := range col.writes {
		id, _ := splitLoc(k)
		if st.heap[id] != nil {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// setLoc sets a variable cell.
func setLoc(st *State, loc string, v Val) {
	id, path := splitLoc(loc)
	n := st.heap[id].clone()
	n.Val = setPath(n.Val, pathIdx(path), v)
	st.heap[id] = n
}

func getLoc(st *State, loc string) Val {
	id, path := splitLoc(loc)
	return getPath(st.heap[id].Val, pathIdx(path))
}

func locType(st *State, loc string) types.Type {
	id, path := splitLoc(loc)
	return pathType(st.heap[id].Typ, pathIdx(path))
}

// havocLoc makes a variable cell arbitrary.
func (d *Driver) havocLoc(st *State, loc string) Val {
	v := getLoc(st, loc)
	T := locType(st, loc)
	var w Val
	switch x := v.(type) {
	case *Term:
		w = d.e.fresh("h"+loc, x.Sort)
		if x.Sort == SInt {
			lo, hi := intRange(T)
			st.assume(Le(lo, w.(*Term)), Le(w.(*Term), hi))
		}
		if vs := d.cells[loc]; vs != nil {
			var alts []*Term
			for _, t := range vs {
				alts = append(alts, Eq(w.(*Term), t))
			}
			st.assume(Or(alts...))
		}
	case SliceV:
		w = d.e.symVal(st, T, "h"+loc)
	default:
		d.e.unsup("arbitrary %T", v)
	}
	setLoc(st, loc, w)
	return w
}

// cellValues finds the atomic cells among locs that only ever hold one of few
// constants: the value they start with, and those that f stores into them
// whatever they hold.  The race obligations make sure that the cells are
// accessed by nothing but atomic operations.
func (d *Driver) cellValues(st *State, interfere *bool, locs []string, f Val, args ...Val) {
	e := d.e
	d.cells = nil
	init := map[string]*Term{}
	s := st.clone()
	for _, l := range locs {
		if t, ok := getLoc(st, l).(*Term); ok {
			init[l] = t
			d.havocLoc(s, l)
		}
	}
	e.quiet++
	*interfere = true
	outs := d.callVal(s, f, args...)
	*interfere = false
	e.quiet--
	vals := map[string][]*Term{}
	for l, t := range init {
		if _, lit := t.isInt(); lit {
			vals[l] = []*Term{t}
		}
	}
	var post func(l string, pre, t *Term)
	post = func(l string, pre, t *Term) {
		switch _, lit := t.isInt(); {
		case t == pre || vals[l] == nil:
		case lit:
			vals[l] = append(vals[l], t)
		case t.Op == "ite":
			post(l, pre, t.Args[1])
			post(l, pre, t.Args[2])
		default:
			delete(vals, l)
		}
	}
	touched := map[string]bool{}
	for _, o := range outs {
		for _, a := range getAtomics(o.st) {
			touched[a.loc] = true
			post(a.loc, a.pre, a.post)
		}
	}
	for l := range vals {
		if !touched[l] || len(vals[l]) > 8 {
			delete(vals, l)
		}
	}
	d.cells = vals
}

// result summarises a scalar over all outcomes of a computation on a copy of
// the state: the term equals get(o) on the path of o.
func (d *Driver) result(st *State, sort Sort, run func(st *State) []Outcome, get func(o Outcome) *Term) *Term {
	r := d.e.fresh("sum", sort)
	base := st.pc
	for _, o := range run(st.clone()) {
		if o.panic {
			continue
		}
		fs := o.st.factsSince(base)
		st.assume(Implies(And(fs...), Eq(r, get(o))))
	}
	return r
}

type atomicOp struct {
	loc       string
	pre, post *Term
}
type atomicsV struct{ ops []atomicOp }

func getAtomics(st *State) []atomicOp {
	if v, ok := st.mem["atomics"].(*atomicsV); ok {
		return v.ops
	}
	return nil
}

// atomics installs sync/atomic operations on integer cells. With interfere,
// other goroutines can change the cell before every operation, and the
// operations of this goroutine are recorded.
func (d *Driver) atomics() (interfere *bool) {
	e := d.e
	interfere = new(bool)
	cell := func(c *CallCtx) (Ptr, *Term) {
		p, ok := c.args[0].(Ptr)
		if !ok {
			e.unsup("atomic operation on %T", c.args[0])
		}
		if o := e.obj(c.st, p.Obj); o.Kind == kVar {
			if s, ok := getPath(o.Val, pathIdx(p.Path)).(StructV); ok {
				// atomic.Int32 and friends: the value is the last field
				p.Path = fmt.Sprintf("%s/%d", p.Path, len(s.Fields)-1)
			}
			if *interfere {
				for _, cl := range e.colls {
					cl.writes[p.loc()] = true
				}
				d.havocLoc(c.st, p.loc())
			}
			return p, getLoc(c.st, p.loc()).(*Term)
		}
		e.unsup("atomic operation on object")
		return p, nil
	}
	note := func(c *CallCtx, p Ptr, pre, post *Term) {
		e.access(c.st, Access{Obj: p.Obj, Path: p.Path, Write: pre != post, Atomic: true}, c.pos)
		if pre != post {
			setLoc(c.st, p.loc(), post)
		}
		c.st.mem["atomics"] = &atomicsV{append(append([]atomicOp{}, getAtomics(c.st)...), atomicOp{p.loc(), pre, post})}
	}
	wrap := func(c *CallCtx, t *Term, T types.Type) *Term {
		rs := e.ranged(c.st, t, T)
		if len(rs) != 1 {
			// wrapping: keep the machine value opaque
			return UF("wrapped", SInt, t)
		}
		return rs[0].val.(*Term)
	}
	for _, t := range []struct {
		s string
		T types.Type
	}{{"Int32", types.Typ[types.Int32]}, {"Int64", types.Typ[types.Int64]}, {"Uint32", types.Typ[types.Uint32]}, {"Uint64", types.Typ[types.Uint64]}, {"Bool", types.Typ[types.Bool]}} {
		t := t
		reg := func(op string, f func(e *Engine, c *CallCtx) []Outcome) {
			e.models["sync/atomic."+op+t.s] = f
			e.models["(*sync/atomic."+t.s+")."+op] = f
		}
		// atomic.Bool keeps a uint32
		in := func(v Val) *Term {
			x := v.(*Term)
			if x.Sort == SBool {
				return Ite(x, IntLit(1), IntLit(0))
			}
			return x
		}
		out := func(x *Term) *Term {
			if t.s == "Bool" {
				return Ne(x, IntLit(0))
			}
			return x
		}
		reg("Load", func(e *Engine, c *CallCtx) []Outcome {
			p, v := cell(c)
			note(c, p, v, v)
			return c.ret(out(v))
		})
		reg("Store", func(e *Engine, c *CallCtx) []Outcome {
			p, v := cell(c)
			n := in(c.args[1])
			if n == v {
				note(c, p, v, v)
			} else {
				note(c, p, v, n)
			}
			return c.ret()
		})
		reg("Swap", func(e *Engine, c *CallCtx) []Outcome {
			p, v := cell(c)
			note(c, p, v, in(c.args[1]))
			return c.ret(out(v))
		})
		reg("Add", func(e *Engine, c *CallCtx) []Outcome {
			p, v := cell(c)
			n := wrap(c, Add(v, c.args[1].(*Term)), t.T)
			note(c, p, v, n)
			return c.ret(n)
		})
		reg("CompareAndSwap", func(e *Engine, c *CallCtx) []Outcome {
			p, v := cell(c)
			hit := Eq(v, in(c.args[1]))
			note(c, p, v, Ite(hit, in(c.args[2]), v))
			return c.ret(hit)
		})
	}
	return
}

func kindName(k int64) string { return [...]string{"Ordered", "Sequential", "Parallel"}[k] }

// twoReceivers runs the receiver in two unordered goroutines: no data race.
func (d *Driver) twoReceivers(st *State, recv Val, mk func(st *State) []Val) {
	e := d.e
	e.only = "race"
	defer func() { e.only = "" }()
	s := st.clone()
	t1 := e.newThread(s, "receiver 1")
	t2 := e.newThread(s, "receiver 2")
	s.cur = t1
	for _, o := range d.callVal(s, recv, mk(s)...) {
		o.st.cur = t2
		d.callVal(o.st, recv, mk(o.st)...)
	}
}

func boolFilterDriver(d *Driver, name string) {
	e := d.e
	fn := d.fn("pipeline." + name)
	always := name == "Every" || name == "NotAny" // starts true
	dec := BoolLit(!always)                       // the decided value
	onTrue := name == "Some" || name == "NotAny"  // a batch with predicate true decides
	interfere := d.atomics()
	reached := 0
	for k := int64(0); k < 3; k++ {
		kn := kindName(k)
		st := newState()
		x := d.pipe(st)
		resP := d.variable(st, types.Typ[types.Bool], "result", e.fresh("r0", SBool))
		cwk := e.fresh("cancelWhenKnown", SBool)
		pred := e.fresh("predicate", SU)
		st.assume(Ne(pred, nilU))
		size := d.variable(st, types.Typ[types.Int], "dataSize", e.symVal(st, types.Typ[types.Int], "size"))
		size0 := getLoc(st, size.loc())
		st.ghost["cancels"], st.ghost["preds"] = IntLit(0), IntLit(0)
		var data *Term
		e.opaque = func(e *Engine, c *CallCtx, g *Term) ([]Outcome, bool) {
			switch g {
			case x.cancel:
				c.st.ghost["cancels"] = Add(c.st.g("cancels"), IntLit(1))
				return c.ret(), true
			case pred:
				c.st.ghost["preds"] = Add(c.st.g("preds"), IntLit(1))
				e.oblige(c.st, "filter", name+" applies the predicate to the batch", c.pos, BoolLit(data != nil && c.args[0] == Val(data)))
				return c.ret(UF("pred", SBool, c.args[0].(*Term))), true
			}
			return nil, false
		}
		for _, o := range d.must(st, "filter", name, fn, resP, cwk, pred) {
			for _, o := range d.mustCall(o.st, "filter", "the filter", o.vals[0], x.p, IntLit(k), size) {
				recv, fin := o.vals[0], o.vals[1]
				d.ob(o.st, "filter", name+" does not change the data size", d.eq(getLoc(o.st, size.loc()), size0, types.Typ[types.Int]))
				d.ob(o.st, "filter", name+" does not cancel by itself", Eq(o.st.g("cancels"), IntLit(0)))
				isNil := func(v Val) bool { return v == Val(nilU) }
				final := func(st *State) []Outcome {
					if isNil(fin) {
						return []Outcome{{st: st}}
					}
					return d.mustCall(st, "filter", "the finalizer", fin)
				}
				getR := func(o Outcome) *Term { return getLoc(o.st, resP.loc()).(*Term) }
				g := func(st *State) *Term { return d.result(st, SBool, final, getR) }
				// without any batch
				s0 := o.st.clone()
				d.ob(s0, "filter", name+" gives its initial value when no batch decides ("+kn+")", Eq(g(s0), BoolLit(always)))
				if isNil(recv) {
					d.ob(o.st, "filter", name+" looks at every batch ("+kn+")", False)
					continue
				}
				// an arbitrary later state
				data = e.fresh("data", SU)
				seq := e.symVal(o.st, types.Typ[types.Int], "seq")
				ws := d.writesOf(o.st, recv, seq, data)
				d.cells = nil
				if k == 2 {
					d.cellValues(o.st, interfere, ws, recv, seq, data)
				}
				for _, w := range ws {
					d.havocLoc(o.st, w)
				}
				trig := UF("pred", SBool, data)
				if !onTrue {
					trig = Not(trig)
				}
				g0 := g(o.st)
				base := o.st.clone()
				*interfere = k == 2
				outs := d.mustCall(o.st, "filter", "the receiver", recv, seq, data)
				for _, q := range outs {
					reached++
					d.ob(q.st, "filter", name+" passes the batch on unmodified ("+kn+")", d.eq(q.vals[0], data, types.Typ[types.String]))
					d.ob(q.st, "filter", name+" calls the predicate exactly once per batch ("+kn+")", Eq(q.st.g("preds"), IntLit(1)))
					d.ob(q.st, "filter", name+" cancels exactly when the result is known and this was asked for ("+kn+")", Eq(Lt(IntLit(0), q.st.g("cancels")), And(cwk, trig)))
					*interfere = false
					if k != 2 {
						g1 := g(q.st)
						d.ob(q.st, "filter", name+" accumulates the predicate over the batches ("+kn+")", Eq(g1, Ite(trig, dec, g0)))
						continue
					}
					// parallel: every atomic step on its own, under interference
					var sets []*Term
					for _, a := range getAtomics(q.st) {
						s1, s2 := q.st.clone(), q.st.clone()
						setLoc(s1, a.loc, a.pre)
						setLoc(s2, a.loc, a.post)
						ga := g(s1)
						s2.assume(s1.facts()...)
						gb := g(s2)
						d.ob(s2, "filter", name+" never loses a decision of another batch ("+kn+")", Implies(Eq(ga, dec), Eq(gb, dec)))
						d.ob(s2, "filter", name+" decides only because of the batch's predicate ("+kn+")", Implies(Not(trig), Eq(ga, gb)))
						q.st.assume(s2.facts()...)
						sets = append(sets, Eq(gb, dec))
					}
					d.ob(q.st, "filter", name+" accumulates the predicate over the batches ("+kn+")", Or(append(sets, Not(trig))...))
				}
				if k == 2 {
					d.twoReceivers(base, recv, func(st *State) []Val { return []Val{seq, data} })
				}
			}
		}
	}
	d.ob(newState(), "vacuity", "receivers are executed", BoolLit(reached >= 3))
}
