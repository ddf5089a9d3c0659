package main

// Transform nodes: the pipeline continues with batches of another type.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	drivers["pipeline.Transform"] = transformCtors
	drivers["pipeline.transform.Begin"] = transformBegin
	drivers["pipeline.transform.StrictOrd"] = transformStrict
	drivers["pipeline.transform.Feed"] = transformFeed
	drivers["pipeline.transform.End"] = transformEnd
}

// transformT finds the type of the transform nodes: a node with a pipeline of
// its own and a function.
func (d *Driver) transformT() (T *types.Named, next, fun string) {
	for _, m := range d.P.pkg("pipeline").Members {
		t, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		n, ok := types.Unalias(t.Type()).(*types.Named)
		if !ok || n.TypeParams().Len() != 2 {
			continue
		}
		S, ok := under(n).(*types.Struct)
		if !ok {
			continue
		}
		next, fun = "", ""
		for i := 0; i < S.NumFields(); i++ {
			f := S.Field(i)
			if p, ok := under(f.Type()).(*types.Pointer); ok && namedName(p.Elem()) == "Pipeline" {
				next = f.Name()
			}
			if _, ok := under(f.Type()).(*types.Signature); ok {
				fun = f.Name()
			}
		}
		if next != "" && fun != "" && T == nil {
			T = n
			return
		}
	}
	d.e.unsup("no transform node type found")
	return
}

type transformUnit struct {
	*Pipe // the pipeline that follows
	node  Ptr
	f     *Term
	T     *types.Named
	q     *nodeSeq
	mon   *errMonitor
}

func (d *Driver) transformUnit(st *State) *transformUnit {
	e := d.e
	u := &transformUnit{Pipe: d.pipe(st)}
	T, next, fun := d.transformT()
	u.T = T
	u.f = e.fresh("transform", SU)
	st.assume(Ne(u.f, nilU))
	nilFacts(st, u.nodes)
	u.node = d.structVar(st, T, "transform node", map[string]Val{next: u.p, fun: u.f})
	u.q = d.nodeSeq(st, u.p, u.nodes, u.NA)
	u.mon = d.errMonitor(u.PS, u.ps, nil)
	return u
}

func (u *transformUnit) call(st *State, m string, args ...Val) []Outcome {
	return u.d.must(st, "transform", m, u.d.methodOf(st, u.node, m), append([]Val{u.node}, args...)...)
}

func (u *transformUnit) phis(lc *LoopCtx) (ps []*ssa.Phi) {
	for ph := range lc.entry.phis {
		if t, ok := lc.entry.phis[ph].(*Term); ok && t.Sort == SInt {
			ps = append(ps, ph)
		}
	}
	return
}

func transformBegin(d *Driver) {
	e := d.e
	st := newState()
	u := d.transformUnit(st)
	q := u.q
	I := types.Typ[types.Int]
	outer := e.fresh("outer", SU)
	size := d.variable(st, I, "dataSize", e.symVal(st, I, "size"))
	e.invoke = func(e *Engine, c *CallCtx, recv Val, m *types.Func) ([]Outcome, bool) {
		st := c.st
		if len(st.thread().Locks) > 0 {
			e.oblige(st, "transform", "no lock is held during calls of nodes", c.pos, False)
		}
		switch m.Name() {
		case "Begin":
			sp, ok := c.args[2].(Ptr)
			e.oblige(st, "transform", "all nodes share the announced data size", c.pos, BoolLit(ok && sameVal(sp, size)))
			return q.begin(c, box(recv), "transform"), true
		case "TryMerge":
			return q.merge(c, box(recv)), true
		}
		return nil, false
	}
	e.cands = func(e *Engine, lc *LoopCtx) []Cand {
		var out []Cand
		q.cands(lc, u.phis(lc), false, func(n string, f func(v *View) *Term) { out = append(out, Cand{n, f}) })
		return out
	}
	outs := u.call(st, "Begin", outer, e.symVal(st, I, "index"), size)
	for _, o := range outs {
		r := o.vals[0].(*Term)
		s := o.st
		d.ob(s, "transform", "every node of the following pipeline begins", Eq(s.g("bn"), q.n0))
		d.ob(s, "transform", "the transform node takes part when a node of the following pipeline does", Implies(Not(r), Or(Eq(q.kept(s), IntLit(0)), Ne(u.mon.cur(s), nilU))))
		d.ob(s, "transform", "the transform node takes part only when a node of the following pipeline does", Implies(r, Lt(IntLit(0), q.kept(s))))
		d.ob(s, "merge", "after merging the pipeline consists of the nodes that begun and were not merged into another one, in order", Implies(r, q.layoutM(s)))
		d.ob(s, "transform", "no lock is held on return", BoolLit(len(s.thread().Locks) == 0))
	}
	d.reach("Begin", outs)
}

func transformStrict(d *Driver) {
	e := d.e
	st := newState()
	u := d.transformUnit(st)
	q := u.q
	e.invoke = func(e *Engine, c *CallCtx, recv Val, m *types.Func) ([]Outcome, bool) {
		if m.Name() != "StrictOrd" {
			return nil, false
		}
		return c.ret(q.strict(c.st, box(recv))), true
	}
	e.cands = func(e *Engine, lc *LoopCtx) []Cand {
		var out []Cand
		q.cands(lc, u.phis(lc), true, func(n string, f func(v *View) *Term) { out = append(out, Cand{n, f}) })
		return out
	}
	outs := u.call(st, "StrictOrd")
	for _, o := range outs {
		r := o.vals[0].(*Term)
		k := freshBound("k", SInt)
		in := And(Le(q.off0, k), Lt(k, Add(q.off0, q.n0)))
		none := Forall([]*Term{k}, Implies(in, Not(q.strict(o.st, Select(q.NA, k)))), []*Term{Select(q.NA, k)})
		yes := o.st.clone()
		yes.assume(r)
		if !yes.dead && e.query(yes) != Unsat {
			d.ob(yes, "strict", "a transform node is strictly ordered only if a node behind it is", Not(none))
		}
		no := o.st.clone()
		no.assume(Not(r))
		if !no.dead && e.query(no) != Unsat {
			d.ob(no, "strict", "a transform node is strictly ordered if a node behind it is", none)
		}
		d.ob(o.st, "strict", "the nodes behind a transform node and before a StrictOrd node are ordered", q.swept(o.st))
	}
	d.reach("StrictOrd", outs)
}

func transformFeed(d *Driver) {
	e := d.e
	st := newState()
	u := d.transformUnit(st)
	I := types.Typ[types.Int]
	outer := e.fresh("outer", SU)
	seq := e.symVal(st, I, "seq").(*Term)
	data := e.fresh("data", SU)
	out := e.fresh("transformed", SU)
	setIf(st, "tn", 0)
	setIf(st, "fwd", 0)
	e.opaque = func(e *Engine, c *CallCtx, g *Term) ([]Outcome, bool) {
		if g != u.f {
			return nil, false
		}
		e.oblige(c.st, "transform", "the transform function is called once, with the batch and its sequence number", c.pos, And(is0(c.st, "tn"), Eq(c.args[0].(*Term), seq), Eq(box(c.args[1]), data)))
		setIf(c.st, "tn", 1)
		return c.ret(out), true
	}
	e.invoke = func(e *Engine, c *CallCtx, recv Val, m *types.Func) ([]Outcome, bool) {
		if m.Name() != "Feed" {
			return nil, false
		}
		st := c.st
		e.oblige(st, "transform", "the transformed batch is fed once to the first node behind, with its index and sequence number", c.pos,
			And(is1(st, "tn"), is0(st, "fwd"), Lt(IntLit(0), u.nodes.Len), Eq(box(recv), Select(u.NA, u.nodes.Off)), BoolLit(sameVal(c.args[0], u.p)), Eq(c.args[1].(*Term), IntLit(0)), Eq(c.args[2].(*Term), seq), Eq(box(c.args[3]), out)))
		setIf(st, "fwd", 1)
		return c.ret(), true
	}
	outs := u.call(st, "Feed", outer, e.symVal(st, I, "index"), seq, data)
	for _, o := range outs {
		d.ob(o.st, "transform", "every batch is transformed and fed on", And(is1(o.st, "tn"), Or(is1(o.st, "fwd"), Eq(u.nodes.Len, IntLit(0)))))
	}
	d.reach("Feed", outs)
}

func transformEnd(d *Driver) {
	e := d.e
	st := newState()
	u := d.transformUnit(st)
	e.invoke = func(e *Engine, c *CallCtx, recv Val, m *types.Func) ([]Outcome, bool) {
		if m.Name() != "End" {
			return nil, false
		}
		st := c.st
		en := st.g("en")
		e.oblige(st, "final", "each node of the following pipeline ends once, in order", c.pos, And(Lt(en, u.nodes.Len), Eq(box(recv), Select(u.NA, Add(u.nodes.Off, en)))))
		st.ghost["en"] = Add(en, IntLit(1))
		return c.ret(), true
	}
	outs := u.call(st, "End")
	for _, o := range outs {
		d.ob(o.st, "final", "all nodes of the following pipeline end", Eq(o.st.g("en"), u.nodes.Len))
	}
	// a transform node is never merged with its neighbour
	for _, o := range u.call(st.clone(), "TryMerge", e.fresh("neighbour", SU)) {
		d.ob(o.st, "merge", "a transform node is not merged", Not(o.vals[0].(*Term)))
	}
	d.reach("End", outs)
}

// transformCtors: what the constructors add to the pipeline and return.
func transformCtors(d *Driver) {
	e := d.e
	I := types.Typ[types.Int]
	T, nextF, funF := d.transformT()
	for _, ctor := range append([]string{""}, nodeCtors...) {
		ctor := ctor
		name := ctor + "Transform"
		fn := d.fn("pipeline." + name)
		st := newState()
		x := d.pipe(st)
		f := e.fresh("transform", SU)
		st.assume(Ne(f, nilU))
		// the node a plain constructor makes
		wantT, want := "", map[string]*Term{}
		if ctor != "" {
			s0 := newState()
			fs := e.symVal(s0, d.fn("pipeline." + ctor).Params[0].Type(), "filters").(SliceV)
			nilFacts(s0, fs)
			for _, o := range d.must(s0, "transform", ctor, d.fn("pipeline."+ctor), fs) {
				iv, ok := o.vals[0].(IfaceV)
				if t, isT := o.vals[0].(*Term); isT {
					iv, ok = unbox(t).(IfaceV)
				}
				if !ok {
					e.unsup("%s does not return a known node", ctor)
				}
				m := &mergeNode{d: d, ctor: ctor, p: iv.V.(Ptr), T: e.obj(o.st, iv.V.(Ptr).Obj).Typ}
				wantT, want = namedName(m.T), m.scalars(o.st)
			}
		}
		setIf(st, "added", 0)
		var tnode Ptr
		e.contr[d.fn("pipeline.Pipeline.Add")] = func(e *Engine, c *CallCtx) []Outcome {
			st := c.st
			ns, ok := c.args[1].(SliceV)
			if !ok {
				e.unsup("nodes to add are %T", c.args[1])
			}
			e.oblige(st, "transform", name+" adds to the given pipeline", c.pos, BoolLit(sameVal(c.args[0], x.p)))
			n, isLit := ns.Len.isInt()
			if !isLit || n.Sign() == 0 {
				e.unsup("number of nodes to add")
			}
			for i := int64(0); i < n.Int64(); i++ {
				v := d.sliceElem(st, ns, i)
				if t, ok := v.(*Term); ok {
					v = unbox(t)
				}
				iv, ok := v.(IfaceV)
				if !ok {
					e.unsup("node to add is %T", v)
				}
				p, ok := iv.V.(Ptr)
				if !ok {
					e.unsup("node to add is %T", iv.V)
				}
				NT := e.obj(st, p.Obj).Typ
				first := is0(st, "added")
				if ctor == "" {
					first = False
				}
				if namedName(NT) == T.Obj().Name() {
					e.oblige(st, "transform", name+" adds the transform node once, behind the node that receives in the given mode", c.pos, Eq(st.g("added"), IntLit(map[bool]int64{true: 1, false: 0}[ctor != ""])))
					e.oblige(st, "transform", name+" keeps the transform function", c.pos, Eq(box(d.field(st, p, funF)), f))
					tnode = p
				} else {
					e.oblige(st, "transform", name+" adds a node of its kind before the transform node", c.pos, And(first, BoolLit(namedName(NT) == wantT)))
					if namedName(NT) == wantT {
						m := &mergeNode{d: d, ctor: ctor, p: p, T: NT}
						got := m.scalars(st)
						for k, v := range want {
							if strings.HasPrefix(k, "_") || v.Sort == SU {
								continue
							}
							e.oblige(st, "transform", name+" adds a node of its kind before the transform node", c.pos, Eq(got[k], v))
						}
						d.passesOn(st, m, name, x, I)
					}
				}
				st.ghost["added"] = Add(st.g("added"), IntLit(1))
			}
			return c.ret()
		}
		for _, o := range d.must(st, "transform", name, fn, x.p, f) {
			n := int64(2)
			if ctor == "" {
				n = 1
			}
			d.ob(o.st, "transform", name+" adds its nodes", Eq(o.st.g("added"), IntLit(n)))
			p, ok := o.vals[0].(Ptr)
			if !ok || tnode.Obj == 0 {
				d.ob(o.st, "transform", name+" returns the pipeline that follows", False)
				continue
			}
			d.ob(o.st, "transform", name+" returns the pipeline that follows", BoolLit(sameVal(d.field(o.st, tnode, nextF), p)))
			ns, ok := d.field(o.st, p, "nodes").(SliceV)
			if !ok {
				e.unsup("nodes of the new pipeline")
			}
			d.ob(o.st, "transform", name+": the pipeline that follows shares context, error and settings, and has no nodes yet", And(BoolLit(sameVal(d.field(o.st, p, "pipelineState"), x.ps)), Eq(ns.Len, IntLit(0))))
			d.ob(o.st, "transform", name+" keeps the source", BoolLit(sameVal(d.field(o.st, x.p, "source"), x.source)))
		}
	}
}

func namedName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// passesOn: the filters of a node are one that hands batches on unchanged.
func (d *Driver) passesOn(st *State, m *mergeNode, name string, x *Pipe, I types.Type) {
	e := d.e
	s := st.clone()
	fs := m.get(s, "Filter")
	n, ok := fs.Len.isInt()
	d.ob(s, "transform", name+": the node before the transform node has one filter", BoolLit(ok && n.Int64() == 1))
	if !ok || n.Int64() != 1 {
		return
	}
	flt := d.sliceElem(s, fs, 0)
	size := d.variable(s, I, "dataSize", e.symVal(s, I, "size"))
	before := d.field0(s, size)
	for _, o := range d.mustCall(s, "transform", "filter", flt, x.p, e.symVal(s, I, "kind"), size) {
		d.ob(o.st, "transform", name+": the filter has a receiver, no finalizer, and keeps the size", And(Eq(box(o.vals[1]), nilU), Ne(box(o.vals[0]), nilU), Eq(d.field0(o.st, size), before)))
		if t, ok := o.vals[0].(*Term); ok && t == nilU {
			continue
		}
		data := e.fresh("data", SU)
		for _, r := range d.mustCall(o.st, "transform", "receiver", o.vals[0], e.symVal(o.st, I, "seqNo"), data) {
			d.ob(r.st, "transform", name+": batches reach the transform function unchanged", Eq(box(r.vals[0]), data))
		}
	}
}

func (d *Driver) field0(st *State, p Ptr) *Term {
	t, ok := st.heap[p.Obj].Val.(*Term)
	if !ok {
		d.e.unsup("variable is not a plain value")
	}
	return t
}

// sliceElem is an element of a slice of known content.
func (d *Driver) sliceElem(st *State, s SliceV, i int64) Val {
	o := d.e.obj(st, s.Obj)
	off, ok := s.Off.isInt()
	if o.Kind == kArrC && ok && off.Int64()+i < int64(len(o.Elems)) {
		v := o.Elems[off.Int64()+i]
		if t, ok := v.(*Term); ok {
			return unbox(t)
		}
		return v
	}
	if o.Kind == kArrS {
		return unbox(Select(o.Arr, Add(s.Off, IntLit(i))))
	}
	d.e.unsup("element of a slice")
	return nil
}
