package main

// Merging of nodes: the constructors, TryMerge of every pair of nodes (before
// and after Begin), and Pipeline.Add.

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

var nodeCtors = []string{"Par", "LimitedPar", "Seq", "Ord", "StrictOrd"}

func init() {
	for _, a := range nodeCtors {
		a := a
		drivers["pipeline.TryMerge."+a] = func(d *Driver) { mergeDriver(d, a) }
	}
	drivers["pipeline.Add"] = addDriver
}

// mergeable says which nodes may be merged into which: a batch has to see the
// filters of both in the same way as before.
func mergeable(a, b string, begun bool) bool {
	switch a {
	case "Par", "LimitedPar":
		return a == b
	case "Seq":
		return b == "Seq" || b == "Ord" && !begun
	case "Ord":
		return b == "Seq" || b == "Ord"
	}
	return b == "Seq" || b == "Ord" || b == "StrictOrd"
}

type mergeNode struct {
	d       *Driver
	ctor    string
	p       Ptr
	T       types.Type
	filters SliceV
	orig    *Term // content of the filters of the caller
}

func (m *mergeNode) get(st *State, what string) SliceV {
	n := m.d.typed(m.T, what, sliceOfNamed(what))
	if n == "" {
		m.d.e.unsup("the node has no field for %s", what)
	}
	s, ok := m.d.field(st, m.p, n).(SliceV)
	if !ok {
		m.d.e.unsup("%s of the node is %T", what, m.d.field(st, m.p, n))
	}
	return s
}

func (m *mergeNode) set(st *State, what string, v Val) {
	m.d.setField(st, m.p, m.d.typed(m.T, what, sliceOfNamed(what)), v)
}

// scalars gives the other fields of the node that are plain values.
func (m *mergeNode) scalars(st *State) map[string]*Term {
	S := under(m.T).(*types.Struct)
	out := map[string]*Term{}
	for i := 0; i < S.NumFields(); i++ {
		if t, ok := m.d.field(st, m.p, S.Field(i).Name()).(*Term); ok {
			out[S.Field(i).Name()] = t
		}
	}
	return out
}

// build runs a constructor on the filters of a caller.
func (d *Driver) build(st *State, ctor string, each func(st *State, m *mergeNode)) {
	e := d.e
	fn := d.fn("pipeline." + ctor)
	fs := e.symVal(st, fn.Params[0].Type(), "filters of "+ctor).(SliceV)
	nilFacts(st, fs)
	o := st.heap[fs.Obj].clone()
	o.Extra = map[string]*Term{"foreign": True}
	o.Name = "filters of the caller"
	st.heap[fs.Obj] = o
	for _, q := range d.must(st, "merge", ctor, fn, fs) {
		v := q.vals[0]
		if t, ok := v.(*Term); ok {
			v = unbox(t)
		}
		iv, ok := v.(IfaceV)
		if !ok {
			e.unsup("%s does not return a known node", ctor)
		}
		p, ok := iv.V.(Ptr)
		if !ok {
			e.unsup("%s does not return a node pointer", ctor)
		}
		m := &mergeNode{d: d, ctor: ctor, p: p, T: e.obj(q.st, p.Obj).Typ, filters: fs, orig: o.Arr}
		d.ob(q.st, "merge", ctor+" keeps the given filters", And(d.sameSeq(m.get(q.st, "Filter"), fs, q.st, st), Eq(m.get(q.st, "Receiver").Len, IntLit(0)), Eq(m.get(q.st, "Finalizer").Len, IntLit(0))))
		each(q.st, m)
	}
}

var nodeLists = []string{"Filter", "Receiver", "Finalizer"}

func mergeDriver(d *Driver, a string) {
	e := d.e
	merged := 0
	for _, b := range append(append([]string{}, nodeCtors...), "other") {
		for _, begun := range []bool{false, true} {
			b, begun := b, begun
			st := newState()
			x := d.pipe(st)
			_ = x
			try := func(st *State, A, B *mergeNode, arg Val) {
				when := "before the run"
				if begun {
					when = "during a run"
				}
				pair := a + "/" + b + " " + when
				before := st.clone()
				outs := d.must(st, "merge", "TryMerge", d.methodOf(st, A.p, "TryMerge"), A.p, arg)
				for _, o := range outs {
					yes := o.st.clone()
					yes.assume(o.vals[0].(*Term))
					no := o.st
					no.assume(Not(o.vals[0].(*Term)))
					if !no.dead && e.query(no) != Unsat {
						g := True
						for _, l := range nodeLists {
							g = And(g, d.sameSeq(A.get(no, l), A.get(before, l), no, before))
							if B != nil {
								g = And(g, d.sameSeq(B.get(no, l), B.get(before, l), no, before))
							}
						}
						for n, v := range A.scalars(before) {
							g = And(g, Eq(A.scalars(no)[n], v))
						}
						d.ob(no, "merge", pair+": a node that is not merged changes nothing", g)
					}
					if yes.dead || e.query(yes) == Unsat {
						continue
					}
					merged++
					d.ob(yes, "merge", pair+": only nodes of compatible kinds are merged", BoolLit(mergeable(a, b, begun)))
					if B == nil {
						continue
					}
					for _, l := range nodeLists {
						if l == "Filter" && begun || l != "Filter" && !begun {
							continue
						}
						d.ob(yes, "merge", pair+": the merged node has the filters of both, in order", d.concat(A.get(yes, l), A.get(before, l), B.get(before, l), yes, before, before))
					}
					for n, v := range A.scalars(before) {
						if n == A.kindField() && b == "Ord" {
							d.ob(yes, "merge", pair+": the merged node is at least as strict as both", Eq(A.scalars(yes)[n], IntLit(0)))
							continue
						}
						d.ob(yes, "merge", pair+": merging does not change the mode of a node", Eq(A.scalars(yes)[n], v))
					}
					d.untouched(yes, "merge", "the filters of the caller", A.filters, A.orig)
					d.untouched(yes, "merge", "the filters of the caller", B.filters, B.orig)
				}
			}
			start := func(st *State, m *mergeNode) {
				if !begun {
					return
				}
				none := m.get(st, "Filter")
				m.set(st, "Filter", SliceV{Off: IntLit(0), Len: IntLit(0), Cap: IntLit(0), Nil: True, Elem: none.Elem})
				for _, l := range nodeLists[1:] {
					S := d.fieldType(m.T, d.typed(m.T, l, sliceOfNamed(l)))
					s := e.symVal(st, S, l+"s of "+m.ctor).(SliceV)
					nilFacts(st, s)
					m.set(st, l, s)
				}
			}
			d.build(st, a, func(st *State, A *mergeNode) {
				start(st, A)
				if b == "other" {
					t := e.fresh("other", SU)
					st.assume(Ne(t, nilU))
					e.assertHk = func(e *Engine, st *State, x *Term, T types.Type) ([]typeCase, bool) {
						return []typeCase{{nil, True, nil}}, x == t
					}
					try(st, A, nil, t)
					e.assertHk = nil
					return
				}
				d.build(st, b, func(st *State, B *mergeNode) {
					start(st, B)
					// once as it is, once after an earlier merge of either side
					try(st, A, B, IfaceV{Typ: types.NewPointer(B.T), V: B.p})
				})
			})
		}
	}
	d.ob(newState(), "vacuity", "nodes are merged", BoolLit(merged > 0))
}

func (m *mergeNode) kindField() string {
	return m.d.typed(m.T, "kind", func(t types.Type) bool {
		n, ok := types.Unalias(t).(*types.Named)
		return ok && n.Obj().Name() == "NodeKind"
	})
}

// addDriver: Add appends each node, or merges it into the last one.
func addDriver(d *Driver) {
	e := d.e
	st := newState()
	x := d.pipe(st)
	fn := d.fn("pipeline.Pipeline.Add")
	add := e.symVal(st, fn.Params[1].Type(), "added").(SliceV)
	nilFacts(st, x.nodes, add)
	o := st.heap[add.Obj].clone()
	o.Extra = map[string]*Term{"foreign": True}
	st.heap[add.Obj] = o
	AA := o.Arr
	n0 := x.nodes.Len
	MS := e.fresh("MS", arr(SU))
	k := freshBound("k", SInt)
	st.assume(Forall([]*Term{k}, Implies(And(Le(IntLit(0), k), Lt(k, n0)), Eq(Select(MS, k), Select(x.NA, Add(x.nodes.Off, k)))), []*Term{Select(MS, k)}))
	first := And(Eq(n0, IntLit(0)), Lt(IntLit(0), add.Len))
	st.ghost["MS"] = Ite(first, Store(MS, IntLit(0), Select(AA, add.Off)), MS)
	st.ghost["ml"] = Ite(first, IntLit(1), n0)
	st.ghost["mn"] = Ite(first, IntLit(1), IntLit(0))
	nodes := func(st *State) SliceV {
		s, ok := d.field(st, x.p, "nodes").(SliceV)
		if !ok {
			e.unsup("nodes of the pipeline")
		}
		return s
	}
	layout := func(st *State) *Term {
		s := nodes(st)
		if s.Obj == 0 {
			return Eq(st.g("ml"), IntLit(0))
		}
		k := freshBound("k", SInt)
		a := e.arrOf(st, s)
		return And(Eq(s.Len, st.g("ml")), Forall([]*Term{k}, Implies(And(Le(s.Off, k), Lt(k, Add(s.Off, s.Len))), Eq(Select(a, k), Select(st.g("MS"), Sub(k, s.Off)))), []*Term{Select(a, k)}))
	}
	e.invoke = func(e *Engine, c *CallCtx, recv Val, m *types.Func) ([]Outcome, bool) {
		if m.Name() != "TryMerge" {
			return nil, false
		}
		st := c.st
		ml, mn := st.g("ml"), st.g("mn")
		e.oblige(st, "merge", "each added node is offered once, in order, to the last node", c.pos, And(Lt(mn, add.Len), Le(IntLit(1), ml), Eq(box(recv), Select(st.g("MS"), Sub(ml, IntLit(1)))), Eq(box(c.args[0]), Select(AA, Add(add.Off, mn)))))
		no := st.clone()
		st.ghost["mn"] = Add(mn, IntLit(1))
		no.ghost["mn"] = Add(mn, IntLit(1))
		no.ghost["MS"] = Store(no.g("MS"), ml, box(c.args[0]))
		no.ghost["ml"] = Add(ml, IntLit(1))
		return []Outcome{{st: st, vals: []Val{True}}, {st: no, vals: []Val{False}}}, true
	}
	e.cands = func(e *Engine, lc *LoopCtx) []Cand {
		var out []Cand
		cand := func(n string, f func(v *View) *Term) { out = append(out, Cand{n, f}) }
		var ps []*ssa.Phi
		for ph := range lc.entry.phis {
			if t, ok := lc.entry.phis[ph].(*Term); ok && t.Sort == SInt {
				ps = append(ps, ph)
			}
		}
		sort.Slice(ps, func(i, j int) bool { return ps[i].Name() < ps[j].Name() })
		empty := func(v *View) *Term { return Eq(nodes(v.st).Len, IntLit(0)) }
		cand("layout", func(v *View) *Term { return Or(empty(v), layout(v.st)) })
		cand("first", func(v *View) *Term {
			s := v.st
			return Implies(empty(v), And(Eq(n0, IntLit(0)), Eq(s.g("ml"), s.g("mn")), Eq(s.g("mn"), Ite(first, IntLit(1), IntLit(0))), Implies(first, Eq(Select(s.g("MS"), IntLit(0)), Select(AA, add.Off)))))
		})
		for _, ph := range ps {
			ph := ph
			for c := int64(0); c < 2; c++ {
				c := c
				cand(fmt.Sprint("offered ", ph.Name(), c), func(v *View) *Term {
					t, _ := v.phis[ph].(*Term)
					i := Add(t, IntLit(c))
					return Or(And(empty(v), Eq(i, IntLit(0))), And(Not(empty(v)), Eq(v.st.g("mn"), i)))
				})
			}
		}
		cand("ml", func(v *View) *Term {
			return And(Le(IntLit(0), v.st.g("mn")), Le(v.st.g("mn"), add.Len), Le(IntLit(0), v.st.g("ml")))
		})
		return out
	}
	outs := d.must(st, "merge", "Add", fn, x.p, add)
	for _, o := range outs {
		d.ob(o.st, "merge", "Add offers every node", Eq(o.st.g("mn"), add.Len))
		d.ob(o.st, "merge", "the pipeline consists of its old nodes followed by those that were not merged", layout(o.st))
		d.untouched(o.st, "merge", "the list of the caller", add, AA)
	}
	d.reach("Add", outs)
}
