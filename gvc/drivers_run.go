package main

// Pipeline.Run: preparation, numbering of batches, batch sizes, order of the
// finalizers, errors of the source.  Nodes and source are arbitrary; their
// methods appear as calls with contracts.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	drivers["pipeline.run"] = runDriver
	drivers["pipeline.Run"] = runWrapperDriver
}

// nodeShape classifies the node types the run function looks into.
func nodeShape(T types.Type) (string, *types.Struct) {
	p, ok := under(T).(*types.Pointer)
	if !ok {
		return "", nil
	}
	S, ok := under(p.Elem()).(*types.Struct)
	if !ok {
		return "", nil
	}
	for i := 0; i < S.NumFields(); i++ {
		t := S.Field(i).Type()
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "NodeKind" {
			return "seq", S
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			return "lpar", S
		}
	}
	return "", nil
}

// errMonitor gives the error value of a pipeline its meaning: guarded by the
// mutex, set once, possibly by others between critical sections.
type errMonitor struct {
	d     *Driver
	ps    Ptr
	mutex string
}

func (m *errMonitor) cur(st *State) *Term { return box(m.d.field(st, m.ps, "err")) }

func (m *errMonitor) held(st *State, write bool) bool {
	for _, l := range st.thread().Locks {
		if l == m.mutex || !write && l == m.mutex+"#r" {
			return true
		}
	}
	return false
}

func (d *Driver) errMonitor(PS types.Type, ps Ptr, acquired func(st *State, v *Term)) *errMonitor {
	e := d.e
	m := &errMonitor{d: d, ps: ps, mutex: locKey(d.fieldPtr(PS, ps, "mutex"))}
	path := d.fieldPtr(PS, ps, "err").Path
	e.onAccess = func(st *State, a Access, pos token.Pos) {
		if a.Obj == ps.Obj && a.Path == path {
			e.oblige(st, "err", rw(a)+" of the error value happens under the lock", pos, BoolLit(m.held(st, a.Write)))
		}
	}
	e.onLock = func(c *CallCtx, k string, acquire bool) {
		if k != m.mutex && k != m.mutex+"#r" {
			return
		}
		if acquire {
			old := m.cur(c.st)
			v := e.fresh("err", SU)
			c.st.assume(Implies(Ne(old, nilU), Eq(v, old)))
			q := d.fieldPtr(PS, ps, "err")
			for _, cl := range e.colls {
				cl.writes[q.loc()] = true
			}
			d.setField(c.st, ps, "err", v)
			c.st.ghost["errIn"] = v
			if acquired != nil {
				acquired(c.st, v)
			}
			return
		}
		e.oblige(c.st, "err", "an error that was set is never replaced", c.pos, Implies(Ne(c.st.g("errIn"), nilU), Eq(m.cur(c.st), c.st.g("errIn"))))
	}
	return m
}

func runDriver(d *Driver) {
	e := d.e
	st := newState()
	I := types.Typ[types.Int]
	source := e.fresh("source", SU)
	st.assume(Ne(source, nilU))
	// the pipeline as New makes it, then configured arbitrarily
	outs := d.must(st, "run", "New", d.fn("pipeline.New"), source)
	for _, o := range outs {
		runFrom(d, o, source, I)
	}
	d.reach("New", outs)
}

func runFrom(d *Driver, o Outcome, source *Term, I types.Type) {
	e := d.e
	st := o.st
	p, ok := o.vals[0].(Ptr)
	if !ok {
		e.unsup("New returns %T", o.vals[0])
	}
	T := e.obj(st, p.Obj).Typ
	var PS types.Type
	for S, i := under(T).(*types.Struct), 0; i < S.NumFields(); i++ {
		if f := S.Field(i); f.Embedded() {
			PS = under(f.Type()).(*types.Pointer).Elem()
		}
	}
	ps, ok := d.field(st, p, "pipelineState").(Ptr)
	if !ok || PS == nil {
		e.unsup("state of the pipeline")
	}
	d.ob(st, "run", "New keeps the source", BoolLit(sameVal(d.field(st, p, "source"), source)))
	nodes0 := e.symVal(st, types.NewSlice(types.NewInterfaceType(nil, nil)), "nodes").(SliceV)
	noti0 := e.symVal(st, d.fieldType(PS, "notifiers"), "notifiers").(SliceV)
	nilFacts(st, nodes0, noti0)
	NA, NO := st.heap[nodes0.Obj].Arr, st.heap[noti0.Obj].Arr
	kq := freshBound("k", SInt)
	st.assume(Forall([]*Term{kq}, Ne(Select(NO, kq), nilU), []*Term{Select(NO, kq)}))
	d.setField(st, p, "nodes", nodes0)
	d.setField(st, ps, "notifiers", noti0)
	nof, inc, mx := e.symVal(st, I, "nofBatches").(*Term), e.symVal(st, I, "batchInc").(*Term), e.symVal(st, I, "maxBatchSize").(*Term)
	d.setField(st, ps, "nofBatches", nof)
	d.setField(st, ps, "batchInc", inc)
	d.setField(st, ps, "maxBatchSize", mx)
	d.setField(st, ps, "err", e.fresh("err", SU))
	ctx, cancel := e.fresh("ctx", SU), e.fresh("cancel", SU)
	st.assume(Ne(ctx, nilU), Ne(cancel, nilU))
	n0 := nodes0.Len
	for _, g := range []string{"preps", "nt", "fc", "sn", "pend", "over", "bs", "acq", "ds"} {
		setIf(st, g, 0)
	}
	q := d.nodeSeq(st, p, nodes0, NA)
	srcErr := func(st *State) *Term { return UF("srcErr", SU, st.g("fc")) }
	mon := d.errMonitor(PS, ps, func(st *State, v *Term) {
		st.ghost["acq"] = Ite(Eq(v, nilU), IntLit(1), IntLit(2))
	})
	sizeP := Ptr{}
	e.onTask = func(e *Engine, st *State, cal callee, pos token.Pos) ([]Outcome, bool) {
		n := st.g("nt")
		t, isT := cal.opaque, cal.opaque != nil
		ok := And(BoolLit(isT), Lt(n, noti0.Len))
		if isT {
			ok = And(ok, Eq(t, Select(NO, Add(noti0.Off, n))))
		}
		e.oblige(st, "run", "each notifier is started once", pos, ok)
		e.oblige(st, "run", "notifiers start before the source is prepared, with the context set", pos, And(is0(st, "preps"), Eq(box(d.field(st, ps, "ctx")), ctx), Eq(box(d.field(st, ps, "cancel")), cancel)))
		st.ghost["nt"] = Add(n, IntLit(1))
		return []Outcome{{st: st}}, true
	}
	e.opaque = func(e *Engine, c *CallCtx, g *Term) ([]Outcome, bool) {
		if g != cancel {
			return nil, false
		}
		e.oblige(c.st, "err", "the run function cancels only with an error set", c.pos, Ne(mon.cur(c.st), nilU))
		return c.ret(), true
	}
	e.invoke = func(e *Engine, c *CallCtx, recv Val, m *types.Func) ([]Outcome, bool) {
		st := c.st
		r := box(recv)
		ob := func(tag, desc string, g *Term) { e.oblige(st, tag, desc, c.pos, g) }
		if len(st.thread().Locks) > 0 && !(r == source && m.Name() == "Err") {
			ob("run", "no lock is held during calls of nodes and of the source", False)
		}
		switch m.Name() {
		case "Prepare":
			ob("run", "the source is prepared once, with the context of the pipeline", And(Eq(r, source), is0(st, "preps"), Eq(box(c.args[0]), ctx), Eq(box(d.field(st, ps, "ctx")), ctx), Eq(box(d.field(st, ps, "cancel")), cancel)))
			ob("run", "all notifiers are started", Eq(st.g("nt"), noti0.Len))
			setIf(st, "preps", 1)
			v := e.symVal(st, I, "dataSize").(*Term)
			st.ghost["ds"] = v
			return c.ret(v), true
		case "StrictOrd":
			return c.ret(q.strict(st, r)), true
		case "Begin":
			ob("strict", "before a node begins, every node before a StrictOrd node respects the encounter order", q.swept(st))
			ob("run", "the source is prepared before the nodes begin", is1(st, "preps"))
			sp, ok := c.args[2].(Ptr)
			if !ok {
				e.unsup("data size is %T", c.args[2])
			}
			if sizeP.Obj == 0 && e.quiet == 0 {
				sizeP = sp
			}
			ob("run", "all nodes share the announced data size", Or(BoolLit(sizeP.Obj == 0), BoolLit(sameVal(sp, sizeP))))
			if v, ok := getPath(e.obj(st, sp.Obj).Val, pathIdx(sp.Path)).(*Term); ok {
				ob("run", "the first node gets the size the source announced", Implies(Eq(st.g("bn"), IntLit(0)), Eq(v, st.g("ds"))))
			}
			return q.begin(c, r, "run"), true
		case "TryMerge":
			ob("merge", "nodes are merged before batches are fetched", is0(st, "fc"))
			return q.merge(c, r), true
		case "Fetch":
			sz := c.args[0].(*Term)
			ob("run", "batches are fetched from the source, after all nodes have begun", And(Eq(r, source), Eq(st.g("bn"), n0), is1(st, "preps")))
			ob("run", "every batch is fed before the next one is fetched", is0(st, "pend"))
			ob("err", "fetching stops after an error: the error state is checked after each batch", Implies(Lt(IntLit(0), st.g("fc")), And(is1(st, "acq"), Eq(srcErr(st), nilU))))
			ds, bs := st.g("ds"), st.g("bs")
			I2, M2 := Ite(Lt(inc, IntLit(1)), IntLit(512), inc), Ite(Lt(mx, IntLit(1)), IntLit(4096), mx)
			nb := Ite(Lt(nof, IntLit(1)), Const("NumCPU", SInt), nof)
			ob("size", "batch sizes are positive", Le(IntLit(1), sz))
			ob("size", "for a source of unknown size, batches grow by the increment up to the maximum", Implies(Lt(ds, IntLit(0)), Eq(sz, Ite(Le(Add(bs, I2), M2), Add(bs, I2), M2))))
			s2 := st.clone()
			s2.assume(Le(IntLit(1), ds))
			if !s2.dead && e.query(s2) != Unsat {
				for _, c := range []*Term{Lt(nof, IntLit(1)), Le(IntLit(1), nof)} {
					s3 := s2.clone()
					s3.assume(c)
					n := nof
					if c.Op == "<" || c == Lt(nof, IntLit(1)) {
						n = Const("NumCPU", SInt)
					}
					_ = nb
					e.oblige(s3, "size", "for a source of known size, the given number of batches of equal size is enough", token.NoPos,
						Or(Eq(sz, Add(EDiv(Sub(ds, IntLit(1)), n), IntLit(1))), And(Le(ds, Mul(sz, n)), Lt(Mul(Sub(sz, IntLit(1)), n), ds))))
				}
			}
			ob("size", "for a source of known size, all batches have the same size", Implies(And(Le(IntLit(0), ds), Lt(IntLit(0), st.g("fc"))), Eq(sz, bs)))
			st.ghost["bs"] = sz
			st.ghost["fc"] = Add(st.g("fc"), IntLit(1))
			setIf(st, "acq", 0)
			v := e.symVal(st, I, "fetched").(*Term)
			end := st.clone()
			st.assume(Lt(IntLit(0), v))
			setIf(st, "pend", 1)
			setIf(st, "over", 0)
			end.assume(Le(v, IntLit(0)))
			setIf(end, "over", 1)
			return []Outcome{{st: st, vals: []Val{v}}, {st: end, vals: []Val{v}}}, true
		case "Data":
			ob("run", "data is taken from the source", Eq(r, source))
			return c.ret(Dfun(st.g("fc"))), true
		case "Err":
			if r != source {
				return nil, false
			}
			return c.ret(srcErr(st)), true
		case "Feed":
			ob("run", "the batch is fed to the first node, after merging", And(Eq(r, Select(st.g("MS"), IntLit(0))), Le(IntLit(1), st.g("ml")), BoolLit(sameVal(c.args[0], p)), Eq(c.args[1].(*Term), IntLit(0))))
			ob("merge", "after merging the pipeline consists of the nodes that begun and were not merged into another one, in order", q.layoutM(st))
			ob("run", "each fetched batch is fed once, with its own data", And(is1(st, "pend"), Eq(box(c.args[3]), Dfun(st.g("fc")))))
			ob("run", "batches are numbered 0, 1, 2, ...", Eq(c.args[2].(*Term), st.g("sn")))
			setIf(st, "pend", 0)
			setIf(st, "acq", 0)
			st.ghost["sn"] = Add(st.g("sn"), IntLit(1))
			st.assume(Le(st.g("sn"), maxSeq))
			return c.ret(), true
		case "End":
			ob("final", "nodes end after all batches were fed", And(is1(st, "over"), is0(st, "pend")))
			return q.end(c, r), true
		}
		return nil, false
	}
	e.cands = func(e *Engine, lc *LoopCtx) []Cand {
		var out []Cand
		add := func(n string, f func(v *View) *Term) { out = append(out, Cand{n, f}) }
		var ps []*ssa.Phi
		for ph := range lc.entry.phis {
			if t, ok := lc.entry.phis[ph].(*Term); ok && t.Sort == SInt {
				ps = append(ps, ph)
			}
		}
		sort.Slice(ps, func(i, j int) bool { return ps[i].Name() < ps[j].Name() })
		if lc.ghostM["nt"] {
			k := freshBound("k", SInt)
			add("nt", func(v *View) *Term { return And(Le(IntLit(0), v.st.g("nt")), Le(v.st.g("nt"), noti0.Len)) })
			add("notifiers left", func(v *View) *Term {
				a := v.st.heap[noti0.Obj].Arr
				return Forall([]*Term{k}, Implies(And(Le(Add(noti0.Off, v.st.g("nt")), k), Lt(k, Add(noti0.Off, noti0.Len))), Eq(Select(a, k), Select(NO, k))), []*Term{Select(a, k)})
			})
			for _, ph := range ps {
				ph := ph
				for c := int64(0); c < 2; c++ {
					c := c
					add(fmt.Sprint("nt index ", ph.Name(), c), func(v *View) *Term {
						t, _ := v.phis[ph].(*Term)
						return Eq(v.st.g("nt"), Add(t, IntLit(c)))
					})
				}
			}
		}
		q.cands(lc, ps, lc.entrySt.g("bn") == IntLit(0) && lc.entrySt.g("preps") == IntLit(1), add)
		if lc.ghostM["fc"] {
			s0 := func(v *View) *State { return v.st }
			add("size", func(v *View) *Term { return Implies(Lt(IntLit(0), s0(v).g("fc")), Le(IntLit(1), s0(v).g("bs"))) })
			for _, ph := range ps {
				ph := ph
				add("next size "+ph.Name(), func(v *View) *Term {
					t, ok := v.phis[ph].(*Term)
					if !ok {
						return nil
					}
					s := v.st
					I2, M2 := Ite(Lt(inc, IntLit(1)), IntLit(512), inc), Ite(Lt(mx, IntLit(1)), IntLit(4096), mx)
					return Eq(t, Ite(Le(Add(s.g("bs"), I2), M2), Add(s.g("bs"), I2), M2))
				})
			}
			add("checked", func(v *View) *Term {
				return Implies(Lt(IntLit(0), v.st.g("fc")), And(is1(v.st, "acq"), Eq(srcErr(v.st), nilU)))
			})
			add("bs", func(v *View) *Term {
				return And(Le(IntLit(0), v.st.g("bs")), Implies(Eq(v.st.g("fc"), IntLit(0)), Eq(v.st.g("bs"), IntLit(0))))
			})
			for _, ph := range ps {
				ph := ph
				add("same size "+ph.Name(), func(v *View) *Term {
					t, ok := v.phis[ph].(*Term)
					if !ok {
						return nil
					}
					return Implies(Lt(IntLit(0), v.st.g("fc")), Eq(v.st.g("bs"), t))
				})
			}
			for n, t := range intsOf(lc) {
				t := t
				add("const size "+n, func(v *View) *Term { return Implies(Lt(IntLit(0), v.st.g("fc")), Eq(v.st.g("bs"), t)) })
			}
			add("fc sn", func(v *View) *Term {
				return And(Le(IntLit(0), v.st.g("sn")), Le(v.st.g("sn"), maxSeq), Le(v.st.g("sn"), v.st.g("fc")))
			})
		}
		add("pend", func(v *View) *Term { return is0(v.st, "pend") })
		return out
	}
	run := d.fn("pipeline.Pipeline.RunWithContext")
	outs := d.must(st, "run", "RunWithContext", run, p, ctx, cancel)
	for _, o := range outs {
		s := o.st
		failed := Ne(mon.cur(s), nilU)
		none := Eq(q.kept(s), IntLit(0))
		complete := And(is1(s, "preps"), Eq(s.g("bn"), n0), Or(none, is1(s, "over")), is0(s, "pend"), Eq(s.g("en"), q.kept(s)))
		d.ob(s, "final", "when the run function returns without error, all batches were fed and all nodes have ended", Or(failed, complete))
		d.ob(s, "run", "a batch that was fetched is fed, also when an error stops the run", is0(s, "pend"))
		d.ob(s, "err", "an error of the source becomes the error of the pipeline", Implies(And(is1(s, "preps"), Ne(srcErr(s), nilU), Eq(s.g("bn"), n0)), failed))
		d.ob(s, "run", "no lock is held on return", BoolLit(len(s.thread().Locks) == 0))
	}
	d.reach("RunWithContext", outs)
}

// nodeSeq is the sequence of nodes of a pipeline of which each begins, is merged
// into its predecessor or not, and ends.  Ghost state: bn nodes were asked to
// begin, KS[0..kl) began, mn of them were looked at for merging, MS[0..ml) are
// left of those, en have ended.
type nodeSeq struct {
	d                *Driver
	p                Ptr
	NA, off0, n0     *Term
	strict, prepared func(st *State, x *Term) *Term
}

func (d *Driver) nodeSeq(st *State, p Ptr, nodes0 SliceV, NA *Term) *nodeSeq {
	e := d.e
	q := &nodeSeq{d: d, p: p, NA: NA, off0: nodes0.Off, n0: nodes0.Len}
	for _, g := range []string{"bn", "kl", "ml", "mn", "en"} {
		setIf(st, g, 0)
	}
	st.ghost["KS"], st.ghost["MS"] = e.fresh("KS", arr(SU)), e.fresh("MS", arr(SU))
	// fields of the nodes that the run function sets
	heap := map[string]int{}
	fieldN := map[string]int{}
	for _, m := range d.P.pkg("pipeline").Members {
		t, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		sh, S := nodeShape(types.NewPointer(t.Type()))
		if sh == "" {
			continue
		}
		if n, ok := types.Unalias(t.Type()).(*types.Named); !ok || n.Obj().Name() == "pipelineState" || n.TypeParams().Len() == 0 {
			continue
		}
		for i := 0; i < S.NumFields(); i++ {
			f := S.Field(i).Type()
			s, ok := scalarSort(f)
			if _, isP := under(f).(*types.Pointer); isP {
				s, ok = SU, true
			}
			if !ok {
				continue
			}
			key := fmt.Sprint(sh, i)
			heap[key] = e.newObj(st, &Obj{Name: sh + "." + S.Field(i).Name(), Kind: kArrS, Typ: f, Arr: e.fresh(sh+"."+S.Field(i).Name(), arrU(s))})
			switch {
			case sh == "seq" && s == SInt:
				fieldN["kind"] = heap[key]
			case sh == "lpar" && s == SBool:
				fieldN["ordered"] = heap[key]
			case sh == "lpar" && s == SU:
				fieldN["cond"] = heap[key]
			}
		}
	}
	if len(fieldN) != 3 {
		e.unsup("the fields of the nodes are not as expected")
	}
	e.fieldHeap = func(st *State, T types.Type, f int) int {
		sh, _ := nodeShape(T)
		return heap[fmt.Sprint(sh, f)]
	}
	e.assertHk = func(e *Engine, st *State, t *Term, T types.Type) ([]typeCase, bool) {
		sh, _ := nodeShape(T)
		if sh == "" {
			return nil, false
		}
		is := UF("is!"+sh, SBool, t)
		other := UF("is!"+map[string]string{"seq": "lpar", "lpar": "seq"}[sh], SBool, t)
		return []typeCase{{T, And(is, Not(other), Ne(t, nilU)), t}, {nil, Not(is), nil}}, true
	}
	condModels(d, func(c *CallCtx, _ Val) { e.unsup("Wait") }, func(c *CallCtx, _ Val, _ bool) {})
	q.prepared = func(st *State, x *Term) *Term {
		a := func(n string) *Term { return Select(st.heap[fieldN[n]].Arr, x) }
		return And(Implies(UF("is!seq", SBool, x), Eq(a("kind"), IntLit(0))), Implies(UF("is!lpar", SBool, x), And(a("ordered"), Ne(a("cond"), nilU))))
	}
	q.strict = func(_ *State, x *Term) *Term { return UF("strict", SBool, x) }
	return q
}

func (q *nodeSeq) nodes(st *State) SliceV {
	s, ok := q.d.field(st, q.p, "nodes").(SliceV)
	if !ok {
		q.d.e.unsup("nodes of the pipeline")
	}
	return s
}

// swept: before a node begins, all nodes before a StrictOrd node are prepared.
func (q *nodeSeq) swept(st *State) *Term { return q.sweptFrom(st, IntLit(0)) }

func (q *nodeSeq) sweptFrom(st *State, from *Term) *Term {
	i, j := freshBound("i", SInt), freshBound("j", SInt)
	ni, nj := Select(q.NA, i), Select(q.NA, j)
	return Forall([]*Term{i, j}, Implies(And(Le(Add(q.off0, from), j), Lt(j, i), Lt(i, Add(q.off0, q.n0)), q.strict(st, ni)), q.prepared(st, nj)), []*Term{q.strict(st, ni), nj})
}

func (q *nodeSeq) layout(st *State, first, nfirst, second, from, nsecond string) *Term {
	s := q.nodes(st)
	if s.Obj == 0 {
		return Eq(q.n0, IntLit(0))
	}
	k := freshBound("k", SInt)
	a := q.d.e.arrOf(st, s)
	var B, N *Term
	if second == "NA" {
		B, N = q.NA, q.n0
	} else {
		B, N = st.g(second), st.g(nsecond)
	}
	l := st.g(first)
	o2 := IntLit(0)
	if second == "NA" {
		o2 = q.off0
	}
	return And(Eq(s.Len, Add(st.g(nfirst), Sub(N, st.g(from)))),
		Forall([]*Term{k}, Implies(And(Le(s.Off, k), Lt(k, Add(s.Off, st.g(nfirst)))), Eq(Select(a, k), Select(l, Sub(k, s.Off)))), []*Term{Select(a, k)}),
		Forall([]*Term{k}, Implies(And(Le(Add(s.Off, st.g(nfirst)), k), Lt(k, Add(s.Off, s.Len))), Eq(Select(a, k), Select(B, Add(o2, st.g(from), Sub(k, Add(s.Off, st.g(nfirst))))))), []*Term{Select(a, k)}))
}

// inPlace: the slice of nodes keeps its length while the nodes that are kept
// move to its front.
func (q *nodeSeq) inPlace(st *State, first, nfirst, second, from, nsecond string) *Term {
	s := q.nodes(st)
	if s.Obj == 0 {
		return nil
	}
	B, N, o2 := q.NA, q.n0, q.off0
	if second != "NA" {
		B, N, o2 = st.g(second), st.g(nsecond), IntLit(0)
	}
	k := freshBound("k", SInt)
	a, l := q.d.e.arrOf(st, s), st.g(first)
	return And(Eq(s.Len, N),
		Forall([]*Term{k}, Implies(And(Le(s.Off, k), Lt(k, Add(s.Off, st.g(nfirst)))), Eq(Select(a, k), Select(l, Sub(k, s.Off)))), []*Term{Select(a, k)}),
		Forall([]*Term{k}, Implies(And(Le(Add(s.Off, st.g(from)), k), Lt(k, Add(s.Off, N))), Eq(Select(a, k), Select(B, Add(o2, Sub(k, s.Off))))), []*Term{Select(a, k)}))
}

// collected: a slice of the loop holds the nodes that are kept so far.
func (q *nodeSeq) collected(v *View, ph *ssa.Phi, first, nfirst string) *Term {
	s, ok := v.phis[ph].(SliceV)
	if !ok {
		return nil
	}
	if s.Obj == 0 {
		return Eq(v.st.g(nfirst), IntLit(0))
	}
	k := freshBound("k", SInt)
	a := q.d.e.arrOf(v.st, s)
	return And(Eq(s.Len, v.st.g(nfirst)),
		Forall([]*Term{k}, Implies(And(Le(s.Off, k), Lt(k, Add(s.Off, s.Len))), Eq(Select(a, k), Select(v.st.g(first), Sub(k, s.Off)))), []*Term{Select(a, k)}))
}

func (q *nodeSeq) layoutB(st *State) *Term { return q.layout(st, "KS", "kl", "NA", "bn", "") }
func (q *nodeSeq) layoutM(st *State) *Term { return q.layout(st, "MS", "ml", "KS", "mn", "kl") }
func (q *nodeSeq) kept(st *State) *Term    { return Add(st.g("ml"), Sub(st.g("kl"), st.g("mn"))) }
func (q *nodeSeq) keptAt(st *State, i *Term) *Term {
	return Ite(Lt(i, st.g("ml")), Select(st.g("MS"), i), Select(st.g("KS"), Add(st.g("mn"), Sub(i, st.g("ml")))))
}

// begin is the contract of Node.Begin as its callers use it.
func (q *nodeSeq) begin(c *CallCtx, r *Term, tag string) []Outcome {
	e, st := q.d.e, c.st
	bn, kl := st.g("bn"), st.g("kl")
	e.oblige(st, tag, "each node begins once, in order, with its index", c.pos, And(Lt(bn, q.n0), Eq(r, Select(q.NA, Add(q.off0, bn))), BoolLit(sameVal(c.args[0], q.p)), Eq(c.args[1].(*Term), kl)))
	sp, ok := c.args[2].(Ptr)
	if !ok {
		e.unsup("data size is %T", c.args[2])
	}
	q.d.havocLoc(st, sp.loc())
	for _, cl := range e.colls {
		cl.writes[sp.loc()] = true
	}
	st.ghost["bn"] = Add(bn, IntLit(1))
	no := st.clone()
	first := Eq(kl, IntLit(0))
	st.ghost["KS"] = Store(st.g("KS"), kl, r)
	st.ghost["kl"] = Add(kl, IntLit(1))
	st.ghost["MS"] = Store(st.g("MS"), IntLit(0), Ite(first, r, Select(st.g("MS"), IntLit(0))))
	setIf(st, "ml", 1)
	setIf(st, "mn", 1)
	return []Outcome{{st: st, vals: []Val{True}}, {st: no, vals: []Val{False}}}
}

// merge is the contract of Node.TryMerge.
func (q *nodeSeq) merge(c *CallCtx, r *Term) []Outcome {
	e, st := q.d.e, c.st
	ml, mn := st.g("ml"), st.g("mn")
	e.oblige(st, "merge", "nodes are merged after all have begun", c.pos, Eq(st.g("bn"), q.n0))
	e.oblige(st, "merge", "only neighbours are merged, each once", c.pos, And(Lt(mn, st.g("kl")), Le(IntLit(1), ml), Eq(r, Select(st.g("MS"), Sub(ml, IntLit(1)))), Eq(box(c.args[0]), Select(st.g("KS"), mn))))
	no := st.clone()
	st.ghost["mn"] = Add(mn, IntLit(1))
	no.ghost["mn"] = Add(mn, IntLit(1))
	no.ghost["MS"] = Store(no.g("MS"), ml, box(c.args[0]))
	no.ghost["ml"] = Add(ml, IntLit(1))
	return []Outcome{{st: st, vals: []Val{True}}, {st: no, vals: []Val{False}}}
}

// end is the contract of Node.End.
func (q *nodeSeq) end(c *CallCtx, r *Term) []Outcome {
	e, st := q.d.e, c.st
	en := st.g("en")
	e.oblige(st, "final", "each node of the pipeline ends once, in order", c.pos, And(Lt(en, q.kept(st)), Eq(r, q.keptAt(st, en))))
	st.ghost["en"] = Add(en, IntLit(1))
	return c.ret()
}

// cands are loop invariant candidates for loops over the nodes.
func (q *nodeSeq) cands(lc *LoopCtx, ps []*ssa.Phi, sweeping bool, add func(n string, f func(v *View) *Term)) {
	if sweeping {
		for _, ph := range ps {
			ph := ph
			ent := lc.entry.phis[ph].(*Term)
			get := func(v *View) *Term { t, _ := v.phis[ph].(*Term); return t }
			k := freshBound("k", SInt)
			rng := func(lo, hi *Term, body *Term) *Term {
				return Forall([]*Term{k}, Implies(And(Le(Add(q.off0, lo), k), Lt(k, Add(q.off0, hi))), body), []*Term{Select(q.NA, k)})
			}
			x := Select(q.NA, k)
			add("down strict "+ph.Name(), func(v *View) *Term { return rng(Add(get(v), IntLit(1)), q.n0, Not(q.strict(v.st, x))) })
			add("up strict "+ph.Name(), func(v *View) *Term { return rng(IntLit(0), get(v), Not(q.strict(v.st, x))) })
			add("down prep "+ph.Name(), func(v *View) *Term { return rng(Add(get(v), IntLit(1)), Add(ent, IntLit(1)), q.prepared(v.st, x)) })
			add("up prep "+ph.Name(), func(v *View) *Term { return rng(ent, get(v), q.prepared(v.st, x)) })
			add("up1 strict "+ph.Name(), func(v *View) *Term { return rng(IntLit(0), Add(get(v), IntLit(1)), Not(q.strict(v.st, x))) })
			add("up1 prep "+ph.Name(), func(v *View) *Term { return rng(IntLit(0), Add(get(v), IntLit(1)), q.prepared(v.st, x)) })
			for _, p2 := range ps {
				p2 := p2
				if p2 != ph {
					add("between strict "+ph.Name()+" "+p2.Name(), func(v *View) *Term {
						t, _ := v.phis[p2].(*Term)
						return rng(Add(get(v), IntLit(1)), Add(t, IntLit(1)), Not(q.strict(v.st, x)))
					})
				}
			}
			for b, t := range lc.entry.phis {
				b := b
				if t, ok := t.(*Term); !ok || t.Sort != SBool {
					continue
				}
				for _, pol := range []bool{false, true} {
					pol := pol
					add(fmt.Sprint("down strict if ", b.Name(), pol, " ", ph.Name()), func(v *View) *Term {
						t, _ := v.phis[b].(*Term)
						return Implies(Eq(t, BoolLit(pol)), rng(Add(get(v), IntLit(1)), q.n0, Not(q.strict(v.st, x))))
					})
					add(fmt.Sprint("down some strict if ", b.Name(), pol, " ", ph.Name()), func(v *View) *Term {
						t, _ := v.phis[b].(*Term)
						return Implies(Eq(t, BoolLit(pol)), Not(rng(Add(get(v), IntLit(1)), q.n0, Not(q.strict(v.st, x)))))
					})
				}
			}
			add("down swept "+ph.Name(), func(v *View) *Term { return q.sweptFrom(v.st, Add(get(v), IntLit(1))) })
			add("nonneg "+ph.Name(), func(v *View) *Term { return Le(IntLit(-1), get(v)) })
		}
		add("swept", func(v *View) *Term { return q.swept(v.st) })
	}
	var ss []*ssa.Phi
	for ph, x := range lc.entry.phis {
		if _, ok := x.(SliceV); ok {
			ss = append(ss, ph)
		}
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i].Name() < ss[j].Name() })
	if lc.ghostM["bn"] {
		add("inPlaceB", func(v *View) *Term { return q.inPlace(v.st, "KS", "kl", "NA", "bn", "") })
		for _, ph := range ss {
			ph := ph
			add("kept "+ph.Name(), func(v *View) *Term { return q.collected(v, ph, "KS", "kl") })
		}
		for _, r := range q.d.e.roles(lc) {
			r := r
			if !r.U {
				add("announced "+r.Name, func(v *View) *Term {
					t := r.Get(v)
					if t == nil {
						return nil
					}
					return Implies(Eq(v.st.g("bn"), IntLit(0)), Eq(t, v.st.g("ds")))
				})
			}
		}
		add("layoutB", func(v *View) *Term { return q.layoutB(v.st) })
		add("kl bn", func(v *View) *Term {
			return And(Le(IntLit(0), v.st.g("kl")), Le(v.st.g("kl"), v.st.g("bn")), Le(v.st.g("bn"), q.n0))
		})
		add("first", func(v *View) *Term {
			s := v.st
			return And(Eq(s.g("ml"), s.g("mn")), Eq(s.g("ml"), Ite(Lt(IntLit(0), s.g("kl")), IntLit(1), IntLit(0))), Implies(Lt(IntLit(0), s.g("kl")), Eq(Select(s.g("MS"), IntLit(0)), Select(s.g("KS"), IntLit(0)))))
		})
	}
	if lc.ghostM["mn"] && !lc.ghostM["bn"] {
		for ph, x := range lc.entry.phis {
			ph := ph
			if t, ok := x.(*Term); ok && t.Sort == SU {
				add("last "+ph.Name(), func(v *View) *Term {
					t, ok := v.phis[ph].(*Term)
					if !ok {
						return nil
					}
					return Eq(t, Select(v.st.g("MS"), Sub(v.st.g("ml"), IntLit(1))))
				})
			}
		}
		add("inPlaceM", func(v *View) *Term { return q.inPlace(v.st, "MS", "ml", "KS", "mn", "kl") })
		for _, ph := range ss {
			ph := ph
			add("left "+ph.Name(), func(v *View) *Term { return q.collected(v, ph, "MS", "ml") })
		}
		add("layoutM", func(v *View) *Term { return q.layoutM(v.st) })
		add("ml mn", func(v *View) *Term {
			s := v.st
			return And(Le(IntLit(1), s.g("ml")), Le(s.g("ml"), s.g("mn")), Le(s.g("mn"), s.g("kl")))
		})
	}
}

// intsOf gives the integers in scope that a loop does not change.
func intsOf(lc *LoopCtx) map[string]*Term {
	out := map[string]*Term{}
	for v, x := range lc.fr.env {
		t, ok := x.(*Term)
		if !ok || t.Sort != SInt {
			continue
		}
		if _, isPhi := v.(*ssa.Phi); isPhi {
			if _, mine := lc.entry.phis[v.(*ssa.Phi)]; mine {
				continue
			}
		}
		if _, lit := t.isInt(); lit {
			if _, c := v.(*ssa.Const); c {
				continue
			}
		}
		out[v.Name()] = t
	}
	return out
}

// runWrapperDriver: Run creates a context, runs with it, and cancels it.
func runWrapperDriver(d *Driver) {
	e := d.e
	st := newState()
	x := d.pipe(st)
	bg, ctx, cancel, rwc := e.fresh("background", SU), e.fresh("ctx", SU), e.fresh("cancel", SU), e.fresh("runWithContext", SU)
	st.assume(Ne(ctx, nilU), Ne(cancel, nilU), Ne(rwc, nilU), Ne(bg, nilU))
	d.setField(st, x.ps, "runWithContext", rwc)
	for _, g := range []string{"runs", "cancels", "made"} {
		setIf(st, g, 0)
	}
	e.models["context.Background"] = func(e *Engine, c *CallCtx) []Outcome { return c.ret(bg) }
	e.models["context.WithCancel"] = func(e *Engine, c *CallCtx) []Outcome {
		e.oblige(c.st, "run", "Run uses a context of its own", c.pos, And(Eq(box(c.args[0]), bg), is0(c.st, "made")))
		setIf(c.st, "made", 1)
		return c.ret(ctx, cancel)
	}
	e.opaque = func(e *Engine, c *CallCtx, g *Term) ([]Outcome, bool) {
		st := c.st
		switch g {
		case rwc:
			e.oblige(st, "run", "Run runs the pipeline once, with its context", c.pos, And(is0(st, "runs"), is0(st, "cancels"), Eq(box(c.args[0]), ctx), Eq(box(c.args[1]), cancel)))
			setIf(st, "runs", 1)
			pan := st.clone()
			return []Outcome{{st: st}, {st: pan, panic: true, pval: e.fresh("pan", SU)}}, true
		case cancel:
			st.ghost["cancels"] = Add(st.g("cancels"), IntLit(1))
			return c.ret(), true
		}
		return nil, false
	}
	outs := d.exec(st, d.fn("pipeline.Pipeline.Run"), x.p)
	n, _ := split(outs)
	for _, o := range outs {
		d.ob(o.st, "run", "Run runs the pipeline", is1(o.st, "runs"))
		d.ob(o.st, "run", "Run cancels its context at the end", Le(IntLit(1), o.st.g("cancels")))
	}
	d.reach("Run", n)
}
