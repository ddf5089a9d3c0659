package main

import (
	"go/token"
	"go/types"
)

// prefixed states that slice c is slice a followed by slice b.
func (d *Driver) concat(c, a, b SliceV, cs, as, bs *State) *Term {
	e := d.e
	ca, aa, ba := e.arrOf(cs, c), e.arrOf(as, a), e.arrOf(bs, b)
	v := freshBound("i", SInt)
	return And(Eq(c.Len, Add(a.Len, b.Len)),
		Forall([]*Term{v}, Implies(And(Le(IntLit(0), v), Lt(v, a.Len)), Eq(Select(ca, Add(c.Off, v)), Select(aa, Add(a.Off, v))))),
		Forall([]*Term{v}, Implies(And(Le(IntLit(0), v), Lt(v, b.Len)), Eq(Select(ca, Add(c.Off, Add(a.Len, v))), Select(ba, Add(b.Off, v))))))
}

// sameSeq states that two slices hold the same elements.
func (d *Driver) sameSeq(c, a SliceV, cs, as *State) *Term {
	e := d.e
	v := freshBound("i", SInt)
	return And(Eq(c.Len, a.Len),
		Forall([]*Term{v}, Implies(And(Le(IntLit(0), v), Lt(v, a.Len)), Eq(Select(e.arrOf(cs, c), Add(c.Off, v)), Select(e.arrOf(as, a), Add(a.Off, v))))))
}

// nilFacts: a nil slice is empty.
func nilFacts(st *State, ss ...SliceV) {
	for _, s := range ss {
		st.assume(Implies(s.Nil, Eq(s.Len, IntLit(0))))
	}
}

type sliceSec struct{ before, after SliceV }
type sliceSecsV struct{ s []sliceSec }

func getSliceSecs(st *State) []sliceSec {
	if v, ok := st.mem["ssecs"].(*sliceSecsV); ok {
		return v.s
	}
	return nil
}

func appendDriver(d *Driver) {
	e := d.e
	fn := d.fn("pipeline.Append")
	elemT := under(under(fn.Params[0].Type()).(*types.Pointer).Elem()).(*types.Slice).Elem()
	sliceT := types.NewSlice(elemT)
	reached := 0
	for k := int64(0); k < 3; k++ {
		kn := kindName(k)
		st := newState()
		x := d.pipe(st)
		resP := d.variable(st, sliceT, "result", e.symVal(st, sliceT, "r0"))
		size := d.variable(st, types.Typ[types.Int], "dataSize", e.symVal(st, types.Typ[types.Int], "size"))
		size0 := getLoc(st, size.loc())
		res0 := getLoc(st, resP.loc())
		e.opaque = func(e *Engine, c *CallCtx, g *Term) ([]Outcome, bool) {
			if g == x.cancel {
				e.oblige(c.st, "filter", "Append does not cancel", c.pos, False)
				return c.ret(), true
			}
			return nil, false
		}
		for _, o := range d.must(st, "filter", "Append", fn, resP) {
			for _, o := range d.mustCall(o.st, "filter", "the filter", o.vals[0], x.p, IntLit(k), size) {
				recv, fin := o.vals[0], o.vals[1]
				d.ob(o.st, "filter", "Append does not change the data size", d.eq(getLoc(o.st, size.loc()), size0, types.Typ[types.Int]))
				d.ob(o.st, "filter", "Append keeps what the result held before", d.sameSeq(getLoc(o.st, resP.loc()).(SliceV), res0.(SliceV), o.st, o.st))
				if recv == Val(nilU) {
					d.ob(o.st, "filter", "Append looks at every batch ("+kn+")", False)
					continue
				}
				data := e.symVal(o.st, sliceT, "data").(SliceV)
				nilFacts(o.st, data)
				seq := e.symVal(o.st, types.Typ[types.Int], "seq")
				pre := d.havocLoc(o.st, resP.loc()).(SliceV)
				base := o.st.clone()
				if k == 2 {
					e.onLock = func(c *CallCtx, _ string, acquire bool) {
						ss := append([]sliceSec{}, getSliceSecs(c.st)...)
						if acquire {
							for _, cl := range e.colls {
								cl.writes[resP.loc()] = true
							}
							now := d.havocLoc(c.st, resP.loc()).(SliceV)
							ss = append(ss, sliceSec{now, now})
						} else if len(ss) > 0 {
							ss[len(ss)-1].after = getLoc(c.st, resP.loc()).(SliceV)
						}
						c.st.mem["ssecs"] = &sliceSecsV{ss}
					}
				}
				for _, q := range d.mustCall(o.st, "filter", "the receiver", recv, seq, data) {
					reached++
					out, ok := q.vals[0].(SliceV)
					d.ob(q.st, "filter", "Append passes the batch on unmodified ("+kn+")", BoolLit(ok && sameVal(out, data)))
					d.ob(q.st, "filter", "Append holds no lock between batches ("+kn+")", BoolLit(len(q.st.thread().Locks) == 0))
					post := getLoc(q.st, resP.loc()).(SliceV)
					if k != 2 {
						// content of the result after the finalizer, relative to before
						d.ob(q.st, "filter", "Append appends the batch to the result ("+kn+")", d.concat(post, pre, data, q.st, base, base))
					} else {
						// exactly one critical section appends the batch, or the batch is empty
						secs := getSliceSecs(q.st)
						alts := []*Term{}
						all := Eq(data.Len, IntLit(0))
						for i := range secs {
							c := d.concat(secs[i].after, secs[i].before, data, q.st, q.st, q.st)
							all = And(all, d.sameSeq(secs[i].after, secs[i].before, q.st, q.st))
							for j := range secs {
								if j != i {
									c = And(c, d.sameSeq(secs[j].after, secs[j].before, q.st, q.st))
								}
							}
							alts = append(alts, c)
						}
						d.ob(q.st, "filter", "Append appends the batch to the result in one critical section ("+kn+")", Or(append(alts, all)...))
					}
					if fin != Val(nilU) {
						e.onLock = nil
						for _, f := range d.mustCall(q.st, "filter", "the finalizer", fin) {
							d.ob(f.st, "filter", "the finalizer of Append keeps the result ("+kn+")", d.sameSeq(getLoc(f.st, resP.loc()).(SliceV), post, f.st, f.st))
						}
					}
				}
				e.onLock = nil
				if k == 2 {
					d.twoReceivers(base, recv, func(st *State) []Val { return []Val{seq, data} })
				}
			}
		}
	}
	d.ob(newState(), "vacuity", "receivers are executed", BoolLit(reached >= 3))
}

func countDriver(d *Driver) {
	e := d.e
	fn := d.fn("pipeline.Count")
	I := types.Typ[types.Int]
	sliceT := types.NewSlice(fn.Signature.TypeParams().At(0))
	interfere := d.atomics()
	reached := 0
	for k := int64(0); k < 3; k++ {
		kn := kindName(k)
		st := newState()
		x := d.pipe(st)
		resP := d.variable(st, I, "result", e.symVal(st, I, "r0"))
		sz := e.symVal(st, I, "size").(*Term)
		size := d.variable(st, I, "dataSize", sz)
		e.opaque = func(e *Engine, c *CallCtx, g *Term) ([]Outcome, bool) {
			if g == x.cancel {
				e.oblige(c.st, "filter", "Count does not cancel", c.pos, False)
				return c.ret(), true
			}
			return nil, false
		}
		for _, o := range d.must(st, "filter", "Count", fn, resP) {
			for _, o := range d.mustCall(o.st, "filter", "the filter", o.vals[0], x.p, IntLit(k), size) {
				recv, fin := o.vals[0], o.vals[1]
				d.ob(o.st, "filter", "Count does not change the data size", Eq(getLoc(o.st, size.loc()).(*Term), sz))
				final := func(st *State) []Outcome {
					if fin == Val(nilU) {
						return []Outcome{{st: st}}
					}
					return d.mustCall(st, "filter", "the finalizer", fin)
				}
				getR := func(o Outcome) *Term { return getLoc(o.st, resP.loc()).(*Term) }
				g := func(st *State) *Term { return d.result(st, SInt, final, getR) }
				s0 := o.st.clone()
				r0 := g(s0)
				if recv == Val(nilU) {
					d.ob(s0, "filter", "Count gives the known size of the data ("+kn+")", And(Le(IntLit(0), sz), Eq(r0, sz)))
					continue
				}
				// the count when no batch is seen: zero, or the known size if batches do not add to it
				data := e.symVal(o.st, sliceT, "data").(SliceV)
				nilFacts(o.st, data)
				seq := e.symVal(o.st, I, "seq")
				adds := data.Len
				d.ob(s0, "filter", "Count starts at zero ("+kn+")", Eq(r0, IntLit(0)))
				for _, w := range d.writesOf(o.st, recv, seq, data) {
					d.havocLoc(o.st, w)
				}
				g0 := g(o.st)
				o.st.assume(Le(IntLit(0), g0), Le(Add(g0, adds), IntLitS("9223372036854775807")))
				base := o.st.clone()
				*interfere = k == 2
				for _, q := range d.mustCall(o.st, "filter", "the receiver", recv, seq, data) {
					reached++
					out, ok := q.vals[0].(SliceV)
					d.ob(q.st, "filter", "Count passes the batch on unmodified ("+kn+")", BoolLit(ok && sameVal(out, data)))
					*interfere = false
					if k != 2 {
						d.ob(q.st, "filter", "Count adds the length of the batch ("+kn+")", Eq(g(q.st), Add(g0, adds)))
						continue
					}
					sum := IntLit(0)
					for _, a := range getAtomics(q.st) {
						s1, s2 := q.st.clone(), q.st.clone()
						s1.assume(Le(IntLit(0), a.pre), Le(Add(a.pre, adds), IntLitS("9223372036854775807")))
						setLoc(s1, a.loc, a.pre)
						setLoc(s2, a.loc, a.post)
						ga := g(s1)
						s2.assume(s1.facts()...)
						gb := g(s2)
						q.st.assume(s2.facts()...)
						sum = Add(sum, Sub(gb, ga))
					}
					d.ob(q.st, "filter", "Count adds the length of the batch, whatever other goroutines do ("+kn+")", Eq(sum, adds))
				}
				if k == 2 {
					*interfere = false
					d.twoReceivers(base, recv, func(st *State) []Val { return []Val{seq, data} })
				}
			}
		}
	}
	d.ob(newState(), "vacuity", "receivers are executed", BoolLit(reached >= 3))
}

// Limit and Skip: the node is ordered, and its receiver passes on the part of
// each batch that lies before (after) position n of the whole sequence.
func limitDriver(d *Driver, limit bool) {
	e := d.e
	name := "Skip"
	if limit {
		name = "Limit"
	}
	fn := d.fn("pipeline." + name)
	I := types.Typ[types.Int]
	sliceT := types.NewSlice(fn.Signature.TypeParams().At(0))
	reached := 0
	st := newState()
	x := d.pipe(st)
	n := e.symVal(st, I, "n").(*Term)
	cwr := e.fresh("cancelWhenReached", SBool)
	sz := e.symVal(st, I, "size").(*Term)
	size := d.variable(st, I, "dataSize", sz)
	st.ghost["cancels"] = IntLit(0)
	e.opaque = func(e *Engine, c *CallCtx, g *Term) ([]Outcome, bool) {
		if g == x.cancel {
			c.st.ghost["cancels"] = Add(c.st.g("cancels"), IntLit(1))
			return c.ret(), true
		}
		return nil, false
	}
	args := []Val{n}
	if limit {
		args = append(args, cwr)
	}
	z := IntLit(0)
	min2 := func(a, b *Term) *Term { return Ite(Le(a, b), a, b) }
	max2 := func(a, b *Term) *Term { return Ite(Le(a, b), b, a) }
	for _, o := range d.must(st, "filter", name, fn, args...) {
		iv, ok := o.vals[0].(IfaceV)
		if !ok {
			e.unsup("%s does not return a known node", name)
		}
		np, ok := iv.V.(Ptr)
		if !ok {
			e.unsup("%s does not return a node pointer", name)
		}
		nodeT := under(iv.Typ).(*types.Pointer).Elem()
		tn := ""
		if nm, ok := types.Unalias(nodeT).(*types.Named); ok {
			tn = nm.Obj().Name()
		}
		ordered := tn == "strictordnode"
		if tn == "seqnode" {
			k, _ := d.field(o.st, np, "kind").(*Term)
			ordered = k != nil && k == z
		}
		d.ob(o.st, "filter", name+" makes an ordered node", BoolLit(ordered))
		fs, ok := d.field(o.st, np, "filters").(SliceV)
		if !ok {
			e.unsup("filters of %s", name)
		}
		fo := o.st.heap[fs.Obj]
		if ln, okl := fs.Len.isInt(); !okl || ln.Int64() != 1 || fo == nil || fo.Kind != kArrC {
			e.unsup("filters of %s", name)
		}
		filter := fo.Elems[0]
		if t, okf := filter.(*Term); okf {
			filter = unbox(t)
		}
		for _, o := range d.mustCall(o.st, "filter", "the filter", filter, x.p, z, size) {
			recv, fin := o.vals[0], o.vals[1]
			sz1 := getLoc(o.st, size.loc()).(*Term)
			known := Le(z, sz)
			var want *Term
			if limit {
				want = Ite(Lt(n, z), sz, min2(sz, n))
				d.ob(o.st, "filter", "Limit gives the size of what it passes on", And(Implies(known, Eq(sz1, want)), Implies(Not(known), Or(Lt(sz1, z), And(Eq(n, z), Eq(sz1, z))))))
			} else {
				want = Ite(Lt(n, z), z, max2(z, Sub(sz, n)))
				d.ob(o.st, "filter", "Skip gives the size of what it passes on", And(Implies(known, Eq(sz1, want)), Implies(Not(known), Or(Lt(sz1, z), And(Lt(n, z), Eq(sz1, z))))))
				d.ob(o.st, "filter", "Skip with a negative argument sets the error", Implies(Lt(n, z), Ne(box(d.field(o.st, x.ps, "err")), nilU)))
			}
			if fin != Val(nilU) {
				e.unsup("%s has a finalizer", name)
			}
			total := e.symVal(o.st, I, "total").(*Term)
			data := e.symVal(o.st, sliceT, "data").(SliceV)
			nilFacts(o.st, data)
			end := Add(total, data.Len)
			o.st.assume(Le(z, total), Le(end, IntLitS("9223372036854775807")), Implies(known, Le(end, sz)))
			// the part of [total, end) that is passed on
			var from, to *Term
			if limit {
				from, to = total, Ite(Lt(n, z), end, max2(total, min2(end, n)))
			} else {
				from, to = Ite(Lt(n, z), end, max2(total, min2(end, n))), end
			}
			if limit {
				d.ob(o.st, "filter", "Limit cancels at once only when nothing is to pass", Implies(Lt(z, o.st.g("cancels")), And(cwr, Eq(n, z))))
				d.ob(o.st, "filter", "Limit 0 cancels at once when asked to", Implies(And(cwr, Eq(n, z)), Lt(z, o.st.g("cancels"))))
			}
			if recv == Val(nilU) {
				// every batch is passed on unmodified
				d.ob(o.st, "filter", name+" drops out only when it has nothing to remove", And(Eq(from, total), Eq(to, end)))
				continue
			}
			seq := e.symVal(o.st, I, "seq")
			o.st.ghost["cancels"] = z
			// the state of the receiver after `total` elements: candidates, of
			// which those that hold at the start and are preserved are assumed
			ws := d.writesOf(o.st, recv, seq, data)
			type cand struct {
				loc string
				f   func(total *Term) *Term
			}
			var cs []cand
			forms := []func(t *Term) *Term{
				func(t *Term) *Term { return min2(t, n) },
				func(t *Term) *Term { return Sub(n, min2(t, n)) },
				func(t *Term) *Term { return t },
				func(t *Term) *Term { return Sub(n, t) },
			}
			init := o.st.clone()
			for _, w := range ws {
				t, ok := getLoc(o.st, w).(*Term)
				if !ok {
					continue
				}
				if t.Sort == SInt {
					for _, f := range forms {
						if e.proves(init, Eq(t, f(z))) {
							cs = append(cs, cand{w, f})
						}
					}
				}
				if t.Sort == SBool {
					for _, f := range []func(t *Term) *Term{func(t *Term) *Term { return Le(n, t) }, func(t *Term) *Term { return Lt(t, n) }} {
						if e.proves(init, Eq(t, f(z))) {
							cs = append(cs, cand{w, f})
						}
					}
				}
			}
			for {
				s := o.st.clone()
				for _, w := range ws {
					d.havocLoc(s, w)
				}
				for _, c := range cs {
					s.assume(Eq(getLoc(s, c.loc).(*Term), c.f(total)))
				}
				e.quiet++
				outs := d.callVal(s.clone(), recv, seq, data)
				e.quiet--
				var keep []cand
				for _, c := range cs {
					good := true
					for _, q := range outs {
						if !q.panic && !e.proves(q.st, Eq(getLoc(q.st, c.loc).(*Term), c.f(end))) {
							good = false
						}
					}
					if good {
						keep = append(keep, c)
					}
				}
				if len(keep) < len(cs) {
					cs = keep
					continue
				}
				for _, q := range d.mustCall(s, "filter", "the receiver", recv, seq, data) {
					reached++
					out, ok := q.vals[0].(SliceV)
					if !ok {
						e.unsup("result of the receiver is %T", q.vals[0])
					}
					nilFacts(q.st, out)
					v := freshBound("i", SInt)
					d.ob(q.st, "filter", name+" passes on exactly the elements on its side of the limit", And(Eq(out.Len, Sub(to, from)),
						Forall([]*Term{v}, Implies(And(Le(z, v), Lt(v, out.Len)), Eq(Select(e.arrOf(q.st, out), Add(out.Off, v)), Select(e.arrOf(q.st, data), Add(data.Off, Add(Sub(from, total), v))))))))
					for _, c := range cs {
						d.ob(q.st, "filter", name+" keeps its count", Eq(getLoc(q.st, c.loc).(*Term), c.f(end)))
					}
					canceled := Lt(z, q.st.g("cancels"))
					if limit {
						d.ob(q.st, "filter", "Limit cancels only when asked to and the limit is reached", Implies(canceled, And(cwr, Le(n, end))))
						d.ob(q.st, "filter", "Limit cancels when the limit is reached and this was asked for", Implies(And(cwr, Le(n, end), Lt(total, n)), canceled))
					} else {
						d.ob(q.st, "filter", "Skip does not cancel", Implies(Le(z, n), Not(canceled)))
					}
				}
				break
			}
		}
	}
	d.ob(newState(), "vacuity", "receivers are executed", BoolLit(reached >= 2))
}

var _ = token.NoPos
