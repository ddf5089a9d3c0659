package main

// The small functions of package pipeline: the filter constructors, and the
// accessors of a pipeline.

import "go/types"

func init() {
	drivers["pipeline.ctors"] = ctorsDriver
	drivers["pipeline.Notify"] = notifyDriver
}

func ctorsDriver(d *Driver) {
	e := d.e
	I := types.Typ[types.Int]
	for _, c := range []struct {
		name     string
		rcv, fin bool
	}{{"Identity", false, false}, {"Receive", true, false}, {"Finalize", false, true}, {"ReceiveAndFinalize", true, true}} {
		fn := d.fn("pipeline." + c.name)
		st := newState()
		x := d.pipe(st)
		r, f := e.fresh("receiver", SU), e.fresh("finalizer", SU)
		size0 := e.symVal(st, I, "size")
		size := d.variable(st, I, "dataSize", size0)
		kind := e.symVal(st, I, "kind")
		var outs []Outcome
		if !c.rcv && !c.fin {
			outs = d.must(st, "begin", c.name, fn, x.p, kind, size)
		} else {
			var args []Val
			if c.rcv {
				args = append(args, r)
			}
			if c.fin {
				args = append(args, f)
			}
			for _, o := range d.must(st, "begin", c.name, fn, args...) {
				outs = append(outs, d.mustCall(o.st, "begin", "the filter of "+c.name, o.vals[0], x.p, kind, size)...)
			}
		}
		for _, o := range outs {
			if len(o.vals) != 2 {
				e.unsup("%s does not make a filter", c.name)
			}
			wr, wf := nilU, nilU
			if c.rcv {
				wr = r
			}
			if c.fin {
				wf = f
			}
			d.ob(o.st, "begin", "a filter of "+c.name+" has the receiver given, or none", Eq(box(o.vals[0]), wr))
			d.ob(o.st, "begin", "a filter of "+c.name+" has the finalizer given, or none", Eq(box(o.vals[1]), wf))
			d.ob(o.st, "begin", "a filter of "+c.name+" leaves the data size alone", Eq(e.obj(o.st, size.Obj).Val.(*Term), size0.(*Term)))
		}
		d.reach(c.name, outs)
	}
}

func notifyDriver(d *Driver) {
	e := d.e
	st := newState()
	x := d.pipe(st)
	n0 := e.symVal(st, d.fieldType(x.PS, "notifiers"), "notifiers").(SliceV)
	nilFacts(st, n0)
	A0 := st.heap[n0.Obj].Arr
	d.setField(st, x.ps, "notifiers", n0)
	f := e.fresh("notifier", SU)
	outs := d.must(st.clone(), "run", "Notify", d.fn("pipeline.Pipeline.Notify"), x.p, f)
	for _, o := range outs {
		n, ok := d.field(o.st, x.ps, "notifiers").(SliceV)
		if !ok {
			e.unsup("notifiers is %T", d.field(o.st, x.ps, "notifiers"))
		}
		d.ob(o.st, "run", "Notify adds one notifier", Eq(n.Len, Add(n0.Len, IntLit(1))))
		if n.Obj == 0 {
			continue
		}
		a := e.arrOf(o.st, n)
		i := freshBound("i", SInt)
		d.ob(o.st, "run", "Notify adds its argument", Eq(Select(a, Add(n.Off, n0.Len)), f))
		d.ob(o.st, "run", "Notify keeps the other notifiers", Forall([]*Term{i}, Implies(And(Le(IntLit(0), i), Lt(i, n0.Len)), Eq(Select(a, Add(n.Off, i)), Select(A0, Add(n0.Off, i))))))
	}
	d.reach("Notify", outs)
	outs = d.must(st.clone(), "run", "Context", d.fn("pipeline.Pipeline.Context"), x.p)
	for _, o := range outs {
		d.ob(o.st, "run", "Context is the context of the run", Eq(box(o.vals[0]), x.ctx))
	}
	d.reach("Context", outs)
	st.ghost["cancels"] = IntLit(0)
	e.opaque = func(e *Engine, c *CallCtx, g *Term) ([]Outcome, bool) {
		if g != x.cancel {
			return nil, false
		}
		c.st.ghost["cancels"] = Add(c.st.g("cancels"), IntLit(1))
		return c.ret(), true
	}
	outs = d.must(st.clone(), "run", "Cancel", d.fn("pipeline.Pipeline.Cancel"), x.p)
	for _, o := range outs {
		d.ob(o.st, "run", "Cancel cancels the context of the run", Le(IntLit(1), o.st.g("cancels")))
	}
	d.reach("Cancel", outs)
}
