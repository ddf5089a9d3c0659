package main

// Sources: each Fetch hands out the next elements of the stream, once and in
// order; Data gives exactly the elements fetched last.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	drivers["pipeline.Slice"] = sliceSourceDriver
	drivers["pipeline.Scanner"] = func(d *Driver) { scannerDriver(d, false) }
	drivers["pipeline.BytesScanner"] = func(d *Driver) { scannerDriver(d, true) }
	drivers["pipeline.Func"] = funcSourceDriver
	drivers["pipeline.Chan"] = func(d *Driver) { chanSourceDriver(d, false) }
	drivers["pipeline.MultiChan"] = func(d *Driver) { chanSourceDriver(d, true) }
}

// methodOf finds a method of the dynamic type of v, promoted ones included.
func (d *Driver) methodOf(st *State, v Val, name string) *ssa.Function {
	if t, ok := v.(*Term); ok {
		v = unbox(t)
	}
	var T types.Type
	switch x := v.(type) {
	case IfaceV:
		T = x.Typ
	case Ptr:
		T = types.NewPointer(pathType(d.e.obj(st, x.Obj).Typ, pathIdx(x.Path)))
	default:
		d.e.unsup("method %s of %T", name, v)
	}
	if pt, ok := under(T).(*types.Pointer); ok {
		if nm, ok := types.Unalias(pt.Elem()).(*types.Named); ok {
			nm = nm.Origin()
			for i := 0; i < nm.NumMethods(); i++ {
				if m := nm.Method(i); m.Name() == name {
					return d.e.body(d.P.prog.FuncValue(m))
				}
			}
		}
	}
	ms := d.P.prog.MethodSets.MethodSet(T)
	for i := 0; i < ms.Len(); i++ {
		if s := ms.At(i); s.Obj().Name() == name {
			if f := d.P.prog.MethodValue(s); f != nil {
				return d.e.body(f)
			}
		}
	}
	d.e.unsup("%s has no method %s", T, name)
	return nil
}

// sliceVars gives the slice-valued variables of a loop.
func sliceVars(lc *LoopCtx) []func(v *View) (SliceV, bool) {
	var out []func(v *View) (SliceV, bool)
	var ps []*ssa.Phi
	for p := range lc.entry.phis {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].Name() < ps[j].Name() })
	for _, p := range ps {
		p := p
		if _, ok := lc.entry.phis[p].(SliceV); ok {
			out = append(out, func(v *View) (SliceV, bool) { s, ok := v.phis[p].(SliceV); return s, ok })
		}
	}
	var ks []string
	for k := range lc.mods {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		id, path := splitLoc(k)
		o := lc.entrySt.heap[id]
		if o == nil || o.Kind != kVar {
			continue
		}
		if _, ok := getPath(o.Val, pathIdx(path)).(SliceV); ok {
			out = append(out, func(v *View) (SliceV, bool) {
				s, ok := getPath(v.st.heap[id].Val, pathIdx(path)).(SliceV)
				return s, ok
			})
		}
	}
	return out
}

// streamCands: a slice variable holds the elements taken from a stream since
// the loop was entered.
func streamCands(ghost string, limit *Term, elem func(e *Engine, st *State, s SliceV, i, k *Term) *Term) func(e *Engine, lc *LoopCtx) []Cand {
	return func(e *Engine, lc *LoopCtx) []Cand {
		t0 := lc.entrySt.g(ghost)
		var out []Cand
		if limit != nil {
			out = append(out, Cand{"limit", func(v *View) *Term { return Le(v.st.g(ghost), limit) }})
		}
		// no more than asked for
		for v, x := range lc.fr.env {
			n, ok := x.(*Term)
			if _, p := v.(*ssa.Parameter); !p || !ok || n.Sort != SInt {
				continue
			}
			out = append(out, Cand{"within " + v.Name(), func(v *View) *Term { return Le(Sub(v.st.g(ghost), t0), n) }})
		}
		for n, get := range sliceVars(lc) {
			get := get
			out = append(out, Cand{fmt.Sprintf("stream%d", n), func(v *View) *Term {
				s, ok := get(v)
				if !ok {
					return False
				}
				if s.Obj == 0 {
					return Eq(v.st.g(ghost), t0)
				}
				i := freshBound("i", SInt)
				return And(Eq(s.Len, Sub(v.st.g(ghost), t0)),
					Forall([]*Term{i}, Implies(And(Le(IntLit(0), i), Lt(i, s.Len)), elem(e, v.st, s, i, Add(t0, i)))))
			}})
			out = append(out, Cand{fmt.Sprintf("stream%d nil", n), func(v *View) *Term {
				s, ok := get(v)
				if !ok {
					return False
				}
				if s.Obj == 0 {
					return True
				}
				return Implies(s.Nil, Eq(s.Len, IntLit(0)))
			}})
		}
		return out
	}
}

// handedOut marks the data of earlier batches: nobody may write to it any more.
func handedOut(e *Engine, st *State, s SliceV) {
	if o := st.heap[s.Obj]; o != nil {
		n := o.clone()
		n.Name = "an earlier batch"
		n.Extra = map[string]*Term{"foreign": True}
		st.heap[s.Obj] = n
	}
}

func (d *Driver) untouched(st *State, tag, what string, s SliceV, before *Term) {
	if s.Obj != 0 {
		d.ob(st, tag, what, Eq(st.heap[s.Obj].Arr, before))
	}
}

func sliceSourceDriver(d *Driver) {
	e := d.e
	fn := d.fn("pipeline.NewSlice")
	I := types.Typ[types.Int]
	z := IntLit(0)
	st := newState()
	v := e.symVal(st, fn.Params[0].Type(), "value").(SliceV)
	nilFacts(st, v)
	content := st.heap[v.Obj].Arr
	N := v.Len
	ctx := e.fresh("ctx", SU)
	reached := 0
	for _, o := range d.must(st, "source", "NewSlice", fn, v) {
		src := o.vals[0]
		for _, o := range d.must(o.st, "source", "Prepare", d.methodOf(o.st, src, "Prepare"), src, ctx) {
			d.ob(o.st, "source", "a slice source announces its length", Eq(o.vals[0].(*Term), N))
			fetch, data, errf := d.methodOf(o.st, src, "Fetch"), d.methodOf(o.st, src, "Data"), d.methodOf(o.st, src, "Err")
			n := e.symVal(o.st, I, "n").(*Term)
			o.st.assume(Le(IntLit(1), n))
			pos := e.symVal(o.st, I, "pos").(*Term)
			o.st.assume(Le(z, pos), Le(pos, N))
			ws := d.writesOf(o.st, d.bound(fetch, src), n)
			// forms of the fields after pos elements
			ints := []func(p *Term) *Term{func(p *Term) *Term { return Sub(N, p) }, func(p *Term) *Term { return p }}
			isSuffix := func(s SliceV, p *Term) *Term {
				if s.Obj != v.Obj {
					return And(Eq(s.Len, z), Eq(p, N))
				}
				return And(Eq(s.Len, Sub(N, p)), Implies(Lt(z, s.Len), Eq(s.Off, Add(v.Off, p))))
			}
			type cand struct {
				loc string
				f   func(p *Term) *Term
			}
			var cs []cand
			init := o.st
			for _, w := range ws {
				switch x := getLoc(init, w).(type) {
				case *Term:
					if x.Sort == SInt {
						for _, f := range ints {
							if e.proves(init, Eq(x, f(z))) {
								cs = append(cs, cand{w, f})
							}
						}
					}
				case SliceV:
					if e.proves(init, isSuffix(x, z)) && x.Obj != 0 {
						cs = append(cs, cand{w, nil})
					}
				}
			}
			holds := func(s *State, c cand, p *Term) *Term {
				switch x := getLoc(s, c.loc).(type) {
				case *Term:
					return Eq(x, c.f(p))
				case SliceV:
					return isSuffix(x, p)
				}
				return False
			}
			for {
				s := o.st.clone()
				for _, w := range ws {
					d.havocLoc(s, w)
					if x, ok := getLoc(s, w).(SliceV); ok {
						handedOut(e, s, x)
					}
				}
				for _, c := range cs {
					if c.f == nil {
						nl := e.fresh("nil", SBool)
						s.assume(Implies(nl, Eq(Sub(N, pos), z)))
						setLoc(s, c.loc, SliceV{Obj: v.Obj, Off: Add(v.Off, pos), Len: Sub(N, pos), Cap: Sub(v.Cap, pos), Nil: nl, Elem: v.Elem})
					} else {
						s.assume(holds(s, c, pos))
					}
				}
				e.quiet++
				outs := d.callVal(s.clone(), d.bound(fetch, src), n)
				e.quiet--
				var keep []cand
				for _, c := range cs {
					good := true
					for _, q := range outs {
						if !q.panic && !e.proves(q.st, holds(q.st, c, Add(pos, q.vals[0].(*Term)))) {
							good = false
						}
					}
					if good {
						keep = append(keep, c)
					}
				}
				if len(keep) < len(cs) {
					cs = keep
					continue
				}
				for _, q := range d.mustCall(s, "source", "Fetch", d.bound(fetch, src), n) {
					f := q.vals[0].(*Term)
					rest := Sub(N, pos)
					d.ob(q.st, "source", "Fetch takes the requested number of elements, or what is left", Eq(f, Ite(Le(n, rest), n, rest)))
					for _, c := range cs {
						d.ob(q.st, "source", "Fetch moves on by the number of elements it returned", holds(q.st, c, Add(pos, f)))
					}
					d.ob(q.st, "source", "Fetch does not modify the elements", Eq(q.st.heap[v.Obj].Arr, content))
					for _, q := range d.must(q.st, "source", "Data", data, src) {
						b, ok := q.vals[0].(SliceV)
						if !ok {
							e.unsup("Data is %T", q.vals[0])
						}
						reached++
						nilFacts(q.st, b)
						i := freshBound("i", SInt)
						d.ob(q.st, "source", "Data has the length that Fetch returned", Eq(b.Len, f))
						d.ob(q.st, "source", "Data holds the next elements in order", Forall([]*Term{i}, Implies(And(Le(z, i), Lt(i, b.Len)), Eq(Select(e.arrOf(q.st, b), Add(b.Off, i)), Select(content, Add(v.Off, Add(pos, i)))))))
						if b.Obj == v.Obj {
							d.ob(q.st, "source", "appending to a batch does not reach other elements", Or(Eq(b.Cap, b.Len), Eq(b.Len, z)))
						}
					}
					for _, q := range d.must(q.st, "source", "Err", errf, src) {
						d.ob(q.st, "source", "a slice source has no error", Eq(box(q.vals[0]), nilU))
					}
				}
				break
			}
		}
	}
	d.ob(newState(), "vacuity", "batches are fetched", BoolLit(reached >= 2))
}

// bound is a method value.
func (d *Driver) bound(fn *ssa.Function, recv Val) *FuncV {
	name := "bound:" + fn.String()
	d.e.models[name] = func(e *Engine, c *CallCtx) []Outcome {
		return e.execFn(c.st, fn, append([]Val{recv}, c.args...), nil, 0)
	}
	return &FuncV{Native: name}
}

func scannerDriver(d *Driver, bytes bool) {
	e := d.e
	name := "NewScanner"
	if bytes {
		name = "NewBytesScanner"
	}
	fn := d.fn("pipeline." + name)
	I := types.Typ[types.Int]
	z := IntLit(0)
	st := newState()
	NT := e.symVal(st, I, "tokens").(*Term)
	tok := e.symVal(st, I, "tok").(*Term)
	st.assume(Le(z, tok), Le(tok, NT), Lt(NT, IntLitS("1000000000000000000")))
	st.ghost["tok"] = tok
	serr := e.fresh("scanerr", SU)
	buf := e.newObj(st, &Obj{Name: "buffer of the scanner", Kind: kArrS, Typ: types.Typ[types.Byte], Arr: e.fresh("buffer", arr(SInt))})
	e.models["bufio.NewScanner"] = func(e *Engine, c *CallCtx) []Outcome {
		T := c.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		d.ob(c.st, "source", name+" reads from the given reader", BoolLit(sameVal(c.args[0], Const("reader", SU))))
		return c.ret(d.structVar(c.st, T, "scanner", nil))
	}
	e.models["(*bufio.Scanner).Scan"] = func(e *Engine, c *CallCtx) []Outcome {
		for _, cl := range e.colls {
			cl.writes[fmt.Sprint(buf)] = true
		}
		b := c.st.heap[buf].clone()
		b.Arr = e.fresh("buffer", arr(SInt))
		c.st.heap[buf] = b
		t := c.st.g("tok")
		end := c.st.clone()
		end.assume(Eq(t, NT))
		c.st.assume(Lt(t, NT))
		c.st.ghost["tok"] = Add(t, IntLit(1))
		return []Outcome{{st: c.st, vals: []Val{True}}, {st: end, vals: []Val{False}}}
	}
	text := func(k *Term) *Term { return UF("text", SU, k) }
	blen := func(k *Term) *Term { return UF("blen", SInt, k) }
	byt := func(k *Term) *Term { return UF("bytes", arr(SInt), k) }
	e.models["(*bufio.Scanner).Text"] = func(e *Engine, c *CallCtx) []Outcome {
		return c.ret(text(Sub(c.st.g("tok"), IntLit(1))))
	}
	e.models["(*bufio.Scanner).Bytes"] = func(e *Engine, c *CallCtx) []Outcome {
		k := Sub(c.st.g("tok"), IntLit(1))
		n := blen(k)
		off := e.fresh("off", SInt)
		cp := e.fresh("cap", SInt)
		j := freshBound("j", SInt)
		c.st.assume(Le(z, n), Le(z, off), Le(n, cp), Le(Add(off, cp), IntLitS("9223372036854775807")))
		c.st.assume(Forall([]*Term{j}, Implies(And(Le(z, j), Lt(j, n)), Eq(Select(c.st.heap[buf].Arr, Add(off, j)), Select(byt(k), j))), []*Term{Select(byt(k), j)}))
		return c.ret(SliceV{Obj: buf, Off: off, Len: n, Cap: cp, Nil: False, Elem: types.Typ[types.Byte]})
	}
	e.models["(*bufio.Scanner).Err"] = func(e *Engine, c *CallCtx) []Outcome { return c.ret(serr) }
	// a stored slice of bytes that is a copy of the current token
	tokOf := func(b *Term) *Term { return UF("tokOf", SInt, b) }
	e.onBox = func(st *State, v Val, t *Term) {
		s, ok := v.(SliceV)
		if !bytes || !ok || s.Obj == buf {
			return
		}
		k := Sub(st.g("tok"), IntLit(1))
		if s.Obj == 0 {
			if e.proves(st, Eq(blen(k), z)) {
				st.assume(Eq(tokOf(t), k))
			}
			return
		}
		j := freshBound("j", SInt)
		if e.proves(st, And(Eq(s.Len, blen(k)), Forall([]*Term{j}, Implies(And(Le(z, j), Lt(j, s.Len)), Eq(Select(e.arrOf(st, s), Add(s.Off, j)), Select(byt(k), j)))))) {
			st.assume(Eq(tokOf(t), k))
		}
	}
	elem := func(e *Engine, st *State, s SliceV, i, k *Term) *Term {
		x := Select(e.arrOf(st, s), Add(s.Off, i))
		if bytes {
			return Eq(tokOf(x), k)
		}
		return Eq(x, text(k))
	}
	e.cands = streamCands("tok", NT, elem)
	reached := 0
	for _, o := range d.must(st, "source", name, fn, Const("reader", SU)) {
		src := o.vals[0]
		for _, o := range d.must(o.st, "source", "Prepare", d.methodOf(o.st, src, "Prepare"), src, e.fresh("ctx", SU)) {
			d.ob(o.st, "source", "a scanner source has unknown size", Lt(o.vals[0].(*Term), z))
			fetch, data, errf := d.methodOf(o.st, src, "Fetch"), d.methodOf(o.st, src, "Data"), d.methodOf(o.st, src, "Err")
			n := e.symVal(o.st, I, "n").(*Term)
			o.st.assume(Le(IntLit(1), n))
			for _, w := range d.writesOf(o.st, d.bound(fetch, src), n) {
				if id, _ := splitLoc(w); id == buf {
					continue
				}
				if s, ok := d.havocLoc(o.st, w).(SliceV); ok {
					handedOut(e, o.st, s)
				}
			}
			for _, q := range d.must(o.st, "source", "Fetch", fetch, src, n) {
				f := q.vals[0].(*Term)
				rest := Sub(NT, tok)
				d.ob(q.st, "source", "Fetch returns the requested number of tokens, or what is left", Eq(f, Ite(Le(n, rest), n, rest)))
				d.ob(q.st, "source", "Fetch consumes exactly the tokens that it returns", Eq(q.st.g("tok"), Add(tok, f)))
				for _, q := range d.must(q.st, "source", "Data", data, src) {
					b, ok := q.vals[0].(SliceV)
					if !ok {
						e.unsup("Data is %T", q.vals[0])
					}
					reached++
					nilFacts(q.st, b)
					d.ob(q.st, "source", "Data has the length that Fetch returned", Eq(b.Len, f))
					i := freshBound("i", SInt)
					d.ob(q.st, "source", "Data holds the next tokens in order", Forall([]*Term{i}, Implies(And(Le(z, i), Lt(i, b.Len)), elem(e, q.st, b, i, Add(tok, i)))))
				}
				for _, q := range d.must(q.st, "source", "Err", errf, src) {
					d.ob(q.st, "source", "a scanner source reports the error of the scanner", Eq(box(q.vals[0]), serr))
				}
			}
		}
	}
	d.ob(newState(), "vacuity", "batches are fetched", BoolLit(reached >= 2))
}

func funcSourceDriver(d *Driver) {
	e := d.e
	fn := d.fn("pipeline.NewFunc")
	I := types.Typ[types.Int]
	z := IntLit(0)
	reached := 0
	for _, prep := range []bool{true, false} {
		st := newState()
		pf, ff := e.fresh("prepare", SU), e.fresh("fetch", SU)
		st.assume(Ne(pf, nilU), Ne(ff, nilU))
		arg := Val(pf)
		if !prep {
			arg = nilU
		}
		ctx := e.fresh("ctx", SU)
		size := e.symVal(st, I, "size").(*Term)
		n := e.symVal(st, I, "n").(*Term)
		got := e.symVal(st, I, "fetched").(*Term)
		data, err := e.fresh("data", SU), e.fresh("err", SU)
		st.ghost["preps"], st.ghost["fetches"] = z, z
		e.opaque = func(e *Engine, c *CallCtx, g *Term) ([]Outcome, bool) {
			switch g {
			case pf:
				c.st.ghost["preps"] = Add(c.st.g("preps"), IntLit(1))
				e.oblige(c.st, "source", "prepare gets the context of the pipeline", c.pos, Eq(box(c.args[0]), ctx))
				return c.ret(size), true
			case ff:
				c.st.ghost["fetches"] = Add(c.st.g("fetches"), IntLit(1))
				e.oblige(c.st, "source", "fetch gets the requested size", c.pos, Eq(c.args[0].(*Term), n))
				return c.ret(data, got, err), true
			}
			return nil, false
		}
		for _, o := range d.must(st, "source", "NewFunc", fn, arg, ff) {
			src := o.vals[0]
			for _, o := range d.must(o.st, "source", "Prepare", d.methodOf(o.st, src, "Prepare"), src, ctx) {
				if prep {
					d.ob(o.st, "source", "Prepare returns the size that prepare gives", And(Eq(o.vals[0].(*Term), size), Eq(o.st.g("preps"), IntLit(1))))
				} else {
					d.ob(o.st, "source", "the size is unknown without prepare function", Lt(o.vals[0].(*Term), z))
				}
				fetch := d.methodOf(o.st, src, "Fetch")
				for _, w := range d.writesOf(o.st, d.bound(fetch, src), n) {
					d.havocLoc(o.st, w)
				}
				o.st.ghost["fetches"] = z
				for _, q := range d.must(o.st, "source", "Fetch", fetch, src, n) {
					reached++
					d.ob(q.st, "source", "Fetch calls fetch once and returns what it returns", And(Eq(q.vals[0].(*Term), got), Eq(q.st.g("fetches"), IntLit(1))))
					for _, q := range d.must(q.st, "source", "Data", d.methodOf(q.st, src, "Data"), src) {
						d.ob(q.st, "source", "Data is the data of the last fetch", Eq(box(q.vals[0]), data))
					}
					for _, q := range d.must(q.st, "source", "Err", d.methodOf(q.st, src, "Err"), src) {
						d.ob(q.st, "source", "Err is the error of the last fetch", Eq(box(q.vals[0]), err))
					}
				}
			}
		}
	}
	d.ob(newState(), "vacuity", "batches are fetched", BoolLit(reached >= 2))
}

func chanSourceDriver(d *Driver, multi bool) {
	e := d.e
	name := "NewChan"
	if multi {
		name = "NewMultiChan"
	}
	fn := d.fn("pipeline." + name)
	I := types.Typ[types.Int]
	z := IntLit(0)
	st := newState()
	ch := e.fresh("channel", SU)
	st.assume(Ne(ch, nilU))
	got0 := e.symVal(st, I, "got").(*Term)
	NE := e.symVal(st, I, "total").(*Term) // number of elements before the channel is closed
	st.assume(Le(z, got0), Le(got0, NE), Lt(NE, IntLitS("1000000000000000000")))
	st.ghost["got"], st.ghost["done"], st.ghost["closed"] = got0, z, z
	elemOf := func(k *Term) *Term { return UF("elem", SU, k) }
	installChans(e, &ChanHooks{
		recv: func(st *State, c Val, T types.Type, pos token.Pos) []res {
			if t, ok := c.(*Term); !ok || t != ch {
				e.unsup("receive from another channel")
			}
			g := st.g("got")
			end := st.clone()
			end.assume(Eq(g, NE))
			end.ghost["closed"] = IntLit(1)
			st.assume(Lt(g, NE))
			st.ghost["got"] = Add(g, IntLit(1))
			return []res{{st: st, val: TupleV{elemOf(g), True}}, {st: end, val: TupleV{e.zeroT(T), False}}}
		},
		done: func(st *State, pos token.Pos) { st.ghost["done"] = IntLit(1) },
		block: func(st *State, hasDone bool, what string, pos token.Pos) {
			e.oblige(st, "source", "Fetch never blocks without watching for cancelation", pos, BoolLit(hasDone))
		},
	})
	elem := func(e *Engine, st *State, s SliceV, i, k *Term) *Term {
		return Eq(Select(e.arrOf(st, s), Add(s.Off, i)), elemOf(k))
	}
	stream := streamCands("got", nil, elem)
	e.cands = func(e *Engine, lc *LoopCtx) []Cand {
		return append(stream(e, lc), Cand{"open", func(v *View) *Term { return And(Eq(v.st.g("done"), z), Eq(v.st.g("closed"), z)) }})
	}
	reached := 0
	for _, o := range d.must(st, "source", name, fn, ch) {
		src := o.vals[0]
		ctx := e.fresh("ctx", SU)
		for _, o := range d.must(o.st, "source", "Prepare", d.methodOf(o.st, src, "Prepare"), src, ctx) {
			d.ob(o.st, "source", "a channel source has unknown size", Lt(o.vals[0].(*Term), z))
			fetch, data := d.methodOf(o.st, src, "Fetch"), d.methodOf(o.st, src, "Data")
			n := e.symVal(o.st, I, "n").(*Term)
			o.st.assume(Le(IntLit(1), n))
			for _, w := range d.writesOf(o.st, d.bound(fetch, src), n) {
				if s, ok := d.havocLoc(o.st, w).(SliceV); ok {
					handedOut(e, o.st, s)
				}
			}
			for _, q := range d.must(o.st, "source", "Fetch", fetch, src, n) {
				f := q.vals[0].(*Term)
				canceled, closed := Eq(q.st.g("done"), IntLit(1)), Eq(q.st.g("closed"), IntLit(1))
				want := n
				if !multi {
					want = IntLit(1)
				}
				d.ob(q.st, "source", "Fetch returns what it was asked for, unless the channel is closed or the pipeline is canceled", Or(canceled, Eq(f, want), And(closed, Le(z, f), Le(f, want))))
				d.ob(q.st, "source", "Fetch returns every element that it took from the channel", Or(canceled, Eq(q.st.g("got"), Add(got0, f))))
				d.ob(q.st, "source", "Fetch takes no more elements than it was asked for", And(Le(z, f), Le(f, want), Le(q.st.g("got"), Add(got0, want))))
				for _, q := range d.must(q.st, "source", "Data", data, src) {
					reached++
					if !multi {
						d.ob(q.st, "source", "Data is the received element", Or(Eq(f, z), Eq(box(q.vals[0]), elemOf(got0))))
						continue
					}
					b, ok := q.vals[0].(SliceV)
					if !ok {
						e.unsup("Data is %T", q.vals[0])
					}
					nilFacts(q.st, b)
					d.ob(q.st, "source", "Data has the length that Fetch returned", Eq(b.Len, f))
					i := freshBound("i", SInt)
					d.ob(q.st, "source", "Data holds the received elements in order", Forall([]*Term{i}, Implies(And(Le(z, i), Lt(i, b.Len)), elem(e, q.st, b, i, Add(got0, i)))))
				}
				for _, q := range d.must(q.st, "source", "Err", d.methodOf(q.st, src, "Err"), src) {
					d.ob(q.st, "source", "a channel source has no error", Eq(box(q.vals[0]), nilU))
				}
			}
		}
	}
	d.ob(newState(), "vacuity", "batches are fetched", BoolLit(reached >= 2))
}
