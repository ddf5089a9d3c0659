package main

// Contract of parallel.PrefixSum.
//
// fold(i, j) stands for a[i] + ... + a[j-1] over the elements a of the argument
// at entry, for an arbitrary associative +.  Every round of the algorithm keeps
//   for all k: s[k] = fold(max(0, k-L+1), k+1)
// for the current slice s and the current width L.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type prefixer struct {
	d     *Driver
	n     *Term
	inRng int     // batches of a range being executed
	ws    []*Term // window widths considered in batches
}

func fold(i, j *Term) *Term { return UF("fold", SU, i, j) }
func pow2(t *Term) *Term    { return UF("pow2", SInt, t) }
func widthLo(x, L *Term) *Term { // max(0, x-L+1)
	v := Add(Sub(x, L), IntLit(1))
	return Ite(Le(z0, v), v, z0)
}

// windows: the cells [lo, hi) hold the sums of the last L elements.
func windows(a, lo, hi, L *Term) *Term {
	x := freshBound("x", SInt)
	return Forall([]*Term{x}, Implies(within(x, lo, hi), Eq(Select(a, x), fold(widthLo(x, L), Add(x, IntLit(1))))), []*Term{Select(a, x)})
}

// sameOutside: b is a outside [lo, hi).
func sameOutside(a, b, lo, hi *Term) *Term {
	x := freshBound("x", SInt)
	return Forall([]*Term{x}, Implies(Or(Lt(x, lo), Le(hi, x)), Eq(Select(b, x), Select(a, x))), []*Term{Select(b, x)})
}

func (p *prefixer) axioms(a0 *Term) {
	e := p.d.e
	i, j, k := Bound("i", SInt), Bound("j", SInt), Bound("k", SInt)
	add := UF("add", SU, fold(i, k), fold(k, j))
	e.axioms = append(e.axioms,
		Forall([]*Term{k}, Implies(within(k, z0, p.n), Eq(Select(a0, k), fold(k, Add(k, IntLit(1))))), []*Term{Select(a0, k)}),
		Forall([]*Term{i, k, j}, Implies(And(Le(z0, i), Lt(i, k), Lt(k, j)), Eq(add, fold(i, j))), []*Term{add}),
		Eq(pow2(z0), IntLit(1)),
		Eq(pow2(IntLit(41)), IntLit(1<<41)),
		Forall([]*Term{i}, Implies(Le(z0, i), Le(IntLit(1), pow2(i))), []*Term{pow2(i)}),
		Forall([]*Term{i, j}, Implies(And(Le(z0, i), Lt(i, j)), Le(Mul(IntLit(2), pow2(i)), pow2(j))), []*Term{pow2(i), pow2(j)}))
}

// power states 2 to the t-th for 0 <= t.
func (p *prefixer) power(st *State, t *Term) *Term {
	st.assume(Implies(Le(z0, t), Eq(pow2(Add(t, IntLit(1))), Mul(IntLit(2), pow2(t)))))
	return pow2(t)
}

func (p *prefixer) install() {
	e := p.d.e
	installLocalChans(e)
	// int(math.Ceil(math.Log2(float64(x)))), int(math.Exp2(float64(x)))
	e.f2i = func(st *State, t, r *Term) *Term {
		arg := func(t *Term, names ...string) *Term {
			for _, n := range names {
				if t.Op != "uf" || t.Name != n {
					return nil
				}
				t = t.Args[0]
			}
			return t
		}
		if x := arg(t, "ceil", "log2", "i2f"); x != nil {
			e.prefixUse("int(math.Ceil(math.Log2(float64(x)))) is the least c with x <= 2^c, for 1 <= x <= 2^40, and not positive for x = 0")
			one := IntLit(1)
			st.assume(Implies(Le(x, one), Le(r, z0)),
				Implies(within(x, one, IntLit(1<<40+1)), And(Le(z0, r), Le(r, IntLit(40)), Le(x, pow2(r)))),
				Implies(And(Lt(one, x), Le(x, IntLit(1<<40))), And(Le(one, r), Lt(pow2(Sub(r, one)), x))))
			p.power(st, Sub(r, one))
			return r
		}
		if x := arg(t, "exp2", "i2f"); x != nil && e.proves(st, within(x, z0, IntLit(62))) {
			e.prefixUse("int(math.Exp2(float64(x))) is 2^x, for 0 <= x < 62")
			return p.power(st, x)
		}
		return r
	}
	e.shl = func(st *State, x, y *Term) *Term {
		if !e.proves(st, within(y, z0, IntLit(62))) {
			return nil
		}
		return Mul(x, p.power(st, y))
	}
	for _, n := range []string{"math/bits.Len", "math/bits.Len64"} {
		e.models[n] = func(e *Engine, c *CallCtx) []Outcome {
			x, r := c.args[0].(*Term), e.fresh("bitlen", SInt)
			c.st.assume(Le(z0, r), Le(r, IntLit(64)), Implies(Eq(x, z0), Eq(r, z0)),
				Implies(Lt(z0, x), And(Le(IntLit(1), r), Le(pow2(Sub(r, IntLit(1))), x), Lt(x, pow2(r)))))
			p.power(c.st, r)
			p.power(c.st, Sub(r, IntLit(1)))
			return c.ret(r)
		}
	}
	v := &Verifier{e: e}
	for _, n := range []string{"Do"} {
		if f := p.d.P.fn("parallel." + n); f != nil {
			n := n
			e.contr[e.body(f)] = func(e *Engine, c *CallCtx) []Outcome {
				outs, ok := v.compose(&Contract{Name: "parallel." + n}, c)
				if !ok {
					e.unsup("%s on unknown functions", n)
				}
				return outs
			}
		}
	}
	if f := p.d.P.fn("parallel.Range"); f != nil {
		e.contr[e.body(f)] = p.rangeCall
	}
	e.noAlt = true
	e.termLoops = true
	e.sums = true
	e.cands = p.cands
}

func (e *Engine) prefixUse(s string) { e.usedMod["assumed: "+s]++ }

// rangeCall is the contract of parallel.Range on functions of this program:
// disjoint batches that cover the range run as concurrent tasks, all of them
// finished at the return.  The function runs on an arbitrary batch; two
// arbitrary disjoint batches must not race, so every batch finds what it reads
// as it was before the call, and what holds for the cells of an arbitrary batch
// afterwards holds for the cells of the range.
func (p *prefixer) rangeCall(e *Engine, c *CallCtx) []Outcome {
	st := c.st
	low, high, n := c.args[0].(*Term), c.args[1].(*Term), c.args[2].(*Term)
	fv := c.args[3]
	if t, ok := fv.(*Term); ok {
		fv = unbox(t)
	}
	f, ok := fv.(*FuncV)
	if !ok {
		e.unsup("Range with an unknown function")
	}
	var out []Outcome
	valid := And(Le(low, high), Le(z0, n))
	if !e.proves(st, valid) {
		s2 := st.clone()
		s2.assume(Not(valid))
		s2.note("invalid range [%s, %s) with n = %s", low, high, n)
		r := e.fresh("invalidrange", SU)
		s2.assume(Ne(r, nilU))
		out = append(out, Outcome{st: s2, panic: true, pval: r})
		if !e.feasible(st, valid) {
			return out
		}
		st.assume(valid)
	}
	me := st.cur
	var sig *types.Signature
	if f.Fn != nil {
		sig = f.Fn.Signature
	}
	batch := func(s *State, name string) (lo, hi *Term, id int) {
		lo, hi = e.fresh("lo", SInt), e.fresh("hi", SInt)
		s.assume(Le(low, lo), Le(lo, hi), Le(hi, high))
		return lo, hi, e.newThread(s, e.where(c.pos)+name)
	}
	for _, cl := range e.colls {
		cl.spawns++
	}
	ws0 := p.ws
	p.inRng++
	p.ws = p.widths(append([]*Term{low, high}, p.captured(st, f)...))
	defer func() { p.inRng--; p.ws = ws0 }()
	base := st.clone()
	lo, hi, id := batch(base, "#batch")
	run := base.clone()
	run.cur = id
	outs := e.call(run, c.fr, callee{fn: f, args: []Val{lo, hi}, sig: sig}, c.pos, 0)
	final := base.clone()
	task := final.modThread(id)
	written := map[int]bool{}
	var normal []Outcome
	for _, o := range outs {
		if o.st.ntid != base.ntid {
			e.unsup("a batch of a range starts goroutines")
		}
		guard := o.st.factsSince(base.pc)
		for _, a := range o.st.thr[id].Log[len(base.thr[id].Log):] {
			a.Guard = append(append([]*Term{}, a.Guard...), guard...)
			task.Log = append(task.Log, a)
		}
		for k, b := range base.heap {
			if o.st.heap[k] == b {
				continue
			}
			if b.Kind == kArrS {
				written[k] = true
			} else {
				written[-k] = true
			}
		}
		if o.panic {
			if e.feasible(o.st) {
				s2 := o.st.clone()
				s2.cur = me
				e.joinThread(s2, id)
				r := e.fresh("rethrown", SU)
				s2.assume(Ne(r, nilU))
				s2.note("a batch panics: %s", valKey(o.pval))
				out = append(out, Outcome{st: s2, panic: true, pval: r})
			}
			continue
		}
		normal = append(normal, o)
		if e.quiet > 0 {
			continue
		}
		// another batch, to the right of the first
		s2 := o.st.clone()
		s2.cur = me
		for k, b := range base.heap {
			s2.heap[k] = b
		}
		lo2, hi2, id2 := batch(s2, "#batch2")
		s2.assume(Le(hi, lo2))
		s2.cur = id2
		e.call(s2, c.fr, callee{fn: f, args: []Val{lo2, hi2}, sig: sig}, c.pos, 0)
	}
	if len(normal) == 0 {
		return out
	}
	var objs []int
	for k := range written {
		if k < 0 {
			e.unsup("a batch of a range changes a shared variable")
		}
		objs = append(objs, k)
	}
	sort.Ints(objs)
	all := func(f func(o Outcome) *Term) bool {
		for _, o := range normal {
			if !e.proves(o.st, f(o)) {
				return false
			}
		}
		return true
	}
	for _, k := range objs {
		k := k
		a := base.heap[k].Arr
		b := e.fresh(base.heap[k].Name, a.Sort)
		ob := base.heap[k].clone()
		ob.Arr = b
		final.heap[k] = ob
		if all(func(o Outcome) *Term { return sameOutside(a, o.st.heap[k].Arr, lo, hi) }) {
			final.assume(sameOutside(a, b, low, high))
		}
		for _, L := range p.ws {
			L := L
			if all(func(o Outcome) *Term { return windows(o.st.heap[k].Arr, lo, hi, L) }) {
				final.assume(windows(b, low, high, L))
				break
			}
		}
	}
	final.cur = me
	e.joinThread(final, id)
	return append(out, Outcome{st: final})
}

// captured: the integers a function can see, and those of functions it can see.
func (p *prefixer) captured(st *State, v Val) (out []*Term) {
	seen := map[int]bool{}
	var walk func(v Val, depth int)
	walk = func(v Val, depth int) {
		if t, ok := v.(*Term); ok {
			if t.Sort == SInt {
				out = append(out, t)
				return
			}
			v = unbox(t)
		}
		switch x := v.(type) {
		case *FuncV:
			if depth < 4 {
				for _, b := range x.Bind {
					walk(b, depth+1)
				}
			}
		case Ptr:
			if o := st.heap[x.Obj]; o != nil && o.Kind == kVar && !seen[x.Obj] {
				seen[x.Obj] = true
				walk(o.Val, depth)
			}
		case StructV:
			for _, f := range x.Fields {
				walk(f, depth)
			}
		}
	}
	walk(v, 0)
	return out
}

// widths: window widths that integers of the program may stand for.
func (p *prefixer) widths(ts []*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	add(IntLit(1))
	for _, t := range ts {
		if k, ok := t.isInt(); ok && k.Sign() <= 0 || t == p.n {
			continue
		}
		add(t)
		add(Mul(IntLit(2), t))
	}
	return out
}

type slicePlace struct {
	name string
	get  func(v *View) (SliceV, bool)
}

// places: the variables of the function that hold slices.
func (p *prefixer) places(lc *LoopCtx) (out []slicePlace) {
	var ps []*ssa.Phi
	for q := range lc.entry.phis {
		ps = append(ps, q)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].Name() < ps[j].Name() })
	for _, q := range ps {
		q := q
		if _, ok := under(q.Type()).(*types.Slice); ok {
			out = append(out, slicePlace{q.Name(), func(v *View) (SliceV, bool) { s, ok := v.phis[q].(SliceV); return s, ok }})
		}
	}
	var ids []int
	for id, o := range lc.entrySt.heap {
		if _, ok := o.Val.(SliceV); ok && o.Kind == kVar && lc.mods[fmt.Sprint(id)] {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		id := id
		out = append(out, slicePlace{fmt.Sprintf("cell%d", id), func(v *View) (SliceV, bool) {
			o := v.st.heap[id]
			if o == nil {
				return SliceV{}, false
			}
			s, ok := o.Val.(SliceV)
			return s, ok
		}})
	}
	return out
}

func (p *prefixer) cands(e *Engine, lc *LoopCtx) []Cand {
	var out []Cand
	if e.explore > 0 {
		return nil
	}
	add := func(name string, f func(v *View) *Term) { out = append(out, Cand{name, f}) }
	pl := p.places(lc)
	one := IntLit(1)
	type width struct {
		name string
		get  func(v *View) *Term
	}
	rs := e.roles(lc)
	lens := map[*Term]bool{}
	for _, x := range pl {
		if s, ok := x.get(lc.entry); ok {
			lens[s.Len] = true
		}
	}
	var keep []Role
	for _, r := range rs {
		if !strings.HasPrefix(r.Name, "ghost:") && !strings.HasPrefix(r.Name, "len(") && !lens[r.Get(lc.entry)] && r.Get(lc.entry) != nil {
			keep = append(keep, r)
		}
	}
	rs = keep
	if p.inRng == 0 {
		var ws []width
		for _, r := range rs {
			r := r
			if r.Inv {
				continue
			}
			ws = append(ws, width{r.Name, r.Get})
			add("exponent:"+r.Name, func(v *View) *Term { return nn(r.Get(v), func(t *Term) *Term { return within(t, z0, IntLit(42)) }) })
			for d := int64(-1); d <= 1; d++ {
				d := d
				ws = append(ws, width{fmt.Sprintf("2^(%s%+d)", r.Name, d), func(v *View) *Term {
					return nn(r.Get(v), func(t *Term) *Term { return p.power(v.st, Add(t, IntLit(d))) })
				}})
			}
		}
		for i, x := range pl {
			x := x
			at := func(f func(v *View, s SliceV, o *Obj) *Term) func(v *View) *Term {
				return func(v *View) *Term {
					s, ok := x.get(v)
					if !ok || s.Obj == 0 {
						return nil
					}
					o := v.st.heap[s.Obj]
					if o == nil || o.Kind != kArrS || o.Arr.Sort != arr(SU) {
						return nil
					}
					return f(v, s, o)
				}
			}
			add("off:"+x.name, at(func(v *View, s SliceV, o *Obj) *Term { return Eq(s.Off, z0) }))
			add("len:"+x.name, at(func(v *View, s SliceV, o *Obj) *Term { return Eq(s.Len, p.n) }))
			for _, w := range ws {
				w := w
				add("sum:"+x.name+":"+w.name, at(func(v *View, s SliceV, o *Obj) *Term {
					return nn(w.get(v), func(L *Term) *Term { return And(Le(one, L), windows(o.Arr, z0, p.n, L)) })
				}))
			}
			for _, y := range pl[i+1:] {
				y := y
				add("apart:"+x.name+":"+y.name, at(func(v *View, s SliceV, o *Obj) *Term {
					t, ok := y.get(v)
					if !ok {
						return nil
					}
					return BoolLit(t.Obj != s.Obj)
				}))
			}
		}
		for _, w := range ws {
			w := w
			add("pos:"+w.name, func(v *View) *Term { return nn(w.get(v), func(L *Term) *Term { return Le(one, L) }) })
		}
	}
	// arrays filled from one end
	var arrs []int
	for k := range lc.mods {
		id, path := splitLoc(k)
		if o := lc.entrySt.heap[id]; o != nil && o.Kind == kArrS && path == "" && o.Arr.Sort == arr(SU) {
			arrs = append(arrs, id)
		}
	}
	sort.Ints(arrs)
	fixed := p.ws
	if p.inRng == 0 && lc.cellVar["spawns"] != nil {
		return out
	}
	if p.inRng == 0 {
		var ints []*Term
		for _, r := range rs {
			if r.Inv {
				ints = append(ints, r.Get(lc.entry))
			}
		}
		fixed = p.widths(ints)
		if len(fixed) > 7 {
			fixed = fixed[:7]
		}
	}
	for _, id := range arrs {
		id := id
		a0 := lc.entrySt.heap[id].Arr
		for _, r := range rs {
			r := r
			if r.Inv {
				continue
			}
			ent := r.Get(lc.entry)
			for d := int64(0); d <= 1; d++ {
				for _, up := range lc.directions(r) {
					d, up := d, up
					span := func(v *View) (lo, hi *Term) {
						t := r.Get(v)
						if t == nil || ent == nil {
							return nil, nil
						}
						lo, hi = Add(ent, IntLit(d)), Add(t, IntLit(d))
						if !up {
							lo, hi = hi, lo
						}
						return lo, hi
					}
					nm := fmt.Sprintf("%d:%s%+d:%v", id, r.Name, d, up)
					add("fill:frame:"+nm, func(v *View) *Term {
						lo, hi := span(v)
						if lo == nil {
							return nil
						}
						return sameOutside(a0, v.st.heap[id].Arr, lo, hi)
					})
					for _, L := range fixed {
						L := L
						add("fill:sum:"+nm+":"+L.String(), func(v *View) *Term {
							lo, hi := span(v)
							if lo == nil {
								return nil
							}
							return windows(v.st.heap[id].Arr, lo, hi, L)
						})
					}
				}
			}
		}
	}
	return out
}

// directions: may the variable go up, down?
func (lc *LoopCtx) directions(r Role) (out []bool) {
	h := lc.l.header
	var up, down bool
	for q := range lc.entry.phis {
		if q.Name() != r.Name {
			continue
		}
		for i, x := range q.Edges {
			if !lc.l.blocks[h.Preds[i]] {
				continue
			}
			b, ok := x.(*ssa.BinOp)
			if !ok {
				return []bool{true, false}
			}
			c, ok := b.Y.(*ssa.Const)
			if !ok || b.Op != token.ADD && b.Op != token.SUB {
				return []bool{true, false}
			}
			if (constant.Sign(c.Value) > 0) == (b.Op == token.ADD) {
				up = true
			} else {
				down = true
			}
		}
	}
	if up || !down {
		out = append(out, true)
	}
	if down || !up {
		out = append(out, false)
	}
	return out
}

func prefixSumDriver(d *Driver) {
	e := d.e
	p := &prefixer{d: d}
	fn := d.fn("parallel.PrefixSum")
	st := newState()
	T, ok := under(fn.Params[0].Type()).(*types.Slice)
	if !ok {
		e.unsup("the parameter is not a slice")
	}
	p.n = e.fresh("n", SInt)
	st.assume(Le(z0, p.n), Le(p.n, IntLit(1<<40)))
	cp, nl := e.fresh("cap", SInt), e.fresh("nil", SBool)
	st.assume(Le(p.n, cp), Le(cp, IntLitS("9223372036854775807")), Implies(nl, Eq(cp, z0)))
	a0 := e.fresh("a", arr(SU))
	id := e.newObj(st, &Obj{Name: "slice", Kind: kArrS, Typ: T.Elem(), Arr: a0})
	p.axioms(a0)
	p.install()
	outs := d.exec(st, fn, SliceV{Obj: id, Off: z0, Len: p.n, Cap: cp, Nil: nl, Elem: T.Elem()})
	normal, panics := split(outs)
	for _, o := range panics {
		if e.feasible(o.st) {
			d.ob(o.st, "panicfree", "PrefixSum does not panic", False)
		}
	}
	for _, o := range normal {
		s, ok := o.vals[0].(SliceV)
		if !ok || s.Obj == 0 {
			d.ob(o.st, "prefix", "the result has the length of the argument", Eq(z0, p.n))
			continue
		}
		d.ob(o.st, "prefix", "the result has the length of the argument", Eq(s.Len, p.n))
		k := freshBound("k", SInt)
		a := e.arrOf(o.st, s)
		d.ob(o.st, "prefix", "element k of the result is the sum of the elements 0 to k of the argument",
			Forall([]*Term{k}, Implies(within(k, z0, p.n), Eq(Select(a, Add(s.Off, k)), fold(z0, Add(k, IntLit(1)))))))
		// nothing still runs
		t := o.st.thread()
		done := true
		for i, u := range o.st.thr {
			done = done && (i == o.st.cur || t.Known[i] >= len(u.Log))
		}
		d.ob(o.st, "wait", "PrefixSum returns only when its goroutines are done with the slices", BoolLit(done))
	}
	d.reach("PrefixSum", normal)
}

func init() { drivers["parallel.PrefixSum"] = prefixSumDriver }
