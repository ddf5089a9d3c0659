package main

// Contracts of the slice adapters of package psort.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// sortOp is a call of a library sort: [lo, hi) of an array object is sorted.
type sortOp struct {
	obj    int
	lo, hi *Term
	stable bool
}
type sortOps struct{ s []sortOp }

func getSortOps(st *State) []sortOp {
	if v, ok := st.mem["sorts"].(*sortOps); ok {
		return v.s
	}
	return nil
}

// floatAxioms: what comparisons of floating-point numbers satisfy, with NaN
// the value that is not equal to itself.
func floatAxioms() []*Term {
	x, y, z := freshBound("x", SU), freshBound("y", SU), freshBound("z", SU)
	lt := func(a, b *Term) *Term { return UF("flt", SBool, a, b) }
	eq := func(a, b *Term) *Term { return UF("feq", SBool, a, b) }
	num := func(a *Term) *Term { return eq(a, a) }
	return []*Term{
		Forall([]*Term{x, y}, Implies(lt(x, y), And(num(x), num(y), Not(lt(y, x)), Not(eq(x, y)))), []*Term{lt(x, y)}),
		Forall([]*Term{x, y}, Implies(eq(x, y), And(num(x), num(y), eq(y, x))), []*Term{eq(x, y)}),
		Forall([]*Term{x, y}, Implies(And(num(x), num(y)), Or(lt(x, y), eq(x, y), lt(y, x))), []*Term{lt(x, y)}, []*Term{eq(x, y)}),
		Forall([]*Term{x, y}, Eq(UF("fle", SBool, x, y), Or(lt(x, y), eq(x, y))), []*Term{UF("fle", SBool, x, y)}),
		Forall([]*Term{x, y, z}, Implies(And(lt(x, y), lt(y, z)), lt(x, z)), []*Term{lt(x, y), lt(y, z)}),
		Forall([]*Term{x, y, z}, Implies(And(eq(x, y), lt(y, z)), lt(x, z)), []*Term{eq(x, y), lt(y, z)}),
		Forall([]*Term{x, y, z}, Implies(And(lt(x, y), eq(y, z)), lt(x, z)), []*Term{lt(x, y), eq(y, z)}),
		Forall([]*Term{x, y, z}, Implies(And(eq(x, y), eq(y, z)), eq(x, z)), []*Term{eq(x, y), eq(y, z)}),
	}
}

// stringAxioms: strings are totally ordered.
func stringAxioms() []*Term {
	x, y, z := freshBound("x", SU), freshBound("y", SU), freshBound("z", SU)
	lt := func(a, b *Term) *Term { return UF("slt", SBool, a, b) }
	return []*Term{
		Forall([]*Term{x, y}, Implies(lt(x, y), And(Not(lt(y, x)), Ne(x, y))), []*Term{lt(x, y)}),
		Forall([]*Term{x, y}, Or(lt(x, y), lt(y, x), Eq(x, y)), []*Term{lt(x, y)}),
		Forall([]*Term{x, y, z}, Implies(And(lt(x, y), lt(y, z)), lt(x, z)), []*Term{lt(x, y), lt(y, z)}),
	}
}

type adapter struct {
	d     *Driver
	T     types.Type // the adapter
	E     types.Type // its elements
	float bool
}

// less is the order the documentation promises: <, with NaN before any number.
func (a *adapter) less(x, y *Term) *Term { return elemLess(a.E, x, y) }

func elemLess(E types.Type, x, y *Term) *Term {
	switch {
	case isFloatT(E):
		nan := func(t *Term) *Term { return Not(UF("feq", SBool, t, t)) }
		return Or(UF("flt", SBool, x, y), And(nan(x), Not(nan(y))))
	case isIntT(E):
		return Lt(x, y)
	}
	return ltU(x, y, E)
}

// collSlice gives the slice behind a value of one of the slice types known to
// compare their elements by elemLess.
func (a *adapter) collSlice(v Val) (SliceV, bool) {
	i, ok := v.(IfaceV)
	if !ok {
		if t, ok2 := v.(*Term); ok2 {
			if y := unbox(t); y != Val(t) {
				return a.collSlice(y)
			}
		}
		return SliceV{}, false
	}
	s, ok := i.V.(SliceV)
	if !ok || !types.Identical(under(i.Typ), types.NewSlice(a.E)) {
		return SliceV{}, false
	}
	n, ok := i.Typ.(*types.Named)
	if !ok {
		return SliceV{}, false
	}
	if types.Identical(i.Typ, a.T) {
		return s, true
	}
	if n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sort" {
		return SliceV{}, false
	}
	switch n.Obj().Name() {
	case "IntSlice", "Float64Slice", "StringSlice":
		return s, true
	}
	return SliceV{}, false
}

func (a *adapter) install() {
	e := a.d.e
	sorts := func(stable bool, get func(c *CallCtx) (SliceV, bool)) func(e *Engine, c *CallCtx) []Outcome {
		return func(e *Engine, c *CallCtx) []Outcome {
			s, ok := get(c)
			if !ok {
				e.unsup("sorting of %T", c.args[0])
			}
			hi := Add(s.Off, s.Len)
			ops := append([]sortOp{}, getSortOps(c.st)...)
			c.st.mem["sorts"] = &sortOps{append(ops, sortOp{s.Obj, s.Off, hi, stable})}
			if s.Obj == 0 {
				return c.ret()
			}
			e.access(c.st, Access{Obj: s.Obj, Lo: s.Off, Hi: hi, Write: true}, c.pos)
			o := e.obj(c.st, s.Obj)
			if o.Kind != kArrS {
				e.unsup("sorting of a concrete array")
			}
			n := o.clone()
			n.Arr = e.fresh("sorted", o.Arr.Sort)
			k := freshBound("k", SInt)
			c.st.assume(Forall([]*Term{k}, Implies(Or(Lt(k, s.Off), Le(hi, k)), Eq(Select(n.Arr, k), Select(o.Arr, k))), []*Term{Select(n.Arr, k)}))
			c.st.heap[s.Obj] = n
			return c.ret()
		}
	}
	iface := func(c *CallCtx) (SliceV, bool) { return a.collSlice(c.args[0]) }
	slice := func(c *CallCtx) (SliceV, bool) {
		s, ok := c.args[0].(SliceV)
		return s, ok
	}
	plain := !a.float // equal elements cannot be told apart
	e.models["sort.Stable"] = sorts(true, iface)
	e.models["sort.Sort"] = sorts(plain, iface)
	e.models["sort.Ints"] = sorts(plain, slice)
	e.models["sort.Float64s"] = sorts(plain, slice)
	e.models["sort.Strings"] = sorts(plain, slice)
	e.models["slices.Sort"] = sorts(plain, slice)
	isSorted := func(get func(c *CallCtx) (SliceV, bool)) func(e *Engine, c *CallCtx) []Outcome {
		return func(e *Engine, c *CallCtx) []Outcome {
			s, ok := get(c)
			if !ok {
				e.unsup("IsSorted of %T", c.args[0])
			}
			return c.ret(a.sortedBool(c.st, s))
		}
	}
	e.models["sort.IsSorted"] = isSorted(iface)
	e.models["sort.IntsAreSorted"] = isSorted(slice)
	e.models["sort.Float64sAreSorted"] = isSorted(slice)
	e.models["sort.StringsAreSorted"] = isSorted(slice)
	e.models["slices.IsSorted"] = isSorted(slice)
	if f := a.d.P.fn("psort.IsSorted"); f != nil {
		e.contr[e.body(f)] = isSorted(iface)
	}
	e.models["math.IsNaN"] = func(e *Engine, c *CallCtx) []Outcome {
		x := c.args[0].(*Term)
		return c.ret(Not(UF("feq", SBool, x, x)))
	}
	less := func(e *Engine, c *CallCtx) []Outcome {
		return c.ret(a.less(c.args[0].(*Term), c.args[1].(*Term)))
	}
	e.models["cmp.Less"] = less
	cmp := func(e *Engine, c *CallCtx) []Outcome {
		x, y := c.args[0].(*Term), c.args[1].(*Term)
		return c.ret(Ite(a.less(x, y), IntLit(-1), Ite(a.less(y, x), IntLit(1), IntLit(0))))
	}
	e.models["cmp.Compare"] = cmp
	e.models["strings.Compare"] = cmp
	if a.float {
		e.axioms = append(e.axioms, floatAxioms()...)
	} else if !isIntT(a.E) {
		e.axioms = append(e.axioms, stringAxioms()...)
	}
}

// sortedBool is true exactly if no element sorts before its predecessor.
func (a *adapter) sortedBool(st *State, s SliceV) *Term {
	e := a.d.e
	arr := e.arrOf(st, s)
	r, w := e.fresh("issorted", SBool), e.fresh("descent", SInt)
	k := freshBound("k", SInt)
	at := func(i *Term) *Term { return Select(arr, Add(s.Off, i)) }
	one := IntLit(1)
	st.assume(Implies(r, Forall([]*Term{k}, Implies(within(k, one, s.Len), Not(a.less(at(k), at(Sub(k, one))))), []*Term{at(k)})),
		Implies(Not(r), And(within(w, one, s.Len), a.less(at(w), at(Sub(w, one))))))
	return r
}

func (a *adapter) method(name string) *ssa.Function {
	f := a.d.P.prog.LookupMethod(a.T, a.T.(*types.Named).Obj().Pkg(), name)
	if f == nil {
		a.d.e.unsup("%s has no method %s", a.T, name)
	}
	return a.d.e.body(f)
}

// run executes and hands out the normal outcomes; panics are failures.
func (a *adapter) run(st *State, what string, f func(st *State) []Outcome) []Outcome {
	normal, panics := split(f(st))
	for _, o := range panics {
		if a.d.e.feasible(o.st) {
			a.d.ob(o.st, "panicfree", what+" does not panic", False)
		}
	}
	a.d.reach(what, normal)
	return normal
}

// same: the array object still has the content it had.
func (a *adapter) same(what string, o Outcome, before *State, id int) {
	x, y := before.heap[id], o.st.heap[id]
	a.d.ob(o.st, "adapter", what, BoolLit(x == y || x.Arr == y.Arr))
}

// untouched: no element of the arrays has been accessed.
func (a *adapter) untouched(what string, o Outcome, ids ...int) {
	n := 0
	for _, l := range o.st.thread().Log {
		for _, id := range ids {
			if l.Obj == id {
				n++
			}
		}
	}
	a.d.ob(o.st, "race", what, BoolLit(n == 0))
}

// content states that array b is f(k) at each index k.
func (a *adapter) content(arr *Term, f func(k *Term) *Term) *Term {
	k := freshBound("k", SInt)
	return Forall([]*Term{k}, Eq(Select(arr, k), f(k)), []*Term{Select(arr, k)})
}

func adapterDriver(name, areSorted string) func(d *Driver) {
	return func(d *Driver) {
		e := d.e
		fn := d.fn("psort." + areSorted)
		var T types.Type
		for _, m := range d.P.prog.AllPackages() {
			if m.Pkg.Name() == "psort" {
				if t, ok := m.Members[name].(*ssa.Type); ok {
					T = t.Type()
				}
			}
		}
		if T == nil {
			e.unsup("type %s not found", name)
		}
		sl, ok := under(T).(*types.Slice)
		if !ok {
			e.unsup("%s is not a slice type", name)
		}
		a := &adapter{d: d, T: T, E: sl.Elem(), float: isFloatT(sl.Elem())}
		a.install()
		start := func() (*State, SliceV, *Term) {
			st := newState()
			st.tasks = 1 // accesses are of interest
			s := e.symVal(st, T, "s").(SliceV)
			nilFacts(st, s)
			return st, s, e.arrOf(st, s)
		}
		I := types.Typ[types.Int]
		index := func(st *State, s SliceV, n string) *Term {
			i := e.symVal(st, I, n).(*Term)
			st.assume(within(i, z0, s.Len))
			return i
		}

		// Len
		st, s, _ := start()
		for _, o := range a.run(st, "Len", func(st *State) []Outcome { return d.exec(st, a.method("Len"), s) }) {
			d.ob(o.st, "adapter", "Len is the number of elements", Eq(o.vals[0].(*Term), s.Len))
			a.same("Len does not modify the slice", o, st, s.Obj)
		}

		// Less
		st, s, arr := start()
		i, j := index(st, s, "i"), index(st, s, "j")
		base := st.clone()
		for _, o := range a.run(st, "Less", func(st *State) []Outcome { return d.exec(st, a.method("Less"), s, i, j) }) {
			want := a.less(Select(arr, Add(s.Off, i)), Select(arr, Add(s.Off, j)))
			d.ob(o.st, "adapter", "Less(i, j) tells if element i sorts before element j in the order of the library sort", Eq(o.vals[0].(*Term), want))
			a.same("Less does not modify the slice", o, base, s.Obj)
		}
		// that order is a strict weak one
		x, y, z := e.fresh("x", mustSort(a.E)), e.fresh("y", mustSort(a.E)), e.fresh("z", mustSort(a.E))
		inc := func(x, y *Term) *Term { return And(Not(a.less(x, y)), Not(a.less(y, x))) }
		o0 := newState()
		d.ob(o0, "adapter", "the order is irreflexive", Not(a.less(x, x)))
		d.ob(o0, "adapter", "the order is transitive", Implies(And(a.less(x, y), a.less(y, z)), a.less(x, z)))
		d.ob(o0, "adapter", "incomparability is transitive", Implies(And(inc(x, y), inc(y, z)), inc(x, z)))

		// Swap
		st, s, arr = start()
		i, j = index(st, s, "i"), index(st, s, "j")
		for _, o := range a.run(st, "Swap", func(st *State) []Outcome { return d.exec(st, a.method("Swap"), s, i, j) }) {
			p, q := Add(s.Off, i), Add(s.Off, j)
			d.ob(o.st, "adapter", "Swap exchanges elements i and j and nothing else", a.content(e.arrOf(o.st, s), func(k *Term) *Term {
				return Ite(Eq(k, p), Select(arr, q), Ite(Eq(k, q), Select(arr, p), Select(arr, k)))
			}))
		}

		// NewTemp
		st, s, _ = start()
		base = st.clone()
		for _, o := range a.run(st, "NewTemp", func(st *State) []Outcome { return d.exec(st, a.method("NewTemp"), s) }) {
			t, ok := o.vals[0].(IfaceV)
			var ts SliceV
			if ok {
				ts, ok = t.V.(SliceV)
			}
			d.ob(o.st, "adapter", "NewTemp gives a collection of the same type", BoolLit(ok && types.Identical(t.Typ, T)))
			if ok {
				d.ob(o.st, "adapter", "the temporary collection can hold as many elements", Le(s.Len, ts.Len))
				d.ob(o.st, "adapter", "the temporary collection has storage of its own", Or(Eq(s.Len, z0), BoolLit(ts.Obj != s.Obj && base.heap[ts.Obj] == nil)))
			}
			a.same("NewTemp does not modify the slice", o, base, s.Obj)
			a.untouched("NewTemp does not access the elements (StableSort makes the temporary collection while it sorts)", o, s.Obj)
		}

		// Assign
		st, s, arr = start()
		src := e.symVal(st, T, "src").(SliceV)
		nilFacts(st, src)
		srcArr := e.arrOf(st, src)
		i, j = e.symVal(st, I, "i").(*Term), e.symVal(st, I, "j").(*Term)
		n := e.symVal(st, I, "n").(*Term)
		base = st.clone()
		// a loop that copies: what it has copied so far
		e.cands = func(e *Engine, lc *LoopCtx) (out []Cand) {
			for _, r := range e.roles(lc) {
				if r.Inv || !lc.mods[fmt.Sprint(s.Obj)] {
					continue
				}
				r := r
				for up := 0; up < 2; up++ {
					for rel := 0; rel < 2; rel++ {
						up, rel := up, rel
						out = append(out, Cand{fmt.Sprintf("copied:%s:%d:%d", r.Name, up, rel), func(v *View) *Term {
							t := r.Get(v)
							if t == nil {
								return nil
							}
							if rel == 1 {
								t = Sub(t, i)
							}
							lo, hi := Add(s.Off, i), Add(s.Off, i, t)
							if up == 1 {
								lo, hi = hi, Add(s.Off, i, n)
							}
							return a.content(e.arrOf(v.st, s), func(k *Term) *Term {
								return Ite(within(k, lo, hi), Select(srcArr, Add(src.Off, j, Sub(k, Add(s.Off, i)))), Select(arr, k))
							})
						}})
					}
				}
			}
			return
		}
		for _, f := range a.run(st, "Assign", func(st *State) []Outcome {
			return d.exec(st, a.method("Assign"), s, IfaceV{T, src})
		}) {
			a.same("Assign itself does not modify the receiver", f, base, s.Obj)
			a.same("Assign itself does not modify the source", f, base, src.Obj)
			a.untouched("Assign itself does not access the elements (StableSort calls it while it sorts)", f, s.Obj, src.Obj)
			f.st.assume(Le(z0, i), Le(z0, j), Le(z0, n), Le(Add(i, n), s.Len), Le(Add(j, n), src.Len))
			for _, o := range a.run(f.st, "the function made by Assign", func(st *State) []Outcome { return d.callVal(st, f.vals[0], i, j, n) }) {
				lo := Add(s.Off, i)
				d.ob(o.st, "adapter", "Assign(source)(i, j, n) is receiver[i:i+n] = source[j:j+n], and nothing else", a.content(e.arrOf(o.st, s), func(k *Term) *Term {
					return Ite(within(k, lo, Add(lo, n)), Select(srcArr, Add(src.Off, j, Sub(k, lo))), Select(arr, k))
				}))
				a.same("assigning does not modify the source", o, base, src.Obj)
			}
		}

		e.cands = nil

		// SequentialSort
		st, s, arr = start()
		i, j = e.symVal(st, I, "i").(*Term), e.symVal(st, I, "j").(*Term)
		st.assume(Le(z0, i), Le(i, j), Le(j, s.Len))
		for _, o := range a.run(st, "SequentialSort", func(st *State) []Outcome { return d.exec(st, a.method("SequentialSort"), s, i, j) }) {
			ops := getSortOps(o.st)
			d.ob(o.st, "adapter", "SequentialSort(i, j) sorts exactly the elements i to j-1, once", Or(
				And(BoolLit(len(ops) == 0), Le(j, Add(i, IntLit(1)))),
				BoolLit(len(ops) == 1)))
			if len(ops) == 1 {
				d.ob(o.st, "adapter", "SequentialSort(i, j) sorts exactly the elements i to j-1", Or(Eq(i, j), And(BoolLit(ops[0].obj == s.Obj), Eq(ops[0].lo, Add(s.Off, i)), Eq(ops[0].hi, Add(s.Off, j)))))
				d.ob(o.st, "adapter", "SequentialSort keeps the order of equal elements", BoolLit(ops[0].stable))
			}
			k := freshBound("k", SInt)
			after := e.arrOf(o.st, s)
			d.ob(o.st, "adapter", "SequentialSort(i, j) does not touch other elements", Forall([]*Term{k}, Implies(Not(within(k, Add(s.Off, i), Add(s.Off, j))), Eq(Select(after, k), Select(arr, k))), []*Term{Select(after, k)}))
			nw := 0
			for _, l := range o.st.thread().Log {
				if l.Write && l.Obj == s.Obj {
					nw++
				}
			}
			d.ob(o.st, "adapter", "SequentialSort modifies elements by the library sort only", BoolLit(nw <= len(ops)))
		}

		// *AreSorted
		st = newState()
		s = e.symVal(st, fn.Params[0].Type(), "a").(SliceV)
		nilFacts(st, s)
		arr = e.arrOf(st, s)
		want := a.sortedBool(st, s)
		base = st.clone()
		for _, o := range a.run(st, areSorted, func(st *State) []Outcome { return d.exec(st, fn, s) }) {
			d.ob(o.st, "adapter", areSorted+" is true exactly if no element sorts before its predecessor", Eq(o.vals[0].(*Term), want))
			a.same(areSorted+" does not modify the slice", o, base, s.Obj)
		}
	}
}

func init() {
	drivers["psort.IntSlice"] = adapterDriver("IntSlice", "IntsAreSorted")
	drivers["psort.Float64Slice"] = adapterDriver("Float64Slice", "Float64sAreSorted")
	drivers["psort.StringSlice"] = adapterDriver("StringSlice", "StringsAreSorted")
}
