package main

// Contracts assumed for the Go runtime and standard library.

import (
	"go/types"
	"strings"
)

func locKey(v Val) string {
	switch p := v.(type) {
	case Ptr:
		return p.loc()
	case *Term:
		if b, ok := unbox(p).(Ptr); ok {
			return b.loc()
		}
		return "u" + p.String()
	}
	return valKey(v)
}

func (e *Engine) wg(st *State, k string) *WG {
	w := st.wgs[k]
	if w == nil {
		w = &WG{Count: IntLit(0), Known: map[int]int{}, Joined: map[int]map[string]*Term{}}
	}
	if e.wgGhost {
		// the counter is a ghost variable, so that loops can relate it to others
		c := *w
		c.Count = st.g("wg:" + k)
		w = &c
	}
	return w
}

func (e *Engine) wgAdd(c *CallCtx, k string, d *Term) {
	w := *e.wg(c.st, k)
	w.Count = Add(w.Count, d)
	e.oblige(c.st, "wg", "WaitGroup counter does not become negative", c.pos, Le(IntLit(0), w.Count))
	c.st.wgs[k] = &w
	c.st.ghost["wg:"+k] = w.Count
}

func (e *Engine) wgDone(c *CallCtx, k string) {
	st := c.st
	if e.onDone != nil {
		e.onDone(c, k)
	}
	w := *e.wg(st, k)
	w.Count = Sub(w.Count, IntLit(1))
	e.oblige(st, "wg", "WaitGroup counter does not become negative", c.pos, Le(IntLit(0), w.Count))
	t := st.thread()
	w.Known = mergeKnown(mergeKnown(w.Known, t.Known), map[int]int{st.cur: len(t.Log)})
	w.Joined = mergeJoined(w.Joined, t.Joined, -1)
	w.Joined[st.cur] = t.Own
	st.wgs[k] = &w
	st.ghost["wg:"+k] = w.Count
}

func (e *Engine) wgWait(c *CallCtx, k string) {
	st := c.st
	w := e.wg(st, k)
	if e.oblige(st, "wait", "Wait terminates: every Add has its Done", c.pos, Eq(w.Count, IntLit(0))) {
		st.assume(Eq(w.Count, IntLit(0)))
	}
	t := st.modThread(st.cur)
	t.Known = mergeKnown(t.Known, w.Known)
	t.Joined = mergeJoined(t.Joined, w.Joined, st.cur)
}

func stdModels() map[string]func(e *Engine, c *CallCtx) []Outcome {
	m := map[string]func(e *Engine, c *CallCtx) []Outcome{}
	m["(*sync.WaitGroup).Add"] = func(e *Engine, c *CallCtx) []Outcome {
		e.wgAdd(c, locKey(c.args[0]), c.args[1].(*Term))
		return c.ret()
	}
	m["(*sync.WaitGroup).Done"] = func(e *Engine, c *CallCtx) []Outcome {
		e.wgDone(c, locKey(c.args[0]))
		return c.ret()
	}
	m["(*sync.WaitGroup).Wait"] = func(e *Engine, c *CallCtx) []Outcome {
		e.wgWait(c, locKey(c.args[0]))
		return c.ret()
	}
	m["(*sync.WaitGroup).Go"] = func(e *Engine, c *CallCtx) []Outcome {
		k := locKey(c.args[0])
		e.wgAdd(c, k, IntLit(1))
		fv, ok := c.args[1].(*FuncV)
		if !ok {
			e.unsup("WaitGroup.Go of an unknown function")
		}
		if e.onTask != nil {
			body := &FuncV{Native: "wg.body", NArgs: []Val{c.args[0], fv}}
			if outs, ok := e.onTask(e, c.st, callee{fn: body}, c.pos); ok {
				return outs
			}
		}
		me := c.st.cur
		id := e.newThread(c.st, e.where(c.pos))
		for _, cl := range e.colls {
			cl.spawns++
		}
		c.st.cur = id
		var out []Outcome
		for _, o := range e.call(c.st, c.fr, callee{fn: fv, sig: fv.Fn.Signature}, c.pos, 0) {
			if o.panic {
				e.oblige(o.st, "gopanic", "a spawned goroutine never ends with an unrecovered panic", c.pos, False)
				continue
			}
			c2 := *c
			c2.st = o.st
			e.wgDone(&c2, k)
			o.st.cur = me
			out = append(out, Outcome{st: o.st})
		}
		return out
	}
	m["wg.body"] = func(e *Engine, c *CallCtx) []Outcome {
		fv := c.bind[1].(*FuncV)
		k := locKey(c.bind[0])
		var out []Outcome
		for _, o := range e.call(c.st, c.fr, callee{fn: fv, sig: fv.sig()}, c.pos, 0) {
			if !o.panic {
				c2 := *c
				c2.st = o.st
				e.wgDone(&c2, k)
			}
			out = append(out, o)
		}
		return out
	}
	lock := func(e *Engine, c *CallCtx, k string) {
		t := c.st.modThread(c.st.cur)
		for _, l := range t.Locks {
			if l == k {
				e.oblige(c.st, "lock", "no lock is acquired twice by the same goroutine", c.pos, False)
			}
		}
		t.Locks = append(t.Locks, k)
		if e.onLock != nil {
			e.onLock(c, k, true)
		}
	}
	unlock := func(e *Engine, c *CallCtx, k string) {
		t := c.st.modThread(c.st.cur)
		for i, l := range t.Locks {
			if l == k {
				if e.onLock != nil {
					e.onLock(c, k, false)
				}
				t = c.st.modThread(c.st.cur)
				t.Locks = append(t.Locks[:i:i], t.Locks[i+1:]...)
				return
			}
		}
		e.oblige(c.st, "lock", "only a held lock is released", c.pos, False)
	}
	for _, n := range []string{"(*sync.Mutex)", "(*sync.RWMutex)"} {
		m[n+".Lock"] = func(e *Engine, c *CallCtx) []Outcome { lock(e, c, locKey(c.args[0])); return c.ret() }
		m[n+".Unlock"] = func(e *Engine, c *CallCtx) []Outcome { unlock(e, c, locKey(c.args[0])); return c.ret() }
	}
	m["(*sync.RWMutex).RLock"] = func(e *Engine, c *CallCtx) []Outcome { lock(e, c, locKey(c.args[0])+"#r"); return c.ret() }
	m["(*sync.RWMutex).RUnlock"] = func(e *Engine, c *CallCtx) []Outcome { unlock(e, c, locKey(c.args[0])+"#r"); return c.ret() }
	m["runtime.NumCPU"] = func(e *Engine, c *CallCtx) []Outcome {
		r := Const("NumCPU", SInt)
		c.st.assume(Le(IntLit(1), r), Le(r, IntLit(1<<20)))
		return c.ret(r)
	}
	m["runtime.GOMAXPROCS"] = func(e *Engine, c *CallCtx) []Outcome {
		r := Const("GOMAXPROCS", SInt)
		c.st.assume(Le(IntLit(1), r), Le(r, IntLit(1<<20)))
		return c.ret(r)
	}
	m["runtime/debug.Stack"] = func(e *Engine, c *CallCtx) []Outcome {
		id := e.newObj(c.st, &Obj{Name: "stack", Kind: kArrS, Typ: types.Typ[types.Byte], Arr: e.fresh("stack", arr(SInt))})
		n := e.fresh("stacklen", SInt)
		c.st.assume(Le(IntLit(0), n))
		return c.ret(SliceV{Obj: id, Off: IntLit(0), Len: n, Cap: n, Nil: False, Elem: types.Typ[types.Byte]})
	}
	format := func(e *Engine, c *CallCtx, isErr bool) []Outcome {
		f, ok := c.args[0].(*Term)
		r := e.fresh("fmt", SU)
		c.st.assume(Ne(r, nilU))
		if isErr {
			c.st.assume(UF("is!error", SBool, r))
		} else {
			c.st.assume(Not(UF("is!error", SBool, r)))
		}
		if !ok || f.Op != "const" || !strings.HasPrefix(f.Name, "str!") {
			return c.ret(r)
		}
		verbs := fmtVerbs(strings.TrimPrefix(f.Name, "str!"))
		var args []Val
		if s, ok := c.args[1].(SliceV); ok && s.Obj != 0 {
			if o := c.st.heap[s.Obj]; o.Kind == kArrC {
				args = o.Elems
			}
		}
		set := false
		for i, v := range verbs {
			if i >= len(args) {
				break
			}
			t := box(args[i])
			if iv, ok := args[i].(IfaceV); ok {
				if ct, ok := iv.V.(*Term); ok && ct.Sort == SU {
					t = ct
				} else {
					continue
				}
			}
			if v == 'w' && isErr {
				c.st.assume(Eq(UF("root", SU, r), UF("root", SU, t)), Eq(UF("chain", SBool, r), UF("chain", SBool, t)))
				return c.ret(r)
			}
			if (v == 'v' || v == 's' || v == 'q') && !set {
				set = true
				c.st.assume(Eq(UF("root", SU, r), UF("root", SU, t)), Not(UF("chain", SBool, r)))
			}
		}
		return c.ret(r)
	}
	m["fmt.Sprintf"] = func(e *Engine, c *CallCtx) []Outcome { return format(e, c, false) }
	m["fmt.Errorf"] = func(e *Engine, c *CallCtx) []Outcome { return format(e, c, true) }
	m["fmt.Sprint"] = func(e *Engine, c *CallCtx) []Outcome {
		r := e.fresh("fmt", SU)
		c.st.assume(Ne(r, nilU), Not(UF("is!error", SBool, r)))
		if s, ok := c.args[0].(SliceV); ok && s.Obj != 0 {
			if o := c.st.heap[s.Obj]; o.Kind == kArrC && len(o.Elems) > 0 {
				t := box(o.Elems[0])
				if iv, ok := o.Elems[0].(IfaceV); ok {
					if ct, ok := iv.V.(*Term); ok && ct.Sort == SU {
						t = ct
					}
				}
				c.st.assume(Eq(UF("root", SU, r), UF("root", SU, t)), Not(UF("chain", SBool, r)))
			}
		}
		return c.ret(r)
	}
	m["errors.New"] = func(e *Engine, c *CallCtx) []Outcome {
		r := e.fresh("err", SU)
		c.st.assume(Ne(r, nilU), UF("is!error", SBool, r))
		return c.ret(r)
	}
	m["slices.Clip"] = func(e *Engine, c *CallCtx) []Outcome {
		s := e.sliceArg(c, 0)
		s.Cap = s.Len
		return c.ret(s)
	}
	clone := func(e *Engine, c *CallCtx) []Outcome {
		s := e.sliceArg(c, 0)
		if s.Obj == 0 {
			return c.ret(s)
		}
		e.access(c.st, Access{Obj: s.Obj, Lo: s.Off, Hi: Add(s.Off, s.Len)}, c.pos)
		na := e.fresh("clone", arr(arrElemSort(s.Elem)))
		v := freshBound("i", SInt)
		c.st.assume(Forall([]*Term{v}, Implies(And(Le(IntLit(0), v), Lt(v, s.Len)), Eq(Select(na, v), Select(e.arrOf(c.st, s), Add(s.Off, v)))), []*Term{Select(na, v)}))
		id := e.newObj(c.st, &Obj{Name: "clone", Kind: kArrS, Typ: s.Elem, Arr: na, Extra: map[string]*Term{"cloneOf": box(s)}})
		cp := e.fresh("cap", SInt)
		c.st.assume(Le(s.Len, cp), Le(cp, IntLitS("9223372036854775807")))
		return c.ret(SliceV{Obj: id, Off: IntLit(0), Len: s.Len, Cap: cp, Nil: s.Nil, Elem: s.Elem})
	}
	m["slices.Clone"] = clone
	m["bytes.Clone"] = clone
	// slices.Delete(s, i, j): in place
	m["slices.Delete"] = func(e *Engine, c *CallCtx) []Outcome {
		s := e.sliceArg(c, 0)
		i, j := c.args[1].(*Term), c.args[2].(*Term)
		ok := And(Le(IntLit(0), i), Le(i, j), Le(j, s.Len))
		var out []Outcome
		if !e.proves(c.st, ok) {
			p := c.st.clone()
			p.assume(Not(ok))
			out = append(out, Outcome{st: p, panic: true, pval: e.fresh("rt", SU)})
			c.st.assume(ok)
		}
		n := Sub(s.Len, Sub(j, i))
		if s.Obj == 0 {
			return append(out, c.ret(s)...)
		}
		o := c.st.heap[s.Obj]
		if o.Kind != kArrS {
			e.unsup("slices.Delete on a concrete array")
		}
		e.access(c.st, Access{Obj: s.Obj, Lo: Add(s.Off, i), Hi: Add(s.Off, s.Len), Write: true}, c.pos)
		na := e.fresh("deleted", o.Arr.Sort)
		v := freshBound("i", SInt)
		w := Sub(v, s.Off)
		zero := e.toElem(e.zeroT(s.Elem), arrElemSort(s.Elem))
		c.st.assume(Forall([]*Term{v}, Eq(Select(na, v), Ite(And(Le(i, w), Lt(w, n)), Select(o.Arr, Add(v, Sub(j, i))), Ite(And(Le(n, w), Lt(w, s.Len)), zero, Select(o.Arr, v)))), []*Term{Select(na, v)}))
		o2 := o.clone()
		o2.Arr = na
		c.st.heap[s.Obj] = o2
		s.Len = n
		return append(out, c.ret(s)...)
	}
	// mathematics used by PrefixSum: exact on the integers that occur
	m["math.Log2"] = func(e *Engine, c *CallCtx) []Outcome { return c.ret(UF("log2", SU, c.args[0].(*Term))) }
	m["math.Ceil"] = func(e *Engine, c *CallCtx) []Outcome { return c.ret(UF("ceil", SU, c.args[0].(*Term))) }
	m["math.Exp2"] = func(e *Engine, c *CallCtx) []Outcome { return c.ret(UF("exp2", SU, c.args[0].(*Term))) }
	return m
}

func (e *Engine) sliceArg(c *CallCtx, i int) SliceV {
	v := c.args[i]
	if t, ok := v.(*Term); ok {
		v = unbox(t)
	}
	s, ok := v.(SliceV)
	if !ok {
		e.unsup("slice argument is %T", v)
	}
	return s
}

func fmtVerbs(f string) []byte {
	var out []byte
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.[]", f[i]) >= 0 {
			i++
		}
		if i < len(f) && f[i] != '%' {
			out = append(out, f[i])
		}
	}
	return out
}
