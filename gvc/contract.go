package main

// Contracts: verification of one function against its contract, and use of
// contracts at call sites (callers are checked against the callee's contract).

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Verifier verifies the functions of one unit.
type Verifier struct {
	e        *Engine
	sp       *Spec
	main     *Contract
	mainFn   *ssa.Function
	family   *Term               // content of the family array
	famObj   int                 // its object
	famCB    *Contract           // its callback contract
	consts   map[*Term]*Contract // functions of the client passed as parameters
	queue    []*recInst
	seenInst map[string]bool
	pick     map[string]int
	opts     map[string]int
	curC     *Contract // contract being verified
	curDec   *Term
	curLex   []*Term
	normal   int
	api      map[*ssa.Function]*Contract
	nContr   map[string]bool
}

type recInst struct {
	fn   *ssa.Function
	r    *Contract
	args []Val // non-role arguments (nil at role positions)
	pos  []int // role j of r is argument pos[j]
	bind []Val
	st   *State
}

func (v *Verifier) env(st *State) *Env {
	return &Env{e: v.e, sp: v.sp, vars: map[string]Val{}, st: st}
}

func panicTerm(pv Val) *Term {
	if iv, ok := pv.(IfaceV); ok {
		if t, ok := iv.V.(*Term); ok && t.Sort == SU {
			return t
		}
	}
	return box(pv)
}

func (c *Contract) kindOf(p string) (string, *Clause) {
	for _, cl := range c.Clauses {
		if cl.Name == p && (cl.Kind == "family" || cl.Kind == "calls" || cl.Kind == "alias") {
			return cl.Kind, cl
		}
	}
	return "", nil
}

// bindLets evaluates the let clauses in order.
func bindLets(env *Env, c *Contract) *Env {
	for _, cl := range c.Clauses {
		if cl.Kind == "let" {
			env = env.with(cl.Name, env.eval(cl.E))
		}
	}
	return env
}

func tagOf(cl *Clause) string {
	if cl.Tag != "" {
		return cl.Tag
	}
	return "spec"
}

// setup makes the arguments of the function verified against contract c.
func (v *Verifier) setup(st *State, c *Contract, names []string, typs []types.Type) []Val {
	e := v.e
	args := make([]Val, len(typs))
	for i, T := range typs {
		if i >= len(names) {
			args[i] = e.symVal(st, T, fmt.Sprintf("arg%d", i))
			continue
		}
		k, cl := c.kindOf(names[i])
		switch k {
		case "family":
			sl, ok := under(T).(*types.Slice)
			if !ok {
				e.unsup("parameter %s of %s is not a slice", names[i], c.Name)
			}
			if v.family == nil {
				v.family = Const("family", arr(SU))
				v.famCB = v.sp.Callbacks[cl.Text]
				v.famObj = e.newObj(st, &Obj{Name: "functions", Kind: kArrS, Typ: sl.Elem(), Arr: v.family})
			}
			off, ln, cp := e.fresh(names[i]+".off", SInt), e.fresh(names[i]+".len", SInt), e.fresh(names[i]+".cap", SInt)
			nl := e.fresh(names[i]+".nil", SBool)
			st.assume(Le(IntLit(0), off), Le(IntLit(0), ln), Le(ln, cp), Le(Add(off, cp), IntLitS("1152921504606846976")), Implies(nl, Eq(cp, IntLit(0))))
			args[i] = SliceV{Obj: v.famObj, Off: off, Len: ln, Cap: cp, Nil: nl, Elem: sl.Elem()}
		case "calls":
			t := Const("fn."+names[i], SU)
			st.assume(Ne(t, nilU))
			v.consts[t] = v.sp.Callbacks[cl.Text]
			args[i] = t
		case "alias":
		default:
			args[i] = e.symVal(st, T, names[i])
		}
	}
	// aliases last
	env := v.env(st)
	for i := range typs {
		if i < len(names) && args[i] != nil {
			env = env.with(names[i], args[i])
		}
	}
	for i := range typs {
		if args[i] == nil {
			_, cl := c.kindOf(names[i])
			args[i] = env.eval(cl.E)
			env = env.with(names[i], args[i])
		}
	}
	return args
}

// verifyFn verifies the body of fn (with bindings) against contract c, with
// the given bound arguments.
func (v *Verifier) verifyBody(st *State, fn *ssa.Function, c *Contract, names []string, bound []Val, args, bind []Val, assumed bool) {
	e := v.e
	env := v.env(st)
	for i, n := range names {
		env = env.with(n, bound[i])
	}
	env = bindLets(env, c)
	for _, cl := range c.of("requires") {
		st.assume(env.bool(cl.E))
	}
	for _, cl := range c.of("assumes") {
		st.assume(env.bool(cl.E))
	}
	v.curC = c
	v.curDec = nil
	if d := c.of("decreases"); len(d) > 0 {
		v.curDec = env.term(d[0].E)
	}
	old := st.clone()
	env.old = old
	if !e.feasible(st) {
		e.oblige(st, "vacuity", "precondition of "+c.Name+" is satisfiable", fn.Pos(), False)
	}
	outs := e.execFn(st, fn, args, bind, 0)
	normal := 0
	for _, o := range outs {
		if !o.panic {
			if e.feasible(o.st) {
				normal++
			}
		}
		v.checkOutcome(env, old, c, o, fn.Pos())
	}
	if normal == 0 {
		e.oblige(old, "engine", "a normal exit of "+c.Name+" is reachable", fn.Pos(), False)
	}
	v.normal += normal
}

func resultEnv(env *Env, vals []Val) *Env {
	for i, r := range vals {
		if i == 0 {
			env = env.with("result", r)
		}
		env = env.with(fmt.Sprintf("result%d", i+1), r)
	}
	return env
}

func (v *Verifier) checkOutcome(env0 *Env, old *State, c *Contract, o Outcome, pos token.Pos) {
	e := v.e
	if !e.feasible(o.st) {
		return
	}
	env := *env0
	env.st = o.st
	env.old = old
	en := &env
	e.stack = append(e.stack, v.mainFn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	if !o.panic {
		en = resultEnv(en, o.vals)
		for _, cl := range c.of("ensures") {
			e.oblige(o.st, tagOf(cl), c.Name+" ensures "+cl.E.Src, pos, en.bool(cl.E))
		}
	} else {
		if !c.Raises {
			e.oblige(o.st, "panicfree", c.Name+" does not panic", pos, False)
			return
		}
		en = en.with("val", panicTerm(o.pval))
		for _, cl := range c.of("raises") {
			e.oblige(o.st, tagOf(cl), c.Name+" raises "+cl.E.Src, pos, en.bool(cl.E))
		}
	}
	mod := map[string]bool{}
	for _, cl := range c.of("modifies") {
		mod[cl.Name] = true
	}
	eff := map[string]*Clause{}
	for _, cl := range c.of("effect") {
		eff[cl.Name] = cl
	}
	var names []string
	for g := range v.sp.Ghosts {
		names = append(names, g)
	}
	sort.Strings(names)
	for _, g := range names {
		if mod[g] {
			continue
		}
		own := v.sp.Ghosts[g]
		amt := IntLit(0)
		tag := "calls"
		desc := g + " unchanged"
		if cl := eff[g]; cl != nil {
			oe := *env0
			oe.st = old
			amt = (&oe).term(cl.E)
			tag = tagOf(cl)
			desc = g + " += " + cl.E.Src
		}
		var was, now *Term
		if own {
			was, now = old.total(g, old.cur), o.st.total(g, o.st.cur)
		} else {
			was, now = old.g(g), o.st.g(g)
		}
		switch {
		case !o.panic || eff[g] != nil && eff[g].Exact:
			e.oblige(o.st, tag, c.Name+" effect "+desc, pos, Eq(now, Add(was, amt)))
		case !own:
			e.oblige(o.st, tag, c.Name+" effect on panic at most "+desc, pos, And(Le(was, now), Le(now, Add(was, amt))))
		}
	}
}

// freshResults makes arbitrary results of a signature.
func (v *Verifier) freshResults(st *State, sig *types.Signature) []Val {
	vals := make([]Val, sig.Results().Len())
	for i := range vals {
		vals[i] = v.e.symVal(st, sig.Results().At(i).Type(), "res")
	}
	return vals
}

// apply uses contract c at a call site.
func (v *Verifier) apply(c *Contract, cc *CallCtx, names []string, args []Val, isCB bool, sig *types.Signature) []Outcome {
	e := v.e
	st := cc.st
	v.nContr[c.Name] = true
	env := v.env(st)
	for i, n := range names {
		env = env.with(n, args[i])
	}
	env = bindLets(env, c)
	for _, cl := range c.of("requires") {
		g := env.bool(cl.E)
		// a precondition that fails is not assumed: it would make the rest of
		// the path, and what other properties need of it, vacuous
		if e.oblige(st, tagOf(cl), "call of "+c.Name+" requires "+cl.E.Src, cc.pos, g) {
			st.assume(g)
		}
	}
	if d := c.of("decreases"); len(d) > 0 && v.curC == c && v.curDec != nil {
		t := env.term(d[0].E)
		e.oblige(st, "term", "recursive call of "+c.Name+" decreases "+d[0].E.Src, cc.pos, And(Le(IntLit(0), t), Lt(t, v.curDec)))
	}
	old := st.clone()
	var out []Outcome
	finish := func(s *State, panicked bool) (Outcome, bool) {
		en := *env
		en.st, en.old = s, old
		ev := &en
		mod := map[string]bool{}
		for _, cl := range c.of("modifies") {
			mod[cl.Name] = true
			if v.sp.Ghosts[cl.Name] {
				d := e.fresh("d."+cl.Name, SInt)
				s.assume(Le(IntLit(0), d))
				s.addOwn(cl.Name, d)
			} else {
				s.ghost[cl.Name] = e.fresh("g."+cl.Name, old.g(cl.Name).Sort)
			}
		}
		for _, cl := range c.of("effect") {
			oe := *env
			oe.st = old
			amt := (&oe).term(cl.E)
			if panicked && !isCB && !cl.Exact {
				d := e.fresh("d."+cl.Name, SInt)
				s.assume(Le(IntLit(0), d), Le(d, amt))
				amt = d
			}
			if cl.Own {
				s.addOwn(cl.Name, amt)
			} else {
				s.ghost[cl.Name] = Add(old.g(cl.Name), amt)
			}
		}
		var o Outcome
		if panicked {
			pv := e.fresh("panic", SU)
			ev = ev.with("val", pv)
			for _, cl := range c.of("raises") {
				s.assume(ev.bool(cl.E))
			}
			o = Outcome{st: s, panic: true, pval: pv}
		} else {
			vals := v.freshResults(s, sig)
			ev = resultEnv(ev, vals)
			for _, cl := range c.of("ensures") {
				s.assume(ev.bool(cl.E))
			}
			o = Outcome{st: s, vals: vals}
		}
		return o, !s.dead && e.feasible(s)
	}
	if c.Raises {
		if o, ok := finish(st.clone(), true); ok {
			out = append(out, o)
		}
	}
	if o, ok := finish(st, false); ok {
		out = append(out, o)
	}
	return out
}

// famSlice views a slice value as a range of the family; nil and empty slices
// of unknown storage are placed at "at".
func (v *Verifier) isFam(x Val) bool {
	s, ok := x.(SliceV)
	return ok && s.Obj == v.famObj && v.famObj != 0
}

func (v *Verifier) famIndex(x Val) *Term {
	t, ok := x.(*Term)
	if !ok || v.family == nil || t.Op != "select" || t.Args[0] != v.family {
		return nil
	}
	return t.Args[1]
}

// opaqueCall handles calls of the client's functions.
func (v *Verifier) opaqueCall(e *Engine, c *CallCtx, fn *Term) ([]Outcome, bool) {
	if i := v.famIndex(fn); i != nil {
		return v.apply(v.famCB, c, v.famCB.Params, []Val{i}, true, c.sig), true
	}
	if cb := v.consts[fn]; cb != nil {
		if len(cb.Params) != len(c.args) {
			e.unsup("callback %s called with %d arguments", cb.Name, len(c.args))
		}
		return v.apply(cb, c, cb.Params, c.args, true, c.sig), true
	}
	return nil, false
}

// fixArgs replaces an empty slice that is not part of the family by an empty
// range of the family adjacent to the aliased function.
func (v *Verifier) fixArgs(st *State, c *Contract, names []string, args []Val) ([]Val, bool) {
	out := append([]Val(nil), args...)
	for j, n := range names {
		k, cl := c.kindOf(n)
		switch k {
		case "family":
			s, ok := out[j].(SliceV)
			if !ok {
				return nil, false
			}
			if s.Obj == v.famObj && v.famObj != 0 {
				continue
			}
			if s.Len != IntLit(0) && !v.e.proves(st, Eq(s.Len, IntLit(0))) {
				return nil, false
			}
			at := IntLit(1)
			for i, m := range names {
				if k2, _ := c.kindOf(m); k2 == "alias" {
					if x := v.famIndex(out[i]); x != nil {
						at = Add(x, IntLit(1))
					}
				}
			}
			out[j] = SliceV{Obj: v.famObj, Off: at, Len: IntLit(0), Cap: IntLit(0), Nil: s.Nil, Elem: s.Elem}
		case "calls":
			t, ok := out[j].(*Term)
			if !ok || v.consts[t] == nil || v.consts[t].Name != cl.Text {
				return nil, false
			}
		}
	}
	env := v.env(st)
	for i, n := range names {
		env = env.with(n, out[i])
	}
	for j, n := range names {
		if k, cl := c.kindOf(n); k == "alias" {
			if v.famIndex(out[j]) == nil {
				return nil, false
			}
			if !v.e.proves(st, Eq(out[j].(*Term), env.term(cl.E))) {
				// functions of the family are distinguished by their index
				if !v.e.proves(st, Eq(v.famIndex(out[j]), env.term(cl.E).Args[1])) {
					return nil, false
				}
			}
		}
	}
	return out, true
}

// apiCall handles a call of a function of the public API with a contract.
func (v *Verifier) apiCall(c *Contract) func(e *Engine, cc *CallCtx) []Outcome {
	return func(e *Engine, cc *CallCtx) []Outcome {
		if c == v.main || sameFamilies(v.main, c) {
			if args, ok := v.fixArgs(cc.st, c, c.Params, cc.args); ok {
				return v.apply(c, cc, c.Params, args, false, cc.fn.Signature)
			}
		}
		if outs, ok := v.compose(c, cc); ok {
			return outs
		}
		// not one of the shapes a contract speaks about: verify inline
		fn := e.body(cc.fn)
		for _, f := range e.stack {
			if f == fn {
				e.unsup("recursive call of %s outside its contract", shortFn(fn))
			}
		}
		return e.execFn(cc.st, fn, cc.args, cc.bind, cc.recID)
	}
}

// sameFamilies: do two contracts describe the same kind of client functions?
func sameFamilies(a, b *Contract) bool {
	f := func(c *Contract) map[string]bool {
		m := map[string]bool{}
		for _, cl := range c.Clauses {
			if cl.Kind == "family" || cl.Kind == "calls" {
				m[cl.Text] = true
			}
		}
		return m
	}
	x, y := f(a), f(b)
	for k := range y {
		if !x[k] {
			return false
		}
	}
	return len(y) > 0
}

// ---- recursive helpers

type recOption struct {
	r   *Contract
	pos []int
}

func (v *Verifier) recOptions(cc *CallCtx, fn *ssa.Function) []recOption {
	var cs []*Contract
	cs = append(cs, v.main.Recs...)
	cs = append(cs, v.main)
	for _, x := range v.main.Recs {
		if x.Parent == v.main {
			continue
		}
	}
	var out []recOption
	for _, r := range cs {
		n := len(r.Params)
		pos := make([]int, n)
		used := make([]bool, len(cc.args))
		var rec func(j int)
		rec = func(j int) {
			if j == n {
				out = append(out, recOption{r, append([]int(nil), pos...)})
				return
			}
			k, cl := r.kindOf(r.Params[j])
			for i, a := range cc.args {
				if used[i] {
					continue
				}
				ok := false
				switch k {
				case "family":
					_, ok = a.(SliceV)
				case "alias":
					ok = v.famIndex(a) != nil
				case "calls":
					t, isT := a.(*Term)
					ok = isT && v.consts[t] != nil && v.consts[t].Name == cl.Text
				default:
					t, isT := a.(*Term)
					ok = isT && t.Sort == SInt
				}
				if ok {
					used[i] = true
					pos[j] = i
					rec(j + 1)
					used[i] = false
				}
			}
			if k == "calls" {
				// the client's function may be captured instead of passed
				pos[j] = -1
				rec(j + 1)
			}
		}
		rec(0)
	}
	// keep those whose precondition holds here
	var ok []recOption
	for _, o := range out {
		args, good := v.roleArgs(cc, o)
		if !good {
			continue
		}
		env := v.env(cc.st)
		for i, n := range o.r.Params {
			env = env.with(n, args[i])
		}
		env = bindLets(env, o.r)
		all := true
		for _, cl := range o.r.of("requires") {
			if cl.Tag == "indep" {
				continue
			}
			if !v.e.proves(cc.st, env.bool(cl.E)) {
				all = false
				break
			}
		}
		if all {
			ok = append(ok, o)
		}
	}
	return ok
}

func (v *Verifier) roleArgs(cc *CallCtx, o recOption) ([]Val, bool) {
	args := make([]Val, len(o.pos))
	for j, p := range o.pos {
		if p < 0 {
			_, cl := o.r.kindOf(o.r.Params[j])
			for t, cb := range v.consts {
				if cb.Name == cl.Text {
					args[j] = t
				}
			}
			if args[j] == nil {
				return nil, false
			}
			continue
		}
		args[j] = cc.args[p]
	}
	return v.fixArgs(cc.st, o.r, o.r.Params, args)
}

func (v *Verifier) recCall(e *Engine, cc *CallCtx, ri *RecInfo) []Outcome {
	fn := e.body(cc.fn)
	name := shortFn(fn)
	if v.main == nil {
		e.unsup("recursive function %s without contract", name)
	}
	var opt recOption
	if x, ok := ri.data["opt"]; ok {
		opt = x.(recOption)
	} else {
		opts := v.recOptions(cc, fn)
		if len(opts) == 0 {
			e.unsup("the arguments of recursive function %s do not match a contract", name)
		}
		v.opts[name] = len(opts)
		k := v.pick[name]
		if k >= len(opts) {
			k = 0
		}
		opt = opts[k]
		ri.data["opt"] = opt
	}
	args, ok := v.roleArgs(cc, opt)
	if !ok {
		e.unsup("recursive call of %s does not match its contract", name)
	}
	// values that are not roles must be the same in every instance
	role := map[int]bool{}
	for _, p := range opt.pos {
		role[p] = true
	}
	key := name
	for i, a := range cc.args {
		if !role[i] {
			key += "|" + valKey(a)
		}
	}
	for _, b := range cc.bind {
		key += "|" + valKey(b)
	}
	if inst, ok := ri.data["inst:"+key].(*recInst); ok {
		// the variables the helper captures must be as they were
		for id, o := range inst.st.heap {
			n := cc.st.heap[id]
			if n == o || n == nil {
				continue
			}
			if o.Kind == kVar && !sameVal(o.Val, n.Val) && v.reach(cc.st, append(append([]Val{}, cc.bind...), cc.args...), id) {
				e.unsup("recursive function %s shares variable %s that changes between calls", name, o.Name)
			}
		}
	} else if e.quiet == 0 {
		inst := &recInst{fn: fn, r: opt.r, pos: opt.pos, bind: cc.bind, st: cc.st.clone()}
		inst.args = make([]Val, len(cc.args))
		for i, a := range cc.args {
			if !role[i] {
				inst.args[i] = a
			}
		}
		ri.data["inst:"+key] = inst
		v.queue = append(v.queue, inst)
	}
	return v.apply(opt.r, cc, opt.r.Params, args, false, cc.fn.Signature)
}

// reach: is object id reachable from the values?
func (v *Verifier) reach(st *State, vals []Val, id int) bool {
	seen := map[int]bool{}
	var walk func(x Val) bool
	obj := func(k int) bool {
		if k == id {
			return true
		}
		if k == 0 || seen[k] {
			return false
		}
		seen[k] = true
		o := st.heap[k]
		if o == nil {
			return false
		}
		if walk(o.Val) {
			return true
		}
		for _, x := range o.Elems {
			if walk(x) {
				return true
			}
		}
		return false
	}
	walk = func(x Val) bool {
		switch y := x.(type) {
		case Ptr:
			return obj(y.Obj)
		case SliceV:
			return obj(y.Obj)
		case MapV:
			return obj(y.Obj)
		case IfaceV:
			return walk(y.V)
		case StructV:
			for _, f := range y.Fields {
				if walk(f) {
					return true
				}
			}
		case *FuncV:
			for _, f := range y.Bind {
				if walk(f) {
					return true
				}
			}
		case *Term:
			if b, ok := boxes[y]; ok {
				return walk(b)
			}
		}
		return false
	}
	for _, x := range vals {
		if walk(x) {
			return true
		}
	}
	return false
}

func (v *Verifier) verifyInst(inst *recInst) {
	e := v.e
	st := inst.st.clone()
	// an arbitrary later call: own thread, fresh counters
	st.thr = map[int]*Thread{0: {ID: 0, Parent: -1, Known: map[int]int{}, Own: map[string]*Term{}, Joined: map[int]map[string]*Term{}, Name: "main"}}
	st.cur, st.ntid, st.tasks = 0, 1, 0
	st.wgs = map[string]*WG{}
	for k := range v.sp.Ghosts {
		if !v.sp.Ghosts[k] {
			st.ghost[k] = e.fresh("g."+k, SInt)
		}
	}
	args := append([]Val(nil), inst.args...)
	bound := make([]Val, len(inst.r.Params))
	// role arguments
	for j, p := range inst.pos {
		name := inst.r.Params[j]
		k, cl := inst.r.kindOf(name)
		if p < 0 {
			for t, cb := range v.consts {
				if cb.Name == cl.Text {
					bound[j] = t
				}
			}
			continue
		}
		T := inst.fn.Params[p].Type()
		switch k {
		case "family":
			sl := under(T).(*types.Slice)
			off, ln, cp := e.fresh(name+".off", SInt), e.fresh(name+".len", SInt), e.fresh(name+".cap", SInt)
			nl := e.fresh(name+".nil", SBool)
			st.assume(Le(IntLit(0), off), Le(IntLit(0), ln), Le(ln, cp), Le(Add(off, cp), IntLitS("1152921504606846976")), Implies(nl, Eq(cp, IntLit(0))))
			bound[j] = SliceV{Obj: v.famObj, Off: off, Len: ln, Cap: cp, Nil: nl, Elem: sl.Elem()}
		case "calls":
			for t, cb := range v.consts {
				if cb.Name == cl.Text {
					bound[j] = t
				}
			}
		case "alias":
		default:
			bound[j] = e.symVal(st, T, name)
		}
	}
	env := v.env(st)
	for j, n := range inst.r.Params {
		if bound[j] != nil {
			env = env.with(n, bound[j])
		}
	}
	for j, n := range inst.r.Params {
		if bound[j] == nil {
			_, cl := inst.r.kindOf(n)
			bound[j] = env.eval(cl.E)
			env = env.with(n, bound[j])
		}
	}
	for j, p := range inst.pos {
		if p >= 0 {
			args[p] = bound[j]
		}
	}
	v.verifyBody(st, inst.fn, inst.r, inst.r.Params, bound, args, inst.bind, false)
}

// ---- compose: fork-join functions applied to functions of this program

func (v *Verifier) compose(c *Contract, cc *CallCtx) ([]Outcome, bool) {
	e := v.e
	short := c.Name[strings.LastIndex(c.Name, ".")+1:]
	spec := strings.HasPrefix(c.Name, "speculative.")
	var fs []*FuncV
	var listArg Val
	switch short {
	case "Do", "And", "Or", "ReduceSum", "ReduceProduct":
		listArg = cc.args[0]
	default:
		return nil, false
	}
	s, ok := listArg.(SliceV)
	if !ok {
		return nil, false
	}
	if s.Obj != 0 {
		o := cc.st.heap[s.Obj]
		if o.Kind != kArrC {
			return nil, false
		}
		lo, ok1 := s.Off.isInt()
		n, ok2 := s.Len.isInt()
		if !ok1 || !ok2 {
			return nil, false
		}
		for i := lo.Int64(); i < lo.Int64()+n.Int64(); i++ {
			x := o.Elems[i]
			if t, ok := x.(*Term); ok {
				x = unbox(t)
			}
			f, ok := x.(*FuncV)
			if !ok {
				return nil, false
			}
			fs = append(fs, f)
		}
	}
	return v.composeRun(e, cc, short, spec, fs), true
}

type parTask struct {
	id    int
	panic bool
	pval  Val
	vals  []Val
}

type parState struct {
	st *State
	ts []parTask
}

// composeRun runs the functions as concurrent tasks according to the contract
// of the fork-join function: every function once, all of them finished (and
// ordered before) the return.
func (v *Verifier) composeRun(e *Engine, cc *CallCtx, short string, spec bool, fs []*FuncV) []Outcome {
	st := cc.st
	ids := make([]int, len(fs))
	for i := range fs {
		ids[i] = e.newThread(st, fmt.Sprintf("%s#%d", e.where(cc.pos), i))
	}
	for _, cl := range e.colls {
		cl.spawns++
	}
	me := st.cur
	states := []parState{{st: st}}
	for i, f := range fs {
		var next []parState
		for _, ps := range states {
			ps.st.cur = ids[i]
			var sig *types.Signature
			if f.Fn != nil {
				sig = f.Fn.Signature
			}
			for _, o := range e.call(ps.st, cc.fr, callee{fn: f, sig: sig}, cc.pos, 0) {
				o.st.cur = me
				t := parTask{id: ids[i], panic: o.panic, pval: o.pval, vals: o.vals}
				next = append(next, parState{o.st, append(append([]parTask{}, ps.ts...), t)})
			}
		}
		states = next
	}
	var out []Outcome
	for _, ps := range states {
		if spec {
			out = append(out, v.specResult(e, ps, short)...)
			continue
		}
		var pv Val
		panicked := false
		for _, t := range ps.ts {
			e.joinThread(ps.st, t.id)
			if t.panic && !panicked {
				panicked, pv = true, t.pval
			}
		}
		if panicked {
			r := e.fresh("rethrown", SU)
			ps.st.assume(Ne(r, nilU), Eq(UF("root", SU, r), UF("root", SU, panicTerm(pv))))
			out = append(out, Outcome{st: ps.st, panic: true, pval: r})
			continue
		}
		switch short {
		case "Do":
			out = append(out, Outcome{st: ps.st})
		case "And", "Or":
			var bs []*Term
			for _, t := range ps.ts {
				bs = append(bs, t.vals[0].(*Term))
			}
			r := And(bs...)
			if short == "Or" {
				r = Or(bs...)
			}
			out = append(out, Outcome{st: ps.st, vals: []Val{r}})
		default:
			e.unsup("composition of %s", short)
		}
	}
	return out
}

// specResult: the result of a speculative fork-join function; functions right
// of the deciding one may still be running at the return.
func (v *Verifier) specResult(e *Engine, ps parState, short string) []Outcome {
	dec := func(t *Term) *Term {
		if short == "And" {
			return Not(t)
		}
		return t
	}
	var out []Outcome
	st := ps.st
	for _, t := range ps.ts {
		e.joinThread(st, t.id)
		if t.panic {
			r := e.fresh("rethrown", SU)
			st.assume(Ne(r, nilU))
			return append(out, Outcome{st: st, panic: true, pval: r})
		}
		if len(t.vals) == 0 {
			continue
		}
		b := t.vals[0].(*Term)
		if e.feasible(st, dec(b)) {
			s2 := st.clone()
			s2.assume(dec(b))
			out = append(out, Outcome{st: s2, vals: []Val{b}})
		}
		st.assume(Not(dec(b)))
		if !e.feasible(st) {
			return out
		}
	}
	r := False
	if short == "And" {
		r = True
	}
	if short == "Do" {
		r = False
	}
	return append(out, Outcome{st: st, vals: []Val{r}})
}
