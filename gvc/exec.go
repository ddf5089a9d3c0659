package main

// Path-based symbolic execution of go/ssa functions, with verification
// conditions discharged by SMT.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Obl is one proof obligation (all path instances merged under one name).
type Obl struct {
	Name   string
	Tag    string
	Pos    string
	Fn     string
	N      int
	Failed bool
	Detail string
	Goal   string
	Trace  []string
	Model  map[string]string
	Script string         `json:",omitempty"`
	By     map[string]int // path instances discharged, by back end
	pend   []*pending
}

var crossCheck = os.Getenv("GVC_CROSS") != ""

type unsupported struct{ msg string }
type restart struct{ fn *ssa.Function }

type collector struct {
	writes map[string]bool // loc strings
	accs   []Access
	spawns int
	base   *pcNode
	ghosts map[string]bool
	own    map[string]bool
}

type Engine struct {
	explore    int // depth of loops whose modifications are being collected
	prog       *ssa.Program
	fset       *token.FileSet
	pkgs       map[string]*ssa.Package
	sol        *Solver
	unit       string
	axioms     []*Term
	quiet      int
	obls       map[string]*Obl
	order      []string
	models     map[string]func(e *Engine, c *CallCtx) []Outcome
	contr      map[*ssa.Function]func(e *Engine, c *CallCtx) []Outcome
	opaque     func(e *Engine, c *CallCtx, fn *Term) ([]Outcome, bool)
	invoke     func(e *Engine, c *CallCtx, recv Val, m *types.Func) ([]Outcome, bool)
	chanop     func(e *Engine, fr *Frame, st *State, in ssa.Instruction) ([]Outcome, bool)
	onTask     func(e *Engine, st *State, cal callee, pos token.Pos) ([]Outcome, bool)
	loadHk     func(e *Engine, st *State, p Ptr, T types.Type, pos token.Pos) ([]Outcome, bool)
	assertHk   func(e *Engine, st *State, t *Term, T types.Type) ([]typeCase, bool)
	cands      func(e *Engine, lc *LoopCtx) []Cand
	onBox      func(st *State, v Val, t *Term)
	stack      []*ssa.Function
	recs       map[*ssa.Function]*RecInfo
	recH       func(e *Engine, c *CallCtx, ri *RecInfo) []Outcome
	colls      []*collector
	freshN     int
	objN       int
	slotN      int
	steps      int
	inlined    map[string]int
	timeout    int
	surv       map[string]map[string]bool // surviving loop candidates
	sums       bool                       // sums of loop variables take part in loop invariants
	loops      map[*ssa.Function]*loopInfo
	verbose    bool
	paths      int
	covers     map[string]bool
	usedMod    map[string]int // external models used
	facts0     []*Term
	evalDepth  int
	noOverflow bool
	termLoops  bool // loops have to end
	mergePure  bool // the outcomes of calls that change nothing are joined
	noAlt      bool // candidate invariants: one search strategy only
	fieldHeap  func(st *State, T types.Type, f int) int
	wgGhost    bool                                     // WaitGroup counters are ghost variables
	onDone     func(c *CallCtx, k string)               // before a WaitGroup.Done
	f2i        func(st *State, t, r *Term) *Term        // a float converted to an integer r
	shl        func(st *State, x, y *Term) *Term        // shifts by a variable
	onLock     func(c *CallCtx, k string, acquire bool) // after Lock, before Unlock
	onAccess   func(st *State, a Access, pos token.Pos) // every access to memory
	only       string                                   // only obligations with this tag
}

type typeCase struct {
	typ  types.Type
	cond *Term
	val  Val
}

// CallCtx is a call being executed.
type CallCtx struct {
	st    *State
	fn    *ssa.Function
	args  []Val
	bind  []Val
	sig   *types.Signature
	pos   token.Pos
	recID int
	fr    *Frame
}

func (c *CallCtx) ret(vals ...Val) []Outcome { return []Outcome{{st: c.st, vals: vals}} }

type RecInfo struct {
	fn   *ssa.Function
	data map[string]any
}

type Frame struct {
	fn    *ssa.Function
	env   map[ssa.Value]Val
	defs  []deferred
	recID int
	loops []*LoopCtx
	depth int
}

type deferred struct {
	cal  callee
	args []Val
	pos  token.Pos
}

type callee struct {
	fn     *FuncV
	opaque *Term
	recv   Val // invoke mode
	meth   *types.Func
	sig    *types.Signature
	args   []Val
	targs  []types.Type
}

func (fr *Frame) clone() *Frame {
	c := *fr
	c.env = make(map[ssa.Value]Val, len(fr.env)+4)
	for k, v := range fr.env {
		c.env[k] = v
	}
	c.defs = append([]deferred(nil), fr.defs...)
	c.loops = append([]*LoopCtx(nil), fr.loops...)
	return &c
}

func (e *Engine) fresh(hint string, s Sort) *Term {
	e.freshN++
	return Const(fmt.Sprintf("%s!%d", hint, e.freshN), s)
}

func (e *Engine) newObj(st *State, o *Obj) int {
	e.objN++
	o.ID = e.objN
	o.Owner = st.cur
	st.heap[o.ID] = o
	return o.ID
}

func (e *Engine) unsup(f string, a ...any) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

func (e *Engine) where(p token.Pos) string { return posStr(e.fset, p) }

// ---- solver interface

func (e *Engine) query(st *State, extra ...*Term) Res {
	as := append(st.facts(), extra...)
	as = append(as, boxFacts(as...)...)
	return e.sol.Check(e.axioms, as, e.timeout)
}

// queryModel is query with the values of terms when it is not refuted.
func (e *Engine) queryModel(st *State, extra *Term, vals []*Term) (Res, map[*Term]string) {
	if extra == False {
		return Unsat, nil
	}
	as := append(st.facts(), extra)
	as = append(as, boxFacts(as...)...)
	return e.sol.CheckModel(e.axioms, as, e.timeout, vals)
}

func (e *Engine) feasible(st *State, extra ...*Term) bool {
	for _, t := range extra {
		if t == False {
			return false
		}
	}
	if st.dead {
		return false
	}
	if len(extra) > 0 {
		triv := true
		for _, t := range extra {
			if t != True {
				if st.hasFact(Not(t)) {
					return false
				}
				if !st.hasFact(t) {
					triv = false
				}
			}
		}
		if triv {
			return true
		}
	}
	as := append(st.facts(), extra...)
	as = append(as, boxFacts(as...)...)
	return e.sol.Check(e.axioms, as, min(e.timeout, 1000)) != Unsat
}

// proves reports whether the facts of the path imply t.
func (e *Engine) proves(st *State, t *Term) bool {
	if t == True || st.hasFact(t) {
		return true
	}
	if t == False {
		return e.query(st) == Unsat
	}
	if t.Op == "and" {
		if !hasQuant(t) && e.query(st, Not(t)) == Unsat {
			return true
		}
		for _, a := range t.Args {
			if !e.proves(st, a) {
				return false
			}
		}
		return true
	}
	return e.query(st, Not(t)) == Unsat
}

func hasQuant(t *Term) bool {
	if t.Op == "forall" || t.Op == "exists" {
		return true
	}
	for _, a := range t.Args {
		if hasQuant(a) {
			return true
		}
	}
	return false
}

// provesAlt is proves with another search strategy.
func (e *Engine) provesAlt(st *State, t *Term) bool {
	as := append(st.facts(), Not(t))
	as = append(as, boxFacts(as...)...)
	return e.sol.CheckAlt(e.axioms, as, min(e.timeout, 1000)) == Unsat
}

// oblige records a proof obligation.
func (e *Engine) oblige(st *State, tag, desc string, pos token.Pos, goal *Term) bool {
	if e.quiet > 0 || e.only != "" && tag != e.only {
		return true
	}
	fn := ""
	if len(e.stack) > 0 {
		fn = shortFn(e.stack[len(e.stack)-1])
	}
	name := fmt.Sprintf("%s/%s: %s @%s", e.unit, tag, desc, e.where(pos))
	o := e.obls[name]
	if o == nil {
		o = &Obl{Name: name, Tag: tag, Pos: e.where(pos), Fn: fn}
		e.obls[name] = o
		e.order = append(e.order, name)
	}
	o.N++
	if o.Failed {
		return false
	}
	if o.By == nil {
		o.By = map[string]int{}
	}
	as := append(st.facts(), Not(goal))
	as = append(as, boxFacts(as...)...)
	ok := false
	if len(o.pend) >= 3 && goal != True && !st.hasFact(goal) {
		// not provable, most likely: do not spend long on further paths
		t := e.timeout
		e.timeout = min(t, 1500)
		ok = e.proves(st, goal)
		e.timeout = t
	} else {
		ok = e.proves(st, goal)
	}
	if ok {
		by := "z3"
		if goal == True || st.hasFact(goal) {
			by = "simplifier"
		}
		o.By[by]++
		if crossCheck && by == "z3" {
			switch cvc5Check(script(e.axioms, as), 10000) {
			case Unsat:
				o.By["cvc5-agrees"]++
			case Sat:
				o.By["cvc5-DISAGREES"]++
				o.Failed = true
				o.Detail = "cvc5 finds a model where z3 reports unsat"
				return false
			}
		}
		return true
	}
	// second opinions are asked at the end (settle)
	p := &pending{script: script(e.axioms, as), goal: goal.String(), trace: append([]string(nil), st.trace...), model: map[string]string{}}
	if len(o.pend) < 2 {
		res, m := e.sol.CheckModel(e.axioms, as, 2000, e.modelTerms(st))
		for t, v := range m {
			p.model[t.String()] = v
		}
		p.detail = fmt.Sprintf("solver: %s; facts: %d", res, len(as)-1)
		p.sat = res == Sat
	}
	o.pend = append(o.pend, p)
	if p.sat || len(o.pend) > 16 || os.Getenv("GVC_NOSECOND") != "" {
		o.fail(p)
	}
	return false
}

// pending is a failed attempt at an obligation.
type pending struct {
	script, goal, detail string
	trace                []string
	model                map[string]string
	sat                  bool
}

func (o *Obl) fail(p *pending) {
	o.Failed = true
	o.Script, o.Goal, o.Trace, o.Model, o.Detail = p.script, p.goal, p.trace, p.model, p.detail
	o.pend = nil
}

// settle asks other solvers about what could not be proved.
func (e *Engine) settle() {
	type job struct {
		o  *Obl
		p  *pending
		by string
	}
	var jobs []*job
	for _, n := range e.order {
		o := e.obls[n]
		if o.Failed {
			continue
		}
		for _, p := range o.pend {
			jobs = append(jobs, &job{o: o, p: p})
		}
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 6)
	for _, j := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			if z3Strong(j.p.script, 8000) == Unsat {
				j.by = "z3-mbqi"
			} else if cvc5Check(j.p.script, 8000) == Unsat {
				j.by = "cvc5"
			}
		}()
	}
	wg.Wait()
	for _, j := range jobs {
		if j.by == "" && !j.o.Failed {
			j.o.fail(j.p)
		} else if j.by != "" {
			j.o.By[j.by]++
		}
	}
	for _, n := range e.order {
		e.obls[n].pend = nil
	}
}

func (e *Engine) modelTerms(st *State) []*Term {
	d := &decls{seen: map[*Term]bool{}, syms: map[string]string{}}
	for _, f := range st.facts() {
		d.visit(f)
	}
	var out []*Term
	for t := range d.seen {
		if t.Op == "const" && (t.Sort == SInt || t.Sort == SBool) {
			out = append(out, t)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	if len(out) > 60 {
		out = out[:60]
	}
	return out
}

func shortFn(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, "github.com/intel/forGoParallel/", "")
	return s
}

// ---- function execution

func (e *Engine) body(fn *ssa.Function) *ssa.Function {
	if fn.Blocks == nil && fn.Origin() != nil {
		return fn.Origin()
	}
	return fn
}

func (e *Engine) execFn(st *State, fn *ssa.Function, args, bind []Val, recID int) []Outcome {
	fn = e.body(fn)
	if len(fn.Blocks) == 0 {
		e.unsup("no body and no model for %s", fn)
	}
	if len(e.stack) > 40 {
		e.unsup("inlining too deep at %s", fn)
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, recID: recID}
	if len(args) != len(fn.Params) {
		e.unsup("arity mismatch calling %s: %d vs %d", fn, len(args), len(fn.Params))
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		fr.env[v] = bind[i]
	}
	e.stack = append(e.stack, fn)
	e.inlined[shortFn(fn)]++
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	if e.mergePure {
		base := st.clone()
		return e.mergeOutcomes(base, e.run(fr, st, fn.Blocks[0], 0))
	}
	return e.run(fr, st, fn.Blocks[0], 0)
}

// jump transfers control from block "from" to block "to".
func (e *Engine) jump(fr *Frame, st *State, from, to *ssa.BasicBlock) []Outcome {
	li := e.loopsOf(fr.fn)
	// leaving loops
	for len(fr.loops) > 0 {
		lc := fr.loops[len(fr.loops)-1]
		if lc.l.blocks[to] {
			break
		}
		if lc.quiet {
			lc.exit(e, fr, st)
			return nil
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	if l := li.byHeader[to]; l != nil {
		if l.blocks[from] && len(fr.loops) > 0 && fr.loops[len(fr.loops)-1].l == l {
			fr.loops[len(fr.loops)-1].back(e, fr, st, from)
			return nil
		}
		return e.enterLoop(fr, st, from, l)
	}
	e.phis(fr, from, to)
	return e.run(fr, st, to, 0)
}

func (e *Engine) phis(fr *Frame, from, to *ssa.BasicBlock) {
	vals := e.phiVals(fr, from, to)
	for p, v := range vals {
		fr.env[p] = v
	}
}

func (e *Engine) phiVals(fr *Frame, from, to *ssa.BasicBlock) map[*ssa.Phi]Val {
	k := -1
	for i, p := range to.Preds {
		if p == from {
			k = i
		}
	}
	vals := map[*ssa.Phi]Val{}
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[p] = e.val(fr, p.Edges[k])
	}
	return vals
}

// res is one way an instruction can complete.
type res struct {
	st    *State
	val   Val
	panic bool
	pval  Val
}

func one(st *State, v Val) []res { return []res{{st: st, val: v}} }

func (e *Engine) run(fr *Frame, st *State, b *ssa.BasicBlock, i int) []Outcome {
	for ; i < len(b.Instrs); i++ {
		e.steps++
		if e.steps > 4000000 {
			e.unsup("execution budget exhausted")
		}
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c := e.val(fr, in.Cond).(*Term)
			return e.branch(fr, st, b, c)
		case *ssa.Jump:
			return e.jump(fr, st, b, b.Succs[0])
		case *ssa.Return:
			vals := make([]Val, len(in.Results))
			for k, r := range in.Results {
				vals[k] = e.val(fr, r)
			}
			for k := len(fr.loops) - 1; k >= 0; k-- {
				if fr.loops[k].quiet {
					fr.loops[k].exit(e, fr, st)
					return nil
				}
			}
			return []Outcome{{st: st, vals: vals}}
		case *ssa.Panic:
			return e.unwind(fr, st, e.val(fr, in.X), in.Pos())
		case *ssa.RunDefers:
			var out []Outcome
			for _, o := range e.runDefers(fr, st) {
				if o.panic {
					out = append(out, e.unwind(o.fr, o.st, o.pval, in.Pos())...)
				} else {
					out = append(out, e.run(o.fr, o.st, b, i+1)...)
				}
			}
			return out
		}
		rs := e.instr(fr, st, in)
		if len(rs) == 1 && !rs[0].panic {
			st = rs[0].st
			if v, ok := in.(ssa.Value); ok && rs[0].val != nil {
				fr.env[v] = rs[0].val
			}
			continue
		}
		var out []Outcome
		for k, r := range rs {
			f := fr
			if k < len(rs)-1 {
				f = fr.clone()
			}
			if r.panic {
				out = append(out, e.unwind(f, r.st, r.pval, in.Pos())...)
				continue
			}
			if v, ok := in.(ssa.Value); ok && r.val != nil {
				f.env[v] = r.val
			}
			out = append(out, e.run(f, r.st, b, i+1)...)
		}
		return out
	}
	e.unsup("block without terminator")
	return nil
}

func (e *Engine) branch(fr *Frame, st *State, b *ssa.BasicBlock, c *Term) []Outcome {
	if c == True {
		return e.jump(fr, st, b, b.Succs[0])
	}
	if c == False {
		return e.jump(fr, st, b, b.Succs[1])
	}
	t := e.feasible(st, c)
	f := true
	if t {
		f = e.feasible(st, Not(c))
	}
	var out []Outcome
	if t {
		f2, s2 := fr, st
		if f {
			f2, s2 = fr.clone(), st.clone()
		}
		s2.assume(c)
		out = append(out, e.jump(f2, s2, b, b.Succs[0])...)
	}
	if f {
		st.assume(Not(c))
		out = append(out, e.jump(fr, st, b, b.Succs[1])...)
	}
	return out
}

type dres struct {
	fr    *Frame
	st    *State
	panic bool
	pval  Val
}

func (e *Engine) runDefers(fr *Frame, st *State) []dres {
	if len(fr.defs) == 0 {
		return []dres{{fr: fr, st: st}}
	}
	d := fr.defs[len(fr.defs)-1]
	fr.defs = fr.defs[:len(fr.defs)-1]
	var out []dres
	outs := e.call(st, fr, d.cal, d.pos, 0)
	for k, o := range outs {
		f := fr
		if k < len(outs)-1 {
			f = fr.clone()
		}
		if o.panic {
			out = append(out, dres{fr: f, st: o.st, panic: true, pval: o.pval})
			continue
		}
		out = append(out, e.runDefers(f, o.st)...)
	}
	return out
}

// unwind runs the deferred calls of a panicking frame.
func (e *Engine) unwind(fr *Frame, st *State, pv Val, pos token.Pos) []Outcome {
	for k := len(fr.loops) - 1; k >= 0; k-- {
		if fr.loops[k].quiet {
			fr.loops[k].exit(e, fr, st)
			return nil
		}
	}
	fr.loops = nil
	if len(fr.defs) == 0 {
		return []Outcome{{st: st, panic: true, pval: pv}}
	}
	e.slotN++
	slot := e.slotN
	st.pslot[slot] = pv
	return e.unwindStep(fr, st, slot, pos)
}

func (e *Engine) unwindStep(fr *Frame, st *State, slot int, pos token.Pos) []Outcome {
	if len(fr.defs) == 0 {
		pv := st.pslot[slot]
		delete(st.pslot, slot)
		if pv != nil {
			return []Outcome{{st: st, panic: true, pval: pv}}
		}
		// recovered
		if fr.fn.Recover != nil {
			return e.run(fr, st, fr.fn.Recover, 0)
		}
		sig := fr.fn.Signature
		vals := make([]Val, sig.Results().Len())
		for i := range vals {
			vals[i] = e.zero(st, sig.Results().At(i).Type())
		}
		return []Outcome{{st: st, vals: vals}}
	}
	d := fr.defs[len(fr.defs)-1]
	fr.defs = fr.defs[:len(fr.defs)-1]
	var out []Outcome
	outs := e.call(st, fr, d.cal, d.pos, slot)
	for k, o := range outs {
		f := fr
		if k < len(outs)-1 {
			f = fr.clone()
		}
		if o.panic {
			o.st.pslot[slot] = o.pval
		}
		out = append(out, e.unwindStep(f, o.st, slot, pos)...)
	}
	return out
}

// ---- values

func (e *Engine) val(fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v)
	case *ssa.Function:
		return &FuncV{Fn: v}
	case *ssa.Builtin:
		return &FuncV{Builtin: v.Name()}
	case *ssa.Global:
		return e.global(v)
	}
	x, ok := fr.env[v]
	if !ok {
		e.unsup("value %s (%T) undefined in %s", v.Name(), v, fr.fn)
	}
	return x
}

func (e *Engine) global(g *ssa.Global) Val {
	e.unsup("global %s", g)
	return nil
}

func (e *Engine) constVal(c *ssa.Const) Val {
	T := c.Type()
	if c.Value == nil {
		return e.zeroT(T)
	}
	if isTypeParam(T) {
		return UF("const!"+c.Value.ExactString(), SU)
	}
	switch u := under(T).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolLit(constant.BoolVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			return IntLitS(constant.ToInt(c.Value).ExactString())
		case u.Info()&types.IsString != 0:
			return Const("str!"+constant.StringVal(c.Value), SU)
		default:
			return Const("const!"+c.Value.ExactString(), SU)
		}
	}
	e.unsup("constant %s", c)
	return nil
}

func (e *Engine) zero(st *State, T types.Type) Val { return e.zeroT(T) }

func (e *Engine) zeroT(T types.Type) Val {
	if isTypeParam(T) {
		return Const("zero!T", SU)
	}
	switch u := under(T).(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UntypedNil:
			return nilU
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsInteger != 0:
			return IntLit(0)
		case u.Info()&types.IsString != 0:
			return Const("str!", SU)
		}
		return Const("const!0", SU)
	case *types.Interface, *types.Signature:
		return nilU
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return SliceV{Off: IntLit(0), Len: IntLit(0), Cap: IntLit(0), Nil: True, Elem: u.Elem()}
	case *types.Struct:
		fs := make([]Val, u.NumFields())
		for i := range fs {
			fs[i] = e.zeroT(u.Field(i).Type())
		}
		return StructV{T, fs}
	case *types.Map:
		return MapV{Nil: true}
	case *types.Chan:
		return ChanV{}
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = e.zeroT(u.At(i).Type())
		}
		return tv
	case *types.Array:
		return StructV{T, nil} // only as the content of a fresh array variable
	}
	e.unsup("zero value of %s", T)
	return nil
}

// sym makes an unconstrained symbolic value of the type; facts about it are assumed in st.
func (e *Engine) symVal(st *State, T types.Type, name string) Val {
	if s, ok := scalarSort(T); ok {
		c := e.fresh(name, s)
		if s == SInt {
			lo, hi := intRange(T)
			st.assume(Le(lo, c), Le(c, hi))
		}
		return c
	}
	switch u := under(T).(type) {
	case *types.Slice:
		o := &Obj{Name: name, Kind: kArrS, Typ: u.Elem(), Arr: e.fresh(name+".data", arr(arrElemSort(u.Elem())))}
		id := e.newObj(st, o)
		off, ln, cp := e.fresh(name+".off", SInt), e.fresh(name+".len", SInt), e.fresh(name+".cap", SInt)
		nl := e.fresh(name+".nil", SBool)
		st.assume(Le(IntLit(0), off), Le(IntLit(0), ln), Le(ln, cp), Le(Add(off, cp), maxElems(u.Elem())),
			Implies(nl, Eq(cp, IntLit(0))))
		return SliceV{Obj: id, Off: off, Len: ln, Cap: cp, Nil: nl, Elem: u.Elem()}
	case *types.Struct:
		fs := make([]Val, u.NumFields())
		for i := range fs {
			fs[i] = e.symVal(st, u.Field(i).Type(), name+"."+u.Field(i).Name())
		}
		return StructV{T, fs}
	case *types.Pointer:
		if _, ok := scalarSort(u.Elem()); ok {
			id := e.newObj(st, &Obj{Name: name, Kind: kVar, Typ: u.Elem(), Val: e.symVal(st, u.Elem(), "*"+name)})
			return Ptr{Obj: id}
		}
		return e.fresh(name, SU)
	case *types.Map, *types.Chan:
		return e.fresh(name, SU)
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = e.symVal(st, u.At(i).Type(), fmt.Sprintf("%s.%d", name, i))
		}
		return tv
	}
	e.unsup("symbolic value of %s", T)
	return nil
}

// ---- memory

func (e *Engine) obj(st *State, id int) *Obj {
	o := st.heap[id]
	if o == nil {
		e.unsup("dangling object %d", id)
	}
	return o
}

func pathIdx(path string) []int {
	var out []int
	for _, p := range strings.Split(path, "/") {
		if p == "" {
			continue
		}
		n := 0
		fmt.Sscan(p, &n)
		out = append(out, n)
	}
	return out
}

func getPath(v Val, path []int) Val {
	for _, i := range path {
		v = v.(StructV).Fields[i]
	}
	return v
}

func setPath(v Val, path []int, x Val) Val {
	if len(path) == 0 {
		return x
	}
	s := v.(StructV)
	fs := append([]Val(nil), s.Fields...)
	fs[path[0]] = setPath(fs[path[0]], path[1:], x)
	return StructV{s.Typ, fs}
}

func overlapPath(a, b string) bool {
	return a == b || strings.HasPrefix(a, b+"/") || strings.HasPrefix(b, a+"/") || a == "" || b == ""
}

// access logs an access of the current thread and checks it against
// accesses of other threads that are not ordered before it.
func (e *Engine) access(st *State, a Access, pos token.Pos) {
	if e.onAccess != nil {
		e.onAccess(st, a, pos)
	}
	if a.Write {
		for _, c := range e.colls {
			c.writes[fmt.Sprintf("%d%s", a.Obj, a.Path)] = true
		}
	}
	if st.tasks == 0 && st.cur == 0 {
		return
	}
	if o := st.heap[a.Obj]; o != nil && o.Extra != nil && o.Extra["private"] == True {
		return
	}
	t := st.thread()
	a.Where = e.where(pos)
	a.Locks = t.Locks
	e.conflict(st, a, pos)
	n := st.modThread(st.cur)
	n.Log = append(n.Log, a)
	for _, c := range e.colls {
		b := a
		b.Guard = st.factsSince(c.base)
		c.accs = append(c.accs, b)
	}
}

func (e *Engine) conflict(st *State, a Access, pos token.Pos) {
	if e.quiet > 0 {
		return
	}
	t := st.thread()
	ids := make([]int, 0, len(st.thr))
	for id := range st.thr {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		if id == st.cur {
			continue
		}
		u := st.thr[id]
		for k := t.Known[id]; k < len(u.Log); k++ {
			b := u.Log[k]
			if b.Obj != a.Obj || !(a.Write || b.Write) || (a.Atomic && b.Atomic) || !overlapPath(a.Path, b.Path) {
				continue
			}
			if commonLock(a.Locks, b.Locks) {
				continue
			}
			goal := False
			if a.Lo != nil && b.Lo != nil {
				goal = Or(Le(a.Hi, b.Lo), Le(b.Hi, a.Lo))
			}
			g := And(append(append([]*Term{}, a.Guard...), b.Guard...)...)
			nm := fmt.Sprint(a.Obj)
			if o := st.heap[a.Obj]; o != nil && o.Name != "" {
				nm = o.Name
			}
			e.oblige(st, "race", fmt.Sprintf("no data race on %s between threads (%s vs %s)", nm, rw(a), rw(b)), pos, Implies(g, goal))
		}
	}
}

func rw(a Access) string {
	if a.Write {
		return "write"
	}
	return "read"
}

func commonLock(a, b []string) bool {
	for _, x := range a {
		for _, y := range b {
			if x == y && !strings.HasSuffix(x, "#r") || x == y+"#r" || y == x+"#r" {
				return true
			}
		}
	}
	return false
}

func (e *Engine) nilDeref(st *State) res {
	return res{st: st, panic: true, pval: Const("rt!nilderef", SU)}
}

func (e *Engine) load(fr *Frame, st *State, pv Val, T types.Type, pos token.Pos) []res {
	if t, ok := pv.(*Term); ok {
		if b, ok2 := unbox(t).(Ptr); ok2 {
			pv = b
		} else if t == nilU {
			return []res{e.nilDeref(st)}
		} else {
			e.unsup("load through opaque pointer %s at %s", t, e.where(pos))
		}
	}
	p := pv.(Ptr)
	if p.isNil() {
		return []res{e.nilDeref(st)}
	}
	o := e.obj(st, p.Obj)
	a := Access{Obj: p.Obj, Path: p.Path}
	switch o.Kind {
	case kVar:
		e.access(st, a, pos)
		v := getPath(o.Val, pathIdx(p.Path))
		if s, ok := v.(StructV); ok {
			_ = s
		}
		return one(st, v)
	case kArrS:
		if p.Idx == nil {
			e.unsup("load of whole symbolic array")
		}
		if p.Idx.Sort == SInt {
			a.Lo, a.Hi = p.Idx, Add(p.Idx, IntLit(1))
		}
		e.access(st, a, pos)
		return e.fromElem(st, Select(o.Arr, p.Idx), o.Typ)
	case kArrC:
		if p.Idx == nil {
			e.unsup("load of whole array")
		}
		if n, ok := p.Idx.isInt(); ok {
			a.Lo, a.Hi = p.Idx, Add(p.Idx, IntLit(1))
			e.access(st, a, pos)
			k := int(n.Int64())
			if k < 0 || k >= len(o.Elems) {
				e.unsup("array index %d out of %d", k, len(o.Elems))
			}
			return one(st, getPath(o.Elems[k], pathIdx(p.Path)))
		}
		a.Lo, a.Hi = p.Idx, Add(p.Idx, IntLit(1))
		e.access(st, a, pos)
		var out []res
		for k := range o.Elems {
			c := Eq(p.Idx, IntLit(int64(k)))
			if e.feasible(st, c) {
				s2 := st.clone()
				s2.assume(c)
				out = append(out, res{st: s2, val: getPath(o.Elems[k], pathIdx(p.Path))})
			}
		}
		return out
	}
	e.unsup("load from object kind %d", o.Kind)
	return nil
}

// fromElem turns an element term of a symbolic array back into a value.
func (e *Engine) fromElem(st *State, t *Term, T types.Type) []res {
	if t.Sort != SU {
		if t.Sort == SInt {
			lo, hi := intRange(T)
			st.assume(Le(lo, t), Le(t, hi))
		}
		return one(st, t)
	}
	if _, ok := boxes[t]; ok {
		return one(st, unbox(t))
	}
	// select over stores with undecided index: case split
	if t.Op == "select" && t.Args[0].Op == "store" {
		a, i := t.Args[0], t.Args[1]
		var out []res
		c := Eq(a.Args[1], i)
		if e.feasible(st, c) {
			s2 := st.clone()
			s2.assume(c)
			out = append(out, e.fromElem(s2, a.Args[2], T)...)
		}
		if e.feasible(st, Not(c)) {
			s2 := st.clone()
			s2.assume(Not(c))
			out = append(out, e.fromElem(s2, Select(a.Args[0], i), T)...)
		}
		return out
	}
	if isTypeParam(T) {
		return one(st, t)
	}
	switch under(T).(type) {
	case *types.Basic, *types.Interface, *types.Signature:
		return one(st, t)
	case *types.Slice:
		if v := e.sliceOfElem(st, t, T); v != nil {
			return one(st, v)
		}
	case *types.Struct:
		if ss := structSorts(T); ss != nil {
			v := StructV{Typ: T}
			for i, s := range ss {
				v.Fields = append(v.Fields, fieldOf(T, i, s, t))
			}
			return one(st, v)
		}
	}
	return one(st, t)
}

// maxElems: an array fits into the address space.
func maxElems(T types.Type) *Term {
	if !isTypeParam(T) {
		switch u := under(T).(type) {
		case *types.Signature, *types.Interface, *types.Pointer, *types.Slice, *types.Map, *types.Chan:
			return IntLit(1 << 60)
		case *types.Basic:
			switch u.Kind() {
			case types.Int, types.Uint, types.Int64, types.Uint64, types.Float64, types.String:
				return IntLit(1 << 60)
			}
		}
	}
	return IntLitS("9223372036854775807")
}

// structSorts gives the sorts of the fields of a struct of scalars.
func structSorts(T types.Type) []Sort {
	S, ok := under(T).(*types.Struct)
	if !ok {
		return nil
	}
	var out []Sort
	for i := 0; i < S.NumFields(); i++ {
		s, ok := scalarSort(S.Field(i).Type())
		if !ok {
			return nil
		}
		out = append(out, s)
	}
	return out
}

// fieldOf is field i of a struct that is an element of a map.
func fieldOf(T types.Type, i int, s Sort, t *Term) *Term {
	return UF(fmt.Sprintf("fld!%s!%d", types.TypeString(T, nil), i), s, t)
}

// structElem is toElem for values whose fields are looked at again.
func (e *Engine) structElem(st *State, v Val, s Sort) *Term {
	x, ok := v.(StructV)
	if !ok || s != SU {
		return e.toElem(v, s)
	}
	ss := structSorts(x.Typ)
	if ss == nil || len(ss) != len(x.Fields) {
		return e.toElem(v, s)
	}
	t := e.fresh("elem", SU)
	for i, f := range x.Fields {
		g := e.toElem(f, ss[i])
		st.assume(Eq(fieldOf(x.Typ, i, ss[i], t), g))
	}
	return t
}

// sliceOfElem views an opaque element term as a slice (for [][]T).
func (e *Engine) sliceOfElem(st *State, t *Term, T types.Type) Val { return nil }

func (e *Engine) store(fr *Frame, st *State, pv Val, v Val, pos token.Pos) []res {
	if t, ok := pv.(*Term); ok {
		if b, ok2 := unbox(t).(Ptr); ok2 {
			pv = b
		} else if t == nilU {
			return []res{e.nilDeref(st)}
		} else {
			e.unsup("store through opaque pointer at %s", e.where(pos))
		}
	}
	p := pv.(Ptr)
	if p.isNil() {
		return []res{e.nilDeref(st)}
	}
	o := e.obj(st, p.Obj)
	a := Access{Obj: p.Obj, Path: p.Path, Write: true}
	switch o.Kind {
	case kVar:
		e.access(st, a, pos)
		n := o.clone()
		n.Val = setPath(o.Val, pathIdx(p.Path), v)
		st.heap[p.Obj] = n
		return one(st, nil)
	case kArrS:
		if p.Idx == nil {
			e.unsup("store of whole array")
		}
		if p.Idx.Sort == SInt {
			a.Lo, a.Hi = p.Idx, Add(p.Idx, IntLit(1))
		}
		e.access(st, a, pos)
		n := o.clone()
		n.Arr = Store(o.Arr, p.Idx, e.elemOf(st, v, elemSort(o.Arr.Sort)))
		st.heap[p.Obj] = n
		return one(st, nil)
	case kArrC:
		if p.Idx == nil {
			e.unsup("store of whole array")
		}
		a.Lo, a.Hi = p.Idx, Add(p.Idx, IntLit(1))
		e.access(st, a, pos)
		if k, ok := p.Idx.isInt(); ok {
			n := o.clone()
			n.Elems = append([]Val(nil), o.Elems...)
			n.Elems[k.Int64()] = setPath(n.Elems[k.Int64()], pathIdx(p.Path), v)
			st.heap[p.Obj] = n
			return one(st, nil)
		}
		var out []res
		for k := range o.Elems {
			c := Eq(p.Idx, IntLit(int64(k)))
			if e.feasible(st, c) {
				s2 := st.clone()
				s2.assume(c)
				n := o.clone()
				n.Elems = append([]Val(nil), o.Elems...)
				n.Elems[k] = setPath(n.Elems[k], pathIdx(p.Path), v)
				s2.heap[p.Obj] = n
				out = append(out, res{st: s2})
			}
		}
		return out
	}
	e.unsup("store to object kind %d", o.Kind)
	return nil
}

// elemOf stores a value in an array; a hook can state facts on boxed values.
func (e *Engine) elemOf(st *State, v Val, s Sort) *Term {
	t := e.toElem(v, s)
	if e.onBox != nil {
		e.onBox(st, v, t)
	}
	return t
}

func (e *Engine) toElem(v Val, s Sort) *Term {
	if t, ok := v.(*Term); ok && t.Sort == s {
		return t
	}
	if s == SU {
		return box(v)
	}
	e.unsup("cannot store %T in array of %s", v, s)
	return nil
}

// ---- instructions

func (e *Engine) instr(fr *Frame, st *State, in ssa.Instruction) []res {
	switch in := in.(type) {
	case *ssa.Alloc:
		T := under(in.Type()).(*types.Pointer).Elem()
		return one(st, e.alloc(st, T, in.Comment))
	case *ssa.Store:
		return e.store(fr, st, e.val(fr, in.Addr), e.val(fr, in.Val), in.Pos())
	case *ssa.UnOp:
		return e.unop(fr, st, in)
	case *ssa.BinOp:
		return e.binop(st, in.Op, e.val(fr, in.X), e.val(fr, in.Y), in.X.Type(), in.Type(), in.Pos())
	case *ssa.Call:
		cal, rs := e.resolve(fr, st, &in.Call, in.Pos())
		if rs != nil {
			return rs
		}
		outs := e.call(st, fr, cal, in.Pos(), 0)
		out := make([]res, 0, len(outs))
		for _, o := range outs {
			r := res{st: o.st, panic: o.panic, pval: o.pval}
			if !o.panic {
				switch len(o.vals) {
				case 0:
				case 1:
					r.val = o.vals[0]
					if _, isT := in.Type().(*types.Tuple); isT {
						r.val = TupleV(o.vals)
					}
				default:
					r.val = TupleV(o.vals)
				}
			}
			out = append(out, r)
		}
		return out
	case *ssa.Defer:
		cal, rs := e.resolve(fr, st, &in.Call, in.Pos())
		if rs != nil {
			return rs
		}
		fr.defs = append(fr.defs[:len(fr.defs):len(fr.defs)], deferred{cal: cal, pos: in.Pos()})
		return one(st, nil)
	case *ssa.Go:
		cal, rs := e.resolve(fr, st, &in.Call, in.Pos())
		if rs != nil {
			return rs
		}
		return e.spawn(fr, st, cal, in.Pos())
	case *ssa.MakeClosure:
		fv := &FuncV{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			fv.Bind = append(fv.Bind, e.val(fr, b))
		}
		return one(st, fv)
	case *ssa.MakeInterface:
		v := e.val(fr, in.X)
		if t, ok := v.(*Term); ok && t.Sort == SU {
			if isTypeParam(in.X.Type()) || isOpaqueBasic(in.X.Type()) {
				return one(st, IfaceV{in.X.Type(), v})
			}
		}
		return one(st, IfaceV{in.X.Type(), v})
	case *ssa.ChangeInterface:
		v := e.val(fr, in.X)
		if isTypeParam(in.X.Type()) && !isTypeParam(in.Type()) {
			return one(st, IfaceV{in.X.Type(), v})
		}
		return one(st, v)
	case *ssa.ChangeType:
		v := e.val(fr, in.X)
		if _, ok := under(in.Type()).(*types.Interface); ok && isTypeParam(in.X.Type()) && !isTypeParam(in.Type()) {
			return one(st, IfaceV{in.X.Type(), v})
		}
		if s, ok := v.(StructV); ok {
			v = StructV{in.Type(), s.Fields}
		}
		return one(st, v)
	case *ssa.Convert:
		return e.convert(st, e.val(fr, in.X), in.X.Type(), in.Type(), in.Pos())
	case *ssa.MultiConvert:
		return e.convert(st, e.val(fr, in.X), in.X.Type(), in.Type(), in.Pos())
	case *ssa.Extract:
		return one(st, e.val(fr, in.Tuple).(TupleV)[in.Index])
	case *ssa.Field:
		return one(st, e.val(fr, in.X).(StructV).Fields[in.Field])
	case *ssa.FieldAddr:
		x := e.val(fr, in.X)
		if t, ok := x.(*Term); ok {
			if b, ok2 := unbox(t).(Ptr); ok2 {
				x = b
			} else if t == nilU {
				return []res{e.nilDeref(st)}
			} else if e.fieldHeap != nil {
				if id := e.fieldHeap(st, in.X.Type(), in.Field); id != 0 {
					return one(st, Ptr{Obj: id, Idx: t})
				}
				e.unsup("field of opaque pointer %s at %s", t, e.where(in.Pos()))
			} else {
				e.unsup("field of opaque pointer %s at %s", t, e.where(in.Pos()))
			}
		}
		p := x.(Ptr)
		if p.isNil() {
			return []res{e.nilDeref(st)}
		}
		p.Path = fmt.Sprintf("%s/%d", p.Path, in.Field)
		return one(st, p)
	case *ssa.IndexAddr:
		return e.indexAddr(st, e.val(fr, in.X), e.val(fr, in.Index).(*Term), in.X.Type(), in.Pos())
	case *ssa.Slice:
		return e.sliceOp(fr, st, in)
	case *ssa.MakeSlice:
		T := under(in.Type()).(*types.Slice).Elem()
		ln := e.val(fr, in.Len).(*Term)
		cp := e.val(fr, in.Cap).(*Term)
		var out []res
		bad := Or(Lt(ln, IntLit(0)), Lt(cp, ln))
		if e.feasible(st, bad) {
			s2 := st.clone()
			s2.assume(bad)
			out = append(out, res{st: s2, panic: true, pval: Const("rt!makeslice", SU)})
			if !e.feasible(st, Not(bad)) {
				return out
			}
		}
		st.assume(Not(bad))
		es := arrElemSort(T)
		var z *Term
		if zt, ok := e.zeroT(T).(*Term); ok && zt.Sort == es {
			z = zt
		} else {
			z = Const("zero!elem", SU)
		}
		a := e.fresh("make", arr(es))
		id := e.newObj(st, &Obj{Name: "make", Kind: kArrS, Typ: T, Arr: a})
		v := freshBound("i", SInt)
		st.assume(Forall([]*Term{v}, Eq(Select(a, v), z), []*Term{Select(a, v)}))
		return append(out, res{st: st, val: SliceV{Obj: id, Off: IntLit(0), Len: ln, Cap: cp, Nil: False, Elem: T}})
	case *ssa.MakeMap:
		mt := under(in.Type()).(*types.Map)
		ks, ok := scalarSort(mt.Key())
		if !ok {
			ks = SU
		}
		mkarr := arr
		if ks != SInt {
			mkarr = arrU
		}
		has := e.fresh("map.has", mkarr(SBool))
		v := freshBound("k", ks)
		st.assume(Forall([]*Term{v}, Not(Select(has, v)), []*Term{Select(has, v)}))
		id := e.newObj(st, &Obj{Name: "map", Kind: kMap, Typ: in.Type(), Arr: e.fresh("map.val", mkarr(arrElemSort(mt.Elem()))), Has: has})
		return one(st, MapV{Obj: id})
	case *ssa.MapUpdate:
		m, ok := e.val(fr, in.Map).(MapV)
		if !ok || m.Nil {
			e.unsup("map update on opaque or nil map")
		}
		o := e.obj(st, m.Obj).clone()
		e.access(st, Access{Obj: m.Obj, Write: true}, in.Pos())
		k := e.val(fr, in.Key).(*Term)
		o.Arr = Store(o.Arr, k, e.structElem(st, e.val(fr, in.Value), elemSort(o.Arr.Sort)))
		o.Has = Store(o.Has, k, True)
		st.heap[m.Obj] = o
		return one(st, nil)
	case *ssa.Lookup:
		m, ok := e.val(fr, in.X).(MapV)
		if !ok {
			e.unsup("lookup in %T", e.val(fr, in.X))
		}
		mt := under(in.X.Type()).(*types.Map)
		if m.Nil {
			z := e.zeroT(mt.Elem())
			if in.CommaOk {
				return one(st, TupleV{z, False})
			}
			return one(st, z)
		}
		o := e.obj(st, m.Obj)
		e.access(st, Access{Obj: m.Obj}, in.Pos())
		k := e.val(fr, in.Index).(*Term)
		has := Select(o.Has, k)
		var out []res
		if e.feasible(st, has) {
			s2 := st.clone()
			s2.assume(has)
			for _, r := range e.fromElem(s2, Select(o.Arr, k), mt.Elem()) {
				v := r.val
				if in.CommaOk {
					v = TupleV{v, True}
				}
				out = append(out, res{st: r.st, val: v})
			}
		}
		if e.feasible(st, Not(has)) {
			st.assume(Not(has))
			v := e.zeroT(mt.Elem())
			if in.CommaOk {
				v = TupleV{v, False}
			}
			out = append(out, res{st: st, val: v})
		}
		return out
	case *ssa.TypeAssert:
		return e.typeAssert(st, e.val(fr, in.X), in.AssertedType, in.CommaOk, in.Pos())
	case *ssa.MakeChan, *ssa.Send, *ssa.Select:
		if e.chanop != nil {
			if outs, ok := e.chanop(e, fr, st, in); ok {
				var rs []res
				for _, o := range outs {
					r := res{st: o.st, panic: o.panic, pval: o.pval}
					if len(o.vals) > 0 {
						r.val = o.vals[0]
					}
					rs = append(rs, r)
				}
				return rs
			}
		}
		e.unsup("channel operation %s", in)
	}
	e.unsup("instruction %T: %s", in, in)
	return nil
}

func isOpaqueBasic(T types.Type) bool {
	b, ok := under(T).(*types.Basic)
	return ok && b.Info()&(types.IsString|types.IsFloat|types.IsComplex) != 0
}

func (e *Engine) alloc(st *State, T types.Type, name string) Ptr {
	if at, ok := under(T).(*types.Array); ok && !isTypeParam(T) {
		n := int(at.Len())
		if n > 64 {
			e.unsup("array of length %d", n)
		}
		els := make([]Val, n)
		for i := range els {
			els[i] = e.zeroT(at.Elem())
		}
		return Ptr{Obj: e.newObj(st, &Obj{Name: name, Kind: kArrC, Typ: at.Elem(), Elems: els})}
	}
	return Ptr{Obj: e.newObj(st, &Obj{Name: name, Kind: kVar, Typ: T, Val: e.zeroT(T)})}
}

func (e *Engine) unop(fr *Frame, st *State, in *ssa.UnOp) []res {
	switch in.Op {
	case token.MUL:
		if g, ok := in.X.(*ssa.Global); ok {
			return one(st, Const("global!"+g.String(), mustSort(in.Type())))
		}
		x := e.val(fr, in.X)
		if e.loadHk != nil {
			if p, ok := x.(Ptr); ok {
				if outs, ok := e.loadHk(e, st, p, in.Type(), in.Pos()); ok {
					var rs []res
					for _, o := range outs {
						rs = append(rs, res{st: o.st, val: o.vals[0], panic: o.panic, pval: o.pval})
					}
					return rs
				}
			}
		}
		return e.load(fr, st, x, in.Type(), in.Pos())
	case token.NOT:
		return one(st, Not(e.val(fr, in.X).(*Term)))
	case token.SUB:
		x := e.val(fr, in.X).(*Term)
		if x.Sort != SInt {
			return one(st, UF("fneg", SU, x))
		}
		return e.ranged(st, Neg(x), in.Type())
	case token.ARROW:
		if e.chanop != nil {
			if outs, ok := e.chanop(e, fr, st, in); ok {
				var rs []res
				for _, o := range outs {
					rs = append(rs, res{st: o.st, val: o.vals[0], panic: o.panic, pval: o.pval})
				}
				return rs
			}
		}
	}
	e.unsup("unary %s", in)
	return nil
}

func mustSort(T types.Type) Sort {
	s, ok := scalarSort(T)
	if !ok {
		return SU
	}
	return s
}

// ranged wraps an exact integer result into the type's range (forking when
// overflow cannot be excluded).
func (e *Engine) ranged(st *State, r *Term, T types.Type) []res {
	lo, hi := intRange(T)
	in := And(Le(lo, r), Le(r, hi))
	if in == True {
		return one(st, r)
	}
	if e.query(st, Not(in)) == Unsat {
		return one(st, r)
	}
	var out []res
	mod := Add(Sub(hi, lo), IntLit(1))
	if e.feasible(st, in) {
		s2 := st.clone()
		s2.assume(in)
		out = append(out, res{st: s2, val: r})
	}
	s2 := st
	s2.assume(Not(in))
	s2.note("integer overflow of %s", r)
	w := e.fresh("wrap", SInt)
	k := e.fresh("wrapk", SInt)
	s2.assume(Le(lo, w), Le(w, hi), Eq(r, Add(w, Mul(mod, k))))
	out = append(out, res{st: s2, val: w})
	return out
}

func isFloatT(T types.Type) bool {
	b, ok := under(T).(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}
func isIntT(T types.Type) bool {
	if isTypeParam(T) {
		return false
	}
	b, ok := under(T).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (e *Engine) equal(st *State, x, y Val, T types.Type) *Term {
	switch a := x.(type) {
	case *Term:
		if b, ok := y.(*Term); ok {
			if isFloatT(T) {
				return UF("feq", SBool, a, b)
			}
			return Eq(a, b)
		}
		if a == nilU {
			return e.equal(st, y, x, T)
		}
		if b, ok := y.(IfaceV); ok {
			// opaque against concrete dynamic value
			return Eq(a, box(b))
		}
		return Eq(a, box(y))
	case IfaceV:
		switch b := y.(type) {
		case *Term:
			if b == nilU {
				if isTypeParam(a.Typ) {
					// a value of the parameter's type that is a nil interface is its zero value
					null := UF("isnil!T", SBool, box(a.V))
					st.assume(Implies(null, Eq(box(a.V), box(e.zeroT(a.Typ)))))
					return null
				}
				return False
			}
			return Eq(b, box(a))
		case IfaceV:
			if !sameType(a.Typ, b.Typ) {
				return False
			}
			return e.equal(st, a.V, b.V, a.Typ)
		}
	case *FuncV:
		if b, ok := y.(*Term); ok && b == nilU {
			return False
		}
	case Ptr:
		switch b := y.(type) {
		case Ptr:
			if a.Obj != b.Obj || a.Path != b.Path {
				return False
			}
			if a.Idx == nil || b.Idx == nil {
				return BoolLit(a.Idx == b.Idx)
			}
			return Eq(a.Idx, b.Idx)
		case *Term:
			if b == nilU {
				return BoolLit(a.isNil())
			}
			return Eq(b, box(a))
		}
	case SliceV:
		return a.Nil
	case MapV:
		return BoolLit(a.Nil)
	case ChanV:
		if b, ok := y.(ChanV); ok {
			return BoolLit(a.Obj == b.Obj)
		}
	case StructV:
		if b, ok := y.(StructV); ok {
			out := True
			for i := range a.Fields {
				out = And(out, e.equal(st, a.Fields[i], b.Fields[i], under(a.Typ).(*types.Struct).Field(i).Type()))
			}
			return out
		}
	}
	e.unsup("comparison of %T and %T", x, y)
	return nil
}

func (e *Engine) binop(st *State, op token.Token, xv, yv Val, T, RT types.Type, pos token.Pos) []res {
	switch op {
	case token.EQL:
		return one(st, e.equal(st, xv, yv, T))
	case token.NEQ:
		return one(st, Not(e.equal(st, xv, yv, T)))
	}
	x, ok1 := xv.(*Term)
	y, ok2 := yv.(*Term)
	if !ok1 || !ok2 {
		e.unsup("binary %s on %T", op, xv)
	}
	if x.Sort == SBool {
		switch op {
		case token.LAND, token.AND:
			return one(st, And(x, y))
		case token.LOR, token.OR:
			return one(st, Or(x, y))
		}
	}
	if x.Sort == SU {
		switch op {
		case token.LSS:
			return one(st, ltU(x, y, T))
		case token.GTR:
			return one(st, ltU(y, x, T))
		case token.LEQ:
			if isFloatT(T) {
				return one(st, UF("fle", SBool, x, y))
			}
			return one(st, Not(ltU(y, x, T)))
		case token.GEQ:
			if isFloatT(T) {
				return one(st, UF("fle", SBool, y, x))
			}
			return one(st, Not(ltU(x, y, T)))
		case token.ADD:
			return one(st, UF("add", SU, x, y))
		case token.SUB:
			return one(st, UF("sub", SU, x, y))
		case token.MUL:
			return one(st, UF("mul", SU, x, y))
		case token.QUO:
			return one(st, UF("quo", SU, x, y))
		}
		e.unsup("operator %s on %s", op, T)
	}
	switch op {
	case token.LSS:
		return one(st, Lt(x, y))
	case token.LEQ:
		return one(st, Le(x, y))
	case token.GTR:
		return one(st, Lt(y, x))
	case token.GEQ:
		return one(st, Le(y, x))
	case token.ADD:
		return e.ranged(st, Add(x, y), RT)
	case token.SUB:
		return e.ranged(st, Sub(x, y), RT)
	case token.MUL:
		return e.ranged(st, Mul(x, y), RT)
	case token.QUO, token.REM:
		var out []res
		z := Eq(y, IntLit(0))
		if z != False && e.feasible(st, z) {
			s2 := st.clone()
			s2.assume(z)
			out = append(out, res{st: s2, panic: true, pval: Const("rt!div0", SU)})
			if !e.feasible(st, Not(z)) {
				return out
			}
		}
		st.assume(Not(z))
		q := func(s *State, x *Term, neg bool) {
			var v *Term
			xx := x
			if neg {
				xx = Neg(x)
			}
			if op == token.QUO {
				v = EDiv(xx, y)
			} else {
				v = EMod(xx, y)
			}
			if neg {
				v = Neg(v)
			}
			out = append(out, e.ranged(s, v, RT)...)
		}
		if e.proves(st, Le(IntLit(0), x)) {
			q(st, x, false)
		} else {
			if e.feasible(st, Le(IntLit(0), x)) {
				s2 := st.clone()
				s2.assume(Le(IntLit(0), x))
				q(s2, x, false)
			}
			st.assume(Lt(x, IntLit(0)))
			q(st, x, true)
		}
		return out
	case token.SHL, token.SHR:
		if n, ok := y.isInt(); ok && n.IsInt64() && n.Int64() >= 0 && n.Int64() < 62 {
			p := IntLit(1 << n.Int64())
			if op == token.SHL {
				return e.ranged(st, Mul(p, x), RT)
			}
			return one(st, EDiv(x, p))
		}
		if op == token.SHL && e.shl != nil {
			if r := e.shl(st, x, y); r != nil {
				return e.ranged(st, r, RT)
			}
		}
	case token.AND:
		if n, ok := y.isInt(); ok && n.IsInt64() && n.Int64() >= 0 && (n.Int64()&(n.Int64()+1)) == 0 {
			return one(st, EMod(x, IntLit(n.Int64()+1)))
		}
	}
	v := UF("bit!"+op.String(), SInt, x, y)
	lo, hi := intRange(RT)
	st.assume(Le(lo, v), Le(v, hi))
	return one(st, v)
}

func ltU(x, y *Term, T types.Type) *Term {
	switch {
	case isTypeParam(T):
		return UF("lt!T", SBool, x, y)
	case isFloatT(T):
		return UF("flt", SBool, x, y)
	}
	return UF("slt", SBool, x, y)
}

func (e *Engine) convert(st *State, v Val, from, to types.Type, pos token.Pos) []res {
	t, ok := v.(*Term)
	if !ok {
		if sameUnder(from, to) {
			return one(st, v)
		}
		if _, isS := v.(SliceV); isS {
			return one(st, e.fresh("conv", SU))
		}
		return one(st, v)
	}
	switch {
	case isIntT(from) && isIntT(to):
		return e.ranged(st, t, to)
	case isTypeParam(to) || isTypeParam(from):
		if t.Sort == SU {
			return one(st, t)
		}
		return one(st, UF("conv!T", SU, t))
	case isIntT(from) && isFloatT(to):
		return one(st, UF("i2f", SU, t))
	case isFloatT(from) && isIntT(to):
		r := UF("f2i", SInt, t)
		lo, hi := intRange(to)
		st.assume(Le(lo, r), Le(r, hi))
		if e.f2i != nil {
			r = e.f2i(st, t, r)
		}
		return one(st, r)
	}
	if s, ok := scalarSort(to); ok && s == t.Sort {
		return one(st, t)
	}
	e.unsup("conversion %s to %s", from, to)
	return nil
}

func (e *Engine) indexAddr(st *State, xv Val, idx *Term, T types.Type, pos token.Pos) []res {
	var out []res
	check := func(n *Term) bool {
		in := And(Le(IntLit(0), idx), Lt(idx, n))
		if e.proves(st, in) {
			return true
		}
		s2 := st.clone()
		s2.assume(Not(in))
		s2.note("index %s out of range %s at %s", idx, n, e.where(pos))
		out = append(out, res{st: s2, panic: true, pval: Const("rt!index", SU)})
		if !e.feasible(st, in) {
			return false
		}
		st.assume(in)
		return true
	}
	switch x := xv.(type) {
	case SliceV:
		if !check(x.Len) {
			return out
		}
		return append(out, res{st: st, val: Ptr{Obj: x.Obj, Idx: Add(x.Off, idx)}})
	case Ptr:
		o := e.obj(st, x.Obj)
		if !check(IntLit(int64(len(o.Elems)))) {
			return out
		}
		return append(out, res{st: st, val: Ptr{Obj: x.Obj, Path: x.Path, Idx: idx}})
	}
	e.unsup("index of %T", xv)
	return nil
}

func (e *Engine) sliceOp(fr *Frame, st *State, in *ssa.Slice) []res {
	xv := e.val(fr, in.X)
	var base SliceV
	switch x := xv.(type) {
	case SliceV:
		base = x
	case Ptr:
		if x.isNil() {
			return []res{e.nilDeref(st)}
		}
		o := e.obj(st, x.Obj)
		if o.Kind != kArrC {
			e.unsup("slice of pointer to %d", o.Kind)
		}
		n := IntLit(int64(len(o.Elems)))
		base = SliceV{Obj: x.Obj, Off: IntLit(0), Len: n, Cap: n, Nil: False, Elem: o.Typ}
	default:
		e.unsup("slice of %T", xv)
	}
	lo, hi, mx := IntLit(0), base.Len, base.Cap
	if in.Low != nil {
		lo = e.val(fr, in.Low).(*Term)
	}
	if in.High != nil {
		hi = e.val(fr, in.High).(*Term)
	}
	if in.Max != nil {
		mx = e.val(fr, in.Max).(*Term)
	}
	okc := And(Le(IntLit(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, base.Cap))
	var out []res
	if !e.proves(st, okc) {
		s2 := st.clone()
		s2.assume(Not(okc))
		s2.note("slice bounds [%s:%s] at %s", lo, hi, e.where(in.Pos()))
		out = append(out, res{st: s2, panic: true, pval: Const("rt!slice", SU)})
		if !e.feasible(st, okc) {
			return out
		}
		st.assume(okc)
	}
	return append(out, res{st: st, val: SliceV{Obj: base.Obj, Off: Add(base.Off, lo), Len: Sub(hi, lo), Cap: Sub(mx, lo), Nil: base.Nil, Elem: base.Elem}})
}

func (e *Engine) typeAssert(st *State, v Val, T types.Type, commaOk bool, pos token.Pos) []res {
	mk := func(s *State, val Val, ok bool) res {
		if commaOk {
			if !ok {
				val = e.zeroT(T)
			}
			return res{st: s, val: TupleV{val, BoolLit(ok)}}
		}
		if ok {
			return res{st: s, val: val}
		}
		return res{st: s, panic: true, pval: Const("rt!typeassert", SU)}
	}
	_, toIface := under(T).(*types.Interface)
	if isTypeParam(T) {
		toIface = false
	}
	switch x := v.(type) {
	case IfaceV:
		if toIface {
			if types.Implements(x.Typ, under(T).(*types.Interface)) {
				return []res{mk(st, x, true)}
			}
			if isTypeParam(x.Typ) {
				e.unsup("interface assertion on type parameter value")
			}
			return []res{mk(st, nil, false)}
		}
		if isTypeParam(x.Typ) && sameType(x.Typ, T) {
			// the type argument can be an interface type and the value nil
			null := UF("isnil!T", SBool, box(x.V))
			var out []res
			if e.feasible(st, null) {
				s2 := st.clone()
				s2.assume(null, Eq(box(x.V), box(e.zeroT(T))))
				out = append(out, mk(s2, nil, false))
			}
			if e.feasible(st, Not(null)) {
				st.assume(Not(null))
				out = append(out, mk(st, x.V, true))
			}
			return out
		}
		return []res{mk(st, x.V, sameType(x.Typ, T))}
	case *Term:
		if x == nilU {
			return []res{mk(st, nil, false)}
		}
		if b, ok := boxes[x]; ok {
			return e.typeAssert(st, b, T, commaOk, pos)
		}
		if e.assertHk != nil {
			if cs, ok := e.assertHk(e, st, x, T); ok {
				var out []res
				for _, c := range cs {
					if e.feasible(st, c.cond) {
						s2 := st.clone()
						s2.assume(c.cond)
						out = append(out, mk(s2, c.val, c.typ != nil))
					}
				}
				return out
			}
		}
		is := UF("is!"+typeKey(T), SBool, x)
		var out []res
		if e.feasible(st, is) {
			s2 := st.clone()
			s2.assume(is, Ne(x, nilU))
			out = append(out, mk(s2, e.asType(s2, x, T, toIface), true))
		}
		if e.feasible(st, Not(is)) {
			st.assume(Not(is))
			out = append(out, mk(st, nil, false))
		}
		return out
	}
	e.unsup("type assertion on %T", v)
	return nil
}

func typeKey(T types.Type) string {
	s := T.String()
	s = strings.ReplaceAll(s, "github.com/intel/forGoParallel/", "")
	if isTypeParam(T) {
		return "T"
	}
	return s
}

func (e *Engine) asType(st *State, x *Term, T types.Type, iface bool) Val {
	if iface {
		return x
	}
	if s, ok := scalarSort(T); ok {
		switch s {
		case SInt:
			return UF("unbox!int", SInt, x)
		case SBool:
			return UF("unbox!bool", SBool, x)
		}
		if isTypeParam(T) || isOpaqueBasic(T) {
			return UF("unbox!"+typeKey(T), SU, x)
		}
		return x
	}
	e.unsup("assertion of opaque value to %s", T)
	return nil
}

// ---- calls

func (e *Engine) resolve(fr *Frame, st *State, c *ssa.CallCommon, pos token.Pos) (callee, []res) {
	cal := callee{sig: c.Signature()}
	for _, a := range c.Args {
		cal.args = append(cal.args, e.val(fr, a))
	}
	if c.IsInvoke() {
		cal.recv = e.val(fr, c.Value)
		cal.meth = c.Method
		if t, ok := cal.recv.(*Term); ok {
			if t == nilU {
				return cal, []res{e.nilDeref(st)}
			}
			cal.recv = unbox(t)
		}
		return cal, nil
	}
	v := e.val(fr, c.Value)
	if t, ok := v.(*Term); ok {
		v = unbox(t)
	}
	switch f := v.(type) {
	case *FuncV:
		cal.fn = f
	case *Term:
		if f == nilU {
			return cal, []res{e.nilDeref(st)}
		}
		cal.opaque = f
	default:
		e.unsup("call of %T", v)
	}
	return cal, nil
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func (e *Engine) call(st *State, fr *Frame, cal callee, pos token.Pos, recID int) []Outcome {
	c := &CallCtx{st: st, args: cal.args, sig: cal.sig, pos: pos, recID: recID, fr: fr}
	switch {
	case cal.meth != nil:
		if iv, ok := cal.recv.(IfaceV); ok {
			fn := e.prog.LookupMethod(iv.Typ, cal.meth.Pkg(), cal.meth.Name())
			if fn == nil {
				e.unsup("no method %s on %s", cal.meth.Name(), iv.Typ)
			}
			c.fn = fn
			c.args = append([]Val{iv.V}, cal.args...)
			return e.callFn(c)
		}
		if e.invoke != nil {
			if outs, ok := e.invoke(e, c, cal.recv, cal.meth); ok {
				return outs
			}
		}
		if m := e.models["invoke:"+cal.meth.FullName()]; m != nil {
			c.args = append([]Val{cal.recv}, cal.args...)
			return m(e, c)
		}
		e.unsup("method call %s on %T %s", cal.meth.FullName(), cal.recv, valKey(cal.recv))
	case cal.opaque != nil:
		if e.opaque != nil {
			if outs, ok := e.opaque(e, c, cal.opaque); ok {
				return outs
			}
		}
		e.unsup("call of unknown function value %s at %s", cal.opaque, e.where(pos))
	case cal.fn.Builtin != "":
		return e.builtin(c, cal.fn.Builtin)
	case cal.fn.Native != "":
		m := e.models[cal.fn.Native]
		if m == nil {
			e.unsup("native %s", cal.fn.Native)
		}
		c.bind = cal.fn.NArgs
		return m(e, c)
	}
	c.fn = cal.fn.Fn
	c.bind = cal.fn.Bind
	return e.callFn(c)
}

func (e *Engine) callFn(c *CallCtx) []Outcome {
	fn := e.body(c.fn)
	if h := e.contr[fn]; h != nil {
		return h(e, c)
	}
	if m := e.models[fnKey(fn)]; m != nil {
		e.usedMod[fnKey(fn)]++
		return m(e, c)
	}
	if ri := e.recs[fn]; ri != nil && e.recH != nil {
		return e.recH(e, c, ri)
	}
	for _, f := range e.stack {
		if f == fn {
			if e.recH == nil {
				e.unsup("recursive function %s without contract", fn)
			}
			panic(restart{fn})
		}
	}
	if len(fn.Blocks) == 0 || (fn.Pkg != nil && e.pkgs[fn.Pkg.Pkg.Path()] == nil && fn.Synthetic == "") {
		e.unsup("no contract for external function %s", fnKey(fn))
	}
	return e.execFn(c.st, fn, c.args, c.bind, c.recID)
}

func (e *Engine) builtin(c *CallCtx, name string) []Outcome {
	st := c.st
	switch name {
	case "len", "cap":
		switch x := c.args[0].(type) {
		case SliceV:
			if name == "len" {
				return c.ret(x.Len)
			}
			return c.ret(x.Cap)
		case *Term:
			r := UF("len!str", SInt, x)
			st.assume(Le(IntLit(0), r))
			return c.ret(r)
		}
	case "append":
		return e.appendOp(c)
	case "copy":
		return e.copyOp(c)
	case "delete":
		m, ok := c.args[0].(MapV)
		if ok && !m.Nil {
			o := e.obj(st, m.Obj).clone()
			e.access(st, Access{Obj: m.Obj, Write: true}, c.pos)
			o.Has = Store(o.Has, c.args[1].(*Term), False)
			st.heap[m.Obj] = o
			return c.ret()
		}
	case "recover":
		if c.fr != nil && c.fr.recID != 0 {
			v := st.pslot[c.fr.recID]
			if v != nil {
				st.pslot[c.fr.recID] = nil
				return c.ret(v)
			}
		}
		return c.ret(nilU)
	case "min", "max":
		r := c.args[0].(*Term)
		for _, a := range c.args[1:] {
			t := a.(*Term)
			if t.Sort != SInt {
				e.unsup("min/max on %s", t.Sort)
			}
			if name == "min" {
				r = Ite(Le(r, t), r, t)
			} else {
				r = Ite(Le(t, r), r, t)
			}
		}
		return c.ret(r)
	case "close":
		if e.chanop != nil {
			if m := e.models["builtin:close"]; m != nil {
				return m(e, c)
			}
		}
	case "ssa:wrapnilchk":
		return c.ret(c.args[0])
	case "clear":
		if m, ok := c.args[0].(MapV); ok && !m.Nil {
			o := e.obj(st, m.Obj).clone()
			e.access(st, Access{Obj: m.Obj, Write: true}, c.pos)
			h := e.fresh("map.has", o.Has.Sort)
			ks := SInt
			if strings.HasPrefix(string(o.Has.Sort), "(Array U") {
				ks = SU
			}
			v := freshBound("k", ks)
			st.assume(Forall([]*Term{v}, Not(Select(h, v)), []*Term{Select(h, v)}))
			o.Has = h
			st.heap[m.Obj] = o
			return c.ret()
		}
	}
	e.unsup("builtin %s on %T", name, c.args)
	return nil
}

// arrOf gives the content of a slice's backing array as a symbolic array.
func (e *Engine) arrOf(st *State, s SliceV) *Term {
	o := st.heap[s.Obj]
	es := arrElemSort(s.Elem)
	if o == nil {
		return Const("empty!arr", arr(es))
	}
	if o.Kind == kArrS {
		return o.Arr
	}
	a := Const("base!arr", arr(es))
	for i, v := range o.Elems {
		a = Store(a, IntLit(int64(i)), e.elemOf(st, v, es))
	}
	return a
}

// appendOp: the result is modelled as fresh storage.
func (e *Engine) appendOp(c *CallCtx) []Outcome {
	st := c.st
	a, ok := c.args[0].(SliceV)
	if !ok {
		e.unsup("append to %T", c.args[0])
	}
	if len(c.args) == 1 {
		return c.ret(a)
	}
	b, ok := c.args[1].(SliceV)
	if !ok {
		e.unsup("append of %T", c.args[1])
	}
	if a.Obj != 0 {
		e.access(st, Access{Obj: a.Obj, Lo: a.Off, Hi: Add(a.Off, a.Len)}, c.pos)
	}
	if b.Obj != 0 {
		e.access(st, Access{Obj: b.Obj, Lo: b.Off, Hi: Add(b.Off, b.Len)}, c.pos)
	}
	if n, ok := b.Len.isInt(); ok && n.Sign() == 0 {
		return c.ret(a)
	}
	if a.Obj != 0 {
		if o := st.heap[a.Obj]; o != nil && o.Extra != nil && o.Extra["foreign"] == True {
			e.oblige(st, "alias", "append does not write into memory of the caller ("+o.Name+")", c.pos, Or(Eq(a.Cap, a.Len), Eq(b.Len, IntLit(0))))
		}
	}
	// concrete lengths on both sides: keep a concrete list
	la, oka := a.Len.isInt()
	lb, okb := b.Len.isInt()
	if oka && okb && la.Int64()+lb.Int64() <= 32 {
		var els []Val
		conc := true
		get := func(s SliceV, n int) {
			o := st.heap[s.Obj]
			off, okoff := s.Off.isInt()
			if n > 0 && (o == nil || !okoff || o.Kind != kArrC) {
				conc = false
				return
			}
			for i := 0; i < n; i++ {
				els = append(els, o.Elems[int(off.Int64())+i])
			}
		}
		get(a, int(la.Int64()))
		if conc {
			get(b, int(lb.Int64()))
		}
		if conc {
			id := e.newObj(st, &Obj{Name: "append", Kind: kArrC, Typ: a.Elem, Elems: els})
			n := IntLit(int64(len(els)))
			return c.ret(SliceV{Obj: id, Off: IntLit(0), Len: n, Cap: n, Nil: False, Elem: a.Elem})
		}
	}
	es := arrElemSort(a.Elem)
	aa, ba := e.arrOf(st, a), e.arrOf(st, b)
	na := e.fresh("append", arr(es))
	v := freshBound("i", SInt)
	if okb && lb.Int64() <= 4 {
		// few elements: explicit stores over the shifted old content
		st.assume(Forall([]*Term{v}, Implies(And(Le(IntLit(0), v), Lt(v, a.Len)), Eq(Select(na, v), Select(aa, Add(a.Off, v)))), []*Term{Select(na, v)}))
		for i := int64(0); i < lb.Int64(); i++ {
			st.assume(Eq(Select(na, Add(a.Len, IntLit(i))), Select(ba, Add(b.Off, IntLit(i)))))
		}
	} else {
		st.assume(Forall([]*Term{v}, Implies(And(Le(IntLit(0), v), Lt(v, a.Len)), Eq(Select(na, v), Select(aa, Add(a.Off, v)))), []*Term{Select(na, v)}))
		st.assume(Forall([]*Term{v}, Implies(And(Le(a.Len, v), Lt(v, Add(a.Len, b.Len))), Eq(Select(na, v), Select(ba, Add(b.Off, Sub(v, a.Len))))), []*Term{Select(na, v)}))
	}
	id := e.newObj(st, &Obj{Name: "append", Kind: kArrS, Typ: a.Elem, Arr: na})
	ln := Add(a.Len, b.Len)
	cp := e.fresh("cap", SInt)
	st.assume(Le(ln, cp), Le(cp, IntLitS("9223372036854775807")))
	return c.ret(SliceV{Obj: id, Off: IntLit(0), Len: ln, Cap: cp, Nil: And(a.Nil, Eq(b.Len, IntLit(0))), Elem: a.Elem})
}

func (e *Engine) copyOp(c *CallCtx) []Outcome {
	st := c.st
	d, ok1 := c.args[0].(SliceV)
	s, ok2 := c.args[1].(SliceV)
	if !ok1 || !ok2 {
		e.unsup("copy of %T", c.args[1])
	}
	n := Ite(Le(d.Len, s.Len), d.Len, s.Len)
	if e.proves(st, Eq(d.Len, s.Len)) {
		n = d.Len
	}
	if d.Obj == 0 || s.Obj == 0 {
		return c.ret(n)
	}
	do := st.heap[d.Obj]
	if do.Kind != kArrS {
		e.unsup("copy into concrete array")
	}
	e.access(st, Access{Obj: s.Obj, Lo: s.Off, Hi: Add(s.Off, n)}, c.pos)
	e.access(st, Access{Obj: d.Obj, Lo: d.Off, Hi: Add(d.Off, n), Write: true}, c.pos)
	old := do.Arr
	src := e.arrOf(st, s)
	na := e.fresh("copy", old.Sort)
	v := freshBound("i", SInt)
	in := And(Le(d.Off, v), Lt(v, Add(d.Off, n)))
	st.assume(Forall([]*Term{v}, Eq(Select(na, v), Ite(in, Select(src, Add(s.Off, Sub(v, d.Off))), Select(old, v))), []*Term{Select(na, v)}))
	o := do.clone()
	o.Arr = na
	st.heap[d.Obj] = o
	return c.ret(n)
}

// ---- threads

// spawn starts a goroutine; it is executed at once, in its own thread.
func (e *Engine) spawn(fr *Frame, st *State, cal callee, pos token.Pos) []res {
	if e.onTask != nil {
		if outs, ok := e.onTask(e, st, cal, pos); ok {
			var rs []res
			for _, o := range outs {
				rs = append(rs, res{st: o.st, panic: o.panic, pval: o.pval})
			}
			return rs
		}
	}
	outs := e.runTask(st, fr, cal, pos)
	var rs []res
	for _, o := range outs {
		if o.panic {
			e.oblige(o.st, "gopanic", "a spawned goroutine never ends with an unrecovered panic", pos, False)
			continue
		}
		rs = append(rs, res{st: o.st})
	}
	return rs
}

func (e *Engine) newThread(st *State, name string) int {
	id := st.ntid
	st.ntid++
	st.tasks++
	p := st.thread()
	known := mergeKnown(p.Known, map[int]int{st.cur: len(p.Log)})
	j := mergeJoined(p.Joined, map[int]map[string]*Term{st.cur: p.Own}, id)
	j[st.cur] = p.Own
	st.thr[id] = &Thread{ID: id, Parent: st.cur, Known: known, Own: map[string]*Term{}, Joined: j, Name: name}
	return id
}

// runTask runs a callee in a new thread and switches back to the current one.
func (e *Engine) runTask(st *State, fr *Frame, cal callee, pos token.Pos) []Outcome {
	me := st.cur
	id := e.newThread(st, e.where(pos))
	for _, c := range e.colls {
		c.spawns++
	}
	st.cur = id
	outs := e.call(st, fr, cal, pos, 0)
	for _, o := range outs {
		o.st.cur = me
		o.st.mem[fmt.Sprintf("lasttask")] = IntLit(int64(id))
	}
	return outs
}

// joinThread makes everything thread id did so far happen before the current point.
func (e *Engine) joinThread(st *State, id int) {
	u := st.thr[id]
	t := st.modThread(st.cur)
	t.Known = mergeKnown(mergeKnown(t.Known, u.Known), map[int]int{id: len(u.Log)})
	t.Joined = mergeJoined(t.Joined, u.Joined, st.cur)
	t.Joined[id] = u.Own
}

// mergeOutcomes joins the normal outcomes of a call that changed nothing: the
// result is one of the results.  With few outcomes each result keeps the
// condition it was returned under.
func (e *Engine) mergeOutcomes(base *State, outs []Outcome) []Outcome {
	var same, other []Outcome
	for _, o := range outs {
		if o.panic || !unchanged(base, o.st) {
			other = append(other, o)
			continue
		}
		same = append(same, o)
	}
	if len(same) < 2 {
		return outs
	}
	n := len(same[0].vals)
	for _, o := range same {
		for _, v := range o.vals {
			if _, ok := v.(*Term); !ok {
				return outs
			}
		}
	}
	st := base.clone()
	t := st.modThread(st.cur)
	seen := map[string]bool{}
	for _, o := range same {
		for _, a := range o.st.thread().Log[len(base.thread().Log):] {
			k := fmt.Sprintf("%d%s %v %v %v %v", a.Obj, a.Path, a.Lo, a.Hi, a.Write, a.Atomic)
			if !seen[k] {
				seen[k] = true
				t.Log = append(t.Log, a)
			}
		}
	}
	var rs []*Term
	var vals []Val
	for i := 0; i < n; i++ {
		v := same[0].vals[i].(*Term)
		all := true
		for _, o := range same {
			all = all && o.vals[i] == Val(v)
		}
		if !all {
			v = e.fresh("ret", v.Sort)
		}
		rs = append(rs, v)
		vals = append(vals, v)
	}
	var alts []*Term
	dup := map[*Term]bool{}
	for _, o := range same {
		var cs []*Term
		if len(same) <= 4 {
			cs = o.st.factsSince(base.pc)
		}
		for i, r := range rs {
			cs = append(cs, Eq(r, o.vals[i].(*Term)))
		}
		a := And(cs...)
		if !dup[a] {
			dup[a] = true
			alts = append(alts, a)
		}
	}
	st.assume(Or(alts...))
	return append(other, Outcome{st: st, vals: vals})
}

// unchanged: nothing but the path condition and the access log differs.
func unchanged(a, b *State) bool {
	if a.cur != b.cur || a.ntid != b.ntid || a.tasks != b.tasks || len(a.ghost) != len(b.ghost) || len(a.wgs) != len(b.wgs) {
		return false
	}
	mem := func(x, y *State) bool {
		for k, v := range x.mem {
			if y.mem[k] != v && !strings.HasPrefix(k, "hdr:") {
				return false
			}
		}
		return true
	}
	if !mem(a, b) || !mem(b, a) {
		return false
	}
	for k, v := range a.heap {
		if b.heap[k] != v {
			return false
		}
	}
	for k, v := range a.ghost {
		if b.ghost[k] != v {
			return false
		}
	}
	for k, v := range a.wgs {
		if b.wgs[k] != v {
			return false
		}
	}
	for k, v := range a.pslot {
		if b.pslot[k] != v {
			return false
		}
	}
	x, y := a.thread(), b.thread()
	if len(x.Known) != len(y.Known) || len(x.Joined) != len(y.Joined) || len(x.Own) != len(y.Own) || len(x.Locks) != len(y.Locks) {
		return false
	}
	for k, v := range x.Own {
		if y.Own[k] != v {
			return false
		}
	}
	return true
}
