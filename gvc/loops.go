package main

// Loops: cut at natural-loop headers; invariants are inferred from candidate
// templates by Houdini-style elimination, so that only verified ones are assumed.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
}

type loopInfo struct {
	byHeader map[*ssa.BasicBlock]*loop
}

func (e *Engine) loopsOf(fn *ssa.Function) *loopInfo {
	if li := e.loops[fn]; li != nil {
		return li
	}
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.byHeader[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}, ord: len(li.byHeader)}
					li.byHeader[s] = l
				}
				var work []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					work = append(work, b)
				}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					for _, p := range x.Preds {
						if !l.blocks[p] {
							l.blocks[p] = true
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	e.loops[fn] = li
	return li
}

// Role is an integer-valued quantity visible at a loop header.
type Role struct {
	Name string
	Inv  bool // loop-invariant
	Get  func(v *View) *Term
	U    bool
}

// View is the program state at a loop header.
type View struct {
	st   *State
	phis map[*ssa.Phi]Val
	fr   *Frame
	lc   *LoopCtx
	args []*Term // role binding of a template instance
}

// Cand is a candidate invariant.
type Cand struct {
	Name string
	F    func(v *View) *Term
}

// LoopCtx is the analysis of one loop at one entry.
type LoopCtx struct {
	e        *Engine
	l        *loop
	fr       *Frame
	quiet    bool
	final    bool
	entry    *View
	entrySt  *State
	backs    []*View
	mods     map[string]bool
	ghostM   map[string]bool
	ownM     map[string]bool
	variants map[*ssa.Phi][]Val
	cellVar  map[string][]Val
	cands    []Cand
	accs     []Access
	exits    int
	key      string
	measure  func(v *View) *Term // decreases with every iteration
}

func (lc *LoopCtx) back(e *Engine, fr *Frame, st *State, from *ssa.BasicBlock) {
	v := &View{st: st, phis: e.phiVals(fr, from, lc.l.header), fr: fr, lc: lc}
	if lc.quiet {
		lc.backs = append(lc.backs, v)
		return
	}
	// final run: every surviving invariant is an obligation at the back edge
	lc.checkAt(e, v, "preserved")
	if !sameChans(lc.entrySt, st) {
		e.unsup("a loop communicates on a channel")
	}
	if e.termLoops && e.quiet == 0 {
		e.oblige(st, "term", "each iteration of the loop makes progress towards its end ("+shortFn(lc.fr.fn)+")", lc.l.header.Instrs[0].Pos(), lc.decreases(v))
	}
}

// decreases: the measure of the loop is smaller than at the start of the iteration.
func (lc *LoopCtx) decreases(v *View) *Term {
	h, _ := v.st.mem["hdr:"+lc.key].(*View)
	if h == nil || lc.measure == nil {
		return False
	}
	a, b := lc.measure(h), lc.measure(v)
	if a == nil || b == nil {
		return False
	}
	return Lt(b, a)
}

// findMeasure looks for a difference of machine integers that decreases with
// every iteration (and is thus bounded).
func (lc *LoopCtx) findMeasure() {
	e := lc.e
	var rs []Role
	for _, r := range e.roles(lc) {
		if !r.Inv && !strings.HasPrefix(r.Name, "ghost:") {
			rs = append(rs, r)
		}
	}
	try := func(f func(v *View) *Term) bool {
		lc.measure = f
		for _, b := range lc.backs {
			if !e.proves(b.st, lc.decreases(b)) {
				lc.measure = nil
				return false
			}
		}
		return true
	}
	neg := func(t *Term) *Term { return Sub(IntLit(0), t) }
	for _, r := range rs {
		if try(func(v *View) *Term { return nn(r.Get(v), neg) }) || try(r.Get) {
			return
		}
	}
	for i, r := range rs {
		for j, q := range rs {
			two := func(f func(a, b *Term) *Term) func(v *View) *Term {
				return func(v *View) *Term {
					a, b := r.Get(v), q.Get(v)
					if a == nil || b == nil {
						return nil
					}
					return f(a, b)
				}
			}
			if i != j && try(two(func(a, b *Term) *Term { return Sub(a, b) })) {
				return
			}
			if i < j && (try(two(func(a, b *Term) *Term { return Add(a, b) })) || try(two(func(a, b *Term) *Term { return neg(Add(a, b)) }))) {
				return
			}
		}
	}
}

func (lc *LoopCtx) checkAt(e *Engine, v *View, what string) {
	if e.quiet > 0 {
		return
	}
	var plain []*Term
	for _, c := range lc.cands {
		if t := c.F(v); t != nil && !hasQuant(t) {
			plain = append(plain, t)
		}
	}
	if t := And(plain...); t != True {
		e.oblige(v.st, "loop", "loop invariant "+what+" ("+shortFn(lc.fr.fn)+")", lc.l.header.Instrs[0].Pos(), t)
	}
	for _, c := range lc.cands {
		t := c.F(v)
		if t == nil || t == True || !hasQuant(t) {
			continue
		}
		e.oblige(v.st, "loop", "loop invariant "+what+" ("+shortFn(lc.fr.fn)+")", lc.l.header.Instrs[0].Pos(), t)
	}
	// phis not treated as changing must not change
	for p, val := range v.phis {
		if len(lc.variants[p]) > 0 {
			ok := false
			for _, x := range lc.variants[p] {
				if sameShape(x, val) || lc.summarised(x, val) {
					ok = true
				}
			}
			if !ok {
				e.unsup("loop variable %s takes an unexpected value", p.Comment)
			}
		}
	}
}

// summarised: a slice allocated in the loop is covered by the summary object.
func (lc *LoopCtx) summarised(x, val Val) bool {
	if q, ok := val.(Ptr); ok {
		p, ok := x.(Ptr)
		return ok && lc.isSum(p.Obj) && q.Obj != 0 && lc.entrySt.heap[q.Obj] == nil && q.Path == "" && q.Idx == nil
	}
	a, ok1 := x.(SliceV)
	b, ok2 := val.(SliceV)
	if !ok1 || !ok2 || lc.entrySt.heap[b.Obj] != nil {
		return false
	}
	return lc.isSum(a.Obj)
}

func (lc *LoopCtx) isSum(id int) bool {
	o := lc.entrySt.heap[id]
	return o != nil && o.Extra != nil && o.Extra["loopsum"] == True
}

func (lc *LoopCtx) exit(e *Engine, fr *Frame, st *State) { lc.exits++ }

// sameShape: equal up to integer components of slices
// anyTerm stands for a loop variable of an unknown opaque value.
type anyTerm struct{}

func sameShape(a, b Val) bool {
	if _, ok := a.(anyTerm); ok {
		_, ok := b.(*Term)
		return ok
	}
	if x, ok := a.(SliceV); ok {
		if y, ok := b.(SliceV); ok {
			return x.Obj == y.Obj
		}
		return false
	}
	return sameVal(a, b)
}

func (e *Engine) enterLoop(fr *Frame, st *State, from *ssa.BasicBlock, l *loop) []Outcome {
	lc := &LoopCtx{e: e, l: l, fr: fr, mods: map[string]bool{}, ghostM: map[string]bool{}, ownM: map[string]bool{}, variants: map[*ssa.Phi][]Val{}, cellVar: map[string][]Val{}}
	lc.entry = &View{st: st, phis: e.phiVals(fr, from, l.header), fr: fr, lc: lc}
	lc.entrySt = st.clone()
	lc.entry.st = lc.entrySt
	for p, v := range lc.entry.phis {
		if _, ok := v.(*Term); ok {
			if _, sc := scalarSort(p.Type()); sc {
				if sT, _ := scalarSort(p.Type()); sT != SU || isTypeParam(p.Type()) || isOpaqueBasic(p.Type()) {
					continue
				}
			}
		}
		lc.variants[p] = []Val{v}
	}
	var names []string
	for _, f := range e.stack {
		names = append(names, shortFn(f))
	}
	lc.key = fmt.Sprintf("%s#%d", strings.Join(names, ">"), l.header.Index)

	// Phase 1: modified state and variants
	for round := 0; ; round++ {
		if round > 12 {
			e.unsup("loop analysis does not converge in %s", shortFn(fr.fn))
		}
		e.explore++
		grew := lc.quietRun(fr, nil)
		e.explore--
		if !grew {
			break
		}
	}
	// Phase 2: candidates
	all := e.genericCands(lc)
	generic := len(all)
	if e.cands != nil {
		all = append(all, e.cands(e, lc)...)
	}
	hard := map[string]bool{}
	for _, c := range all[generic:] {
		hard[c.Name] = true
	}
	proves := func(c Cand, st *State, t *Term) bool {
		return e.proves(st, t) || hard[c.Name] && !e.noAlt && e.explore == 0 && e.provesAlt(st, t)
	}
	dropped := e.surv[lc.key]
	if e.explore > 0 {
		// without the invariants of the enclosing loop: decides nothing
		dropped = map[string]bool{}
	} else if dropped == nil {
		dropped = map[string]bool{}
		e.surv[lc.key] = dropped
	}
	// the generic candidates together: models refute many at once
	together := func(cs []Cand, v *View) map[string]bool {
		ts := map[string]*Term{}
		var names []string
		res := map[string]bool{}
		for _, c := range cs {
			if dropped[c.Name] || hard[c.Name] {
				continue
			}
			t := c.F(v)
			if t == nil {
				continue
			}
			if t == True || v.st.hasFact(t) {
				res[c.Name] = true
				continue
			}
			if ts[c.Name] == nil {
				names = append(names, c.Name)
			}
			ts[c.Name] = t
		}
		for len(names) > 1 {
			var xs []*Term
			for _, n := range names {
				xs = append(xs, ts[n])
			}
			r, m := e.queryModel(v.st, Not(And(xs...)), xs)
			if r == Unsat {
				for _, n := range names {
					res[n] = true
				}
				break
			}
			var left []string
			for _, n := range names {
				if m[ts[n]] == "false" || ts[n] == False {
					res[n] = false
				} else {
					left = append(left, n)
				}
			}
			if len(left) == len(names) {
				break
			}
			names = left
		}
		return res
	}
	var cs []Cand
	atOnce := together(all, lc.entry)
	for _, c := range all {
		if dropped[c.Name] {
			continue
		}
		t := c.F(lc.entry)
		if t == nil {
			continue
		}
		if ok, known := atOnce[c.Name]; known && !ok || !known && !proves(c, lc.entrySt, t) {
			if os.Getenv("GVC_LOOP") == "2" {
				fmt.Fprintf(os.Stderr, "%s: %s fails on entry\n", lc.key, c.Name)
			}
			continue
		}
		cs = append(cs, c)
	}
	for {
		lc.cands = cs
		if lc.quietRun(fr, cs) {
			continue // new modifications appeared under the invariant: redo
		}
		var keep []Cand
		done := map[*View]map[string]bool{}
		for _, b := range lc.backs {
			done[b] = together(cs, b)
		}
		for _, c := range cs {
			ok := true
			for _, b := range lc.backs {
				t := c.F(b)
				ok1, known := done[b][c.Name]
				if t == nil || known && !ok1 || !known && !proves(c, b.st, t) {
					if d := os.Getenv("GVC_DUMP"); d != "" && t != nil && strings.HasSuffix(c.Name, d) {
						os.WriteFile(fmt.Sprintf("/tmp/dump.%d.smt2", len(lc.entrySt.facts())), []byte(script(e.axioms, append(b.st.facts(), Not(t)))+"(check-sat)\n"), 0o644)
					}
					ok = false
					break
				}
			}
			if ok {
				keep = append(keep, c)
			} else {
				if os.Getenv("GVC_LOOP") == "2" {
					fmt.Fprintf(os.Stderr, "%s: %s not preserved\n", lc.key, c.Name)
				}
				dropped[c.Name] = true
			}
		}
		if len(keep) == len(cs) {
			break
		}
		cs = keep
	}
	if os.Getenv("GVC_LOOP") != "" && e.quiet == 0 {
		for _, c := range cs {
			fmt.Fprintf(os.Stderr, "%s: invariant %s\n", lc.key, c.Name)
		}
	}
	// Phase 3: the real run
	lc.cands = cs
	if e.termLoops && e.quiet == 0 {
		lc.findMeasure()
	}
	lc.checkAt(e, lc.entry, "established")
	lc.quiet = false
	var out []Outcome
	for _, hv := range lc.havoc(fr, cs) {
		if len(lc.accs) > 0 {
			t := hv.st.modThread(hv.st.cur)
			t.Log = append(t.Log, lc.accs...)
		}
		hv.fr.loops = append(hv.fr.loops, lc)
		out = append(out, e.run(hv.fr, hv.st, l.header, 0)...)
	}
	return out
}

// havoc gives the states at the loop header for an arbitrary iteration.
func (lc *LoopCtx) havoc(fr *Frame, cs []Cand) []*View {
	e := lc.e
	// enumerate variants of non-scalar phis
	type choice map[*ssa.Phi]Val
	choices := []choice{{}}
	var ps []*ssa.Phi
	for p := range lc.entry.phis {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].Name() < ps[j].Name() })
	for _, p := range ps {
		vs, ok := lc.variants[p]
		if !ok {
			continue
		}
		var next []choice
		for _, c := range choices {
			for _, v := range vs {
				n := choice{}
				for k, x := range c {
					n[k] = x
				}
				n[p] = v
				next = append(next, n)
			}
		}
		choices = next
	}
	var views []*View
	for _, ch := range choices {
		st := lc.entrySt.clone()
		f := fr.clone()
		phis := map[*ssa.Phi]Val{}
		for _, p := range ps {
			if v, ok := ch[p]; ok {
				if s, ok := v.(SliceV); ok && lc.sliceVaries(p) {
					v = e.havocSlice(st, s, p.Comment)
				} else if _, ok := v.(anyTerm); ok {
					v = e.fresh(phiName(p), SU)
				}
				phis[p] = v
				continue
			}
			s, _ := scalarSort(p.Type())
			c := e.fresh(phiName(p), s)
			if s == SInt {
				lo, hi := intRange(p.Type())
				st.assume(Le(lo, c), Le(c, hi))
			}
			phis[p] = c
		}
		for p, v := range phis {
			f.env[p] = v
		}
		views = append(views, lc.havocHeap(f, st, phis)...)
	}
	var out []*View
	for _, v := range views {
		for _, c := range cs {
			if t := c.F(v); t != nil {
				v.st.assume(t)
			}
		}
		if len(views) > 1 && !e.feasible(v.st) {
			continue
		}
		if e.termLoops {
			h := *v
			h.st = v.st.clone()
			v.st.mem["hdr:"+lc.key] = &h
		}
		out = append(out, v)
	}
	return out
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return strings.ReplaceAll(p.Comment, ".", "_")
	}
	return p.Name()
}

// sliceVaries: does any known variant differ in its integer components?
func (lc *LoopCtx) sliceVaries(p *ssa.Phi) bool {
	return lc.cellVar["phi:"+p.Name()] != nil
}

func (e *Engine) havocSlice(st *State, s SliceV, hint string) SliceV {
	if s.Obj == 0 {
		return s
	}
	off, ln, cp := e.fresh(hint+".off", SInt), e.fresh(hint+".len", SInt), e.fresh(hint+".cap", SInt)
	nl := e.fresh(hint+".nil", SBool)
	st.assume(Le(IntLit(0), off), Le(IntLit(0), ln), Le(ln, cp), Le(Add(off, cp), IntLitS("9223372036854775807")), Implies(nl, Eq(cp, IntLit(0))))
	return SliceV{Obj: s.Obj, Off: off, Len: ln, Cap: cp, Nil: nl, Elem: s.Elem}
}

// havocHeap forgets the cells the loop modifies.
func (lc *LoopCtx) havocHeap(f *Frame, st *State, phis map[*ssa.Phi]Val) []*View {
	e := lc.e
	keys := make([]string, 0, len(lc.mods))
	for k := range lc.mods {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	views := []*View{{st: st, phis: phis, fr: f, lc: lc}}
	for _, k := range keys {
		id, path := splitLoc(k)
		var next []*View
		for _, v := range views {
			o := v.st.heap[id]
			if o == nil {
				next = append(next, v)
				continue
			}
			n := o.clone()
			switch o.Kind {
			case kArrS:
				n.Arr = e.fresh(o.Name, o.Arr.Sort)
				v.st.heap[id] = n
				next = append(next, v)
			case kMap:
				n.Arr = e.fresh(o.Name+".val", o.Arr.Sort)
				n.Has = e.fresh(o.Name+".has", o.Has.Sort)
				v.st.heap[id] = n
				next = append(next, v)
			case kColl:
				n.Arr = e.fresh(o.Name, o.Arr.Sort)
				v.st.heap[id] = n
				next = append(next, v)
			case kVar:
				cur := getPath(o.Val, pathIdx(path))
				if t, ok := cur.(*Term); ok {
					T := pathType(o.Typ, pathIdx(path))
					if t.Sort == SU && len(lc.cellVar[k]) > 0 && !isTypeParam(T) && !isOpaqueBasic(T) {
						next = append(next, lc.cellChoices(v, id, path, lc.cellVar[k])...)
						continue
					}
					c := e.fresh(o.Name+path, t.Sort)
					if t.Sort == SInt {
						lo, hi := intRange(T)
						v.st.assume(Le(lo, c), Le(c, hi))
					}
					n.Val = setPath(o.Val, pathIdx(path), c)
					v.st.heap[id] = n
					next = append(next, v)
					continue
				}
				next = append(next, lc.cellChoices(v, id, path, lc.cellVar[k])...)
			case kArrC:
				e.unsup("loop modifies array %s", o.Name)
			default:
				e.unsup("loop modifies object kind %d", o.Kind)
			}
		}
		views = next
	}
	for _, v := range views {
		for g := range lc.ghostM {
			old := v.st.g(g)
			v.st.ghost[g] = e.fresh("g."+g, old.Sort)
		}
		for g := range lc.ownM {
			t := v.st.modThread(v.st.cur)
			t.Own[g] = e.fresh("own."+g, SInt)
		}
	}
	return views
}

func (lc *LoopCtx) cellChoices(v *View, id int, path string, vals []Val) []*View {
	e := lc.e
	var out []*View
	for i, x := range vals {
		w := v
		if i < len(vals)-1 {
			w = &View{st: v.st.clone(), phis: v.phis, fr: v.fr.clone(), lc: lc}
		}
		n := w.st.heap[id].clone()
		if s, ok := x.(SliceV); ok {
			x = e.havocSlice(w.st, s, n.Name)
		} else if _, ok := x.(anyTerm); ok {
			x = e.fresh(n.Name+path, SU)
		}
		n.Val = setPath(n.Val, pathIdx(path), x)
		w.st.heap[id] = n
		out = append(out, w)
	}
	return out
}

func pathType(T types.Type, path []int) types.Type {
	for _, i := range path {
		T = under(T).(*types.Struct).Field(i).Type()
	}
	return T
}

func splitLoc(k string) (int, string) {
	id := 0
	i := strings.IndexByte(k, '/')
	path := ""
	if i >= 0 {
		path = k[i:]
		k = k[:i]
	}
	fmt.Sscan(k, &id)
	return id, path
}

// quietRun explores the body once from the havoced header without recording
// obligations; it reports whether the set of modifications grew.
func (lc *LoopCtx) quietRun(fr *Frame, cs []Cand) bool {
	e := lc.e
	lc.quiet = true
	lc.backs = nil
	lc.accs = nil
	lc.exits = 0
	e.quiet++
	base := lc.entrySt.pc
	col := &collector{writes: map[string]bool{}, base: base}
	e.colls = append(e.colls, col)
	for _, hv := range lc.havoc(fr, cs) {
		hv.fr.loops = append(hv.fr.loops, lc)
		e.run(hv.fr, hv.st, lc.l.header, 0)
	}
	e.colls = e.colls[:len(e.colls)-1]
	e.quiet--
	if col.spawns > 0 {
		lc.cellVar["spawns"] = []Val{True}
	}
	lc.accs = col.accs
	grew := false
	for k := range col.writes {
		id, _ := splitLoc(k)
		if lc.entrySt.heap[id] == nil || lc.mods[k] {
			continue
		}
		lc.mods[k] = true
		grew = true
	}
	for _, b := range lc.backs {
		for p, v := range b.phis {
			vs, ok := lc.variants[p]
			if !ok {
				continue
			}
			if s, ok := v.(SliceV); ok && !lc.sliceVaries(p) {
				// do the integer components change?
				if hv, ok := b.fr.env[p].(SliceV); !ok || !sameVal(hv, s) {
					lc.cellVar["phi:"+p.Name()] = []Val{True}
					grew = true
				}
			}
			if g := lc.addVariant(b.st, &vs, v); g {
				lc.variants[p] = vs
				grew = true
			}
		}
		for k := range lc.mods {
			id, path := splitLoc(k)
			o := b.st.heap[id]
			if o == nil || o.Kind != kVar {
				continue
			}
			v := getPath(o.Val, pathIdx(path))
			if _, ok := v.(*Term); ok {
				T := pathType(o.Typ, pathIdx(path))
				if s, ok := scalarSort(T); ok && (s != SU || isTypeParam(T) || isOpaqueBasic(T)) {
					continue
				}
			}
			vs := lc.cellVar[k]
			if vs == nil {
				vs = []Val{getPath(lc.entrySt.heap[id].Val, pathIdx(path))}
				lc.cellVar[k] = vs
				grew = true
			}
			if lc.addVariant(b.st, &vs, v) {
				lc.cellVar[k] = vs
				grew = true
			}
		}
		for g, v := range b.st.ghost {
			if lc.ghostM[g] {
				continue
			}
			if old, ok := lc.entrySt.ghost[g]; !ok && v != IntLit(0) || ok && old != v {
				lc.ghostM[g] = true
				grew = true
			}
		}
		for g, v := range b.st.thread().Own {
			if lc.ownM[g] {
				continue
			}
			if old := lc.entrySt.thread().Own[g]; old == nil && v != IntLit(0) || old != nil && old != v {
				lc.ownM[g] = true
				grew = true
			}
		}
	}
	return grew
}

func (lc *LoopCtx) addVariant(st *State, vs *[]Val, v Val) bool {
	for _, x := range *vs {
		if sameShape(x, v) {
			return false
		}
	}
	// an object allocated inside the loop: summarise by a fresh object
	if s, ok := v.(SliceV); ok && lc.entrySt.heap[s.Obj] == nil && s.Obj != 0 {
		e := lc.e
		for _, x := range *vs {
			if y, ok := x.(SliceV); ok && y.Obj != 0 {
				if o := lc.entrySt.heap[y.Obj]; o != nil && o.Extra != nil && o.Extra["loopsum"] == True {
					return false
				}
			}
		}
		e.objN++
		id := e.objN
		lc.entrySt.heap[id] = &Obj{ID: id, Name: "loopsum", Kind: kArrS, Typ: s.Elem, Arr: e.fresh("loopsum", arr(arrElemSort(s.Elem))), Owner: lc.entrySt.cur, Extra: map[string]*Term{"loopsum": True}}
		lc.mods[fmt.Sprint(id)] = true
		*vs = append(*vs, SliceV{Obj: id, Off: IntLit(0), Len: IntLit(0), Cap: IntLit(0), Nil: False, Elem: s.Elem})
		return true
	}
	// a variable allocated in each iteration (a loop variable that is captured)
	if q, ok := v.(Ptr); ok && q.Obj != 0 && lc.entrySt.heap[q.Obj] == nil && q.Path == "" && q.Idx == nil {
		e := lc.e
		o := st.heap[q.Obj]
		if o == nil || o.Kind != kVar {
			e.unsup("a loop variable refers to an object of the loop")
		}
		if _, ok := scalarSort(o.Typ); !ok {
			e.unsup("a captured loop variable of type %s", o.Typ)
		}
		for _, x := range *vs {
			if y, ok := x.(Ptr); ok && lc.isSum(y.Obj) {
				return false
			}
		}
		e.objN++
		id := e.objN
		lc.entrySt.heap[id] = &Obj{ID: id, Name: o.Name, Kind: kVar, Typ: o.Typ, Val: e.symVal(lc.entrySt, o.Typ, o.Name), Owner: lc.entrySt.cur, Extra: map[string]*Term{"loopsum": True}}
		lc.mods[fmt.Sprint(id)] = true
		*vs = append(*vs, Ptr{Obj: id})
		return true
	}
	if _, ok := v.(*Term); ok && len(*vs) > 4 {
		// many unknown values: any value
		keep := []Val{anyTerm{}}
		for _, x := range *vs {
			if _, ok := x.(*Term); !ok {
				keep = append(keep, x)
			}
		}
		*vs = keep
		return true
	}
	if len(*vs) > 6 {
		lc.e.unsup("too many variants of a loop variable")
	}
	*vs = append(*vs, v)
	return true
}

// ---- roles and generic candidates

func (e *Engine) roles(lc *LoopCtx) []Role {
	var out []Role
	var ps []*ssa.Phi
	for p := range lc.entry.phis {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].Name() < ps[j].Name() })
	for _, p := range ps {
		p := p
		if isIntT(p.Type()) {
			out = append(out, Role{Name: p.Name(), Get: func(v *View) *Term { t, _ := v.phis[p].(*Term); return t }})
		}
		if q, ok := p.Type().(*types.Pointer); ok && isIntT(q.Elem()) {
			out = append(out, Role{Name: "*" + p.Name(), Get: func(v *View) *Term {
				if q, ok := v.phis[p].(Ptr); ok && q.Obj != 0 && q.Path == "" && q.Idx == nil {
					if o := v.st.heap[q.Obj]; o != nil && o.Kind == kVar {
						t, _ := o.Val.(*Term)
						return t
					}
				}
				return nil
			}})
		}
		if _, ok := under(p.Type()).(*types.Slice); ok && !isTypeParam(p.Type()) {
			out = append(out, Role{Name: "len(" + p.Name() + ")", Get: func(v *View) *Term {
				if s, ok := v.phis[p].(SliceV); ok {
					return s.Len
				}
				return nil
			}})
		}
	}
	keys := make([]string, 0)
	for k := range lc.mods {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for n, k := range keys {
		id, path := splitLoc(k)
		o := lc.entrySt.heap[id]
		if o == nil || o.Kind != kVar {
			continue
		}
		get := func(v *View) *Term {
			x := getPath(v.st.heap[id].Val, pathIdx(path))
			if t, ok := x.(*Term); ok && t.Sort == SInt {
				return t
			}
			if s, ok := x.(SliceV); ok {
				return s.Len
			}
			return nil
		}
		if get(lc.entry) != nil {
			out = append(out, Role{Name: fmt.Sprintf("cell%d:%s%s", n, o.Name, path), Get: get})
		}
	}
	// ghost variables the loop changes
	var gs []string
	for g := range lc.ghostM {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		g := g
		if lc.entrySt.g(g).Sort == SInt {
			out = append(out, Role{Name: "ghost:" + g, Get: func(v *View) *Term { return v.st.g(g) }})
		}
	}
	// invariant integer values
	var vs []ssa.Value
	for v := range lc.fr.env {
		if _, isPhi := v.(*ssa.Phi); isPhi {
			if in, ok := v.(ssa.Instruction); ok && in.Block() == lc.l.header {
				continue
			}
		}
		if in, ok := v.(ssa.Instruction); ok && lc.l.blocks[in.Block()] {
			continue
		}
		if in, ok := v.(ssa.Instruction); ok && !in.Block().Dominates(lc.l.header) {
			continue
		}
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	seen := map[*Term]bool{}
	add := func(name string, t *Term) {
		if _, isC := t.isInt(); isC || seen[t] {
			return
		}
		seen[t] = true
		out = append(out, Role{Name: name, Inv: true, Get: func(*View) *Term { return t }})
	}
	for _, v := range vs {
		switch x := lc.fr.env[v].(type) {
		case *Term:
			if x.Sort == SInt {
				add(v.Name(), x)
			}
		case SliceV:
			add("len("+v.Name()+")", x.Len)
		case Ptr:
			// captured integer variables not modified by the loop
			if x.Obj != 0 && x.Idx == nil {
				if o := lc.entrySt.heap[x.Obj]; o != nil && o.Kind == kVar && !lc.mods[x.loc()] {
					if st, ok := o.Val.(StructV); ok && x.Path == "" {
						for i, f := range st.Fields {
							if lc.mods[fmt.Sprintf("%d/%d", x.Obj, i)] {
								continue
							}
							if t, ok := f.(*Term); ok && t.Sort == SInt {
								add(fmt.Sprintf("*%s.%d", v.Name(), i), t)
							}
							if s, ok := f.(SliceV); ok {
								add(fmt.Sprintf("len(*%s.%d)", v.Name(), i), s.Len)
							}
						}
					} else if _, isS := o.Val.(StructV); !isS {
						if t, ok := o.Val.(*Term); ok && t.Sort == SInt {
							add("*"+v.Name(), t)
						}
						if s, ok := o.Val.(SliceV); ok {
							add("len(*"+v.Name()+")", s.Len)
						}
					}
				}
			}
		}
	}
	if e.sums {
		out = append(out, lc.sumRoles(out)...)
	}
	return out
}

// sumRoles: sums of two integers of which the loop changes one or both, where
// the loop computes them, or where they may be a base and a length.
func (lc *LoopCtx) sumRoles(rs []Role) []Role {
	var out, vars []Role
	byTerm := func(x ssa.Value) *Role {
		// up to a constant
		if b, ok := x.(*ssa.BinOp); ok && lc.l.blocks[b.Block()] && (b.Op == token.ADD || b.Op == token.SUB) {
			if _, ok := b.Y.(*ssa.Const); ok {
				x = b.X
			}
		}
		// the role that an operand stands for at the loop header
		if p, ok := x.(*ssa.Phi); ok && p.Block() == lc.l.header {
			for i := range rs {
				if rs[i].Name == p.Name() {
					return &rs[i]
				}
			}
			return nil
		}
		if t, ok := lc.fr.env[x].(*Term); ok {
			for i := range rs {
				if rs[i].Inv && rs[i].Get(lc.entry) == t {
					return &rs[i]
				}
			}
		}
		return nil
	}
	seen := map[string]bool{}
	sum := func(a, b Role) {
		n := a.Name + "+" + b.Name
		if seen[n] || seen[b.Name+"+"+a.Name] {
			return
		}
		seen[n] = true
		out = append(out, Role{Name: n, Get: func(v *View) *Term {
			x, y := a.Get(v), b.Get(v)
			if x == nil || y == nil {
				return nil
			}
			return Add(x, y)
		}})
	}
	compared := map[string]bool{}
	for _, b := range lc.fr.fn.Blocks {
		if !lc.l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			op, ok := in.(*ssa.BinOp)
			if !ok || !isIntT(op.X.Type()) {
				continue
			}
			x, y := byTerm(op.X), byTerm(op.Y)
			if x == nil || y == nil || x.Inv && y.Inv {
				continue
			}
			switch op.Op {
			case token.ADD:
				sum(*x, *y)
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
				compared[x.Name+" "+y.Name], compared[y.Name+" "+x.Name] = true, true
			}
		}
	}
	for _, r := range rs {
		if !r.Inv && !strings.HasPrefix(r.Name, "ghost:") && !strings.HasPrefix(r.Name, "len(") {
			vars = append(vars, r)
		}
	}
	if len(vars) == 2 && !compared[vars[0].Name+" "+vars[1].Name] {
		sum(vars[0], vars[1])
	}
	return out
}

func (e *Engine) genericCands(lc *LoopCtx) []Cand {
	rs := e.roles(lc)
	var vars, invs []Role
	for _, r := range rs {
		if r.Inv {
			invs = append(invs, r)
		} else {
			vars = append(vars, r)
		}
	}
	if len(invs) > 10 {
		invs = invs[:10]
	}
	// constants the loop compares with
	consts := map[int64]bool{}
	for b := range lc.l.blocks {
		for _, in := range b.Instrs {
			if op, ok := in.(*ssa.BinOp); ok {
				switch op.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
					for _, x := range []ssa.Value{op.X, op.Y} {
						if c, ok := x.(*ssa.Const); ok && c.Value != nil && isIntT(c.Type()) {
							if k, exact := constant.Int64Val(constant.ToInt(c.Value)); exact && k != 0 {
								consts[k] = true
							}
						}
					}
				}
			}
		}
	}
	var ks []int64
	for k := range consts {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	if len(ks) > 3 {
		ks = ks[:3]
	}
	var out []Cand
	add := func(name string, f func(v *View) *Term) { out = append(out, Cand{name, f}) }
	for _, a := range vars {
		a := a
		ent := a.Get(lc.entry)
		if ent == nil {
			continue
		}
		for _, k := range ks {
			for d := int64(-1); d <= 0; d++ {
				k := k + d
				add(fmt.Sprintf("%s<=%d", a.Name, k), func(v *View) *Term { return nn(a.Get(v), func(t *Term) *Term { return Le(t, IntLit(k)) }) })
			}
		}
		add(a.Name+">=entry", func(v *View) *Term { return nn(a.Get(v), func(t *Term) *Term { return Le(ent, t) }) })
		add(a.Name+"<=entry", func(v *View) *Term { return nn(a.Get(v), func(t *Term) *Term { return Le(t, ent) }) })
		others := append(append([]Role{}, invs...), vars...)
		for _, b := range others {
			b := b
			if b.Name == a.Name {
				continue
			}
			for d := int64(-1); d <= 1; d++ {
				d := d
				add(fmt.Sprintf("%s<=%s%+d", a.Name, b.Name, d), func(v *View) *Term {
					x, y := a.Get(v), b.Get(v)
					if x == nil || y == nil {
						return nil
					}
					return Le(x, Add(y, IntLit(d)))
				})
				if b.Inv {
					add(fmt.Sprintf("%s>=%s%+d", a.Name, b.Name, d), func(v *View) *Term {
						x, y := a.Get(v), b.Get(v)
						if x == nil || y == nil {
							return nil
						}
						return Le(Add(y, IntLit(d)), x)
					})
				}
			}
		}
	}
	// ghost variables of other sorts that equal program variables
	type uvar struct {
		name string
		sort Sort
		get  func(v *View) *Term
	}
	var us []uvar
	for p := range lc.entry.phis {
		p := p
		if t, ok := lc.entry.phis[p].(*Term); ok && t.Sort != SInt {
			us = append(us, uvar{p.Name(), t.Sort, func(v *View) *Term { t, _ := v.phis[p].(*Term); return t }})
		}
	}
	for k := range lc.mods {
		id, path := splitLoc(k)
		if o := lc.entrySt.heap[id]; o != nil && o.Kind == kVar {
			get := func(v *View) *Term {
				t, _ := getPath(v.st.heap[id].Val, pathIdx(path)).(*Term)
				return t
			}
			if t := get(lc.entry); t != nil && t.Sort != SInt {
				us = append(us, uvar{k, t.Sort, get})
			}
		}
	}
	sort.Slice(us, func(i, j int) bool { return us[i].name < us[j].name })
	for g := range lc.ghostM {
		g := g
		if lc.entrySt.g(g).Sort == SInt {
			continue
		}
		for _, u := range us {
			u := u
			if u.sort != lc.entrySt.g(g).Sort {
				continue
			}
			add(u.name+"=ghost:"+g, func(v *View) *Term { return nn(u.get(v), func(t *Term) *Term { return Eq(t, v.st.g(g)) }) })
		}
	}
	// affine relations between changing variables
	for i, a := range vars {
		for _, b := range vars[i+1:] {
			a, b := a, b
			ea, eb := a.Get(lc.entry), b.Get(lc.entry)
			if ea == nil || eb == nil {
				continue
			}
			add(a.Name+"-"+b.Name+"=entry", func(v *View) *Term {
				x, y := a.Get(v), b.Get(v)
				if x == nil || y == nil {
					return nil
				}
				return Eq(Sub(x, y), Sub(ea, eb))
			})
			add(a.Name+"+"+b.Name+"=entry", func(v *View) *Term {
				x, y := a.Get(v), b.Get(v)
				if x == nil || y == nil {
					return nil
				}
				return Eq(Add(x, y), Add(ea, eb))
			})
		}
	}
	return out
}

func nn(t *Term, f func(*Term) *Term) *Term {
	if t == nil {
		return nil
	}
	return f(t)
}

// templateCands instantiates a template over all role combinations.
func (e *Engine) templateCands(lc *LoopCtx, t *Template, mkEnv func(v *View) *Env, limit int) []Cand {
	rs := e.roles(lc)
	if len(rs) > 9 {
		rs = rs[:9]
	}
	n := len(t.Params)
	var out []Cand
	idx := make([]int, n)
	var rec func(k int)
	rec = func(k int) {
		if len(out) > limit {
			return
		}
		if k == n {
			var pick []Role
			nm := t.Text
			for _, i := range idx {
				pick = append(pick, rs[i])
				nm += "|" + rs[i].Name
			}
			out = append(out, Cand{nm, func(v *View) *Term {
				env := mkEnv(v)
				if env == nil {
					return nil
				}
				for j, r := range pick {
					x := r.Get(v)
					if x == nil {
						return nil
					}
					env = env.with(t.Params[j], x)
				}
				return env.bool(t.E)
			}})
			return
		}
		for i := range rs {
			idx[k] = i
			rec(k + 1)
		}
	}
	rec(0)
	return out
}
