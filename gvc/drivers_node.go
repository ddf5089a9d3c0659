package main

// Nodes: each unit verifies one kind of node in its phases
//   constructor -> Begin -> Feed (any number, concurrently) / worker -> End
// The functions called are replaced by their contracts: ComposeFilters and
// feed, which have units of their own.  The channel between Feed and the
// workers is a rendezvous: what Feed is proved to send is what a worker
// receives.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type task struct {
	st  *State
	cal callee
	pos token.Pos
}

// NodeUnit is the state of one node verification.
type NodeUnit struct {
	d       *Driver
	e       *Engine
	x       *Pipe
	ctor    string
	ordered bool // lparnode before a StrictOrd node
	node    Ptr
	T       types.Type
	filters SliceV
	phase   string
	tasks   []task
	R, F    SliceV // composed receivers and finalizers
	chn     Val    // the channel of the node, if any
	chanT   types.Type
	roles   []string // meaning of the fields of a batch
	batchT  types.Type
	index   *Term
	lockKey string
	runPath string
	size    Ptr
	done    *Term // the Done channel of the pipeline
}

func (u *NodeUnit) locked() bool { return u.ctor == "StrictOrd" || u.ordered }
func (u *NodeUnit) single() bool { return u.ctor == "Ord" || u.ctor == "Seq" || u.ctor == "StrictOrd" }

func init() {
	for _, k := range []string{"Par", "Ord", "Seq", "StrictOrd", "LimitedPar", "LimitedParOrdered"} {
		k := k
		drivers["pipeline.node."+k] = func(d *Driver) {
			u := &NodeUnit{d: d, e: d.e, ctor: strings.TrimSuffix(k, "Ordered"), ordered: k == "LimitedParOrdered"}
			u.run()
		}
	}
	drivers["pipeline.feed"] = feedDriver
	drivers["pipeline.ComposeFilters"] = composeDriver
}

// typed finds the only field of a struct type whose type satisfies pred.
func (d *Driver) typed(T types.Type, what string, pred func(t types.Type) bool) string {
	S, ok := under(T).(*types.Struct)
	if !ok {
		d.e.unsup("%s is not a struct", T)
	}
	name := ""
	for i := 0; i < S.NumFields(); i++ {
		if pred(S.Field(i).Type()) {
			if name != "" {
				d.e.unsup("%s has two fields for %s", T, what)
			}
			name = S.Field(i).Name()
		}
	}
	return name
}

func sliceOfNamed(name string) func(t types.Type) bool {
	return func(t types.Type) bool {
		s, ok := under(t).(*types.Slice)
		if !ok {
			return false
		}
		n, ok := types.Unalias(s.Elem()).(*types.Named)
		return ok && n.Obj().Name() == name
	}
}

func isNamed(name string) func(t types.Type) bool {
	return func(t types.Type) bool {
		n, ok := types.Unalias(t).(*types.Named)
		return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync"
	}
}

func isChan(t types.Type) bool { _, ok := under(t).(*types.Chan); return ok }

func (u *NodeUnit) fld(what string) string {
	var n string
	switch what {
	case "filters":
		n = u.d.typed(u.T, what, sliceOfNamed("Filter"))
	case "receivers":
		n = u.d.typed(u.T, what, sliceOfNamed("Receiver"))
	case "finalizers":
		n = u.d.typed(u.T, what, sliceOfNamed("Finalizer"))
	case "channel":
		return u.d.typed(u.T, what, isChan)
	case "waitGroup":
		n = u.d.typed(u.T, what, isNamed("WaitGroup"))
	}
	if n == "" {
		u.d.e.unsup("the node has no field for %s", what)
	}
	return n
}

func (u *NodeUnit) get(st *State, what string) Val { return u.d.field(st, u.node, u.fld(what)) }

func (u *NodeUnit) ob(st *State, tag, desc string, goal *Term) {
	u.e.oblige(st, tag, u.ctor+": "+desc, token.NoPos, goal)
}

// findFeed gives the function that passes a batch through receivers.
func findFeed(d *Driver) *ssa.Function {
	if f := d.P.fn("pipeline.feed"); f != nil {
		return d.e.body(f)
	}
	var found *ssa.Function
	for _, m := range d.P.pkg("pipeline").Members {
		f, ok := m.(*ssa.Function)
		if !ok || f.Signature.Params().Len() != 5 || f.Signature.Results().Len() != 0 {
			continue
		}
		if sliceOfNamed("Receiver")(f.Signature.Params().At(1).Type()) {
			if found != nil {
				d.e.unsup("no unique feed function")
			}
			found = f
		}
	}
	if found == nil {
		d.e.unsup("no function that feeds a batch to receivers")
	}
	return d.e.body(found)
}

func setIf(st *State, g string, v int64) { st.ghost[g] = IntLit(v) }

func is1(st *State, g string) *Term { return Eq(st.g(g), IntLit(1)) }
func is0(st *State, g string) *Term { return Eq(st.g(g), IntLit(0)) }

func ctorKind(c string) int64 {
	switch c {
	case "Ord", "StrictOrd":
		return 0
	case "Seq":
		return 1
	}
	return 2
}

func (u *NodeUnit) run() {
	d, e := u.d, u.e
	st := newState()
	u.x = d.pipe(st)
	u.done = doneChan(u.x.ctx)
	e.wgGhost = true
	ctor := d.fn("pipeline." + u.ctor)
	u.filters = e.symVal(st, ctor.Params[0].Type(), "filters").(SliceV)
	nilFacts(st, u.filters)
	u.hooks()
	fset := d.P.fn("pipeline.lparnode.makeOrdered")
	feeds := 0
	for _, o := range d.must(st, "begin", u.ctor, ctor, u.filters) {
		v := o.vals[0]
		if t, ok := v.(*Term); ok {
			v = unbox(t)
		}
		iv, ok := v.(IfaceV)
		if !ok {
			e.unsup("%s does not return a known node", u.ctor)
		}
		u.node, ok = iv.V.(Ptr)
		if !ok {
			e.unsup("%s does not return a node pointer", u.ctor)
		}
		u.T = e.obj(o.st, u.node.Obj).Typ
		u.size = d.variable(o.st, types.Typ[types.Int], "dataSize", e.symVal(o.st, types.Typ[types.Int], "size"))
		for _, q := range d.must(o.st.clone(), "strict", "StrictOrd", d.methodOf(o.st, u.node, "StrictOrd"), u.node) {
			u.ob(q.st, "strict", "only StrictOrd nodes report that they are strictly ordered", Eq(q.vals[0].(*Term), BoolLit(u.ctor == "StrictOrd")))
		}
		starts := []Outcome{o}
		if u.ordered {
			if fset == nil {
				e.unsup("makeOrdered not found")
			}
			starts = d.must(o.st, "begin", "makeOrdered", e.body(fset), u.node)
		}
		for _, o := range starts {
			u.phase = "begin"
			for _, g := range []string{"composed", "spawned", "sends", "feeds", "canceled", "closed", "pend", "dones", "tk", "needB", "cancelB", "lockedAfterDone", "polled", "bc", "waited", "fin"} {
				setIf(o.st, g, 0)
			}
			u.tasks = nil
			args := []Val{u.node, u.x.p, e.symVal(o.st, types.Typ[types.Int], "index0"), u.size}
			outs := d.must(o.st, "begin", "Begin", d.methodOf(o.st, u.node, "Begin"), args...)
			begun := u.tasks
			for _, o := range outs {
				u.tasks = nil
				feeds += u.afterBegin(o, begun)
			}
		}
	}
	d.ob(newState(), "vacuity", "batches are fed", BoolLit(feeds > 0))
}

// wgTerm is the WaitGroup counter of the node.
func (u *NodeUnit) wgTerm(st *State) *Term {
	q := u.d.fieldPtr(u.T, u.node, u.fld("waitGroup"))
	return st.g("wg:" + locKey(q))
}

func (u *NodeUnit) afterBegin(o Outcome, begun []task) int {
	d, e := u.d, u.e
	st := o.st
	keep := o.vals[0].(*Term)
	u.ob(st, "begin", "Begin composes the filters exactly once", is1(st, "composed"))
	some := Or(Lt(IntLit(0), u.R.Len), Lt(IntLit(0), u.F.Len))
	u.ob(st, "begin", "Begin keeps the node if and only if it has a receiver or a finalizer", Eq(keep, some))
	if fs, ok := u.get(st, "filters").(SliceV); ok {
		u.ob(st, "begin", "the filters are composed only once", Eq(fs.Len, IntLit(0)))
	}
	rs, ok1 := u.get(st, "receivers").(SliceV)
	fs, ok2 := u.get(st, "finalizers").(SliceV)
	if !ok1 || !ok2 {
		e.unsup("receivers of %s", u.ctor)
	}
	u.ob(st, "begin", "Begin stores the composed receivers and finalizers", And(d.sameSeq(rs, u.R, st, st), d.sameSeq(fs, u.F, st, st)))
	sp := st.g("spawned")
	u.ob(st, "begin", "no goroutine is started for a node that is left out", Implies(Not(keep), Eq(sp, IntLit(0))))
	u.ob(st, "begin", "every goroutine is counted in the wait group before it starts", Implies(keep, Eq(sp, u.wgTerm(st))))
	switch {
	case u.single():
		u.ob(st, "overlap", "exactly one goroutine processes the batches of the node", Implies(keep, Eq(sp, IntLit(1))))
	case u.ctor == "LimitedPar":
		u.ob(st, "overlap", "the number of goroutines of the node is between 1 and the limit", Implies(keep, And(Le(IntLit(1), sp), Le(sp, Const("NumCPU", SInt)))))
	}
	st.assume(keep, some)
	if st.dead || e.query(st) == Unsat {
		return 0
	}
	u.chn = nil
	if n := u.fld("channel"); n != "" {
		u.chn = d.field(st, u.node, n)
		u.chanT = d.fieldType(u.T, n)
		c, ok := u.chn.(ChanV)
		if !ok {
			e.unsup("the channel of %s is not made by Begin", u.ctor)
		}
		if u.locked() {
			ln := st.heap[c.Obj].Len
			u.ob(st, "strict", "the channel of a strictly ordered node is unbuffered", Eq(ln, IntLit(0)))
		}
	}
	if u.locked() {
		u.runPath = d.fieldPtr(u.T, u.node, "run").Path
		cond, ok := d.field(st, u.node, "cond").(Ptr)
		if !ok {
			e.unsup("the condition variable of %s is not known", u.ctor)
		}
		lk := d.field(st, cond, "L")
		if t, ok := lk.(*Term); ok {
			lk = unbox(t)
		}
		if iv, ok := lk.(IfaceV); ok {
			lk = iv.V
		}
		u.lockKey = locKey(lk)
	}
	var tasks []task
	for _, t := range begun {
		// the goroutines of this way through Begin
		if n := u.fld("channel"); n == "" || sameVal(d.field(t.st, u.node, n), u.chn) {
			tasks = append(tasks, t)
		}
	}
	u.ob(st, "frame", "the goroutines use the channel of the node", BoolLit(u.ctor == "Par" || len(tasks) > 0))
	u.index = e.symVal(st, types.Typ[types.Int], "index").(*Term)
	st.assume(Le(IntLit(0), u.index), Le(u.index, IntLitS("4611686018427387904")))
	u.feedPhase(st.clone())
	par := u.tasks
	n := 0
	for _, t := range tasks {
		// the goroutine sees the node as it is at the end of Begin
		sn, en := e.obj(t.st, u.node.Obj), e.obj(st, u.node.Obj)
		u.ob(st, "frame", "the node is complete when its goroutines start", BoolLit(u.sameFields(sn, en)))
		u.ob(t.st, "begin", "every goroutine is counted in the wait group before it starts", Le(t.st.g("spawned"), u.wgTerm(t.st)))
		n += u.workerPhase(t, false)
	}
	for _, t := range par {
		n += u.workerPhase(t, true)
	}
	if u.ctor == "LimitedPar" && len(tasks) > 0 {
		// two workers at the same time
		e.only = "race"
		t := tasks[len(tasks)-1]
		s := t.st.clone()
		t1, t2 := e.newThread(s, "worker 1"), e.newThread(s, "worker 2")
		s.cur = t1
		u.phase = "worker"
		for _, o := range e.call(s, nil, t.cal, t.pos, 0) {
			if o.panic {
				continue
			}
			o.st.cur = t2
			e.call(o.st, nil, t.cal, t.pos, 0)
		}
		e.only = ""
	}
	u.endPhase(st.clone())
	return n
}

func (u *NodeUnit) sameFields(a, b *Obj) bool {
	x, ok1 := a.Val.(StructV)
	y, ok2 := b.Val.(StructV)
	if !ok1 || !ok2 {
		return false
	}
	for i := range x.Fields {
		if n := under(u.T).(*types.Struct).Field(i); isNamed("WaitGroup")(n.Type()) {
			continue
		}
		if !sameVal(x.Fields[i], y.Fields[i]) {
			return false
		}
	}
	return true
}

func (d *Driver) fieldType(T types.Type, name string) types.Type {
	S := under(T).(*types.Struct)
	for i := 0; i < S.NumFields(); i++ {
		if S.Field(i).Name() == name {
			return S.Field(i).Type()
		}
	}
	d.e.unsup("%s has no field %s", T, name)
	return nil
}

func (u *NodeUnit) holds(st *State) bool {
	for _, l := range st.thread().Locks {
		if l == u.lockKey {
			return true
		}
	}
	return false
}

func (u *NodeUnit) runVal(st *State) *Term { return u.d.field(st, u.node, "run").(*Term) }

// maxSeq bounds the sequence numbers: the sources have fewer batches.
var maxSeq = IntLitS("4611686018427387904")

func Dfun(k *Term) *Term { return UF("D", SU, k) }

func (u *NodeUnit) hooks() {
	d, e := u.d, u.e
	// ---- ComposeFilters by contract
	cf := d.fn("pipeline.ComposeFilters")
	e.contr[cf] = func(e *Engine, c *CallCtx) []Outcome {
		st := c.st
		e.oblige(st, "begin", u.ctor+": ComposeFilters is called in Begin", c.pos, BoolLit(u.phase == "begin"))
		e.oblige(st, "begin", u.ctor+": the filters get the pipeline and the data size", c.pos, BoolLit(sameVal(c.args[0], u.x.p) && sameVal(c.args[2], u.size)))
		e.oblige(st, "begin", u.ctor+": the filters learn the kind of their node", c.pos, Eq(c.args[1].(*Term), IntLit(ctorKind(u.ctor))))
		fs, ok := c.args[3].(SliceV)
		if !ok {
			e.unsup("filters are %T", c.args[3])
		}
		e.oblige(st, "begin", u.ctor+": all filters of the node are composed, in order", c.pos, d.sameSeq(fs, u.filters, st, st))
		st.ghost["composed"] = Add(st.g("composed"), IntLit(1))
		T := cf.Signature.Results()
		u.R = e.symVal(st, T.At(0).Type(), "receivers").(SliceV)
		u.F = e.symVal(st, T.At(1).Type(), "finalizers").(SliceV)
		nilFacts(st, u.R, u.F)
		return c.ret(u.R, u.F)
	}
	// ---- feed by contract
	e.contr[findFeed(d)] = func(e *Engine, c *CallCtx) []Outcome {
		st := c.st
		ob := func(tag, desc string, g *Term) { e.oblige(st, tag, u.ctor+": "+desc, c.pos, g) }
		rs, ok := c.args[1].(SliceV)
		if !ok {
			e.unsup("receivers are %T", c.args[1])
		}
		idx, seq, data := c.args[2].(*Term), c.args[3].(*Term), box(c.args[4])
		ob("batch", "batches go through the receivers of the node", And(BoolLit(sameVal(c.args[0], u.x.p)), d.sameSeq(rs, u.R, st, st)))
		ob("overlap", "batches are processed by the goroutines of the node", BoolLit(u.phase == "worker" || u.phase == "feed" && u.ctor == "Par"))
		ob("lock", "no lock is held while a batch is processed", BoolLit(len(st.thread().Locks) == 0))
		if u.ctor == "Ord" {
			next := st.g("next")
			ob("order", "batches are processed in encounter order", Eq(seq, next))
			ob("batch", "only received batches are processed", Select(st.g("got"), seq))
			ob("batch", "every batch is processed with its own data and index", And(Eq(idx, u.index), Eq(data, Dfun(seq))))
			st.ghost["next"] = Add(next, IntLit(1))
		} else {
			ob("batch", "each received batch is processed once", is1(st, "pend"))
			ob("batch", "every batch is processed with its own data, index and sequence number", And(Eq(idx, u.index), Eq(seq, st.g("bseq")), Eq(data, Dfun(st.g("bseq")))))
			setIf(st, "pend", 0)
		}
		// the receivers can take any time: others can change the state of the node
		return c.ret()
	}
	// ---- goroutines
	e.onTask = func(e *Engine, st *State, cal callee, pos token.Pos) ([]Outcome, bool) {
		e.oblige(st, "overlap", u.ctor+": goroutines are started by Begin only", pos, BoolLit(u.phase == "begin" || u.phase == "feed" && u.ctor == "Par"))
		st.ghost["spawned"] = Add(st.g("spawned"), IntLit(1))
		if e.quiet == 0 {
			u.tasks = append(u.tasks, task{st.clone(), cal, pos})
		}
		return []Outcome{{st: st}}, true
	}
	wgKey := func() string { return locKey(d.fieldPtr(u.T, u.node, u.fld("waitGroup"))) }
	e.onDone = func(c *CallCtx, k string) {
		e.oblige(c.st, "final", u.ctor+": Done is called on the wait group of the node", c.pos, BoolLit(k == wgKey()))
		c.st.ghost["dones"] = Add(c.st.g("dones"), IntLit(1))
		u.exitCheck(c.st, c.pos)
	}
	e.models["(*sync.WaitGroup).Wait"] = func(e *Engine, c *CallCtx) []Outcome {
		e.oblige(c.st, "final", u.ctor+": End waits for the goroutines of the node", c.pos, BoolLit(u.phase == "end" && locKey(c.args[0]) == wgKey()))
		if u.chn != nil {
			e.oblige(c.st, "final", u.ctor+": the channel is closed before End waits", c.pos, is1(c.st, "closed"))
		}
		setIf(c.st, "waited", 1)
		return c.ret()
	}
	// ---- channel
	installChans(e, &ChanHooks{
		recv: func(st *State, ch Val, T types.Type, pos token.Pos) []res {
			e.oblige(st, "batch", u.ctor+": batches are received from the channel of the node", pos, BoolLit(u.phase == "worker" && u.chn != nil && sameVal(ch, u.chn)))
			if u.phase != "worker" || u.chn == nil || !sameVal(ch, u.chn) {
				e.unsup("receive from an unexpected channel")
			}
			e.oblige(st, "batch", u.ctor+": a batch is processed before the next one is received", pos, is0(st, "pend"))
			if u.locked() {
				e.oblige(st, "wake", u.ctor+": waiting feeders are woken up after each step", pos, is0(st, "needB"))
				e.oblige(st, "strict", u.ctor+": the next batch is admitted before the goroutine receives again", pos, is0(st, "tk"))
			}
			end := st.clone()
			setIf(end, "closed", 1)
			if u.ctor == "Ord" {
				K := e.fresh("K", SInt)
				k := freshBound("k", SInt)
				end.assume(Le(IntLit(0), K), Forall([]*Term{k}, Eq(Select(end.g("got"), k), And(Le(IntLit(0), k), Lt(k, K))), []*Term{Select(end.g("got"), k)}))
				end.assume(Eq(Select(end.g("got"), end.g("next")), And(Le(IntLit(0), end.g("next")), Lt(end.g("next"), K))))
				end.ghost["K"] = K
			}
			k := e.fresh("seqNo", SInt)
			st.assume(Le(IntLit(0), k), Le(k, IntLitS("4611686018427387904")))
			data := Dfun(k)
			vals := map[string]Val{"index": u.index, "seqNo": k, "data": data}
			bv, ok := e.zeroT(T).(StructV)
			if !ok || len(bv.Fields) != len(u.roles) {
				e.unsup("batches are %s", T)
			}
			fs := make([]Val, len(bv.Fields))
			for i, r := range u.roles {
				fs[i] = vals[r]
			}
			if u.ctor == "Ord" {
				got := st.g("got")
				st.assume(Not(Select(got, k)))
				st.ghost["got"] = Store(got, k, True)
			} else {
				setIf(st, "pend", 1)
				st.ghost["bseq"] = k
				if u.locked() {
					setIf(st, "tk", 1)
				}
			}
			return []res{{st: st, val: TupleV{StructV{bv.Typ, fs}, True}}, {st: end, val: TupleV{e.zeroT(T), False}}}
		},
		send: func(st *State, ch, v Val, pos token.Pos) []res {
			ok := u.phase == "feed" && u.chn != nil && sameVal(ch, u.chn)
			e.oblige(st, "batch", u.ctor+": Feed sends on the channel of the node", pos, BoolLit(ok))
			if !ok {
				return one(st, nil)
			}
			e.oblige(st, "batch", u.ctor+": Feed sends the batch only once", pos, is0(st, "sends"))
			sv, isS := v.(StructV)
			if !isS {
				e.unsup("Feed sends %T", v)
			}
			roles := make([]string, len(sv.Fields))
			n := map[string]int{}
			for i, f := range sv.Fields {
				t := box(f)
				switch {
				case e.proves(st, Eq(t, box(u.index))):
					roles[i] = "index"
				case e.proves(st, Eq(t, box(st.g("seq")))):
					roles[i] = "seqNo"
				case e.proves(st, Eq(t, Dfun(st.g("seq")))):
					roles[i] = "data"
				}
				n[roles[i]]++
			}
			good := n["index"] == 1 && n["seqNo"] == 1 && n["data"] == 1 && len(roles) == 3
			e.oblige(st, "batch", u.ctor+": Feed sends its index, sequence number and data", pos, BoolLit(good))
			if !good {
				e.unsup("the fields of a batch are not known")
			}
			if u.roles != nil && strings.Join(u.roles, ",") != strings.Join(roles, ",") {
				e.oblige(st, "batch", u.ctor+": Feed sends its index, sequence number and data", pos, False)
			}
			u.roles = roles
			if u.locked() {
				e.oblige(st, "strict", u.ctor+": a batch is sent only when it is its turn, with the lock held", pos, And(BoolLit(u.holds(st)), Eq(u.runVal(st), st.g("seq"))))
			}
			setIf(st, "sends", 1)
			return one(st, nil)
		},
		closed: func(st *State, ch Val, pos token.Pos) {
			e.oblige(st, "final", u.ctor+": the channel of the node is closed once, by End", pos, And(BoolLit(u.phase == "end" && u.chn != nil && sameVal(ch, u.chn)), is0(st, "closed")))
			setIf(st, "closed", 1)
		},
		done: func(st *State, pos token.Pos) { setIf(st, "canceled", 1) },
		notDone: func(st *State, pos token.Pos) {
			if u.locked() && u.holds(st) {
				setIf(st, "polled", 1)
			}
		},
		block: func(st *State, hasDone bool, what string, pos token.Pos) {
			e.oblige(st, "cancel", u.ctor+": blocking operations also wait for the cancelation of the pipeline", pos, BoolLit(hasDone))
			if u.phase == "worker" {
				e.oblige(st, "lock", u.ctor+": no lock is held while a goroutine waits for batches", pos, BoolLit(len(st.thread().Locks) == 0))
			}
		},
	})
	// ---- condition variable
	condModels(d, func(c *CallCtx, cond Val) {
		st := c.st
		e.oblige(st, "lock", u.ctor+": Wait is called with the lock held", c.pos, BoolLit(u.locked() && u.holds(st)))
		if !u.locked() {
			e.unsup("condition variable in an unexpected node")
		}
		e.oblige(st, "cancel", u.ctor+": Feed waits only if the pipeline was not canceled when last checked with the lock held", c.pos, is1(st, "polled"))
		if u.phase == "feed" {
			e.oblige(st, "wake", u.ctor+": Feed waits only for its turn", c.pos, Ne(u.runVal(st), st.g("seq")))
		} else {
			e.oblige(st, "wake", u.ctor+": only Feed waits on the condition variable", c.pos, False)
		}
		setIf(st, "polled", 0)
		st.ghost["runA"] = d.havocField(st, u.node, "run")
	}, func(c *CallCtx, cond Val, all bool) {
		if !all {
			// Signal wakes up an arbitrary waiter only
			return
		}
		st := c.st
		setIf(st, "needB", 0)
		if u.holds(st) {
			setIf(st, "bc", 1)
		}
		st.ghost["cancelB"] = Ite(is1(st, "lockedAfterDone"), IntLit(1), st.g("cancelB"))
	})
	e.onLock = func(c *CallCtx, k string, acquire bool) {
		st := c.st
		if !u.locked() || k != u.lockKey {
			return
		}
		if acquire {
			v := d.havocField(st, u.node, "run")
			if u.phase == "worker" {
				// the batch of this goroutine was sent under the lock when it was
				// its turn, and only this goroutine moves on after that
				st.assume(Implies(is1(st, "tk"), Eq(v, st.g("bseq"))))
				st.ghost["lockedAfterDone"] = Ite(is1(st, "canceled"), IntLit(1), st.g("lockedAfterDone"))
			}
			st.ghost["runA"] = v
			setIf(st, "bc", 0)
			return
		}
		setIf(st, "polled", 0)
		now, old := u.runVal(st), st.g("runA")
		if now == old || e.proves(st, Eq(now, old)) {
			return
		}
		e.oblige(st, "strict", u.ctor+": the turn moves on by one, for a received batch, under the lock", c.pos, And(BoolLit(u.phase == "worker"), is1(st, "tk"), Eq(now, Add(st.g("bseq"), IntLit(1)))))
		setIf(st, "tk", 0)
		// a broadcast anywhere in the critical section will do: those that are
		// woken up have to wait for the lock
		st.ghost["needB"] = Ite(is1(st, "bc"), IntLit(0), IntLit(1))
	}
	// ---- frame: what may be written, and when
	e.onAccess = func(st *State, a Access, pos token.Pos) {
		if u.node.Obj == 0 || a.Obj != u.node.Obj || a.Atomic || u.phase == "begin" || u.phase == "" {
			return
		}
		if u.locked() && a.Path == u.runPath {
			e.oblige(st, "frame", u.ctor+": "+rw(a)+" of the turn happens with the lock held", pos, BoolLit(u.holds(st)))
			if a.Write {
				e.oblige(st, "strict", u.ctor+": only the goroutines of the node move the turn", pos, BoolLit(u.phase == "worker"))
			}
			return
		}
		if a.Write {
			e.oblige(st, "frame", u.ctor+": the node is not modified while its goroutines run", pos, And(BoolLit(u.phase == "end"), is1(st, "waited")))
		}
	}
	e.opaque = func(e *Engine, c *CallCtx, g *Term) ([]Outcome, bool) {
		st := c.st
		if u.phase != "end" || g == u.x.cancel {
			return nil, false
		}
		n := st.g("fin")
		e.oblige(st, "final", u.ctor+": finalizers run after all receivers", c.pos, is1(st, "waited"))
		e.oblige(st, "final", u.ctor+": each finalizer runs once, in order", c.pos, And(Lt(n, u.F.Len), Eq(g, Select(e.arrOf(st, u.F), Add(u.F.Off, n)))))
		st.ghost["fin"] = Add(n, IntLit(1))
		return c.ret(), true
	}
	e.cands = func(e *Engine, lc *LoopCtx) []Cand {
		var out []Cand
		add := func(n string, f func(v *View) *Term) { out = append(out, Cand{n, f}) }
		if u.locked() && u.phase == "feed" {
			add("run", func(v *View) *Term { return Implies(BoolLit(u.holds(v.st)), Eq(u.runVal(v.st), v.st.g("runA"))) })
		}
		if u.ctor != "Ord" || u.phase != "worker" {
			return out
		}
		for k := range lc.mods {
			id, path := splitLoc(k)
			o := lc.entrySt.heap[id]
			if o == nil || o.Kind != kMap || path != "" {
				continue
			}
			obj := func(v *View) *Obj { return v.st.heap[id] }
			bv := func() *Term { return freshBound("k", SInt) }
			pat := func(v *View, k *Term) []*Term { return []*Term{Select(obj(v).Has, k)} }
			add(k+" got", func(v *View) *Term {
				k := bv()
				return Forall([]*Term{k}, Eq(Select(v.st.g("got"), k), Or(And(Le(IntLit(0), k), Lt(k, v.st.g("next"))), And(Le(v.st.g("next"), k), Select(obj(v).Has, k)))), pat(v, k), []*Term{Select(v.st.g("got"), k)})
			})
			add(k+" has", func(v *View) *Term {
				k := bv()
				return Forall([]*Term{k}, Implies(Select(obj(v).Has, k), And(Le(IntLit(0), k), Le(k, maxSeq))), pat(v, k))
			})
			add(k+" above", func(v *View) *Term {
				k := bv()
				return Forall([]*Term{k}, Implies(Select(obj(v).Has, k), Le(v.st.g("next"), k)), pat(v, k))
			})
			add(k+" not next", func(v *View) *Term { return Not(Select(obj(v).Has, v.st.g("next"))) })
			add(k+" next", func(v *View) *Term {
				return And(Le(IntLit(0), v.st.g("next")), Le(v.st.g("next"), Add(maxSeq, IntLit(1))))
			})
			add(k+" val", func(v *View) *Term {
				k := bv()
				return Forall([]*Term{k}, Implies(Select(obj(v).Has, k), Eq(Select(obj(v).Arr, k), Dfun(k))), pat(v, k))
			})
			var elem types.Type
			if m, ok := under(o.Typ).(*types.Map); ok {
				elem = m.Elem()
			}
			// what a map entry has to be, by sort
			want := func(s Sort, seq *Term) []*Term {
				if s == SInt {
					return []*Term{seq, u.index}
				} else if s == SU {
					return []*Term{Dfun(seq)}
				}
				return nil
			}
			if ss := structSorts(elem); ss != nil {
				for i, s := range ss {
					for j := range want(s, z0) {
						i, s, j := i, s, j
						add(fmt.Sprintf("%s field %d.%d", k, i, j), func(v *View) *Term {
							k := bv()
							return Forall([]*Term{k}, Implies(Select(obj(v).Has, k), Eq(fieldOf(elem, i, s, Select(obj(v).Arr, k)), want(s, k)[j])), pat(v, k))
						})
					}
				}
			}
			// a lookup whose result is carried around the loop
			for p := range lc.entry.phis {
				p := p
				s, ok := scalarSort(p.Type())
				if !ok {
					if ss := structSorts(p.Type()); ss != nil {
						for i, s := range ss {
							for j := range want(s, z0) {
								i, s, j := i, s, j
								add(fmt.Sprintf("%s %s field %d.%d", k, p.Name(), i, j), func(v *View) *Term {
									x, ok := v.phis[p].(StructV)
									if !ok || len(x.Fields) != len(ss) {
										return nil
									}
									return Implies(Select(obj(v).Has, v.st.g("next")), Eq(e.toElem(x.Fields[i], s), want(s, v.st.g("next"))[j]))
								})
							}
						}
					}
					continue
				}
				get := func(v *View) *Term { t, _ := v.phis[p].(*Term); return t }
				if s == SBool {
					add(k+" found "+p.Name(), func(v *View) *Term {
						return nn(get(v), func(t *Term) *Term { return Eq(t, Select(obj(v).Has, v.st.g("next"))) })
					})
				} else if s == SU {
					add(k+" carried "+p.Name(), func(v *View) *Term {
						return nn(get(v), func(t *Term) *Term {
							return Implies(Select(obj(v).Has, v.st.g("next")), Eq(t, Dfun(v.st.g("next"))))
						})
					})
				}
			}
		}
		return out
	}
}

// exitCheck: what a goroutine of the node must have done when it ends.
func (u *NodeUnit) exitCheck(st *State, pos token.Pos) {
	e := u.e
	canceled := is1(st, "canceled")
	e.oblige(st, "batch", u.ctor+": a goroutine ends only when every batch it received was processed, or on cancelation", pos, Or(canceled, is0(st, "pend")))
	if u.ctor == "Ord" {
		K := st.ghost["K"]
		if K == nil {
			K = IntLit(-1)
		}
		e.oblige(st, "batch", "Ord: every batch was processed when the channel is closed", pos, Or(canceled, Eq(st.g("next"), K)))
	}
	if u.locked() {
		e.oblige(st, "cancel", u.ctor+": waiting feeders are woken up when the pipeline is canceled", pos, Implies(canceled, is1(st, "cancelB")))
		e.oblige(st, "wake", u.ctor+": waiting feeders are woken up after each step", pos, Or(canceled, is0(st, "needB")))
	}
}

// feedPhase: one call of Feed, while others and the goroutines of the node run.
func (u *NodeUnit) feedPhase(st *State) {
	d, e := u.d, u.e
	u.phase = "feed"
	seq := e.symVal(st, types.Typ[types.Int], "seq").(*Term)
	st.assume(Le(IntLit(0), seq), Le(seq, IntLitS("4611686018427387904")))
	st.ghost["seq"], st.ghost["bseq"] = seq, seq
	setIf(st, "sends", 0)
	setIf(st, "spawned", 0)
	setIf(st, "pend", 0)
	if u.ctor == "Par" {
		setIf(st, "pend", 1)
	}
	wg0 := e.symVal(st, types.Typ[types.Int], "wg").(*Term)
	st.assume(Le(IntLit(0), wg0), Le(wg0, IntLitS("4611686018427387904")))
	q := d.fieldPtr(u.T, u.node, u.fld("waitGroup"))
	st.ghost["wg:"+locKey(q)] = wg0
	wgKey := "wg:" + locKey(q)
	outs := d.must(st, "batch", u.ctor+".Feed", d.methodOf(st, u.node, "Feed"), u.node, u.x.p, u.index, seq, Dfun(seq))
	for _, o := range outs {
		s := o.st
		canceled := is1(s, "canceled")
		u.ob(s, "lock", "Feed holds no lock when it returns", BoolLit(len(s.thread().Locks) == 0))
		if u.ctor == "Par" {
			u.ob(s, "batch", "Feed hands the batch to exactly one goroutine", Or(canceled, And(is1(s, "spawned"), is1(s, "pend")), And(is0(s, "spawned"), is0(s, "pend"))))
			u.ob(s, "final", "the goroutine of a batch is counted in the wait group", Eq(s.ghost[wgKey], Add(wg0, s.g("spawned"))))
			continue
		}
		u.ob(s, "batch", "Feed sends the batch exactly once, or the pipeline is canceled", Or(is1(s, "sends"), And(canceled, is0(s, "sends"))))
	}
	for _, t := range u.tasks {
		u.ob(t.st, "final", "the goroutine of a batch is counted in the wait group before it starts", Eq(t.st.ghost[wgKey], Add(wg0, t.st.g("spawned"))))
	}
	d.reach(u.ctor+".Feed", outs)
}

func (u *NodeUnit) workerPhase(t task, oneBatch bool) int {
	d, e := u.d, u.e
	u.phase = "worker"
	s := t.st.clone()
	id := e.newThread(s, "goroutine of the node")
	s.cur = id
	if !oneBatch {
		setIf(s, "pend", 0)
		if u.roles == nil {
			e.unsup("Feed sends no batch")
		}
	}
	for _, g := range []string{"canceled", "closed", "dones", "tk", "needB", "cancelB", "lockedAfterDone", "polled", "bc"} {
		setIf(s, g, 0)
	}
	s.assume(Le(IntLit(0), u.index), Le(u.index, IntLitS("4611686018427387904")))
	s.ghost["got"], s.ghost["next"] = e.fresh("got", arr(SBool)), IntLit(0)
	k := freshBound("k", SInt)
	s.assume(Forall([]*Term{k}, Not(Select(s.g("got"), k)), []*Term{Select(s.g("got"), k)}))
	s.ghost["K"] = IntLit(-1)
	if !oneBatch {
		s.ghost["bseq"] = IntLit(-1)
	}
	n := 0
	outs := e.call(s, nil, t.cal, t.pos, 0)
	for _, o := range outs {
		if o.panic {
			u.ob(o.st, "batch", "a goroutine of the node does not panic", False)
			continue
		}
		n++
		u.ob(o.st, "final", "a goroutine of the node calls Done once, at its end", is1(o.st, "dones"))
		u.ob(o.st, "lock", "a goroutine of the node holds no lock when it ends", BoolLit(len(o.st.thread().Locks) == 0))
		u.exitCheck(o.st, token.NoPos)
	}
	d.reach(u.ctor+": end of the goroutine", outs)
	return n
}

func (u *NodeUnit) endPhase(st *State) {
	d, e := u.d, u.e
	u.phase = "end"
	for _, g := range []string{"closed", "waited", "fin"} {
		setIf(st, g, 0)
	}
	_ = e
	outs := d.must(st, "final", u.ctor+".End", d.methodOf(st, u.node, "End"), u.node)
	for _, o := range outs {
		u.ob(o.st, "final", "End waits for the goroutines of the node", is1(o.st, "waited"))
		u.ob(o.st, "final", "End runs all finalizers", Eq(o.st.g("fin"), u.F.Len))
	}
	d.reach(u.ctor+".End", outs)
}

// ---- feed: a batch goes through all receivers in order, then to the next node.

func feedDriver(d *Driver) {
	e := d.e
	fn := findFeed(d)
	I := types.Typ[types.Int]
	st := newState()
	x := d.pipe(st)
	rs := e.symVal(st, fn.Params[1].Type(), "receivers").(SliceV)
	nilFacts(st, rs, x.nodes)
	RA := st.heap[rs.Obj].Arr
	index := e.symVal(st, I, "index").(*Term)
	seq := e.symVal(st, I, "seq").(*Term)
	st.assume(Le(IntLit(0), index), Lt(index, x.nodes.Len))
	data := e.fresh("data", SU)
	setIf(st, "rn", 0)
	setIf(st, "fwd", 0)
	st.ghost["cur"] = data
	e.opaque = func(e *Engine, c *CallCtx, g *Term) ([]Outcome, bool) {
		st := c.st
		n := st.g("rn")
		e.oblige(st, "batch", "each receiver is called once, in order", c.pos, And(Lt(n, rs.Len), Eq(g, Select(RA, Add(rs.Off, n)))))
		e.oblige(st, "batch", "a receiver gets the sequence number and what the receiver before it returned", c.pos, And(Eq(c.args[0].(*Term), seq), Eq(box(c.args[1]), st.g("cur"))))
		e.oblige(st, "batch", "a batch is forwarded after all receivers", c.pos, is0(st, "fwd"))
		st.ghost["rn"] = Add(n, IntLit(1))
		r := e.fresh("out", SU)
		st.ghost["cur"] = r
		return c.ret(r), true
	}
	e.invoke = func(e *Engine, c *CallCtx, recv Val, m *types.Func) ([]Outcome, bool) {
		if m.Name() != "Feed" {
			return nil, false
		}
		st := c.st
		n := Add(index, IntLit(1))
		e.oblige(st, "batch", "a batch is forwarded after all receivers", c.pos, And(is0(st, "fwd"), Eq(st.g("rn"), rs.Len)))
		e.oblige(st, "batch", "a batch is forwarded to the next node, with its index", c.pos, And(Lt(n, x.nodes.Len), Eq(box(recv), Select(x.NA, Add(x.nodes.Off, n))), BoolLit(sameVal(c.args[0], x.p)), Eq(c.args[1].(*Term), n)))
		e.oblige(st, "batch", "a batch is forwarded with its sequence number and the data of the last receiver", c.pos, And(Eq(c.args[2].(*Term), seq), Eq(box(c.args[3]), st.g("cur"))))
		st.ghost["fwd"] = Add(st.g("fwd"), IntLit(1))
		return c.ret(), true
	}
	outs := d.must(st, "batch", "feed", fn, x.p, rs, index, seq, data)
	for _, o := range outs {
		d.ob(o.st, "batch", "every receiver is called", Eq(o.st.g("rn"), rs.Len))
		d.ob(o.st, "batch", "every batch is forwarded exactly once, if there is a next node", Eq(o.st.g("fwd"), Ite(Lt(Add(index, IntLit(1)), x.nodes.Len), IntLit(1), IntLit(0))))
	}
	d.reach("feed", outs)
}

// ---- ComposeFilters: every filter is called once, in order; the non-nil
// receivers and finalizers are collected in order.

func composeDriver(d *Driver) {
	e := d.e
	fn := d.fn("pipeline.ComposeFilters")
	I := types.Typ[types.Int]
	st := newState()
	x := d.pipe(st)
	fs := e.symVal(st, fn.Params[3].Type(), "filters").(SliceV)
	nilFacts(st, fs)
	FA := st.heap[fs.Obj].Arr
	kind := e.symVal(st, I, "kind").(*Term)
	size := d.variable(st, I, "dataSize", e.symVal(st, I, "size"))
	setIf(st, "fc", 0)
	setIf(st, "rl", 0)
	setIf(st, "fl", 0)
	st.ghost["RS"], st.ghost["FS"] = e.fresh("RS", arr(SU)), e.fresh("FS", arr(SU))
	e.opaque = func(e *Engine, c *CallCtx, g *Term) ([]Outcome, bool) {
		st := c.st
		k := st.g("fc")
		e.oblige(st, "begin", "each filter is called once, in order", c.pos, And(Lt(k, fs.Len), Eq(g, Select(FA, Add(fs.Off, k)))))
		e.oblige(st, "begin", "a filter gets the pipeline, the kind of the node and the data size", c.pos, And(BoolLit(sameVal(c.args[0], x.p) && sameVal(c.args[2], size)), Eq(c.args[1].(*Term), kind)))
		r, f := e.fresh("rcv", SU), e.fresh("fin", SU)
		st.ghost["fc"] = Add(k, IntLit(1))
		d.havocLoc(st, size.loc())
		for _, cl := range e.colls {
			cl.writes[size.loc()] = true
		}
		var outs []Outcome
		for i := 0; i < 4; i++ {
			s := st.clone()
			for j, v := range []*Term{r, f} {
				arr, n := []string{"RS", "FS"}[j], []string{"rl", "fl"}[j]
				if i&(1<<j) == 0 {
					s.assume(Eq(v, nilU))
					continue
				}
				s.assume(Ne(v, nilU))
				s.ghost[arr] = Store(s.g(arr), s.g(n), v)
				s.ghost[n] = Add(s.g(n), IntLit(1))
			}
			outs = append(outs, Outcome{st: s, vals: []Val{r, f}})
		}
		return outs, true
	}
	same := func(st *State, s SliceV, arr, n string) *Term {
		if s.Obj == 0 {
			return Eq(st.g(n), IntLit(0))
		}
		i := freshBound("i", SInt)
		return And(Eq(s.Len, st.g(n)), Forall([]*Term{i}, Implies(And(Le(IntLit(0), i), Lt(i, s.Len)), Eq(Select(e.arrOf(st, s), Add(s.Off, i)), Select(st.g(arr), i)))))
	}
	e.cands = func(e *Engine, lc *LoopCtx) []Cand {
		var out []Cand
		for n, get := range sliceVars(lc) {
			get := get
			for _, g := range [][2]string{{"RS", "rl"}, {"FS", "fl"}} {
				g := g
				out = append(out, Cand{fmt.Sprint("list", n, g[0]), func(v *View) *Term {
					s, ok := get(v)
					if !ok {
						return False
					}
					return same(v.st, s, g[0], g[1])
				}})
			}
		}
		return out
	}
	outs := d.must(st, "begin", "ComposeFilters", fn, x.p, kind, size, fs)
	for _, o := range outs {
		d.ob(o.st, "begin", "every filter is called", Eq(o.st.g("fc"), fs.Len))
		for i, g := range [][2]string{{"RS", "rl"}, {"FS", "fl"}} {
			s, ok := o.vals[i].(SliceV)
			if !ok {
				e.unsup("result of ComposeFilters is %T", o.vals[i])
			}
			nilFacts(o.st, s)
			d.ob(o.st, "begin", []string{"all non-nil receivers are collected in order", "all non-nil finalizers are collected in order"}[i], same(o.st, s, g[0], g[1]))
		}
	}
	d.reach("ComposeFilters", outs)
}
