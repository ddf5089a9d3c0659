package main

// Channel operations, select, sync.Cond: the engine enumerates the cases, the
// driver of the unit gives their meaning.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ChanHooks is the contract of the channels a unit uses.
type ChanHooks struct {
	// recv gives the ways a receive can complete: TupleV{value, ok}.
	recv func(st *State, ch Val, T types.Type, pos token.Pos) []res
	// send completes a send.
	send func(st *State, ch, v Val, pos token.Pos) []res
	// closed is a close of the channel.
	closed func(st *State, ch Val, pos token.Pos)
	// done is the completion of a receive from the context's Done channel.
	done func(st *State, pos token.Pos)
	// notDone is a poll of the Done channel that found it open.
	notDone func(st *State, pos token.Pos)
	// block is called before a blocking operation; hasDone tells whether it
	// also waits for cancelation.
	block func(st *State, hasDone bool, what string, pos token.Pos)
}

func doneChan(ctx Val) *Term { return UF("done!ctx", SU, box(ctx)) }

func isDone(v Val) bool {
	t, ok := v.(*Term)
	return ok && t.Name == "done!ctx"
}

func installChans(e *Engine, h *ChanHooks) {
	e.models["invoke:(context.Context).Done"] = func(e *Engine, c *CallCtx) []Outcome {
		return c.ret(doneChan(c.args[0]))
	}
	// Err is nil as long as Done is open, and not nil afterwards
	ctxErr := func(e *Engine, c *CallCtx) []Outcome {
		s2 := c.st.clone()
		if h.done != nil {
			h.done(s2, c.pos)
		}
		r := e.fresh("ctxerr", SU)
		s2.assume(Ne(r, nilU))
		if h.notDone != nil {
			h.notDone(c.st, c.pos)
		}
		return []Outcome{{st: c.st, vals: []Val{nilU}}, {st: s2, vals: []Val{r}}}
	}
	e.models["invoke:(context.Context).Err"] = ctxErr
	e.models["context.Cause"] = ctxErr
	e.models["builtin:close"] = func(e *Engine, c *CallCtx) []Outcome {
		if h.closed == nil {
			e.unsup("close")
		}
		h.closed(c.st, c.args[0], c.pos)
		return c.ret()
	}
	elem := func(T types.Type) types.Type {
		if c, ok := under(T).(*types.Chan); ok {
			return c.Elem()
		}
		e.unsup("channel type %s", T)
		return nil
	}
	recv := func(st *State, ch Val, T types.Type, pos token.Pos) []res {
		if isDone(ch) {
			if h.done != nil {
				h.done(st, pos)
			}
			return one(st, TupleV{e.zeroT(elem(T)), False})
		}
		if h.recv == nil {
			e.unsup("receive from %s", valKey(ch))
		}
		return h.recv(st, ch, elem(T), pos)
	}
	e.chanop = func(e *Engine, fr *Frame, st *State, in ssa.Instruction) ([]Outcome, bool) {
		var out []Outcome
		switch in := in.(type) {
		case *ssa.MakeChan:
			id := e.newObj(st, &Obj{Name: "chan", Kind: kChan, Typ: in.Type(), Len: e.val(fr, in.Size).(*Term)})
			return []Outcome{{st: st, vals: []Val{ChanV{id}}}}, true
		case *ssa.UnOp:
			ch := e.val(fr, in.X)
			if h.block != nil {
				h.block(st, isDone(ch), "receive", in.Pos())
			}
			for _, r := range recv(st, ch, in.X.Type(), in.Pos()) {
				v := r.val
				if !in.CommaOk {
					v = r.val.(TupleV)[0]
				}
				out = append(out, Outcome{st: r.st, vals: []Val{v}})
			}
			return out, true
		case *ssa.Send:
			if h.block != nil {
				h.block(st, false, "send", in.Pos())
			}
			for _, r := range h.send(st, e.val(fr, in.Chan), e.val(fr, in.X), in.Pos()) {
				out = append(out, Outcome{st: r.st})
			}
			return out, true
		case *ssa.Select:
			hasDone := false
			nrecv := 0
			for _, s := range in.States {
				if s.Dir == types.RecvOnly {
					nrecv++
					if isDone(e.val(fr, s.Chan)) {
						hasDone = true
					}
				}
			}
			if in.Blocking && h.block != nil {
				h.block(st, hasDone, "select", in.Pos())
			}
			tuple := func(idx int, ok *Term, k int, v Val) TupleV {
				tv := TupleV{IntLit(int64(idx)), ok}
				n := 0
				for _, s := range in.States {
					if s.Dir == types.RecvOnly {
						if n == k {
							tv = append(tv, v)
						} else {
							tv = append(tv, e.zeroT(elem(s.Chan.Type())))
						}
						n++
					}
				}
				return tv
			}
			k := 0
			for i, s := range in.States {
				ch := e.val(fr, s.Chan)
				s2 := st.clone()
				if s.Dir == types.RecvOnly {
					for _, r := range recv(s2, ch, s.Chan.Type(), in.Pos()) {
						tv := r.val.(TupleV)
						out = append(out, Outcome{st: r.st, vals: []Val{tuple(i, tv[1].(*Term), k, tv[0])}})
					}
					k++
					continue
				}
				if h.send == nil {
					e.unsup("send")
				}
				for _, r := range h.send(s2, ch, e.val(fr, s.Send), in.Pos()) {
					out = append(out, Outcome{st: r.st, vals: []Val{tuple(i, False, -1, nil)}})
				}
			}
			if !in.Blocking {
				if hasDone && h.notDone != nil {
					h.notDone(st, in.Pos())
				}
				out = append(out, Outcome{st: st, vals: []Val{tuple(-1, False, -1, nil)}})
			}
			return out, true
		}
		return nil, false
	}
}

// ghost sets a ghost variable.
func (st *State) setGhost(name string, t *Term) { st.ghost[name] = t }

// havocField forgets the content of a field of a struct variable; loops see
// it as a modification.
func (d *Driver) havocField(st *State, p Ptr, name string) *Term {
	q := d.fieldPtr(d.e.obj(st, p.Obj).Typ, p, name)
	for _, c := range d.e.colls {
		c.writes[q.loc()] = true
	}
	old := d.field(st, p, name).(*Term)
	v := d.e.fresh(name, old.Sort)
	d.setField(st, p, name, v)
	return v
}

// condModels: sync.NewCond with hooks for Wait and Broadcast.
func condModels(d *Driver, wait func(c *CallCtx, cond Val), bcast func(c *CallCtx, cond Val, all bool)) {
	e := d.e
	e.models["sync.NewCond"] = func(e *Engine, c *CallCtx) []Outcome {
		T := c.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		p := d.structVar(c.st, T, "cond", map[string]Val{"L": c.args[0]})
		return c.ret(p)
	}
	e.models["(*sync.Cond).Wait"] = func(e *Engine, c *CallCtx) []Outcome { wait(c, c.args[0]); return c.ret() }
	e.models["(*sync.Cond).Broadcast"] = func(e *Engine, c *CallCtx) []Outcome { bcast(c, c.args[0], true); return c.ret() }
	e.models["(*sync.Cond).Signal"] = func(e *Engine, c *CallCtx) []Outcome { bcast(c, c.args[0], false); return c.ret() }
}
