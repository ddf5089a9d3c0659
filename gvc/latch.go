package main

// Channels that tasks of the function under verification use among themselves
// (a latch that is closed, results that are sent): the goroutines of a function
// are run where they are started, so what has been sent or closed is known when
// it is received.

import (
	"fmt"
	"go/token"
	"go/types"
)

type chanMsg struct {
	val    Val
	known  map[int]int
	joined map[int]map[string]*Term
}

type chanQ struct {
	msgs   []chanMsg
	closed *chanMsg
}

func chanKey(e *Engine, ch Val) string {
	c, ok := ch.(ChanV)
	if !ok {
		e.unsup("channel %s", valKey(ch))
	}
	return fmt.Sprintf("chan:%d", c.Obj)
}

func (e *Engine) snapshot(st *State, v Val) chanMsg {
	t := st.thread()
	m := chanMsg{val: v, known: mergeKnown(t.Known, map[int]int{st.cur: len(t.Log)}), joined: mergeJoined(t.Joined, nil, -1)}
	m.joined[st.cur] = t.Own
	return m
}

func (e *Engine) joinMsg(st *State, m chanMsg) {
	t := st.modThread(st.cur)
	t.Known = mergeKnown(t.Known, m.known)
	t.Joined = mergeJoined(t.Joined, m.joined, st.cur)
}

func installLocalChans(e *Engine) {
	get := func(st *State, ch Val) chanQ {
		if q, ok := st.mem[chanKey(e, ch)].(*chanQ); ok {
			return *q
		}
		return chanQ{}
	}
	h := &ChanHooks{}
	h.send = func(st *State, ch, v Val, pos token.Pos) []res {
		q := get(st, ch)
		e.oblige(st, "chan", "no send on a closed channel", pos, BoolLit(q.closed == nil))
		if c, ok := e.obj(st, ch.(ChanV).Obj).Len.isInt(); len(q.msgs) > 0 && (!ok || !c.IsInt64() || int64(len(q.msgs)) >= c.Int64()) {
			e.unsup("several values are sent on a channel without room for them")
		}
		q.msgs = append(append([]chanMsg{}, q.msgs...), e.snapshot(st, v))
		st.mem[chanKey(e, ch)] = &q
		return one(st, nil)
	}
	h.closed = func(st *State, ch Val, pos token.Pos) {
		q := get(st, ch)
		e.oblige(st, "chan", "no channel is closed twice", pos, BoolLit(q.closed == nil))
		m := e.snapshot(st, nil)
		q.closed = &m
		st.mem[chanKey(e, ch)] = &q
	}
	h.recv = func(st *State, ch Val, T types.Type, pos token.Pos) []res {
		q := get(st, ch)
		e.oblige(st, "wait", "a receive terminates: something has been sent, or the channel closed", pos, BoolLit(len(q.msgs) > 0 || q.closed != nil))
		var out []res
		for i, m := range q.msgs {
			s := st
			if len(q.msgs) > 1 {
				s = st.clone()
			}
			n := chanQ{closed: q.closed}
			n.msgs = append(append(n.msgs, q.msgs[:i]...), q.msgs[i+1:]...)
			s.mem[chanKey(e, ch)] = &n
			e.joinMsg(s, m)
			out = append(out, res{st: s, val: TupleV{m.val, True}})
		}
		if len(q.msgs) == 0 && q.closed != nil {
			e.joinMsg(st, *q.closed)
			out = append(out, res{st: st, val: TupleV{e.zeroT(T), False}})
		}
		return out
	}
	installChans(e, h)
}

// sameChans: the loop iteration leaves the channels from before as they were.
func sameChans(a, b *State) bool {
	for k, v := range b.mem {
		if _, ok := v.(*chanQ); !ok {
			continue
		}
		var id int
		fmt.Sscanf(k, "chan:%d", &id)
		if a.heap[id] != nil && a.mem[k] != v {
			return false
		}
	}
	return true
}
