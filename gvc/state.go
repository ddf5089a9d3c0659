package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

type objKind int

const (
	kVar   objKind = iota // a variable of any type: Val
	kArrC                 // array of concrete length: Elems
	kArrS                 // array with symbolic content: Arr
	kMap                  // map: Arr (Array Int/U elem) and Has
	kChan                 // channel
	kColl                 // abstract sortable collection (psort)
	kOpaqu                // other engine-specific
)

// Obj is an immutable version of a heap object.
type Obj struct {
	ID     int
	Name   string
	Kind   objKind
	Typ    types.Type // kVar: type of the variable; arrays: element type
	Val    Val
	Elems  []Val
	Arr    *Term
	Has    *Term
	Len    *Term
	Owner  int // thread that created it
	Extra  map[string]*Term
	Global bool
}

func (o *Obj) clone() *Obj { c := *o; return &c }

type pcNode struct {
	t    *Term
	next *pcNode
	n    int
}

// Access is one entry of the access log of a thread.
type Access struct {
	Obj    int
	Path   string
	Lo, Hi *Term // element range for arrays, nil for the whole cell
	Write  bool
	Atomic bool
	Locks  []string
	Guard  []*Term // only for summarised accesses: constraints on its fresh symbols
	Where  string
}

// Thread is one thread of control with its vector clock.
type Thread struct {
	ID     int
	Parent int
	Known  map[int]int      // how many log entries of each thread happen before now
	Own    map[string]*Term // ghost counters of this thread
	Joined map[int]map[string]*Term
	Log    []Access
	Locks  []string
	Name   string
}

func (t *Thread) clone() *Thread {
	c := *t
	c.Known = map[int]int{}
	for k, v := range t.Known {
		c.Known[k] = v
	}
	c.Own = map[string]*Term{}
	for k, v := range t.Own {
		c.Own[k] = v
	}
	c.Joined = map[int]map[string]*Term{}
	for k, v := range t.Joined {
		c.Joined[k] = v
	}
	c.Log = t.Log[:len(t.Log):len(t.Log)]
	c.Locks = append([]string(nil), t.Locks...)
	return &c
}

// WG is the state of a sync.WaitGroup.
type WG struct {
	Count  *Term
	Known  map[int]int
	Joined map[int]map[string]*Term
}

type State struct {
	pc    *pcNode
	heap  map[int]*Obj
	ghost map[string]*Term
	thr   map[int]*Thread
	cur   int
	ntid  int
	wgs   map[string]*WG
	pslot map[int]Val // panicking value of active frames running deferred calls
	trace []string
	tasks int            // number of tasks ever spawned on this path
	mem   map[string]Val // engine memo (per path)
	dead  bool
}

func newState() *State {
	st := &State{heap: map[int]*Obj{}, ghost: map[string]*Term{}, thr: map[int]*Thread{}, wgs: map[string]*WG{}, pslot: map[int]Val{}, mem: map[string]Val{}}
	st.thr[0] = &Thread{ID: 0, Parent: -1, Known: map[int]int{}, Own: map[string]*Term{}, Joined: map[int]map[string]*Term{}, Name: "main"}
	st.ntid = 1
	return st
}

func (s *State) clone() *State {
	c := *s
	c.heap = make(map[int]*Obj, len(s.heap))
	for k, v := range s.heap {
		c.heap[k] = v
	}
	c.ghost = make(map[string]*Term, len(s.ghost))
	for k, v := range s.ghost {
		c.ghost[k] = v
	}
	c.thr = make(map[int]*Thread, len(s.thr))
	for k, v := range s.thr {
		c.thr[k] = v
	}
	c.wgs = make(map[string]*WG, len(s.wgs))
	for k, v := range s.wgs {
		c.wgs[k] = v
	}
	c.pslot = make(map[int]Val, len(s.pslot))
	for k, v := range s.pslot {
		c.pslot[k] = v
	}
	c.mem = make(map[string]Val, len(s.mem))
	for k, v := range s.mem {
		c.mem[k] = v
	}
	c.trace = s.trace[:len(s.trace):len(s.trace)]
	return &c
}

func (s *State) assume(ts ...*Term) {
	for _, t := range ts {
		if t == True || t == nil {
			continue
		}
		if t.Op == "and" {
			s.assume(t.Args...)
			continue
		}
		if s.hasFact(t) {
			continue
		}
		n := 1
		if s.pc != nil {
			n = s.pc.n + 1
		}
		s.pc = &pcNode{t, s.pc, n}
		if t == False {
			s.dead = true
		}
	}
}

func (s *State) hasFact(t *Term) bool {
	for n := s.pc; n != nil; n = n.next {
		if n.t == t {
			return true
		}
	}
	return false
}

func (s *State) facts() []*Term {
	var out []*Term
	for n := s.pc; n != nil; n = n.next {
		out = append(out, n.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (s *State) factsSince(n0 *pcNode) []*Term {
	var out []*Term
	for n := s.pc; n != nil && n != n0; n = n.next {
		out = append(out, n.t)
	}
	return out
}

func (s *State) thread() *Thread { return s.thr[s.cur] }
func (s *State) modThread(id int) *Thread {
	t := s.thr[id].clone()
	s.thr[id] = t
	return t
}

// total value of a ghost counter known to have happened before now in thread id
func (s *State) total(name string, id int) *Term {
	t := s.thr[id]
	sum := IntLit(0)
	if v := t.Own[name]; v != nil {
		sum = v
	}
	ids := make([]int, 0, len(t.Joined))
	for k := range t.Joined {
		ids = append(ids, k)
	}
	sort.Ints(ids)
	for _, k := range ids {
		if v := t.Joined[k][name]; v != nil {
			sum = Add(sum, v)
		}
	}
	return sum
}

func (s *State) addOwn(name string, d *Term) {
	t := s.modThread(s.cur)
	if v := t.Own[name]; v != nil {
		t.Own[name] = Add(v, d)
	} else {
		t.Own[name] = d
	}
}

func (s *State) g(name string) *Term {
	if v := s.ghost[name]; v != nil {
		return v
	}
	return IntLit(0)
}

func (s *State) note(format string, a ...any) {
	s.trace = append(s.trace, fmt.Sprintf(format, a...))
}

// Outcome is one way a computation can end.
type Outcome struct {
	st    *State
	panic bool
	pval  Val
	vals  []Val
}

func mergeKnown(a map[int]int, b map[int]int) map[int]int {
	m := map[int]int{}
	for k, v := range a {
		m[k] = v
	}
	for k, v := range b {
		if v > m[k] {
			m[k] = v
		}
	}
	return m
}

func mergeJoined(a, b map[int]map[string]*Term, self int) map[int]map[string]*Term {
	m := map[int]map[string]*Term{}
	for k, v := range a {
		m[k] = v
	}
	for k, v := range b {
		if k == self {
			continue
		}
		if _, ok := m[k]; !ok {
			m[k] = v
		}
	}
	return m
}

func posStr(fset *token.FileSet, p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	ps := fset.Position(p)
	f := ps.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}
