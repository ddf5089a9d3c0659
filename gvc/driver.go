package main

// Unit drivers: contracts written against the engine directly.  A driver sets
// up the precondition (symbolic arguments, ghost state, contracts of what the
// function calls), executes the real function, and states the postcondition
// as obligations on every outcome.

import (
	"fmt"
	"go/token"
	"go/types"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Driver struct {
	P    *Program
	e    *Engine
	name string
	// values that atomic cells can have
	cells map[string][]*Term
}

var drivers = map[string]func(d *Driver){}

// driverUnit runs one driver; one engine per call of section.
func driverUnit(P *Program, name string, f func(d *Driver)) *UnitResult {
	start := time.Now()
	e := newEngine(P, name)
	d := &Driver{P: P, e: e, name: name}
	if rs := protect(e, func() { f(d) }); rs != nil {
		protect(e, func() { e.unsup("recursive function %s without contract", rs.fn) })
	}
	r := result(e, start)
	e.sol.Close()
	return r
}

// fn finds a function that the unit is about.
func (d *Driver) fn(name string) *ssa.Function {
	f := d.P.fn(name)
	if f == nil {
		d.e.unsup("function %s not found", name)
	}
	return d.e.body(f)
}

func (d *Driver) fresh(n string, s Sort) *Term { return d.e.fresh(n, s) }

// sym makes an arbitrary value of the i-th parameter of f.
func (d *Driver) sym(st *State, T types.Type, name string) Val { return d.e.symVal(st, T, name) }

// variable allocates a variable holding v and returns its address.
func (d *Driver) variable(st *State, T types.Type, name string, v Val) Ptr {
	return Ptr{Obj: d.e.newObj(st, &Obj{Name: name, Kind: kVar, Typ: T, Val: v})}
}

// structVar allocates a struct variable with zero fields, except the given ones.
func (d *Driver) structVar(st *State, T types.Type, name string, fields map[string]Val) Ptr {
	v := d.e.zeroT(T).(StructV)
	s := under(T).(*types.Struct)
	fs := append([]Val(nil), v.Fields...)
	for n, x := range fields {
		ok := false
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				fs[i] = x
				ok = true
			}
		}
		if !ok {
			d.e.unsup("%s has no field %s", T, n)
		}
	}
	return d.variable(st, T, name, StructV{v.Typ, fs})
}

// field reads a field of a struct variable without logging an access.
func (d *Driver) field(st *State, p Ptr, name string) Val {
	o := d.e.obj(st, p.Obj)
	v := getPath(o.Val, pathIdx(p.Path)).(StructV)
	s := under(v.Typ).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return v.Fields[i]
		}
	}
	d.e.unsup("%s has no field %s", v.Typ, name)
	return nil
}

func (d *Driver) fieldPtr(T types.Type, p Ptr, name string) Ptr {
	s := under(T).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			p.Path = fmt.Sprintf("%s/%d", p.Path, i)
			return p
		}
	}
	d.e.unsup("%s has no field %s", T, name)
	return p
}

// exec runs a function of the repository.
func (d *Driver) exec(st *State, fn *ssa.Function, args ...Val) []Outcome {
	return d.e.execFn(st, fn, args, nil, 0)
}

// callVal calls a function value.
func (d *Driver) callVal(st *State, f Val, args ...Val) []Outcome {
	if t, ok := f.(*Term); ok {
		f = unbox(t)
	}
	switch x := f.(type) {
	case *FuncV:
		return d.e.call(st, nil, callee{fn: x, args: args, sig: x.sig()}, token.NoPos, 0)
	case *Term:
		return d.e.call(st, nil, callee{opaque: x, args: args}, token.NoPos, 0)
	}
	d.e.unsup("call of %T", f)
	return nil
}

func (f *FuncV) sig() *types.Signature {
	if f.Fn != nil {
		return f.Fn.Signature
	}
	return nil
}

// ob states an obligation at the end of a path.
func (d *Driver) ob(st *State, tag, desc string, goal *Term) bool {
	return d.e.oblige(st, tag, desc, token.NoPos, goal)
}

// reach states that some path gets here (a vacuity guard): call it with the outcomes.
func (d *Driver) reach(what string, outs []Outcome) {
	n := 0
	for _, o := range outs {
		if d.e.query(o.st) != Unsat {
			n++
		}
	}
	d.e.oblige(newState(), "vacuity", what+" is reachable under the assumptions", token.NoPos, BoolLit(n > 0))
}

func split(outs []Outcome) (normal, panics []Outcome) {
	for _, o := range outs {
		if o.panic {
			panics = append(panics, o)
		} else {
			normal = append(normal, o)
		}
	}
	return
}

// tparams gives the receiver type arguments (type parameters) of a method.
func recvType(fn *ssa.Function) types.Type {
	T := fn.Params[0].Type()
	if p, ok := under(T).(*types.Pointer); ok {
		return p.Elem()
	}
	return T
}

func (d *Driver) eq(a, b Val, T types.Type) *Term { return d.e.equal(newState(), a, b, T) }

// setField sets a field of a struct variable without logging an access.
func (d *Driver) setField(st *State, p Ptr, name string, v Val) {
	q := d.fieldPtr(d.e.obj(st, p.Obj).Typ, p, name)
	n := d.e.obj(st, p.Obj).clone()
	n.Val = setPath(n.Val, pathIdx(q.Path), v)
	st.heap[p.Obj] = n
}
