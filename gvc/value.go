package main

// Symbolic values of Go programs.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is one of: *Term (bool, int, opaque U), Ptr, SliceV, StructV, *FuncV,
// IfaceV, MapV, ChanV, TupleV.
type Val interface{}

// Ptr points to a (part of a) heap object.
type Ptr struct {
	Obj  int
	Path string // field indices "/1/2"
	Idx  *Term  // element index when the object is an array
}

func (p Ptr) isNil() bool { return p.Obj == 0 }
func (p Ptr) loc() string { return fmt.Sprintf("%d%s", p.Obj, p.Path) }

// SliceV is a slice over an array object.
type SliceV struct {
	Obj      int
	Off, Len *Term
	Cap      *Term
	Nil      *Term
	Elem     types.Type
}

// StructV is a struct value.
type StructV struct {
	Typ    types.Type
	Fields []Val
}

// FuncV is a known function with captured bindings.
type FuncV struct {
	Fn      *ssa.Function
	Bind    []Val
	Native  string // engine-defined function
	NArgs   []Val
	Builtin string
}

// IfaceV is an interface holding a value of a known dynamic type.
type IfaceV struct {
	Typ types.Type
	V   Val
}

// MapV is a reference to a map object; ChanV to a channel object.
type MapV struct {
	Obj int
	Nil bool
}
type ChanV struct{ Obj int }

// TupleV is the result of a multi-valued instruction.
type TupleV []Val

var nilU = Const("nil!U", SU)

// box registry: opaque constants standing for structured values
var boxes = map[*Term]Val{}
var boxKeys = map[string]*Term{}
var boxN int

func valKey(v Val) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case *Term:
		return fmt.Sprintf("t%d", x.id)
	case Ptr:
		i := 0
		if x.Idx != nil {
			i = x.Idx.id
		}
		return fmt.Sprintf("p%d%s[%d]", x.Obj, x.Path, i)
	case SliceV:
		return fmt.Sprintf("s%d[%d:%d:%d]%d", x.Obj, x.Off.id, x.Len.id, x.Cap.id, x.Nil.id)
	case StructV:
		var b strings.Builder
		b.WriteString("{")
		for _, f := range x.Fields {
			b.WriteString(valKey(f) + ",")
		}
		return b.String() + "}"
	case *FuncV:
		var b strings.Builder
		if x.Fn != nil {
			fmt.Fprintf(&b, "f%s@%p(", x.Fn.String(), x.Fn)
		} else {
			fmt.Fprintf(&b, "n%s%s(", x.Native, x.Builtin)
		}
		for _, f := range x.Bind {
			b.WriteString(valKey(f) + ",")
		}
		for _, f := range x.NArgs {
			b.WriteString(valKey(f) + ",")
		}
		return b.String() + ")"
	case IfaceV:
		return "i<" + x.Typ.String() + ">" + valKey(x.V)
	case MapV:
		return fmt.Sprintf("m%d", x.Obj)
	case ChanV:
		return fmt.Sprintf("c%d", x.Obj)
	case TupleV:
		s := "("
		for _, f := range x {
			s += valKey(f) + ","
		}
		return s + ")"
	}
	return fmt.Sprintf("?%T", v)
}

func sameVal(a, b Val) bool { return valKey(a) == valKey(b) }

// box turns any value into an opaque term.
func box(v Val) *Term {
	if t, ok := v.(*Term); ok && t.Sort == SU {
		return t
	}
	switch x := v.(type) {
	case *Term:
		// boxed scalar: injective
		if x.Sort == SInt {
			return UF("box!int", SU, x)
		}
		return UF("box!bool", SU, x)
	case Ptr:
		if x.isNil() {
			return nilU
		}
	}
	k := valKey(v)
	if t, ok := boxKeys[k]; ok {
		return t
	}
	boxN++
	t := Const(fmt.Sprintf("box!%d", boxN), SU)
	boxes[t] = v
	boxKeys[k] = t
	return t
}

func unbox(t *Term) Val {
	if v, ok := boxes[t]; ok {
		return v
	}
	return t
}

// boxDistinct gives the facts that boxes of distinct values differ, and are not nil.
func boxFacts(ts ...*Term) []*Term {
	var bs []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if _, ok := boxes[t]; ok {
			bs = append(bs, t)
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].id < bs[j].id })
	var out []*Term
	for i, a := range bs {
		if v, ok := boxes[a].(IfaceV); ok {
			_ = v
		}
		out = append(out, Ne(a, nilU))
		for _, b := range bs[:i] {
			if !sameVal(boxes[a], boxes[b]) {
				out = append(out, Ne(a, b))
			}
		}
	}
	return out
}

// ---- types

func under(t types.Type) types.Type { return t.Underlying() }

func isTypeParam(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.TypeParam)
	return ok
}

// scalarSort says whether values of the type are represented by one term.
func scalarSort(t types.Type) (Sort, bool) {
	if isTypeParam(t) {
		return SU, true
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool, true
		case u.Info()&types.IsInteger != 0:
			return SInt, true
		}
		return SU, true
	case *types.Interface, *types.Signature:
		return SU, true
	}
	return "", false
}

// elemSort for symbolic arrays
func arrElemSort(t types.Type) Sort {
	if s, ok := scalarSort(t); ok {
		return s
	}
	return SU
}

func intBits(t types.Type) (bits int, signed bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 64, true
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

func intRange(t types.Type) (lo, hi *Term) {
	bits, signed := intBits(t)
	if signed {
		switch bits {
		case 8:
			return IntLit(-128), IntLit(127)
		case 16:
			return IntLit(-32768), IntLit(32767)
		case 32:
			return IntLit(-1 << 31), IntLit(1<<31 - 1)
		}
		return IntLitS("-9223372036854775808"), IntLitS("9223372036854775807")
	}
	switch bits {
	case 8:
		return IntLit(0), IntLit(255)
	case 16:
		return IntLit(0), IntLit(65535)
	case 32:
		return IntLit(0), IntLit(1<<32 - 1)
	}
	return IntLit(0), IntLitS("18446744073709551615")
}

var two64 = IntLitS("18446744073709551616")

func typeOf(T types.Type) string { return T.String() }

func sameUnder(a, b types.Type) bool { return types.Identical(under(a), under(b)) }

// sameType is type identity, where the type parameters of different
// functions are identified by name (generic functions are executed without
// instantiation).
func sameType(a, b types.Type) bool {
	return types.Identical(a, b) || types.TypeString(a, nil) == types.TypeString(b, nil)
}
