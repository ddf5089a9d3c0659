package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func paramTypes(fn *ssa.Function) []types.Type {
	var out []types.Type
	for _, p := range fn.Params {
		out = append(out, p.Type())
	}
	return out
}

func (P *Program) method(t *ssa.Type, name string) *ssa.Function {
	T := t.Type()
	if n, ok := T.(*types.Named); ok {
		for i := 0; i < n.NumMethods(); i++ {
			if m := n.Method(i); m.Name() == name {
				return P.prog.FuncValue(m)
			}
		}
	}
	return nil
}

// installCompose gives the fork-join functions their contract on functions of
// this program, unless a contract is already installed.
func installCompose(P *Program, e *Engine, v *Verifier) {
	for _, n := range []string{"parallel.Do", "parallel.And", "parallel.Or", "speculative.Do", "speculative.And", "speculative.Or"} {
		if f := P.fn(n); f != nil && e.contr[f] == nil {
			e.contr[f] = v.apiCall(&Contract{Name: n})
		}
	}
}

func installTemplates(e *Engine, v *Verifier) {}

func specFor(name string) []string {
	switch {
	case strings.HasPrefix(name, "parallel."):
		return []string{"parallel.spec"}
	case strings.HasPrefix(name, "speculative."):
		return []string{"speculative.spec"}
	}
	return nil
}

func runUnit(P *Program, name string) *UnitResult {
	if f := drivers[name]; f != nil {
		return driverUnit(P, name, f)
	}
	return runContractUnit(P, specFor(name), name)
}
