package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/intel/forGoParallel/"

var repoDir = "/repo"
var verifDir = "/verif"

type Program struct {
	prog *ssa.Program
	pkgs map[string]*ssa.Package // by import path
	all  []*packages.Package
}

func loadRepo() (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repoDir, Env: append(os.Environ(), "GOPROXY=off", "GOSUMDB=off", "GOFLAGS=-mod=mod")}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s", e)
		}
	}
	prog, spkgs := ssautil.Packages(ps, 0)
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, all: ps}
	for _, p := range spkgs {
		if p != nil {
			p.Build()
			P.pkgs[p.Pkg.Path()] = p
		}
	}
	return P, nil
}

func (P *Program) pkg(short string) *ssa.Package {
	return P.pkgs[modPath+short]
}

// fn finds "pkg.Func" or "pkg.Type.Method" (pointer or value receiver).
func (P *Program) fn(name string) *ssa.Function {
	parts := strings.Split(name, ".")
	p := P.pkg(parts[0])
	if p == nil {
		return nil
	}
	if len(parts) == 2 {
		return p.Func(parts[1])
	}
	t := p.Type(parts[1])
	if t == nil {
		return nil
	}
	return P.method(t, parts[2])
}

func newEngine(P *Program, unit string) *Engine {
	e := &Engine{prog: P.prog, fset: P.prog.Fset, pkgs: map[string]*ssa.Package{}, unit: unit,
		obls: map[string]*Obl{}, models: stdModels(), contr: map[*ssa.Function]func(e *Engine, c *CallCtx) []Outcome{},
		recs: map[*ssa.Function]*RecInfo{}, inlined: map[string]int{}, timeout: 5000, surv: map[string]map[string]bool{},
		loops: map[*ssa.Function]*loopInfo{}, covers: map[string]bool{}, usedMod: map[string]int{}}
	for k, p := range P.pkgs {
		e.pkgs[k] = p
	}
	e.sol = NewSolver(1)
	return e
}

// UnitResult is what one unit run reports.
type UnitResult struct {
	Unit      string
	Obls      []*Obl
	Functions map[string]int // functions executed (body verified or inlined)
	Contracts []string       // contracts used at call sites
	Models    map[string]int // assumed contracts on dependencies used
	Queries   int
	SolverSec float64
	Wall      float64
	Steps     int
	Notes     []string
}

func (r *UnitResult) failed() int {
	n := 0
	for _, o := range r.Obls {
		if o.Failed {
			n++
		}
	}
	return n
}

// protect runs f; what the engine cannot handle becomes a failed obligation.
func protect(e *Engine, f func()) (rs *restart) {
	defer func() {
		if x := recover(); x != nil {
			if r, ok := x.(restart); ok {
				rs = &r
				return
			}
			msg := fmt.Sprint(x)
			if u, ok := x.(unsupported); ok {
				msg = u.msg
			} else if os.Getenv("GVC_DEBUG") != "" {
				debug.PrintStack()
			}
			e.quiet = 0
			name := e.unit + "/engine: the code is within reach of the verifier"
			e.obls[name] = &Obl{Name: name, Tag: "engine", Failed: true, N: 1, Detail: msg}
			e.order = append(e.order, name)
		}
	}()
	f()
	return nil
}

func result(e *Engine, start time.Time) *UnitResult {
	e.settle()
	r := &UnitResult{Unit: e.unit, Functions: e.inlined, Models: e.usedMod, Wall: time.Since(start).Seconds(), Steps: e.steps}
	for _, n := range e.order {
		r.Obls = append(r.Obls, e.obls[n])
	}
	r.Queries = int(e.sol.Queries)
	r.SolverSec = float64(e.sol.Nanos) / 1e9
	return r
}

// runContractUnit verifies one contract of a spec file.
func runContractUnit(P *Program, specFiles []string, name string) *UnitResult {
	start := time.Now()
	pick := map[string]int{}
	var best *UnitResult
	for try := 0; try < 6; try++ {
		r, opts := contractOnce(P, specFiles, name, pick)
		if best == nil || r.failed() < best.failed() {
			best = r
		}
		if best.failed() == 0 || time.Since(start) > 120*time.Second {
			break
		}
		adv := false
		for f, n := range opts {
			if pick[f]+1 < n {
				pick[f]++
				adv = true
				break
			}
		}
		if !adv {
			break
		}
	}
	best.Wall = time.Since(start).Seconds()
	return best
}

func contractOnce(P *Program, specFiles []string, name string, pick map[string]int) (*UnitResult, map[string]int) {
	start := time.Now()
	recs := map[*ssa.Function]*RecInfo{}
	for {
		e := newEngine(P, name)
		installLocalChans(e)
		v := &Verifier{e: e, consts: map[*Term]*Contract{}, pick: pick, opts: map[string]int{}, api: map[*ssa.Function]*Contract{}, nContr: map[string]bool{}}
		for f := range recs {
			e.recs[f] = &RecInfo{fn: f, data: map[string]any{}}
		}
		rs := protect(e, func() {
			sp := newSpec()
			for _, f := range specFiles {
				sp.load(filepath.Join(verifDir, "contracts", f))
			}
			v.sp = sp
			c := sp.Contracts[name]
			v.main = c
			fn := P.fn(name)
			if fn == nil {
				e.unsup("function %s not found", name)
			}
			v.mainFn = fn
			env := v.env(newState())
			for _, a := range sp.Axioms {
				e.axioms = append(e.axioms, env.bool(a))
			}
			for n, c2 := range sp.Contracts {
				if f := P.fn(n); f != nil {
					e.contr[f] = v.apiCall(c2)
				}
			}
			installCompose(P, e, v)
			e.opaque = v.opaqueCall
			e.recH = v.recCall
			installTemplates(e, v)
			st := newState()
			for g, own := range sp.Ghosts {
				if !own {
					st.ghost[g] = Const("g0."+g, SInt)
				}
			}
			body := e.body(fn)
			args := v.setup(st, c, c.Params, paramTypes(body))
			v.verifyBody(st, body, c, c.Params, args, args, nil, false)
			for i := 0; i < len(v.queue); i++ {
				v.verifyInst(v.queue[i])
			}
		})
		if rs != nil {
			recs[rs.fn] = &RecInfo{}
			e.sol.Close()
			if len(recs) > 8 {
				protect(e, func() { e.unsup("too many recursive functions") })
				return result(e, start), nil
			}
			continue
		}
		r := result(e, start)
		for n := range v.nContr {
			r.Contracts = append(r.Contracts, n)
		}
		sort.Strings(r.Contracts)
		e.sol.Close()
		return r, v.opts
	}
}

func main() {
	debug.SetGCPercent(400)
	if v := os.Getenv("GVC_REPO"); v != "" {
		repoDir = v
	}
	if v := os.Getenv("GVC_VERIF"); v != "" {
		verifDir = v
	}
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: gvc unit NAME | check PROPERTY | units")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "unit":
		P, err := loadRepo()
		if err != nil {
			fmt.Fprintln(os.Stderr, "load:", err)
			os.Exit(2)
		}
		if f := os.Getenv("GVC_PROF"); f != "" {
			w, _ := os.Create(f)
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
		for _, n := range os.Args[2:] {
			r := runUnit(P, n)
			if os.Getenv("GVC_JSON") != "" {
				json.NewEncoder(os.Stdout).Encode(r)
				continue
			}
			printResult(r)
		}
	case "check":
		os.Exit(runCheck(os.Args[2]))
	}
}

func printResult(r *UnitResult) {
	fmt.Printf("== %s: %d obligations, %d failed, %.1fs (solver %.1fs, %d queries, %d steps)\n", r.Unit, len(r.Obls), r.failed(), r.Wall, r.SolverSec, r.Queries, r.Steps)
	for _, o := range r.Obls {
		if o.Failed || os.Getenv("GVC_V") != "" {
			s := "ok  "
			if o.Failed {
				s = "FAIL"
			}
			fmt.Printf("  %s x%d %s\n", s, o.N, o.Name)
			if o.Failed {
				fmt.Printf("       %s\n       goal %s\n", o.Detail, o.Goal)
				if os.Getenv("GVC_MODEL") != "" {
					fmt.Printf("       trace %v\n       model %v\n", o.Trace, o.Model)
				}
				if f := os.Getenv("GVC_SCRIPT"); f != "" {
					os.WriteFile(f, []byte(o.Script), 0o644)
				}
			}
		}
	}
}
