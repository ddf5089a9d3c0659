package main

// SMT back ends: z3 5.x (z3-new) and cvc5, driven over pipes.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

func (r Res) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	n   int
}

type Solver struct {
	free    chan *proc
	Queries int64
	Nanos   int64
	mu      sync.Mutex
	cache   map[string]Res
	Hits    int64
}

func NewSolver(n int) *Solver {
	s := &Solver{free: make(chan *proc, n), cache: map[string]Res{}}
	for i := 0; i < n; i++ {
		s.free <- nil
	}
	return s
}

func startZ3() *proc {
	cmd := exec.Command("z3-new", "-in", "-smt2")
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	p := &proc{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<16)}
	return p
}

func (p *proc) kill() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

// script renders declarations + assertions.
func script(axioms, asserts []*Term) string {
	d := &decls{seen: map[*Term]bool{}, syms: map[string]string{}}
	for _, a := range asserts {
		d.visit(a)
	}
	// Only axioms all of whose uninterpreted functions' ... keep it simple: include axioms
	// sharing at least one function symbol with the query, transitively.
	used := make([]bool, len(axioms))
	for changed := true; changed; {
		changed = false
		for i, ax := range axioms {
			if used[i] {
				continue
			}
			dd := &decls{seen: map[*Term]bool{}, syms: map[string]string{}}
			dd.visit(ax)
			hit := len(dd.syms) == 0
			for s := range dd.syms {
				if _, ok := d.syms[s]; ok {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				d.visit(ax)
			}
		}
	}
	names := make([]string, 0, len(d.syms))
	for n := range d.syms {
		names = append(names, n)
	}
	sort.Strings(names)
	var b strings.Builder
	b.WriteString("(declare-sort U 0)\n")
	for _, n := range names {
		b.WriteString(d.syms[n])
		b.WriteByte('\n')
	}
	for i, a := range axioms {
		if used[i] {
			b.WriteString("(assert " + a.String() + ")\n")
		}
	}
	for _, a := range asserts {
		b.WriteString("(assert " + a.String() + ")\n")
	}
	return b.String()
}

// run returns the result and, when values are asked for, the raw get-value answer.
func (s *Solver) run(sc string, timeoutMs int, getv []*Term) (Res, string) {
	return s.runOpt("", sc, timeoutMs, getv)
}

// CheckAlt is Check with another search strategy.
func (s *Solver) CheckAlt(axioms, asserts []*Term, timeoutMs int) Res {
	sc := script(axioms, asserts)
	k := "alt;" + sc
	s.mu.Lock()
	r, ok := s.cache[k]
	s.mu.Unlock()
	if ok {
		return r
	}
	r, _ = s.runOpt("(set-option :smt.relevancy 0)\n", sc, timeoutMs, nil)
	if r == Unknown {
		r, _ = s.runOpt("(set-option :smt.auto_config true)\n(set-option :smt.relevancy 2)\n", sc, timeoutMs, nil)
	}
	s.mu.Lock()
	s.cache[k] = r
	if r != Unknown {
		s.cache[sc] = r
	}
	s.mu.Unlock()
	return r
}

func (s *Solver) runOpt(opt, sc string, timeoutMs int, getv []*Term) (Res, string) {
	p := <-s.free
	defer func() { s.free <- p }()
	if p != nil && p.n > 3000 {
		p.kill()
		p = nil
	}
	if p == nil {
		p = startZ3()
	}
	p.n++
	t0 := time.Now()
	var b strings.Builder
	b.WriteString("(reset)\n(set-option :smt.auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.arith.solver 6)\n(set-option :smt.solve_eqs false)\n" + opt)
	if opt == "" {
		b.WriteString("(set-option :smt.relevancy 2)\n")
	}
	fmt.Fprintf(&b, "(set-option :smt.candidate_models %v)\n", len(getv) > 0)
	fmt.Fprintf(&b, "(set-option :timeout %d)\n", timeoutMs)
	b.WriteString(sc)
	b.WriteString("(check-sat)\n")
	if len(getv) > 0 {
		b.WriteString("(get-value (")
		for _, t := range getv {
			b.WriteString(t.String() + " ")
		}
		b.WriteString("))\n")
	}
	b.WriteString("(echo \"@@done\")\n")
	type ans struct {
		r Res
		v string
		e error
	}
	ch := make(chan ans, 1)
	go func() {
		if _, err := io.WriteString(p.in, b.String()); err != nil {
			ch <- ans{Unknown, "", err}
			return
		}
		r := Unknown
		var rest strings.Builder
		first := true
		for {
			line, err := p.out.ReadString('\n')
			if err != nil {
				ch <- ans{Unknown, "", err}
				return
			}
			line = strings.TrimSpace(line)
			if line == "@@done" {
				break
			}
			if first && (line == "sat" || line == "unsat" || line == "unknown" || line == "timeout") {
				first = false
				switch line {
				case "sat":
					r = Sat
				case "unsat":
					r = Unsat
				}
				continue
			}
			if strings.HasPrefix(line, "(error") && first {
				fmt.Fprintln(os.Stderr, "solver:", line)
				if debugErr {
					fmt.Fprintln(os.Stderr, b.String())
				}
			}
			rest.WriteString(line + "\n")
		}
		ch <- ans{r, rest.String(), nil}
	}()
	var a ans
	select {
	case a = <-ch:
		if a.e != nil {
			p.kill()
			p = nil
		}
	case <-time.After(time.Duration(timeoutMs)*time.Millisecond + 3*time.Second):
		p.kill()
		p = nil
		a = ans{Unknown, "", nil}
	}
	if slowLog != "" && time.Since(t0) > 400*time.Millisecond {
		slowN++
		os.WriteFile(fmt.Sprintf("%s/q%d_%s_%d.smt2", slowLog, slowN, a.r, time.Since(t0).Milliseconds()), []byte(b.String()), 0o644)
	}
	atomic.AddInt64(&s.Queries, 1)
	atomic.AddInt64(&s.Nanos, int64(time.Since(t0)))
	return a.r, a.v
}

var slowLog = os.Getenv("GVC_SLOW")
var slowN int

var debugErr = os.Getenv("GVC_DEBUG_ERR") != ""

// Check decides satisfiability of axioms ∧ asserts.
func (s *Solver) Check(axioms, asserts []*Term, timeoutMs int) Res {
	for _, a := range asserts {
		if a == False {
			return Unsat
		}
	}
	sc := script(axioms, asserts)
	s.mu.Lock()
	if r, ok := s.cache[sc]; ok && r != Unknown {
		s.mu.Unlock()
		atomic.AddInt64(&s.Hits, 1)
		return r
	}
	s.mu.Unlock()

	r, _ := s.run(sc, timeoutMs, nil)
	s.mu.Lock()
	s.cache[sc] = r
	s.mu.Unlock()
	return r
}

func (s *Solver) CheckModel(axioms, asserts []*Term, timeoutMs int, vals []*Term) (Res, map[*Term]string) {
	sc := script(axioms, append(append([]*Term{}, asserts...), nil...))
	r, v := s.run(sc, timeoutMs, vals)
	m := map[*Term]string{}
	if r != Unsat {
		sx := parseSexps(v)
		if len(sx) > 0 {
			for i, e := range sx[0].l {
				if i < len(vals) && len(e.l) == 2 {
					m[vals[i]] = e.l[1].str()
				}
			}
		}
	}
	return r, m
}

type sexp struct {
	a string
	l []*sexp
}

func (s *sexp) str() string {
	if s.l == nil {
		return s.a
	}
	p := []string{}
	for _, x := range s.l {
		p = append(p, x.str())
	}
	return "(" + strings.Join(p, " ") + ")"
}

func parseSexps(s string) []*sexp {
	var out []*sexp
	i := 0
	var parse func() *sexp
	parse = func() *sexp {
		for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
			i++
		}
		if i >= len(s) {
			return nil
		}
		if s[i] == '(' {
			i++
			e := &sexp{l: []*sexp{}}
			for {
				for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
					i++
				}
				if i >= len(s) {
					return e
				}
				if s[i] == ')' {
					i++
					return e
				}
				x := parse()
				if x == nil {
					return e
				}
				e.l = append(e.l, x)
			}
		}
		if s[i] == '|' {
			j := strings.IndexByte(s[i+1:], '|')
			if j < 0 {
				i = len(s)
				return nil
			}
			a := s[i : i+j+2]
			i += j + 2
			return &sexp{a: a}
		}
		if s[i] == '"' {
			j := strings.IndexByte(s[i+1:], '"')
			if j < 0 {
				i = len(s)
				return nil
			}
			a := s[i : i+j+2]
			i += j + 2
			return &sexp{a: a}
		}
		j := i
		for j < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[j])) {
			j++
		}
		a := s[i:j]
		i = j
		if a == "" {
			i++
		}
		return &sexp{a: a}
	}
	for {
		e := parse()
		if e == nil {
			return out
		}
		out = append(out, e)
	}
}

// cvc5 one-shot.
func cvc5Check(sc string, timeoutMs int) Res {
	cmd := exec.Command("cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", timeoutMs), "-")
	cmd.Stdin = strings.NewReader("(set-logic ALL)\n" + sc + "(check-sat)\n")
	out, _ := cmd.Output()
	switch strings.TrimSpace(string(out)) {
	case "unsat":
		return Unsat
	case "sat":
		return Sat
	}
	return Unknown
}

// old z3 one-shot (different version, different heuristics)
func z3OldCheck(sc string, timeoutMs int) Res {
	cmd := exec.Command("z3", "-in", "-smt2", fmt.Sprintf("-t:%d", timeoutMs))
	cmd.Stdin = strings.NewReader(sc + "(check-sat)\n")
	out, _ := cmd.Output()
	switch strings.TrimSpace(string(out)) {
	case "unsat":
		return Unsat
	case "sat":
		return Sat
	}
	return Unknown
}

// z3Strong runs a one-shot z3 with default strategies (mbqi on).
func z3Strong(sc string, timeoutMs int) Res {
	cmd := exec.Command("z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", timeoutMs))
	cmd.Stdin = strings.NewReader(sc + "(check-sat)\n")
	out, _ := cmd.Output()
	switch strings.TrimSpace(string(out)) {
	case "unsat":
		return Unsat
	case "sat":
		return Sat
	}
	return Unknown
}

// Close ends the solver processes.
func (s *Solver) Close() {
	for {
		select {
		case p := <-s.free:
			if p != nil {
				p.kill()
			}
		default:
			return
		}
	}
}
