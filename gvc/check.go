package main

// A check: run the units a property depends on, report failed obligations,
// replay them against the real code.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type UnitSel struct {
	Unit string
	Tags []string // nil: all
}

// Prop is a claimed property.
type Prop struct {
	ID      string
	Units   []UnitSel
	Trusted []string // assumed contracts and modelling assumptions
	Level   string   // "" = proof
	Bounded []string // bounded stand-ins: description (the harness always runs)
	Race    bool     // the harness is built with the race detector
	Note    string
}

// alwaysTags count for every property that uses a unit.
var alwaysTags = map[string]bool{"engine": true, "vacuity": true, "loop": true, "spec": true, "gopanic": true, "panicfree": true}

func selected(u UnitSel, tag string) bool {
	if u.Tags == nil || alwaysTags[tag] {
		return true
	}
	for _, t := range u.Tags {
		if t == tag {
			return true
		}
	}
	return false
}

func runCheck(id string) int {
	start := time.Now()
	p := propByID(id)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	// units in parallel
	results := make([]*UnitResult, len(p.Units))
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	self, _ := os.Executable()
	limit := 480 * time.Second
	if tier == "thorough" {
		limit = 700 * time.Second
	}
	for i, u := range p.Units {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			results[i] = runUnitProc(self, u.Unit, limit, tier == "thorough")
		}()
	}
	wg.Wait()

	var failed []*Obl
	total, inst := 0, 0
	by := map[string]int{}
	funcs := map[string]bool{}
	contracts := map[string]bool{}
	models := map[string]bool{}
	queries := 0
	solver := 0.0
	perUnit := map[string]int{}
	for i, r := range results {
		if len(r.Obls) == 0 {
			r.Obls = []*Obl{{Name: r.Unit + "/engine: the unit generates obligations", Tag: "engine", Failed: true, Detail: strings.Join(r.Notes, "; ")}}
		}
		n := 0
		for _, o := range r.Obls {
			if !selected(p.Units[i], o.Tag) {
				continue
			}
			n++
			total++
			inst += o.N
			for k, v := range o.By {
				by[k] += v
			}
			if o.Failed {
				failed = append(failed, o)
			}
		}
		perUnit[r.Unit] = n
		if n == 0 {
			failed = append(failed, &Obl{Name: r.Unit + "/engine: obligations of " + id + " are generated", Tag: "engine", Failed: true})
			total++
		}
		for f := range r.Functions {
			funcs[f] = true
		}
		for _, c := range r.Contracts {
			contracts[c] = true
		}
		for m := range r.Models {
			models[m] = true
		}
		queries += r.Queries
		solver += r.SolverSec
	}
	sort.Slice(failed, func(i, j int) bool { return failed[i].Name < failed[j].Name })

	runHarness := len(failed) > 0 || tier == "thorough" || len(p.Bounded) > 0
	budget := 60.0
	if len(failed) == 0 {
		budget = 20
		if tier == "thorough" {
			budget = 120
		}
	}
	var h *harnessResult
	if runHarness {
		h = runHarnessProc(p, seed, budget, len(failed) > 0)
	}
	viol := 0
	code := 0
	known := knownFindings(id)
	var kept []*Obl
	for _, o := range failed {
		isKnown := false
		for _, k := range known {
			if k.Obligation != "" && strings.Contains(o.Name, k.Obligation) {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
				isKnown = true
				break
			}
		}
		if !isKnown {
			kept = append(kept, o)
		}
	}
	failed = kept
	if h != nil && h.failed {
		viol, code = 1, 1
		path := writeReplay(p, seed, failed, h)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	} else if len(failed) > 0 {
		viol, code = 1, 1
		path := writeReplay(p, seed, failed, h)
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, path)
	}
	for i, o := range failed {
		if i < 12 {
			fmt.Printf("  failed obligation: %s\n", o.Name)
		}
	}
	cov := map[string]any{
		"obligations":                total,
		"discharged":                 total - len(failed),
		"path_instances":             inst,
		"path_instances_by_back_end": by,
		"obligations_per_unit":       perUnit,
		"functions_under_contract":   unitNames(p),
		"functions_executed_inline":  sortedKeys(funcs),
		"contracts_used_at_calls":    sortedKeys(contracts),
		"assumed_contracts_used":     sortedKeys(models),
		"solver_queries":             queries,
		"solver_seconds":             solver,
		"checker_cmd":                "gvc unit <name> (path-based verification-condition generator over go/ssa of /repo; z3 -in decides; cvc5 and z3 default strategy as second opinion)",
		"trusted_base":               trustedBase(p),
		"failed_obligations":         oblNames(failed),
	}
	level := p.Level
	if level == "" {
		level = "proof"
	}
	if h != nil {
		cov["replay_search"] = map[string]any{"cases": h.cases, "summary": h.summary, "role": "not part of the decision unless an obligation fails or a bounded stand-in is named"}
	}
	if len(p.Bounded) > 0 {
		cov["bounded_stand_ins"] = p.Bounded
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": trustedBase(p), "wall_s": time.Since(start).Seconds(), "violations": viol}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d obligations (%d path instances), %d discharged, %d units, %.1fs\n", id, total, inst, total-len(failed), len(p.Units), time.Since(start).Seconds())
	return code
}

func unitNames(p *Prop) []string {
	var out []string
	for _, u := range p.Units {
		out = append(out, u.Unit)
	}
	return out
}

func oblNames(os []*Obl) []string {
	out := []string{}
	for _, o := range os {
		out = append(out, o.Name)
	}
	return out
}

func sortedKeys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func runUnitProc(self, unit string, limit time.Duration, cross bool) *UnitResult {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, "unit", unit)
	cmd.Env = append(os.Environ(), "GVC_JSON=1")
	if cross {
		cmd.Env = append(cmd.Env, "GVC_CROSS=1")
	}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	r := &UnitResult{}
	if e2 := json.Unmarshal(out.Bytes(), r); e2 != nil || r.Unit == "" {
		msg := fmt.Sprintf("unit run failed: %v %v %s", err, e2, tail(errb.String(), 2000))
		if ctx.Err() != nil {
			msg = "time limit"
		}
		return &UnitResult{Unit: unit, Obls: []*Obl{{Name: unit + "/engine: the verifier finishes", Tag: "engine", N: 1, Failed: true, Detail: msg}}}
	}
	return r
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

type harnessResult struct {
	failed  bool
	output  string
	cases   int
	summary string
	cmd     string
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")
}

// runHarnessProc builds the replay harness against /repo's current tree and
// searches for a failing input.
func runHarnessProc(p *Prop, seed int64, budget float64, hunt bool) *harnessResult {
	dir, err := os.MkdirTemp("", "gvcharness")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(dir)
	h := &harnessResult{}
	modes := []bool{false}
	if p.Race {
		modes = []bool{true}
		if hunt {
			modes = []bool{false, true}
		}
	}
	for _, race := range modes {
		bin := filepath.Join(dir, "h")
		args := []string{"build", "-o", bin}
		if race {
			args = append(args, "-race")
			bin += "r"
			args[2] = bin
		}
		if repoDir != "/repo" {
			mf := filepath.Join(dir, "go.mod")
			data, _ := os.ReadFile(filepath.Join(verifDir, "harness", "go.mod"))
			os.WriteFile(mf, bytes.ReplaceAll(data, []byte("=> /repo"), []byte("=> "+repoDir)), 0o644)
			args = append(args, "-modfile", mf)
		}
		args = append(args, ".")
		cmd := exec.Command("go", args...)
		cmd.Dir = filepath.Join(verifDir, "harness")
		cmd.Env = goEnv()
		if out, err := cmd.CombinedOutput(); err != nil {
			h.summary += fmt.Sprintf("harness does not build (race=%v): %v %s; ", race, err, tail(string(out), 1000))
			continue
		}
		seeds := []int64{seed}
		if hunt {
			seeds = []int64{seed, seed + 1000}
		}
		for _, sd := range seeds {
			prog := filepath.Join(dir, "progress")
			ctx, cancel := context.WithTimeout(context.Background(), time.Duration(budget*float64(time.Second))+90*time.Second)
			c := exec.CommandContext(ctx, bin, "-prop", p.ID, "-seed", fmt.Sprint(sd), "-budget", fmt.Sprint(budget/float64(len(seeds)*len(modes))))
			c.Env = append(os.Environ(), "HARNESS_PROGRESS="+prog, "GORACE=halt_on_error=1 exitcode=66")
			out, err := c.CombinedOutput()
			timedOut := ctx.Err() != nil
			cancel()
			s := string(out)
			h.cmd = fmt.Sprintf("cd %s/harness && go run%s . -prop %s -seed %d", verifDir, map[bool]string{true: " -race", false: ""}[race], p.ID, sd)
			if strings.Contains(s, "NOHARNESS") {
				h.summary = "no replay search for this property"
				return h
			}
			if i := strings.Index(s, "OK "); i >= 0 && err == nil {
				n := 0
				fmt.Sscanf(s[i:], "OK %d cases", &n)
				h.cases += n
				h.summary += fmt.Sprintf("seed %d race=%v: %d cases without failure; ", sd, race, n)
				continue
			}
			last, _ := os.ReadFile(prog)
			h.failed = true
			h.output = fmt.Sprintf("last case: %s\n%s", lastLine(string(last)), head(s, 20000))
			if timedOut {
				h.output = "search did not end\n" + h.output
			}
			return h
		}
	}
	return h
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func lastLine(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.LastIndexByte(s, '\n'); i >= 0 {
		return s[i+1:]
	}
	return s
}

func writeReplay(p *Prop, seed int64, failed []*Obl, h *harnessResult) string {
	dir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, p.ID+".txt")
	var b strings.Builder
	fmt.Fprintf(&b, "property %s, seed %d\n\n", p.ID, seed)
	if h != nil && h.failed {
		fmt.Fprintf(&b, "REPLAY AGAINST THE REAL CODE: %s\n%s\n\n", h.cmd, h.output)
	} else if h != nil {
		fmt.Fprintf(&b, "replay search found no failing input: %s\n\n", h.summary)
	}
	for _, o := range failed {
		fmt.Fprintf(&b, "FAILED OBLIGATION %s\n  in %s at %s\n  %s\n  goal: %s\n", o.Name, o.Fn, o.Pos, o.Detail, o.Goal)
		var ks []string
		for k := range o.Model {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if len(ks) > 0 {
			fmt.Fprintf(&b, "  verifier's candidate values:")
			for _, k := range ks {
				fmt.Fprintf(&b, " %s=%s", k, o.Model[k])
			}
			b.WriteString("\n")
		}
		if o.Script != "" {
			fmt.Fprintf(&b, "  query:\n%s\n", head(o.Script, 8000))
		}
		b.WriteString("\n")
	}
	os.WriteFile(path, []byte(b.String()), 0o644)
	return path
}

type finding struct {
	Property   string `json:"property"`
	Obligation string `json:"obligation"`
	What       string `json:"what"`
	Fixed      string `json:"fixed"`
}

// knownFindings reads the committed list; "fixed:" lines suppress nothing.
func knownFindings(id string) []finding {
	data, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, ln := range strings.Split(string(data), "\n") {
		if !strings.HasPrefix(ln, "finding: ") {
			continue
		}
		f := finding{}
		if json.Unmarshal([]byte(strings.TrimPrefix(ln, "finding: ")), &f) == nil && f.Property == id {
			out = append(out, f)
		}
	}
	return out
}
