package main

// Command checker decides the properties of mewmew/float from its source.
//
//	checker -repo /repo -verif /verif -prop C06 [-tier quick|thorough] [-goal text]
//
// It type-checks the module for both word sizes, builds the compiler's
// intermediate form, and settles one property. It never builds or runs the
// analysed code.

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type options struct {
	repo, verif, prop, tier, goal string
	verbose, strict               bool
	runs                          int
	budget                        time.Duration
}

func main() {
	var o options
	flag.StringVar(&o.repo, "repo", "/repo", "the module to analyse")
	flag.StringVar(&o.verif, "verif", "/verif", "where evidence is written")
	flag.StringVar(&o.prop, "prop", "", "property id, or all")
	flag.StringVar(&o.tier, "tier", "quick", "quick or thorough")
	flag.BoolVar(&o.strict, "strict", false, "an undecided obligation fails the check")
	flag.StringVar(&o.goal, "goal", "", "only goals whose name contains this")
	flag.BoolVar(&o.verbose, "v", false, "print every goal")
	flag.IntVar(&o.runs, "runs", 0, "bound on abstract executions per goal")
	flag.DurationVar(&o.budget, "budget", 0, "time budget")
	self := flag.String("selftest", "", "compare the models with the results in this file (tools/selftest.py)")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30)
	if o.budget == 0 {
		o.budget = 600 * time.Second
		if o.tier == "thorough" {
			o.budget = 780 * time.Second
		}
	}
	if o.runs == 0 {
		o.runs = 1 << 22
	}
	ids := []string{o.prop}
	if o.prop == "all" {
		ids = nil
		for _, p := range properties {
			ids = append(ids, p.id)
		}
	}
	progs, err := loadBoth(o.repo)
	if *self != "" && err == nil {
		if !selftest(progs, *self, o.budget) {
			os.Exit(1)
		}
		return
	}
	code := 0
	for _, id := range ids {
		if !check(&o, id, progs, err) {
			code = 1
		}
	}
	os.Exit(code)
}

// report is the outcome of one property.
type report struct {
	viol        []Violation
	open        []Violation // undecided
	obligations int
	discharged  int
	coverage    map[string]any
	assumptions []string
}

func check(o *options, id string, progs map[int]*Program, loadErr error) bool {
	start := time.Now()
	var prop *property
	for i := range properties {
		if properties[i].id == id {
			prop = &properties[i]
		}
	}
	if prop == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", id)
		os.Exit(2)
	}
	rep := &report{coverage: map[string]any{}}
	if loadErr != nil {
		rep.obligations = 1
		rep.viol = append(rep.viol, Violation{goal: "loading " + o.repo, msg: "it cannot be loaded and type-checked: " + loadErr.Error(), sure: true})
	} else {
		for _, p := range progs {
			p.fnSeen.reset()
		}
		prop.run(o, progs, rep)
		var fns []string
		seen := map[string]bool{}
		for _, p := range progs {
			for _, f := range p.fnSeen.repoNames(p.repo) {
				if !seen[f] {
					seen[f] = true
					fns = append(fns, f)
				}
			}
		}
		sort.Strings(fns)
		if len(fns) > 0 {
			rep.coverage["functions_interpreted"] = fns
		}
	}
	if rep.obligations < prop.min && loadErr == nil && o.goal == "" {
		rep.viol = append(rep.viol, Violation{goal: "coverage", msg: fmt.Sprintf("undecided: only %d obligations were found, at least %d are expected", rep.obligations, prop.min)})
	}
	var viol []Violation
	for _, v := range rep.viol {
		if v.undecided() {
			rep.open = append(rep.open, v)
		} else {
			viol = append(viol, v)
		}
	}
	rep.viol = viol
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ok := len(rep.viol) == 0
	cov := rep.coverage
	cov["obligations"] = rep.obligations
	cov["discharged"] = rep.discharged
	var open []string
	for _, v := range rep.open {
		open = append(open, v.goal+": "+v.msg)
	}
	if len(open) > 0 {
		cov["undecided"] = open
	}
	cov["checker_cmd"] = fmt.Sprintf("run.sh %s %s", id, o.tier)
	cov["rule"] = prop.rule
	cov["trusted_base"] = append([]string{
		"golang.org/x/tools/go/ssa: the intermediate form stands for the source",
		"Go " + runtime.Version() + " type checker and math/big (arithmetic on the analysis's own integers)",
	}, prop.trusted...)
	ev := map[string]any{
		"property": id, "tier": o.tier, "seed": seed, "level": prop.level, "coverage": cov,
		"assumptions": append(append([]string{}, prop.assumptions...), rep.assumptions...),
		"wall_s":      time.Since(start).Seconds(), "violations": len(rep.viol),
	}
	writeJSON(filepath.Join(o.verif, "evidence", id+".json"), ev)
	for i, v := range rep.open {
		if !ok && !o.verbose {
			break // the violations are what matters
		}
		if i == 5 && !o.verbose {
			fmt.Printf("%s: and %d more\n", id, len(rep.open)-i)
			break
		}
		fmt.Printf("%s: %s: %s", id, v.goal, v.msg)
		if v.where != "" {
			fmt.Printf(" (at %s)", v.where)
		}
		fmt.Println()
	}
	if ok && len(rep.open) > 0 {
		fmt.Printf("%s: no violation found; decided %d of %d obligations, the rest is UNDECIDED (%.1f s)\n", id, rep.discharged, rep.obligations, time.Since(start).Seconds())
		return !o.strict
	}
	if ok {
		fmt.Printf("%s: held: %d of %d obligations discharged (%.1f s)\n", id, rep.discharged, rep.obligations, time.Since(start).Seconds())
		return true
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s: %s\n\n", id, prop.title)
	for _, v := range rep.viol {
		certain := "yes"
		if !v.sure {
			certain = "as far as the analysis can tell"
		}
		fmt.Fprintf(&sb, "obligation: %s\nfinding: %s\nconstruct: %s\ncertain: %s\ncell of the input space: %s\nan input in it: %s\nagain: %s/run.sh %s %s -goal %q\n\n",
			v.goal, v.msg, orNone(v.where), certain, orNone(v.cell), orNone(v.values), o.verif, id, o.tier, v.goal)
	}
	path := filepath.Join(o.verif, "evidence", "replay-"+id+".txt")
	os.MkdirAll(filepath.Dir(path), 0o755)
	if err := os.WriteFile(path, []byte(sb.String()), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	for _, v := range rep.viol {
		fmt.Printf("%s: %s: %s", id, v.goal, v.msg)
		if v.where != "" {
			fmt.Printf(" (at %s)", v.where)
		}
		if !v.sure {
			fmt.Print(" [not certain]")
		}
		fmt.Println()
		if o.verbose {
			fmt.Printf("    cell %s\n    input %s\n", v.cell, v.values)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	return false
}

func orNone(s string) string {
	if s == "" {
		return "-"
	}
	return s
}

func writeJSON(path string, v any) {
	os.MkdirAll(filepath.Dir(path), 0o755)
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(path, append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func (s *fnSet) reset() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for k := range s.m {
		delete(s.m, k)
	}
}

func (s *fnSet) repoNames(repo string) []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []string
	for fn := range s.m {
		if fn.Pkg != nil && (fn.Pkg.Pkg.Path() == repo || strings.HasPrefix(fn.Pkg.Pkg.Path(), repo+"/")) {
			out = append(out, strings.ReplaceAll(fn.RelString(nil), repo, "float"))
		}
	}
	return out
}

// decide runs goals and adds them to the report.
func (rep *report) decide(o *options, goals []*Goal) {
	if o.goal != "" {
		var keep []*Goal
		for _, g := range goals {
			if strings.Contains(g.name, o.goal) {
				keep = append(keep, g)
			}
		}
		goals = keep
	}
	start := time.Now()
	watchGlobals(goals)
	stats := runGoals(goals, o.budget, o.runs)
	if quick, full := histories(stats); len(full) > 0 {
		bad := 0
		add := func(hs []*Goal, limit time.Duration) {
			if left := 780*time.Second - time.Since(start); limit > left {
				limit = left
			}
			st := runGoals(hs, limit, o.runs)
			for _, s := range st {
				bad += len(s.viol)
			}
			stats = append(stats, st...)
		}
		add(quick, 100*time.Second)
		if bad == 0 {
			add(full, 150*time.Second)
		}
	}
	cells, runs, steps := 0, 0, 0
	var list []map[string]any
	for _, s := range stats {
		rep.obligations++
		if len(s.viol)+s.nopen == 0 && s.cells > 0 {
			rep.discharged++
		} else if len(s.viol)+s.nopen == 0 {
			s.addOpen(Violation{goal: s.goal.name, msg: "undecided: no input was analysed"})
		}
		rep.viol = append(rep.viol, s.viol...)
		rep.open = append(rep.open, s.open...)
		cells += s.cells
		runs += s.runs
		steps += s.steps
		list = append(list, map[string]any{"obligation": s.goal.name, "input_cells": s.cells, "abstract_executions": s.runs, "instructions": s.steps, "violations": len(s.viol), "undecided_cells": s.nopen})
		if o.verbose {
			fmt.Printf("  %-60s cells %d runs %d empty %d steps %d viol %d open %d\n", s.goal.name, s.cells, s.runs, s.empty, s.steps, len(s.viol), s.nopen)
		}
	}
	rep.coverage["input_cells"] = cells
	rep.coverage["abstract_executions"] = runs
	rep.coverage["abstract_instructions"] = steps
	rep.coverage["per_obligation"] = list
}
