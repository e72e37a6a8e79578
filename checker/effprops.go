package main

// C18 (no shared state, deterministic) and the "never changed" part of C13.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// exportedFuncs lists the exported functions and methods of exported types of
// the public packages (when public is set) and of internal/strconv. Other
// internal packages are part of what calls them.
func exportedFuncs(p *Program, public bool) []*ssa.Function {
	var out []*ssa.Function
	for _, rp := range p.repoPkgs {
		if rp.PkgPath == p.repo+"/"+relConv || public && !internalPath(rp.PkgPath) {
			out = append(out, exportedOf(p.prog, p.pkgs[rp.PkgPath])...)
		}
	}
	return out
}

func exportedOf(prog *ssa.Program, sp *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	scope := sp.Pkg.Scope()
	for _, n := range scope.Names() {
		switch o := scope.Lookup(n).(type) {
		case *types.Func:
			if o.Exported() {
				out = append(out, sp.Func(n))
			}
		case *types.TypeName:
			nt, ok := o.Type().(*types.Named)
			if !ok || !o.Exported() || o.IsAlias() || nt.TypeParams().Len() > 0 || types.IsInterface(nt) {
				continue
			}
			for i := 0; i < nt.NumMethods(); i++ {
				if m := nt.Method(i); m.Exported() {
					out = append(out, prog.FuncValue(m))
				}
			}
		}
	}
	return out
}

func repoEffects(p *Program, public bool) *effects {
	e := newEffects(p.Interp, func(fn *ssa.Function) bool {
		k := pkgOf(fn)
		return k != nil && (k.Pkg.Path() == p.repo || strings.HasPrefix(k.Pkg.Path(), p.repo+"/"))
	})
	for _, fn := range exportedFuncs(p, public) {
		e.entry(fn)
	}
	for _, rp := range p.repoPkgs {
		e.initialiser(p.pkgs[rp.PkgPath].Func("init"))
	}
	e.solve()
	return e
}

// stateGoals: the writes of the public packages, decided by interpretation for
// every input, exactly (also those undone before the function returns).
func stateGoals(progs map[int]*Program) []*Goal {
	return perFunc(progs, "changes no state", nil, func(r *Run, fn *ssa.Function, args []Value) error {
		var res Value
		pan := r.catch(func() { res = r.dispatch(fn, args, nil) }) // C19 decides panics
		if len(r.globalWrites) > 0 {
			return bad("state that outlives the call is changed: %s", r.globalWrites[0])
		}
		if len(r.paramWrites) > 0 {
			return bad("memory of the caller is changed: %s", r.paramWrites[0])
		}
		if pan != nil {
			return nil
		}
		return freshResult(r, res)
	})
}

func stateCheck(o *options, progs map[int]*Program, rep *report) {
	rep.decide(o, stateGoals(progs))
	if o.goal != "" && !strings.Contains("effects", o.goal) {
		return
	}
	if err := effectsSelfTest(); err != nil {
		rep.obligations++
		rep.viol = append(rep.viol, Violation{goal: "effects self-test", msg: "undecided: " + err.Error()})
		return
	}
	functions, instrs, calls, writes := 0, 0, 0, 0
	for _, w := range []int{64, 32} {
		p := progs[w]
		e := repoEffects(p, true)
		functions += len(e.reached)
		instrs += e.instrs
		calls += e.calls
		writes += len(e.writes)
		byFn := map[string][]Violation{}
		add := func(fn, msg, where string) {
			byFn[fn] = append(byFn[fn], Violation{goal: fmt.Sprintf("effects of %s [%d-bit int]", fn, w), msg: msg, where: where})
		}
		for _, f := range e.found {
			i := strings.LastIndex(f.where, " (")
			add(strings.TrimSuffix(f.where[i+2:], ")"), f.msg, f.where)
		}
		// the writes of the public packages are decided exactly by
		// interpretation above
		ei := repoEffects(p, false)
		shared := ei.shared()
		for _, wr := range ei.writes {
			if g := shared[wr.obj]; g != nil {
				add(wr.fn.RelString(nil), "it may write memory of package variable "+g.RelString(nil)+", which outlives the call", wr.where)
			}
			if wr.obj.param != nil && !appendTarget(wr.obj.param) {
				add(wr.fn.RelString(nil), "it may write "+wr.obj.what, wr.where)
			}
		}
		var names []string
		for fn := range e.reached {
			names = append(names, fn.RelString(nil))
		}
		sort.Strings(names)
		for _, n := range names {
			rep.obligations++
			vs := byFn[n]
			sort.Slice(vs, func(i, j int) bool { return vs[i].where+vs[i].msg < vs[j].where+vs[j].msg })
			if len(vs) == 0 {
				rep.discharged++
			}
			rep.viol = append(rep.viol, vs...)
		}
		if o.verbose {
			fmt.Printf("  effects [%d-bit int]: %d functions, %d instructions, %d calls, %d writes\n", w, len(e.reached), e.instrs, e.calls, len(e.writes))
		}
	}
	rep.coverage["effects"] = map[string]any{
		"functions_reached": functions, "instructions": instrs, "calls": calls, "writes_classified": writes,
		"rule": "in the functions reachable from exported ones: no write to package variables or caller memory other than a byte slice that is appended to and returned; no goroutine, channel, map iteration, unsafe conversion; outside calls only to packages whose functions are pure",
	}
}

// appendTarget: a []byte parameter of a function that also returns a []byte.
func appendTarget(p *ssa.Parameter) bool {
	isBytes := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	if !isBytes(p.Type()) {
		return false
	}
	res := p.Parent().Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if isBytes(res.At(i).Type()) {
			return true
		}
	}
	return false
}

// predeclaredWrites: nothing after initialisation writes the named variables.
func predeclaredWrites(o *options, progs map[int]*Program, rep *report, want func(g *ssa.Global) bool) {
	if o.goal != "" && !strings.Contains("never changed", o.goal) {
		return
	}
	for _, w := range []int{64, 32} {
		p := progs[w]
		e := repoEffects(p, true)
		shared := e.shared()
		var gs []*ssa.Global
		for _, rp := range p.repoPkgs {
			for _, m := range p.pkgs[rp.PkgPath].Members {
				if g, ok := m.(*ssa.Global); ok && want(g) {
					gs = append(gs, g)
				}
			}
		}
		sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
		for _, g := range gs {
			rep.obligations++
			n := len(rep.viol)
			for _, wr := range e.writes {
				if shared[wr.obj] == g {
					rep.viol = append(rep.viol, Violation{goal: fmt.Sprintf("%s is never changed [%d-bit int]", g.RelString(nil), w), msg: "it is written after initialisation", where: wr.where})
				}
			}
			if len(rep.viol) == n {
				rep.discharged++
			}
		}
	}
}

const effFixture = `package fixture

type T struct{ n int; b []byte }

var g int
var t T
var m = map[int]int{}
var tab = [4]int{1, 2, 3, 4}

func Global(x int) int { g = x; return x }
func bump(p *int) { *p++ }
func Alias() { bump(&t.n) }
func Elem(i int) { s := tab[:]; s[i&3] = 0 }
func Map(k int) { m[k] = 1 }
func Order() (s int) { for k := range m { s = s*2 + k }; return }
func Start() { go bump(new(int)) }
func Param(p *T) { p.n = 1 }
func Kept(b []byte) { t.b = b }
func Append(b []byte, x byte) []byte { return append(b, x) }
func Reuse(x byte) []byte { return append(t.b[:0], x) }
func Clean(x int) int { l := T{n: x}; bump(&l.n); a := tab; a[0] = 1; return l.n + a[1] }
`

// effectsSelfTest runs the effect rules on code with known effects: each rule
// must report its example, and only that.
func effectsSelfTest() error {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "fixture.go", effFixture, 0)
	if err != nil {
		return err
	}
	sp, _, err := ssautil.BuildPackage(&types.Config{}, fset, types.NewPackage("fixture", "fixture"), []*ast.File{f}, ssa.InstantiateGenerics)
	if err != nil {
		return err
	}
	want := map[string]bool{"Global": true, "bump": true, "Alias": false, "Elem": true, "Map": true, "Order": true, "Start": true, "Param": true, "Kept": true, "Append": false, "Reuse": true, "Clean": false}
	in := &Interp{prog: sp.Prog, repo: "fixture", pkgs: map[string]*ssa.Package{"fixture": sp}}
	e := newEffects(in, func(fn *ssa.Function) bool { return fn.Pkg == sp })
	for _, fn := range exportedOf(sp.Prog, sp) {
		e.entry(fn)
	}
	e.initialiser(sp.Func("init"))
	e.solve()
	shared := e.shared()
	got := map[string]bool{}
	for _, x := range e.found {
		i := strings.LastIndexByte(x.where, '.')
		got[strings.TrimSuffix(x.where[i+1:], ")")] = true
	}
	for _, wr := range e.writes {
		if shared[wr.obj] != nil || wr.obj.param != nil && !appendTarget(wr.obj.param) {
			got[wr.fn.Name()] = true
		}
	}
	for n, w := range want {
		if got[n] != w {
			return fmt.Errorf("the effect rules are wrong on the example %s: reported %v, expected %v", n, got[n], w)
		}
	}
	return nil
}
