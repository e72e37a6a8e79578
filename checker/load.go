package main

// Loading of the analysed module for one word size.

import (
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type fnSet struct {
	mu sync.Mutex
	m  map[*ssa.Function]bool
}

func (s *fnSet) add(fn *ssa.Function) {
	s.mu.Lock()
	s.m[fn] = true
	s.mu.Unlock()
}

// Program is the module as loaded for one architecture.
type Program struct {
	*Interp
	root     string
	repoPkgs []*packages.Package
	buildMu  sync.Mutex
}

func goEnv(arch string) []string {
	env := os.Environ()
	set := map[string]string{
		"GOARCH": arch, "GOOS": "linux", "CGO_ENABLED": "0", "GOFLAGS": "-mod=readonly", "GOPROXY": "off",
		"GOWORK": "off", "GOTOOLCHAIN": "local", "GO111MODULE": "on", "GOSUMDB": "off",
	}
	out := env[:0:0]
	for _, e := range env {
		k := e[:strings.IndexByte(e, '=')]
		if _, ok := set[k]; !ok {
			out = append(out, e)
		}
	}
	keys := make([]string, 0, len(set))
	for k := range set {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		out = append(out, k+"="+set[k])
	}
	return out
}

// loadProgram type-checks the module at dir and all it imports, and builds the
// intermediate form. Any package error is an error.
func loadProgram(dir, arch string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
		Env: goEnv(arch),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages under %s", dir)
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		if len(errs) > 5 {
			errs = errs[:5]
		}
		return nil, fmt.Errorf("the tree does not type-check for %s: %s", arch, strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	in := &Interp{prog: prog, arch: arch, intW: 64, pkgs: map[string]*ssa.Package{}, fnSeen: &fnSet{m: map[*ssa.Function]bool{}}}
	if arch == "386" {
		in.intW = 32
	}
	p := &Program{Interp: in, root: dir}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no intermediate form for %s", pkgs[i].PkgPath)
		}
		if pkgs[i].Name == "main" {
			continue // build-ignored generators are not loaded; commands are not library code
		}
		sp.Build()
		in.pkgs[sp.Pkg.Path()] = sp
		p.repoPkgs = append(p.repoPkgs, pkgs[i])
		if m := pkgs[i].Module; m != nil {
			in.repo = m.Path
		}
	}
	if in.repo == "" {
		return nil, fmt.Errorf("no module at %s", dir)
	}
	for _, sp := range prog.AllPackages() {
		if _, ok := in.pkgs[sp.Pkg.Path()]; !ok {
			in.pkgs[sp.Pkg.Path()] = sp
		}
	}
	// bodies that runs may interpret are built up front: building is not
	// something concurrent runs should do
	var wg sync.WaitGroup
	for _, sp := range prog.AllPackages() {
		if noInterp[sp.Pkg.Path()] {
			continue
		}
		wg.Add(1)
		go func(sp *ssa.Package) { defer wg.Done(); sp.Build() }(sp)
	}
	wg.Wait()
	return p, nil
}

func (in *Interp) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	loadMu.Lock()
	defer loadMu.Unlock()
	sel := in.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return in.prog.MethodValue(sel)
}

var loadMu sync.Mutex

func (in *Interp) methodNamed(t types.Type, name string) *ssa.Function {
	loadMu.Lock()
	defer loadMu.Unlock()
	sel := in.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	fn := in.prog.MethodValue(sel)
	if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 || !isString(fn.Signature.Results().At(0).Type()) {
		return nil
	}
	return fn
}

func (in *Interp) bigType(name string) types.Type {
	p := in.pkgs["math/big"]
	if p == nil {
		panic(&undecided{"math/big is not imported by the analysed module"})
	}
	return p.Pkg.Scope().Lookup(name).Type()
}

func (in *Interp) bigFloatType() types.Type { return in.bigType("Float") }
func (in *Interp) bigIntType() types.Type   { return in.bigType("Int") }

// loadBoth loads the module for 64-bit and 32-bit int.
func loadBoth(dir string) (map[int]*Program, error) {
	if _, err := exec.LookPath("go"); err != nil {
		return nil, err
	}
	if abs, err := filepath.Abs(dir); err == nil {
		dir = abs
	}
	out := map[int]*Program{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var first error
	for w, arch := range map[int]string{64: "amd64", 32: "386"} {
		wg.Add(1)
		go func(w int, arch string) {
			defer wg.Done()
			p, err := loadProgram(dir, arch)
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				if first == nil {
					first = err
				}
				return
			}
			out[w] = p
		}(w, arch)
	}
	wg.Wait()
	return out, first
}
