package main

// Effects: which memory the functions of a package set may write, and which
// sources of non-determinism they reach. A flow-insensitive points-to analysis
// over the SSA form (objects: allocation sites, package variables, what the
// caller of an entry function passes in), run to a fixpoint.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type effObj struct {
	what   string
	global *ssa.Global
	param  *ssa.Parameter // memory the caller of an entry function passed in
	fn     *ssa.Function  // a function value
	free   []ssa.Value
}

type objSet map[*effObj]bool

type effects struct {
	in      *Interp
	prog    *ssa.Program
	inScope func(fn *ssa.Function) bool // bodies that are analysed
	pts     map[ssa.Value]objSet
	cont    map[*effObj]objSet
	rets    map[*ssa.Function][]objSet
	sites   map[any]*effObj
	reached map[*ssa.Function]bool // from entry functions
	initial map[*ssa.Function]bool // from package initialisers
	quiet   bool                   // a function of initial only is being analysed
	changed bool
	found   map[string]effFinding
	writes  map[string]effWrite
	instrs  int
	calls   int
}

type effFinding struct {
	kind, msg, where string
}

type effWrite struct {
	obj    *effObj
	where  string
	fn     *ssa.Function
	append bool
}

func newEffects(in *Interp, scope func(fn *ssa.Function) bool) *effects {
	return &effects{in: in, prog: in.prog, inScope: scope, pts: map[ssa.Value]objSet{}, cont: map[*effObj]objSet{},
		rets: map[*ssa.Function][]objSet{}, sites: map[any]*effObj{}, reached: map[*ssa.Function]bool{}, initial: map[*ssa.Function]bool{},
		found: map[string]effFinding{}, writes: map[string]effWrite{}}
}

func (e *effects) pos(fn *ssa.Function, p token.Pos) string {
	if !p.IsValid() {
		p = fn.Pos()
	}
	return fmt.Sprintf("%s (%s)", e.prog.Fset.Position(p), fn.RelString(nil))
}

func (e *effects) report(kind string, fn *ssa.Function, p token.Pos, format string, args ...any) {
	if e.quiet {
		return
	}
	f := effFinding{kind, fmt.Sprintf(format, args...), e.pos(fn, p)}
	e.found[f.kind+f.msg+f.where] = f
}

func (e *effects) obj(key any, mk func() *effObj) *effObj {
	o := e.sites[key]
	if o == nil {
		o = mk()
		e.sites[key] = o
	}
	return o
}

func (e *effects) globalObj(g *ssa.Global) *effObj {
	return e.obj(g, func() *effObj { return &effObj{what: "package variable " + g.RelString(nil), global: g} })
}

func (e *effects) addTo(dst *objSet, src objSet) {
	if len(src) == 0 {
		return
	}
	if *dst == nil {
		*dst = objSet{}
	}
	for o := range src {
		if !(*dst)[o] {
			(*dst)[o] = true
			e.changed = true
		}
	}
}

func (e *effects) addPts(v ssa.Value, src objSet) {
	d := e.pts[v]
	e.addTo(&d, src)
	if d != nil {
		e.pts[v] = d
	}
}

func (e *effects) addCont(o *effObj, src objSet) {
	d := e.cont[o]
	e.addTo(&d, src)
	if d != nil {
		e.cont[o] = d
	}
}

func (e *effects) of(v ssa.Value) objSet {
	switch v := v.(type) {
	case *ssa.Global:
		return objSet{e.globalObj(v): true}
	case *ssa.Function:
		return objSet{e.obj(v, func() *effObj { return &effObj{what: "function " + v.RelString(nil), fn: v} }): true}
	case *ssa.Const, *ssa.Builtin, nil:
		return nil
	}
	return e.pts[v]
}

func (e *effects) loaded(s objSet) objSet {
	out := objSet{}
	for o := range s {
		for c := range e.cont[o] {
			out[c] = true
		}
	}
	return out
}

func (e *effects) write(fn *ssa.Function, p token.Pos, s objSet, isAppend bool) {
	if e.quiet {
		return
	}
	for o := range s {
		w := effWrite{o, e.pos(fn, p), fn, isAppend}
		e.writes[o.what+w.where+fmt.Sprint(isAppend)] = w
	}
}

// hasPointers reports whether values of the type can refer to memory.
func hasPointers(t types.Type, depth int) bool {
	if depth > 8 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type(), depth+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPointers(u.Elem(), depth+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasPointers(u.At(i).Type(), depth+1) {
				return true
			}
		}
		return false
	}
	return true
}

// entry marks a function that outsiders call, with memory of theirs.
func (e *effects) entry(fn *ssa.Function) {
	for _, p := range fn.Params {
		if !hasPointers(p.Type(), 0) {
			continue
		}
		p := p
		o := e.obj(p, func() *effObj {
			return &effObj{what: fmt.Sprintf("memory of argument %s of %s", p.Name(), fn.RelString(nil)), param: p}
		})
		e.addCont(o, objSet{o: true})
		e.addPts(p, objSet{o: true})
	}
	e.reach(fn)
}

func (e *effects) reach(fn *ssa.Function) {
	m := e.reached
	if e.quiet {
		m = e.initial
	}
	if fn != nil && !m[fn] {
		m[fn] = true
		e.changed = true
	}
}

// initialiser adds a package initialiser: what it stores in package variables
// counts, but it may write.
func (e *effects) initialiser(fn *ssa.Function) {
	if fn != nil {
		e.initial[fn] = true
	}
}

// shared lists what package variables of the scope are or refer to.
func (e *effects) shared() map[*effObj]*ssa.Global {
	out := map[*effObj]*ssa.Global{}
	var visit func(o *effObj, g *ssa.Global)
	visit = func(o *effObj, g *ssa.Global) {
		if _, ok := out[o]; ok {
			return
		}
		out[o] = g
		for c := range e.cont[o] {
			visit(c, g)
		}
	}
	for _, o := range e.sites {
		if o.global != nil {
			visit(o, o.global)
		}
	}
	return out
}

func (e *effects) solve() {
	for {
		e.changed = false
		fns := make([]*ssa.Function, 0, len(e.reached))
		for fn := range e.reached {
			fns = append(fns, fn)
		}
		for fn := range e.initial {
			if !e.reached[fn] {
				fns = append(fns, fn)
			}
		}
		sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
		e.instrs, e.calls = 0, 0
		for _, fn := range fns {
			e.quiet = !e.reached[fn]
			e.function(fn)
		}
		e.quiet = false
		if !e.changed {
			return
		}
	}
}

func (e *effects) function(fn *ssa.Function) {
	if fn.Blocks == nil {
		e.report("body", fn, fn.Pos(), "%s has no Go body, so its effects are unknown", fn.RelString(nil))
		return
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			e.instrs++
			e.instr(fn, in)
		}
	}
}

func (e *effects) instr(fn *ssa.Function, in ssa.Instruction) {
	fresh := func(what string) objSet {
		return objSet{e.obj(in, func() *effObj { return &effObj{what: what + " at " + e.pos(fn, in.Pos())} }): true}
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		e.addPts(in, fresh("local"))
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		e.addPts(in.(ssa.Value), fresh("new memory"))
	case *ssa.FieldAddr:
		e.addPts(in, e.of(in.X))
	case *ssa.IndexAddr:
		e.addPts(in, e.of(in.X))
	case *ssa.Field:
		e.flow(in, in.X)
	case *ssa.Index:
		e.flow(in, in.X)
	case *ssa.Lookup:
		if hasPointers(in.Type(), 0) {
			e.addPts(in, e.loaded(e.of(in.X)))
		}
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			if hasPointers(in.Type(), 0) {
				e.addPts(in, e.loaded(e.of(in.X)))
				for o := range e.of(in.X) {
					if o.global != nil && !e.inScopePkg(o.global.Pkg) {
						e.addPts(in, objSet{o: true}) // what a foreign variable refers to
					}
				}
			}
		case token.ARROW:
			e.report("channel", fn, in.Pos(), "receive from a channel: the result depends on another goroutine")
		}
	case *ssa.Store:
		if hasPointers(in.Val.Type(), 0) {
			for o := range e.of(in.Addr) {
				e.addCont(o, e.of(in.Val))
			}
		}
		e.write(fn, in.Pos(), e.of(in.Addr), false)
	case *ssa.MapUpdate:
		for o := range e.of(in.Map) {
			e.addCont(o, e.of(in.Key))
			e.addCont(o, e.of(in.Value))
		}
		e.write(fn, in.Pos(), e.of(in.Map), false)
	case *ssa.Slice:
		e.addPts(in, e.of(in.X))
	case *ssa.Phi:
		for _, v := range in.Edges {
			e.flow(in, v)
		}
	case *ssa.ChangeType:
		e.flow(in, in.X)
	case *ssa.ChangeInterface:
		e.flow(in, in.X)
	case *ssa.MakeInterface:
		e.flow(in, in.X)
	case *ssa.TypeAssert:
		e.flow(in, in.X)
	case *ssa.Extract:
		if hasPointers(in.Type(), 0) {
			if c, ok := in.Tuple.(*ssa.Call); ok {
				if rs, ok := e.callRets(c, in.Index); ok {
					e.addPts(in, rs)
					return
				}
			}
			e.addPts(in, e.of(in.Tuple))
		}
	case *ssa.SliceToArrayPointer:
		e.addPts(in, e.of(in.X))
	case *ssa.Convert:
		if _, ok := in.Type().Underlying().(*types.Slice); ok {
			e.addPts(in, fresh("converted string"))
		} else if isUnsafe(in.Type()) || isUnsafe(in.X.Type()) {
			e.report("unsafe", fn, in.Pos(), "conversion by way of unsafe.Pointer")
			e.flow(in, in.X)
		}
	case *ssa.MultiConvert:
		e.flow(in, in.X)
	case *ssa.MakeClosure:
		f := in.Fn.(*ssa.Function)
		for i, b := range in.Bindings {
			e.addPts(f.FreeVars[i], e.of(b))
		}
		e.addPts(in, e.of(f))
	case *ssa.Go:
		e.report("goroutine", fn, in.Pos(), "it starts a goroutine, which may outlive the call")
		e.call(fn, in, in.Common(), nil)
	case *ssa.Defer:
		e.call(fn, in, in.Common(), nil)
	case *ssa.Call:
		e.call(fn, in, in.Common(), in)
	case *ssa.Send:
		e.report("channel", fn, in.Pos(), "send on a channel")
	case *ssa.Select:
		e.report("channel", fn, in.Pos(), "select: the choice depends on other goroutines")
	case *ssa.Range:
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			e.report("map range", fn, in.Pos(), "it ranges over a map, whose order is random")
		}
	case *ssa.Return:
		rs := e.rets[fn]
		if rs == nil {
			rs = make([]objSet, len(in.Results))
			e.rets[fn] = rs
		}
		for i, v := range in.Results {
			e.addTo(&rs[i], e.of(v))
		}
	}
}

func isUnsafe(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

func (e *effects) flow(dst, src ssa.Value) {
	if hasPointers(dst.Type(), 0) {
		e.addPts(dst, e.of(src))
	}
}

func (e *effects) inScopePkg(p *ssa.Package) bool {
	return p != nil && strings.HasPrefix(p.Pkg.Path(), e.in.repo)
}

// callees resolves a call inside the scope; ok is false when some callee is
// unknown.
func (e *effects) callees(c *ssa.CallCommon) (fns []*ssa.Function, ok bool) {
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}, true
	}
	if c.IsInvoke() {
		for o := range e.of(c.Value) {
			_ = o
		}
		// every type of the program's repo packages that has the method
		seen := map[*ssa.Function]bool{}
		for _, p := range e.in.pkgs {
			if !e.inScopePkg(p) {
				continue
			}
			for _, m := range p.Members {
				t, isT := m.(*ssa.Type)
				if !isT {
					continue
				}
				for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					if it, isI := c.Value.Type().Underlying().(*types.Interface); isI && !types.IsInterface(tt) && types.Implements(tt, it) {
						if f := e.in.lookupMethod(tt, c.Method); f != nil && !seen[f] {
							seen[f] = true
							fns = append(fns, f)
						}
					}
				}
			}
		}
		return fns, true
	}
	ok = false
	for o := range e.of(c.Value) {
		if o.fn != nil {
			fns = append(fns, o.fn)
			ok = true
		}
	}
	return fns, ok
}

func (e *effects) callRets(c *ssa.Call, i int) (objSet, bool) {
	fns, ok := e.callees(c.Common())
	if !ok {
		return nil, false
	}
	out := objSet{}
	for _, f := range fns {
		if !e.inScope(f) {
			return nil, false
		}
		if rs := e.rets[f]; rs != nil {
			for o := range rs[i] {
				out[o] = true
			}
		}
	}
	return out, true
}

func (e *effects) call(fn *ssa.Function, site ssa.Instruction, c *ssa.CallCommon, res ssa.Value) {
	e.calls++
	if b, ok := c.Value.(*ssa.Builtin); ok {
		e.builtin(fn, site, b, c, res)
		return
	}
	fns, ok := e.callees(c)
	if !ok {
		e.report("call", fn, site.Pos(), "call of an unknown function value, whose effects are unknown")
		return
	}
	for _, f := range fns {
		if !e.inScope(f) {
			e.foreign(fn, site, f, c, res)
			continue
		}
		e.reach(f)
		args := c.Args
		if c.IsInvoke() {
			args = append([]ssa.Value{c.Value}, c.Args...)
		}
		for i, a := range args {
			if i < len(f.Params) && hasPointers(f.Params[i].Type(), 0) {
				e.addPts(f.Params[i], e.of(a))
			}
		}
		if res != nil && f.Signature.Results().Len() == 1 {
			if rs := e.rets[f]; rs != nil && hasPointers(res.Type(), 0) {
				e.addPts(res, rs[0])
			}
		}
	}
}

func (e *effects) builtin(fn *ssa.Function, site ssa.Instruction, b *ssa.Builtin, c *ssa.CallCommon, res ssa.Value) {
	switch b.Name() {
	case "append":
		o := objSet{e.obj(site, func() *effObj { return &effObj{what: "new memory at " + e.pos(fn, site.Pos())} }): true}
		for p := range e.of(c.Args[0]) {
			o[p] = true
		}
		if res != nil {
			e.addPts(res, o)
		}
		if len(c.Args) > 1 {
			if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && hasPointers(s.Elem(), 0) {
				for d := range o {
					e.addCont(d, e.loaded(e.of(c.Args[1])))
					e.addCont(d, e.loaded(e.of(c.Args[0])))
				}
			}
		}
		e.write(fn, site.Pos(), e.of(c.Args[0]), true)
	case "copy":
		for d := range e.of(c.Args[0]) {
			e.addCont(d, e.loaded(e.of(c.Args[1])))
		}
		e.write(fn, site.Pos(), e.of(c.Args[0]), false)
	case "delete", "clear":
		e.write(fn, site.Pos(), e.of(c.Args[0]), false)
	case "print", "println":
		e.report("output", fn, site.Pos(), "it prints to standard error")
	case "recover":
		if res != nil {
			e.addPts(res, nil)
		}
	}
}

// Packages whose functions have no effect but on what they are handed, and
// whose results depend on their arguments only.
var purePkgs = map[string]bool{
	"math": true, "math/bits": true, "math/big": true, "math/cmplx": true, "strings": true, "bytes": true, "strconv": true,
	"errors": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true, "sort": true, "slices": true, "cmp": true,
	"encoding/binary": true, "encoding/hex": true, "fmt": true, "iter": true, "github.com/pkg/errors": true,
}

func pureFmt(name string) bool {
	return strings.HasPrefix(name, "S") || strings.HasPrefix(name, "Append") || name == "Errorf" || name == "Fprintf" || name == "Fprint" || name == "Fprintln"
}

// foreign handles a call that leaves the analysed scope.
func (e *effects) foreign(fn *ssa.Function, site ssa.Instruction, f *ssa.Function, c *ssa.CallCommon, res ssa.Value) {
	path := ""
	if p := pkgOf(f); p != nil {
		path = p.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		path = f.Object().Pkg().Path()
	}
	if path != "" && strings.HasPrefix(path, e.in.repo) {
		// repository code outside the points-to scope: decided elsewhere
		e.reach1(f)
		return
	}
	if !purePkgs[path] {
		if path == "" && f.Synthetic != "" {
			return
		}
		if path == "sync" && f.Signature.Recv() != nil && strings.HasSuffix(f.Signature.Recv().Type().String(), "sync.Pool") {
			e.report("call", fn, site.Pos(), undecidedMark+"what a sync.Pool hands out may depend on earlier calls")
			return
		}
		e.report("call", fn, site.Pos(), "call of %s, which may change outside state or depend on it", f.RelString(nil))
		return
	}
	if path == "fmt" && !pureFmt(f.Name()) {
		e.report("call", fn, site.Pos(), "call of %s, which reads or writes outside state", f.RelString(nil))
		return
	}
	fresh := objSet{e.obj(site, func() *effObj { return &effObj{what: "result at " + e.pos(fn, site.Pos())} }): true}
	if foreignReads(path, f) {
		if res != nil && hasPointers(res.Type(), 0) {
			e.addPts(res, fresh)
		}
		return
	}
	// it may write what it is handed and may return any of it
	for i, a := range c.Args {
		t := a.Type()
		if !hasPointers(t, 0) {
			continue
		}
		if types.IsInterface(t) && (path == "fmt" && i > 0 || path == "errors") {
			continue // operands that are printed
		}
		if !bigReads(path, f, i) {
			e.write(fn, site.Pos(), e.of(a), false)
		}
		for o := range e.of(a) {
			fresh[o] = true
		}
	}
	if res != nil && hasPointers(res.Type(), 0) {
		e.addPts(res, fresh)
	}
}

// bigReads: the method of math/big leaves its i-th argument (the receiver is
// the 0-th) as it is, and shares no memory with it.
func bigReads(path string, f *ssa.Function, i int) bool {
	if path != "math/big" || f.Signature.Recv() == nil {
		return false
	}
	switch f.Name() {
	case "MantExp", "Int", "Rat", "FillBytes", "Append", "AppendText", "Format":
		return i == 0
	case "Set", "SetMantExp", "SetInt", "Add", "Sub", "Mul", "Quo", "Neg", "Abs", "And", "AndNot", "Or", "Xor", "Not", "Lsh", "Rsh", "SetBit", "Rem",
		"Div", "Mod", "Copy", "SetFloat64", "SetPrec", "SetMode", "SetInf", "SetInt64", "SetUint64", "Exp", "Sqrt", "SetRat", "SetBytes":
		return i > 0
	}
	return false
}

func (e *effects) reach1(f *ssa.Function) { e.reach(f) }

// foreignReads lists what only reads its arguments.
func foreignReads(path string, f *ssa.Function) bool {
	n := f.Name()
	switch path {
	case "math", "math/bits", "math/cmplx", "errors", "unicode", "unicode/utf16", "cmp":
		return true
	case "strings":
		return f.Signature.Recv() == nil
	case "strconv":
		return !strings.HasPrefix(n, "Append")
	case "unicode/utf8":
		return n != "EncodeRune" && n != "AppendRune"
	case "fmt":
		return n == "Errorf" || strings.HasPrefix(n, "Sprint")
	case "bytes":
		switch n {
		case "Equal", "Compare", "Contains", "ContainsAny", "ContainsRune", "Count", "HasPrefix", "HasSuffix", "Index", "IndexAny", "IndexByte",
			"IndexFunc", "IndexRune", "LastIndex", "LastIndexAny", "LastIndexByte", "Repeat", "Join", "Clone", "ToLower", "ToUpper":
			return true
		}
	case "math/big":
		if f.Signature.Recv() == nil {
			return n != "Jacobi"
		}
		switch n {
		case "Acc", "Cmp", "CmpAbs", "Float32", "Float64", "Int64", "Uint64", "IsInf", "IsInt", "IsInt64", "IsUint64", "MinPrec", "Mode", "Prec", "Sign",
			"Signbit", "String", "Text", "MarshalText", "GobEncode", "BitLen", "Bit", "TrailingZeroBits", "Bytes", "ProbablyPrime", "Denom", "IsInt32":
			return true
		}
	}
	return false
}
