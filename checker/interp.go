package main

// The abstract interpreter over go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Interp is one loaded program for one word size.
type Interp struct {
	prog   *ssa.Program
	intW   int
	arch   string
	repo   string // import path prefix of the analysed module
	pkgs   map[string]*ssa.Package
	fnSeen *fnSet
	// package variables that change after initialisation (history.go)
	mutable map[*ssa.Global]bool
}

type mem struct {
	globals      map[*ssa.Global]*Cell
	initDone     map[*ssa.Package]bool
	inInit       int
	paramWrites  []string
	globalWrites []string
	stack        []*frame
	maxSteps     int
	watch        watch
	histOK       bool // the goal is decided after earlier calls, too
	pools        map[*Cell][]Value
	smaps        map[*Cell]*mapObj
	touched      map[*ssa.Global]bool
	firstArg     *Cell // the variable of an earlier call, to be used again
	costCap      *Lin  // what may be allocated, in bits; nil: anything
	unordered    int
	open         string                        // why a run without violation is undecided
	hidden       []Value                       // kept by package state in ways that are not modelled as memory
	spoilt       bool                          // an argument is read whose mantissa the call has certainly overwritten
	once         map[*Cell]bool                // sync.Once done
	narrowHook   func(f FloatV) (FloatV, bool) // float32 of an input, given as an input of its own
}

type frame struct {
	fn        *ssa.Function
	env       map[ssa.Value]Value
	defers    []deferred
	panicking *goPanic
	recovered bool
	instr     ssa.Instruction
	result    Value
}

type deferred struct {
	fn   FuncV
	args []Value
	inv  func() Value
}

func (r *Run) where() string {
	for i := len(r.stack) - 1; i >= 0; i-- {
		f := r.stack[i]
		if f.fn.Pkg == nil && f.fn.Origin() == nil && f.fn.Parent() == nil && i > 0 {
			continue
		}
		if p := pkgOf(f.fn); p != nil && !strings.HasPrefix(p.Pkg.Path(), r.in.repo) {
			continue
		}
		return r.posOf(f)
	}
	return r.entry
}

func (r *Run) posOf(f *frame) string {
	pos := token.NoPos
	if f.instr != nil {
		pos = f.instr.Pos()
	}
	if !pos.IsValid() && f.instr != nil {
		// nearest instruction with a position
		b := f.instr.Block()
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				pos = in.Pos()
			}
			if in == f.instr && pos.IsValid() {
				break
			}
		}
	}
	if !pos.IsValid() {
		pos = f.fn.Pos()
	}
	p := r.in.prog.Fset.Position(pos)
	return fmt.Sprintf("%s:%d (%s)", p.Filename, p.Line, f.fn.RelString(nil))
}

func pkgOf(fn *ssa.Function) *ssa.Package {
	for fn != nil {
		if fn.Pkg != nil {
			return fn.Pkg
		}
		if o := fn.Origin(); o != nil && o != fn {
			fn = o
			continue
		}
		fn = fn.Parent()
	}
	return nil
}

func (r *Run) rtPanic(format string, args ...any) {
	panic(&goPanic{val: "runtime error: " + fmt.Sprintf(format, args...), pos: r.where()})
}

func (r *Run) initMem() {
	r.globals = map[*ssa.Global]*Cell{}
	r.initDone = map[*ssa.Package]bool{}
	if r.maxSteps == 0 {
		r.maxSteps = 400000
		r.watch.at = watchFrom
	}
}

func (r *Run) global(g *ssa.Global) *Cell {
	p := g.Pkg
	if !r.initDone[p] && g.Name() != "init$guard" {
		r.initDone[p] = true
		r.inInit++
		if init := p.Func("init"); init != nil {
			r.callFn(init, nil, nil)
		}
		r.inInit--
		if r.inInit == 0 {
			r.markGlobals()
		}
	}
	if r.inInit == 0 && r.in.mutable[g] {
		if r.touched == nil {
			r.touched = map[*ssa.Global]bool{}
		}
		r.touched[g] = true
	}
	c, ok := r.globals[g]
	if !ok {
		c = r.newCell(g.Type().(*types.Pointer).Elem(), ownGlobal)
		c.name = g.RelString(nil)
		r.globals[g] = c
	}
	return c
}

// markGlobals gives everything reachable from package state the global owner.
func (r *Run) markGlobals() {
	seen := map[*Cell]bool{}
	for _, c := range r.globals {
		name := c.name
		r.reachCell(c, seen, func(k *Cell) {
			if k.own == ownFresh {
				k.own = ownGlobal
				k.name = name
			}
		})
	}
}

func (r *Run) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return r.zero(t)
	}
	if w, s, ok := r.basic(t); ok {
		v := constant.ToInt(c.Value)
		x, exact := new(big.Int).SetString(v.ExactString(), 10)
		if !exact {
			r.giveUp("constant %s", c)
		}
		return intConst(w, s, x)
	}
	if w := floatWidth(t); w > 0 {
		if w == 32 {
			f, _ := constant.Float32Val(c.Value)
			return constFloat(32, float64(f))
		}
		f, _ := constant.Float64Val(c.Value)
		return constFloat(64, f)
	}
	if isString(t) {
		return strConst(constant.StringVal(c.Value))
	}
	if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		return BoolV{bitOf(constant.BoolVal(c.Value))}
	}
	r.giveUp("constant %s of type %s", c, t)
	return nil
}

func (r *Run) get(f *frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return r.constVal(v)
	case *ssa.Global:
		return PtrV{r.global(v)}
	case *ssa.Function:
		return FuncV{fn: v}
	case *ssa.Builtin:
		return FuncV{builtin: v}
	}
	x, ok := f.env[v]
	if !ok {
		r.giveUp("no value for %s in %s", v.Name(), f.fn)
	}
	return x
}

func (r *Run) callFn(fn *ssa.Function, args []Value, free []Value) Value {
	if fn.Blocks == nil {
		r.giveUp("call of %s, which has no Go body and no model", fn)
	}
	if len(r.stack) > 150 {
		r.giveUp("call depth above 150 in %s", fn)
	}
	if r.in.fnSeen != nil {
		r.in.fnSeen.add(fn)
	}
	f := &frame{fn: fn, env: make(map[ssa.Value]Value, 16)}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.env[p] = free[i]
	}
	if len(r.stack) == 0 && r.inInit == 0 {
		if p := pkgOf(fn); p != nil && strings.HasPrefix(p.Pkg.Path(), r.in.repo) {
			p := r.in.prog.Fset.Position(fn.Pos())
			r.entry = fmt.Sprintf("%s:%d (%s)", p.Filename, p.Line, fn.RelString(nil))
		}
	}
	r.stack = append(r.stack, f)
	depth := len(r.stack)
	r.exec(f)
	r.stack = r.stack[:depth-1]
	return f.result
}

// exec runs the frame, with Go's defer/recover semantics.
func (r *Run) exec(f *frame) {
	hasDefer := false
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Defer); ok {
				hasDefer = true
			}
		}
	}
	if !hasDefer {
		r.blocks(f, f.fn.Blocks[0])
		return
	}
	depth := len(r.stack)
	p := r.catch(func() { r.blocks(f, f.fn.Blocks[0]) })
	if p == nil {
		return
	}
	r.stack = r.stack[:depth]
	f.panicking = p
	r.runDefers(f)
	if f.panicking != nil {
		panic(f.panicking)
	}
	if f.fn.Recover != nil {
		r.blocks(f, f.fn.Recover)
		return
	}
	f.result = r.resultZero(f.fn)
}

func (r *Run) resultZero(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return r.zero(res.At(0).Type())
	}
	return r.zero(res)
}

func (r *Run) catch(fn func()) (p *goPanic) {
	defer func() {
		if e := recover(); e != nil {
			if gp, ok := e.(*goPanic); ok {
				p = gp
				return
			}
			panic(e)
		}
	}()
	fn()
	return nil
}

func (r *Run) runDefers(f *frame) {
	depth := len(r.stack)
	for len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		p := r.catch(func() {
			if d.inv != nil {
				d.inv()
				return
			}
			r.callValue(f, d.fn, d.args, nil)
		})
		if p != nil {
			r.stack = r.stack[:depth]
			f.panicking = p
		}
	}
}

func (r *Run) blocks(f *frame, b *ssa.BasicBlock) {
	var prev, joined *ssa.BasicBlock
	for {
		if r.steps > r.watch.at {
			r.watchBlock(f, prev, b)
		}
		n := 0
		if b == joined {
			n = phiCount(b)
			joined = nil
		} else {
			n = r.phis(f, prev, b)
		}
		var next *ssa.BasicBlock
		for _, in := range b.Instrs[n:] {
			r.steps++
			if r.steps > r.maxSteps {
				r.giveUp("more than %d steps", r.maxSteps)
			}
			f.instr = in
			switch in := in.(type) {
			case *ssa.If:
				c := r.get(f, in.Cond).(BoolV)
				if c.b = r.bit(c.b); !c.b.isConst() {
					if next, _ = r.joinArms(f, b, c.b); next != nil {
						joined = next
						break
					}
				}
				if r.decideBit(c.b) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				switch len(in.Results) {
				case 0:
				case 1:
					f.result = r.get(f, in.Results[0])
				default:
					t := make(TupleV, len(in.Results))
					for i, x := range in.Results {
						t[i] = r.get(f, x)
					}
					f.result = t
				}
				return
			case *ssa.Panic:
				v := r.get(f, in.X)
				panic(&goPanic{val: r.panicText(v), obj: v, pos: r.where()})
			default:
				r.step(f, in)
			}
		}
		if next == nil {
			r.giveUp("block without successor in %s", f.fn)
		}
		prev, b = b, next
	}
}

func phiCount(b *ssa.BasicBlock) (n int) {
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	return n
}

// phis sets the phis of b, all at once, and returns their number.
func (r *Run) phis(f *frame, prev, b *ssa.BasicBlock) int {
	n := phiCount(b)
	vals := make([]Value, n)
	for k := range vals {
		for i, p := range b.Preds {
			if p == prev {
				vals[k] = r.get(f, b.Instrs[k].(*ssa.Phi).Edges[i])
				break
			}
		}
	}
	for k, v := range vals {
		f.env[b.Instrs[k].(*ssa.Phi)] = v
	}
	return n
}

func (r *Run) panicText(v Value) string {
	if i, ok := v.(IfaceV); ok {
		if s, ok := i.v.(StrV); ok {
			if g, ok := r.strGo(s); ok {
				return g
			}
		}
		if p, ok := i.v.(PtrV); ok && p.c != nil && i.t.String() == "*errors.errorString" && len(p.c.kids) == 1 {
			if s, ok := p.c.kids[0].v.(StrV); ok {
				if g, ok := r.strGo(s); ok {
					return g
				}
			}
		}
		if i.t != nil {
			return "value of type " + i.t.String()
		}
	}
	return "panic"
}

func (r *Run) step(f *frame, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		c := r.newCell(in.Type().Underlying().(*types.Pointer).Elem(), ownFresh)
		c.name = in.Comment
		f.env[in] = PtrV{c}
	case *ssa.BinOp:
		if in.Op == token.OR {
			if v, ok := r.orForZero(in, r.get(f, in.X), r.get(f, in.Y)); ok {
				f.env[in] = v
				break
			}
		}
		f.env[in] = r.binop(in.Op, r.get(f, in.X), r.get(f, in.Y), in.X.Type())
	case *ssa.UnOp:
		f.env[in] = r.unop(f, in)
	case *ssa.Call:
		f.env[in] = r.call(f, &in.Call)
	case *ssa.Defer:
		fn, args, inv := r.prepare(f, &in.Call)
		f.defers = append(f.defers, deferred{fn, args, inv})
	case *ssa.RunDefers:
		r.runDefers(f)
		if f.panicking != nil {
			panic(f.panicking)
		}
	case *ssa.ChangeInterface:
		f.env[in] = r.get(f, in.X)
	case *ssa.ChangeType:
		f.env[in] = r.get(f, in.X)
	case *ssa.Convert:
		f.env[in] = r.convert(r.get(f, in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		f.env[in] = r.convert(r.get(f, in.X), in.X.Type(), in.Type())
	case *ssa.MakeInterface:
		f.env[in] = IfaceV{t: in.X.Type(), v: r.get(f, in.X)}
	case *ssa.Extract:
		f.env[in] = r.get(f, in.Tuple).(TupleV)[in.Index]
	case *ssa.Field:
		a, ok := r.get(f, in.X).(AggV)
		if !ok {
			r.giveUp("field of an opaque value of type %s", in.X.Type())
		}
		f.env[in] = a.f[in.Field]
	case *ssa.FieldAddr:
		p := PtrV{r.cellOf(r.get(f, in.X))}
		if !p.c.agg {
			r.giveUp("field of an opaque value of type %s", p.c.typ)
		}
		f.env[in] = PtrV{r.kid(p.c, in.Field)}
	case *ssa.Index:
		f.env[in] = r.index(r.get(f, in.X), r.get(f, in.Index).(IntV), in.X.Type())
	case *ssa.IndexAddr:
		f.env[in] = r.indexAddr(r.get(f, in.X), r.get(f, in.Index).(IntV))
	case *ssa.Lookup:
		f.env[in] = r.lookup(r.get(f, in.X), r.get(f, in.Index), in)
	case *ssa.Store:
		switch p := r.get(f, in.Addr).(type) {
		case PtrV:
			if p.c == nil {
				r.rtPanic("nil pointer dereference")
			}
			r.store(p.c, r.get(f, in.Val))
		case SymPtr:
			i := int(r.concreteInt(p.idx).Int64())
			r.store(r.kid(p.arr, p.off+i), r.get(f, in.Val))
		default:
			r.giveUp("store through %T", p)
		}
	case *ssa.Slice:
		f.env[in] = r.slice(f, in)
	case *ssa.MakeSlice:
		r.charge(r.toLin(r.get(f, in.Cap).(IntV)), "a slice of this capacity")
		n := r.concreteInt(r.get(f, in.Len).(IntV))
		capV := r.get(f, in.Cap).(IntV)
		if _, ok := r.constOf(capV); !ok {
			// a capacity that varies: none is relied on
			l := r.toLin(capV)
			if !r.geq(l.addC(neg(n))) || n.Sign() < 0 {
				r.rtPanic("makeslice: len or cap out of range")
			}
			if !r.geq(linI(1 << 30).sub(l)) {
				r.giveUp("make with a capacity over 2^30")
			}
			s := r.makeSlice(in.Type().Underlying().(*types.Slice).Elem(), int(n.Int64()), int(n.Int64()), ownFresh)
			s.pre = &prefix{name: "make", plain: true, used: int(n.Int64())}
			f.env[in] = s
			break
		}
		c := r.concreteInt(capV)
		if n.Sign() < 0 || c.Cmp(n) < 0 {
			r.rtPanic("makeslice: len or cap out of range")
		}
		if c.Cmp(bi(1<<20)) > 0 {
			r.giveUp("make of %s elements", c)
		}
		f.env[in] = r.makeSlice(in.Type().Underlying().(*types.Slice).Elem(), int(n.Int64()), int(c.Int64()), ownFresh)
	case *ssa.MakeMap:
		f.env[in] = MapV{&mapObj{m: map[string]*mapEntry{}}}
	case *ssa.MapUpdate:
		m := r.get(f, in.Map).(MapV)
		if m.m == nil {
			panic(&goPanic{val: "assignment to entry in nil map", pos: r.where()})
		}
		k := r.get(f, in.Key)
		if m.m.own == ownGlobal && r.inInit == 0 {
			r.globalWrites = append(r.globalWrites, r.where()+": write to a package-level map")
		}
		r.mapSet(m.m, k, r.get(f, in.Value))
	case *ssa.MakeClosure:
		fv := FuncV{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			fv.free = append(fv.free, r.get(f, b))
		}
		f.env[in] = fv
	case *ssa.TypeAssert:
		f.env[in] = r.typeAssert(r.get(f, in.X).(IfaceV), in)
	case *ssa.Range:
		switch x := r.get(f, in.X).(type) {
		case StrV:
			f.env[in] = &iterV{isStr: true, chars: r.chars(x)}
		case MapV:
			it := &iterV{m: x.m}
			if x.m != nil {
				it.keys = append(it.keys, x.m.ord...)
				if len(it.keys) > 1 {
					r.giveUp("iteration over a map with several entries")
				}
			}
			f.env[in] = it
		}
	case *ssa.Next:
		f.env[in] = r.next(r.get(f, in.Iter).(*iterV), in)
	case *ssa.SliceToArrayPointer:
		s := r.get(f, in.X).(SliceV)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.len < n {
			r.rtPanic("slice to array pointer conversion")
		}
		if s.off != 0 || s.arr == nil || s.arr.n != n {
			r.giveUp("slice to array pointer conversion of a sub-slice")
		}
		f.env[in] = PtrV{s.arr}
	default:
		r.giveUp("instruction %T (%s) is not modelled", in, in)
	}
}

func (r *Run) next(it *iterV, in *ssa.Next) Value {
	if it.isStr {
		w := intConst(r.in.intW, true, bi(int64(it.i)))
		if it.i >= len(it.chars) {
			return TupleV{BoolV{bit0}, w, intConst(32, true, bigZero)}
		}
		c := it.chars[it.i]
		lo, hi := r.interval(r.toLin(c))
		_ = lo
		if hi.Cmp(bi(127)) > 0 {
			v := r.concreteInt(c).Int64()
			if v >= 128 {
				// decode a concrete UTF-8 sequence
				var buf []byte
				for j := it.i; j < len(it.chars) && j < it.i+4; j++ {
					buf = append(buf, byte(r.concreteInt(it.chars[j]).Int64()))
				}
				for i, ru := range string(buf) {
					_ = i
					n := len(string(ru))
					if ru == 0xFFFD {
						n = 1
						if len(buf) >= 3 && buf[0] == 0xEF && buf[1] == 0xBF && buf[2] == 0xBD {
							n = 3
						}
					}
					it.i += n
					return TupleV{BoolV{bit1}, w, intConst(32, true, bi(int64(ru)))}
				}
			}
		}
		it.i++
		return TupleV{BoolV{bit1}, w, r.convInt(c, 32, true)}
	}
	if it.i >= len(it.keys) {
		t := in.Type().(*types.Tuple)
		return TupleV{BoolV{bit0}, r.zeroOr(t.At(1).Type()), r.zeroOr(t.At(2).Type())}
	}
	e := it.m.m[it.keys[it.i]]
	it.i++
	return TupleV{BoolV{bit1}, e.k, e.v}
}

func (r *Run) zeroOr(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return r.zero(t)
}

func (r *Run) typeAssert(x IfaceV, in *ssa.TypeAssert) Value {
	ok := false
	if x.t != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			ok = types.Implements(x.t, it)
		} else {
			ok = types.Identical(x.t, in.AssertedType)
		}
	}
	var v Value
	switch {
	case ok:
		v = x
		if _, isI := in.AssertedType.Underlying().(*types.Interface); !isI {
			v = x.v
		}
	case in.CommaOk:
		v = r.zero(in.AssertedType)
	default:
		r.rtPanic("interface conversion to %s", in.AssertedType)
	}
	if in.CommaOk {
		return TupleV{v, BoolV{bitOf(ok)}}
	}
	return v
}

func (r *Run) binop(op token.Token, x, y Value, t types.Type) Value {
	if _, ok := x.(OrV); !ok {
		if o, ok := y.(OrV); ok { // 0 == a|b
			x, y = o, x
		}
	}
	if o, ok := x.(OrV); ok {
		set := r.orIsSet(o)
		if op == token.EQL {
			set = set.not()
		}
		return BoolV{set}
	}
	switch a := x.(type) {
	case IntV:
		b := y.(IntV)
		switch op {
		case token.SHL, token.SHR:
			return r.shift(op, a, b)
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return BoolV{r.cmpInt(op, a, b)}
		}
		return r.intBin(op, a, b)
	case FloatV:
		b := y.(FloatV)
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return BoolV{bitOf(r.cmpFloat(op, a, b))}
		}
		return r.floatBin(op, a, b)
	case StrV:
		b := y.(StrV)
		switch op {
		case token.ADD:
			return concat(a, b)
		case token.EQL:
			return BoolV{r.eqStr(a, b)}
		case token.NEQ:
			return BoolV{r.eqStr(a, b).not()}
		}
		c := r.cmpStr(a, b)
		switch op {
		case token.LSS:
			return BoolV{bitOf(c < 0)}
		case token.LEQ:
			return BoolV{bitOf(c <= 0)}
		case token.GTR:
			return BoolV{bitOf(c > 0)}
		case token.GEQ:
			return BoolV{bitOf(c >= 0)}
		}
	}
	switch op {
	case token.EQL, token.NEQ:
		e := r.eqVal(x, y, t)
		if op == token.NEQ {
			e = e.not()
		}
		return BoolV{e}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if a, ok := x.(BoolV); ok {
			b := y.(BoolV)
			switch op {
			case token.AND:
				return BoolV{r.andBit(a.b, b.b)}
			case token.OR:
				return BoolV{r.orBit(a.b, b.b)}
			case token.XOR:
				return BoolV{r.xorBit(a.b, b.b)}
			}
		}
	}
	r.giveUp("operator %s on %T", op, x)
	return nil
}

func (r *Run) cmpStr(a, b StrV) int {
	x, y := r.chars(a), r.chars(b)
	for i := 0; i < len(x) && i < len(y); i++ {
		if r.decideBit(r.eqInt(x[i], y[i])) {
			continue
		}
		if r.decideBit(r.cmpInt(token.LSS, x[i], y[i])) {
			return -1
		}
		return 1
	}
	return len(x) - len(y)
}

func (r *Run) unop(f *frame, in *ssa.UnOp) Value {
	x := r.get(f, in.X)
	switch in.Op {
	case token.MUL:
		switch p := x.(type) {
		case PtrV:
			if p.c == nil {
				r.rtPanic("nil pointer dereference")
			}
			return r.load(p.c)
		case SymPtr:
			return r.loadSym(p)
		}
		r.giveUp("load through %T", x)
	case token.NOT:
		return BoolV{r.bit(x.(BoolV).b).not()}
	case token.SUB:
		switch a := x.(type) {
		case IntV:
			return r.fit(r.toLin(a).scale(bi(-1)), a.w, a.signed)
		case FloatV:
			return r.floatNeg(a)
		}
	case token.XOR:
		a := x.(IntV)
		if c, ok := r.constOf(a); ok {
			return intConst(a.w, a.signed, new(big.Int).Not(c))
		}
		if a.bits == nil && r.hasNonBool(a.lin) {
			return r.fit(a.lin.scale(bi(-1)).addC(bi(-1)), a.w, a.signed)
		}
		return r.fromBits(notAll(r.toBits(a)), a.signed)
	}
	r.giveUp("operator %s on %T", in.Op, x)
	return nil
}

func (r *Run) loadSym(p SymPtr) Value {
	var tab []int64
	w, signed := 0, false
	for i := 0; i < p.n; i++ {
		v, ok := r.load(r.kid(p.arr, p.off+i)).(IntV)
		if !ok {
			tab = nil
			break
		}
		c, ok := r.constOf(v)
		if !ok || !c.IsInt64() {
			tab = nil
			break
		}
		w, signed = v.w, v.signed
		tab = append(tab, c.Int64())
	}
	if len(tab) == p.n && p.n > 0 {
		l := r.toLin(p.idx)
		lo, hi := r.interval(l)
		if sub(hi, lo).Cmp(bi(4096)) <= 0 {
			return IntV{w: w, signed: signed, lin: r.table(l, tab)}
		}
	}
	i := int(r.concreteInt(p.idx).Int64())
	return r.load(r.kid(p.arr, p.off+i))
}

func (r *Run) inRange(idx IntV, n int) {
	l := r.toLin(idx)
	if idx.signed && !r.geq(l) || r.geq(l.addC(bi(int64(-n)))) {
		r.rtPanic("index out of range")
	}
}

func (r *Run) indexAddr(x Value, idx IntV) Value {
	var arr *Cell
	off, n := 0, 0
	switch s := x.(type) {
	case SliceV:
		arr, off, n = s.arr, s.off, s.len
		if s.pre != nil && s.len < s.pre.used {
			r.giveUp("access to a slice of unknown capacity that has been appended to")
		}
		if s.opaque() {
			l := r.subst(r.toLin(idx).sub(r.prefixLen(s.pre)))
			if !l.isConst() || l.c.Sign() < 0 {
				r.giveUp("access to the bytes of %s", s.pre.name)
			}
			idx = IntV{w: idx.w, signed: idx.signed, lin: l}
		}
	case PtrV:
		if s.c == nil {
			r.rtPanic("nil pointer dereference")
		}
		arr, n = s.c, s.c.n
	default:
		r.giveUp("index of %T", x)
	}
	r.inRange(idx, n)
	if c, ok := r.constOf(idx); ok {
		return PtrV{r.kid(arr, off+int(c.Int64()))}
	}
	return SymPtr{arr: arr, off: off, n: n, idx: idx}
}

func (r *Run) index(x Value, idx IntV, t types.Type) Value {
	switch a := x.(type) {
	case AggV:
		r.inRange(idx, len(a.f))
		return a.f[r.concreteInt(idx).Int64()]
	case StrV:
		return r.strIndex(a, idx)
	}
	r.giveUp("index of %T", x)
	return nil
}

func (r *Run) strIndex(s StrV, idx IntV) Value {
	ch := r.chars(s)
	r.inRange(idx, len(ch))
	if c, ok := r.constOf(idx); ok {
		return ch[c.Int64()]
	}
	tab := make([]int64, len(ch))
	for i, c := range ch {
		v, ok := r.constOf(c)
		if !ok {
			return ch[r.concreteInt(idx).Int64()]
		}
		tab[i] = v.Int64()
	}
	return IntV{w: 8, lin: r.table(r.toLin(idx), tab)}
}

func (r *Run) lookup(x, k Value, in *ssa.Lookup) Value {
	switch a := x.(type) {
	case StrV:
		return r.strIndex(a, k.(IntV))
	case MapV:
		var e *mapEntry
		if a.m != nil {
			if key, ok := r.mapFind(a.m, k); ok {
				e = a.m.m[key]
			}
		}
		var v Value
		if e != nil {
			v = e.v
		} else {
			v = r.zero(in.X.Type().Underlying().(*types.Map).Elem())
		}
		if in.CommaOk {
			return TupleV{v, BoolV{bitOf(e != nil)}}
		}
		return v
	}
	r.giveUp("lookup in %T", x)
	return nil
}

// window is s[lo:hi] of a constant string, for a start that is not constant
// and a length that is.
func (r *Run) window(ch []IntV, lo, hi IntV) (StrV, bool) {
	if _, ok := r.constOf(lo); ok {
		return StrV{}, false
	}
	at := r.toLin(lo)
	d := r.subst(r.toLin(hi).sub(at))
	if !d.isConst() || d.c.Sign() < 0 || d.c.Cmp(bi(int64(len(ch)))) > 0 {
		return StrV{}, false
	}
	n := int(d.c.Int64())
	tab := make([]int64, len(ch))
	for i, c := range ch {
		v, ok := r.constOf(c)
		if !ok {
			return StrV{}, false
		}
		tab[i] = v.Int64()
	}
	if !r.geq(at) || r.geq(at.addC(bi(int64(n-len(ch)-1)))) {
		r.rtPanic("slice bounds out of range")
	}
	out := make([]IntV, n)
	for k := range out {
		out[k] = IntV{w: 8, lin: r.table(at, tab[k:len(tab)-n+k+1])}
	}
	return strOf(out), true
}

func (r *Run) slice(f *frame, in *ssa.Slice) Value {
	x := r.get(f, in.X)
	opt := func(v ssa.Value, def int) int {
		if v == nil {
			return def
		}
		c := r.concreteInt(r.get(f, v).(IntV))
		if !c.IsInt64() || c.Int64() > 1<<40 {
			return 1 << 40
		}
		if c.Sign() < 0 {
			return -1
		}
		return int(c.Int64())
	}
	switch s := x.(type) {
	case StrV:
		ch := r.chars(s)
		if in.Low != nil && in.High != nil {
			if sub, ok := r.window(ch, r.get(f, in.Low).(IntV), r.get(f, in.High).(IntV)); ok {
				return sub
			}
		}
		lo, hi := opt(in.Low, 0), opt(in.High, len(ch))
		if lo < 0 || hi < lo || hi > len(ch) {
			r.rtPanic("slice bounds out of range")
		}
		return strOf(ch[lo:hi])
	case SliceV:
		if s.opaque() {
			rel := func(v ssa.Value, def int) int {
				if v == nil {
					return def
				}
				l := r.toLin(r.get(f, v).(IntV))
				if l.isConst() && l.c.Sign() == 0 {
					return -1
				}
				l = r.subst(l.sub(r.prefixLen(s.pre)))
				if !l.isConst() || l.c.Sign() < 0 || l.c.Cmp(bi(int64(s.len))) > 0 {
					r.giveUp("a slice of %s", s.pre.name)
				}
				return int(l.c.Int64())
			}
			lo, hi := rel(in.Low, -1), rel(in.High, s.len)
			if in.Max != nil || hi < 0 || lo > hi {
				r.giveUp("a slice of %s", s.pre.name)
			}
			if lo < 0 {
				s.len = hi
				return s
			}
			return SliceV{arr: s.arr, off: s.off + lo, len: hi - lo, cap: hi - lo, pre: &prefix{name: s.pre.name, plain: true, used: hi - lo}}
		}
		if s.pre != nil {
			s.cap = s.len
		}
		lo, hi, mx := opt(in.Low, 0), opt(in.High, s.len), opt(in.Max, s.cap)
		if lo < 0 || hi < lo || mx < hi || mx > s.cap {
			r.rtPanic("slice bounds out of range")
		}
		return SliceV{arr: s.arr, off: s.off + lo, len: hi - lo, cap: mx - lo, pre: s.pre}
	case PtrV:
		if s.c == nil {
			r.rtPanic("nil pointer dereference")
		}
		n := s.c.n
		lo, hi, mx := opt(in.Low, 0), opt(in.High, n), opt(in.Max, n)
		if lo < 0 || hi < lo || mx < hi || mx > n {
			r.rtPanic("slice bounds out of range")
		}
		return SliceV{arr: s.c, off: lo, len: hi - lo, cap: mx - lo}
	}
	r.giveUp("slice of %T", x)
	return nil
}

func (r *Run) convert(x Value, from, to types.Type) Value {
	if o, ok := x.(OrV); ok {
		return o
	}
	if w, s, ok := r.basic(to); ok {
		switch a := x.(type) {
		case IntV:
			return r.convInt(a, w, s)
		case FloatV:
			return r.floatToInt(a, w, s)
		case PtrV:
			r.giveUp("conversion of a pointer to an integer")
		}
	}
	if w := floatWidth(to); w > 0 {
		switch a := x.(type) {
		case FloatV:
			return r.convFloat(a, w)
		case IntV:
			return r.intToFloat(a, w)
		}
	}
	if isString(to) {
		switch a := x.(type) {
		case StrV:
			return a
		case SliceV:
			var ch []IntV
			rune32 := false
			for _, v := range r.sliceElems(a) {
				c := v.(IntV)
				if c.w != 8 {
					rune32 = true
				}
				ch = append(ch, c)
			}
			if rune32 {
				s := StrV{}
				for _, c := range ch {
					s = concat(s, r.runeStr(c))
				}
				return s
			}
			return strOf(ch)
		case IntV:
			return r.runeStr(a)
		}
	}
	if sl, ok := under(to).(*types.Slice); ok {
		switch a := x.(type) {
		case StrV:
			if w, _, ok := r.basic(sl.Elem()); ok && w == 8 {
				return r.bytesOf(a, sl.Elem())
			}
			if s, ok := r.strGo(a); ok {
				var vals []Value
				for _, ru := range s {
					vals = append(vals, intConst(32, true, bi(int64(ru))))
				}
				return r.sliceOf(sl.Elem(), vals)
			}
			var vals []Value
			for _, c := range r.chars(a) {
				if _, hi := r.interval(r.toLin(c)); hi.Cmp(bi(127)) > 0 {
					r.giveUp("conversion of a non-ASCII string to runes")
				}
				vals = append(vals, r.convInt(c, 32, true))
			}
			return r.sliceOf(sl.Elem(), vals)
		case SliceV:
			return a
		}
	}
	if types.Identical(under(from), under(to)) {
		return x
	}
	if b, ok := under(to).(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return x
	}
	if _, ok := under(to).(*types.Pointer); ok {
		if p, ok := x.(PtrV); ok {
			return r.castPtr(p, under(to).(*types.Pointer).Elem())
		}
	}
	r.giveUp("conversion from %s to %s", from, to)
	return nil
}

// castPtr reinterprets a pointer obtained through unsafe.Pointer: only the
// float/integer views of the same width are modelled.
func (r *Run) castPtr(p PtrV, elem types.Type) Value {
	if p.c == nil {
		return p
	}
	if types.Identical(p.c.typ, elem) || types.Identical(under(p.c.typ), under(elem)) {
		return p
	}
	r.giveUp("unsafe conversion of *%s to *%s", p.c.typ, elem)
	return nil
}

func (r *Run) runeStr(c IntV) StrV {
	if _, hi := r.interval(r.toLin(c)); hi.Cmp(bi(127)) <= 0 {
		if lo, _ := r.interval(r.toLin(c)); lo.Sign() >= 0 {
			return strOf([]IntV{r.convInt(c, 8, false)})
		}
	}
	v := r.concreteInt(c)
	if !v.IsInt64() || v.Int64() < 0 || v.Int64() > 0x10FFFF {
		return strConst("\uFFFD")
	}
	return strConst(string(rune(v.Int64())))
}

func (r *Run) intToFloat(x IntV, w int) FloatV {
	if c, ok := r.constOf(x); ok {
		f := new(big.Float).SetInt(c)
		if w == 32 {
			g, _ := f.Float32()
			return constFloat(32, float64(g))
		}
		g, _ := f.Float64()
		return constFloat(64, g)
	}
	b := r.intToBig(x)
	f, _ := r.floatOfContent(b, w)
	return f
}

// intToBig is the exact multi-precision value of an integer.
func (r *Run) intToBig(x IntV) BigF {
	z := newBigF()
	z.prec = linI(int64(64))
	negb := bit0
	var bits []Bit
	if x.signed {
		l := r.toLin(x)
		if lo, _ := r.interval(l); lo.Sign() >= 0 || r.geq(l) {
			bits = r.toBits(x)
		} else {
			negb = bit1
			bits = r.linBits(l.scale(bi(-1)), x.w)
		}
	} else {
		bits = r.toBits(x)
	}
	r.bfFromInt(&z, bits, negb, linI(0))
	return z
}

func (r *Run) floatToInt(x FloatV, w int, signed bool) Value {
	if r.isNaN(x) || r.isInf(x) {
		r.giveUp("conversion of NaN or infinity to an integer")
	}
	b, _, ok := r.bfToInt(r.floatValue(x))
	if !ok {
		r.giveUp("conversion of a float to an integer")
	}
	neg := r.biNegative(b)
	t := r.biTrim(b)
	if len(t.bits) > w || signed && len(t.bits) > w-1 || neg && !signed {
		if c, ok := r.biConst(b); ok {
			lo, hi := typeRange(w, signed)
			if c.Cmp(lo) >= 0 && c.Cmp(hi) <= 0 {
				return intConst(w, signed, c)
			}
		}
		r.giveUp("float to integer conversion out of range")
	}
	l := r.bitsLin(padBits(t.bits, w+1), false)
	if neg {
		l = l.scale(bi(-1))
	}
	return r.fit(l, w, signed)
}

// ---- calls

func (r *Run) prepare(f *frame, c *ssa.CallCommon) (FuncV, []Value, func() Value) {
	var args []Value
	if c.IsInvoke() {
		recv, ok := r.get(f, c.Value).(IfaceV)
		for _, a := range c.Args {
			args = append(args, r.get(f, a))
		}
		if !ok || recv.t == nil {
			r.rtPanic("nil pointer dereference (call of %s on a nil interface)", c.Method.Name())
		}
		return FuncV{}, nil, func() Value { return r.invoke(recv, c.Method, args) }
	}
	for _, a := range c.Args {
		args = append(args, r.get(f, a))
	}
	fv, ok := r.get(f, c.Value).(FuncV)
	if !ok {
		r.giveUp("call of %s", c.Value)
	}
	if fv.builtin != nil {
		return FuncV{}, nil, func() Value { return r.builtin(f, fv.builtin, args, c) }
	}
	return fv, args, nil
}

func (r *Run) call(f *frame, c *ssa.CallCommon) Value {
	fv, args, inv := r.prepare(f, c)
	if inv != nil {
		return inv()
	}
	return r.callValue(f, fv, args, c)
}

func (r *Run) invoke(recv IfaceV, m *types.Func, args []Value) Value {
	fn := r.in.lookupMethod(recv.t, m)
	if fn == nil {
		r.giveUp("method %s of %s", m.Name(), recv.t)
	}
	return r.dispatch(fn, append([]Value{recv.v}, args...), nil)
}

func (r *Run) callValue(f *frame, fv FuncV, args []Value, c *ssa.CallCommon) Value {
	if fv.fn == nil {
		r.rtPanic("nil pointer dereference (call of a nil function)")
	}
	return r.dispatch(fv.fn, args, fv.free)
}

func (r *Run) dispatch(fn *ssa.Function, args []Value, free []Value) Value {
	if fn.Synthetic == "package initializer" {
		return nil // packages are initialised on first use
	}
	if m := modelOf(fn); m != nil {
		return m(r, fn, args)
	}
	if p := pkgOf(fn); p != nil && noInterp[p.Pkg.Path()] {
		r.giveUp("call of %s is not modelled", fn)
	}
	return r.callFn(fn, args, free)
}

var noInterp = map[string]bool{
	"math/big": true, "fmt": true, "reflect": true, "runtime": true, "os": true, "time": true, "syscall": true,
	"math/rand": true, "math/rand/v2": true, "sync/atomic": true, "internal/reflectlite": true, "net": true, "io/fs": true,
	"unsafe": true, "log": true, "internal/abi": true, "internal/runtime/atomic": true,
}

func (r *Run) builtin(f *frame, b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	intOf := func(n int) Value { return intConst(r.in.intW, true, bi(int64(n))) }
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case StrV:
			return intOf(len(r.chars(x)))
		case SliceV:
			if x.opaque() {
				return r.fit(r.prefixLen(x.pre).addC(bi(int64(x.len))), r.in.intW, true)
			}
			return intOf(x.len)
		case MapV:
			if x.m == nil {
				return intOf(0)
			}
			return intOf(len(x.m.m))
		case PtrV:
			return intOf(x.c.n)
		case AggV:
			return intOf(len(x.f))
		}
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			if x.pre != nil {
				r.giveUp("the capacity of a slice")
			}
			return intOf(x.cap)
		case PtrV:
			return intOf(x.c.n)
		case AggV:
			return intOf(len(x.f))
		}
	case "append":
		s := args[0].(SliceV)
		elem := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		switch y := args[1].(type) {
		case SliceV:
			return r.appendVals(s, elem, r.elemsOr(y))
		case StrV:
			var vals []Value
			for _, ch := range r.chars(y) {
				vals = append(vals, ch)
			}
			return r.appendVals(s, elem, vals)
		}
	case "copy":
		d := args[0].(SliceV)
		var vals []Value
		switch y := args[1].(type) {
		case SliceV:
			vals = r.elemsOr(y)
		case StrV:
			for _, ch := range r.chars(y) {
				vals = append(vals, ch)
			}
		}
		n := len(vals)
		if d.len < n {
			n = d.len
		}
		for i := 0; i < n; i++ {
			r.store(r.kid(d.arr, d.off+i), vals[i])
		}
		return intOf(n)
	case "recover":
		for i := len(r.stack) - 1; i >= 0; i-- {
			// the deferred function's caller is the panicking frame
			p := r.stack[i]
			if p.panicking != nil && i >= len(r.stack)-2 {
				gp := p.panicking
				p.panicking = nil
				if v, ok := gp.obj.(IfaceV); ok {
					return v
				}
				return IfaceV{t: types.Typ[types.String], v: strConst(gp.val)}
			}
		}
		return IfaceV{}
	case "print", "println":
		return nil
	case "delete":
		m := args[0].(MapV)
		if m.m != nil {
			r.mapDelete(m.m, args[1])
		}
		return nil
	case "min", "max":
		acc := args[0]
		for _, a := range args[1:] {
			switch x := a.(type) {
			case IntV:
				lt := r.decideBit(r.cmpInt(token.LSS, x, acc.(IntV)))
				if lt == (b.Name() == "min") {
					acc = a
				}
			default:
				r.giveUp("builtin %s on %T", b.Name(), a)
			}
		}
		return acc
	case "ssa:wrapnilchk":
		if p, ok := args[0].(PtrV); ok && p.c == nil {
			r.rtPanic("nil pointer dereference")
		}
		return args[0]
	case "String": // unsafe.String
		if p, ok := args[0].(PtrV); ok && p.c == nil {
			return StrV{}
		}
	}
	r.giveUp("builtin %s(%T)", b.Name(), args[0])
	return nil
}

func (r *Run) elemsOr(s SliceV) []Value {
	if s.arr == nil || s.len == 0 {
		return nil
	}
	return r.sliceElems(s)
}
