package main

// Models of the standard library functions whose source is not interpreted:
// math, math/bits, strings.Builder, fmt formatting and others. math/big is in
// bigmodels.go. Anything without a model or a Go body makes a run undecided.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model func(r *Run, fn *ssa.Function, args []Value) Value

var models map[string]model

func modelOf(fn *ssa.Function) model {
	if fn.Parent() != nil {
		return nil
	}
	return models[fn.String()]
}

func register(name string, m model) {
	if models == nil {
		models = map[string]model{}
	}
	models[name] = m
}

func (r *Run) mkInt(l Lin) IntV { return r.fit(l, r.in.intW, true) }

func init() {
	// ---- math
	register("math.IsNaN", func(r *Run, fn *ssa.Function, a []Value) Value { return BoolV{bitOf(r.isNaN(a[0].(FloatV)))} })
	register("math.IsInf", func(r *Run, fn *ssa.Function, a []Value) Value {
		f := a[0].(FloatV)
		s := r.toLin(a[1].(IntV))
		if r.isNaN(f) || !r.isInf(f) {
			return BoolV{bit0}
		}
		neg := r.floatSign(f)
		if r.geq(s.addC(bi(-1))) {
			return BoolV{neg.not()}
		}
		if r.geq(s) {
			return BoolV{bit1}
		}
		return BoolV{neg}
	})
	register("math.Inf", func(r *Run, fn *ssa.Function, a []Value) Value {
		l := r.toLin(a[0].(IntV))
		f := constFloat(64, math.Inf(1))
		if !r.geq(l) {
			f.bits[63] = bit1
		}
		return f
	})
	register("math.NaN", func(r *Run, fn *ssa.Function, a []Value) Value { return floatFromU(64, 0x7FF8000000000001) })
	register("math.Signbit", func(r *Run, fn *ssa.Function, a []Value) Value { return BoolV{r.floatSign(a[0].(FloatV))} })
	register("math.Copysign", func(r *Run, fn *ssa.Function, a []Value) Value {
		b := append([]Bit{}, r.floatBits(a[0].(FloatV))...)
		b[63] = r.floatSign(a[1].(FloatV))
		return FloatV{w: 64, bits: b}
	})
	register("math.Abs", func(r *Run, fn *ssa.Function, a []Value) Value { return r.floatAbs(a[0].(FloatV)) })
	bits := func(w int) model {
		return func(r *Run, fn *ssa.Function, a []Value) Value { return r.fromBits(r.floatBits(a[0].(FloatV)), false) }
	}
	frombits := func(w int) model {
		return func(r *Run, fn *ssa.Function, a []Value) Value {
			return FloatV{w: w, bits: r.toBits(a[0].(IntV))}
		}
	}
	register("math.Float64bits", bits(64))
	register("math.Float32bits", bits(32))
	register("math.Float64frombits", frombits(64))
	register("math.Float32frombits", frombits(32))
	register("math.Ldexp", func(r *Run, fn *ssa.Function, a []Value) Value {
		f, e := a[0].(FloatV), r.toLin(a[1].(IntV))
		if r.isNaN(f) {
			return f
		}
		v := r.floatValue(f)
		if v.form != fFinite {
			return f
		}
		v = r.bitsOf(r.mat(v))
		if v.form != fFinite {
			return f
		}
		v.exp = v.exp.add(e)
		out, _ := r.floatOfContent(v, 64)
		return out
	})
	register("math.Frexp", func(r *Run, fn *ssa.Function, a []Value) Value {
		f := a[0].(FloatV)
		zero := r.mkInt(linI(0))
		if r.isNaN(f) {
			return TupleV{f, zero}
		}
		v := r.floatValue(f)
		if v.form != fFinite {
			return TupleV{f, zero}
		}
		v = r.bitsOf(r.mat(v))
		e := v.exp
		v.exp = linI(0)
		out, _ := r.floatOfContent(v, 64)
		return TupleV{out, r.mkInt(e)}
	})
	for name, g := range map[string]func(float64) float64{
		"Trunc": math.Trunc, "Floor": math.Floor, "Ceil": math.Ceil, "Exp2": math.Exp2, "Log2": math.Log2, "Log10": math.Log10,
		"Sqrt": math.Sqrt, "Round": math.Round, "RoundToEven": math.RoundToEven, "Log": math.Log, "Exp": math.Exp,
	} {
		g := g
		name := name
		register("math."+name, func(r *Run, fn *ssa.Function, a []Value) Value {
			if c, ok := r.floatConst(a[0].(FloatV)); ok {
				return constFloat(64, g(c))
			}
			switch name {
			case "Trunc":
				return r.trunc(a[0].(FloatV))
			}
			r.giveUp("math.%s of a symbolic number", name)
			return nil
		})
	}
	for name, g := range map[string]func(x, y float64) float64{"Pow": math.Pow, "Mod": math.Mod, "Max": math.Max, "Min": math.Min, "Nextafter": math.Nextafter} {
		g := g
		name := name
		register("math."+name, func(r *Run, fn *ssa.Function, a []Value) Value {
			c, ok := r.floatConst(a[0].(FloatV))
			d, ok2 := r.floatConst(a[1].(FloatV))
			if ok && ok2 {
				return constFloat(64, g(c, d))
			}
			if name == "Pow" && ok && c == 2 {
				// a power of two with an integer exponent held in a float
				return r.pow2(a[1].(FloatV))
			}
			r.giveUp("math.%s of a symbolic number", name)
			return nil
		})
	}

	// ---- math/bits
	blen := func(r *Run, v IntV) int {
		if c, ok := r.constOf(v); ok {
			return c.BitLen()
		}
		if v.bits != nil {
			b := r.toBits(v)
			if !r.anySet(b) {
				return 0
			}
			for i := len(b) - 1; i >= 0; i-- {
				if r.decideBit(b[i]) {
					return i + 1
				}
			}
			panic(infeasible{})
		}
		l := r.toLin(v)
		n := 0
		for r.geq(l.addC(neg(pow2(uint(n))))) {
			n++
		}
		return n
	}
	tz := func(r *Run, v IntV) int {
		b := r.toBits(v)
		if !r.anySet(b) {
			return v.w
		}
		for i := range b {
			if r.decideBit(b[i]) {
				return i
			}
		}
		panic(infeasible{})
	}
	for _, s := range []string{"", "8", "16", "32", "64"} {
		register("math/bits.Len"+s, func(r *Run, fn *ssa.Function, a []Value) Value { return r.mkInt(linI(int64(blen(r, a[0].(IntV))))) })
		register("math/bits.LeadingZeros"+s, func(r *Run, fn *ssa.Function, a []Value) Value {
			v := a[0].(IntV)
			return r.mkInt(linI(int64(v.w - blen(r, v))))
		})
		register("math/bits.TrailingZeros"+s, func(r *Run, fn *ssa.Function, a []Value) Value { return r.mkInt(linI(int64(tz(r, a[0].(IntV))))) })
	}

	// ---- strings.Builder
	bld := func(r *Run, v Value) *Cell {
		p := v.(PtrV)
		if p.c == nil {
			r.rtPanic("nil pointer dereference")
		}
		r.noteWrite(p.c)
		return p.c
	}
	okErr := IfaceV{}
	// ---- strings.Builder and the writing side of bytes.Buffer
	for _, recv := range []string{"(*strings.Builder).", "(*bytes.Buffer)."} {
		register(recv+"WriteString", func(r *Run, fn *ssa.Function, a []Value) Value {
			c := bld(r, a[0])
			c.v = builderV{concat(c.v.(builderV).s, a[1].(StrV))}
			return TupleV{r.strLenOrNil(a[1].(StrV)), okErr}
		})
		register(recv+"Write", func(r *Run, fn *ssa.Function, a []Value) Value {
			c := bld(r, a[0])
			s := c.v.(builderV).s
			for _, v := range r.elemsOr(a[1].(SliceV)) {
				s = concat(s, strOf([]IntV{v.(IntV)}))
			}
			c.v = builderV{s}
			return TupleV{r.mkInt(linI(int64(a[1].(SliceV).len))), okErr}
		})
		register(recv+"WriteByte", func(r *Run, fn *ssa.Function, a []Value) Value {
			c := bld(r, a[0])
			c.v = builderV{concat(c.v.(builderV).s, strOf([]IntV{a[1].(IntV)}))}
			return okErr
		})
		register(recv+"WriteRune", func(r *Run, fn *ssa.Function, a []Value) Value {
			c := bld(r, a[0])
			c.v = builderV{concat(c.v.(builderV).s, r.runeStr(a[1].(IntV)))}
			return TupleV{r.mkInt(linI(1)), okErr}
		})
		register(recv+"String", func(r *Run, fn *ssa.Function, a []Value) Value { return a[0].(PtrV).c.v.(builderV).s })
		register(recv+"Len", func(r *Run, fn *ssa.Function, a []Value) Value {
			return r.mkInt(linI(int64(len(r.chars(a[0].(PtrV).c.v.(builderV).s)))))
		})
		register(recv+"Grow", func(r *Run, fn *ssa.Function, a []Value) Value { return nil })
		register(recv+"Reset", func(r *Run, fn *ssa.Function, a []Value) Value {
			bld(r, a[0]).v = builderV{}
			return nil
		})
	}
	register("(*bytes.Buffer).Bytes", func(r *Run, fn *ssa.Function, a []Value) Value {
		return r.bytesOf(a[0].(PtrV).c.v.(builderV).s, types.Typ[types.Byte])
	})
	register("bytes.NewBufferString", func(r *Run, fn *ssa.Function, a []Value) Value {
		c := r.newCell(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), ownFresh)
		c.v = builderV{a[0].(StrV)}
		return PtrV{c}
	})
	register("bytes.NewBuffer", func(r *Run, fn *ssa.Function, a []Value) Value {
		c := r.newCell(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), ownFresh)
		if s := a[0].(SliceV); s.len > 0 || s.cap > 0 {
			s := StrV{}
			for _, v := range r.elemsOr(a[0].(SliceV)) {
				s = concat(s, strOf([]IntV{v.(IntV)}))
			}
			c.v = builderV{s}
		}
		return PtrV{c}
	})

	// ---- strings: constant folding
	str1 := func(name string, g func(string) string) {
		register("strings."+name, func(r *Run, fn *ssa.Function, a []Value) Value {
			if s, ok := r.strGo(a[0].(StrV)); ok {
				return strConst(g(s))
			}
			return r.callFn(fn, a, nil)
		})
	}
	str1("ToUpper", strings.ToUpper)
	str1("ToLower", strings.ToLower)
	str1("TrimSpace", strings.TrimSpace)
	str2 := func(name string, g func(a, b string) string) {
		register("strings."+name, func(r *Run, fn *ssa.Function, a []Value) Value {
			s, ok := r.strGo(a[0].(StrV))
			t, ok2 := r.strGo(a[1].(StrV))
			if ok && ok2 {
				return strConst(g(s, t))
			}
			return r.callFn(fn, a, nil)
		})
	}
	str2("Trim", strings.Trim)
	str2("TrimLeft", strings.TrimLeft)
	str2("TrimRight", strings.TrimRight)
	str2("TrimPrefix", strings.TrimPrefix)
	str2("TrimSuffix", strings.TrimSuffix)
	strI := func(name string, g func(a, b string) int) {
		register("strings."+name, func(r *Run, fn *ssa.Function, a []Value) Value {
			s, ok := r.strGo(a[0].(StrV))
			t, ok2 := r.strGo(a[1].(StrV))
			if ok && ok2 {
				return r.mkInt(linI(int64(g(s, t))))
			}
			return r.strIndexOf(name, a[0].(StrV), a[1].(StrV))
		})
	}
	strI("Index", strings.Index)
	strI("LastIndex", strings.LastIndex)
	strI("IndexAny", strings.IndexAny)
	strI("Count", strings.Count)
	register("strings.IndexByte", func(r *Run, fn *ssa.Function, a []Value) Value {
		for i, c := range r.chars(a[0].(StrV)) {
			if r.decideBit(r.eqInt(c, a[1].(IntV))) {
				return r.mkInt(linI(int64(i)))
			}
		}
		return r.mkInt(linI(-1))
	})
	register("strings.Repeat", func(r *Run, fn *ssa.Function, a []Value) Value {
		r.charge(r.toLin(a[1].(IntV)), "strings.Repeat")
		n := r.concreteInt(a[1].(IntV))
		if n.Cmp(bi(100000)) > 0 {
			r.giveUp("strings.Repeat with count %s", n)
		}
		if n.Sign() < 0 {
			panic(&goPanic{val: "strings: negative Repeat count", pos: r.where()})
		}
		s := StrV{}
		for i := int64(0); i < n.Int64(); i++ {
			s = concat(s, a[0].(StrV))
		}
		return s
	})

	// ---- sync: exclusion has no effect on one abstract execution
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		register(n, func(r *Run, fn *ssa.Function, a []Value) Value { return nil })
	}

	register("(*sync.Mutex).TryLock", func(r *Run, fn *ssa.Function, a []Value) Value { return BoolV{bit1} })
	// The other call may have done it before: what follows from that is left open.
	register("(*sync.Once).Do", func(r *Run, fn *ssa.Function, a []Value) Value {
		c := r.cellOf(a[0])
		if r.once[c] {
			return nil
		}
		if r.once == nil {
			r.once = map[*Cell]bool{}
		}
		r.noteWrite(c)
		r.once[c] = true
		if c.own != ownFresh {
			r.caveat("a sync.Once may have been used up by an earlier call")
		}
		return r.callValue(nil, a[1].(FuncV), nil, nil)
	})
	// A pool hands out what was put there last, or what New makes.
	register("(*sync.Pool).Get", func(r *Run, fn *ssa.Function, a []Value) Value {
		r.caveat("a sync.Pool may hand out something used before")
		c := r.cellOf(a[0])
		if l := r.pools[c]; len(l) > 0 {
			v := l[len(l)-1]
			r.pools[c] = l[:len(l)-1]
			for i, h := range r.hidden {
				if sameObject(h, v) {
					r.hidden = append(append([]Value{}, r.hidden[:i]...), r.hidden[i+1:]...)
					break
				}
			}
			// it is the taker's until it is put back
			r.reach(v, map[*Cell]bool{}, func(k *Cell) { k.own = ownFresh })
			return v
		}
		f, ok := r.load(r.poolNew(a[0])).(FuncV)
		if !ok || f.fn == nil {
			return IfaceV{}
		}
		return r.callValue(nil, f, nil, nil)
	})
	register("(*sync.Pool).Put", func(r *Run, fn *ssa.Function, a []Value) Value {
		if c := r.cellOf(a[0]); c.own != ownFresh {
			r.hidden = append(r.hidden, a[1])
			if r.pools == nil {
				r.pools = map[*Cell][]Value{}
			}
			r.pools[c] = append(r.pools[c], a[1])
		}
		return nil
	})
	// A sync.Map is empty at first.
	smap := func(name string, m func(r *Run, c *Cell, o *mapObj, a []Value) Value) {
		register("(*sync.Map)."+name, func(r *Run, fn *ssa.Function, a []Value) Value {
			c := r.cellOf(a[0])
			r.caveat("a sync.Map may hold entries of earlier calls")
			if r.smaps == nil {
				r.smaps = map[*Cell]*mapObj{}
			}
			if r.smaps[c] == nil {
				r.smaps[c] = &mapObj{m: map[string]*mapEntry{}}
			}
			return m(r, c, r.smaps[c], a)
		})
	}
	put := func(r *Run, c *Cell, o *mapObj, k, v Value) {
		r.noteWrite(c)
		if c.own != ownFresh {
			r.hidden = append(r.hidden, v)
		}
		r.mapSet(o, k, v)
	}
	get := func(r *Run, o *mapObj, k Value) TupleV {
		if key, ok := r.mapFind(o, k); ok {
			return TupleV{o.m[key].v, BoolV{bit1}}
		}
		return TupleV{IfaceV{}, BoolV{bit0}}
	}
	smap("Load", func(r *Run, c *Cell, o *mapObj, a []Value) Value { return get(r, o, a[1]) })
	smap("Store", func(r *Run, c *Cell, o *mapObj, a []Value) Value { put(r, c, o, a[1], a[2]); return nil })
	smap("LoadOrStore", func(r *Run, c *Cell, o *mapObj, a []Value) Value {
		t := get(r, o, a[1])
		if r.decideBit(t[1].(BoolV).b) {
			return t
		}
		put(r, c, o, a[1], a[2])
		return TupleV{a[2], BoolV{bit0}}
	})
	smap("Swap", func(r *Run, c *Cell, o *mapObj, a []Value) Value {
		t := get(r, o, a[1])
		put(r, c, o, a[1], a[2])
		return t
	})
	smap("LoadAndDelete", func(r *Run, c *Cell, o *mapObj, a []Value) Value {
		t := get(r, o, a[1])
		r.noteWrite(c)
		r.mapDelete(o, a[1])
		return t
	})
	smap("Delete", func(r *Run, c *Cell, o *mapObj, a []Value) Value {
		r.noteWrite(c)
		r.mapDelete(o, a[1])
		return nil
	})

	// ---- sync/atomic: plain memory for one abstract execution
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		register("sync/atomic.Load"+ty, func(r *Run, fn *ssa.Function, a []Value) Value { return r.load(r.cellOf(a[0])) })
		register("sync/atomic.Store"+ty, func(r *Run, fn *ssa.Function, a []Value) Value { r.store(r.cellOf(a[0]), a[1]); return nil })
		add := func(r *Run, c *Cell, d Value) Value {
			v := r.intBin(token.ADD, r.load(c).(IntV), d.(IntV))
			r.store(c, v)
			return v
		}
		register("sync/atomic.CompareAndSwap"+ty, func(r *Run, fn *ssa.Function, a []Value) Value {
			c := r.cellOf(a[0])
			if !r.decideBit(r.eqVal(r.load(c), a[1], nil)) {
				return BoolV{bit0}
			}
			r.store(c, a[2])
			return BoolV{bit1}
		})
		if ty == "Pointer" {
			continue
		}
		register("sync/atomic.Add"+ty, func(r *Run, fn *ssa.Function, a []Value) Value { return add(r, r.cellOf(a[0]), a[1]) })
		// the typed forms keep the value in their last field
		cell := func(r *Run, v Value) *Cell { c := r.cellOf(v); return r.kid(c, c.n-1) }
		register("(*sync/atomic."+ty+").Load", func(r *Run, fn *ssa.Function, a []Value) Value { return r.load(cell(r, a[0])) })
		register("(*sync/atomic."+ty+").Store", func(r *Run, fn *ssa.Function, a []Value) Value { r.store(cell(r, a[0]), a[1]); return nil })
		register("(*sync/atomic."+ty+").Add", func(r *Run, fn *ssa.Function, a []Value) Value { return add(r, cell(r, a[0]), a[1]) })
	}
	register("(*sync/atomic.Value).Load", func(r *Run, fn *ssa.Function, a []Value) Value { return r.load(r.kid(r.cellOf(a[0]), 0)) })
	register("(*sync/atomic.Value).Store", func(r *Run, fn *ssa.Function, a []Value) Value {
		r.store(r.kid(r.cellOf(a[0]), 0), a[1])
		return nil
	})

	// ---- fmt
	register("fmt.Sprintf", func(r *Run, fn *ssa.Function, a []Value) Value {
		return r.sprintf(a[0].(StrV), r.elemsOr(a[1].(SliceV)))
	})
	register("fmt.Sprint", func(r *Run, fn *ssa.Function, a []Value) Value {
		s := StrV{}
		prevStr := true
		for i, v := range r.elemsOr(a[0].(SliceV)) {
			_, isStr := v.(IfaceV).v.(StrV)
			if i > 0 && !isStr && !prevStr {
				s = concat(s, strConst(" "))
			}
			s = concat(s, r.fmtV(v.(IfaceV)))
			prevStr = isStr
		}
		return s
	})
	fprint := func(name string, text func(r *Run, a []Value) StrV) {
		register("fmt."+name, func(r *Run, fn *ssa.Function, a []Value) Value {
			s := text(r, a[1:])
			w, ok := a[0].(IfaceV)
			if !ok || w.t == nil {
				r.rtPanic("nil pointer dereference (nil io.Writer)")
			}
			if s1 := types.TypeString(w.t, nil); s1 == "*strings.Builder" || s1 == "*bytes.Buffer" {
				c := bld(r, w.v)
				c.v = builderV{concat(c.v.(builderV).s, s)}
				return TupleV{r.strLenOrNil(s), okErr}
			}
			var vals []Value
			for _, c := range r.chars(s) {
				vals = append(vals, c)
			}
			m := fn.Params[0].Type().Underlying().(*types.Interface).Method(0)
			return r.invoke(w, m, []Value{r.appendVals(SliceV{}, types.Typ[types.Byte], vals)})
		})
	}
	fprint("Fprintf", func(r *Run, a []Value) StrV { return r.sprintf(a[0].(StrV), r.elemsOr(a[1].(SliceV))) })
	fprint("Fprint", func(r *Run, a []Value) StrV { return models["fmt.Sprint"](r, nil, a).(StrV) })
	fprint("Fprintln", func(r *Run, a []Value) StrV { return models["fmt.Sprintln"](r, nil, a).(StrV) })
	register("fmt.Sprintln", func(r *Run, fn *ssa.Function, a []Value) Value {
		s := StrV{}
		for i, v := range r.elemsOr(a[0].(SliceV)) {
			if i > 0 {
				s = concat(s, strConst(" "))
			}
			s = concat(s, r.fmtV(v.(IfaceV)))
		}
		return concat(s, strConst("\n"))
	})
	fappend := func(name, of string) {
		register("fmt."+name, func(r *Run, fn *ssa.Function, a []Value) Value {
			var vals []Value
			for _, c := range r.chars(models[of](r, nil, a[1:]).(StrV)) {
				vals = append(vals, c)
			}
			return r.appendVals(a[0].(SliceV), types.Typ[types.Byte], vals)
		})
	}
	fappend("Appendf", "fmt.Sprintf")
	fappend("Append", "fmt.Sprint")
	register("fmt.Errorf", func(r *Run, fn *ssa.Function, a []Value) Value {
		return r.newError(r.sprintf(a[0].(StrV), r.elemsOr(a[1].(SliceV))))
	})

	// ---- std strconv, on symbolic integers
	fmtInt := func(r *Run, v IntV, base IntV) StrV {
		b := r.concreteInt(base)
		if b.Cmp(bi(2)) < 0 || b.Cmp(bi(36)) > 0 {
			panic(&goPanic{val: "strconv: illegal AppendInt/FormatInt base", pos: r.where()})
		}
		if b.Int64() == 10 {
			return StrV{segs: []seg{{kind: 'd', dec: r.toLin(v)}}}
		}
		return strOf(r.baseText(v, int(b.Int64()), false))
	}
	register("strconv.FormatInt", func(r *Run, fn *ssa.Function, a []Value) Value { return fmtInt(r, a[0].(IntV), a[1].(IntV)) })
	register("strconv.FormatUint", func(r *Run, fn *ssa.Function, a []Value) Value { return fmtInt(r, a[0].(IntV), a[1].(IntV)) })
	register("strconv.Itoa", func(r *Run, fn *ssa.Function, a []Value) Value {
		return StrV{segs: []seg{{kind: 'd', dec: r.toLin(a[0].(IntV))}}}
	})
	appInt := func(r *Run, fn *ssa.Function, a []Value) Value {
		var vals []Value
		for _, c := range r.chars(fmtInt(r, a[1].(IntV), a[2].(IntV))) {
			vals = append(vals, c)
		}
		return r.appendVals(a[0].(SliceV), types.Typ[types.Byte], vals)
	}
	register("strconv.AppendInt", appInt)
	register("strconv.AppendUint", appInt)
	register("strconv.Quote", func(r *Run, fn *ssa.Function, a []Value) Value { return StrV{segs: []seg{{kind: '?'}}} })
}

// strLenOrNil is the length of a text when no decision is needed to know it.
func (r *Run) strLenOrNil(s StrV) Value {
	for _, g := range s.segs {
		if g.kind == 'd' || g.kind == '?' {
			return nil // any use gives up
		}
	}
	return r.mkInt(linI(int64(len(r.chars(s)))))
}

// strIndexOf handles searches for a constant needle in a symbolic text.
func (r *Run) strIndexOf(name string, s, t StrV) Value {
	needle, ok := r.strGo(t)
	if !ok {
		r.giveUp("strings.%s with a symbolic needle", name)
	}
	ch := r.chars(s)
	at := func(i int) bool {
		for j := 0; j < len(needle); j++ {
			if !r.decideBit(r.eqInt(ch[i+j], intConst(8, false, bi(int64(needle[j]))))) {
				return false
			}
		}
		return true
	}
	switch name {
	case "Index":
		for i := 0; i+len(needle) <= len(ch); i++ {
			if at(i) {
				return r.mkInt(linI(int64(i)))
			}
		}
	case "LastIndex":
		for i := len(ch) - len(needle); i >= 0; i-- {
			if at(i) {
				return r.mkInt(linI(int64(i)))
			}
		}
	case "IndexAny":
		for i := range ch {
			for j := 0; j < len(needle); j++ {
				if r.decideBit(r.eqInt(ch[i], intConst(8, false, bi(int64(needle[j]))))) {
					return r.mkInt(linI(int64(i)))
				}
			}
		}
	default:
		r.giveUp("strings.%s of a symbolic text", name)
	}
	return r.mkInt(linI(-1))
}

func (r *Run) trunc(f FloatV) Value {
	if r.isNaN(f) {
		return f
	}
	v := r.floatValue(f)
	if v.form != fFinite {
		return f
	}
	v = r.bitsOf(v)
	if !r.geq(v.exp.addC(bi(-1))) {
		out := constFloat(f.w, 0)
		out.bits[f.w-1] = r.bit(v.neg)
		return out
	}
	if r.geq(v.exp.addC(bi(-53))) {
		return f
	}
	e := int(r.concrete(v.exp).Int64())
	if len(v.m.bits) > e {
		v.m = Mant{bits: v.m.bits[:e]}
	}
	out, _ := r.floatOfContent(v, f.w)
	return out
}

// pow2 is 2**y for an integral y.
func (r *Run) pow2(y FloatV) Value {
	if r.isNaN(y) || r.isInf(y) {
		r.giveUp("math.Pow(2, NaN or infinity)")
	}
	v := r.floatValue(y)
	if !r.bfIsInt(v) {
		r.giveUp("math.Pow(2, non-integer)")
	}
	b, _, _ := r.bfToInt(v)
	c, ok := r.biConst(b)
	if !ok {
		for i := len(b.bits) - 1; i >= 0; i-- {
			r.decideBit(b.bits[i])
		}
		r.decideBit(b.neg)
		c, _ = r.biConst(b)
	}
	f, _ := new(big.Float).SetInt(c).Float64()
	return constFloat(64, math.Exp2(f))
}

// baseText is the text of an integer in a base; powers of two keep bits.
func (r *Run) baseText(v IntV, base int, upper bool) []IntV {
	k := map[int]int{2: 1, 4: 2, 8: 3, 16: 4, 32: 5}[base]
	if k == 0 || v.signed && !r.geq(r.toLin(v)) {
		return r.baseChars(r.toLin(v), base, upper)
	}
	b := r.toBits(v)
	for len(b)%k != 0 {
		b = append(b, bit0)
	}
	// leading digit
	top := len(b)/k - 1
	for top > 0 && !r.anySet(b[top*k:]) {
		top--
	}
	var out []IntV
	for i := top; i >= 0; i-- {
		out = append(out, r.digitChar(r.bitsLin(b[i*k:(i+1)*k], false), base, upper))
	}
	return out
}

// padded is the text of a non-negative integer in base 2^k with at least w
// digits, without deciding leading digits below w.
func (r *Run) paddedText(v IntV, base, w int, upper bool) []IntV {
	k := map[int]int{2: 1, 4: 2, 8: 3, 16: 4, 32: 5}[base]
	if k == 0 {
		l := r.toLin(v)
		if !r.geq(l) {
			r.giveUp("zero-padded negative number")
		}
		_, hi := r.interval(l)
		if hi.Cmp(new(big.Int).Exp(bi(int64(base)), bi(int64(w)), nil)) < 0 {
			out := make([]IntV, w)
			for i := 0; i < w; i++ {
				d := r.mod(r.div(l, new(big.Int).Exp(bi(int64(base)), bi(int64(i)), nil)), bi(int64(base)))
				out[w-1-i] = r.digitChar(d, base, upper)
			}
			return out
		}
		t := r.baseChars(l, base, upper)
		for len(t) < w {
			t = append([]IntV{intConst(8, false, bi('0'))}, t...)
		}
		return t
	}
	b := r.toBits(v)
	for len(b)%k != 0 || len(b) < w*k {
		b = append(b, bit0)
	}
	top := len(b) / k
	for top > w && !r.anySet(b[(top-1)*k:]) {
		top--
	}
	var out []IntV
	for i := top - 1; i >= 0; i-- {
		out = append(out, r.digitChar(r.bitsLin(b[i*k:(i+1)*k], false), base, upper))
	}
	return out
}

func (r *Run) newError(s StrV) Value {
	p := r.in.prog.ImportedPackage("errors")
	if p == nil || p.Func("New") == nil {
		r.giveUp("errors.New is not loaded")
	}
	return r.callFn2(p.Func("New"), []Value{s})
}

func (r *Run) callFn2(fn *ssa.Function, args []Value) Value { return r.dispatch(fn, args, nil) }

// fmtV is %v of an operand.
func (r *Run) fmtV(v IfaceV) StrV {
	if v.t == nil {
		return strConst("<nil>")
	}
	if m := r.in.methodNamed(v.t, "Error"); m != nil {
		if s, ok := r.dispatch(m, []Value{v.v}, nil).(StrV); ok {
			return s
		}
	}
	if m := r.in.methodNamed(v.t, "String"); m != nil && len(m.Params) == 1 {
		if s, ok := r.dispatch(m, []Value{v.v}, nil).(StrV); ok {
			return s
		}
	}
	switch x := v.v.(type) {
	case StrV:
		return x
	case IntV:
		return StrV{segs: []seg{{kind: 'd', dec: r.toLin(x)}}}
	case BoolV:
		if r.decideBit(x.b) {
			return strConst("true")
		}
		return strConst("false")
	case FloatV:
		if c, ok := r.floatConst(x); ok {
			if x.w == 32 {
				return strConst(fmt.Sprint(float32(c)))
			}
			return strConst(fmt.Sprint(c))
		}
	}
	return StrV{segs: []seg{{kind: '?'}}}
}

func (r *Run) sprintf(f StrV, args []Value) StrV {
	format, ok := r.strGo(f)
	if !ok {
		r.giveUp("symbolic format string")
	}
	out := StrV{}
	n := 0
	arg := func() (IfaceV, bool) {
		if n >= len(args) {
			return IfaceV{}, false
		}
		n++
		return args[n-1].(IfaceV), true
	}
	for i := 0; i < len(format); {
		if format[i] != '%' {
			j := i
			for j < len(format) && format[j] != '%' {
				j++
			}
			out = concat(out, strConst(format[i:j]))
			i = j
			continue
		}
		i++
		var minus, plus, sharp, space, zero bool
	flags:
		for ; i < len(format); i++ {
			switch format[i] {
			case '-':
				minus = true
			case '+':
				plus = true
			case '#':
				sharp = true
			case ' ':
				space = true
			case '0':
				zero = true
			default:
				break flags
			}
		}
		width, prec := -1, -1
		num := func() int {
			if i < len(format) && format[i] == '*' {
				i++
				a, ok := arg()
				iv, isInt := a.v.(IntV)
				if !ok || !isInt {
					r.giveUp("bad * argument in format %q", format)
				}
				return int(r.concreteInt(iv).Int64())
			}
			v := -1
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				if v < 0 {
					v = 0
				}
				v = v*10 + int(format[i]-'0')
				i++
			}
			return v
		}
		width = num()
		if i < len(format) && format[i] == '.' {
			i++
			if prec = num(); prec < 0 {
				prec = 0
			}
		}
		if i >= len(format) || format[i] == '[' {
			r.giveUp("format string %q", format)
		}
		verb := format[i]
		i++
		if verb == '%' {
			out = concat(out, strConst("%"))
			continue
		}
		a, ok := arg()
		if !ok {
			out = concat(out, strConst("%!"+string(verb)+"(MISSING)"))
			continue
		}
		out = concat(out, r.fmtVerb(verb, a, width, prec, minus, plus, sharp, space, zero))
	}
	if n < len(args) {
		out = concat(out, StrV{segs: []seg{{kind: '?'}}})
	}
	return out
}

var unknownText = StrV{segs: []seg{{kind: '?'}}}

func (r *Run) fmtVerb(verb byte, a IfaceV, width, prec int, minus, plus, sharp, space, zero bool) StrV {
	pad := func(s StrV) StrV {
		if width < 0 {
			return s
		}
		ch := r.chars(s)
		for len(ch) < width {
			if minus {
				ch = append(ch, intConst(8, false, bi(' ')))
			} else {
				ch = append([]IntV{intConst(8, false, bi(' '))}, ch...)
			}
		}
		return strOf(ch)
	}
	if p, ok := a.v.(PtrV); ok && verb == 'v' && p.c != nil {
		if b, ok := p.c.v.(BigF); ok {
			r.chargeExp(b, true, "the decimal text of the number")
		}
	}
	if verb == 'v' && !sharp && !plus && prec < 0 {
		s := r.fmtV(a)
		if width < 0 {
			return s
		}
		if iv, ok := a.v.(IntV); ok && zero && !minus {
			return strOf(r.paddedText(iv, 10, width, false))
		}
		return pad(s)
	}
	if iv, ok := a.v.(IntV); ok {
		base := map[byte]int{'d': 10, 'b': 2, 'o': 8, 'x': 16, 'X': 16}[verb]
		switch {
		case base != 0:
			if plus || space || sharp {
				if l := r.toLin(iv); plus && !sharp && !zero && prec < 0 && base == 10 {
					s := StrV{segs: []seg{{kind: 'd', dec: l}}}
					if r.geq(l) {
						s = concat(strConst("+"), s)
					}
					return pad(s)
				}
				if sharp && !plus && !space && !zero && prec < 0 && width < 0 && r.geq(r.toLin(iv)) {
					pre := map[int]string{2: "0b", 8: "0", 16: "0x"}[base]
					if verb == 'X' {
						pre = "0X"
					}
					if base != 10 && base != 8 {
						return concat(strConst(pre), strOf(r.baseText(iv, base, verb == 'X')))
					}
				}
				return unknownText
			}
			w := -1
			if prec >= 0 {
				w = prec
			} else if zero && !minus && width >= 0 {
				w = width
			}
			if w >= 0 {
				if lo, _ := r.interval(r.toLin(iv)); lo.Sign() < 0 && !r.geq(r.toLin(iv)) {
					return unknownText
				}
				s := strOf(r.paddedText(iv, base, w, verb == 'X'))
				if prec >= 0 {
					if prec == 0 {
						return unknownText
					}
					return pad(s)
				}
				return s
			}
			if base == 10 {
				return pad(StrV{segs: []seg{{kind: 'd', dec: r.toLin(iv)}}})
			}
			return pad(strOf(r.baseText(iv, base, verb == 'X')))
		case verb == 'c':
			return pad(r.runeStr(iv))
		}
		return unknownText
	}
	switch x := a.v.(type) {
	case StrV:
		if verb == 's' && prec < 0 && !(zero && width >= 0) {
			return pad(x)
		}
		return unknownText
	case BoolV:
		if verb == 't' {
			return pad(r.fmtV(a))
		}
	case SliceV:
		if verb == 's' && prec < 0 && a.t != nil {
			if sl, ok := under(a.t).(*types.Slice); ok {
				if w, _, ok := r.basic(sl.Elem()); ok && w == 8 {
					var ch []IntV
					for _, v := range r.elemsOr(x) {
						ch = append(ch, v.(IntV))
					}
					return pad(strOf(ch))
				}
			}
		}
	case PtrV:
		if x.c != nil {
			if b, ok := x.c.v.(BigF); ok && verb != 'b' && verb != 'p' && verb != 'x' {
				r.chargeExp(b, true, "the decimal text of the number")
			}
			if b, ok := x.c.v.(BigI); ok {
				base := map[byte]int{'d': 10, 'b': 2, 'o': 8, 'x': 16}[verb]
				if base != 0 && !plus && !space && !sharp && prec < 0 && base != 10 && !r.biNegative(b) {
					t := r.biTrim(b)
					n := len(t.bits)
					if n == 0 {
						n = 1
					}
					iv := IntV{w: n, bits: padBits(t.bits, n)}
					if zero && width >= 0 && !minus {
						return strOf(r.paddedText(iv, base, width, false))
					}
					return pad(strOf(r.baseText(iv, base, false)))
				}
				if c, ok := r.biConst(b); ok && base == 10 && !zero {
					return pad(strConst(c.String()))
				}
			}
		}
	}
	if verb == 's' {
		s := r.fmtV(a)
		if prec < 0 {
			return pad(s)
		}
	}
	return unknownText
}

var _ = token.ADD

// caveat leaves the run undecided if it shows no violation.
// sameObject: two pointers, possibly in interfaces, to one variable.
func sameObject(a, b Value) bool {
	if i, ok := a.(IfaceV); ok {
		a = i.v
	}
	if i, ok := b.(IfaceV); ok {
		b = i.v
	}
	p, ok := a.(PtrV)
	q, ok2 := b.(PtrV)
	return ok && ok2 && p.c == q.c
}

func (r *Run) caveat(s string) {
	if !r.histOK {
		r.open = s
	}
}

// poolNew is the field New of a sync.Pool.
func (r *Run) poolNew(v Value) *Cell {
	c := r.cellOf(v)
	st := under(c.typ).(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "New" {
			return r.kid(c, i)
		}
	}
	r.giveUp("a sync.Pool without New")
	return nil
}
