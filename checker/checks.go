package main

// The goals of the value properties.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// both makes one goal per word size.
func both(progs map[int]*Program, name string, mk func() (*World, func(r *Run) error)) []*Goal {
	var out []*Goal
	for _, w := range []int{64, 32} {
		world, run := mk()
		out = append(out, &Goal{name: fmt.Sprintf("%s [%d-bit int]", name, w), in: progs[w], world: world, run: run, again: mk})
	}
	return out
}

// C01-C05
func decodeGoals(progs map[int]*Program, f *format) []*Goal {
	gs := both(progs, f.rel+".NewFromBits.Big", func() (*World, func(r *Run) error) {
		w := newWorld()
		p := w.pattern(f)
		return w, func(r *Run) error {
			num := p.num(r)
			res := r.callMethod(f.rel, num, "Big").(TupleV)
			d := f.decode(r, p.vec())
			if err := wantPtr(res[0]); err != nil {
				return err
			}
			nan := r.decideBit(res[1].(BoolV).b)
			if nan != d.nan {
				return bad("the NaN flag is %v, required: %v", nan, d.nan)
			}
			x := resultBig(r, res[0])
			if d.nan {
				if r.decideBit(r.xorBit(r.bfSignbit(x), d.sign)) {
					return bad("the sign of the result for NaN is not the sign of the pattern")
				}
				return nil
			}
			if d.zero && r.mat(x).form == fZero {
				return nil
			}
			return sameNumber(r, x, d.val)
		}
	})
	if f.ppc {
		gs = append(gs, both(progs, f.rel+".IsNaN", func() (*World, func(r *Run) error) {
			w := newWorld()
			p := w.pattern(f)
			return w, func(r *Run) error {
				num := p.num(r)
				nan := r.decideBit(r.callMethod(f.rel, num, "IsNaN").(BoolV).b)
				d := f.decode(r, p.vec())
				if nan != d.nan {
					return bad("IsNaN is %v, required: %v", nan, d.nan)
				}
				return nil
			}
		})...)
	}
	return gs
}

// C26
func precisionGoals(progs map[int]*Program) []*Goal {
	var gs []*Goal
	for _, f := range allFmt {
		f := f
		gs = append(gs, both(progs, f.rel+".NewFromBits.Big", func() (*World, func(r *Run) error) {
			w := newWorld()
			p := w.pattern(f)
			return w, func(r *Run) error {
				res := r.callMethod(f.rel, p.num(r), "Big").(TupleV)
				if err := wantPtr(res[0]); err != nil {
					return err
				}
				x := resultBig(r, res[0])
				if f.ppc {
					if !r.geq(x.prec.addC(bi(-106))) {
						return bad("the precision of the result is below 106 bits")
					}
				} else if !r.eqLin(x.prec, linI(int64(f.prm.mbits+1))) {
					return bad("the precision of the result is %s bits", r.linText(r.subst(x.prec)))
				}
				if !r.eqLin(x.mode, linI(0)) {
					return bad("the rounding mode of the result is not ToNearestEven")
				}
				return nil
			}
		})...)
	}
	return gs
}

// C06-C08
func encodeGoals(progs map[int]*Program, f *format) []*Goal {
	return both(progs, f.rel+".NewFromBig", func() (*World, func(r *Run) error) {
		w := newWorld()
		in := w.bigFloat("x")
		return w, func(r *Run) error {
			arg, x := in.arg(r)
			res := r.callPkg(f.rel, "NewFromBig", arg).(TupleV)
			want, acc := r.roundToFmt(x, f.prm)
			if err := samePattern(r, f, f.patternOf(r, res[0]), f.encode(r, want)); err != nil {
				return err
			}
			return sameAcc(r, res[1], acc)
		}
	})
}

func samePattern(r *Run, f *format, got, want []Bit) error {
	if r.bitsEqual(got, want) {
		return nil
	}
	gs, ge, gm := f.fieldsOf(got)
	ws, we, wm := f.fieldsOf(want)
	switch {
	case r.decideBit(r.xorBit(gs, ws)):
		return bad("the sign bit of the result is wrong")
	case !r.bitsEqual(ge, we):
		return bad("the exponent field of the result is %s, required: %s", r.bitsText(ge), r.bitsText(we))
	default:
		return bad("the fraction of the result is %s, required: %s", r.bitsText(gm), r.bitsText(wm))
	}
}

func (r *Run) bitsText(b []Bit) string {
	out := make([]byte, len(b))
	for i, x := range b {
		c := byte('x')
		switch r.bit(x).k {
		case bConst0:
			c = '0'
		case bConst1:
			c = '1'
		}
		out[len(b)-1-i] = c
	}
	return "0b" + string(out)
}

// C09
func encodePPCGoals(progs map[int]*Program) []*Goal {
	f := fPPC
	return both(progs, f.rel+".NewFromBig", func() (*World, func(r *Run) error) {
		w := newWorld()
		in := w.bigFloat("x")
		return w, func(r *Run) error {
			arg, x := in.arg(r)
			res := r.callPkg(f.rel, "NewFromBig", arg).(TupleV)
			high, low := ppcParts(r, res[0])
			return checkPPC(r, x, high, low, res[1])
		}
	})
}

// ppcParts reads the two doubles through Bits.
func ppcParts(r *Run, num Value) (FloatV, FloatV) {
	// the fields hold lazily rounded numbers; Bits would force their bits
	a, ok := num.(AggV)
	if ok {
		var fs []FloatV
		for _, v := range a.f {
			if f, ok := v.(FloatV); ok && f.w == 64 {
				fs = append(fs, f)
			}
		}
		if len(fs) == 2 && len(a.f) == 2 {
			return fs[0], fs[1]
		}
	}
	v := fPPC.patternOf(r, num)
	return FloatV{w: 64, bits: v[64:]}, FloatV{w: 64, bits: v[:64]}
}

func checkPPC(r *Run, x BigF, high, low FloatV, acc Value) error {
	zeroLow := func() error {
		l, err := plainFloat(r, low)
		if err != nil {
			return err
		}
		if l.bits == nil {
			return bad("the low double is not zero")
		}
		if !r.isZeroF(l) {
			return bad("the low double is not zero")
		}
		return nil
	}
	if x.form != fFinite {
		want, _ := r.floatOfContent(x, 64)
		if err := sameFloatBits(r, high, want, "the high double"); err != nil {
			return err
		}
		if err := zeroLow(); err != nil {
			return err
		}
		return sameAcc(r, acc, linI(0))
	}
	want, hacc := r.floatOfContent(x, 64)
	if over, _ := r.roundOverflow(x, fmt64); over {
		inf := constFloat(64, 0)
		for i := 52; i < 63; i++ {
			inf.bits[i] = bit1
		}
		inf.bits[63] = r.bit(x.neg)
		if err := sameFloatBits(r, high, inf, "the high double"); err != nil {
			return err
		}
		if err := zeroLow(); err != nil {
			return err
		}
		return sameAcc(r, acc, hacc)
	}
	if err := sameFloatBits(r, high, want, "the high double"); err != nil {
		return err
	}
	// remainder x - RN(x)
	hv := r.lazyRound(x, fmt64)
	rem := newBigF()
	rem.prec = linI(1 << 31)
	r.bfAdd(&rem, x, hv, true)
	rem = r.norm0(rem)
	wantLow, lacc := r.floatOfContent(rem, 64)
	if rem.form == fZero {
		if err := zeroLow(); err != nil {
			return err
		}
		return sameAcc(r, acc, linI(0))
	}
	if err := sameFloatBits(r, low, wantLow, "the low double"); err != nil {
		return err
	}
	return sameAcc(r, acc, lacc)
}

// C10
func nativeCtorGoals(progs map[int]*Program) []*Goal {
	var gs []*Goal
	for _, f := range encFmt {
		for _, fw := range []int{32, 64} {
			f, fw := f, fw
			name := fmt.Sprintf("NewFromFloat%d", fw)
			gs = append(gs, both(progs, f.rel+"."+name, func() (*World, func(r *Run) error) {
				w := newWorld()
				in := w.floatBits("x", fw)
				return w, func(r *Run) error {
					x := in.float()
					res := r.callPkg(f.rel, name, x).(TupleV)
					return checkNative(r, f, x, res)
				}
			})...)
		}
	}
	return gs
}

func checkNative(r *Run, f *format, x FloatV, res TupleV) error {
	if r.isNaN(x) {
		v := "NaN"
		if r.decideBit(r.floatSign(x)) {
			v = "NegNaN"
		}
		if !r.bitsEqual(f.patternOf(r, res[0]), f.patternOf(r, r.pkgVar(f.rel, v))) {
			return bad("NaN does not give the predeclared %s", v)
		}
		return sameAcc(r, res[1], linI(0))
	}
	if f.ppc {
		high, low := ppcParts(r, res[0])
		if err := sameFloatBits(r, high, r.widen(x), "the high double"); err != nil {
			return err
		}
		if l, _ := plainFloat(r, low); l.bits == nil || !r.isZeroF(l) {
			return bad("the low double is not zero")
		}
		return sameAcc(r, res[1], linI(0))
	}
	want, acc := r.roundToFmt(r.floatValue(x), f.prm)
	if err := samePattern(r, f, f.patternOf(r, res[0]), f.encode(r, want)); err != nil {
		return err
	}
	return sameAcc(r, res[1], acc)
}

func (r *Run) widen(x FloatV) FloatV {
	if x.w == 64 {
		return x
	}
	y, _ := r.floatOfContent(r.floatValue(x), 64)
	return y
}

// C11
func narrowGoals(progs map[int]*Program) []*Goal {
	var gs []*Goal
	for _, f := range encFmt {
		for _, fw := range []int{32, 64} {
			f, fw := f, fw
			name := fmt.Sprintf("Float%d", fw)
			gs = append(gs, both(progs, f.rel+".Float."+name, func() (*World, func(r *Run) error) {
				w := newWorld()
				p := w.pattern(f)
				return w, func(r *Run) error {
					num := p.num(r)
					res := r.callMethod(f.rel, num, name).(TupleV)
					d := f.decode(r, p.vec())
					got := res[0].(FloatV)
					if d.nan {
						if !r.isNaN(got) {
							return bad("NaN does not convert to NaN")
						}
						if r.decideBit(r.xorBit(r.floatSign(got), d.sign)) {
							return bad("NaN converts to a NaN of the other sign")
						}
						return sameAcc(r, res[1], linI(0))
					}
					if d.zero {
						if !r.isZeroF(got) {
							return bad("parts that cancel do not convert to zero")
						}
						return sameAcc(r, res[1], linI(0))
					}
					want, acc := r.floatOfContent(d.val, fw)
					if want.bits == nil && !want.term.add && want.term.src.form == fFinite && want.term.src.kind == kSum {
						if got.bits == nil && got.term.add {
							// IEEE addition of finite numbers rounds the exact sum
							s := r.sumAdd(r.nativeSum(got.term.x), r.nativeSum(got.term.y))
							got, _ = r.floatOfContent(r.sumBig(s), got.w)
						}
					}
					if err := sameFloatBits(r, got, want, "the result"); err != nil {
						return err
					}
					return sameAcc(r, res[1], acc)
				}
			})...)
		}
	}
	return gs
}

// C12
func accessorGoals(progs map[int]*Program) []*Goal {
	var gs []*Goal
	for _, f := range allFmt {
		f := f
		if f != fBF {
			gs = append(gs, both(progs, f.rel+".Bits", func() (*World, func(r *Run) error) {
				w := newWorld()
				p := w.pattern(f)
				return w, func(r *Run) error {
					if !r.bitsEqual(f.patternOf(r, p.num(r)), p.vec()) {
						return bad("the bits read back differ from the pattern")
					}
					return nil
				}
			})...)
		}
		if f.ppc {
			continue
		}
		field := func(name string, want func(r *Run, p pattern) []Lin) {
			gs = append(gs, both(progs, f.rel+"."+name, func() (*World, func(r *Run) error) {
				w := newWorld()
				p := w.pattern(f)
				return w, func(r *Run) error {
					res := r.callMethod(f.rel, p.num(r), name)
					var got []Lin
					switch v := res.(type) {
					case BoolV:
						got = []Lin{r.bitLin(v.b)}
					case IntV:
						got = []Lin{r.toLin(v)}
					case TupleV:
						for _, x := range v {
							got = append(got, r.toLin(x.(IntV)))
						}
					}
					ws := want(r, p)
					if len(got) != len(ws) {
						return bad("%d results instead of %d", len(got), len(ws))
					}
					for i := range ws {
						if !r.eqLin(got[i], ws[i]) {
							return bad("the accessor returns %s, required: %s", r.linText(got[i]), r.linText(ws[i]))
						}
					}
					return nil
				}
			})...)
		}
		field("Signbit", func(r *Run, p pattern) []Lin {
			s, _, _ := f.fieldsOf(p.vec())
			return []Lin{r.bitLin(s)}
		})
		field("Exp", func(r *Run, p pattern) []Lin {
			_, e, _ := f.fieldsOf(p.vec())
			return []Lin{r.bitsLin(e, false)}
		})
		field("Frac", func(r *Run, p pattern) []Lin {
			_, _, m := f.fieldsOf(p.vec())
			switch {
			case f.x87:
				return []Lin{r.bitsLin(m[:63], false)}
			case len(m) > 64:
				return []Lin{r.bitsLin(m[64:], false), r.bitsLin(m[:64], false)}
			}
			return []Lin{r.bitsLin(m, false)}
		})
		if f.x87 {
			field("Lead", func(r *Run, p pattern) []Lin {
				_, _, m := f.fieldsOf(p.vec())
				return []Lin{r.bitLin(m[63])}
			})
		}
	}
	return gs
}

// C13
func constantGoals(progs map[int]*Program) []*Goal {
	var gs []*Goal
	for _, f := range encFmt {
		f := f
		for _, c := range []struct {
			name string
			neg  bool
			kind int // 0 NaN, 1 infinity, 2 zero
		}{{"NaN", false, 0}, {"NegNaN", true, 0}, {"Inf", false, 1}, {"NegInf", true, 1}, {"Zero", false, 2}, {"NegZero", true, 2}} {
			c := c
			gs = append(gs, both(progs, f.rel+"."+c.name, func() (*World, func(r *Run) error) {
				w := newWorld()
				return w, func(r *Run) error {
					v := f.patternOf(r, r.pkgVar(f.rel, c.name))
					d := f.decode(r, v)
					if d.nan != (c.kind == 0) {
						return bad("it is NaN: %v", d.nan)
					}
					s := d.sign
					if r.decideBit(s) != c.neg {
						return bad("it has the wrong sign")
					}
					switch c.kind {
					case 0:
						if f.x87 && !r.decideBit(v[63]) {
							return bad("it is not in canonical encoding (lead bit clear)")
						}
						return nil
					case 1:
						if d.val.form != fInf || r.decideBit(d.val.neg) != c.neg {
							return bad("it is not the infinity of that sign")
						}
					case 2:
						if d.val.form != fZero || r.decideBit(d.val.neg) != c.neg {
							return bad("it is not the zero of that sign")
						}
					}
					if f.ppc {
						if r.anySet(v[:64]) {
							return bad("its low double is not +0")
						}
						return nil
					}
					return samePattern(r, f, v, f.encode(r, d.val))
				}
			})...)
		}
	}
	return gs
}

// C14
func roundTripGoals(progs map[int]*Program) []*Goal {
	var gs []*Goal
	for _, f := range encFmt {
		f := f
		gs = append(gs, both(progs, f.rel+".NewFromBits.Big.NewFromBig", func() (*World, func(r *Run) error) {
			w := newWorld()
			p := w.pattern(f)
			return w, func(r *Run) error {
				v := p.vec()
				d := f.decode(r, v)
				if d.nan || d.zero {
					return nil
				}
				switch {
				case f.x87:
					_, e, m := f.fieldsOf(v)
					lead := r.decideBit(m[63])
					if lead != r.anySet(e) {
						return nil // not canonical
					}
				case f.ppc:
					h, l := FloatV{w: 64, bits: v[64:]}, FloatV{w: 64, bits: v[:64]}
					// canonical: the high double is the sum rounded, a zero low
					// double is +0
					if r.isInf(h) || r.isZeroF(h) {
						if r.anySet(v[:64]) {
							return nil
						}
					} else if r.isInf(l) {
						return nil
					} else if r.isZeroF(l) {
						if r.decideBit(v[63]) {
							return nil
						}
					} else if r.eager() {
						top, _ := r.floatOfContent(d.val, 64)
						if !r.bitsEqual(r.floatBits(top), v[64:]) {
							return nil
						}
					} else if d.val.kind == kSum {
						r.assume = map[string]FloatV{r.sumKey(d.val.sum): h}
						r.assumeSum = d.val.sum
					}
				}
				res := r.callMethod(f.rel, p.num(r), "Big").(TupleV)
				if err := wantPtr(res[0]); err != nil {
					return err
				}
				back := r.callPkg(f.rel, "NewFromBig", res[0]).(TupleV)
				if f.ppc {
					high, low := ppcParts(r, back[0])
					if err := sameFloatBits(r, high, FloatV{w: 64, bits: v[64:]}, "the high double"); err != nil {
						return err
					}
					if err := sameFloatBits(r, low, FloatV{w: 64, bits: v[:64]}, "the low double"); err != nil {
						return err
					}
				} else if err := samePattern(r, f, f.patternOf(r, back[0]), v); err != nil {
					return err
				}
				return sameAcc(r, back[1], linI(0))
			}
		})...)
	}
	return gs
}

// C15
func nativeTripGoals(progs map[int]*Program) []*Goal {
	var gs []*Goal
	for _, f := range encFmt {
		for _, fw := range []int{32, 64} {
			f, fw := f, fw
			gs = append(gs, both(progs, fmt.Sprintf("%s.NewFromFloat%d.Float%d", f.rel, fw, fw), func() (*World, func(r *Run) error) {
				w := newWorld()
				in := w.floatBits("x", fw)
				return w, func(r *Run) error {
					x := in.float()
					if r.isNaN(x) {
						return nil
					}
					if f == fHalf {
						v := r.floatValue(x)
						if v.form == fFinite {
							if over, _ := r.roundOverflow(v, f.prm); over {
								return nil
							}
							if !r.eqLin(r.roundAcc(v, f.prm), linI(0)) {
								return nil
							}
						}
					}
					res := r.callPkg(f.rel, fmt.Sprintf("NewFromFloat%d", fw), x).(TupleV)
					if err := sameAcc(r, res[1], linI(0)); err != nil {
						return bad("making the number: %v", err)
					}
					back := r.callMethod(f.rel, res[0], fmt.Sprintf("Float%d", fw)).(TupleV)
					if err := sameFloatBits(r, back[0].(FloatV), x, "the number read back"); err != nil {
						return err
					}
					if err := sameAcc(r, back[1], linI(0)); err != nil {
						return bad("converting back: %v", err)
					}
					return nil
				}
			})...)
		}
	}
	return gs
}

// C16
func exactGoals(progs map[int]*Program) []*Goal {
	var gs []*Goal
	for _, c := range []struct {
		name string
		p    fmtParam
	}{{"IsExact16", fmt16}, {"IsExact32", fmt32}, {"IsExact64", fmt64}} {
		c := c
		gs = append(gs, both(progs, c.name, func() (*World, func(r *Run) error) {
			w := newWorld()
			in := w.bigFloat("x")
			return w, func(r *Run) error {
				arg, x := in.arg(r)
				got := r.decideBit(r.callPkg("", c.name, arg).(BoolV).b)
				want := true
				if x.form == fFinite {
					if over, _ := r.roundOverflow(x, c.p); over {
						want = false
					} else {
						want = r.eqLin(r.roundAcc(x, c.p), linI(0))
					}
				}
				if got != want {
					return bad("%s is %v, required: %v", c.name, got, want)
				}
				return nil
			}
		})...)
	}
	return gs
}

// ---- every exported function

// scenario calls one exported function or method with arbitrary arguments.
type scenario struct {
	name string
	rel  string
	fn   func(in *Interp) *ssa.Function
	sig  *types.Signature
	recv types.Type
}

// publicFuncs lists the exported functions and methods of the public packages.
func publicFuncs(p *Program) []*ssa.Function {
	var out []*ssa.Function
	for _, rp := range p.repoPkgs {
		if internalPath(rp.PkgPath) {
			continue
		}
		sp := p.pkgs[rp.PkgPath]
		names := rp.Types.Scope().Names()
		for _, n := range names {
			switch o := rp.Types.Scope().Lookup(n).(type) {
			case *types.Func:
				if o.Exported() {
					out = append(out, sp.Func(n))
				}
			case *types.TypeName:
				if !o.Exported() || o.IsAlias() {
					continue
				}
				nt, ok := o.Type().(*types.Named)
				if !ok || nt.TypeParams().Len() > 0 {
					continue
				}
				if _, ok := nt.Underlying().(*types.Interface); ok {
					continue
				}
				for i := 0; i < nt.NumMethods(); i++ {
					if m := nt.Method(i); m.Exported() {
						out = append(out, p.prog.FuncValue(m))
					}
				}
			}
		}
	}
	return out
}

func internalPath(s string) bool {
	for _, part := range splitPath(s) {
		if part == "internal" {
			return true
		}
	}
	return false
}

func splitPath(s string) []string {
	var out []string
	for len(s) > 0 {
		i := 0
		for i < len(s) && s[i] != '/' {
			i++
		}
		out = append(out, s[:i])
		if i < len(s) {
			i++
		}
		s = s[i:]
	}
	return out
}

// anyInput declares an arbitrary input of the type; the returned function
// builds the value in a run.
func (w *World) anyInput(name string, t types.Type, intW int) (func(r *Run) Value, error) {
	if p, ok := under(t).(*types.Pointer); ok {
		if namedPath(p.Elem()) == "math/big.Float" {
			in := w.bigFloat(name)
			return func(r *Run) Value { v, _ := in.arg(r); return v }, nil
		}
		inner, err := w.anyInput(name, p.Elem(), intW)
		if err != nil {
			return nil, err
		}
		return func(r *Run) Value {
			c := r.newCell(p.Elem(), ownParam)
			c.name = "the caller's " + name
			r.store1(c, inner(r))
			return PtrV{c}
		}, nil
	}
	switch u := under(t).(type) {
	case *types.Basic:
		tmp := &Run{in: &Interp{intW: intW}}
		if n, s, ok := tmp.basicKind(u); ok {
			in := w.bits(name, n)
			return func(r *Run) Value { return in.intv(s) }, nil
		}
		if n := floatWidth(t); n > 0 {
			in := w.bits(name, n)
			return func(r *Run) Value { return in.float() }, nil
		}
		if u.Info()&types.IsBoolean != 0 {
			v := w.newVar(name + "[0]")
			return func(r *Run) Value { return BoolV{r.bit(varBit(v))} }, nil
		}
	case *types.Struct:
		if leafStruct(t) != "" {
			return nil, fmt.Errorf("input of type %s", t)
		}
		var fs []func(r *Run) Value
		for i := 0; i < u.NumFields(); i++ {
			f, err := w.anyInput(name+"."+u.Field(i).Name(), u.Field(i).Type(), intW)
			if err != nil {
				return nil, err
			}
			fs = append(fs, f)
		}
		return func(r *Run) Value {
			a := AggV{}
			for _, f := range fs {
				a.f = append(a.f, f(r))
			}
			return a
		}, nil
	case *types.Array:
		if u.Len() <= 64 {
			var fs []func(r *Run) Value
			for i := int64(0); i < u.Len(); i++ {
				f, err := w.anyInput(fmt.Sprintf("%s.%d", name, i), u.Elem(), intW)
				if err != nil {
					return nil, err
				}
				fs = append(fs, f)
			}
			return func(r *Run) Value {
				a := AggV{}
				for _, f := range fs {
					a.f = append(a.f, f(r))
				}
				return a
			}, nil
		}
	}
	return nil, fmt.Errorf("no arbitrary input of type %s", t)
}

// anyCall declares arbitrary arguments for fn.
func (w *World) anyCall(fn *ssa.Function, intW int) (func(r *Run) []Value, error) {
	var fs []func(r *Run) Value
	for i, p := range fn.Params {
		n := p.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("arg%d", i)
		}
		f, err := w.anyInput(n, p.Type(), intW)
		if err != nil {
			return nil, err
		}
		fs = append(fs, f)
	}
	return func(r *Run) []Value {
		var out []Value
		for _, f := range fs {
			out = append(out, f(r))
		}
		return out
	}, nil
}

func shortName(p *Program, fn *ssa.Function) string { return fn.RelString(nil) }

// perFunc makes one goal per public function and word size.
func perFunc(progs map[int]*Program, suffix string, keep func(fn *ssa.Function) bool, run func(r *Run, fn *ssa.Function, args []Value) error) []*Goal {
	var gs []*Goal
	for _, wsz := range []int{64, 32} {
		p := progs[wsz]
		for _, fn := range publicFuncs(p) {
			if keep != nil && !keep(fn) {
				continue
			}
			fn := fn
			w := newWorld()
			mk, err := w.anyCall(fn, wsz)
			name := fmt.Sprintf("%s %s [%d-bit int]", fn.RelString(nil), suffix, wsz)
			if err != nil {
				e := err
				gs = append(gs, &Goal{name: name, in: p, world: w, run: func(r *Run) error { r.giveUp("%v", e); return nil }})
				continue
			}
			again := func() (*World, func(r *Run) error) {
				w := newWorld()
				mk, err := w.anyCall(fn, wsz)
				return w, func(r *Run) error {
					if err != nil {
						r.giveUp("%v", err)
					}
					return run(r, fn, mk(r))
				}
			}
			gs = append(gs, &Goal{name: name, in: p, world: w, run: func(r *Run) error { return run(r, fn, mk(r)) }, again: again})
		}
	}
	return gs
}

func takesBig(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if pt, ok := under(p.Type()).(*types.Pointer); ok {
			if s := namedPath(pt.Elem()); s == "math/big.Float" || s == "math/big.Int" {
				return true
			}
		}
	}
	return false
}

func returnsPointer(fn *ssa.Function) bool {
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		switch under(res.At(i).Type()).(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Chan, *types.Signature:
			return true
		}
	}
	return false
}

// C17
func argumentGoals(progs map[int]*Program) []*Goal {
	return perFunc(progs, "leaves arguments alone", func(fn *ssa.Function) bool { return takesBig(fn) || returnsPointer(fn) },
		func(r *Run, fn *ssa.Function, args []Value) error {
			type saved struct {
				c *Cell
				b BigF
			}
			var before []saved
			for _, a := range args {
				r.reach(a, map[*Cell]bool{}, func(c *Cell) {
					if b, ok := c.v.(BigF); ok {
						before = append(before, saved{c, b})
					}
				})
			}
			var res Value
			if err := spoilt(r, func() { res = r.dispatch(fn, args, nil) }); err != nil {
				return err
			}
			for _, s := range before {
				now, ok := s.c.v.(BigF)
				if !ok {
					return bad("the argument was overwritten")
				}
				if err := sameState(r, now, s.b); err != nil {
					if len(r.paramWrites) > 0 {
						return bad("%v; %s", err, r.paramWrites[0])
					}
					return err
				}
			}
			return freshResult(r, res)
		})
}

// spoilt runs f, which may give up because it comes to read an argument whose
// mantissa it has overwritten.
func spoilt(r *Run, f func()) (err error) {
	defer func() {
		if !r.spoilt {
			return
		}
		if e := recover(); e != nil {
			if _, ok := e.(*undecided); !ok {
				panic(e)
			}
			err = bad("the argument's mantissa is overwritten through a struct copy")
		}
	}()
	f()
	return nil
}

// freshResult: no memory of the result is an argument's or outlives the call.
func freshResult(r *Run, res Value) error {
	var err error
	r.reach(res, map[*Cell]bool{}, func(c *Cell) {
		if c.own != ownFresh && err == nil {
			err = bad("the result shares memory with %s", c.name)
		}
		if b, ok := c.v.(BigF); ok && b.grp != nil && b.form == fFinite {
			for _, o := range b.grp.cells {
				if x, ok := o.v.(BigF); ok && x.grp == b.grp && o.own != ownFresh && err == nil {
					err = bad("the result is a struct copy sharing its mantissa with %s", o.name)
				}
			}
		}
	})
	if err != nil {
		return err
	}
	// nothing the call left in package state may be the result
	shared := map[*Cell]bool{}
	for _, c := range r.globals {
		r.reachCell(c, shared, func(*Cell) {})
	}
	for _, v := range r.hidden {
		r.reach(v, shared, func(*Cell) {})
	}
	r.reach(res, map[*Cell]bool{}, func(c *Cell) {
		if shared[c] && err == nil {
			err = bad("the result is also reachable from package state")
		}
	})
	return err
}

// sameState compares value, sign, precision, mode and accuracy.
func sameState(r *Run, got, want BigF) error {
	if got.stale() {
		if !got.grp.certain {
			r.giveUp("the argument's mantissa may be overwritten through a struct copy")
		}
		return bad("the argument's mantissa is overwritten through a struct copy")
	}
	if !r.eqLin(got.prec, want.prec) {
		return bad("the argument's precision is changed")
	}
	if !r.eqLin(got.mode, want.mode) {
		return bad("the argument's rounding mode is changed")
	}
	if !r.eqLin(got.acc, want.acc) {
		return bad("the argument's accuracy is changed")
	}
	if err := sameNumber(r, got, want); err != nil {
		return bad("the argument's value is changed")
	}
	return nil
}

// C19
func panicGoals(progs map[int]*Program) []*Goal {
	return perFunc(progs, "returns normally", nil, func(r *Run, fn *ssa.Function, args []Value) error {
		r.dispatch(fn, args, nil)
		return nil
	})
}

// C20
func wordSizeGoals(progs map[int]*Program) []*Goal {
	var gs []*Goal
	p64, p32 := progs[64], progs[32]
	other := map[string]*ssa.Function{}
	for _, fn := range publicFuncs(p32) {
		other[fn.RelString(nil)] = fn
	}
	for _, fn := range publicFuncs(p64) {
		fn := fn
		w := newWorld()
		mk, err := w.anyCall(fn, 32)
		name := fn.RelString(nil) + " on 64-bit and 32-bit int"
		fn32 := other[fn.RelString(nil)]
		gs = append(gs, &Goal{name: name, in: p64, world: w, run: func(r *Run) error {
			if err != nil {
				r.giveUp("%v", err)
			}
			if fn32 == nil {
				return bad("it does not exist on 32-bit platforms")
			}
			call := func(p *Program, f *ssa.Function) (v Value, pan *goPanic) {
				r.in = p.Interp
				r.initMem()
				r.stack = nil
				args := mk(r)
				for i := range args {
					if iv, ok := args[i].(IntV); ok {
						if wd, s, ok := r.basic(f.Params[i].Type()); ok {
							args[i] = r.convInt(iv, wd, s)
						}
					}
				}
				pan = r.catch(func() { v = r.dispatch(f, args, nil) })
				return
			}
			a, pa := call(p64, fn)
			b, pb := call(p32, fn32)
			if (pa != nil) != (pb != nil) {
				return bad("it panics on one word size only")
			}
			if pa != nil {
				return nil
			}
			return sameResult(r, a, b)
		}})
	}
	return gs
}

func sameResult(r *Run, a, b Value) error {
	switch x := a.(type) {
	case IntV:
		y := b.(IntV)
		if x.w == y.w && x.bits != nil && y.bits != nil {
			if !r.bitsEqual(r.toBits(x), r.toBits(y)) {
				return bad("the results differ between word sizes")
			}
			return nil
		}
		if !r.eqLin(r.toLin(x), r.toLin(y)) {
			return bad("the results differ between word sizes: %s and %s", r.linText(r.toLin(x)), r.linText(r.toLin(y)))
		}
	case BoolV:
		if r.decideBit(r.xorBit(x.b, b.(BoolV).b)) {
			return bad("the results differ between word sizes")
		}
	case FloatV:
		return sameFloatBits(r, x, b.(FloatV), "the result on one word size")
	case AggV:
		y := b.(AggV)
		for i := range x.f {
			if err := sameResult(r, x.f[i], y.f[i]); err != nil {
				return err
			}
		}
	case TupleV:
		y := b.(TupleV)
		for i := range x {
			if err := sameResult(r, x[i], y[i]); err != nil {
				return err
			}
		}
	case StrV:
		if !r.decideBit(r.eqStr(x, b.(StrV))) {
			return bad("the results differ between word sizes")
		}
	case PtrV:
		y := b.(PtrV)
		if (x.c == nil) != (y.c == nil) {
			return bad("the results differ between word sizes")
		}
		if x.c == nil {
			return nil
		}
		if bx, ok := x.c.v.(BigF); ok {
			by, ok := y.c.v.(BigF)
			if !ok {
				return bad("the results differ between word sizes")
			}
			if err := sameState(r, bx, by); err != nil {
				return bad("the results differ between word sizes (%v)", err)
			}
			return nil
		}
		return sameResult(r, r.load(x.c), r.load(y.c))
	case IfaceV:
		y := b.(IfaceV)
		if (x.t == nil) != (y.t == nil) {
			return bad("the results differ between word sizes")
		}
		if x.t == nil {
			return nil
		}
		return sameResult(r, x.v, y.v)
	case nil:
		return nil
	default:
		r.giveUp("results of kind %T", a)
	}
	return nil
}
