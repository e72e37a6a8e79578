package main

// Specification-level building blocks: inputs, formats, and comparison of the
// abstract results with what the IEEE 754 definitions require. Nothing here
// looks at the analysed code except through calls of its exported functions.

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type bugError string

func (e bugError) Error() string { return string(e) }

// unsureError is a mismatch of forms that may yet be equal in value.
type unsureError string

func (e unsureError) Error() string { return string(e) }

func unsure(format string, args ...any) error { return unsureError(fmt.Sprintf(format, args...)) }

func bad(format string, args ...any) error { return bugError(fmt.Sprintf(format, args...)) }

// ---- inputs

type bitsIn struct {
	vars []int
}

func (w *World) bits(name string, n int) bitsIn {
	b := bitsIn{}
	for i := 0; i < n; i++ {
		b.vars = append(b.vars, w.newVar(fmt.Sprintf("%s[%d]", name, i)))
	}
	return b
}

func (b bitsIn) vec() []Bit {
	out := make([]Bit, len(b.vars))
	for i, v := range b.vars {
		out[i] = varBit(v)
	}
	return out
}

// floatBits declares the bits of a native float.
func (w *World) floatBits(name string, n int) bitsIn {
	b := w.bits(name, n)
	w.expField(b.vars, floatFmt(n))
	return b
}

func (b bitsIn) intv(signed bool) IntV { return IntV{w: len(b.vars), signed: signed, bits: b.vec()} }
func (b bitsIn) float() FloatV         { return FloatV{w: len(b.vars), bits: b.vec()} }

// symIn is an integer input tracked as a form.
type symIn struct {
	id     int
	w      int
	signed bool
}

func (w *World) integer(name string, width int, signed bool) symIn {
	lo, hi := typeRange(width, signed)
	return symIn{w.newSym(name, lo, hi), width, signed}
}

func (s symIn) val(r *Run) IntV { return IntV{w: s.w, signed: s.signed, lin: r.linSym(s.id)} }

// bigIn is an arbitrary multi-precision number: any sign, form, precision,
// rounding mode, accuracy, exponent and mantissa.
type bigIn struct {
	form, mode, acc, prec0, exp int
	sign                        int
	st                          *Stream
}

func (w *World) bigFloat(name string) bigIn {
	b := bigIn{}
	b.form = w.newSym(name+".form(0 zero,1 finite,2 infinity)", bi(0), bi(2))
	b.sign = w.newVar(name + ".signbit[0]")
	b.mode = w.newSym(name+".mode", bi(0), bi(5))
	b.acc = w.newSym(name+".acc", bi(-1), bi(1))
	b.prec0 = w.newSym(name+".precision if not finite", bi(0), bi(1<<31))
	b.exp = w.newSym(name+".exponent", bi(-1<<31), bi(1<<31-1))
	b.st = w.newStream(name)
	b.st.E = b.exp
	return b
}

func (b bigIn) content(r *Run) BigF {
	z := newBigF()
	z.neg = r.bit(varBit(b.sign))
	z.mode = r.linSym(b.mode)
	z.acc = r.linSym(b.acc)
	switch r.concrete(r.linSym(b.form)).Int64() {
	case 0:
		z.form = fZero
		z.prec = r.linSym(b.prec0)
	case 2:
		z.form = fInf
		z.prec = r.linSym(b.prec0)
	default:
		z.form = fFinite
		z.kind = kBits
		z.prec = r.linSym(b.st.M).add(r.linSym(b.st.S))
		z.exp = r.linSym(b.exp)
		z.m = Mant{st: b.st}
	}
	return z
}

func (b bigIn) arg(r *Run) (Value, BigF) {
	x := b.content(r)
	c := &Cell{typ: r.in.bigFloatType(), v: x, own: ownParam, name: "the caller's *big.Float"}
	if r.firstArg != nil {
		// the variable of the earlier call, with new content
		c, r.firstArg = r.firstArg, nil
		c.v = x
	}
	return PtrV{c}, x
}

// ---- calls of the analysed module

func (r *Run) pkg(rel string) *ssa.Package {
	path := r.in.repo
	if rel != "" {
		path += "/" + rel
	}
	p := r.in.pkgs[path]
	if p == nil {
		r.giveUp("package %s not found", path)
	}
	return p
}

func (r *Run) callPkg(rel, name string, args ...Value) Value {
	fn := r.pkg(rel).Func(name)
	if fn == nil {
		r.giveUp("function %s.%s not found", rel, name)
	}
	if len(fn.Params) != len(args) {
		r.giveUp("function %s.%s has %d parameters, not %d", rel, name, len(fn.Params), len(args))
	}
	return r.dispatch(fn, args, nil)
}

func (r *Run) floatType(rel string) types.Type {
	t := r.pkg(rel).Type("Float")
	if t == nil {
		r.giveUp("type %s.Float not found", rel)
	}
	return t.Type()
}

func (r *Run) callMethod(rel string, recv Value, name string, args ...Value) Value {
	t := r.floatType(rel)
	loadMu.Lock()
	sel := r.in.prog.MethodSets.MethodSet(t).Lookup(r.pkg(rel).Pkg, name)
	var fn *ssa.Function
	ptr := false
	if sel == nil {
		sel = r.in.prog.MethodSets.MethodSet(types.NewPointer(t)).Lookup(r.pkg(rel).Pkg, name)
		ptr = true
	}
	if sel != nil {
		fn = r.in.prog.MethodValue(sel)
	}
	loadMu.Unlock()
	if fn == nil {
		r.giveUp("method %s.Float.%s not found", rel, name)
	}
	if ptr {
		c := r.newCell(t, ownParam)
		c.name = "the receiver"
		r.store1(c, recv)
		recv = PtrV{c}
	}
	return r.dispatch(fn, append([]Value{recv}, args...), nil)
}

func (r *Run) pkgVar(rel, name string) Value {
	g := r.pkg(rel).Var(name)
	if g == nil {
		r.giveUp("variable %s.%s not found", rel, name)
	}
	r.entry = r.varPos(g)
	return r.load(r.global(g))
}

func (r *Run) varPos(g *ssa.Global) string {
	p := r.in.prog.Fset.Position(g.Pos())
	return fmt.Sprintf("%s:%d (%s)", p.Filename, p.Line, g.RelString(nil))
}

// ---- formats

// format describes one of the five formats from the outside.
type format struct {
	rel   string
	prm   fmtParam
	x87   bool
	ppc   bool
	words []int // widths of the words of the pattern, most significant first
}

var (
	fHalf  = &format{rel: "binary16", prm: fmt16, words: []int{16}}
	fBF    = &format{rel: "bfloat", prm: fmtBF, words: []int{16}}
	fQuad  = &format{rel: "binary128", prm: fmt128, words: []int{64, 64}}
	fX87   = &format{rel: "float80x86", prm: fmt80, x87: true, words: []int{16, 64}}
	fPPC   = &format{rel: "float128ppc", prm: fmt64, ppc: true, words: []int{64, 64}}
	encFmt = []*format{fHalf, fQuad, fX87, fPPC}
	allFmt = []*format{fHalf, fBF, fQuad, fX87, fPPC}
)

// pattern is the input bit pattern of a format, as words.
type pattern struct {
	f *format
	w []bitsIn
}

func (w *World) pattern(f *format) pattern {
	p := pattern{f: f}
	for i, n := range f.words {
		p.w = append(p.w, w.bits(fmt.Sprintf("%s.word%d", f.rel, i), n))
	}
	switch {
	case f.ppc:
		w.expField(p.w[0].vars, fmt64)
		w.expField(p.w[1].vars, fmt64)
	case f.x87:
		w.expos = append(w.expos, expField{p.w[0].vars[:15], f.prm.bias})
	case len(f.words) == 2:
		w.expos = append(w.expos, expField{p.w[0].vars[48:63], f.prm.bias})
	default:
		w.expField(p.w[0].vars, f.prm)
	}
	return p
}

func (p pattern) args() []Value {
	var a []Value
	for _, b := range p.w {
		a = append(a, b.intv(false))
	}
	return a
}

// vec is the whole pattern, LSB first.
func (p pattern) vec() []Bit {
	var out []Bit
	for i := len(p.w) - 1; i >= 0; i-- {
		out = append(out, p.w[i].vec()...)
	}
	return out
}

func (p pattern) num(r *Run) Value { return r.callPkg(p.f.rel, "NewFromBits", p.args()...) }

// fieldsOf cuts a pattern into sign, exponent and fraction (x87: the fraction
// includes the lead bit on top).
func (f *format) fieldsOf(v []Bit) (sign Bit, exp, frac []Bit) {
	m := f.prm.mbits
	if f.x87 {
		m = 64
	}
	return v[len(v)-1], v[m : m+f.prm.ebits], v[:m]
}

// decoded is what a pattern means.
type decoded struct {
	nan  bool
	sign Bit
	val  BigF // when !nan
	zero bool // val is a zero of either sign: the parts cancel
}

// decode gives the meaning of a pattern by the format's definition.
func (f *format) decode(r *Run, v []Bit) decoded {
	if f.ppc {
		return decodePPC(r, FloatV{w: 64, bits: v[64:]}, FloatV{w: 64, bits: v[:64]})
	}
	sign, exp, frac := f.fieldsOf(v)
	d := decoded{sign: r.bit(sign)}
	d.val = newBigF()
	d.val.neg = d.sign
	allOnes := !r.anySet(notAll(exp))
	if allOnes {
		if f.x87 {
			// infinity iff the significand is the lead bit alone
			if r.anySet(append([]Bit{r.bit(frac[63]).not()}, frac[:63]...)) {
				d.nan = true
				return d
			}
		} else if r.anySet(frac) {
			d.nan = true
			return d
		}
		d.val.form = fInf
		return d
	}
	// value = significand * 2^(max(e,1) - bias - mbits)
	sig := append([]Bit{}, frac...)
	var e Lin
	if f.x87 {
		if r.anySet(exp) {
			e = r.bitsLin(exp, false)
		} else {
			e = linI(1)
		}
	} else if r.anySet(exp) {
		sig = append(sig, bit1)
		e = r.bitsLin(exp, false)
	} else {
		e = linI(1)
	}
	d.val.prec = linI(4096)
	r.bfFromInt(&d.val, sig, d.sign, e.addC(bi(int64(-f.prm.bias-f.prm.mbits))))
	return d
}

func decodePPC(r *Run, h, l FloatV) decoded {
	d := decoded{sign: r.floatSign(h)}
	hn, ln := r.isNaN(h), r.isNaN(l)
	if hn || ln {
		d.nan = true
		return d
	}
	hi, li := r.isInf(h), r.isInf(l)
	d.val = newBigF()
	switch {
	case hi && li:
		if r.decideBit(r.xorBit(r.floatSign(h), r.floatSign(l))) {
			d.nan = true
			return d
		}
		d.val.form, d.val.neg = fInf, r.floatSign(h)
	case hi:
		d.val.form, d.val.neg = fInf, r.floatSign(h)
	case li:
		d.val.form, d.val.neg = fInf, r.floatSign(l)
	default:
		hz, lz := r.isZeroF(h), r.isZeroF(l)
		switch {
		case hz && lz:
			d.val.neg = d.sign
		case hz:
			d.val = r.floatValue(l)
		case lz:
			d.val = r.floatValue(h)
		default:
			if r.eager() {
				z := newBigF()
				z.prec = linI(4096)
				if r.addBits(&z, r.floatValue(h), r.floatValue(l)) {
					d.val, d.zero = z, z.form == fZero
					return d
				}
			}
			s := r.sumAdd(r.nativeSum(h), r.nativeSum(l))
			if r.eqLin(r.sumSignLin(s), linI(0)) {
				d.zero = true
				return d
			}
			d.val = r.sumBig(s)
		}
	}
	return d
}

// encode gives the canonical pattern of an exactly representable number.
func (f *format) encode(r *Run, x BigF) []Bit {
	if !f.x87 {
		return r.encodeIEEE(x, f.prm)
	}
	out := make([]Bit, 80)
	for i := range out {
		out[i] = bit0
	}
	out[79] = r.bit(x.neg)
	switch x.form {
	case fZero:
		return out
	case fInf:
		for i := 63; i < 79; i++ {
			out[i] = bit1
		}
		return out
	}
	x = r.bitsOf(x)
	emin := 1 - f.prm.bias
	if r.geq(x.exp.addC(bi(int64(-1 - emin)))) {
		copy(out[64:], r.linBits(x.exp.addC(bi(int64(f.prm.bias-1))), 15))
		for i := 0; i < 64; i++ {
			out[63-i] = r.mantBit(x.m, i)
		}
		return out
	}
	sh := int(r.concrete(x.exp).Int64()) - 1 - emin // negative
	for i := 0; i < 64; i++ {
		// significand bit i from the top has weight 2^(emin-i)
		if k := i + sh; k >= 0 {
			out[63-i] = r.mantBit(x.m, k)
		}
	}
	return out
}

// nanPattern reports whether a pattern is NaN.
func (f *format) isNaNPattern(r *Run, v []Bit) bool { return f.decode(r, v).nan }

// patternOf reads the bits of a number back through its Bits method.
func (f *format) patternOf(r *Run, num Value) []Bit {
	res := r.callMethod(f.rel, num, "Bits")
	if len(f.words) == 1 {
		return r.toBits(res.(IntV))
	}
	t := res.(TupleV)
	lo := r.toBits(t[1].(IntV))
	return append(append([]Bit{}, lo...), r.toBits(t[0].(IntV))...)
}

// ---- comparison

// sameNumber checks that two multi-precision numbers are equal, zeros and
// infinities with their sign.
func sameNumber(r *Run, got, want BigF) error {
	got, want = r.mat(got), r.mat(want)
	if got.form == fFinite && got.kind == kSum || want.form == fFinite && want.kind == kSum {
		if got.form == want.form && got.form == fFinite {
			d := r.sumSub(r.contentSum(got), r.contentSum(want))
			if len(d.terms) == 0 {
				return nil
			}
			return unsure("the number is %s, required: %s", r.sumText(got), r.sumText(want))
		}
		if got.form == fInf || want.form == fInf {
			return bad("the number is %s, required: %s", formText(got), formText(want))
		}
		// zero against a sum that may be zero
		z, s := got, want
		if got.form == fFinite {
			z, s = want, got
		}
		_ = z
		l := r.sumSignLin(s.sum)
		if !r.eqLin(l, linI(0)) {
			return bad("the number is %s, required: %s", formText(got), formText(want))
		}
		return nil
	}
	if got.form != want.form {
		return bad("the number is %s, required: %s", formText(got), formText(want))
	}
	if r.decideBit(r.xorBit(got.neg, want.neg)) {
		return bad("the sign of the result is wrong (%s)", formText(got))
	}
	if got.form != fFinite {
		return nil
	}
	if got.kind == kNative && want.kind == kNative && r.sameFloat(r.floatAbs(got.nat), r.floatAbs(want.nat)) {
		return nil
	}
	got, want = r.bitsOf(got), r.bitsOf(want)
	if !r.eqLin(got.exp, want.exp) {
		return bad("the exponent of the result is wrong (%s, required %s)", r.linText(got.exp), r.linText(want.exp))
	}
	if got.m.st != nil && want.m.st != nil {
		if c := r.ucmp(got, want); c != 0 {
			return bad("the mantissa of the result is wrong")
		}
		return nil
	}
	n := len(got.m.bits)
	if len(want.m.bits) > n {
		n = len(want.m.bits)
	}
	if got.m.st != nil && r.mantSticky(got.m, n) || want.m.st != nil && r.mantSticky(want.m, n) {
		return bad("the mantissa of the result is cut short or extended")
	}
	a, b := make([]Bit, n), make([]Bit, n)
	for i := 0; i < n; i++ {
		a[i], b[i] = r.mantBit(got.m, i), r.mantBit(want.m, i)
	}
	if !r.bitsEqual(a, b) {
		return bad("the mantissa of the result is wrong")
	}
	return nil
}

func (r *Run) linText(l Lin) string {
	l = r.subst(l)
	if l.isConst() {
		return l.c.String()
	}
	lo, hi := r.interval(l)
	return fmt.Sprintf("in [%s,%s]", lo, hi)
}

func (r *Run) sumText(x BigF) string {
	if x.kind == kSum {
		s := r.sumKey(x.sum)
		if len(s) > 120 {
			s = s[:120] + "..."
		}
		if len(x.sum.terms) == 1 && len(x.sum.terms[0].key) > 5 && x.sum.terms[0].key[:5] == "round" {
			return "the sum rounded to a precision that cannot hold it exactly"
		}
		return "the combination " + s
	}
	return formText(x)
}

func formText(x BigF) string {
	switch x.form {
	case fZero:
		return "zero"
	case fInf:
		return "infinity"
	}
	return "finite and not zero"
}

// sameFloatBits checks that two native floats have the same bits.
func sameFloatBits(r *Run, got, want FloatV, what string) error {
	if got.bits == nil && want.bits == nil && r.sameFloat(got, want) {
		return nil
	}
	g, err := plainFloat(r, got)
	if err != nil {
		return err
	}
	w, err := plainFloat(r, want)
	if err != nil {
		return err
	}
	if g.bits == nil || w.bits == nil {
		if g.bits == nil && w.bits == nil && r.sameFloat(g, w) {
			return nil
		}
		return unsure("%s is not the correctly rounded value", what)
	}
	if !r.bitsEqual(r.floatBits(g), r.floatBits(w)) {
		return bad("%s has the wrong bits", what)
	}
	return nil
}

// plainFloat materialises the bits of a lazily rounded number, except when it
// is the rounding of a sum.
func plainFloat(r *Run, f FloatV) (FloatV, error) {
	if r.eager() && f.bits == nil {
		f = FloatV{w: f.w, bits: r.floatBits(f)}
	}
	if f.bits != nil || f.term == nil || f.term.add {
		return f, nil
	}
	if f.term.src.kind == kSum && f.term.src.form == fFinite {
		return f, nil
	}
	return FloatV{w: f.w, bits: r.floatBits(f)}, nil
}

var accName = map[int64]string{-1: "Below", 0: "Exact", 1: "Above"}

func sameAcc(r *Run, got Value, want Lin) error {
	g := r.toLin(got.(IntV))
	if r.eqLin(g, want) {
		return nil
	}
	g, want = r.subst(g), r.subst(want)
	if g.isConst() && want.isConst() {
		return bad("the accuracy is %s, required: %s", accName[g.c.Int64()], accName[want.c.Int64()])
	}
	return unsure("the accuracy is wrong")
}

func resultBig(r *Run, v Value) BigF {
	p, ok := v.(PtrV)
	if !ok || p.c == nil {
		r.giveUp("the result is not a *big.Float")
	}
	b, ok := p.c.v.(BigF)
	if !ok {
		r.giveUp("the result is not a *big.Float")
	}
	return b
}

func wantPtr(v Value) error {
	if p, ok := v.(PtrV); !ok || p.c == nil {
		return bad("the result is a nil *big.Float")
	}
	return nil
}

var _ = big.NewInt
