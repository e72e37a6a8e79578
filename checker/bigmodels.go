package main

// Models of math/big.Float and math/big.Int methods.

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (r *Run) cellOf(v Value) *Cell {
	if s, ok := v.(SymPtr); ok {
		return r.kid(s.arr, s.off+int(r.concreteInt(s.idx).Int64()))
	}
	p, ok := v.(PtrV)
	if !ok {
		r.giveUp("pointer expected, got %T", v)
	}
	if p.c == nil {
		r.rtPanic("nil pointer dereference")
	}
	return p.c
}

// bfRead reads a big.Float argument.
func (r *Run) bfRead(v Value) BigF {
	c := r.cellOf(v)
	b, ok := c.v.(BigF)
	if !ok {
		r.giveUp("big.Float expected")
	}
	if b.stale() {
		r.spoilt = r.spoilt || b.grp.certain && c.own == ownParam
		r.giveUp("a number is used whose mantissa has been overwritten through a struct copy")
	}
	b.grp = nil
	return b
}

// bfWrite applies f to the number behind the pointer and stores the result.
func (r *Run) bfWrite(v Value, f func(z *BigF)) Value {
	c := r.cellOf(v)
	z, ok := c.v.(BigF)
	if !ok {
		r.giveUp("big.Float expected")
	}
	g, old := z.grp, z
	if z.stale() {
		r.spoilt = r.spoilt || g.certain && c.own == ownParam
		r.giveUp("a number is changed whose mantissa has been overwritten through a struct copy")
	}
	z.grp = nil
	f(&z)
	if g != nil && old.form == fFinite && z.form == fFinite {
		if !sameMant(old, z) {
			g.gen++
			g.certain = false
		}
		z.grp, z.gen = g, g.gen
	}
	r.noteWrite(c)
	c.v = z
	return v
}

func (r *Run) acc8(l Lin) IntV  { return IntV{w: 8, signed: true, lin: r.subst(l)} }
func (r *Run) mode8(l Lin) IntV { return IntV{w: 8, signed: false, lin: r.subst(l)} }

func (r *Run) newBF(b BigF) Value {
	c := &Cell{typ: r.in.bigFloatType(), v: b, own: ownFresh, name: "new big.Float"}
	return PtrV{c}
}

func (r *Run) newBI(b BigI) Value {
	c := &Cell{typ: r.in.bigIntType(), v: b, own: ownFresh, name: "new big.Int"}
	return PtrV{c}
}

func (r *Run) zeroPrec(z *BigF, p Lin) {
	zp := r.subst(z.prec)
	if zp.isConst() {
		if zp.c.Sign() == 0 {
			z.prec = p
		}
		return
	}
	if !r.geq(zp.addC(bi(-1))) {
		z.prec = p
	}
}

// bfSetFloat is z.SetFloat64(f).
func (r *Run) bfSetFloat(z *BigF, f FloatV) {
	if r.isNaN(f) {
		panic(&goPanic{val: "ErrNaN: Float.SetFloat64(NaN)", pos: r.where()})
	}
	r.zeroPrec(z, linI(53))
	x := r.floatValue(f)
	z.acc = linI(0)
	z.content(x)
	if z.form == fFinite && r.lt(z.prec, linI(53)) {
		r.bfRound(z)
	}
}

func (r *Run) absNum(x BigF) BigF {
	if x.form == fFinite && x.kind == kSum {
		s := r.sumSignLin(x.sum)
		if !r.geq(s) {
			return r.bfNegContent(x)
		}
		return x
	}
	x.neg = bit0
	return x
}

func init() {
	F := func(name string, m model) { register("(*math/big.Float)."+name, m) }
	I := func(name string, m model) { register("(*math/big.Int)."+name, m) }

	register("math/big.NewFloat", func(r *Run, fn *ssa.Function, a []Value) Value {
		z := newBigF()
		f := a[0].(FloatV)
		if r.isNaN(f) {
			panic(&goPanic{val: "ErrNaN: NewFloat(NaN)", pos: r.where()})
		}
		r.bfSetFloat(&z, f)
		return r.newBF(z)
	})
	F("SetPrec", func(r *Run, fn *ssa.Function, a []Value) Value {
		old, _ := r.cellOf(a[0]).v.(BigF)
		p := r.subst(r.toLin(a[1].(IntV)))
		inPlace := false
		if old.grp != nil && old.form == fFinite && old.kind == kBits && p.isConst() && p.c.Sign() > 0 {
			// the words in which bits that were set are cleared stay where
			// they are if none is cut off
			words := new(big.Int).Rsh(add(p.c, bi(63)), 6)
			n := r.bfMinPrec(old)
			inPlace = r.geq(n.sub(p).addC(bi(-1))) && r.geq(linC(mul(words, bi(64))).sub(n))
		}
		r.bfWrite(a[0], func(z *BigF) { r.bfSetPrec(z, r.toLin(a[1].(IntV))) })
		if z := r.cellOf(a[0]).v.(BigF); old.grp != nil && z.grp == old.grp && z.gen != old.gen && !r.eqLin(z.acc, linI(0)) && inPlace {
			old.grp.certain = true
		}
		return a[0]
	})
	F("SetMode", func(r *Run, fn *ssa.Function, a []Value) Value {
		return r.bfWrite(a[0], func(z *BigF) { z.mode = r.toLin(a[1].(IntV)); z.acc = linI(0) })
	})
	F("Prec", func(r *Run, fn *ssa.Function, a []Value) Value {
		return r.fit(r.bfRead(a[0]).prec, r.in.intW, false)
	})
	F("MinPrec", func(r *Run, fn *ssa.Function, a []Value) Value {
		return r.fit(r.bfMinPrec(r.bfRead(a[0])), r.in.intW, false)
	})
	F("Mode", func(r *Run, fn *ssa.Function, a []Value) Value { return r.mode8(r.bfRead(a[0]).mode) })
	F("Acc", func(r *Run, fn *ssa.Function, a []Value) Value { return r.acc8(r.bfRead(a[0]).acc) })
	F("Sign", func(r *Run, fn *ssa.Function, a []Value) Value { return r.mkInt(r.bfSign(r.bfRead(a[0]))) })
	F("Signbit", func(r *Run, fn *ssa.Function, a []Value) Value { return BoolV{r.bfSignbit(r.bfRead(a[0]))} })
	F("IsInf", func(r *Run, fn *ssa.Function, a []Value) Value {
		return BoolV{bitOf(r.mat(r.bfRead(a[0])).form == fInf)}
	})
	F("IsInt", func(r *Run, fn *ssa.Function, a []Value) Value { return BoolV{bitOf(r.bfIsInt(r.bfRead(a[0])))} })
	F("MantExp", func(r *Run, fn *ssa.Function, a []Value) Value {
		x := r.bfRead(a[0])
		p, _ := a[1].(PtrV)
		if p.c == nil {
			return r.mkInt(r.bfExpOnly(x))
		}
		m, e := r.bfMantExp(x)
		r.bfWrite(a[1], func(z *BigF) { *z = m })
		return r.mkInt(e)
	})
	F("SetMantExp", func(r *Run, fn *ssa.Function, a []Value) Value {
		x := r.bfRead(a[1])
		return r.bfWrite(a[0], func(z *BigF) { r.bfSetMantExp(z, x, r.toLin(a[2].(IntV))) })
	})
	F("Set", func(r *Run, fn *ssa.Function, a []Value) Value {
		x := r.bfRead(a[1])
		same := r.cellOf(a[0]) == r.cellOf(a[1])
		return r.bfWrite(a[0], func(z *BigF) { r.bfSet(z, x, same) })
	})
	F("Copy", func(r *Run, fn *ssa.Function, a []Value) Value {
		x := r.bfRead(a[1])
		return r.bfWrite(a[0], func(z *BigF) { *z = x })
	})
	F("SetInf", func(r *Run, fn *ssa.Function, a []Value) Value {
		return r.bfWrite(a[0], func(z *BigF) {
			z.acc = linI(0)
			z.form = fInf
			z.kind = kBits
			z.neg = a[1].(BoolV).b
		})
	})
	F("SetUint64", func(r *Run, fn *ssa.Function, a []Value) Value {
		return r.bfWrite(a[0], func(z *BigF) {
			r.zeroPrec(z, linI(64))
			r.bfFromInt(z, r.toBits(a[1].(IntV)), bit0, linI(0))
		})
	})
	F("SetInt64", func(r *Run, fn *ssa.Function, a []Value) Value {
		return r.bfWrite(a[0], func(z *BigF) {
			r.zeroPrec(z, linI(64))
			x := a[1].(IntV)
			l := r.toLin(x)
			if r.geq(l) {
				r.bfFromInt(z, r.toBits(x), bit0, linI(0))
			} else {
				r.bfFromInt(z, r.linBits(l.scale(bi(-1)), 64), bit1, linI(0))
			}
		})
	})
	F("SetFloat64", func(r *Run, fn *ssa.Function, a []Value) Value {
		return r.bfWrite(a[0], func(z *BigF) { r.bfSetFloat(z, a[1].(FloatV)) })
	})
	F("SetInt", func(r *Run, fn *ssa.Function, a []Value) Value {
		x := r.biRead(a[1])
		return r.bfWrite(a[0], func(z *BigF) {
			n := r.biBitLen(x)
			p := n
			if p < 64 {
				p = 64
			}
			r.zeroPrec(z, linI(int64(p)))
			r.bfFromInt(z, x.bits[:n:n], x.neg, linI(0))
			if n == 0 {
				z.neg = bit0
			}
		})
	})
	F("Neg", func(r *Run, fn *ssa.Function, a []Value) Value {
		x := r.bfRead(a[1])
		same := r.cellOf(a[0]) == r.cellOf(a[1])
		return r.bfWrite(a[0], func(z *BigF) {
			r.bfSet(z, x, same)
			*z = r.bfNegContent(*z)
		})
	})
	F("Abs", func(r *Run, fn *ssa.Function, a []Value) Value {
		x := r.bfRead(a[1])
		same := r.cellOf(a[0]) == r.cellOf(a[1])
		return r.bfWrite(a[0], func(z *BigF) {
			r.bfSet(z, x, same)
			*z = r.absNum(*z)
		})
	})
	arith := func(name string, op func(r *Run, z *BigF, x, y BigF)) {
		F(name, func(r *Run, fn *ssa.Function, a []Value) Value {
			x, y := r.bfRead(a[1]), r.bfRead(a[2])
			return r.bfWrite(a[0], func(z *BigF) { op(r, z, x, y) })
		})
	}
	arith("Add", func(r *Run, z *BigF, x, y BigF) { r.bfAdd(z, x, y, false) })
	arith("Sub", func(r *Run, z *BigF, x, y BigF) { r.bfAdd(z, x, y, true) })
	arith("Mul", func(r *Run, z *BigF, x, y BigF) { r.bfMul(z, x, y) })
	arith("Quo", func(r *Run, z *BigF, x, y BigF) { r.bfQuo(z, x, y) })
	F("Cmp", func(r *Run, fn *ssa.Function, a []Value) Value {
		return r.mkInt(r.bfCmp(r.bfRead(a[0]), r.bfRead(a[1])))
	})
	toFloat := func(w int) model {
		return func(r *Run, fn *ssa.Function, a []Value) Value {
			f, acc := r.floatOfContent(r.bfRead(a[0]), w)
			return TupleV{f, r.acc8(acc)}
		}
	}
	F("Float64", toFloat(64))
	F("Float32", toFloat(32))
	toInt := func(signed bool) model {
		return func(r *Run, fn *ssa.Function, a []Value) Value {
			x := r.mat(r.bfRead(a[0]))
			lo, hi := typeRange(64, signed)
			if x.form == fInf {
				if r.decideBit(x.neg) {
					return TupleV{intConst(64, signed, lo), r.acc8(linI(1))}
				}
				return TupleV{intConst(64, signed, hi), r.acc8(linI(-1))}
			}
			if x.form == fZero {
				return TupleV{intConst(64, signed, bigZero), r.acc8(linI(0))}
			}
			if !signed && r.decideBit(r.bfSignbit(x)) {
				return TupleV{intConst(64, false, bigZero), r.acc8(linI(1))}
			}
			if r.geq(r.bfExpOnly(x).addC(bi(-65))) {
				if r.decideBit(r.bfSignbit(x)) {
					return TupleV{intConst(64, signed, lo), r.acc8(linI(1))}
				}
				return TupleV{intConst(64, signed, hi), r.acc8(linI(-1))}
			}
			b, acc, _ := r.bfToInt(x)
			t := r.biTrim(b)
			l := r.bitsLin(padBits(t.bits, 65), false)
			if signed {
				neg := len(t.bits) > 0 && r.biNegative(b)
				if neg {
					l = l.scale(bi(-1))
				}
				if !neg && r.geq(l.addC(sub(bi(-1), hi))) {
					return TupleV{intConst(64, signed, hi), r.acc8(linI(-1))}
				}
				if neg && !r.geq(l.addC(neg64())) {
					return TupleV{intConst(64, signed, lo), r.acc8(linI(1))}
				}
				return TupleV{r.fit(l, 64, true), r.acc8(acc)}
			}
			// what math/big does, whatever its documentation says: a truncated
			// value whose mantissa has at most 64 bits counts as exact
			if a := r.subst(acc); !a.isConst() || a.c.Sign() != 0 {
				if r.geq(r.bfExpOnly(x).addC(bi(-1))) && !r.geq(r.bfMinPrec(x).addC(bi(-65))) {
					acc = linI(0)
				}
			}
			return TupleV{r.fromBits(padBits(t.bits, 64)[:64], false), r.acc8(acc)}
		}
	}
	F("Uint64", toInt(false))
	F("Int64", toInt(true))
	F("Int", func(r *Run, fn *ssa.Function, a []Value) Value {
		r.chargeExp(r.bfRead(a[0]), false, "the integer part of the number")
		b, acc, ok := r.bfToInt(r.bfRead(a[0]))
		if !ok {
			return TupleV{PtrV{}, r.acc8(acc)}
		}
		p, _ := a[1].(PtrV)
		if p.c == nil {
			return TupleV{r.newBI(b), r.acc8(acc)}
		}
		r.noteWrite(p.c)
		p.c.v = b
		return TupleV{p, r.acc8(acc)}
	})
	text := func(r *Run, x BigF, f byte, prec int) StrV {
		if f != 'b' && f != 'p' && f != 'x' && f != 'X' {
			r.chargeExp(x, true, "the decimal text of the number")
		}
		if c, ok := r.bfConst(x); ok {
			return strConst(c.Text(f, prec))
		}
		return unknownText
	}
	F("Text", func(r *Run, fn *ssa.Function, a []Value) Value {
		f, ok := r.constOf(a[1].(IntV))
		p, ok2 := r.constOf(a[2].(IntV))
		if !ok || !ok2 {
			return unknownText
		}
		return text(r, r.bfRead(a[0]), byte(f.Int64()), int(p.Int64()))
	})
	F("Rat", func(r *Run, fn *ssa.Function, a []Value) Value {
		r.chargeExp(r.bfRead(a[0]), true, "the number as a fraction")
		r.giveUp("big.Float.Rat")
		return nil
	})
	F("String", func(r *Run, fn *ssa.Function, a []Value) Value { return text(r, r.bfRead(a[0]), 'g', 10) })
	F("Parse", func(r *Run, fn *ssa.Function, a []Value) Value {
		base := int(r.concreteInt(a[2].(IntV)).Int64())
		return r.parseInto(a[0], a[1].(StrV), base)
	})
	F("SetString", func(r *Run, fn *ssa.Function, a []Value) Value {
		t := r.parseInto(a[0], a[1].(StrV), 0).(TupleV)
		if t[2].(IfaceV).t != nil {
			return TupleV{PtrV{}, BoolV{bit0}}
		}
		return TupleV{a[0], BoolV{bit1}}
	})
	register("math/big.ParseFloat", func(r *Run, fn *ssa.Function, a []Value) Value {
		z := newBigF()
		z.prec = r.toLin(a[2].(IntV))
		z.mode = r.toLin(a[3].(IntV))
		return r.parseInto(r.newBF(z), a[0].(StrV), int(r.concreteInt(a[1].(IntV)).Int64()))
	})

	// ---- big.Int
	register("math/big.NewInt", func(r *Run, fn *ssa.Function, a []Value) Value { return r.newBI(r.biFromInt(a[0].(IntV))) })
	I("Set", func(r *Run, fn *ssa.Function, a []Value) Value { return r.biWrite(a[0], r.biRead(a[1])) })
	I("SetInt64", func(r *Run, fn *ssa.Function, a []Value) Value { return r.biWrite(a[0], r.biFromInt(a[1].(IntV))) })
	I("SetUint64", func(r *Run, fn *ssa.Function, a []Value) Value { return r.biWrite(a[0], r.biFromInt(a[1].(IntV))) })
	bin := func(name string, op func(r *Run, x, y BigI) BigI) {
		I(name, func(r *Run, fn *ssa.Function, a []Value) Value {
			x, y := r.biRead(a[1]), r.biRead(a[2])
			return r.biWrite(a[0], op(r, x, y))
		})
	}
	bin("Or", func(r *Run, x, y BigI) BigI { return r.biBitwise(x, y, r.orBit) })
	bin("And", func(r *Run, x, y BigI) BigI { return r.biBitwise(x, y, r.andBit) })
	bin("Xor", func(r *Run, x, y BigI) BigI { return r.biBitwise(x, y, r.xorBit) })
	bin("AndNot", func(r *Run, x, y BigI) BigI {
		return r.biBitwise(x, y, func(a, b Bit) Bit { return r.andBit(a, r.bit(b).not()) })
	})
	bin("Add", func(r *Run, x, y BigI) BigI { return r.biAdd(x, y, false) })
	bin("Sub", func(r *Run, x, y BigI) BigI { return r.biAdd(x, y, true) })
	bin("Mul", func(r *Run, x, y BigI) BigI { return r.biMul(x, y) })
	shift := func(name string, op func(r *Run, x BigI, n int) BigI) {
		I(name, func(r *Run, fn *ssa.Function, a []Value) Value {
			if name == "Lsh" {
				r.charge(r.toLin(a[2].(IntV)), "the shift")
			}
			n := r.concreteInt(a[2].(IntV))
			if n.Cmp(bi(1<<16)) > 0 {
				r.giveUp("shift of a big.Int by %s", n)
			}
			return r.biWrite(a[0], op(r, r.biRead(a[1]), int(n.Int64())))
		})
	}
	shift("Lsh", func(r *Run, x BigI, n int) BigI { return r.biShl(x, n) })
	shift("Rsh", func(r *Run, x BigI, n int) BigI { return r.biShr(x, n) })
	I("Neg", func(r *Run, fn *ssa.Function, a []Value) Value {
		x := r.biRead(a[1])
		x.neg = r.bit(x.neg).not()
		return r.biWrite(a[0], x)
	})
	I("Abs", func(r *Run, fn *ssa.Function, a []Value) Value {
		x := r.biRead(a[1])
		x.neg = bit0
		return r.biWrite(a[0], x)
	})
	I("Cmp", func(r *Run, fn *ssa.Function, a []Value) Value {
		return r.mkInt(linI(int64(r.biCmp(r.biRead(a[0]), r.biRead(a[1])))))
	})
	I("CmpAbs", func(r *Run, fn *ssa.Function, a []Value) Value {
		return r.mkInt(linI(int64(r.biCmpAbs(r.biRead(a[0]), r.biRead(a[1])))))
	})
	I("Sign", func(r *Run, fn *ssa.Function, a []Value) Value {
		x := r.biRead(a[0])
		if r.biIsZero(x) {
			return r.mkInt(linI(0))
		}
		return r.mkInt(r.signed(1, x.neg))
	})
	I("BitLen", func(r *Run, fn *ssa.Function, a []Value) Value {
		return r.mkInt(linI(int64(r.biBitLen(r.biRead(a[0])))))
	})
	I("Bit", func(r *Run, fn *ssa.Function, a []Value) Value {
		x := r.biRead(a[0])
		i := r.concreteInt(a[1].(IntV))
		if i.Sign() < 0 {
			panic(&goPanic{val: "negative bit index", pos: r.where()})
		}
		var b Bit = bit0
		if !r.biNegative(x) {
			if i.IsInt64() && i.Int64() < int64(len(x.bits)) {
				b = x.bits[i.Int64()]
			}
		} else {
			n := int(i.Int64()) + 2
			b = r.twos(x, maxInt(n, len(x.bits)+1))[i.Int64()]
		}
		return r.fit(r.bitLin(b), r.in.intW, false)
	})
	I("SetBit", func(r *Run, fn *ssa.Function, a []Value) Value {
		x := r.biRead(a[1])
		r.charge(r.toLin(a[2].(IntV)), "setting this bit")
		i := r.concreteInt(a[2].(IntV))
		if i.Sign() < 0 {
			panic(&goPanic{val: "negative bit index", pos: r.where()})
		}
		b := r.toLin(a[3].(IntV))
		bits := r.linBits(b, r.in.intW)
		if r.anySet(bits[1:]) {
			panic(&goPanic{val: "set bit is not 0 or 1", pos: r.where()})
		}
		if r.biNegative(x) {
			w := r.twos(x, maxInt(len(x.bits), int(i.Int64()))+2)
			w[i.Int64()] = bits[0]
			return r.biWrite(a[0], r.fromTwos(w))
		}
		out := padBits(x.bits, maxInt(len(x.bits), int(i.Int64())+1))
		out[i.Int64()] = bits[0]
		return r.biWrite(a[0], BigI{neg: bit0, bits: out})
	})
	I("SetBytes", func(r *Run, fn *ssa.Function, a []Value) Value {
		var bits []Bit
		vals := r.elemsOr(a[1].(SliceV))
		for i := len(vals) - 1; i >= 0; i-- {
			bits = append(bits, r.toBits(vals[i].(IntV))...)
		}
		return r.biWrite(a[0], BigI{neg: bit0, bits: bits})
	})
	I("FillBytes", func(r *Run, fn *ssa.Function, a []Value) Value {
		x := r.biTrim(r.biRead(a[0]))
		s := a[1].(SliceV)
		if len(x.bits) > 8*s.len {
			if r.anySet(x.bits[8*s.len:]) {
				panic(&goPanic{val: "math/big: buffer too small to fit value", pos: r.where()})
			}
		}
		b := padBits(x.bits, maxInt(8*s.len, len(x.bits)))
		for i := 0; i < s.len; i++ {
			r.store(r.kid(s.arr, s.off+s.len-1-i), r.fromBits(b[8*i:8*i+8], false))
		}
		return s
	})
	I("Bytes", func(r *Run, fn *ssa.Function, a []Value) Value {
		x := r.biRead(a[0])
		n := (r.biBitLen(x) + 7) / 8
		b := padBits(x.bits, maxInt(8*n, len(x.bits)))
		vals := make([]Value, n)
		for i := range vals {
			vals[n-1-i] = r.fromBits(b[8*i:8*i+8], false)
		}
		return r.sliceOf(types.Typ[types.Byte], vals)
	})
	I("Uint64", func(r *Run, fn *ssa.Function, a []Value) Value {
		x := r.biRead(a[0])
		if r.biNegative(x) {
			return r.fromBits(r.twos(x, maxInt(64, len(x.bits)+1))[:64], false)
		}
		return r.fromBits(padBits(x.bits, maxInt(64, len(x.bits)))[:64], false)
	})
	I("Int64", func(r *Run, fn *ssa.Function, a []Value) Value {
		x := r.biRead(a[0])
		if r.biNegative(x) {
			return r.fromBits(r.twos(x, maxInt(64, len(x.bits)+1))[:64], true)
		}
		return r.fromBits(padBits(x.bits, maxInt(64, len(x.bits)))[:64], true)
	})
	I("IsUint64", func(r *Run, fn *ssa.Function, a []Value) Value {
		x := r.biRead(a[0])
		if r.biNegative(x) {
			return BoolV{bit0}
		}
		if len(x.bits) <= 64 {
			return BoolV{bit1}
		}
		return BoolV{bitOf(!r.anySet(x.bits[64:]))}
	})
	I("TrailingZeroBits", func(r *Run, fn *ssa.Function, a []Value) Value {
		x := r.biRead(a[0])
		n := 0
		if !r.biIsZero(x) {
			for !r.decideBit(x.bits[n]) {
				n++
			}
		}
		return intConst(r.in.intW, false, bi(int64(n)))
	})
	I("SetString", func(r *Run, fn *ssa.Function, a []Value) Value {
		base := int(r.concreteInt(a[2].(IntV)).Int64())
		if s, ok := r.strGo(a[1].(StrV)); ok {
			x, ok := new(big.Int).SetString(s, base)
			if !ok {
				return TupleV{PtrV{}, BoolV{bit0}}
			}
			return TupleV{r.biWrite(a[0], bigIConst(x)), BoolV{bit1}}
		}
		b, okk := r.parseInt(a[1].(StrV), base)
		if !okk {
			r.giveUp("big.Int.SetString of a symbolic text")
		}
		return TupleV{r.biWrite(a[0], b), BoolV{bit1}}
	})
	I("Exp", func(r *Run, fn *ssa.Function, a []Value) Value {
		x, ok := r.biConst(r.biRead(a[1]))
		y, ok2 := r.biConst(r.biRead(a[2]))
		p, _ := a[3].(PtrV)
		if y := r.biRead(a[2]); ok && !ok2 && p.c == nil && y.neg == bit0 {
			r.charge(r.bitsLin(y.bits, false), "the power")
		}
		if !ok || !ok2 {
			r.giveUp("big.Int.Exp of symbolic numbers")
		}
		var m *big.Int
		if p.c != nil {
			m, ok = r.biConst(p.c.v.(BigI))
			if !ok {
				r.giveUp("big.Int.Exp of symbolic numbers")
			}
		}
		if y.BitLen() > 16 && m == nil {
			r.giveUp("big.Int.Exp with a huge exponent")
		}
		return r.biWrite(a[0], bigIConst(new(big.Int).Exp(x, y, m)))
	})
	// divisions are exact for constants and for divisors that are powers of two
	divs := func(name string, op func(x, y *big.Int) (q, m *big.Int), euclid bool, write func(r *Run, a []Value, q, m BigI) Value) {
		I(name, func(r *Run, fn *ssa.Function, a []Value) Value {
			bx, by := r.biRead(a[1]), r.biRead(a[2])
			y, ok2 := r.biConst(by)
			if !ok2 {
				r.giveUp("big.Int.%s by a symbolic number", name)
			}
			if y.Sign() == 0 {
				panic(&goPanic{val: "division by zero", pos: r.where()})
			}
			if x, ok := r.biConst(bx); ok {
				q, m := op(x, y)
				return write(r, a, bigIConst(q), bigIConst(m))
			}
			s := y.BitLen() - 1
			if new(big.Int).Abs(y).Cmp(pow2(uint(s))) != 0 || euclid && y.Sign() < 0 {
				r.giveUp("big.Int.%s of a symbolic number", name)
			}
			var q, m BigI
			if euclid && r.biNegative(bx) {
				n := maxInt(len(bx.bits), s) + 2
				w := r.twos(bx, n)
				q, m = r.fromTwos(w[s:]), BigI{neg: bit0, bits: w[:s]}
			} else {
				b := padBits(bx.bits, maxInt(len(bx.bits), s))
				q, m = BigI{neg: bx.neg, bits: b[s:]}, BigI{neg: bx.neg, bits: b[:s]}
				if y.Sign() < 0 {
					q.neg = r.bit(q.neg).not()
				}
			}
			return write(r, a, q, m)
		})
	}
	quo := func(x, y *big.Int) (q, m *big.Int) { return new(big.Int).QuoRem(x, y, new(big.Int)) }
	div := func(x, y *big.Int) (q, m *big.Int) { return new(big.Int).DivMod(x, y, new(big.Int)) }
	first := func(r *Run, a []Value, q, m BigI) Value { return r.biWrite(a[0], q) }
	second := func(r *Run, a []Value, q, m BigI) Value { return r.biWrite(a[0], m) }
	both := func(r *Run, a []Value, q, m BigI) Value {
		return TupleV{r.biWrite(a[0], q), r.biWrite(a[3], m)}
	}
	divs("Quo", quo, false, first)
	divs("Rem", quo, false, second)
	divs("QuoRem", quo, false, both)
	divs("Div", div, true, first)
	divs("Mod", div, true, second)
	divs("DivMod", div, true, both)
	I("IsInt64", func(r *Run, fn *ssa.Function, a []Value) Value {
		x := r.biRead(a[0])
		if len(x.bits) <= 63 || !r.anySet(x.bits[63:]) {
			return BoolV{bit1}
		}
		if !r.biNegative(x) || len(x.bits) > 64 && r.anySet(x.bits[64:]) {
			return BoolV{bit0}
		}
		return BoolV{bitOf(!r.anySet(x.bits[:63]))}
	})
	I("Bits", func(r *Run, fn *ssa.Function, a []Value) Value {
		x := r.biRead(a[0])
		w := r.in.intW
		n := (r.biBitLen(x) + w - 1) / w
		b := padBits(x.bits, maxInt(w*n, len(x.bits)))
		vals := make([]Value, n)
		for i := range vals {
			vals[i] = r.fromBits(b[w*i:w*i+w], false)
		}
		return r.words(r.sliceOf(fn.Signature.Results().At(0).Type().(*types.Slice).Elem(), vals))
	})
	I("SetBits", func(r *Run, fn *ssa.Function, a []Value) Value {
		var bits []Bit
		for _, v := range r.elemsOr(a[1].(SliceV)) {
			bits = append(bits, r.toBits(v.(IntV))...)
		}
		r.words(a[1].(SliceV))
		return r.biWrite(a[0], BigI{neg: bit0, bits: bits})
	})
	itext := func(r *Run, v Value, base int) StrV {
		p := v.(PtrV)
		if p.c == nil {
			return strConst("<nil>")
		}
		x := p.c.v.(BigI)
		if c, ok := r.biConst(x); ok {
			return strConst(c.Text(base))
		}
		if base&(base-1) == 0 && !r.biNegative(x) {
			t := r.biTrim(x)
			n := maxInt(1, len(t.bits))
			return strOf(r.baseText(IntV{w: n, bits: padBits(t.bits, n)}, base, false))
		}
		return unknownText
	}
	I("Text", func(r *Run, fn *ssa.Function, a []Value) Value {
		return itext(r, a[0], int(r.concreteInt(a[1].(IntV)).Int64()))
	})
	I("String", func(r *Run, fn *ssa.Function, a []Value) Value { return itext(r, a[0], 10) })
}

func neg64() *big.Int { return pow2(63) }

// words marks the elements of s as shared with a big.Int.
func (r *Run) words(s SliceV) SliceV {
	for i := 0; i < s.len && s.arr != nil; i++ {
		k := r.kid(s.arr, s.off+i)
		if k.own != ownFresh {
			r.giveUp("a big.Int shares memory the call does not own")
		}
		k.own = ownWords
	}
	return s
}

func (r *Run) biRead(v Value) BigI {
	b, ok := r.cellOf(v).v.(BigI)
	if !ok {
		r.giveUp("big.Int expected")
	}
	return b
}

func (r *Run) biWrite(v Value, b BigI) Value {
	c := r.cellOf(v)
	r.noteWrite(c)
	c.v = b
	return v
}

func (r *Run) biFromInt(x IntV) BigI {
	if x.signed {
		l := r.toLin(x)
		if lo, _ := r.interval(l); lo.Sign() >= 0 || r.geq(l) {
			return BigI{neg: bit0, bits: r.toBits(x)}
		}
		return BigI{neg: bit1, bits: r.linBits(l.scale(bi(-1)), x.w)}
	}
	return BigI{neg: bit0, bits: r.toBits(x)}
}

// ---- parsing

type cursor struct {
	r    *Run
	segs []seg
	i    int
}

func (c *cursor) end() bool { return c.i >= len(c.segs) }

// is consumes a character that is certainly one of the set.
func (c *cursor) is(set string) (byte, bool) {
	if c.end() || c.segs[c.i].kind != 'c' {
		return 0, false
	}
	v := c.segs[c.i].ch
	if k, ok := c.r.constOf(v); ok {
		b := byte(k.Int64())
		if strings.IndexByte(set, b) >= 0 {
			c.i++
			return b, true
		}
		return 0, false
	}
	lo, hi := c.r.interval(c.r.toLin(v))
	for j := 0; j < len(set); j++ {
		if x := bi(int64(set[j])); x.Cmp(lo) >= 0 && x.Cmp(hi) <= 0 && c.r.canBe(v, int64(set[j])) {
			if c.r.decideBit(c.r.eqInt(v, intConst(8, false, x))) {
				c.i++
				return set[j], true
			}
		}
	}
	return 0, false
}

// canBe is false when v looks up a table without the value x.
func (r *Run) canBe(v IntV, x int64) bool {
	l := r.subst(r.toLin(v))
	if len(l.t) != 1 || l.t[0].a < r.nbase() || l.t[0].k.Cmp(bigOne) != 0 {
		return true
	}
	in := r.atoms[l.t[0].a-r.nbase()]
	if in.kind != aTab {
		return true
	}
	lo, hi := r.interval(in.lin)
	for i := lo.Int64(); i <= hi.Int64(); i++ {
		if in.tab[i]+l.c.Int64() == x {
			return true
		}
	}
	return false
}

func digitVal(b int64) int64 {
	switch {
	case b >= '0' && b <= '9':
		return b - '0'
	case b >= 'a' && b <= 'z':
		return b - 'a' + 10
	case b >= 'A' && b <= 'Z':
		return b - 'A' + 10
	}
	return 99
}

// digit consumes a character that is certainly a digit of the base.
func (c *cursor) digit(base int64) (Lin, bool) {
	if c.end() || c.segs[c.i].kind != 'c' {
		return Lin{}, false
	}
	r := c.r
	v := c.segs[c.i].ch
	if k, ok := r.constOf(v); ok {
		d := digitVal(k.Int64())
		if d >= base {
			return Lin{}, false
		}
		c.i++
		return linI(d), true
	}
	l := r.toLin(v)
	// compose with a table behind the character
	if len(l.t) == 1 && l.t[0].a >= r.nbase() && l.t[0].k.Cmp(bigOne) == 0 {
		if in := r.atoms[l.t[0].a-r.nbase()]; in.kind == aTab {
			lo, hi := r.interval(in.lin)
			tab := make([]int64, len(in.tab))
			ok := true
			for i := lo.Int64(); i <= hi.Int64(); i++ {
				tab[i] = digitVal(in.tab[i] + l.c.Int64())
				if tab[i] >= base {
					ok = false
				}
			}
			if ok {
				c.i++
				return r.table(in.lin, tab), true
			}
		}
	}
	lo, hi := r.interval(l)
	if lo.Sign() < 0 || hi.Cmp(bi(255)) > 0 {
		r.giveUp("a character outside [0,255]")
	}
	okc, bad := 0, 0
	tab := make([]int64, 256)
	for i := lo.Int64(); i <= hi.Int64(); i++ {
		tab[i] = digitVal(i)
		if tab[i] < base {
			okc++
		} else {
			bad++
		}
	}
	if bad == 0 {
		c.i++
		return r.table(l, tab), true
	}
	if okc == 0 {
		return Lin{}, false
	}
	k := r.concreteInt(v)
	d := digitVal(k.Int64())
	if d >= base {
		return Lin{}, false
	}
	c.i++
	return linI(d), true
}

func (r *Run) digitBits(d Lin, k int) []Bit {
	b := r.linBits(d, k)
	out := make([]Bit, k)
	for i := range b {
		out[k-1-i] = b[i]
	}
	return out // MSB first
}

// decInt reads a decimal integer, possibly a symbolic decimal piece.
func (c *cursor) decInt() (Lin, bool) {
	r := c.r
	sign := int64(1)
	if b, ok := c.is("+-"); ok && b == '-' {
		sign = -1
	}
	if !c.end() && c.segs[c.i].kind == 'd' {
		l := r.subst(c.segs[c.i].dec)
		signSeen := c.i > 0 && c.segs[c.i-1].kind == 'c'
		if signSeen {
			if k, ok := r.constOf(c.segs[c.i-1].ch); !ok || k.Int64() != '+' && k.Int64() != '-' {
				signSeen = false
			}
		}
		if signSeen && !r.geq(l) {
			return Lin{}, false // "+-5"
		}
		c.i++
		// digits directly after a decimal piece would extend it
		if !c.end() {
			if c.segs[c.i].kind == 'd' {
				r.giveUp("adjacent decimal pieces")
			}
			if k, ok := r.constOf(c.segs[c.i].ch); !ok || digitVal(k.Int64()) < 10 {
				r.giveUp("digits after a decimal piece")
			}
		}
		return l.scale(bi(sign)), true
	}
	n := 0
	l := linI(0)
	for {
		d, ok := c.digit(10)
		if !ok {
			break
		}
		l = l.scale(bi(10)).add(d)
		n++
		if n > 40 {
			r.giveUp("a long decimal number")
		}
	}
	return l.scale(bi(sign)), n > 0
}

// plainSegs writes out the decimal pieces whose value is known.
func (r *Run) plainSegs(s StrV) []seg {
	var out []seg
	for _, g := range s.segs {
		if g.kind == 'd' {
			l := r.subst(g.dec)
			if l.isConst() {
				out = append(out, strConst(l.c.String()).segs...)
				continue
			}
			if lo, hi := r.interval(l); lo.Sign() >= 0 && hi.Cmp(bi(9)) <= 0 {
				out = append(out, seg{kind: 'c', ch: r.digitChar(l, 10, false)})
				continue
			}
		}
		out = append(out, g)
	}
	return out
}

// parseInto is (*Float).Parse.
func (r *Run) parseInto(zv Value, s StrV, base int) Value {
	fail := func(msg string) Value {
		return TupleV{PtrV{}, r.mkInt(linI(0)), r.newError(strConst(msg))}
	}
	if g, ok := r.strGo(s); ok {
		c := r.cellOf(zv)
		z := c.v.(BigF)
		p := r.subst(z.prec)
		m := r.subst(z.mode)
		if p.isConst() && m.isConst() {
			f := new(big.Float).SetPrec(uint(p.c.Int64())).SetMode(big.RoundingMode(m.c.Int64()))
			_, b, err := f.Parse(g, base)
			if err != nil {
				return fail(err.Error())
			}
			k := r.bigConst(f)
			r.bfWrite(zv, func(z *BigF) { *z = k })
			return TupleV{zv, r.mkInt(linI(int64(b))), IfaceV{}}
		}
		r.giveUp("Parse with a symbolic precision")
	}
	for _, g := range s.segs {
		if g.kind == '?' {
			r.giveUp("Parse of text that is not tracked")
		}
	}
	c := &cursor{r: r, segs: r.plainSegs(s)}
	negb := bit0
	if b, ok := c.is("+-"); ok && b == '-' {
		negb = bit1
	}
	b := base
	if base == 0 {
		b = 10
		save := c.i
		if _, ok := c.is("0"); ok {
			switch p, _ := c.is("bBoOxX"); p {
			case 'b', 'B':
				b = 2
			case 'o', 'O':
				b = 8
			case 'x', 'X':
				b = 16
			default:
				c.i = save
			}
		}
	}
	k := map[int]int{2: 1, 8: 3, 16: 4}[b]
	var bits []Bit
	dec := linI(0) // base 10: integer value so far
	digits, frac := 0, 0
	dot := false
	for !c.end() {
		if !dot {
			if _, ok := c.is("."); ok {
				dot = true
				continue
			}
		}
		if base == 0 {
			if _, ok := c.is("_"); ok {
				continue
			}
		}
		if b == 10 && c.segs[c.i].kind == 'd' && digits == 0 && !dot {
			l := c.segs[c.i].dec
			if !r.geq(l) {
				return fail("number has no digits")
			}
			dec = l
			digits++
			c.i++
			continue
		}
		d, ok := c.digit(int64(b))
		if !ok {
			break
		}
		digits++
		if dot {
			frac++
		}
		if k > 0 {
			bits = append(bits, r.digitBits(d, k)...)
		} else if b == 10 {
			dec = dec.scale(bi(10)).add(d)
		} else {
			r.giveUp("Parse in base %d", b)
		}
	}
	if digits == 0 {
		return fail("number has no digits")
	}
	exp := linI(0)
	exp10 := false
	set := "pP"
	if b != 16 {
		set = "eEpP"
	}
	if e, ok := c.is(set); ok {
		x, ok := c.decInt()
		if !ok {
			return fail("exponent has no digits")
		}
		exp = x
		exp10 = e == 'e' || e == 'E'
	}
	if !c.end() {
		return fail("expected end of string")
	}
	if exp10 {
		if e := r.subst(exp); !e.isConst() || e.c.Sign() != 0 {
			r.giveUp("Parse of a symbolic number with a decimal exponent")
		}
	}
	if b == 10 {
		if frac != 0 {
			if d := r.subst(dec); !d.isConst() || d.c.Sign() != 0 {
				r.giveUp("Parse of a symbolic decimal fraction")
			}
		}
		_, hi := r.interval(dec)
		lsb := r.linBits(dec, hi.BitLen())
		for i := len(lsb) - 1; i >= 0; i-- {
			bits = append(bits, lsb[i])
		}
		k = 0
	}
	r.bfWrite(zv, func(z *BigF) {
		r.zeroPrec(z, linI(64))
		lsb := make([]Bit, len(bits))
		for i := range bits {
			lsb[len(bits)-1-i] = bits[i]
		}
		r.bfFromInt(z, lsb, negb, exp.addC(bi(int64(-frac*k))))
	})
	return TupleV{zv, r.mkInt(linI(int64(b))), IfaceV{}}
}

// parseInt reads a symbolic integer in a power-of-two base.
func (r *Run) parseInt(s StrV, base int) (BigI, bool) {
	c := &cursor{r: r, segs: r.plainSegs(s)}
	negb := bit0
	if b, ok := c.is("+-"); ok && b == '-' {
		negb = bit1
	}
	b := base
	if base == 0 {
		b = 10
		save := c.i
		if _, ok := c.is("0"); ok {
			switch p, _ := c.is("bBoOxX"); p {
			case 'b', 'B':
				b = 2
			case 'o', 'O':
				b = 8
			case 'x', 'X':
				b = 16
			default:
				c.i = save
			}
		}
	}
	k := map[int]int{2: 1, 8: 3, 16: 4}[b]
	if b == 10 {
		l, ok := c.decInt()
		if !ok || !c.end() || !r.geq(l) {
			return BigI{}, false
		}
		_, hi := r.interval(l)
		return BigI{neg: negb, bits: r.linBits(l, hi.BitLen())}, true
	}
	if k == 0 {
		return BigI{}, false
	}
	var bits []Bit
	for !c.end() {
		d, ok := c.digit(int64(b))
		if !ok {
			return BigI{}, false
		}
		bits = append(bits, r.digitBits(d, k)...)
	}
	if len(bits) == 0 {
		return BigI{}, false
	}
	lsb := make([]Bit, len(bits))
	for i := range bits {
		lsb[len(bits)-1-i] = bits[i]
	}
	return BigI{neg: negb, bits: lsb}, true
}
