package main

// The abstract model of math/big.Int: a sign and a vector of abstract bits.

import (
	"math/big"
)

type BigI struct {
	neg  Bit   // meaningful when the magnitude is non-zero
	bits []Bit // magnitude, LSB first
}

func bigIConst(x *big.Int) BigI {
	z := BigI{neg: bitOf(x.Sign() < 0)}
	for i := 0; i < x.BitLen(); i++ {
		z.bits = append(z.bits, bitOf(new(big.Int).Abs(x).Bit(i) == 1))
	}
	return z
}

func (r *Run) biConst(x BigI) (*big.Int, bool) {
	v := new(big.Int)
	for i, b := range x.bits {
		b = r.bit(b)
		if !b.isConst() {
			return nil, false
		}
		if b.k == bConst1 {
			v.SetBit(v, i, 1)
		}
	}
	n := r.bit(x.neg)
	if v.Sign() != 0 {
		if !n.isConst() {
			return nil, false
		}
		if n.k == bConst1 {
			v.Neg(v)
		}
	}
	return v, true
}

func (r *Run) biTrim(x BigI) BigI {
	n := len(x.bits)
	for n > 0 && r.bit(x.bits[n-1]).k == bConst0 {
		n--
	}
	return BigI{neg: x.neg, bits: x.bits[:n:n]}
}

func (r *Run) biIsZero(x BigI) bool { return !r.anySet(x.bits) }

// biNeg decides the sign, for operations on two's complement semantics.
func (r *Run) biNegative(x BigI) bool {
	if len(r.biTrim(x).bits) == 0 {
		return false
	}
	n := r.bit(x.neg)
	if n.k == bConst0 {
		return false
	}
	if r.biIsZero(x) {
		return false
	}
	return r.decideBit(n)
}

func padBits(b []Bit, n int) []Bit {
	out := make([]Bit, n)
	for i := range out {
		if i < len(b) {
			out[i] = b[i]
		} else {
			out[i] = bit0
		}
	}
	return out
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// twos gives n bits of two's complement.
func (r *Run) twos(x BigI, n int) []Bit {
	b := padBits(x.bits, n)
	if !r.biNegative(x) {
		return b
	}
	inv := make([]Bit, n)
	for i := range b {
		inv[i] = r.bit(b[i]).not()
	}
	one := make([]Bit, n)
	for i := range one {
		one[i] = bitOf(i == 0)
	}
	return r.addVec(inv, one)
}

func (r *Run) fromTwos(b []Bit) BigI {
	n := len(b)
	if n == 0 || !r.decideBit(b[n-1]) {
		return BigI{neg: bit0, bits: b}
	}
	inv := make([]Bit, n)
	for i := range b {
		inv[i] = r.bit(b[i]).not()
	}
	one := make([]Bit, n)
	for i := range one {
		one[i] = bitOf(i == 0)
	}
	return BigI{neg: bit1, bits: r.addVec(inv, one)}
}

func (r *Run) biBitwise(x, y BigI, f func(a, b Bit) Bit) BigI {
	x, y = r.biTrim(x), r.biTrim(y)
	nx, ny := r.biNegative(x), r.biNegative(y)
	n := maxInt(len(x.bits), len(y.bits)) + 1
	if !nx && !ny {
		a, b := padBits(x.bits, n), padBits(y.bits, n)
		out := make([]Bit, n)
		for i := range out {
			out[i] = f(a[i], b[i])
		}
		return r.fromTwos(out)
	}
	a, b := r.twos(x, n), r.twos(y, n)
	out := make([]Bit, n)
	for i := range out {
		out[i] = f(a[i], b[i])
	}
	return r.fromTwos(out)
}

func (r *Run) biAdd(x, y BigI, negY bool) BigI {
	x, y = r.biTrim(x), r.biTrim(y)
	if negY {
		y.neg = r.bit(y.neg).not()
	}
	n := maxInt(len(x.bits), len(y.bits)) + 1
	if len(x.bits) == 0 {
		return y
	}
	if len(y.bits) == 0 {
		return x
	}
	a, b := padBits(x.bits, n), padBits(y.bits, n)
	if r.biNegative(x) == r.biNegative(y) {
		return BigI{neg: bitOf(r.biNegative(x)), bits: r.addVec(a, b)}
	}
	switch c := r.cmpMSB(a, b); {
	case c == 0:
		return BigI{neg: bit0}
	case c > 0:
		return BigI{neg: bitOf(r.biNegative(x)), bits: r.subVec(a, b)}
	default:
		return BigI{neg: bitOf(r.biNegative(y)), bits: r.subVec(b, a)}
	}
}

func (r *Run) biCmpAbs(x, y BigI) int {
	n := maxInt(len(x.bits), len(y.bits))
	return r.cmpMSB(padBits(x.bits, n), padBits(y.bits, n))
}

func (r *Run) biCmp(x, y BigI) int {
	nx, ny := r.biNegative(x), r.biNegative(y)
	switch {
	case nx && !ny:
		return -1
	case !nx && ny:
		return 1
	}
	c := r.biCmpAbs(x, y)
	if nx {
		c = -c
	}
	return c
}

// biBitLen decides the bit length.
func (r *Run) biBitLen(x BigI) int {
	if r.biIsZero(x) {
		return 0
	}
	for i := len(x.bits) - 1; i >= 0; i-- {
		if r.decideBit(x.bits[i]) {
			return i + 1
		}
	}
	return 0
}

func (r *Run) biShl(x BigI, n int) BigI {
	if n > 1<<16 {
		r.giveUp("shift of a big.Int by %d", n)
	}
	b := make([]Bit, 0, n+len(x.bits))
	for i := 0; i < n; i++ {
		b = append(b, bit0)
	}
	return BigI{neg: x.neg, bits: append(b, x.bits...)}
}

func (r *Run) biShr(x BigI, n int) BigI {
	if r.biNegative(x) {
		// arithmetic shift of two's complement
		m := maxInt(len(x.bits), n) + 2
		t := r.twos(x, m)
		return r.fromTwos(t[n:])
	}
	if n >= len(x.bits) {
		return BigI{neg: bit0}
	}
	return BigI{neg: x.neg, bits: x.bits[n:]}
}

// biMul multiplies; one factor must be constant (or a free bit vector times a
// constant power of two).
func (r *Run) biMul(x, y BigI) BigI {
	if _, ok := r.biConst(x); ok {
		x, y = y, x
	}
	c, ok := r.biConst(y)
	if !ok {
		r.giveUp("product of two symbolic big.Int values")
	}
	if cx, ok := r.biConst(x); ok {
		return bigIConst(mul(cx, c))
	}
	acc := BigI{neg: bit0}
	a := new(big.Int).Abs(c)
	for i := 0; i < a.BitLen(); i++ {
		if a.Bit(i) == 1 {
			acc = r.biAdd(acc, BigI{neg: bit0, bits: r.biShl(x, i).bits}, false)
		}
	}
	acc.neg = r.bit(x.neg)
	if c.Sign() < 0 {
		acc.neg = acc.neg.not()
	}
	return acc
}

// bfFromBits builds +-(integer bits LSB first) * 2^e rounded to z's precision.
func (r *Run) bfFromInt(z *BigF, bitsLSB []Bit, negb Bit, e Lin) {
	msb := make([]Bit, 0, len(bitsLSB))
	for i := len(bitsLSB) - 1; i >= 0; i-- {
		msb = append(msb, bitsLSB[i])
	}
	z.acc = linI(0)
	z.neg = negb
	k, bits, ok := r.stripLeading(msb)
	if !ok {
		z.form = fZero
		return
	}
	z.form = fFinite
	z.kind = kBits
	z.m = Mant{bits: bits}
	r.bfSetExpAndRound(z, e.addC(bi(int64(len(bitsLSB)-k))))
}

// bfToInt truncates toward zero; acc as (*Float).Int.
func (r *Run) bfToInt(x BigF) (BigI, Lin, bool) {
	x = r.mat(x)
	switch x.form {
	case fZero:
		return BigI{neg: bit0}, linI(0), true
	case fInf:
		return BigI{}, r.signed(-1, x.neg), false
	}
	x = r.bitsOf(x)
	if !r.geq(x.exp.addC(bi(-1))) {
		return BigI{neg: bit0}, r.signed(-1, x.neg), true
	}
	if r.geq(x.exp.addC(bi(-20000))) {
		r.giveUp("integer part of a number with exponent above 20000")
	}
	e := int(r.concrete(x.exp).Int64())
	bits := make([]Bit, e)
	for i := 0; i < e; i++ {
		bits[e-1-i] = r.mantBit(x.m, i)
	}
	acc := linI(0)
	if r.mantSticky(x.m, e) {
		acc = r.signed(-1, x.neg)
	}
	return BigI{neg: x.neg, bits: bits}, acc, true
}
