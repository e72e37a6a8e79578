package main

// The abstract model of math/big.Float.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type formKind uint8

const (
	fZero formKind = iota
	fFinite
	fInf
)

type contentKind uint8

const (
	kBits   contentKind = iota // mantissa bits (MSB first) and an exponent form
	kNative                    // the exact value of a finite non-zero native float
	kSum                       // an exact sum of atoms (may be zero)
)

type Mant struct {
	bits []Bit   // MSB first, bits[0] == 1
	st   *Stream // further bits from this stream, or nil
	tail int     // index in st of the bit after bits
}

type BigF struct {
	prec, mode, acc Lin
	form            formKind
	neg             Bit
	kind            contentKind
	m               Mant
	exp             Lin // value = 0.m * 2^exp
	nat             FloatV
	sum             *Sum
	grp             *share // who shares the storage of the mantissa, or nil
	gen             int    // the state of that storage the number was made for
}

// share is mantissa storage used by several numbers, because a struct was
// copied. Each time one of them writes to it, the others become stale.
type share struct {
	gen     int
	certain bool // the last write certainly changed the stale numbers
	cells   []*Cell
}

func (b BigF) stale() bool { return b.grp != nil && b.gen != b.grp.gen }

// sameMant: the mantissa is the same and in the same form.
func sameMant(x, y BigF) bool {
	if x.kind != y.kind {
		return false
	}
	same := func(a, b []Bit) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	switch x.kind {
	case kBits:
		return x.m.st == y.m.st && x.m.tail == y.m.tail && same(x.m.bits, y.m.bits)
	case kNative:
		return x.nat.w == y.nat.w && len(x.nat.bits) > 0 && same(x.nat.bits, y.nat.bits)
	}
	return x.sum == y.sum
}

func newBigF() BigF {
	return BigF{prec: linI(0), mode: linI(0), acc: linI(0), neg: bit0}
}

// goPanic is a panic of the analysed program.
type goPanic struct {
	val string
	obj Value
	pos string
}

// bigConst abstracts a constant.
func (r *Run) bigConst(x *big.Float) BigF {
	z := newBigF()
	z.prec = linI(int64(x.Prec()))
	z.mode = linI(int64(x.Mode()))
	z.acc = linI(int64(x.Acc()))
	z.neg = bitOf(x.Signbit())
	switch {
	case x.IsInf():
		z.form = fInf
	case x.Sign() == 0:
		z.form = fZero
	default:
		z.form = fFinite
		m := new(big.Float)
		e := x.MantExp(m)
		n := int(x.MinPrec())
		m.SetMantExp(m, n)
		i, _ := m.Int(nil)
		i.Abs(i)
		z.kind = kBits
		z.exp = linI(int64(e))
		for k := n - 1; k >= 0; k-- {
			z.m.bits = append(z.m.bits, bitOf(i.Bit(k) == 1))
		}
	}
	return z
}

// ---- mantissas

func (r *Run) mantBit(m Mant, i int) Bit {
	if i < len(m.bits) {
		return r.bit(m.bits[i])
	}
	if m.st != nil {
		k := m.tail + i - len(m.bits)
		if k >= m.st.n {
			r.giveUp("mantissa bit %d of %s", k, m.st.nameX)
		}
		return r.bit(varBit(m.st.base + k))
	}
	return bit0
}

// mantSticky decides whether a bit with index >= from is set.
func (r *Run) mantSticky(m Mant, from int) bool {
	if from < len(m.bits) {
		b := r.orBits(m.bits[from:])
		if m.st == nil {
			return r.decideBit(b)
		}
		if b.k == bConst1 {
			return true
		}
		if r.sticky(m.st, m.tail) {
			return true
		}
		return r.decideBit(b)
	}
	if m.st == nil {
		return false
	}
	return r.sticky(m.st, m.tail+from-len(m.bits))
}

// mantLen is an upper bound of the mantissa length (exact for streams).
func (r *Run) mantLen(m Mant) Lin {
	if m.st == nil {
		n := len(m.bits)
		for n > 1 && r.bit(m.bits[n-1]).k == bConst0 {
			n--
		}
		return linI(int64(n))
	}
	return r.linSym(m.st.M).addC(bi(int64(len(m.bits) - m.tail)))
}

// norm0 resolves a kSum content whose sign the cell knows to be zero.
func (r *Run) norm0(x BigF) BigF {
	if x.form == fFinite && x.kind == kSum {
		s := r.sumSignLin(x.sum)
		if s.isConst() && s.c.Sign() == 0 {
			x.form = fZero
			x.sum = nil
			x.kind = kBits
			x.neg = bit0
			if m := r.subst(x.mode); m.isConst() && m.c.Int64() == 4 {
				x.neg = bit1
			}
		}
	}
	return x
}

// mat resolves lazily rounded contents to bits (or zero or infinity).
func (r *Run) mat(x BigF) BigF {
	x = r.norm0(x)
	if x.form != fFinite || x.kind != kSum {
		return x
	}
	if len(x.sum.terms) == 1 {
		t := x.sum.terms[0]
		if t.rnOf != nil && (t.coef == 1 || t.coef == -1) && len(t.rnOf.terms) == 1 && t.rnOf.terms[0].src != nil {
			src := r.sumBig(t.rnOf)
			f := fmt64
			if t.rnF == fmt32.mbits {
				f = fmt32
			}
			v, _ := r.roundToFmt(src, f)
			if t.coef < 0 {
				v = r.bfNegContent(v)
			}
			v.prec, v.mode, v.acc = x.prec, x.mode, x.acc
			return v
		}
	}
	return x
}

// bitsOf gives the content as mantissa bits and exponent.
func (r *Run) bitsOf(x BigF) BigF {
	if x.form != fFinite {
		return x
	}
	switch x.kind {
	case kBits:
		return x
	case kNative:
		p := floatFmt(x.nat.w)
		_, e, m := r.fields(x.nat)
		msb := make([]Bit, 0, len(m)+1)
		for i := len(m) - 1; i >= 0; i-- {
			msb = append(msb, m[i])
		}
		y := x
		y.kind = kBits
		y.nat = FloatV{}
		if r.anySet(e) {
			y.m = Mant{bits: append([]Bit{bit1}, msb...)}
			y.exp = r.bitsLin(e, false).addC(bi(int64(1 - p.bias)))
			return y
		}
		k, bits, ok := r.stripLeading(msb)
		if !ok {
			panic(infeasible{})
		}
		y.m = Mant{bits: bits}
		y.exp = linI(int64(1 - p.bias - k))
		return y
	}
	r.giveUp("bits of the sum %s", r.sumKey(x.sum))
	return x
}

// stripLeading removes leading zero bits (decided one by one); ok is false
// when all bits are zero.
func (r *Run) stripLeading(bits []Bit) (k int, rest []Bit, ok bool) {
	if !r.anySet(bits) {
		return 0, nil, false
	}
	for i, b := range bits {
		if r.decideBit(b) {
			out := append([]Bit{bit1}, bits[i+1:]...)
			return i, out, true
		}
	}
	panic(infeasible{})
}

// roundMant cuts the mantissa to p bits (p >= 1). acc is -1 when cut, +1 when
// incremented, 0 when exact. carry: the result is 1.000 of the next binade.
func (r *Run) roundMant(m Mant, p int, mode int64, negb Bit) (bits []Bit, carry bool, acc int) {
	if m.st == nil && len(m.bits) <= p {
		return m.bits, false, 0
	}
	keep := make([]Bit, p)
	for i := range keep {
		keep[i] = r.mantBit(m, i)
	}
	rbit := func() bool { return r.decideBit(r.mantBit(m, p)) }
	var inc bool
	switch mode {
	case 0: // ToNearestEven
		if !rbit() {
			if !r.mantSticky(m, p+1) {
				return keep, false, 0
			}
			return keep, false, -1
		}
		if r.mantSticky(m, p+1) {
			inc = true
		} else {
			inc = r.decideBit(keep[p-1])
		}
	case 1: // ToNearestAway
		inc = rbit()
		if !inc && !r.mantSticky(m, p+1) {
			return keep, false, 0
		}
	default:
		if !r.mantSticky(m, p) {
			return keep, false, 0
		}
		switch mode {
		case 2:
			inc = false
		case 3:
			inc = true
		case 4:
			inc = r.decideBit(negb)
		case 5:
			inc = !r.decideBit(negb)
		default:
			r.giveUp("rounding mode %d", mode)
		}
	}
	if !inc {
		return keep, false, -1
	}
	bits, carry = r.incr(keep)
	return bits, carry, 1
}

// incr adds one unit in the last place of an MSB-first vector.
func (r *Run) incr(keep []Bit) (bits []Bit, carry bool) {
	out := append([]Bit{}, keep...)
	for i := len(out) - 1; i >= 0; i-- {
		if r.decideBit(out[i]) {
			out[i] = bit0
			continue
		}
		out[i] = bit1
		return out, false
	}
	out[0] = bit1
	return out, true
}

func (r *Run) signed(s int, negb Bit) Lin {
	if s == 0 {
		return linI(0)
	}
	return linI(1).sub(r.bitLin(negb).scale(bigTwo)).scale(bi(int64(s)))
}

func (r *Run) modeOf(x BigF) int64 {
	return r.concrete(x.mode).Int64()
}

// bfRound rounds z to its precision, as (*Float).round.
func (r *Run) bfRound(z *BigF) {
	z.acc = linI(0)
	*z = r.norm0(*z)
	if z.form != fFinite {
		return
	}
	if z.kind == kNative {
		if r.geq(z.prec.addC(bi(int64(-floatFmt(z.nat.w).mbits - 1)))) {
			return
		}
		*z = r.bitsOf(*z)
	}
	if z.kind == kSum {
		b := r.sumBound(z.sum)
		if b != nil && r.geq(z.prec.sub(*b)) {
			return
		}
		// inexact in general: an opaque rounding
		r.w.notePrec(r.subst(z.prec))
		mode := r.modeOf(*z)
		key := fmt.Sprintf("round[%s,%d](%s)", r.linKey(r.subst(z.prec)), mode, r.sumKey(z.sum))
		z.sum = &Sum{terms: []sumTerm{{key: key, coef: 1}}}
		z.acc = r.opaque("acc "+key, -1, 1)
		return
	}
	l := r.mantLen(z.m)
	// a computed precision of small range is settled first: it would be
	// enumerated below in any case, and comparing it with an open length
	// before that only makes more cells
	if lo, hi := r.interval(r.subst(z.prec)); !l.isConst() && lo.Cmp(hi) != 0 && sub(hi, lo).Cmp(bi(4096)) <= 0 {
		z.prec = linC(r.concrete(z.prec))
	}
	if r.geq(z.prec.sub(l)) {
		return
	}
	p := int(r.concrete(z.prec).Int64())
	bits, carry, acc := r.roundMant(z.m, p, r.modeOf(*z), z.neg)
	z.acc = r.signed(acc, z.neg)
	z.m = Mant{bits: bits}
	if carry {
		if r.geq(z.exp.addC(bi(-2147483647))) {
			z.form = fInf
			return
		}
		z.exp = z.exp.addC(bigOne)
	}
}

func (r *Run) bfSetExpAndRound(z *BigF, e Lin) {
	if !r.geq(e.addC(bi(2147483648))) {
		z.acc = r.signed(1, z.neg).scale(bi(-1)) // above iff neg
		z.form = fZero
		return
	}
	if r.geq(e.addC(bi(-2147483648))) {
		z.acc = r.signed(1, z.neg)
		z.form = fInf
		return
	}
	z.form = fFinite
	z.exp = e
	r.bfRound(z)
}

func (r *Run) lt(a, b Lin) bool { return !r.geq(a.sub(b)) }

func (z *BigF) content(x BigF) {
	z.form, z.neg, z.kind, z.m, z.exp, z.nat, z.sum = x.form, x.neg, x.kind, x.m, x.exp, x.nat, x.sum
}

// bfSet is z.Set(x); same when z and x are the same object.
func (r *Run) bfSet(z *BigF, x BigF, same bool) {
	z.acc = linI(0)
	if same {
		return
	}
	z.content(x)
	zp := r.subst(z.prec)
	if zp.isConst() && zp.c.Sign() == 0 || !zp.isConst() && !r.geq(zp.addC(bi(-1))) {
		z.prec = x.prec
	} else if x.form == fFinite && !r.surelyGeq(z.prec.sub(x.prec)) {
		r.bfRound(z)
	}
}

func (r *Run) bfSetPrec(z *BigF, p Lin) {
	z.acc = linI(0)
	p = r.subst(p)
	if !r.geq(p.addC(bi(-1))) {
		z.prec = linI(0)
		*z = r.norm0(*z)
		if z.form == fFinite {
			if z.kind == kSum {
				r.giveUp("truncation of a sum to zero")
			}
			z.acc = r.signed(-1, z.neg)
			z.form = fZero
		}
		return
	}
	if r.geq(p.addC(bi(-4294967296))) {
		p = linI(4294967295)
	}
	old := z.prec
	z.prec = p
	if z.form == fFinite && !r.surelyGeq(p.sub(old)) {
		r.bfRound(z)
	}
}

// surelyGeq reports whether l >= 0 without asking for a split. It guards
// roundings that have no effect when l >= 0 anyway.
func (r *Run) surelyGeq(l Lin) bool {
	lo, _ := r.interval(r.subst(r.fold(r.subst(l))))
	return lo.Sign() >= 0
}

// bfSetMantExp: z becomes a copy of x, precision and mode included, with e
// added to the exponent.
func (r *Run) bfSetMantExp(z *BigF, x BigF, e Lin) {
	*z = x
	y := r.mat(*z)
	if y.form == fFinite {
		y = r.bitsOf(y)
		z.content(y)
		z.acc = linI(0)
		r.bfSetExpAndRound(z, y.exp.add(e))
	} else {
		z.content(y)
	}
}

// bfMantExp returns the exponent and the mantissa as MantExp stores it.
func (r *Run) bfMantExp(x BigF) (BigF, Lin) {
	x = r.mat(x)
	if x.form != fFinite {
		return x, linI(0)
	}
	y := r.bitsOf(x)
	e := y.exp
	y.exp = linI(0)
	return y, e
}

func (r *Run) bfExpOnly(x BigF) Lin {
	x = r.mat(x)
	if x.form != fFinite {
		return linI(0)
	}
	return r.bitsOf(x).exp
}

func (r *Run) bfIsInt(x BigF) bool {
	x = r.mat(x)
	if x.form != fFinite {
		return x.form == fZero
	}
	x = r.bitsOf(x)
	if !r.geq(x.exp.addC(bi(-1))) {
		return false
	}
	// number of bits needed <= exp
	l := r.mantLen(x.m)
	if x.m.st != nil {
		return r.geq(x.exp.sub(l))
	}
	if r.geq(x.exp.sub(l)) {
		return true
	}
	e := int(r.concrete(x.exp).Int64())
	return !r.mantSticky(x.m, e)
}

func (r *Run) bfMinPrec(x BigF) Lin {
	x = r.mat(x)
	if x.form != fFinite {
		return linI(0)
	}
	x = r.bitsOf(x)
	if x.m.st != nil {
		if len(x.m.bits) == 0 || x.m.tail == len(x.m.bits) {
			return r.linSym(x.m.st.M).addC(bi(int64(len(x.m.bits) - x.m.tail)))
		}
		if r.sticky(x.m.st, x.m.tail) {
			return r.mantLen(x.m)
		}
	}
	n := len(x.m.bits)
	for n > 1 && !r.decideBit(x.m.bits[n-1]) {
		n--
	}
	return linI(int64(n))
}

// bfSign is the three-valued sign.
func (r *Run) bfSign(x BigF) Lin {
	x = r.norm0(x)
	if x.form == fZero {
		return linI(0)
	}
	if x.form == fFinite && x.kind == kSum {
		return r.sumSignLin(x.sum)
	}
	return r.signed(1, x.neg)
}

func (r *Run) bfSignbit(x BigF) Bit {
	x = r.norm0(x)
	if x.form == fFinite && x.kind == kSum {
		s := r.sumSignLin(x.sum)
		if !r.geq(s) {
			return bit1
		}
		if r.geq(s.addC(bi(-1))) {
			return bit0
		}
		x = r.norm0(x)
		return x.neg
	}
	return r.bit(x.neg)
}

func (r *Run) bfNegContent(x BigF) BigF {
	x = r.norm0(x)
	if x.form == fFinite && x.kind == kSum {
		x.sum = r.sumNeg(x.sum)
		return x
	}
	x.neg = r.bit(x.neg).not()
	return x
}

// bfCmp compares two values; the result is a form in [-1,1].
// zeroFrom reports whether all bits of m from the i-th are the constant 0.
func (r *Run) zeroFrom(m Mant, i int) bool {
	if m.st != nil {
		return false
	}
	for ; i < len(m.bits); i++ {
		if m.bits[i] != bit0 {
			return false
		}
	}
	return true
}

func (r *Run) bfCmp(x, y BigF) Lin {
	x, y = r.norm0(x), r.norm0(y)
	if x.form == fFinite && x.kind == kSum || y.form == fFinite && y.kind == kSum {
		switch {
		case x.form == fInf:
			return r.signed(1, x.neg)
		case y.form == fInf:
			return r.signed(-1, y.neg)
		case y.form == fZero:
			return r.sumSignLin(x.sum)
		case x.form == fZero:
			return r.sumSignLin(y.sum).scale(bi(-1))
		}
		return r.sumSignLin(r.sumSub(r.contentSum(x), r.contentSum(y)))
	}
	ord := func(v BigF) int {
		switch v.form {
		case fZero:
			return 0
		case fFinite:
			return 1
		}
		return 2
	}
	ox, oy := ord(x), ord(y)
	if ox == 0 && oy == 0 {
		return linI(0)
	}
	if oy == 0 {
		return r.signed(1, x.neg)
	}
	if ox == 0 {
		return r.signed(-1, y.neg)
	}
	if d := r.xorBit(x.neg, y.neg); d.k == bConst1 || d.k != bConst0 && r.decideBit(d) {
		return r.signed(1, x.neg)
	}
	if ox != oy {
		if ox > oy {
			return r.signed(1, x.neg)
		}
		return r.signed(-1, x.neg)
	}
	if ox == 2 {
		return linI(0)
	}
	return r.signed(r.ucmp(x, y), x.neg)
}

func (r *Run) ucmp(x, y BigF) int {
	if x.kind == kNative && y.kind == kNative && r.sameFloat(r.floatAbs(x.nat), r.floatAbs(y.nat)) {
		return 0
	}
	x, y = r.bitsOf(x), r.bitsOf(y)
	d := x.exp.sub(y.exp)
	if r.geq(d.addC(bi(-1))) {
		return 1
	}
	if !r.geq(d) {
		return -1
	}
	n := len(x.m.bits)
	if len(y.m.bits) > n {
		n = len(y.m.bits)
	}
	for i := 0; i < n; i++ {
		// once one side has only zeros left, what matters is whether the other
		// has a one left
		if r.zeroFrom(y.m, i) && x.m.st == nil {
			if r.anySet(x.m.bits[min(i, len(x.m.bits)):]) {
				return 1
			}
			return 0
		}
		if r.zeroFrom(x.m, i) && y.m.st == nil {
			if r.anySet(y.m.bits[min(i, len(y.m.bits)):]) {
				return -1
			}
			return 0
		}
		a, b := r.mantBit(x.m, i), r.mantBit(y.m, i)
		if a == b {
			continue
		}
		if !r.decideBit(r.xorBit(a, b)) {
			continue
		}
		if r.decideBit(a) {
			return 1
		}
		return -1
	}
	xs, ys := x.m.st != nil, y.m.st != nil
	switch {
	case xs && ys:
		if x.m.st == y.m.st && x.m.tail-len(x.m.bits) == y.m.tail-len(y.m.bits) {
			return 0
		}
		r.giveUp("comparison of two arbitrary-length mantissas")
	case xs:
		if r.mantSticky(x.m, n) {
			return 1
		}
	case ys:
		if r.mantSticky(y.m, n) {
			return -1
		}
	}
	return 0
}

func (r *Run) maxLin(a, b Lin) Lin {
	if r.geq(a.sub(b)) {
		return a
	}
	return b
}

// bfAdd is z.Add(x, y), or Sub with yneg.
func (r *Run) bfAdd(z *BigF, x, y BigF, negY bool) {
	if zp := r.subst(z.prec); zp.isConst() && zp.c.Sign() == 0 || !zp.isConst() && !r.geq(zp.addC(bi(-1))) {
		z.prec = r.maxLin(x.prec, y.prec)
	}
	x, y = r.norm0(x), r.norm0(y)
	if negY {
		p := y.prec
		y = r.bfNegContent(y)
		y.prec = p
	}
	if x.form == fInf && y.form == fInf {
		if r.decideBit(r.xorBit(x.neg, y.neg)) {
			panic(&goPanic{val: "ErrNaN: addition of infinities with opposite signs"})
		}
	}
	if x.form == fZero && y.form == fZero {
		z.acc = linI(0)
		z.form = fZero
		z.neg = r.andBit(x.neg, y.neg)
		return
	}
	if x.form == fInf || y.form == fZero {
		r.bfSet(z, x, false)
		return
	}
	if y.form == fInf || x.form == fZero {
		r.bfSet(z, y, false)
		return
	}
	// both finite
	r.chargeAlign(x, y)
	if r.addBits(z, x, y) {
		return
	}
	z.form = fFinite
	z.kind = kSum
	z.sum = r.sumAdd(r.contentSum(x), r.contentSum(y))
	z.neg = bit0
	z.acc = linI(0)
	if len(z.sum.terms) == 0 {
		z.form = fZero
		z.kind = kBits
		if r.modeOf(*z) == 4 {
			z.neg = bit1
		}
		return
	}
	if len(z.sum.terms) == 1 && z.sum.terms[0].coef*z.sum.terms[0].coef == 1 && z.sum.terms[0].src != nil {
		c := *z.sum.terms[0].src
		if z.sum.terms[0].coef < 0 {
			c = r.bfNegContent(c)
		}
		z.content(c)
	}
	r.bfRound(z)
}

// addBits performs the addition on bit vectors when both mantissas are finite
// vectors at a constant distance.
func (r *Run) addBits(z *BigF, x, y BigF) bool {
	x, y = r.flat(r.knownExp(x)), r.flat(r.knownExp(y))
	if x.kind != kBits || y.kind != kBits || x.m.st != nil || y.m.st != nil {
		return false
	}
	d := r.subst(x.exp.sub(y.exp))
	if !d.isConst() || !d.c.IsInt64() || d.c.Int64() > 2300 || d.c.Int64() < -2300 {
		return false
	}
	k := int(d.c.Int64())
	if k < 0 {
		x, y = y, x
		k = -k
	}
	// x.exp >= y.exp; align on position 0 = weight 2^(x.exp)
	n := len(x.m.bits)
	if len(y.m.bits)+k > n {
		n = len(y.m.bits) + k
	}
	// LSB-first vectors of n+1 bits
	a, b := make([]Bit, n+1), make([]Bit, n+1)
	for i := range a {
		a[i], b[i] = bit0, bit0
	}
	for i, v := range x.m.bits {
		a[n-1-i] = r.bit(v)
	}
	for i, v := range y.m.bits {
		b[n-1-i-k] = r.bit(v)
	}
	var s []Bit
	negb := r.bit(x.neg)
	if r.decideBit(r.xorBit(x.neg, y.neg)) {
		c := r.cmpMSB(a, b)
		if c == 0 {
			z.acc = linI(0)
			z.form = fZero
			z.neg = bit0
			if r.modeOf(*z) == 4 {
				z.neg = bit1
			}
			return true
		}
		if c < 0 {
			a, b = b, a
			negb = r.bit(y.neg)
		}
		s = r.subVec(a, b)
	} else {
		s = r.addVec(a, b)
	}
	msb := make([]Bit, 0, n+1)
	for i := n; i >= 0; i-- {
		msb = append(msb, s[i])
	}
	lead, bits, ok := r.stripLeading(msb)
	if !ok {
		panic(infeasible{})
	}
	z.kind = kBits
	z.m = Mant{bits: bits}
	z.neg = negb
	r.bfSetExpAndRound(z, x.exp.addC(bi(int64(1-lead))))
	return true
}

// knownExp turns a native number of known exponent into a bit vector.
func (r *Run) knownExp(x BigF) BigF {
	if x.form != fFinite || x.kind != kNative || x.nat.bits == nil {
		return x
	}
	_, e, _ := r.fields(x.nat)
	for _, b := range e {
		if !b.isConst() && !r.eager() {
			return x
		}
	}
	return r.bitsOf(x)
}

// flat turns an input mantissa of known length into a bit vector, in a probe.
func (r *Run) flat(x BigF) BigF {
	if !r.eager() || x.form != fFinite || x.kind != kBits || x.m.st == nil {
		return x
	}
	l := r.subst(r.mantLen(x.m))
	if !l.isConst() || l.c.Cmp(bi(maxProbeLen)) > 0 {
		return x
	}
	m := Mant{}
	for i := 0; i < int(l.c.Int64()); i++ {
		m.bits = append(m.bits, r.mantBit(x.m, i))
	}
	x.m = m
	return x
}

func (r *Run) eager() bool { return r.reg.probe != nil }

func (r *Run) addVec(a, b []Bit) []Bit {
	out := make([]Bit, len(a))
	c := bit0
	for i := range a {
		out[i], c = r.fullAdd(a[i], b[i], c)
	}
	return out
}

func (r *Run) subVec(a, b []Bit) []Bit {
	out := make([]Bit, len(a))
	c := bit1
	for i := range a {
		out[i], c = r.fullAdd(a[i], r.bit(b[i]).not(), c)
	}
	return out
}

// fullAdd sums three bits; two or more free ones may be split on.
func (r *Run) fullAdd(a, b, c Bit) (s, carry Bit) {
	v := []Bit{r.bit(a), r.bit(b), r.bit(c)}
	ones := 0
	var free []Bit
	for _, x := range v {
		switch x.k {
		case bConst0:
		case bConst1:
			ones++
		default:
			free = append(free, x)
		}
	}
	// cancel x and not x, pair x and x
	for len(free) >= 2 {
		if free[0] == free[1].not() {
			ones++
			free = free[2:]
			continue
		}
		if len(free) == 3 && free[0] == free[2].not() {
			ones++
			free = []Bit{free[1]}
			continue
		}
		if len(free) == 3 && free[1] == free[2].not() {
			ones++
			free = []Bit{free[0]}
			continue
		}
		if len(free) == 2 && free[0] == free[1] {
			// 2x + ones
			return bitOf(ones == 1), free[0]
		}
		if len(free) == 3 && free[0] == free[1] && free[1] == free[2] {
			return free[0], free[0]
		}
		if r.decideBit(free[len(free)-1]) {
			ones++
		}
		free = free[:len(free)-1]
	}
	if len(free) == 1 {
		switch ones {
		case 0:
			return free[0], bit0
		case 1:
			return free[0].not(), free[0]
		case 2:
			return free[0], bit1
		}
	}
	return bitOf(ones&1 == 1), bitOf(ones >= 2)
}

func (r *Run) isPow2(x BigF) bool {
	if x.form != fFinite || x.kind == kSum {
		return false
	}
	if x.kind == kNative {
		if _, ok := r.floatConst(x.nat); !ok {
			return false
		}
		x = r.bitsOf(x)
	}
	if x.m.st != nil {
		return false
	}
	for _, b := range x.m.bits[1:] {
		if r.bit(b).k != bConst0 {
			return false
		}
	}
	return true
}

func (r *Run) bfMul(z *BigF, x, y BigF) {
	if zp := r.subst(z.prec); zp.isConst() && zp.c.Sign() == 0 {
		z.prec = r.maxLin(x.prec, y.prec)
	}
	x, y = r.norm0(x), r.norm0(y)
	z.acc = linI(0)
	if x.form == fFinite && y.form == fFinite {
		if r.isPow2(x) {
			x, y = y, x
		}
		if r.isPow2(y) {
			y = r.bitsOf(y)
			n := r.xorBit(x.neg, y.neg)
			a := r.bitsOf(x)
			z.kind = kBits
			z.m = a.m
			z.neg = n
			r.bfSetExpAndRound(z, a.exp.add(y.exp).addC(bi(-1)))
			return
		}
		xa, xc := r.bfConst(x)
		ya, yc := r.bfConst(y)
		if xc && yc {
			m, prec := r.modeOf(*z), r.concrete(z.prec)
			f := new(big.Float).SetPrec(uint(prec.Int64())).SetMode(big.RoundingMode(m))
			f.Mul(xa, ya)
			*z = r.bigConst(f)
			return
		}
		r.giveUp("multiplication of symbolic multi-precision numbers")
	}
	if x.form == fZero && y.form == fInf || x.form == fInf && y.form == fZero {
		panic(&goPanic{val: "ErrNaN: multiplication of zero with infinity"})
	}
	z.neg = r.xorBit(x.neg, y.neg)
	if x.form == fInf || y.form == fInf {
		z.form = fInf
		return
	}
	z.form = fZero
}

func (r *Run) bfQuo(z *BigF, x, y BigF) {
	if zp := r.subst(z.prec); zp.isConst() && zp.c.Sign() == 0 {
		z.prec = r.maxLin(x.prec, y.prec)
	}
	x, y = r.norm0(x), r.norm0(y)
	z.acc = linI(0)
	if x.form == fFinite && y.form == fFinite {
		if r.isPow2(y) {
			y = r.bitsOf(y)
			n := r.xorBit(x.neg, y.neg)
			a := r.bitsOf(x)
			z.kind = kBits
			z.m = a.m
			z.neg = n
			r.bfSetExpAndRound(z, a.exp.sub(y.exp).addC(bi(1)))
			return
		}
		r.giveUp("division of symbolic multi-precision numbers")
	}
	if x.form == y.form {
		panic(&goPanic{val: "ErrNaN: division of zero by zero or infinity by infinity"})
	}
	z.neg = r.xorBit(x.neg, y.neg)
	if x.form == fZero || y.form == fInf {
		z.form = fZero
		return
	}
	z.form = fInf
}

// bfConst returns the constant value, if it is one.
func (r *Run) bfConst(x BigF) (*big.Float, bool) {
	x = r.norm0(x)
	p, m := r.subst(x.prec), r.subst(x.mode)
	if !p.isConst() || !m.isConst() || !r.bit(x.neg).isConst() {
		return nil, false
	}
	f := new(big.Float).SetPrec(uint(p.c.Int64())).SetMode(big.RoundingMode(m.c.Int64()))
	negv := r.bit(x.neg).k == bConst1
	switch x.form {
	case fZero:
		if negv {
			f.Neg(f)
		}
		return f, true
	case fInf:
		f.SetInf(negv)
		return f, true
	}
	if x.kind == kSum {
		return nil, false
	}
	if x.kind == kNative {
		if _, ok := r.floatConst(x.nat); !ok {
			return nil, false
		}
		x = r.bitsOf(x)
	}
	e := r.subst(x.exp)
	if x.m.st != nil || !e.isConst() {
		return nil, false
	}
	i := new(big.Int)
	for _, b := range x.m.bits {
		b = r.bit(b)
		if !b.isConst() {
			return nil, false
		}
		i.Lsh(i, 1)
		if b.k == bConst1 {
			i.SetBit(i, 0, 1)
		}
	}
	g := new(big.Float).SetPrec(uint(len(x.m.bits) + 1)).SetInt(i)
	g.SetMantExp(g, int(e.c.Int64())-len(x.m.bits))
	if negv {
		g.Neg(g)
	}
	if f.Prec() == 0 {
		return g, true
	}
	f.Set(g)
	return f, true
}

// ---- rounding to an IEEE format

// fmtPrec gives the number of mantissa bits available to x in the format and
// whether the result is subnormal-sized; p <= 0 means at most half the
// smallest subnormal is in reach.
func (r *Run) fmtPrec(x BigF, f fmtParam) (p int, sub bool) {
	emin := 1 - f.bias
	// e = exp-1 is the exponent of the lead bit
	if r.geq(x.exp.addC(bi(int64(-1 - emin)))) {
		return f.mbits + 1, false
	}
	// exp-1 < emin: p = mbits+1 - (emin - (exp-1))
	pl := x.exp.addC(bi(int64(f.mbits - emin)))
	if !r.geq(pl) {
		return -1, true
	}
	return int(r.concrete(pl).Int64()), true
}

// roundOverflow reports whether rounding x to the format overflows.
func (r *Run) roundOverflow(x BigF, f fmtParam) (bool, BigF) {
	x = r.norm0(x)
	if x.form == fInf {
		return true, x
	}
	if x.form == fZero {
		return false, x
	}
	if x.kind == kSum {
		// sums of two native doubles whose rounding overflows
		o := r.opaque(fmt.Sprintf("overflow%d(%s)", f.mbits, r.sumKeyAbs(x.sum)), 0, 1)
		if r.sumFits(x.sum, f) {
			return false, x
		}
		return r.geq(o.addC(bi(-1))), x
	}
	if x.kind == kNative && floatFmt(x.nat.w).mbits <= f.mbits {
		return false, x
	}
	x = r.bitsOf(x)
	emax := f.bias
	if r.geq(x.exp.addC(bi(int64(-2 - emax)))) {
		return true, x
	}
	if !r.geq(x.exp.addC(bi(int64(-1 - emax)))) {
		return false, x
	}
	// top binade: overflow iff the first mbits+2 bits are all ones
	var z []Bit
	for i := 0; i < f.mbits+2; i++ {
		z = append(z, r.mantBit(x.m, i).not())
	}
	return !r.anySet(z), x
}

// roundAcc is the accuracy of the nearest-even rounding, without the bits.
func (r *Run) roundAcc(x BigF, f fmtParam) Lin {
	over, x := r.roundOverflow(x, f)
	if over {
		if x.form == fInf {
			return linI(0)
		}
		return r.signed(1, x.neg)
	}
	if x.form == fZero {
		return linI(0)
	}
	if x.kind == kNative && floatFmt(x.nat.w).mbits <= f.mbits {
		return linI(0)
	}
	x = r.bitsOf(x)
	p, _ := r.fmtPrec(x, f)
	if p < 0 {
		return r.signed(-1, x.neg)
	}
	if p == 0 {
		// at least half the smallest subnormal: up unless exactly half
		if r.mantSticky(x.m, 1) {
			return r.signed(1, x.neg)
		}
		return r.signed(-1, x.neg)
	}
	if !r.decideBit(r.mantBit(x.m, p)) {
		if r.mantSticky(x.m, p+1) {
			return r.signed(-1, x.neg)
		}
		return linI(0)
	}
	if r.mantSticky(x.m, p+1) || r.decideBit(r.mantBit(x.m, p-1)) {
		return r.signed(1, x.neg)
	}
	return r.signed(-1, x.neg)
}

// roundToFmt is the nearest-even rounding of x to the format, as an exact
// multi-precision content.
func (r *Run) roundToFmt(x BigF, f fmtParam) (BigF, Lin) {
	x = r.norm0(x)
	if x.form != fFinite {
		return x, linI(0)
	}
	if x.kind == kNative && floatFmt(x.nat.w).mbits <= f.mbits {
		return x, linI(0)
	}
	if x.kind == kSum {
		if over, _ := r.roundOverflow(x, f); over {
			s := r.sumSignLin(x.sum)
			y := x
			y.form = fInf
			y.kind = kBits
			y.neg = bitOf(!r.geq(s))
			return y, s
		}
		y := x
		y.sum = &Sum{terms: []sumTerm{r.rnTerm(x.sum, f)}}
		return y, linI(0)
	}
	over, x := r.roundOverflow(x, f)
	if over {
		y := x
		y.form = fInf
		return y, r.signed(1, x.neg)
	}
	p, _ := r.fmtPrec(x, f)
	y := x
	if p < 0 || p == 0 && !r.mantSticky(x.m, 1) {
		y.form = fZero
		return y, r.signed(-1, x.neg)
	}
	if p == 0 {
		y.m = Mant{bits: []Bit{bit1}}
		y.exp = x.exp.addC(bigOne)
		return y, r.signed(1, x.neg)
	}
	bits, carry, acc := r.roundMant(x.m, p, 0, x.neg)
	y.m = Mant{bits: bits}
	if carry {
		y.exp = x.exp.addC(bigOne)
	}
	return y, r.signed(acc, x.neg)
}

// encodeIEEE gives the bit pattern (LSB first) of an exactly representable x.
func (r *Run) encodeIEEE(x BigF, f fmtParam) []Bit {
	w := 1 + f.ebits + f.mbits
	out := make([]Bit, w)
	for i := range out {
		out[i] = bit0
	}
	x = r.norm0(x)
	if x.form == fFinite && x.kind == kSum {
		r.giveUp("bits of the rounded sum %s", r.sumKey(x.sum))
	}
	out[w-1] = r.bit(x.neg)
	switch x.form {
	case fZero:
		return out
	case fInf:
		for i := 0; i < f.ebits; i++ {
			out[f.mbits+i] = bit1
		}
		return out
	}
	x = r.bitsOf(x)
	emin := 1 - f.bias
	if r.geq(x.exp.addC(bi(int64(-1 - emin)))) {
		e := r.linBits(x.exp.addC(bi(int64(f.bias-1))), f.ebits)
		copy(out[f.mbits:], e)
		for i := 0; i < f.mbits; i++ {
			out[f.mbits-1-i] = r.mantBit(x.m, 1+i)
		}
		return out
	}
	sh := int(r.concrete(x.exp).Int64()) - 1 - emin // negative
	for i := 0; i < f.mbits; i++ {
		// fraction bit i (from the top) has weight 2^(emin-1-i)
		k := i + 1 + sh
		if k >= 0 {
			out[f.mbits-1-i] = r.mantBit(x.m, k)
		}
	}
	return out
}

// ---- content keys and exact sums

func (r *Run) contentKey(x BigF) string {
	x = r.norm0(x)
	sg := "+"
	switch b := r.bit(x.neg); b.k {
	case bConst0:
	case bConst1:
		sg = "-"
	default:
		sg = fmt.Sprintf("(%d:%d)", b.k, b.id)
	}
	switch x.form {
	case fZero:
		return sg + "0"
	case fInf:
		return sg + "inf"
	}
	switch x.kind {
	case kNative:
		return sg + r.floatKey(r.floatAbs(x.nat))
	case kSum:
		return "sum(" + r.sumKey(x.sum) + ")"
	}
	var sb strings.Builder
	sb.WriteString(sg)
	sb.WriteString("m")
	n := len(x.m.bits)
	if x.m.st == nil {
		for n > 1 && r.bit(x.m.bits[n-1]).k == bConst0 {
			n--
		}
	}
	for i := 0; i < n; i++ {
		// explicit prefix bits that are the stream's own fold into the stream
		b := r.bit(x.m.bits[i])
		fmt.Fprintf(&sb, "%d.%d,", b.k, b.id)
	}
	if x.m.st != nil {
		fmt.Fprintf(&sb, "s%d@%d", x.m.st.id, x.m.tail)
	}
	sb.WriteString("e" + r.linKey(r.subst(x.exp)))
	return sb.String()
}

type sumTerm struct {
	key  string
	coef int
	src  *BigF  // the content behind the atom, when it is one
	rnOf *Sum   // atom is the nearest double of this sum
	rnF  int    // mbits of the rounding format
	prec *Lin   // precision bound of the atom
	nat  bool   // value of a native double
	nb   string // content key of the number whose rounding this is
}

type Sum struct{ terms []sumTerm }

func (r *Run) sumKey(s *Sum) string {
	var p []string
	for _, t := range s.terms {
		p = append(p, fmt.Sprintf("%d*%s", t.coef, t.key))
	}
	return strings.Join(p, " + ")
}

func (r *Run) sumKeyAbs(s *Sum) string {
	c, _ := r.sumCanon(s)
	return r.sumKey(c)
}

// sumCanon makes the first coefficient positive.
func (r *Run) sumCanon(s *Sum) (*Sum, bool) {
	if len(s.terms) > 0 && s.terms[0].coef < 0 {
		return r.sumNeg(s), true
	}
	return s, false
}

func (r *Run) sumNeg(s *Sum) *Sum {
	n := &Sum{}
	for _, t := range s.terms {
		t.coef = -t.coef
		n.terms = append(n.terms, t)
	}
	return n
}

func (r *Run) sumAdd(a, b *Sum) *Sum {
	m := map[string]sumTerm{}
	for _, s := range []*Sum{a, b} {
		for _, t := range s.terms {
			if o, ok := m[t.key]; ok {
				t.coef += o.coef
			}
			m[t.key] = t
		}
	}
	n := &Sum{}
	for _, t := range m {
		if t.coef != 0 {
			n.terms = append(n.terms, t)
		}
	}
	sort.Slice(n.terms, func(i, j int) bool { return n.terms[i].key < n.terms[j].key })
	return n
}

func (r *Run) sumSub(a, b *Sum) *Sum { return r.sumAdd(a, r.sumNeg(b)) }

// contentSum views a finite content as a sum of atoms; the sign of a bit-level
// content is part of its atom, as absolute value with the sign in the key.
func (r *Run) contentSum(x BigF) *Sum {
	x = r.norm0(x)
	if x.form == fZero {
		return &Sum{}
	}
	if x.kind == kSum {
		return x.sum
	}
	// normalise the sign: a constant sign becomes the coefficient
	coef := 1
	y := x
	y.acc = linI(0)
	switch b := r.bit(x.neg); b.k {
	case bConst1:
		coef = -1
		y.neg = bit0
	case bNeg:
		coef = -1
		y.neg = b.not()
	default:
		y.neg = b
	}
	p := x.prec
	if x.kind == kNative {
		p = linI(int64(floatFmt(x.nat.w).mbits + 1))
		// the native content carries the sign literal itself
		nb := append([]Bit{}, r.floatBits(x.nat)...)
		nb[x.nat.w-1] = y.neg
		y.nat = FloatV{w: x.nat.w, bits: nb}
	}
	return &Sum{terms: []sumTerm{{key: r.contentKey(y), coef: coef, src: &y, prec: &p, nat: x.kind == kNative}}}
}

func (r *Run) nativeSum(f FloatV) *Sum {
	return r.contentSum(r.floatValue(f))
}

func (r *Run) sumBig(s *Sum) BigF {
	z := newBigF()
	if len(s.terms) == 0 {
		return z
	}
	z.form = fFinite
	z.kind = kSum
	z.sum = s
	if len(s.terms) == 1 && s.terms[0].src != nil && (s.terms[0].coef == 1 || s.terms[0].coef == -1) {
		c := *s.terms[0].src
		if s.terms[0].coef < 0 {
			c = r.bfNegContent(c)
		}
		z.content(c)
	}
	return z
}

// rnTerm is the atom "nearest value of the format to s".
func (r *Run) rnTerm(s *Sum, f fmtParam) sumTerm {
	c, flip := r.sumCanon(s)
	p := linI(int64(f.mbits + 1))
	t := sumTerm{key: fmt.Sprintf("rn%d(%s)", f.mbits, r.sumKey(c)), coef: 1, rnOf: c, rnF: f.mbits, prec: &p}
	if flip {
		t.coef = -1
	}
	return t
}

// sumBound is a precision that holds the sum exactly, or nil if unknown.
func (r *Run) sumBound(s *Sum) *Lin {
	if len(s.terms) == 1 && (s.terms[0].coef == 1 || s.terms[0].coef == -1) {
		return s.terms[0].prec
	}
	if len(s.terms) != 2 {
		return nil
	}
	a, b := s.terms[0], s.terms[1]
	if a.coef*a.coef != 1 || b.coef*b.coef != 1 {
		return nil
	}
	// x - RN64(x): at most as many bits as x
	for i := 0; i < 2; i++ {
		if b.rnOf != nil && b.rnF == 52 && len(b.rnOf.terms) == 1 && b.rnOf.terms[0].key == a.key && a.coef*b.coef == -b.rnOf.terms[0].coef && a.prec != nil {
			return a.prec
		}
		a, b = b, a
	}
	dbl := func(t sumTerm) bool {
		return t.nat || t.rnOf != nil && t.rnF <= 52
	}
	if dbl(a) && dbl(b) {
		l := linI(2098)
		return &l
	}
	return nil
}

// sumFits: rounding the sum to the format cannot overflow.
func (r *Run) sumFits(s *Sum, f fmtParam) bool {
	if f.mbits != 52 {
		return false
	}
	// a remainder x - RN64(x) is far below the overflow threshold
	if len(s.terms) == 2 {
		a, b := s.terms[0], s.terms[1]
		for i := 0; i < 2; i++ {
			if b.rnOf != nil && b.rnF == 52 && len(b.rnOf.terms) == 1 && b.rnOf.terms[0].key == a.key && a.coef*b.coef == -b.rnOf.terms[0].coef {
				return true
			}
			a, b = b, a
		}
	}
	if len(s.terms) == 1 && s.terms[0].nat && s.terms[0].coef*s.terms[0].coef == 1 {
		return true
	}
	return false
}

// sumSignLin is the sign of a sum as a form in [-1,1].
func (r *Run) sumSignLin(s *Sum) Lin {
	if len(s.terms) == 0 {
		return linI(0)
	}
	// T - RN(T): minus the accuracy of the rounding
	if l, ok := r.sumIsRounding(s); ok {
		return l
	}
	if len(s.terms) == 1 && s.terms[0].src != nil {
		l := r.signed(1, s.terms[0].src.neg)
		if s.terms[0].coef < 0 {
			l = l.scale(bi(-1))
		}
		return l
	}
	c, flip := r.sumCanon(s)
	l := r.opaque("sgn("+r.sumKey(c)+")", -1, 1)
	l = r.subst(l)
	if flip {
		l = l.scale(bi(-1))
	}
	return l
}

func (r *Run) sumIsRounding(s *Sum) (Lin, bool) {
	for _, t := range s.terms {
		if t.rnOf == nil || t.coef*t.coef != 1 {
			continue
		}
		// s == k*(rn(T) - T)?
		k := t.coef
		want := &Sum{terms: []sumTerm{t}}
		for _, u := range t.rnOf.terms {
			u.coef *= -k
			want = r.sumAdd(want, &Sum{terms: []sumTerm{u}})
		}
		if r.sumKey(want) != r.sumKey(s) {
			continue
		}
		var acc Lin
		if len(t.rnOf.terms) == 1 && t.rnOf.terms[0].src != nil && t.rnF == 52 {
			acc = r.roundAcc(*t.rnOf.terms[0].src, fmt64)
		} else {
			acc = r.opaque(fmt.Sprintf("acc%d(%s)", map[int]int{52: 64, 23: 32}[t.rnF], r.sumKey(t.rnOf)), -1, 1)
		}
		return r.subst(acc.scale(bi(int64(k)))), true
	}
	return Lin{}, false
}
