package main

// Native floating-point values: bit vectors, or the rounding of a
// multi-precision content that is materialised only when its bits matter.

import (
	"fmt"
	"go/token"
	"math"
	"math/big"
	"strings"
)

type FloatV struct {
	w    int   // 32 or 64
	bits []Bit // LSB first, or nil
	term *fterm
}

type fterm struct {
	add  bool   // x + y, rounded
	x, y FloatV // add
	src  BigF   // otherwise: nearest-even rounding of src (finite)
	acc  Lin
}

type fmtParam struct {
	ebits, mbits int // exponent field width, fraction field width
	bias         int
}

var (
	fmt16  = fmtParam{5, 10, 15}
	fmtBF  = fmtParam{8, 7, 127}
	fmt32  = fmtParam{8, 23, 127}
	fmt64  = fmtParam{11, 52, 1023}
	fmt128 = fmtParam{15, 112, 16383}
	fmt80  = fmtParam{15, 63, 16383} // explicit lead bit stored on top of the fraction
)

func floatFmt(w int) fmtParam {
	if w == 32 {
		return fmt32
	}
	return fmt64
}

func constFloat(w int, f float64) FloatV {
	var u uint64
	if w == 32 {
		u = uint64(math.Float32bits(float32(f)))
	} else {
		u = math.Float64bits(f)
	}
	return floatFromU(w, u)
}

func floatFromU(w int, u uint64) FloatV {
	b := make([]Bit, w)
	for i := range b {
		b[i] = bitOf(u>>uint(i)&1 == 1)
	}
	return FloatV{w: w, bits: b}
}

func (r *Run) floatConst(f FloatV) (float64, bool) {
	if f.bits == nil {
		return 0, false
	}
	var u uint64
	for i, b := range f.bits {
		b = r.bit(b)
		if !b.isConst() {
			return 0, false
		}
		if b.k == bConst1 {
			u |= 1 << uint(i)
		}
	}
	if f.w == 32 {
		return float64(math.Float32frombits(uint32(u))), true
	}
	return math.Float64frombits(u), true
}

func (r *Run) floatKey(f FloatV) string {
	if f.bits != nil {
		var sb strings.Builder
		fmt.Fprintf(&sb, "f%d:", f.w)
		for i := len(f.bits) - 1; i >= 0; i-- {
			b := r.bit(f.bits[i])
			switch b.k {
			case bConst0:
				sb.WriteByte('0')
			case bConst1:
				sb.WriteByte('1')
			case bPos:
				fmt.Fprintf(&sb, "[%d]", b.id)
			case bNeg:
				fmt.Fprintf(&sb, "[!%d]", b.id)
			case bLinPos, bLinNeg:
				fmt.Fprintf(&sb, "[%d %s]", b.k, r.atomKey(b.id))
			}
		}
		return sb.String()
	}
	if f.term.add {
		return fmt.Sprintf("add%d(%s,%s)", f.w, r.floatKey(f.term.x), r.floatKey(f.term.y))
	}
	return fmt.Sprintf("rn%d(%s)", f.w, r.contentKey(f.term.src))
}

// floatBits materialises the bits.
func (r *Run) floatBits(f FloatV) []Bit {
	if f.bits != nil {
		out := make([]Bit, len(f.bits))
		for i, b := range f.bits {
			out[i] = r.bit(b)
		}
		return out
	}
	if f.term.add {
		return r.floatBits(r.nativeAdd(f))
	}
	v, _ := r.roundToFmt(f.term.src, floatFmt(f.w))
	return r.encodeIEEE(v, floatFmt(f.w))
}

func (r *Run) fields(f FloatV) (sign Bit, exp, frac []Bit) {
	p := floatFmt(f.w)
	b := r.floatBits(f)
	return b[f.w-1], b[p.mbits : f.w-1], b[:p.mbits]
}

func notAll(bs []Bit) []Bit {
	out := make([]Bit, len(bs))
	for i, b := range bs {
		out[i] = b.not()
	}
	return out
}

func (r *Run) isNaN(f FloatV) bool {
	if f.bits == nil {
		if f.term.add {
			x, y := f.term.x, f.term.y
			if r.isNaN(x) || r.isNaN(y) {
				return true
			}
			if r.isInf(x) && r.isInf(y) {
				return r.decideBit(r.xorBit(r.floatSign(x), r.floatSign(y)))
			}
			return false
		}
		return false
	}
	_, e, m := r.fields(f)
	if r.anySet(notAll(e)) {
		return false
	}
	return r.anySet(m)
}

func (r *Run) isInf(f FloatV) bool {
	if f.bits == nil && !f.term.add {
		v, _ := r.roundOverflow(f.term.src, floatFmt(f.w))
		return v
	}
	if f.bits == nil {
		if r.isNaN(f) {
			return false
		}
		return r.isInf(r.nativeAdd(f))
	}
	_, e, m := r.fields(f)
	if r.anySet(notAll(e)) {
		return false
	}
	return !r.anySet(m)
}

func (r *Run) isZeroF(f FloatV) bool {
	b := r.floatBits(f)
	return !r.anySet(b[:f.w-1])
}

func (r *Run) floatSign(f FloatV) Bit {
	if f.bits != nil {
		return r.bit(f.bits[f.w-1])
	}
	if f.term.add {
		return r.floatSign(r.nativeAdd(f))
	}
	if f.term.src.kind == kSum {
		v, _ := r.roundToFmt(f.term.src, floatFmt(f.w))
		return v.neg
	}
	return r.bit(f.term.src.neg)
}

func (r *Run) floatNeg(f FloatV) FloatV {
	if f.bits != nil {
		b := append([]Bit{}, f.bits...)
		b[f.w-1] = r.bit(b[f.w-1]).not()
		return FloatV{w: f.w, bits: b}
	}
	if f.term.add {
		return r.floatNeg(r.nativeAdd(f))
	}
	t := *f.term
	t.src = r.bfNegContent(t.src)
	t.acc = t.acc.scale(bi(-1))
	return FloatV{w: f.w, term: &t}
}

func (r *Run) floatAbs(f FloatV) FloatV {
	b := append([]Bit{}, r.floatBits(f)...)
	b[f.w-1] = bit0
	return FloatV{w: f.w, bits: b}
}

// floatValue is the exact value of a float that is not NaN.
func (r *Run) floatValue(f FloatV) BigF {
	p := floatFmt(f.w)
	z := BigF{prec: linI(int64(p.mbits + 1)), mode: linI(0), acc: linI(0)}
	if c, ok := r.floatConst(f); ok {
		x := new(big.Float).SetFloat64(c)
		n := r.bigConst(x)
		n.prec = z.prec
		return n
	}
	if f.bits == nil {
		if f.term.add {
			return r.floatValue(r.nativeAdd(f))
		}
		v := r.lazyRound(f.term.src, p)
		v.prec, v.mode, v.acc = z.prec, z.mode, z.acc
		return v
	}
	s, e, m := r.fields(f)
	z.neg = s
	if !r.anySet(notAll(e)) {
		z.form = fInf
		return z
	}
	if !r.anySet(append(append([]Bit{}, e...), m...)) {
		z.form = fZero
		return z
	}
	z.form = fFinite
	z.kind = kNative
	z.nat = f
	return z
}

// nativeAdd carries out a sum that was only noted: the exact sum, rounded once.
func (r *Run) nativeAdd(f FloatV) FloatV {
	x, y := f.term.x, f.term.y
	if r.isNaN(f) {
		return constFloat(f.w, math.NaN())
	}
	z := BigF{prec: linI(4096), mode: linI(0), acc: linI(0)}
	a, b := r.floatValue(x), r.floatValue(y)
	if a.form == fFinite && b.form == fFinite && !r.addBits(&z, a, b) {
		z.form, z.kind, z.neg = fFinite, kSum, bit0
		z.sum = r.sumAdd(r.contentSum(a), r.contentSum(b))
		z = r.sumBig(z.sum)
	} else if a.form != fFinite || b.form != fFinite {
		r.bfAdd(&z, a, b, false)
	}
	out, _ := r.floatOfContent(z, f.w)
	return out
}

// lazyRound is the nearest-even rounding of a content to a native format,
// with overflow and underflow to zero settled but the bits left symbolic.
func (r *Run) lazyRound(x BigF, p fmtParam) BigF {
	x = r.norm0(x)
	if x.form != fFinite || x.kind == kSum || x.kind == kNative && floatFmt(x.nat.w).mbits <= p.mbits {
		v, _ := r.roundToFmt(x, p)
		return v
	}
	if r.eager() || r.plainIn(x, p) {
		v, _ := r.roundToFmt(x, p)
		return v
	}
	if over, y := r.roundOverflow(x, p); over {
		y.form = fInf
		return y
	}
	b := r.bitsOf(x)
	emin := 1 - p.bias
	pl := b.exp.addC(bi(int64(p.mbits - emin))) // available bits when subnormal
	if !r.geq(pl) || !r.geq(pl.addC(bi(-1))) && !r.mantSticky(b.m, 1) {
		b.form = fZero
		return b
	}
	b.kind = kSum
	b.sum = &Sum{terms: []sumTerm{r.rnTerm(r.contentSum(x), p)}}
	return b
}

// floatOfContent is the native float nearest to a multi-precision content.
func (r *Run) floatOfContent(x BigF, w int) (FloatV, Lin) {
	x = r.norm0(x)
	sgn := func(u uint64) FloatV {
		f := floatFromU(w, u)
		f.bits[w-1] = r.bit(x.neg)
		return f
	}
	p := floatFmt(w)
	switch x.form {
	case fZero:
		return sgn(0), linI(0)
	case fInf:
		return sgn((1<<uint(p.ebits) - 1) << uint(p.mbits)), linI(0)
	}
	if x.kind == kNative && x.nat.w <= w {
		if x.nat.w == w {
			b := append([]Bit{}, r.floatBits(x.nat)...)
			b[w-1] = r.bit(x.neg)
			return FloatV{w: w, bits: b}, linI(0)
		}
		return FloatV{w: w, term: &fterm{src: x, acc: linI(0)}}, linI(0)
	}
	if x.kind == kSum {
		if len(x.sum.terms) == 1 {
			t := x.sum.terms[0]
			if t.rnOf != nil && t.rnF <= p.mbits && t.coef*t.coef == 1 {
				s := t.rnOf
				if t.coef < 0 {
					s = r.sumNeg(s)
				}
				if t.rnF == p.mbits {
					return FloatV{w: w, term: &fterm{src: r.sumBig(s), acc: linI(0)}}, linI(0)
				}
			}
		}
		if w == 64 {
			if v, ok := r.assume[r.sumKey(x.sum)]; ok {
				acc := r.bfSign(r.sumBig(r.sumSub(r.nativeSum(v), x.sum)))
				return v, acc
			}
		}
		canon, flip := r.sumCanon(x.sum)
		key := fmt.Sprintf("acc%d(%s)", w, r.sumKey(canon))
		acc := r.opaque(key, -1, 1)
		if flip {
			acc = acc.scale(bi(-1))
		}
		// overflow and the exact-zero case are settled by the consumer
		return FloatV{w: w, term: &fterm{src: x, acc: acc}}, acc
	}
	if r.eager() || r.plainIn(x, p) {
		y, acc := r.roundToFmt(x, p)
		return FloatV{w: w, bits: r.encodeIEEE(y, p)}, acc
	}
	acc := r.roundAcc(x, p)
	return FloatV{w: w, term: &fterm{src: x, acc: acc}}, acc
}

// plainIn reports whether rounding x to the format needs no decision: it is a
// known number, or has few enough bits and a normal exponent.
func (r *Run) plainIn(x BigF, p fmtParam) bool {
	if x.form != fFinite || x.kind != kBits || x.m.st != nil {
		return false
	}
	y := x
	y.prec, y.mode = linI(0), linI(0)
	if r.bit(x.neg).isConst() {
		if _, ok := r.bfConst(y); ok {
			return true
		}
	}
	n := len(x.m.bits)
	for n > 1 && r.bit(x.m.bits[n-1]).k == bConst0 {
		n--
	}
	lo, hi := r.interval(x.exp)
	return n <= p.mbits+1 && lo.Cmp(bi(int64(2-p.bias))) >= 0 && hi.Cmp(bi(int64(p.bias+1))) <= 0
}

// convFloat is the Go conversion between float widths.
func (r *Run) convFloat(f FloatV, w int) FloatV {
	if f.w == w {
		return f
	}
	if r.narrowHook != nil && w == 32 {
		if y, ok := r.narrowHook(f); ok {
			return y
		}
	}
	if f.bits != nil {
		if r.isNaN(f) {
			// sign kept, quiet bit set, payload aligned at the top
			s, _, m := r.fields(f)
			q := floatFmt(w)
			src := floatFmt(f.w)
			b := make([]Bit, w)
			for i := 0; i < q.mbits; i++ {
				j := i + src.mbits - q.mbits
				if j >= 0 {
					b[i] = m[j]
				} else {
					b[i] = bit0
				}
			}
			b[q.mbits-1] = bit1
			for i := q.mbits; i < w-1; i++ {
				b[i] = bit1
			}
			b[w-1] = s
			return FloatV{w: w, bits: b}
		}
	}
	v := r.floatValue(f)
	out, _ := r.floatOfContent(v, w)
	return out
}

// cmpFloat evaluates an ordered comparison.
func (r *Run) cmpFloat(op token.Token, x, y FloatV) bool {
	cx, okx := r.floatConst(x)
	cy, oky := r.floatConst(y)
	if okx && oky {
		switch op {
		case token.EQL:
			return cx == cy
		case token.NEQ:
			return cx != cy
		case token.LSS:
			return cx < cy
		case token.LEQ:
			return cx <= cy
		case token.GTR:
			return cx > cy
		case token.GEQ:
			return cx >= cy
		}
	}
	if r.isNaN(x) || r.isNaN(y) {
		return op == token.NEQ
	}
	if r.sameFloat(x, y) {
		return op == token.EQL || op == token.LEQ || op == token.GEQ
	}
	bx, by := r.floatBits(x), r.floatBits(y)
	var c int // sign of x-y
	zx, zy := r.isZeroF(x), r.isZeroF(y)
	switch {
	case zx && zy:
		c = 0
	case zx:
		c = 1
		if !r.decideBit(by[y.w-1]) {
			c = -1
		}
	case zy:
		c = -1
		if !r.decideBit(bx[x.w-1]) {
			c = 1
		}
	default:
		if r.decideBit(r.xorBit(bx[x.w-1], by[y.w-1])) {
			c = 1
			if r.decideBit(bx[x.w-1]) {
				c = -1
			}
			break
		}
		c = r.cmpMSB(bx[:x.w-1], by[:y.w-1])
		if c != 0 && r.decideBit(bx[x.w-1]) {
			c = -c
		}
	}
	switch op {
	case token.EQL:
		return c == 0
	case token.NEQ:
		return c != 0
	case token.LSS:
		return c < 0
	case token.LEQ:
		return c <= 0
	case token.GTR:
		return c > 0
	default:
		return c >= 0
	}
}

func (r *Run) sameFloat(x, y FloatV) bool {
	if x.w != y.w {
		return false
	}
	return r.floatKey(x) == r.floatKey(y)
}

// cmpMSB compares unsigned bit vectors (LSB first), most significant first.
func (r *Run) cmpMSB(a, b []Bit) int {
	for i := len(a) - 1; i >= 0; i-- {
		x, y := r.bit(a[i]), r.bit(b[i])
		if x == y {
			continue
		}
		// a run of positions where b is constant: an equality test first
		if y.isConst() || x.isConst() {
			dx, dy := r.decideBit(x), r.decideBit(y)
			if dx == dy {
				continue
			}
			if dx {
				return 1
			}
			return -1
		}
		if r.decideBit(r.xorBit(x, y)) {
			if r.decideBit(x) {
				return 1
			}
			return -1
		}
	}
	return 0
}

// floatBin is Go arithmetic on native floats.
func (r *Run) floatBin(op token.Token, x, y FloatV) FloatV {
	cx, okx := r.floatConst(x)
	cy, oky := r.floatConst(y)
	if okx && oky {
		var f float64
		switch op {
		case token.ADD:
			f = cx + cy
		case token.SUB:
			f = cx - cy
		case token.MUL:
			f = cx * cy
		case token.QUO:
			f = cx / cy
		}
		if x.w == 32 {
			f = float64(float32(f)) // double rounding is innocuous for +,-,*,/
		}
		return constFloat(x.w, f)
	}
	switch op {
	case token.ADD:
		if oky && cy == 0 && math.Signbit(cy) {
			return x
		}
		return FloatV{w: x.w, term: &fterm{add: true, x: x, y: y}}
	case token.SUB:
		return FloatV{w: x.w, term: &fterm{add: true, x: x, y: r.floatNeg(y)}}
	case token.MUL, token.QUO:
		if r.isNaN(x) || r.isNaN(y) {
			return constFloat(x.w, math.NaN())
		}
		a, b := r.floatValue(x), r.floatValue(y)
		var z BigF
		z.prec, z.mode, z.acc = linI(0), linI(0), linI(0)
		if op == token.MUL {
			if a.form == fInf && b.form == fZero || a.form == fZero && b.form == fInf {
				return constFloat(x.w, math.NaN())
			}
			z.prec = linI(200)
			r.bfMul(&z, a, b)
		} else {
			if a.form == b.form && a.form != fFinite {
				return constFloat(x.w, math.NaN())
			}
			z.prec = linI(200)
			r.bfQuo(&z, a, b)
		}
		f, _ := r.floatOfContent(z, x.w)
		return f
	}
	r.giveUp("floating-point operator %s", op)
	return FloatV{}
}
