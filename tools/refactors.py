"""Behaviour-preserving edits: (file, old, new), every occurrence."""
refactors = []
def ref(id, *edits): refactors.append(dict(id=id, edits=edits))
B16, B128, X87, DD, BF, RT = 'binary16/binary16.go', 'binary128/binary128.go', 'float80x86/float80x86.go', 'float128ppc/float128ppc.go', 'bfloat/bfloat.go', 'float.go'
ITOA, FTOA = 'internal/strconv/itoa.go', 'internal/strconv/ftoa.go'

# binary16: value built by arithmetic in place of text
ref('b16-arith-decode', (B16, '''	s := fmt.Sprintf("%s0b%d.%010bp%d", sign, lead, frac, exponent)
	if _, _, err := x.Parse(s, 0); err != nil {
		panic(err)
	}
	return x, false''', '''	_ = fmt.Sprint
	m := int64(lead)<<(precision-1) | int64(frac)
	if sign == "-" {
		m = -m
	}
	x.SetMantExp(new(big.Float).SetInt64(m), exponent-(precision-1))
	return x, false'''))
ref('b16-arith-decode2', (B16, '''	// number = [ sign ] [ prefix ] mantissa [ exponent ] | infinity .
	sign := "+"
	if signbit {
		sign = "-"
	}
	s := fmt.Sprintf("%s0b%d.%010bp%d", sign, lead, frac, exponent)
	if _, _, err := x.Parse(s, 0); err != nil {
		panic(err)
	}
	return x, false''', '''	v := math.Ldexp(float64(lead)+float64(frac)/1024, exponent)
	if signbit {
		v = -v
	}
	x.SetFloat64(v)
	return x, false'''), (B16, '	"fmt"\n', ''))
ref('b16-concat', (B16, '''	s := fmt.Sprintf("%s0b%d.%010bp%d", sign, lead, frac, exponent)''', '''	s := sign + "0b" + strconv.Itoa(lead) + "." + fmt.Sprintf("%010b", frac) + "p" + strconv.Itoa(exponent)'''), (B16, '	"math/big"\n', '	"math/big"\n	"strconv"\n'))
ref('b16-pad', (B16, '''	s := fmt.Sprintf("%s0b%d.%010bp%d", sign, lead, frac, exponent)''', '''	digits := strconv.FormatUint(uint64(frac), 2)
	for len(digits) < precision-1 {
		digits = "0" + digits
	}
	var sb strings.Builder
	sb.WriteString(sign)
	fmt.Fprintf(&sb, "0b%d.%sp%d", lead, digits, exponent)
	s := sb.String()'''), (B16, '	"math/big"\n', '	"math/big"\n	"strconv"\n	"strings"\n'))
ref('b16-repeat', (B16, '''	s := fmt.Sprintf("%s0b%d.%010bp%d", sign, lead, frac, exponent)''', '''	digits := strconv.FormatUint(uint64(frac), 2)
	digits = strings.Repeat("0", precision-1-len(digits)) + digits
	s := fmt.Sprintf("%s0b%d.%sp%d", sign, lead, digits, exponent)'''), (B16, '	"math/big"\n', '	"math/big"\n	"strconv"\n	"strings"\n'))
ref('b16-setstring', (B16, '''	if _, _, err := x.Parse(s, 0); err != nil {
		panic(err)
	}''', '''	if _, ok := x.SetString(s); !ok {
		panic("invalid number " + s)
	}'''))
ref('b16-parsefloat', (B16, '''	if _, _, err := x.Parse(s, 0); err != nil {
		panic(err)
	}
	return x, false''', '''	x, _, err := big.ParseFloat(s, 0, precision, big.ToNearestEven)
	if err != nil {
		panic(err)
	}
	return x, false'''))
ref('b16-special-helper', (B16, '''	// +-Inf
	zero := big.NewFloat(0)
	switch {
	case x.IsInf():
		if x.Signbit() {
			// -Inf
			return NegInf, big.Exact
		}
		// +Inf
		return Inf, big.Exact
	// +-zero
	case x.Cmp(zero) == 0:
		if x.Signbit() {
			// -zero
			return NegZero, big.Exact
		}
		// +zero
		return Zero, big.Exact
	}
''', '''	if f, ok := special(x); ok {
		return f, big.Exact
	}
'''), (B16, '''// round returns x''', '''// special handles zeros and infinities.
func special(x *big.Float) (f Float, ok bool) {
	table := [2][2]Float{{Zero, NegZero}, {Inf, NegInf}}
	i, j := 0, 0
	if x.Signbit() {
		j = 1
	}
	if x.IsInf() {
		i = 1
	} else if x.Sign() != 0 {
		return Float{}, false
	}
	return table[i][j], true
}

// round returns x'''))
ref('b16-sign-helpers', (B16, '''		if x.Signbit() {
			return NegInf, big.Below
		}
		return Inf, big.Above''', '''		return pick(x, NegInf, Inf), big.Accuracy(pick(x, Float{0xFFFF}, Float{1}).bits&2) / 2 * -2 + 1'''), (B16, '''// round returns x''', '''func pick(x *big.Float, neg, pos Float) Float {
	if x.Signbit() {
		return neg
	}
	return pos
}

// round returns x'''))
ref('b16-normal-order', (B16, '''	// exponent mask (5 bits): 0b11111
	bits |= uint16(exp&0x1F) << 10

	if mant.Signbit() {
		mant.Neg(mant)
	}
	mant.SetMantExp(mant, precision)
	mantissa, _ := mant.Uint64()
	mantissa &^= 0x400 // clear implicit lead bit; 2^10

	// mantissa mask (11 bits, including implicit lead bit): 0b11111111111
	mantissa &= 0x7FF
	bits |= uint16(mantissa)
	return Float{bits: bits}, acc''', '''	mant.Abs(mant)
	mantissa, _ := mant.SetMantExp(mant, precision).Int64()
	return NewFromBits(bits + uint16(exp<<10) + uint16(mantissa-1<<10)), acc'''))
ref('b16-float64-encode', (B16, '''	// exponent mask (5 bits): 0b11111
	bits |= uint16(exp&0x1F) << 10

	if mant.Signbit() {
		mant.Neg(mant)
	}
	mant.SetMantExp(mant, precision)
	mantissa, _ := mant.Uint64()
	mantissa &^= 0x400 // clear implicit lead bit; 2^10

	// mantissa mask (11 bits, including implicit lead bit): 0b11111111111
	mantissa &= 0x7FF
	bits |= uint16(mantissa)
	return Float{bits: bits}, acc''', '''	v, _ := y.Float64()
	b := math.Float64bits(v)
	bits |= uint16(b>>42) & 0x3FF
	bits |= uint16((b>>52&0x7FF)-1023+bias) << 10
	return Float{bits: bits}, acc'''))
ref('b16-accuracy-switch', (B16, '''	acc := big.Accuracy(y.Cmp(x))
''', '''	acc := big.Exact
	switch c := y.Cmp(x); {
	case c < 0:
		acc = big.Below
	case c > 0:
		acc = big.Above
	}
'''))
ref('b16-round-rewrite', (B16, '''	y := new(big.Float)
	prec := precision
	// Denormalized values have less precision, the smaller they are.
	if exponent := x.MantExp(nil); exponent < 2-bias {
		prec += exponent - (2 - bias)
	}
	switch {
	case prec > 0:
		y.SetPrec(uint(prec)).SetMode(big.ToNearestEven).Set(x)
	case prec == 0 && x.MinPrec() > 1:
		// More than half of the smallest denormalized value.
		y.SetMantExp(big.NewFloat(1), 2-bias-precision)
		if x.Signbit() {
			y.Neg(y)
		}
	}
	return y''', '''	const minExp = 2 - bias
	prec := precision
	if e := x.MantExp(nil); e < minExp {
		prec = precision - (minExp - e)
	}
	if prec < 0 {
		return new(big.Float)
	}
	if prec == 0 {
		if x.MinPrec() == 1 {
			return new(big.Float)
		}
		y := new(big.Float).SetMantExp(big.NewFloat(1), minExp-precision)
		if x.Sign() < 0 {
			return y.Neg(y)
		}
		return y
	}
	y := new(big.Float).Copy(x)
	y.SetMode(big.ToNearestEven)
	return y.SetPrec(uint(prec))'''))
ref('b16-round-add-trick', (B16, '''	case prec > 0:
		y.SetPrec(uint(prec)).SetMode(big.ToNearestEven).Set(x)''', '''	case prec >= 1 && prec <= precision:
		return new(big.Float).SetMode(big.ToNearestEven).SetPrec(uint(prec)).Set(x)'''))
ref('b16-accessors', (B16, '''	return int(f.bits & 0x7C00 >> 10)''', '''	return int(f.bits<<1) >> 11 & 0x1F'''), (B16, '''	return f.bits & 0x03FF''', '''	return f.bits % (1 << 10)'''), (B16, '''	return f.bits&0x8000 != 0''', '''	return int16(f.bits) < 0'''))
ref('b16-nan-helper', (B16, '''		if x.Signbit() {
			return float32(-math.NaN()), big.Exact
		}
		return float32(math.NaN()), big.Exact''', '''		return float32(nanOf(x.Signbit())), big.Exact'''), (B16, '''		if x.Signbit() {
			return -math.NaN(), big.Exact
		}
		return math.NaN(), big.Exact''', '''		return nanOf(x.Signbit()), big.Exact'''), (B16, '''// round returns x''', '''func nanOf(neg bool) float64 {
	if neg {
		return math.Copysign(math.NaN(), -1)
	}
	return math.NaN()
}

// round returns x'''))
ref('b16-float32-direct', (B16, '''	f, acc := NewFromFloat64(float64(x))
	if acc == big.Exact {
		_, acc = f.Float32()
	}
	return f, acc''', '''	return NewFromFloat64(float64(x))'''))
ref('b16-named-result-defer', (B16, '''func (f Float) Big() (x *big.Float, nan bool) {
	signbit := f.Signbit()
	exp := f.Exp()
	frac := f.Frac()
	x = big.NewFloat(0)
	x.SetPrec(precision)
	x.SetMode(big.ToNearestEven)
''', '''func (f Float) Big() (x *big.Float, nan bool) {
	signbit, exp, frac := f.fields()
	x = new(big.Float).SetMode(big.ToNearestEven).SetPrec(precision)
'''), (B16, '''// Signbit reports''', '''// fields splits f.
func (f Float) fields() (neg bool, exp int, frac uint16) {
	return f.Signbit(), f.Exp(), f.Frac()
}

// Signbit reports'''))
ref('b16-if-chain', (B16, '''	switch exp {
	// 0b11111
	case 0x1F:
		// Inf or NaN
		if frac == 0 {
			// +-Inf
			x.SetInf(signbit)
			return x, false
		}
		// +-NaN
		if signbit {
			x.Neg(x)
		}
		return x, true
	// 0b00000
	case 0x00:
		if frac == 0 {
			// +-Zero
			if signbit {
				x.Neg(x)
			}
			return x, false
		}
		// Denormalized number.
		//
		//    (-1)^signbit * 2^(-14) * 0.mant_2
		lead = 0
		exponent = -14
	}
''', '''	if exp == 0x1F && frac == 0 {
		return x.SetInf(signbit), false
	}
	if nan = exp == 0x1F; nan || f.bits&0x7FFF == 0 {
		if signbit {
			x.Neg(x)
		}
		return x, nan
	}
	if exp == 0 {
		lead, exponent = 0, 1-bias
	}
'''))
# binary128
ref('b128-masks-hoisted', (B128, '''		maskA := big.NewInt(0)
		for i := 64; i < 112; i++ {
			maskA.SetBit(maskA, i, 1)
		}
		maskB := big.NewInt(0)
		for i := 0; i < 64; i++ {
			maskB.SetBit(maskB, i, 1)
		}
''', ''), (B128, '''	maskA := big.NewInt(0)
	for i := 64; i < 112; i++ {
		maskA.SetBit(maskA, i, 1)
	}
	maskB := big.NewInt(0)
	for i := 0; i < 64; i++ {
		maskB.SetBit(maskB, i, 1)
	}
''', ''), (B128, '''// Float is a floating-point number in''', '''var (
	maskA = new(big.Int).Lsh(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 48), big.NewInt(1)), 64)
	maskB = new(big.Int).SetUint64(1<<64 - 1)
)

// Float is a floating-point number in'''))
ref('b128-masks-init', (B128, '''		maskA := big.NewInt(0)
		for i := 64; i < 112; i++ {
			maskA.SetBit(maskA, i, 1)
		}
		maskB := big.NewInt(0)
		for i := 0; i < 64; i++ {
			maskB.SetBit(maskB, i, 1)
		}
''', ''), (B128, '''	maskA := big.NewInt(0)
	for i := 64; i < 112; i++ {
		maskA.SetBit(maskA, i, 1)
	}
	maskB := big.NewInt(0)
	for i := 0; i < 64; i++ {
		maskB.SetBit(maskB, i, 1)
	}
''', ''), (B128, '''// Float is a floating-point number in''', '''var maskA, maskB = bitMask(64, 112), bitMask(0, 64)

func bitMask(from, to int) *big.Int {
	m := new(big.Int)
	for i := to - 1; i >= from; i-- {
		m.SetBit(m, i, 1)
	}
	return m
}

// Float is a floating-point number in'''))
SPLIT_OLD = '''		maskA := big.NewInt(0)
		for i := 64; i < 112; i++ {
			maskA.SetBit(maskA, i, 1)
		}
		maskB := big.NewInt(0)
		for i := 0; i < 64; i++ {
			maskB.SetBit(maskB, i, 1)
		}
		bigA := new(big.Int).And(mantissa, maskA) // a = (mantissa & maskA) >> 64
		bigA.Rsh(bigA, 64)
		bigB := new(big.Int).And(mantissa, maskB) // b = mantissa & maskB
		a |= bigA.Uint64() & 0x0000FFFFFFFFFFFF
		b = bigB.Uint64()
'''
SPLIT_OLD2 = '\n'.join(l[1:] for l in SPLIT_OLD.split('\n'))
def split(id, call, helper, *more):
    ref(id, (B128, SPLIT_OLD, '		' + call + '\n'), (B128, SPLIT_OLD2, '	' + call + '\n'), (B128, '// round returns x', helper + '\n// round returns x'), *more)
split('b128-split-helper', 'hi, lo := split(mantissa)\n	a |= hi\n	b = lo', '''// split returns the high 48 and the low 64 bits of the fraction.
func split(m *big.Int) (hi, lo uint64) {
	h := new(big.Int).Rsh(m, 64)
	return h.Uint64() & (1<<48 - 1), m.Uint64()
}
''')
split('b128-split-bytes', 'hi, lo := split(mantissa)\n	a |= hi & 0x0000FFFFFFFFFFFF\n	b = lo', '''func split(m *big.Int) (hi, lo uint64) {
	var buf [16]byte
	m.FillBytes(buf[:])
	return binary.BigEndian.Uint64(buf[:8]), binary.BigEndian.Uint64(buf[8:])
}
''', (B128, '	"fmt"\n', '	"encoding/binary"\n	"fmt"\n'))
split('b128-split-loop', 'hi, lo := split(mantissa)\n	a |= hi\n	b = lo', '''func split(m *big.Int) (hi, lo uint64) {
	for i := 111; i >= 0; i-- {
		if i >= 64 {
			hi = hi<<1 | uint64(m.Bit(i))
		} else {
			lo = lo<<1 | uint64(m.Bit(i))
		}
	}
	return hi, lo
}
''')
split('b128-split-divmod', 'hi, lo := split(mantissa)\n	a |= hi\n	b = lo', '''func split(m *big.Int) (hi, lo uint64) {
	q, r := new(big.Int).DivMod(m, new(big.Int).Lsh(big.NewInt(1), 64), new(big.Int))
	return q.Uint64() & 0xFFFFFFFFFFFF, r.Uint64()
}
''')
ref('b128-unified', (B128, '''	// Handle denormalized values.
	if exp <= 0 {
		mant.SetMantExp(mant, exp+precision-1)
		if mant.Signbit() {
			mant.Neg(mant)
		}
		mantissa, _ := mant.Int(nil)
''' + SPLIT_OLD + '''		return Float{a: a, b: b}, acc
	}

	// exponent mask (15 bits): 0b111111111111111
	a |= uint64(exp&0x7FFF) << 48

	if mant.Signbit() {
		mant.Neg(mant)
	}
	mant.SetMantExp(mant, precision)
	mantissa, _ := mant.Int(nil)
''', '''	shift := precision
	if exp <= 0 {
		shift += exp - 1
		exp = 0
	}
	a |= uint64(exp) << 48
	mantissa, _ := mant.Abs(mant).SetMantExp(mant, shift).Int(nil)
'''))
ref('b128-float-split', (B128, '''	mantissa, _ := mant.Int(nil)
	mantissa.SetBit(mantissa, 112, 0) // clear implicit lead bit; 2^112
''', '''	mantissa := new(big.Int)
	mant.Int(mantissa)
	if one := new(big.Int).Lsh(big.NewInt(1), 112); mantissa.Cmp(one) >= 0 {
		mantissa.Sub(mantissa, one) // clear implicit lead bit; 2^112
	}
'''))
ref('b128-decode-int', (B128, '''	// first part cut the sign and exponent which only contains 48 bits
	fracStr := fmt.Sprintf("%048b%064b", frac1, frac2)
	s := fmt.Sprintf("%s0b%d.%sp%d", sign, lead, fracStr, exponent)
	if _, _, err := x.Parse(s, 0); err != nil {
		panic(err)
	}
	return x, false''', '''	m := new(big.Int).SetUint64(uint64(lead)<<48 | frac1)
	m.Lsh(m, 64).Or(m, new(big.Int).SetUint64(frac2))
	x.SetInt(m)
	x.SetMantExp(x, exponent-112)
	if sign == "-" {
		x.Neg(x)
	}
	return x, false'''), (B128, '	"fmt"\n', ''))
ref('b128-decode-words', (B128, '''	// first part cut the sign and exponent which only contains 48 bits
	fracStr := fmt.Sprintf("%048b%064b", frac1, frac2)
	s := fmt.Sprintf("%s0b%d.%sp%d", sign, lead, fracStr, exponent)
	if _, _, err := x.Parse(s, 0); err != nil {
		panic(err)
	}
	return x, false''', '''	hi := new(big.Float).SetUint64(uint64(lead)<<48 | frac1)
	lo := new(big.Float).SetUint64(frac2)
	hi.SetMantExp(hi, exponent-48)
	lo.SetMantExp(lo, exponent-112)
	x.Add(hi, lo)
	if sign == "-" {
		x.Neg(x)
	}
	return x, false'''), (B128, '	"fmt"\n', ''))
ref('b128-decode-hex', (B128, '''	// first part cut the sign and exponent which only contains 48 bits
	fracStr := fmt.Sprintf("%048b%064b", frac1, frac2)
	s := fmt.Sprintf("%s0b%d.%sp%d", sign, lead, fracStr, exponent)''', '''	s := fmt.Sprintf("%s0x%d.%012x%016xp%d", sign, lead, frac1, frac2, exponent)'''))
# x87
ref('x87-const-masks', (X87, '''	se |= uint16(exp & 0x7FFF)
''', '''	const expMask = 1<<15 - 1
	se = se&^expMask | uint16(exp)&expMask
'''))
ref('x87-int-mant', (X87, '''	// mantissa, including explicit lead bit
	mantissa, _ := mant.Uint64()
	m |= mantissa
''', '''	// mantissa, including explicit lead bit
	mantissa, _ := mant.Int(nil)
	m = mantissa.Uint64()
'''))
# double-double
ref('dd-isnan-inline', (DD, '''	return math.IsNaN(f.high + f.low)''', '''	if math.IsNaN(f.high) || math.IsNaN(f.low) {
		return true
	}
	return math.IsInf(f.high, 0) && math.IsInf(f.low, 0) && math.Signbit(f.high) != math.Signbit(f.low)'''))
ref('dd-isnan-neq', (DD, '''	return math.IsNaN(f.high + f.low)''', '''	sum := f.high + f.low
	return sum != sum'''))
ref('dd-big-add', (DD, '''	h := big.NewFloat(f.high).SetPrec(precision)
	l := big.NewFloat(f.low).SetPrec(precision)
	x.Add(h, l)

	zero := big.NewFloat(0).SetPrec(precision)
	if x.Cmp(zero) == 0 && math.Signbit(f.high) {
		// -zero
		if !x.Signbit() {
			x.Neg(x)
		}
	}
''', '''	x.SetFloat64(f.high)
	x.Add(x, new(big.Float).SetFloat64(f.low))
	if x.Sign() == 0 && x.Signbit() != math.Signbit(f.high) && math.Signbit(f.high) {
		x.Neg(x)
	}
'''))
ref('dd-new-setfloat', (DD, '''	h := big.NewFloat(high)

''', '''	h := new(big.Float).SetFloat64(high)
'''), (DD, '''	l := new(big.Float)
	l.Sub(x, h)
	low, acc := l.Float64()

	return Float{high: high, low: low}, acc''', '''	h.Neg(h)
	rest := new(big.Float).Add(x, h)
	f := Float{high: high}
	f.low, acc = rest.Float64()
	return f, acc'''))
ref('dd-from64', (DD, '''	r := Float{high: x, low: 0}
	br, _ := r.Big()
	return r, br.Acc()''', '''	return Float{high: x}, big.Exact'''))
# bfloat
ref('bf-float32', (BF, '''	// number = [ sign ] [ prefix ] mantissa [ exponent ] | infinity .
	sign := "+"
	if signbit {
		sign = "-"
	}
	s := fmt.Sprintf("%s0b%d.%07bp%d", sign, lead, frac, exponent)
	if _, _, err := x.Parse(s, 0); err != nil {
		panic(err)
	}
	return x, false''', '''	_, _ = lead, exponent
	x.SetFloat64(float64(math.Float32frombits(uint32(f.bits) << 16)))
	return x, false'''), (BF, '	"fmt"\n', '	"math"\n'))
# root
ref('root-helper', (RT, '''	_, acc := x.Float32()
	return acc == big.Exact''', '''	_, acc := x.Float32()
	return exact(acc)'''), (RT, '''	_, acc := x.Float64()
	return acc == big.Exact''', '''	f, _ := x.Float64()
	return math.IsInf(f, 0) == x.IsInf() && (x.IsInf() || new(big.Float).SetFloat64(f).Cmp(x) == 0)'''), (RT, '''// IsExact16 reports''', '''func exact(a big.Accuracy) bool { return a == 0 }

// IsExact16 reports'''), (RT, '	"math/big"\n', '	"math"\n	"math/big"\n'))
# strconv
ref('itoa-general-loop', (ITOA, '''		b := uint64(base)
		for u >= b {
			i--
			// Avoid using r = a%b in addition to q = a/b
			// since 64bit division and modulo operations
			// are calculated by runtime functions on 32bit machines.
			q := u / b
			a[i] = digits[uint(u-q*b)]
			u = q
		}
		// u < base
		i--
		a[i] = digits[uint(u)]
''', '''		for b := uint64(base); ; {
			i--
			a[i] = digits[u%b]
			u /= b
			if u == 0 {
				break
			}
		}
'''))
ref('itoa-pow2-loop', (ITOA, '''		for u >= b {
			i--
			a[i] = digits[uint(u)&m]
			u >>= shift
		}
		// u < base
		i--
		a[i] = digits[uint(u)]
	} else {''', '''		for {
			i--
			a[i] = digits[uint(u)&m]
			if u < b {
				break
			}
			u >>= shift
		}
	} else {'''))
ref('itoa-window', (ITOA, '''				for j := 4; j > 0; j-- {
					is := us % 100 * 2
					us /= 100
					i -= 2
					a[i+1] = smallsString[is+1]
					a[i+0] = smallsString[is+0]
				}
''', '''				for j := 0; j < 4; j++ {
					r := us % 100
					us = us / 100
					a[i-1] = digits[r%10]
					a[i-2] = digits[r/10]
					i -= 2
				}
'''))
ref('itoa-digit-helper', (ITOA, '''		// us < 100
		is := us * 2
		i--
		a[i] = smallsString[is+1]
		if us >= 10 {
			i--
			a[i] = smallsString[is]
		}
''', '''		i -= copy(a[i-len(small(int(us))):i], small(int(us)))
'''))
ref('itoa-neg-helper', (ITOA, '''	if neg {
		u = -u
	}
''', '''	if neg {
		u = ^u + 1
	}
'''), (ITOA, '''	if doAppend {
		d = append(dst, a[i:]...)
		return
	}
	s = string(a[i:])
	return''', '''	text := a[i:]
	if !doAppend {
		return nil, string(text)
	}
	return append(dst, text...), ""'''))
ref('ftoa-if-chain', (FTOA, '''		var s string
		switch {
		case mant != 0:
			s = "NaN"
		case neg:
			s = "-Inf"
		default:
			s = "+Inf"
		}
		return append(dst, s...)
''', '''		if mant != 0 {
			return append(dst, "NaN"...)
		}
		sign := byte('+')
		if neg {
			sign = '-'
		}
		return append(append(dst, sign), "Inf"...)
'''))
ref('ftoa-helper', (FTOA, '''	neg := bits>>(flt.expbits+flt.mantbits) != 0
	exp := int(bits>>flt.mantbits) & (1<<flt.expbits - 1)
	mant := bits & (uint64(1)<<flt.mantbits - 1)
''', '''	neg, exp, mant := unpack(bits, flt)
'''), (FTOA, '''func genericFtoa(''', '''func unpack(bits uint64, flt *floatInfo) (neg bool, exp int, mant uint64) {
	hidden := uint64(1) << flt.mantbits
	mant = bits % hidden
	bits /= hidden
	exp = int(bits & (1<<flt.expbits - 1))
	return bits>>flt.expbits == 1, exp, mant
}

func genericFtoa('''))
# rename fields / constants
ref('rename-all', (B16, 'precision', 'prec11'), (B16, 'round(', 'roundHalf('), (B128, 'round(', 'roundQuad('), (X87, 'round(', 'roundExt('), (B128, 'maskA', 'hiMask'), (DD, 'f.high', 'f.hi'), (DD, 'high:', 'hi:'), (DD, '	high float64', '	hi float64'))
ref('tables-renamed', ('internal/strconv/extfloat.go', 'powersOfTen', 'cachedPowers'), ('internal/strconv/extfloat.go', 'firstPowerOfTen', 'firstCached'), ('internal/strconv/extfloat.go', 'stepPowerOfTen', 'cachedStep'), ('internal/strconv/decimal.go', 'leftcheats', 'shiftTable'))
ref('x87-value-methods', (X87, '''	return int(f.m >> 63)''', '''	if int64(f.m) < 0 {
		return 1
	}
	return 0'''))
ref('no-op-statements', (B16, '''	// Exponent and mantissa.
''', '''	_ = acc
	if false {
		panic("unreachable")
	}
'''), (B128, '''	// Sign
''', '''	_ = len("sign")
'''), (X87, '''	// Sign
''', '''	var unused int
	unused++
	_ = unused
'''), (DD, '''	h := big.NewFloat(high)
''', '''	h := big.NewFloat(high)
	for i := 0; i < 3; i++ {
		_ = i
	}
'''))

# ---- second batch: helpers extracted, loops rewritten, statements reordered
ref('b16-special-pick', (B16, '''	// +-Inf
	zero := big.NewFloat(0)
	switch {
	case x.IsInf():
		if x.Signbit() {
			// -Inf
			return NegInf, big.Exact
		}
		// +Inf
		return Inf, big.Exact
	// +-zero
	case x.Cmp(zero) == 0:
		if x.Signbit() {
			// -zero
			return NegZero, big.Exact
		}
		// +zero
		return Zero, big.Exact
	}
''', '''	if f, ok := special(x); ok {
		return f, big.Exact
	}
'''), (B16, '''// NewFromBig returns''', '''// special gives infinities and zeros.
func special(x *big.Float) (f Float, ok bool) {
	pick := func(neg bool, a, b Float) Float {
		if neg {
			return a
		}
		return b
	}
	if x.IsInf() {
		return pick(x.Signbit(), NegInf, Inf), true
	} else if x.Sign() == 0 {
		return pick(x.Signbit(), NegZero, Zero), true
	}
	return Float{}, false
}

// NewFromBig returns'''))
ref('b128-mask-helper', (B128, '''	maskA := big.NewInt(0)
	for i := 64; i < 112; i++ {
		maskA.SetBit(maskA, i, 1)
	}
	maskB := big.NewInt(0)
	for i := 0; i < 64; i++ {
		maskB.SetBit(maskB, i, 1)
	}
	bigA := new(big.Int).And(mantissa, maskA) // a = (mantissa & maskA) >> 64
''', '''	maskA, maskB := ones(64, 112), ones(0, 64)
	bigA := new(big.Int).And(mantissa, maskA) // a = (mantissa & maskA) >> 64
'''), (B128, '''// round returns x''', '''// ones is an integer with the bits [lo, hi) set.
func ones(lo, hi int) *big.Int {
	z := new(big.Int)
	for i := hi - 1; i >= lo; i-- {
		z.SetBit(z, i, 1)
	}
	return z
}

// round returns x'''))
ref('b128-mask-lsh', (B128, '''	maskB := big.NewInt(0)
	for i := 0; i < 64; i++ {
		maskB.SetBit(maskB, i, 1)
	}
	bigA :=''', '''	one := big.NewInt(1)
	maskB := new(big.Int).Lsh(one, 64)
	maskB.Sub(maskB, one)
	bigA :='''))
ref('b128-split-quorem', (B128, '''	maskA := big.NewInt(0)
	for i := 64; i < 112; i++ {
		maskA.SetBit(maskA, i, 1)
	}
	maskB := big.NewInt(0)
	for i := 0; i < 64; i++ {
		maskB.SetBit(maskB, i, 1)
	}
	bigA := new(big.Int).And(mantissa, maskA) // a = (mantissa & maskA) >> 64
	bigA.Rsh(bigA, 64)
	bigB := new(big.Int).And(mantissa, maskB) // b = mantissa & maskB
	a |= bigA.Uint64() & 0x0000FFFFFFFFFFFF
	b = bigB.Uint64()
	return Float{a: a, b: b}, acc''', '''	hi, lo := split(mantissa)
	return Float{a: a | hi, b: lo}, acc'''), (B128, '''		maskA := big.NewInt(0)
		for i := 64; i < 112; i++ {
			maskA.SetBit(maskA, i, 1)
		}
		maskB := big.NewInt(0)
		for i := 0; i < 64; i++ {
			maskB.SetBit(maskB, i, 1)
		}
		bigA := new(big.Int).And(mantissa, maskA) // a = (mantissa & maskA) >> 64
		bigA.Rsh(bigA, 64)
		bigB := new(big.Int).And(mantissa, maskB) // b = mantissa & maskB
		a |= bigA.Uint64() & 0x0000FFFFFFFFFFFF
		b = bigB.Uint64()
		return Float{a: a, b: b}, acc''', '''		hi, lo := split(mantissa)
		return Float{a: a | hi, b: lo}, acc'''), (B128, '''	var a, b uint64
''', '''	var a uint64
'''), (B128, '''// round returns x''', '''func split(m *big.Int) (hi, lo uint64) {
	q, r := new(big.Int).QuoRem(m, new(big.Int).Exp(big.NewInt(2), big.NewInt(64), nil), new(big.Int))
	return q.Uint64() & (1<<48 - 1), r.Uint64()
}

// round returns x'''))
ref('b128-bytes', (B128, '''		maskA := big.NewInt(0)
		for i := 64; i < 112; i++ {
			maskA.SetBit(maskA, i, 1)
		}
		maskB := big.NewInt(0)
		for i := 0; i < 64; i++ {
			maskB.SetBit(maskB, i, 1)
		}
		bigA := new(big.Int).And(mantissa, maskA) // a = (mantissa & maskA) >> 64
		bigA.Rsh(bigA, 64)
		bigB := new(big.Int).And(mantissa, maskB) // b = mantissa & maskB
		a |= bigA.Uint64() & 0x0000FFFFFFFFFFFF
		b = bigB.Uint64()
''', '''		for i := 0; i < 112; i++ {
			if mantissa.Bit(i) == 0 {
				continue
			}
			if i < 64 {
				b |= 1 << uint(i)
			} else {
				a |= 1 << uint(i-64)
			}
		}
'''))
ref('x87-neg-first', (X87, '''	if mant.Signbit() {
		mant.Neg(mant)
	}
	mant.SetMantExp(mant, precision)
''', '''	mant = new(big.Float).Abs(mant)
	mant.SetMantExp(mant, precision)
'''))
ref('x87-sign-shift', (X87, '''	return f.se&0x8000 != 0''', '''	return f.se>>15 == 1'''))
ref('x87-exp-order', (X87, '''	signbit := f.Signbit()
	exp := f.Exp()
	x = big.NewFloat(0)
	x.SetPrec(precision)
	x.SetMode(big.ToNearestEven)
''', '''	x = new(big.Float).SetMode(big.ToNearestEven).SetPrec(precision)
	exp, signbit := f.Exp(), f.Signbit()
'''))
ref('x87-builder', (X87, '''	s := fmt.Sprintf("%s0b%d.%063bp%d", sign, lead, frac, exponent)
''', '''	var sb strings.Builder
	sb.WriteString(sign)
	fmt.Fprintf(&sb, "0b%d.", lead)
	for i := 62; i >= 0; i-- {
		sb.WriteByte('0' + byte(frac>>uint(i)&1))
	}
	sb.WriteByte('p')
	sb.WriteString(strconv.Itoa(exponent))
	s := sb.String()
'''), (X87, '''	"math/big"
)''', '''	"math/big"
	"strconv"
	"strings"
)'''))
ref('x87-setint', (X87, '''	s := fmt.Sprintf("%s0b%d.%063bp%d", sign, lead, frac, exponent)
	if _, _, err := x.Parse(s, 0); err != nil {
		panic(err)
	}
	return x, false''', '''	_, _, _ = sign, lead, frac
	_ = fmt.Sprint
	x.SetUint64(f.m)
	x.SetMantExp(x, exponent-(precision-1))
	if signbit {
		x.Neg(x)
	}
	return x, false'''))
ref('bf-setstring', (BF, '''	if _, _, err := x.Parse(s, 0); err != nil {
		panic(err)
	}
	return x, false''', '''	if _, ok := x.SetString(s); !ok {
		panic("unable to parse " + s)
	}
	return x, false'''))
ref('bf-concat', (BF, '''	s := fmt.Sprintf("%s0b%d.%07bp%d", sign, lead, frac, exponent)
''', '''	digits := strconv.FormatUint(uint64(frac), 2)
	digits = strings.Repeat("0", precision-1-len(digits)) + digits
	s := sign + "0b" + strconv.Itoa(lead) + "." + digits + "p" + strconv.FormatInt(int64(exponent), 10)
'''), (BF, '''	"fmt"
	"math/big"
''', '''	"math/big"
	"strconv"
	"strings"
'''))
ref('bf-ldexp', (BF, '''	s := fmt.Sprintf("%s0b%d.%07bp%d", sign, lead, frac, exponent)
	if _, _, err := x.Parse(s, 0); err != nil {
		panic(err)
	}
	return x, false''', '''	_ = fmt.Sprint
	_ = sign
	v := math.Ldexp(float64(lead<<7|int(frac)), exponent-7)
	if signbit {
		v = math.Copysign(v, -1)
	}
	return x.SetFloat64(v), false'''), (BF, '''	"math/big"
''', '''	"math"
	"math/big"
'''))
ref('b16-nan-copysign', (B16, '''		if x.Signbit() {
			return -math.NaN(), big.Exact
		}
		return math.NaN(), big.Exact
	}
	return x.Float64()''', '''		if s := x.Signbit(); s {
			return math.Copysign(math.NaN(), -1), big.Exact
		} else {
			return math.NaN(), big.Exact
		}
	}
	v, acc := x.Float64()
	return v, acc'''))
ref('b16-float64-if', (B16, '''	// +-NaN
	switch {
	case math.IsNaN(x):
		if math.Signbit(x) {
			// -NaN
			return NegNaN, big.Exact
		}
		// +NaN
		return NaN, big.Exact
	}
	return NewFromBig(big.NewFloat(x))''', '''	if x == x {
		return NewFromBig(new(big.Float).SetFloat64(x))
	}
	nan := NaN
	if math.Float64bits(x)>>63 != 0 {
		nan = NegNaN
	}
	return nan, big.Exact'''))
ref('b16-float64-manual', (B16, '''	return x.Float64()''', '''	if x.IsInf() {
		return math.Inf(x.Sign()), big.Exact
	}
	return x.Float64()'''))
ref('b16-uint-loop', (B16, '''	mantissa, _ := mant.Uint64()
	mantissa &^= 0x400 // clear implicit lead bit; 2^10

	// mantissa mask (11 bits, including implicit lead bit): 0b11111111111
	mantissa &= 0x7FF
	bits |= uint16(mantissa)
''', '''	i, _ := mant.Int(nil)
	mantissa := i.Uint64()
	for k := uint(0); k < precision-1; k++ {
		bits |= uint16(mantissa & (1 << k))
	}
'''))
ref('b16-int64', (B16, '''	mantissa, _ := mant.Uint64()
	mantissa &^= 0x400 // clear implicit lead bit; 2^10
''', '''	signed, _ := mant.Int64()
	mantissa := uint64(signed) - 1<<10
'''))
ref('dd-low-zero', (DD, '''	low, acc := l.Float64()
''', '''	if l.Sign() == 0 {
		return Float{high: high}, big.Exact
	}
	low, acc := l.Float64()
'''))
ref('dd-high-acc', (DD, '''	low, acc := l.Float64()
''', '''	low, lowAcc := l.Float64()
	if acc = lowAcc; low == 0 && lowAcc == big.Exact {
		low = 0
	}
'''))
ref('dd-cmp-zero', (DD, '''	zero := big.NewFloat(0).SetPrec(precision)
	if x.Cmp(zero) == 0 && math.Signbit(f.high) {
		// -zero
		if !x.Signbit() {
			x.Neg(x)
		}
	}
''', '''	if neg := math.Float64bits(f.high)&(1<<63) != 0; neg && x.Sign() == 0 && !x.Signbit() {
		x.Neg(x)
	}
'''))
ref('dd-isnan-cases', (DD, '''	return math.IsNaN(f.high + f.low)''', '''	switch {
	case math.IsNaN(f.high), math.IsNaN(f.low):
		return true
	case math.IsInf(f.high, 1):
		return math.IsInf(f.low, -1)
	case math.IsInf(f.high, -1):
		return math.IsInf(f.low, 1)
	}
	return false'''))
ref('root-cmp', (RT, '''	_, acc := x.Float64()
	return acc == big.Exact''', '''	y, _ := x.Float64()
	return x.IsInf() || !math.IsInf(y, 0) && big.NewFloat(y).Cmp(x) == 0'''), (RT, '''	"math/big"
''', '''	"math"
	"math/big"
'''))
ref('root-32', (RT, '''	_, acc := x.Float32()
	return acc == big.Exact''', '''	switch _, acc := x.Float32(); acc {
	case big.Below, big.Above:
		return false
	}
	return true'''))
ref('ftoa-b-itoa', (FTOA, '''	exp -= int(flt.mantbits)
	if exp >= 0 {
		dst = append(dst, '+')
	}
	dst, _ = formatBits(dst, uint64(exp), 10, exp < 0, true)

	return dst
}

func min''', '''	e := exp - int(flt.mantbits)
	sign := byte('+')
	if e < 0 {
		sign, e = '-', -e
	}
	dst = append(dst, sign)
	return AppendUint(dst, uint64(e), 10)
}

func min'''))
ref('itoa-digits-copy', (ITOA, '''func FormatUint(i uint64, base int) string {''', '''func FormatUint(i uint64, base int) (s string) {
	defer func() { _ = s }()'''))

# ---- third batch: shared packages, records, closures, buffers
ROUND = '''func round(x *big.Float) *big.Float {
	y := new(big.Float)
	prec := precision
	// Denormalized values have less precision, the smaller they are.
	if exponent := x.MantExp(nil); exponent < 2-bias {
		prec += exponent - (2 - bias)
	}
	switch {
	case prec > 0:
		y.SetPrec(uint(prec)).SetMode(big.ToNearestEven).Set(x)
	case prec == 0 && x.MinPrec() > 1:
		// More than half of the smallest denormalized value.
		y.SetMantExp(big.NewFloat(1), 2-bias-precision)
		if x.Signbit() {
			y.Neg(y)
		}
	}
	return y
}
'''
CALL = '''func round(x *big.Float) *big.Float {
	return ieee.Round(x, precision, bias)
}
'''
IMP = '''	"github.com/mewmew/float/internal/ieee"
'''
SHARED = '''// Package ieee holds what the formats share.
package ieee

import "math/big"

// Round rounds x to a format.
func Round(x *big.Float, precision, bias int) *big.Float {
	emin := 2 - bias
	prec := precision
	if exponent := x.MantExp(nil); exponent < emin {
		prec -= emin - exponent
	}
	y := new(big.Float)
	if prec > 0 {
		return y.SetPrec(uint(prec)).SetMode(big.ToNearestEven).Set(x)
	}
	if prec < 0 || x.MinPrec() <= 1 {
		return y
	}
	y.SetMantExp(big.NewFloat(1), emin-precision)
	if x.Sign() < 0 {
		y.Neg(y)
	}
	return y
}
'''
def imp(f): return (f, '''	"math/big"
)''', '''	"math/big"

''' + IMP + ''')''')
ref('shared-round', ('internal/ieee/ieee.go', '', SHARED), (B16, ROUND, CALL), (B128, ROUND, CALL), (X87, ROUND, CALL), imp(B16), imp(B128), imp(X87))
KIND = '''// Kind is the kind of a number.
type Kind int

// The kinds.
const (
	Finite Kind = iota
	Zero
	Inf
)

// Classify returns the kind of x and whether it is negative.
func Classify(x *big.Float) (Kind, bool) {
	neg := x.Signbit()
	if x.IsInf() {
		return Inf, neg
	}
	if x.Sign() == 0 {
		return Zero, neg
	}
	return Finite, neg
}
'''
def special(f, zero, cm=('', '', '', '')):
    return (f, '''	// +-Inf
	zero := big.NewFloat(0)%s
	switch {
	case x.IsInf():
		if x.Signbit() {
			// -Inf
			return NegInf, big.Exact
		}
		// +Inf
		return Inf, big.Exact
	// +-zero
	case x.Cmp(zero) == 0:
		if x.Signbit() {
			// -zero
			return NegZero, big.Exact
		}
		// +zero
		return Zero, big.Exact
	}
''' % zero, '''	kind, neg := ieee.Classify(x)
	switch kind {
	case ieee.Inf:
		return infinity[neg], big.Exact
	case ieee.Zero:
		return zeros[neg], big.Exact
	}
''')
MAPS = ('''// Bits returns the IEEE''', '''var (
	infinity = map[bool]Float{true: NegInf, false: Inf}
	zeros    = map[bool]Float{true: NegZero, false: Zero}
)

// Bits returns the IEEE''')
ref('shared-classify', ('internal/ieee/ieee.go', '', SHARED + KIND), special(B16, ''), special(B128, '.SetPrec(precision)'), imp(B16), imp(B128), (B16,) + MAPS, (B128,) + MAPS)
ref('shared-text', ('internal/ieee/text.go', '', '''package ieee

import (
	"fmt"
	"math/big"
)

// Parse sets x to the binary number with the sign, lead bit, fraction digits and exponent.
func Parse(x *big.Float, neg bool, lead int, frac string, exponent int) *big.Float {
	format := "0b%d.%sp%d"
	if neg {
		format = "-" + format
	}
	if _, _, err := x.Parse(fmt.Sprintf(format, lead, frac, exponent), 0); err != nil {
		panic(err)
	}
	return x
}
'''), (B16, '''	sign := "+"
	if signbit {
		sign = "-"
	}
	s := fmt.Sprintf("%s0b%d.%010bp%d", sign, lead, frac, exponent)
	if _, _, err := x.Parse(s, 0); err != nil {
		panic(err)
	}
	return x, false''', '''	return ieee.Parse(x, signbit, lead, fmt.Sprintf("%010b", frac), exponent), false'''), imp(B16),
(X87, '''	sign := "+"
	if signbit {
		sign = "-"
	}
	lead := f.Lead()
	frac := f.Frac()
	s := fmt.Sprintf("%s0b%d.%063bp%d", sign, lead, frac, exponent)
	if _, _, err := x.Parse(s, 0); err != nil {
		panic(err)
	}
	return x, false''', '''	return ieee.Parse(x, signbit, f.Lead(), fmt.Sprintf("%063b", f.Frac()), exponent), false'''), imp(X87),
(B128, '''	sign := "+"
	if signbit {
		sign = "-"
	}
	// first part cut the sign and exponent which only contains 48 bits
	fracStr := fmt.Sprintf("%048b%064b", frac1, frac2)
	s := fmt.Sprintf("%s0b%d.%sp%d", sign, lead, fracStr, exponent)
	if _, _, err := x.Parse(s, 0); err != nil {
		panic(err)
	}
	return x, false''', '''	return ieee.Parse(x, signbit, lead, fmt.Sprintf("%048b%064b", frac1, frac2), exponent), false'''), imp(B128))
ref('b16-parts-record', (B16, '''	// exponent mask (5 bits): 0b11111
	bits |= uint16(exp&0x1F) << 10

	if mant.Signbit() {
		mant.Neg(mant)
	}
	mant.SetMantExp(mant, precision)
	mantissa, _ := mant.Uint64()
	mantissa &^= 0x400 // clear implicit lead bit; 2^10

	// mantissa mask (11 bits, including implicit lead bit): 0b11111111111
	mantissa &= 0x7FF
	bits |= uint16(mantissa)
	return Float{bits: bits}, acc
}
''', '''	p := parts{neg: bits != 0, exp: uint(exp)}
	mant.Abs(mant)
	mantissa, _ := mant.SetMantExp(mant, precision).Uint64()
	p.frac = uint(mantissa) - 1<<(precision-1)
	return p.pack(), acc
}

type parts struct {
	neg  bool
	exp  uint
	frac uint
}

func (p *parts) pack() (f Float) {
	f.bits = uint16(p.frac)
	f.bits += uint16(p.exp * 1024)
	if p.neg {
		f.bits += 1 << 15
	}
	return
}
'''))
ref('b16-unpack-record', (B16, '''	signbit := f.Signbit()
	exp := f.Exp()
	frac := f.Frac()
	x = big''', '''	p := f.unpack()
	signbit, exp, frac := p.neg, p.exp, p.frac
	x = big'''), (B16, '''// Signbit reports''', '''type fields struct {
	neg  bool
	exp  int
	frac uint16
}

func (f Float) unpack() fields {
	return fields{
		frac: f.bits % 1024,
		exp:  int(f.bits/1024) % 32,
		neg:  f.bits >= 1<<15,
	}
}

// Signbit reports'''))
ref('b16-closures', (B16, '''	// +-Inf
	zero := big.NewFloat(0)
	switch {
	case x.IsInf():
		if x.Signbit() {
			// -Inf
			return NegInf, big.Exact
		}
		// +Inf
		return Inf, big.Exact
	// +-zero
	case x.Cmp(zero) == 0:
		if x.Signbit() {
			// -zero
			return NegZero, big.Exact
		}
		// +zero
		return Zero, big.Exact
	}
''', '''	signed := func(pos, neg Float) Float {
		if x.Signbit() {
			return neg
		}
		return pos
	}
	if x.IsInf() {
		return signed(Inf, NegInf), big.Exact
	}
	if x.Sign() == 0 {
		return signed(Zero, NegZero), big.Exact
	}
'''), (B16, '''		if x.Signbit() {
			return NegInf, big.Below
		}
		return Inf, big.Above
	}
	if y.Sign() == 0 {
		// Underflow.
		if x.Signbit() {
			return NegZero, acc
		}
		return Zero, acc
	}''', '''		return signed(Inf, NegInf), acc
	}
	if y.Sign() == 0 {
		// Underflow.
		return signed(Zero, NegZero), acc
	}'''), (B16, '''	if y.IsInf() || exponent > bias+1 {
''', '''	if y.IsInf() || exponent > bias+1 {
		acc = big.Above
		if x.Signbit() {
			acc = big.Below
		}
'''))
ref('b16-buffer', (B16, '''	sign := "+"
	if signbit {
		sign = "-"
	}
	s := fmt.Sprintf("%s0b%d.%010bp%d", sign, lead, frac, exponent)
	if _, _, err := x.Parse(s, 0); err != nil {
		panic(err)
	}
	return x, false''', '''	var buf bytes.Buffer
	if signbit {
		buf.WriteByte('-')
	}
	fmt.Fprintf(&buf, "0b%d.", lead)
	fmt.Fprintf(&buf, "%010b", frac)
	buf.WriteString("p")
	buf.WriteString(strconv.Itoa(exponent))
	if _, _, err := x.Parse(buf.String(), 0); err != nil {
		panic(err)
	}
	return x, false'''), (B16, '''import (
''', '''import (
	"bytes"
	"strconv"
'''))
ref('b16-digit-loop', (B16, '''	s := fmt.Sprintf("%s0b%d.%010bp%d", sign, lead, frac, exponent)
''', '''	digits := make([]byte, 0, 10)
	for i := 9; i >= 0; i-- {
		digits = append(digits, '0'+byte(frac>>uint(i)&1))
	}
	s := sign + "0b" + strconv.Itoa(lead) + "." + string(digits) + "p" + strconv.Itoa(exponent)
'''), (B16, '''	"fmt"
''', '''	"strconv"
'''))
ref('b128-digit-array', (B128, '''	fracStr := fmt.Sprintf("%048b%064b", frac1, frac2)
''', '''	var digits [112]byte
	for i := range digits {
		w, k := frac1, uint(47-i)
		if i >= 48 {
			w, k = frac2, uint(111-i)
		}
		if w&(1<<k) == 0 {
			digits[i] = '0'
		} else {
			digits[i] = '1'
		}
	}
	fracStr := string(digits[:])
'''))
ref('b128-fillbytes', (B128, '''	// mantissa mask (113 bits, including implicit lead bit): 0x1FFFFFFFFFFFFFFFFFFFFFFFFFFFF
	maskA := big.NewInt(0)
	for i := 64; i < 112; i++ {
		maskA.SetBit(maskA, i, 1)
	}
	maskB := big.NewInt(0)
	for i := 0; i < 64; i++ {
		maskB.SetBit(maskB, i, 1)
	}
	bigA := new(big.Int).And(mantissa, maskA) // a = (mantissa & maskA) >> 64
	bigA.Rsh(bigA, 64)
	bigB := new(big.Int).And(mantissa, maskB) // b = mantissa & maskB
	a |= bigA.Uint64() & 0x0000FFFFFFFFFFFF
	b = bigB.Uint64()
	return Float{a: a, b: b}, acc
''', '''	var buf [16]byte
	mantissa.FillBytes(buf[:])
	a |= binary.BigEndian.Uint64(buf[:8])
	b = binary.BigEndian.Uint64(buf[8:])
	return Float{a: a, b: b}, acc
'''), (B128, '''	"fmt"
''', '''	"encoding/binary"
	"fmt"
'''))
ref('x87-interface', (X87, '''	sign := "+"
	if signbit {
		sign = "-"
	}
	lead := f.Lead()
	frac := f.Frac()
	s := fmt.Sprintf("%s0b%d.%063bp%d", sign, lead, frac, exponent)
''', '''	s := text(number{f, exponent})
'''), (X87, '''// Signbit reports''', '''type number struct {
	Float
	exponent int
}

func (n number) String() string {
	sign := "+"
	if n.Signbit() {
		sign = "-"
	}
	return fmt.Sprintf("%s0b%d.%063bp%d", sign, n.Lead(), n.Frac(), n.exponent)
}

func text(s fmt.Stringer) string { return s.String() }

// Signbit reports'''))
ref('x87-big-mul', (X87, '''	sign := "+"
	if signbit {
		sign = "-"
	}
	lead := f.Lead()
	frac := f.Frac()
	s := fmt.Sprintf("%s0b%d.%063bp%d", sign, lead, frac, exponent)
	if _, _, err := x.Parse(s, 0); err != nil {
		panic(err)
	}
	return x, false''', '''	x.SetUint64(f.m)
	x.SetMantExp(x, exponent-63)
	if signbit {
		x.Neg(x)
	}
	return x, false'''), (X87, '''	"fmt"
''', ''''''))
ref('x87-switch-round', (X87, '''	switch {
	case prec > 0:
		y.SetPrec(uint(prec)).SetMode(big.ToNearestEven).Set(x)
	case prec == 0 && x.MinPrec() > 1:
		// More than half of the smallest denormalized value.
		y.SetMantExp(big.NewFloat(1), 2-bias-precision)
		if x.Signbit() {
			y.Neg(y)
		}
	}
	return y''', '''	if prec == 0 {
		half := new(big.Float).SetMantExp(big.NewFloat(1), 1-bias-precision)
		if new(big.Float).Abs(x).Cmp(half) <= 0 {
			return y
		}
		y.SetInt64(int64(x.Sign()))
		return y.SetMantExp(y, 2-bias-precision)
	}
	if prec > 0 {
		y.SetPrec(uint(prec))
		y.Set(x)
	}
	return y'''))
ref('b16-nan-table', (B16, '''		if math.Signbit(x) {
			// -NaN
			return NegNaN, big.Exact
		}
		// +NaN
		return NaN, big.Exact
	}
	return New''', '''		return [...]Float{NaN, NegNaN}[math.Float64bits(x)>>63], big.Exact
	}
	return New'''))
ref('b16-defer-neg', (B16, '''	sign := "+"
	if signbit {
		sign = "-"
	}
	s := fmt.Sprintf("%s0b%d.%010bp%d", sign, lead, frac, exponent)
''', '''	if signbit {
		defer func() { x.Neg(x) }()
	}
	s := fmt.Sprintf("0b%d.%010bp%d", lead, frac, exponent)
'''))
ref('dd-parts-slice', (DD, '''	h := big.NewFloat(high)
''', '''	h := new(big.Float).SetFloat64(high)
'''))
ref('itoa-recursion', (ITOA, '''		// general case
		b := uint64(base)
		for u >= b {
			i--
			// Avoid using r = a%b in addition to q = a/b
			// since 64bit division and modulo operations
			// are calculated by runtime functions on 32bit machines.
			q := u / b
			a[i] = digits[uint(u-q*b)]
			u = q
		}
		// u < base
		i--
		a[i] = digits[uint(u)]
''', '''		i = general(&a, i, u, uint64(base))
'''), (ITOA, '''func isPowerOfTwo''', '''func general(a *[65]byte, i int, u, b uint64) int {
	i--
	if u < b {
		a[i] = digits[u]
		return i
	}
	a[i] = digits[u%b]
	return general(a, i, u/b, b)
}

func isPowerOfTwo'''))
ref('x87-int-round', (X87, '''func NewFromBig(x *big.Float) (Float, big.Accuracy) {
	// +-Inf
	zero := big.NewFloat(0)
	switch {
	case x.IsInf():
		if x.Signbit() {
			// -Inf
			//    sign: 1
			//    exp:  all ones
			//    mant: 10 zero
			return NegInf, big.Exact
		}
		// +Inf
		//    sign: 0
		//    exp:  all ones
		//    mant: 10 zero
		return Inf, big.Exact
	// +-zero
	case x.Cmp(zero) == 0:
		if x.Signbit() {
			// -zero
			//    sign: 1
			//    exp:  zero
			//    mant: zero
			return NegZero, big.Exact
		}
		// +zero
		//    sign: 0
		//    exp:  zero
		//    mant: zero
		return Zero, big.Exact
	}

	// Sign
	var se uint16
	if x.Signbit() {
		se |= 0x8000
	}

	// Round before taking the number apart, exponent and mantissa are then exact.
	y := round(x)
	acc := big.Accuracy(y.Cmp(x))

	// Exponent and mantissa.
	var m uint64
	mant := &big.Float{}
	exponent := y.MantExp(mant)
	if y.IsInf() || exponent > bias+1 {
		// Overflow.
		if x.Signbit() {
			return NegInf, big.Below
		}
		return Inf, big.Above
	}
	if y.Sign() == 0 {
		// Underflow.
		if x.Signbit() {
			return NegZero, acc
		}
		return Zero, acc
	}
	// TODO: verify, as float80x86 also has an explicit lead bit.
	// Remove 1 from the exponent as big.Float has an no lead bit.
	exp := exponent - 1 + bias

	// Handle denormalized values.
	if exp <= 0 {
		mant.SetMantExp(mant, exp+precision-1)
		if mant.Signbit() {
			mant.Neg(mant)
		}
		v, _ := mant.Uint64()
		m |= v & 0x7FFFFFFFFFFFFFFF
		return Float{se: se, m: m}, acc
	}

	// 0b111111111111111
	se |= uint16(exp & 0x7FFF)

	if mant.Signbit() {
		mant.Neg(mant)
	}
	mant.SetMantExp(mant, precision)
	// mantissa, including explicit lead bit
	mantissa, _ := mant.Uint64()
	m |= mantissa
	return Float{se: se, m: m}, acc
}
''', '''func NewFromBig(x *big.Float) (Float, big.Accuracy) {
	var se uint16
	if x.Signbit() {
		se = 0x8000
	}
	switch {
	case x.IsInf():
		return Float{se: se | 0x7FFF, m: 1 << 63}, big.Exact
	case x.Sign() == 0:
		return Float{se: se}, big.Exact
	}
	away, toward := big.Above, big.Below
	if x.Signbit() {
		away, toward = toward, away
	}
	mant := new(big.Float)
	exponent := x.MantExp(mant)
	mant.Abs(mant)
	if exponent > bias+1 {
		return Float{se: se | 0x7FFF, m: 1 << 63}, away
	}
	width := precision
	if exponent < 2-bias {
		width -= 2 - bias - exponent
	}
	if width < 0 {
		return Float{se: se}, toward
	}
	mant.SetMantExp(mant, width+1)
	z, acc := mant.Int(nil)
	sticky := acc != big.Exact
	half := z.Bit(0) == 1
	z.Rsh(z, 1)
	if half && (sticky || z.Bit(0) == 1) {
		z.Add(z, big.NewInt(1))
		acc = away
	} else if half || sticky {
		acc = toward
	}
	if z.BitLen() > precision {
		z.Rsh(z, 1)
		exponent++
	}
	m := z.Uint64()
	exp := exponent - 1 + bias
	if exp <= 0 {
		exp = int(m >> 63)
	}
	if exp >= 0x7FFF {
		return Float{se: se | 0x7FFF, m: 1 << 63}, away
	}
	return Float{se: se | uint16(exp), m: m}, acc
}
'''), (X87, '''func round(x *big.Float) *big.Float {
	y := new(big.Float)
	prec := precision
	// Denormalized values have less precision, the smaller they are.
	if exponent := x.MantExp(nil); exponent < 2-bias {
		prec += exponent - (2 - bias)
	}
	switch {
	case prec > 0:
		y.SetPrec(uint(prec)).SetMode(big.ToNearestEven).Set(x)
	case prec == 0 && x.MinPrec() > 1:
		// More than half of the smallest denormalized value.
		y.SetMantExp(big.NewFloat(1), 2-bias-precision)
		if x.Signbit() {
			y.Neg(y)
		}
	}
	return y
}
''', ''''''))
ref('b16-search', (B16, '''func NewFromBig(x *big.Float) (Float, big.Accuracy) {
	// +-Inf
	zero := big.NewFloat(0)
	switch {
	case x.IsInf():
		if x.Signbit() {
			// -Inf
			return NegInf, big.Exact
		}
		// +Inf
		return Inf, big.Exact
	// +-zero
	case x.Cmp(zero) == 0:
		if x.Signbit() {
			// -zero
			return NegZero, big.Exact
		}
		// +zero
		return Zero, big.Exact
	}

	// Sign
	var bits uint16
	if x.Signbit() {
		bits |= 0x8000
	}

	// Round before taking the number apart, exponent and mantissa are then exact.
	y := round(x)
	acc := big.Accuracy(y.Cmp(x))

	// Exponent and mantissa.
	mant := new(big.Float)
	exponent := y.MantExp(mant)
	if y.IsInf() || exponent > bias+1 {
		// Overflow.
		if x.Signbit() {
			return NegInf, big.Below
		}
		return Inf, big.Above
	}
	if y.Sign() == 0 {
		// Underflow.
		if x.Signbit() {
			return NegZero, acc
		}
		return Zero, acc
	}
	// Remove 1 from the exponent as big.Float has an no lead bit.
	exp := exponent - 1 + bias

	// Handle denormalized values.
	if exp <= 0 {
		mant.SetMantExp(mant, exp+precision-1)
		if mant.Signbit() {
			mant.Neg(mant)
		}
		mantissa, _ := mant.Uint64()
		bits |= uint16(mantissa & 0x7FF)
		return Float{bits: bits}, acc
	}

	// exponent mask (5 bits): 0b11111
	bits |= uint16(exp&0x1F) << 10

	if mant.Signbit() {
		mant.Neg(mant)
	}
	mant.SetMantExp(mant, precision)
	mantissa, _ := mant.Uint64()
	mantissa &^= 0x400 // clear implicit lead bit; 2^10

	// mantissa mask (11 bits, including implicit lead bit): 0b11111111111
	mantissa &= 0x7FF
	bits |= uint16(mantissa)
	return Float{bits: bits}, acc
}
''', '''func NewFromBig(x *big.Float) (Float, big.Accuracy) {
	abs := new(big.Float).Abs(x)
	// lo is the largest number not above abs.
	lo, hi := uint16(0), uint16(0x7C00)
	if x.IsInf() {
		lo = hi
	}
	for hi-lo > 1 {
		mid := lo + (hi-lo)/2
		if v, _ := NewFromBits(mid).Big(); v.Cmp(abs) <= 0 {
			lo = mid
		} else {
			hi = mid
		}
	}
	v, _ := NewFromBits(lo).Big()
	c := big.Accuracy(v.Cmp(abs))
	if c != 0 {
		// v < abs < v + ulp
		w := new(big.Float).SetInt64(1 << 16)
		if hi < 0x7C00 {
			w, _ = NewFromBits(hi).Big()
		}
		mid := new(big.Float).SetPrec(64).Add(v, w)
		mid.Quo(mid, big.NewFloat(2))
		if d := abs.Cmp(mid); d > 0 || d == 0 && lo&1 == 1 {
			lo, c = hi, big.Above
		}
	}
	if x.Signbit() {
		return Float{bits: lo | 0x8000}, -c
	}
	return Float{bits: lo}, c
}
'''), (B16, '''func round(x *big.Float) *big.Float {
	y := new(big.Float)
	prec := precision
	// Denormalized values have less precision, the smaller they are.
	if exponent := x.MantExp(nil); exponent < 2-bias {
		prec += exponent - (2 - bias)
	}
	switch {
	case prec > 0:
		y.SetPrec(uint(prec)).SetMode(big.ToNearestEven).Set(x)
	case prec == 0 && x.MinPrec() > 1:
		// More than half of the smallest denormalized value.
		y.SetMantExp(big.NewFloat(1), 2-bias-precision)
		if x.Signbit() {
			y.Neg(y)
		}
	}
	return y
}
''', ''''''))
ref('b128-recover', (B128, '''func (f Float) Big() (x *big.Float, nan bool) {
	signbit := f.Signbit()
	exp := f.Exp()
	frac1, frac2 := f.Frac()
	x = big.NewFloat(0)
	x.SetPrec(precision)
	x.SetMode(big.ToNearestEven)

	lead := 1
	exponent := exp - bias

	switch exp {
	// 0b111111111111111
	case 0x7FFF:
		// Inf or NaN
		if frac1 == 0 && frac2 == 0 {
			// +-Inf
			x.SetInf(signbit)
			return x, false
		}
		// +-NaN
		if signbit {
			x.Neg(x)
		}
		return x, true
	// 0b000000000000000
	case 0x0000:
		if frac1 == 0 && frac2 == 0 {
			// +-Zero
			if signbit {
				x.Neg(x)
			}
			return x, false
		}
		// Denormalized number.
		//
		//    (-1)^signbit * 2^(-16382) * 0.mant_2
		lead = 0
		exponent = -16382
	}

	// number = [ sign ] [ prefix ] mantissa [ exponent ] | infinity .
	sign := "+"
	if signbit {
		sign = "-"
	}
	// first part cut the sign and exponent which only contains 48 bits
	fracStr := fmt.Sprintf("%048b%064b", frac1, frac2)
	s := fmt.Sprintf("%s0b%d.%sp%d", sign, lead, fracStr, exponent)
	if _, _, err := x.Parse(s, 0); err != nil {
		panic(err)
	}
	return x, false
}
''', '''func (f Float) Big() (x *big.Float, nan bool) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case special:
			x, nan = e.x, e.nan
		default:
			panic(e)
		}
	}()
	return f.decode(), false
}

// special is thrown for zeros, infinities and NaNs.
type special struct {
	x   *big.Float
	nan bool
}

func (f Float) decode() *big.Float {
	frac1, frac2 := f.Frac()
	x := new(big.Float).SetPrec(precision).SetMode(big.ToNearestEven)
	lead, exponent := uint64(1)<<48, f.Exp()-bias
	switch f.Exp() {
	case 0x7FFF:
		if frac1|frac2 == 0 {
			panic(special{x.SetInf(f.Signbit()), false})
		}
		if f.Signbit() {
			x.Neg(x)
		}
		panic(special{x, true})
	case 0:
		lead, exponent = 0, 1-bias
	}
	z := new(big.Int).SetUint64(lead | frac1)
	z.Lsh(z, 64).Or(z, new(big.Int).SetUint64(frac2))
	x.SetInt(z)
	if f.Signbit() {
		x.Neg(x)
	}
	return x.SetMantExp(x, exponent-112)
}
'''), (B128, '''	"fmt"
''', ''''''))
ref('b16-goto', (B16, '''func (f Float) Big() (x *big.Float, nan bool) {
	signbit := f.Signbit()
	exp := f.Exp()
	frac := f.Frac()
	x = big.NewFloat(0)
	x.SetPrec(precision)
	x.SetMode(big.ToNearestEven)

	// ref: https://en.wikipedia.org/wiki/Half-precision_floating-point_format#Exponent_encoding
	//
	// 0b00001 - 0b11110
	// Normalized number.
	//
	//    (-1)^signbit * 2^(exp-15) * 1.mant_2
	lead := 1
	exponent := exp - bias

	switch exp {
	// 0b11111
	case 0x1F:
		// Inf or NaN
		if frac == 0 {
			// +-Inf
			x.SetInf(signbit)
			return x, false
		}
		// +-NaN
		if signbit {
			x.Neg(x)
		}
		return x, true
	// 0b00000
	case 0x00:
		if frac == 0 {
			// +-Zero
			if signbit {
				x.Neg(x)
			}
			return x, false
		}
		// Denormalized number.
		//
		//    (-1)^signbit * 2^(-14) * 0.mant_2
		lead = 0
		exponent = -14
	}

	// number = [ sign ] [ prefix ] mantissa [ exponent ] | infinity .
	sign := "+"
	if signbit {
		sign = "-"
	}
	s := fmt.Sprintf("%s0b%d.%010bp%d", sign, lead, frac, exponent)
	if _, _, err := x.Parse(s, 0); err != nil {
		panic(err)
	}
	return x, false
}
''', '''func (f Float) Big() (x *big.Float, nan bool) {
	var m, e int
	x = new(big.Float).SetPrec(precision)
	e, m = int(f.bits>>10&0x1F), int(f.bits&0x3FF)
	if e == 0x1F {
		goto special
	}
	if e == 0 {
		e = 1
		goto finite
	}
	m += 1 << 10
finite:
	x.SetInt64(int64(m))
	x.SetMantExp(x, e-25)
sign:
	if f.bits>>15 != 0 {
		x.Neg(x)
	}
	return x, nan
special:
	if nan = m != 0; nan {
		goto sign
	}
	x.SetInf(false)
	goto sign
}
'''), (B16, '''	"fmt"
''', ''''''))
ref('x87-parsefloat', (X87, '''func (f Float) Big() (x *big.Float, nan bool) {
	signbit := f.Signbit()
	exp := f.Exp()
	x = big.NewFloat(0)
	x.SetPrec(precision)
	x.SetMode(big.ToNearestEven)

	// ref: https://en.wikipedia.org/wiki/Extended_precision#x86_extended_precision_format
	//
	// 0b000000000000001 - 0b111111111111110
	// Normalized number.
	//
	//    (-1)^signbit * 2^(exp-16383) * 1.mant_2
	exponent := exp - bias

	switch exp {
	// 0b111111111111111
	case 0x7FFF:
		// Inf or NaN
		if f.m == 0x8000000000000000 {
			// +-Inf
			//    10 zero
			x.SetInf(signbit)
			return x, false
		}
		// +-NaN
		//    10 non-zero
		if signbit {
			x.Neg(x)
		}
		return x, true
	// 0b000000000000000
	case 0x0000:
		if f.m == 0 {
			// +-Zero
			if signbit {
				x.Neg(x)
			}
			return x, false
		}
		// Denormalized number.
		//
		//    (-1)^signbit * 2^(-16382) * 0.mant_2
		exponent = -16382
	}

	// number = [ sign ] [ prefix ] mantissa [ exponent ] | infinity .
	sign := "+"
	if signbit {
		sign = "-"
	}
	lead := f.Lead()
	frac := f.Frac()
	s := fmt.Sprintf("%s0b%d.%063bp%d", sign, lead, frac, exponent)
	if _, _, err := x.Parse(s, 0); err != nil {
		panic(err)
	}
	return x, false
}
''', '''func (f Float) Big() (x *big.Float, nan bool) {
	x = new(big.Float).SetPrec(precision)
	exp := f.Exp()
	switch exp {
	case 0x7FFF:
		if f.m == 1<<63 {
			return x.SetInf(f.Signbit()), false
		}
		if f.Signbit() {
			x.Neg(x)
		}
		return x, true
	case 0:
		exp = 1
	}
	var s []byte
	if f.Signbit() {
		s = append(s, '-')
	}
	s = append(s, "0x"...)
	s = strconv.AppendUint(s, f.m, 16)
	s = append(s, 'p')
	s = strconv.AppendInt(s, int64(exp-bias-63), 10)
	x, _, err := big.ParseFloat(string(s), 0, precision, big.ToNearestEven)
	if err != nil {
		panic(err)
	}
	return x, false
}
'''), (X87, '''	"fmt"
''', '''	"strconv"
'''))

# other operators for the same bits
ref('b128-operators',
  (B128, 'if frac1 == 0 && frac2 == 0 {', 'if frac1|frac2 == 0 {'),
  (B128, 'return f.a&0x8000000000000000 != 0', 'return int64(f.a) < 0'),
  (B128, 'return int(f.a & 0x7FFF000000000000 >> 48)', 'return int(f.a << 1 >> 49)'),
  (B128, 'return (f.a & 0x0000FFFFFFFFFFFF), f.b', 'return f.a % (1 << 48), f.b'),
  (B128, 'a |= uint64(exp&0x7FFF) << 48', 'a += uint64(exp) << 48'))
ref('b16-operators',
  (B16, 'return f.bits&0x8000 != 0', 'return f.bits >= 1<<15'),
  (B16, 'return int(f.bits & 0x7C00 >> 10)', 'return int(f.bits) / 1024 % 32'),
  (B16, 'return f.bits & 0x03FF', 'return f.bits << 6 >> 6'),
  (B16, 'bits |= uint16(exp&0x1F) << 10', 'bits += uint16(exp) << 10'),
  (B16, 'case 0x1F:', 'case 1<<5 - 1:'))
ref('x87-operators',
  (X87, 'return f.se&0x8000 != 0', 'return f.se>>15 == 1'),
  (X87, 'return int(f.se & 0x7FFF)', 'return int(f.se &^ (1 << 15))'),
  (X87, 'return int(f.m >> 63)', 'if int64(f.m) < 0 {\n\t\treturn 1\n\t}\n\treturn 0'),
  (X87, 'return f.m & 0x7FFFFFFFFFFFFFFF', 'return f.m &^ (1 << 63)'),
  (X87, 'if f.m == 0x8000000000000000 {', 'if f.m<<1 == 0 && f.m>>63 == 1 {'),
  (X87, 'se |= uint16(exp & 0x7FFF)', 'se += uint16(exp)'))
ref('b16-carry', (B16, '''	bits |= uint16(exp&0x1F) << 10

	if mant''', '''	// the lead bit adds one to it
	bits += uint16(exp-1) << 10

	if mant'''), (B16, '''	mantissa &^= 0x400 // clear implicit lead bit; 2^10

	// mantissa mask (11 bits, including implicit lead bit): 0b11111111111
	mantissa &= 0x7FF
	bits |= uint16(mantissa)
''', '''	bits += uint16(mantissa)
'''))
ref('b128-zero-helper', (B128, 'if frac1 == 0 && frac2 == 0 {', 'if isZero(frac1, frac2) {'), (B128, 'if frac1 == 0 && frac2 == 0 {', 'if isZero(frac1, frac2) {') if False else (B128, '// Exp returns the exponent of f.', '''// isZero reports whether all words are zero.
func isZero(words ...uint64) bool {
	var all uint64
	for _, w := range words {
		all |= w
	}
	return all == 0
}

// Exp returns the exponent of f.'''))
ref('b128-abs-zero', (B128, 'if frac1 == 0 && frac2 == 0 {', 'if f.a<<16|f.b == 0 {'))
