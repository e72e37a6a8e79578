"""The planted bugs. edits: (file, old, new)."""
HEAD = '''package %s

import (
%s
)

'''
def test(pkg, imports, body, helpers=''):
    return HEAD % (pkg, '\n'.join('\t"%s"' % i for i in imports.split() + ['testing'])) + helpers + 'func TestZZDemo(t *testing.T) {\n' + body + '\n}\n'

seeds = []
def seed(**k): seeds.append(k)

seed(id='half-infinity-fraction', prop='C01', pkg='binary16',
  edits=[('binary16/binary16.go', '''		// Inf or NaN
		if frac == 0 {''', '''		// Inf or NaN
		if frac&0x3FE == 0 {''')],
  needs='the bit pattern of a NaN whose only fraction bit is the lowest (0x7C01 or 0xFC01)',
  breaks='such a NaN is decoded as an infinity',
  demo=test('binary16', '', '''	for _, b := range []uint16{0x7C01, 0xFC01, 0x7C02, 0x7E00} {
		if _, nan := NewFromBits(b).Big(); !nan {
			t.Errorf("%#04x is not NaN", b)
		}
	}'''))

seed(id='bfloat-subnormal-exponent', prop='C02', pkg='bfloat',
  edits=[('bfloat/bfloat.go', 'exponent = -126', 'exponent = exp - bias')],
  needs='a subnormal bfloat16',
  breaks='subnormal values are half of what they should be',
  demo=test('bfloat', 'math/big', '''	x, nan := NewFromBits(1).Big()
	want := new(big.Float).SetMantExp(big.NewFloat(1), -133)
	if nan || x.Cmp(want) != 0 {
		t.Errorf("got %v, want %v", x, want)
	}'''))

seed(id='x87-pseudo-infinity', prop='C04', pkg='float80x86',
  edits=[('float80x86/float80x86.go', 'if f.m == 0x8000000000000000 {', 'if f.Frac() == 0 {')],
  needs='all-ones exponent with a zero mantissa (the lead bit clear too)',
  breaks='a pseudo-infinity is decoded as an infinity and no longer as NaN',
  demo=test('float80x86', '', '''	if _, nan := NewFromBits(0x7FFF, 0).Big(); !nan {
		t.Errorf("7FFF:0 is not NaN")
	}'''))

seed(id='ppc-negative-zero-test', prop='C05', pkg='float128ppc',
  edits=[('float128ppc/float128ppc.go', 'if x.Cmp(zero) == 0 && math.Signbit(f.high) {', 'if x.Cmp(zero) == 0 && math.Signbit(f.low) {')],
  needs='a zero whose two doubles have different signs',
  breaks='the sign of zero follows the low double',
  demo=test('float128ppc', '', '''	x, _ := NewFromBits(1<<63, 0).Big()
	if !x.Signbit() {
		t.Errorf("-0 + 0 gives +0")
	}'''))

seed(id='quad-subnormal-mask', prop='C07', pkg='binary128', also=['C14'], count=1,
  edits=[('binary128/binary128.go', '''		maskA := big.NewInt(0)
		for i := 64; i < 112; i++ {''', '''		maskA := big.NewInt(0)
		for i := 64; i < 111; i++ {''')],
  needs='a subnormal result whose highest fraction bit is set',
  breaks='that bit is lost',
  demo=test('binary128', 'math/big', '''	x := new(big.Float).SetMantExp(big.NewFloat(1), -16383)
	f, acc := NewFromBig(x)
	if a, b := f.Bits(); a != 0x0000800000000000 || b != 0 || acc != big.Exact {
		t.Errorf("got %016x %016x %v", a, b, acc)
	}'''))

seed(id='x87-subnormal-shift', prop='C08', pkg='float80x86',
  edits=[('float80x86/float80x86.go', '''	if exp <= 0 {''', '''	if exp < 0 {''')],
  needs='a value in the topmost subnormal binade (2^-16383 up to 2^-16382)',
  breaks='the value is encoded with its lead bit set under exponent 0, which is twice the value',
  demo=test('float80x86', 'math/big', '''	x := new(big.Float).SetMantExp(big.NewFloat(1), -16383)
	f, _ := NewFromBig(x)
	if se, m := f.Bits(); se != 0 || m != 1<<62 {
		t.Errorf("got %04x %016x", se, m)
	}'''))

seed(id='ppc-low-from-rounded', prop='C09', pkg='float128ppc',
  edits=[('float128ppc/float128ppc.go', '''	l.Sub(x, h)''', '''	l.SetPrec(53).Sub(x, h)
	if l.MinPrec() < 53 {
		l.SetMode(big.ToZero).Sub(x, h)
	}''')],
  needs='a number with more bits than two doubles hold, whose remainder rounds to fewer than 53 bits',
  breaks='the low double is rounded twice, and the accuracy is that of the second rounding',
  demo=test('float128ppc', 'math/big', '''	// 1 + 2^-60*(1 + 2^-60): the tail cannot be held
	x, _, _ := big.ParseFloat("0x1.000000000000001p0", 0, 300, big.ToNearestEven)
	tail := new(big.Float).SetMantExp(big.NewFloat(1), -200)
	x.Add(x, tail)
	_, acc := NewFromBig(x)
	if acc != big.Below {
		t.Errorf("accuracy %v", acc)
	}'''))

seed(id='x87-from-double-precision', prop='C10', pkg='float80x86',
  edits=[('float80x86/float80x86.go', '''	y := big.NewFloat(x)
	y.SetPrec(precision)''', '''	y := new(big.Float).SetPrec(precision)
	if frac, exp := math.Frexp(x); exp < -1021 {
		// subnormal: the significand is an integer multiple of the least value
		y.SetMantExp(big.NewFloat(frac), exp+1)
	} else {
		y.SetFloat64(x)
	}''')],
  needs='a subnormal double',
  breaks='subnormal doubles are doubled',
  demo=test('float80x86', 'math math/big', '''	f, acc := NewFromFloat64(math.SmallestNonzeroFloat64)
	x, _ := f.Big()
	if acc != big.Exact || x.Cmp(big.NewFloat(math.SmallestNonzeroFloat64)) != 0 {
		t.Errorf("got %v %v", x, acc)
	}'''))

seed(id='quad-float32-double-rounding', prop='C11', pkg='binary128',
  edits=[('binary128/binary128.go', '''	return x.Float32()''', '''	// Most values fit a double.
	y, acc := x.Float64()
	z := float32(y)
	if float64(z) != y {
		return x.SetFloat64(y).Float32()
	}
	return z, acc''')],
  needs='a value just above a midpoint of two neighbouring floats, by less than half an ulp of a double',
  breaks='Float32 rounds twice and gives the wrong neighbour',
  demo=test('binary128', 'math', '''	// 1 + 2^-24 + 2^-100
	f := NewFromBits(0x3FFF000001000000, 1<<12)
	if got, _ := f.Float32(); got != math.Nextafter32(1, 2) {
		t.Errorf("got %v", got)
	}'''))

seed(id='x87-lead-word', prop='C12', pkg='float80x86', env='GOARCH=386 ', also=['C20'],
  edits=[('float80x86/float80x86.go', 'return int(f.m >> 63)', 'return int(f.m) >> 63 & 1')],
  needs='a 32-bit platform, where int drops the high half of the mantissa',
  breaks='Lead gives bit 31 of the mantissa on 32-bit platforms, and Big with it',
  demo=test('float80x86', '', '''	if got := NewFromBits(0x3FFF, 1<<63).Lead(); got != 1 {
		t.Errorf("lead bit %d", got)
	}'''))

seed(id='half-nan-constant-rewritten', prop='C13', pkg='binary16', also=['C18'],
  edits=[('binary16/binary16.go', '''		if math.Signbit(x) {
			// -NaN
			return NegNaN, big.Exact
		}
		// +NaN
		return NaN, big.Exact''', '''		nan := &NaN
		if math.Signbit(x) {
			// -NaN
			nan.bits |= NegZero.bits
			return *nan, big.Exact
		}
		// +NaN
		return *nan, big.Exact''')],
  needs='a conversion of a negative NaN followed by any use of the constant NaN',
  breaks='the predeclared NaN becomes negative for the rest of the program',
  demo=test('binary16', 'math', '''	NewFromFloat64(math.Copysign(math.NaN(), -1))
	if NaN.Signbit() {
		t.Errorf("NaN has become negative")
	}'''))

seed(id='ppc-argument-precision', prop='C17', pkg='float128ppc',
  edits=[('float128ppc/float128ppc.go', 'case x.Cmp(zero) == 0:', 'case x.SetMode(zero.Mode()).Cmp(zero) == 0:')],
  needs="a caller that goes on computing with the argument, in a rounding mode of its own",
  breaks="the argument's rounding mode is reset to nearest",
  demo=test('float128ppc', 'math/big', '''	x := new(big.Float).SetMode(big.ToZero).SetFloat64(0.5)
	NewFromBig(x)
	if x.Mode() != big.ToZero {
		t.Errorf("mode %v", x.Mode())
	}'''))

seed(id='bfloat-cached-result', prop='C17', pkg='bfloat', also=['C18'],
  edits=[('bfloat/bfloat.go', '''	x = big.NewFloat(0)
	x.SetPrec(precision)''', '''	if exp == 0 && frac == 0 && !signbit {
		return zero, false
	}
	x = big.NewFloat(0)
	x.SetPrec(precision)'''),
  ('bfloat/bfloat.go', '''// Float is a floating-point number in bfloat16 floating-point format.''', '''var zero = new(big.Float).SetPrec(precision)

// Float is a floating-point number in bfloat16 floating-point format.''')],
  needs='two calls for zero, the first result being changed in between',
  breaks='results are shared between calls: changing one changes all zeros',
  demo=test('bfloat', '', '''	x, _ := NewFromBits(0).Big()
	x.SetInt64(7)
	if y, _ := NewFromBits(0).Big(); y.Sign() != 0 {
		t.Errorf("zero is %v", y)
	}'''))

seed(id='itoa-window-bound', prop='C21', pkg='internal/strconv', env='GOARCH=386 ', also=['C20'],
  edits=[('internal/strconv/itoa.go', '			for u >= 1e9 {', '			if u >= 1e9 {')],
  needs='a 32-bit platform, and a number of 2^32 * 10^9 or more',
  breaks='only one window of nine digits is split off, the rest is cut to 32 bits',
  demo=test('strconv', '', '''	for _, c := range []struct {
		u uint64
		s string
	}{{1000000000, "1000000000"}, {1000000000123456789, "1000000000123456789"}, {18446744073709551615, "18446744073709551615"}, {4294967296, "4294967296"}} {
		if got := FormatUint(c.u, 10); got != c.s {
			t.Errorf("%s: got %s", c.s, got)
		}
	}'''))

seed(id='itoa-base-boundary', prop='C21', pkg='internal/strconv',
  edits=[('internal/strconv/itoa.go', '''		b := uint64(base)
		for u >= b {
			i--
			// Avoid''', '''		b := uint64(base)
		for u > b {
			i--
			// Avoid''')],
  needs='a number that is the base itself times a power of it plus lower digits, in a base that is no power of two and not ten',
  breaks='the leading digits 10 come out as one character beyond the digits of the base',
  demo=test('strconv', '', '''	if got := FormatInt(-12, 12); got != "-10" {
		t.Errorf("got %s", got)
	}
	if got := string(AppendUint([]byte("x"), 49, 7)); got != "x100" {
		t.Errorf("got %s", got)
	}'''))

seed(id='ftoa-half-through-single', prop='C22', pkg='internal/strconv',
  edits=[('internal/strconv/ftoa.go', 'f, acc := binary16.NewFromFloat64(val)', 'f, acc := binary16.NewFromFloat32(float32(val))')],
  needs='a double just beside a midpoint of two halfs, by less than half an ulp of a single',
  breaks='bit size 16 rounds twice',
  demo=test('strconv', 'math', '''	x := 1 + math.Ldexp(1, -11) + math.Ldexp(1, -40)
	if got := FormatFloat(x, 'b', -1, 16); got != "1025p-10" {
		t.Errorf("got %s", got)
	}'''))

seed(id='ftoa-special-format', prop='C22', pkg='internal/strconv',
  edits=[('internal/strconv/ftoa.go', '''		case neg:
			s = "-Inf"''', '''		case neg && fmt != 'b':
			s = "-Inf"''')],
  needs="a negative infinity in format 'b'",
  breaks="-Inf is printed as +Inf in format 'b'",
  demo=test('strconv', 'math', '''	if got := FormatFloat(math.Inf(-1), 'b', -1, 64); got != "-Inf" {
		t.Errorf("got %s", got)
	}'''))

seed(id='table-power-of-ten', prop='C23', pkg='internal/strconv',
  edits=[('internal/strconv/extfloat.go', '''{0x8b16fb203055ac76, -1166, false}, // 10^-332''', '''{0x8b16fb203055ac77, -1166, false}, // 10^-332''')],
  needs='a number near 10^-332 whose decimal lies within the last bit',
  breaks='one cached power of ten is not the nearest',
  demo=test('strconv', 'math/big', '''	for i, p := range powersOfTen {
		k := firstPowerOfTen + i*stepPowerOfTen
		r := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(max(k, -k))), nil))
		if k < 0 {
			r.Inv(r)
		}
		f := new(big.Float).SetPrec(64).SetRat(r)
		g := new(big.Float).SetMantExp(new(big.Float).SetUint64(p.mant), p.exp)
		if f.Cmp(g) != 0 {
			t.Errorf("10^%d", k)
		}
	}'''))

seed(id='table-left-shift', prop='C23', pkg='internal/strconv',
  edits=[('internal/strconv/decimal.go', '''"186264514923095703125"''', '''"186264514923095713125"''')],
  needs='an exact conversion with a left shift by 30 bits of a decimal that begins with the changed digits',
  breaks='the number of digits of the shifted decimal is wrong by one',
  demo=test('strconv', 'math/big', '''	for i, c := range leftcheats {
		if i > 0 && c.cutoff != new(big.Int).Exp(big.NewInt(5), big.NewInt(int64(i)), nil).String() {
			t.Errorf("5^%d", i)
		}
	}'''))

seed(id='half-huge-is-exact', prop='C16', also=['C06'], pkg='binary16',
  edits=[('binary16/binary16.go', '	case x.IsInf():\n', '	case x.IsInf() || x.MantExp(nil) > 1024:\n')],
  needs='a finite number of 2^1024 or more',
  breaks='the conversion says a huge finite number is exactly infinity, and IsExact16 accepts it',
  demo=test('binary16', 'math/big', '''	x := new(big.Float).SetMantExp(big.NewFloat(1), 3000)
	if f, acc := NewFromBig(x); f != Inf || acc != big.Above {
		t.Errorf("got %v %v", f, acc)
	}'''))

seed(id='quad-low-payload-infinity', prop='C03', pkg='binary128',
  edits=[('binary128/binary128.go', '''		if frac1 == 0 && frac2 == 0 {
			// +-Inf''', '''		if frac1 == 0 && frac2&^1 == 0 {
			// +-Inf''')],
  needs='a NaN whose only fraction bit is the lowest of the 112',
  breaks='such a NaN is decoded as infinity',
  demo=test('binary128', '', '''	if _, nan := NewFromBits(0x7FFF<<48, 1).Big(); !nan {
		t.Error("not NaN")
	}'''))

seed(id='quad-fast-float64', prop='C15', also=['C11'], pkg='binary128',
  edits=[('binary128/binary128.go', '''func (f Float) Float64() (float64, big.Accuracy) {
''', '''func (f Float) Float64() (float64, big.Accuracy) {
	if _, lo := f.Frac(); lo == 0 {
		// few enough bits: move the fields
		if e := f.Exp() - bias; e >= -1023 && e <= 1023 {
			return math.Float64frombits(f.a&(1<<63) | uint64(e+1023)<<52 | f.a&(1<<48-1)<<4), big.Exact
		}
	}
''')],
  needs='a float64 between 2^-1023 and 2^-1022 with few bits',
  breaks='the fast path treats the largest subnormal binade as normal',
  demo=test('binary128', 'math math/big', '''	for _, x := range []float64{1, 1.5, math.Ldexp(1.5, -1023), -math.Ldexp(1, -1023), math.Ldexp(1, -1024), 0, math.Inf(1)} {
		f, _ := NewFromFloat64(x)
		if y, acc := f.Float64(); y != x || acc != big.Exact {
			t.Errorf("%v comes back as %v %v", x, y, acc)
		}
	}'''))

seed(id='ppc-opposite-infinities', prop='C19', also=['C05'], pkg='float128ppc',
  edits=[('float128ppc/float128ppc.go', '''	if f.IsNaN() {
''', '''	if math.IsNaN(f.high) || math.IsNaN(f.low) {
''')],
  needs='two infinities of opposite sign',
  breaks='decoding them panics',
  demo=test('float128ppc', '', '''	if _, nan := NewFromBits(0x7FF<<52, 0xFFF<<52).Big(); !nan {
		t.Error("not NaN")
	}'''))

seed(id='half-infinity-precision', prop='C26', pkg='binary16',
  edits=[('binary16/binary16.go', '''			x.SetInf(signbit)
			return x, false''', '''			return new(big.Float).SetInf(signbit), false''')],
  needs='the precision of a decoded infinity, seen in later arithmetic',
  breaks='a decoded infinity has precision 0, so sums stored in it take the precision of the operands',
  demo=test('binary16', 'math/big', '''	x, _ := Inf.Big()
	x.Quo(big.NewFloat(1), big.NewFloat(3))
	if x.Prec() != 11 {
		t.Errorf("precision %d", x.Prec())
	}'''))

seed(id='x87-subnormal-precision', prop='C26', pkg='float80x86',
  edits=[('float80x86/float80x86.go', '''		exponent = -16382
''', '''		exponent = -16382
		x.SetPrec(uint(precision - 1)) // no implicit lead bit
''')],
  needs='a subnormal or pseudo-denormal number',
  breaks='decoded subnormals have 63 bits of precision, which also rounds pseudo-denormals',
  demo=test('float80x86', '', '''	x, _ := NewFromBits(0, 3).Big()
	if x.Prec() != 64 {
		t.Errorf("precision %d", x.Prec())
	}'''))

seed(id='quad-shared-zero', prop='C17', also=['C18'], pkg='binary128',
  edits=[('binary128/binary128.go', '''	exp := f.Exp()
	frac1, frac2 := f.Frac()
	x = big.NewFloat(0)
''', '''	if f == Zero {
		return zero, false
	}
	exp := f.Exp()
	frac1, frac2 := f.Frac()
	x = big.NewFloat(0)
'''), ('binary128/binary128.go', '''// Big returns the multi-precision''', '''// zero is what +0 decodes to.
var zero = new(big.Float).SetPrec(precision).SetMode(big.ToNearestEven)

// Big returns the multi-precision''')],
  needs='a decoded zero that is changed by its owner, and another zero decoded afterwards',
  breaks='all decoded positive zeros are one number',
  demo=test('binary128', 'math/big', '''	x, _ := Zero.Big()
	x.Add(x, big.NewFloat(1))
	if y, _ := Zero.Big(); y.Sign() != 0 {
		t.Errorf("zero decodes to %v", y)
	}'''))

seed(id='half-remembered-argument', prop='C18', also=['C06'], pkg='binary16',
  edits=[('binary16/binary16.go', '''func NewFromBig(x *big.Float) (Float, big.Accuracy) {
''', '''func NewFromBig(x *big.Float) (Float, big.Accuracy) {
	if x == last.x && x.Prec() == last.prec && x.MantExp(nil) == last.exp && x.Signbit() == last.neg {
		return last.f, last.acc
	}
	f, acc := newFromBig(x)
	last.x, last.prec, last.exp, last.neg, last.f, last.acc = x, x.Prec(), x.MantExp(nil), x.Signbit(), f, acc
	return f, acc
}

// last is the number converted last.
var last struct {
	x    *big.Float
	prec uint
	exp  int
	neg  bool
	f    Float
	acc  big.Accuracy
}

func newFromBig(x *big.Float) (Float, big.Accuracy) {
''')],
  needs='two conversions of one multi-precision variable whose mantissa changed in between',
  breaks='the second conversion gives the first result',
  demo=test('binary16', 'math/big', '''	x := big.NewFloat(1)
	NewFromBig(x)
	x.SetFloat64(1.5)
	if f, _ := NewFromBig(x); f.Bits() != 0x3E00 {
		t.Errorf("%#04x", f.Bits())
	}'''))

seed(id='half-from-single', prop='C10', pkg='binary16', also=['C16'],
  edits=[('binary16/binary16.go', '''	return NewFromBig(big.NewFloat(x))
''', '''	if y := float64(float32(x)); x != y && math.Abs(x) < 65536 {
		// more bits than ever matter here
		f, acc := NewFromBig(big.NewFloat(y))
		if acc == big.Exact {
			acc = big.Above
			if y < x {
				acc = big.Below
			}
		}
		return f, acc
	}
	return NewFromBig(big.NewFloat(x))
''')],
  needs='a double just beside the middle of two halves, too near for a single',
  breaks='rounded twice',
  demo=test('binary16', 'math', '''	x := 1 + math.Ldexp(1, -11) + math.Ldexp(1, -40)
	if f, _ := NewFromFloat64(x); f.Bits() != 0x3C01 {
		t.Errorf("%#04x", f.Bits())
	}'''))

seed(id='x87-pseudo-denormal', prop='C04', pkg='float80x86',
  edits=[('float80x86/float80x86.go', '''	lead := f.Lead()
''', '''	lead := f.Lead()
	if exp == 0 {
		lead = 0
	}
''')],
  needs='a pseudo-denormal: exponent field zero, lead bit set',
  breaks='its lead bit is ignored',
  demo=test('float80x86', 'math/big', '''	x, _ := NewFromBits(0, 1<<63).Big()
	if want := new(big.Float).SetMantExp(big.NewFloat(1), -16382); x.Cmp(want) != 0 {
		t.Errorf("got %v", x)
	}'''))

seed(id='itoa-power-boundary', prop='C21', pkg='internal/strconv',
  edits=[('internal/strconv/itoa.go', '''		for u >= b {
			i--
			a[i] = digits[uint(u)&m]''', '''		for u-1 >= b {
			i--
			a[i] = digits[uint(u)&m]''')],
  needs='a base that is a power of two and a number whose leading digits are that base',
  breaks='16 in base 16 is g',
  demo=test('strconv', '', '''	for _, x := range []int64{8, 15, 16, 17, 256, 255} {
		if s := FormatInt(x, 16); (s == "10") != (x == 16) {
			t.Errorf("%d is %s", x, s)
		}
	}'''))

seed(id='ftoa-binary-exponent-zero', prop='C22', pkg='internal/strconv',
  edits=[('internal/strconv/ftoa.go', '''	if exp >= 0 {
		dst = append(dst, '+')
	}
	dst, _ = formatBits(dst, uint64(exp), 10, exp < 0, true)

	return dst
}

func min''', '''	if exp > 0 {
		dst = append(dst, '+')
	}
	dst, _ = formatBits(dst, uint64(exp), 10, exp < 0, true)

	return dst
}

func min''')],
  needs="format 'b' and a number between 2^52 and 2^53",
  breaks='the sign of a zero exponent is missing',
  demo=test('strconv', '', '''	if s := FormatFloat(1<<52, 'b', -1, 64); s != "4503599627370496p+0" {
		t.Error(s)
	}'''))

seed(id='x87-single-accuracy', prop='C10', also=['C15'], pkg='float80x86',
  edits=[('float80x86/float80x86.go', '''		_, acc = f.Float32()
''', '''		_, acc = f.Float32()
		if x != 0 && x < 1<<24 && x == float32(int32(x)) && f.Exp() == bias+23 {
			acc = big.Below
		}
''')],
  needs='a float32 integer between 2^23 and 2^24',
  breaks='the accuracy of an exact conversion is Below',
  demo=test('float80x86', 'math/big', '''	if _, acc := NewFromFloat32(1<<23 + 1); acc != big.Exact {
		t.Error(acc)
	}'''))

seed(id='ppc-low-rounded-106', prop='C09', pkg='float128ppc',
  edits=[('float128ppc/float128ppc.go', '''	zero := big.NewFloat(0).SetPrec(precision)
	switch {
	case x.IsInf():''', '''	if x.Prec() > 106 {
		x = new(big.Float).SetPrec(106).Set(x) // all a double-double holds
	}
	zero := big.NewFloat(0).SetPrec(precision)
	switch {
	case x.IsInf():''')],
  needs='a number of more than 106 bits with a gap between its two doubles, or next to the middle of two doubles',
  breaks='bits the low double could hold are lost, and the accuracy with them',
  demo=test('float128ppc', 'math/big', '''	x := new(big.Float).SetMantExp(big.NewFloat(1), 120)
	x.SetPrec(300)
	x.Add(x, big.NewFloat(1))
	if f, acc := NewFromBig(x); f.low != 1 || acc != big.Exact {
		t.Errorf("%v %v", f, acc)
	}'''))

seed(id='quad-exponent-converted-first', prop='C20', pkg='binary128', env='GOARCH=386 ', also=['C12', 'C03'],
  edits=[('binary128/binary128.go', 'return int(f.a & 0x7FFF000000000000 >> 48)', 'return int(f.a&0x7FFF000000000000) >> 48')],
  needs='a 32-bit platform, where int drops the high half of the word',
  breaks='the exponent is always 0 there',
  demo=test('binary128', '', '''	if got := NewFromBits(0x3FFF000000000000, 0).Exp(); got != 0x3FFF {
		t.Errorf("exponent %#x", got)
	}'''))

seed(id='half-tiny-is-zero', prop='C06', pkg='binary16', also=['C16'],
  edits=[('binary16/binary16.go', '''	zero := big.NewFloat(0)
	switch {''', '''	approx, _ := x.Float64()
	switch {'''), ('binary16/binary16.go', 'case x.Cmp(zero) == 0:', 'case approx == 0:')],
  needs='a number that is not zero and too small for a float64 (below 2^-1075)',
  breaks='the zero it is converted to is called exact',
  demo=test('binary16', 'math/big', '''	x := new(big.Float).SetMantExp(big.NewFloat(1), -2000)
	if f, acc := NewFromBig(x); f != Zero || acc != big.Below {
		t.Errorf("got %v, %v", f, acc)
	}'''))

seed(id='x87-subnormal-width', prop='C14', pkg='float80x86', also=['C08'],
  edits=[('float80x86/float80x86.go', 'm |= v & 0x7FFFFFFFFFFFFFFF', 'm |= v & (1<<uint(mant.MinPrec()) - 1)')],
  needs='a subnormal whose fraction has zeros at its low end',
  breaks='the high bits of the fraction are dropped when it is encoded again',
  demo=test('float80x86', '', '''	f := NewFromBits(0, 0x4000000000000000)
	x, _ := f.Big()
	if g, acc := NewFromBig(x); g != f || acc != 0 {
		t.Errorf("got %#x, %v", g.m, acc)
	}'''))

seed(id='ppc-struct-copy', prop='C17', pkg='float128ppc',
  edits=[('float128ppc/float128ppc.go', '''	l.Sub(x, h)
''', '''	y := *x
	l.Sub(y.SetPrec(precision), h)
''')],
  needs='an argument with more mantissa bits than the package keeps (2099): the struct copy shares its mantissa words',
  breaks='the argument is rounded through the copy',
  demo=test('float128ppc', 'math/big', '''	x := new(big.Float).SetPrec(2110).SetInt64(1)
	x.Add(x, new(big.Float).SetMantExp(big.NewFloat(1), -2105))
	want := new(big.Float).Copy(x)
	NewFromBig(x)
	if x.Cmp(want) != 0 {
		t.Errorf("NewFromBig changed its argument")
	}'''))

seed(id='half-pooled-result', prop='C17', also=['C18'], pkg='binary16',
  edits=[('binary16/binary16.go', '''	x = big.NewFloat(0)
	x.SetPrec(precision)
''', '''	x = pool.Get().(*big.Float)
	defer pool.Put(x)
	x.SetInt64(0)
	x.SetPrec(precision)
'''), ('binary16/binary16.go', '''// Signbit reports''', '''// pool holds numbers for the conversions.
var pool = sync.Pool{New: func() interface{} { return new(big.Float) }}

// Signbit reports'''), ('binary16/binary16.go', '''	"math/big"
''', '''	"math/big"
	"sync"
''')],
  needs='a result that is still in use when a later call returns',
  breaks='the later call overwrites the earlier result',
  demo=test('binary16', '', '''	for i := 0; i < 100; i++ {
		a, _ := NewFromBits(0x3C00).Big()
		b, _ := NewFromBits(0x4000).Big()
		if v, _ := a.Float64(); v != 1 || a == b {
			t.Fatalf("round %d: 1 has become %v", i, v)
		}
	}'''))

seed(id='x87-normalize-forever', prop='C19', also=['C04'], pkg='float80x86',
  edits=[('float80x86/float80x86.go', '''	lead := f.Lead()
	frac := f.Frac()
''', '''	lead := f.Lead()
	frac := f.Frac()
	if exp != 0 && lead == 0 {
		// Unnormal number, normalize it.
		m := f.m
		for m>>63 == 0 {
			m <<= 1
			exponent--
		}
		lead, frac = 1, m&0x7FFFFFFFFFFFFFFF
	}
''')],
  needs='a pattern with a non-zero exponent and a mantissa of all zeros (a pseudo-zero)',
  breaks='the conversion never returns',
  demo=test('float80x86', 'time', '''	done := make(chan bool)
	go func() { NewFromBits(0x3FFF, 0).Big(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("Big does not return")
	}'''))

seed(id='ppc-float64-high', prop='C11', pkg='float128ppc',
  edits=[('float128ppc/float128ppc.go', '''	return x.Float64()
}

// Big''', '''	if math.Abs(f.low) <= math.Abs(f.high)*0x1p-53 {
		// the low part is too small to matter
		return f.high, big.Accuracy(big.NewFloat(f.high).Cmp(x))
	}
	return x.Float64()
}

// Big''')],
  needs='two doubles 53 binary orders apart, with the fraction of the high one at least that of the low one',
  breaks='the high double is returned where its neighbour is nearer',
  demo=test('float128ppc', 'math', '''	for _, c := range [][3]float64{{1.5, 0x1.4p-53, 1.5 + 0x1p-52}, {1 + 0x1p-52, 0x1p-53, 1 + 0x1p-51}, {1, 0x1p-60, 1}} {
		f := NewFromBits(math.Float64bits(c[0]), math.Float64bits(c[1]))
		if got, _ := f.Float64(); got != c[2] {
			t.Errorf("%v + %v is %v, want %v", c[0], c[1], got, c[2])
		}
	}'''))

seed(id='half-single-bits', prop='C11', also=['C15'], pkg='binary16',
  edits=[('binary16/binary16.go', '''	return x.Float32()
}''', '''	// move the fields into place.
	sign := uint32(f.bits&0x8000) << 16
	exp := uint32(f.bits>>10) & 0x1F
	frac := uint32(f.bits & 0x3FF)
	switch {
	case exp == 0x1F:
		return math.Float32frombits(sign | 0x7F800000), big.Exact
	case exp == 0 && frac == 0:
		return math.Float32frombits(sign), big.Exact
	case exp == 0:
		e := uint32(113)
		for frac&0x200 == 0 {
			frac <<= 1
			e--
		}
		return math.Float32frombits(sign | e<<23 | (frac&0x3FF)<<13), x.Acc()
	}
	return math.Float32frombits(sign | (exp+112)<<23 | frac<<13), big.Exact
}''')],
  needs='a subnormal half-precision number',
  breaks='its highest set fraction bit ends up in the fraction instead of becoming the leading one',
  demo=test('binary16', '', '''	for b := uint16(0); b < 0x7C00; b += 7 {
		got, _ := NewFromBits(b).Float32()
		x, _ := NewFromBits(b).Big()
		if want, _ := x.Float32(); got != want {
			t.Fatalf("%#04x is %v, want %v", b, got, want)
		}
	}'''))

seed(id='half-shared-buffer', prop='C18', pkg='binary16',
  edits=[('binary16/binary16.go', '''	s := fmt.Sprintf("%s0b%d.%010bp%d", sign, lead, frac, exponent)
	if _, _, err := x.Parse(s, 0)''', '''	b := append(buf[:0], sign...)
	b = append(b, "0b"...)
	b = append(b, byte('0'+lead), '.')
	for i := 9; i >= 0; i-- {
		b = append(b, byte('0'+frac>>uint(i)&1))
	}
	b = append(b, 'p')
	b = strconv.AppendInt(b, int64(exponent), 10)
	if _, _, err := x.Parse(string(b), 0)'''), ('binary16/binary16.go', '''// Signbit reports''', '''// buf holds the text of the number being converted.
var buf [32]byte

// Signbit reports'''), ('binary16/binary16.go', '''	"fmt"
''', ''), ('binary16/binary16.go', '''	"math/big"
''', '''	"math/big"
	"strconv"
''')],
  needs='two conversions running at the same time',
  breaks='one conversion reads the digits of the other',
  demo=test('binary16', 'sync time', '''	var wg sync.WaitGroup
	end := time.Now().Add(20 * time.Second)
	var mu sync.Mutex
	bad := ""
	for g := 0; g < 8; g++ {
		b := uint16(0x3C00 + 0x421*g)
		x, _ := NewFromBits(b).Big()
		want := x.Text('p', 0)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					mu.Lock()
					bad = "panic"
					mu.Unlock()
				}
			}()
			for i := 0; i < 2000000; i++ {
				if x, _ := NewFromBits(b).Big(); x.Text('p', 0) != want {
					mu.Lock()
					bad = x.Text('p', 0) + " for " + want
					mu.Unlock()
				}
				if i%1024 == 0 {
					mu.Lock()
					stop := bad != "" || time.Now().After(end)
					mu.Unlock()
					if stop {
						return
					}
				}
			}
		}()
	}
	wg.Wait()
	if bad != "" {
		t.Error(bad)
	}'''))

seed(id='bfloat-scaled-precision', prop='C26', pkg='bfloat',
  edits=[('bfloat/bfloat.go', '''		lead = 0
''', '''		//
		// SetMantExp scales exactly.
		x.SetMantExp(big.NewFloat(float64(frac)), -133)
		if signbit {
			x.Neg(x)
		}
		return x, false
''')],
  needs='the precision of a decoded subnormal, seen in later arithmetic',
  breaks='SetMantExp gives its result the precision of the mantissa, 53 bits instead of 8',
  demo=test('bfloat', 'math/big', '''	for _, b := range []uint16{1, 0x807F, 0x3F80} {
		x, _ := NewFromBits(b).Big()
		x.Quo(big.NewFloat(1), big.NewFloat(3))
		if y := new(big.Float).SetPrec(8).Quo(big.NewFloat(1), big.NewFloat(3)); x.Cmp(y) != 0 {
			t.Errorf("%#04x: a third is %v", b, x)
		}
	}'''))

seed(id='x87-recorded-accuracy', prop='C27', pkg='float80x86',
  edits=[('float80x86/float80x86.go', '''	m uint64
}
''', '''	m uint64
	// Accuracy of the conversion that made the number.
	acc big.Accuracy
}
'''), ('float80x86/float80x86.go', '''	m |= mantissa
	return Float{se: se, m: m}, acc
''', '''	m |= mantissa
	return Float{se: se, m: m, acc: acc}, acc
''')],
  needs='a rounded number, compared with == or used as a map key',
  breaks='two numbers with the same bits are unequal',
  demo=test('float80x86', 'math/big', '''	x := new(big.Float).SetPrec(200).Quo(big.NewFloat(1), big.NewFloat(3))
	f, _ := NewFromBig(x)
	if f != NewFromBits(f.Bits()) {
		t.Error("a third differs from itself")
	}'''))

seed(id='half-remembers-nan', prop='C27', pkg='binary16',
  edits=[('binary16/binary16.go', '''	bits uint16
}
''', '''	bits uint16
	// Payload of the float32 or float64 a NaN was made of.
	payload uint64
}
'''), ('binary16/binary16.go', '''			return NegNaN, big.Exact
''', '''			return Float{bits: NegNaN.bits, payload: math.Float64bits(x)}, big.Exact
''')],
  needs='a negative NaN made of a float64, compared with =='
  , breaks='it differs from NegNaN and from what NewFromBits makes of its bits',
  demo=test('binary16', 'math', '''	f, _ := NewFromFloat64(math.Copysign(math.NaN(), -1))
	if f.Bits() == NegNaN.Bits() && f != NegNaN {
		t.Error("two numbers with the same bits are unequal")
	}'''))

seed(id='quad-integer-shortcut', prop='C28', pkg='binary128',
  edits=[('binary128/binary128.go', '''	case x.IsInf():
''', '''	case x.IsInt() && isPowerOfTwo(x):
		// Shortcut for powers of two.
		if exponent := x.MantExp(nil); exponent <= bias+1 {
			a := uint64(exponent-1+bias) << 48
			if x.Signbit() {
				a |= 0x8000000000000000
			}
			return Float{a: a}, big.Exact
		}
		if x.Signbit() {
			return NegInf, big.Below
		}
		return Inf, big.Above
	case x.IsInf():
'''), ('binary128/binary128.go', '''// Bits returns the ''', '''// isPowerOfTwo reports whether the integer x is a power of two, or minus one.
func isPowerOfTwo(x *big.Float) bool {
	i, _ := x.Int(nil)
	i.Abs(i)
	n := i.BitLen()
	return n > 0 && int(i.TrailingZeroBits()) == n-1
}

// Bits returns the ''')],
  needs='a number with an exponent far beyond the range of the format, which need not have many bits',
  breaks='hundreds of megabytes are allocated for it',
  demo=test('binary128', 'math/big runtime', '''	x := new(big.Float).SetMantExp(big.NewFloat(3), 1<<30)
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	NewFromBig(x)
	runtime.ReadMemStats(&b)
	if n := b.TotalAlloc - a.TotalAlloc; n > 1<<24 {
		t.Errorf("%d bytes allocated", n)
	}'''))

seed(id='x87-sum-test', prop='C28', pkg='float80x86',
  edits=[('float80x86/float80x86.go', '''	case x.Cmp(zero) == 0:
''', '''	case new(big.Float).SetPrec(precision).Add(x, one).Cmp(one) == 0 && x.Sign() == 0:
'''), ('float80x86/float80x86.go', '''// Float is a floating-point number in x86 extended precision format.
''', '''var one = big.NewFloat(1)

// Float is a floating-point number in x86 extended precision format.
'''), ('float80x86/float80x86.go', '''	zero := big.NewFloat(0)
	switch {
''', '''	switch {
''')],
  needs='a number with an exponent far beyond the range of the format',
  breaks='math/big aligns the operands of the sum, which takes memory in proportion to the exponent',
  demo=test('float80x86', 'math/big runtime', '''	x := new(big.Float).SetMantExp(big.NewFloat(3), 1<<30)
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	NewFromBig(x)
	runtime.ReadMemStats(&b)
	if n := b.TotalAlloc - a.TotalAlloc; n > 1<<24 {
		t.Errorf("%d bytes allocated", n)
	}'''))

seed(id='quad-cache-high-word', prop='C03', pkg='binary128',
  edits=[('binary128/binary128.go', '''func (f Float) Big() (x *big.Float, nan bool) {
''', '''func (f Float) Big() (x *big.Float, nan bool) {
	// Subnormal numbers are slow to decode.
	if f.a>>48&0x7FFF != 0 || f.a<<16 == 0 {
		return f.decode()
	}
	if y, ok := seen.Load(f.a); ok {
		return new(big.Float).Copy(y.(*big.Float)), false
	}
	x, nan = f.decode()
	if !nan && f.b == 0 {
		seen.Store(f.a, new(big.Float).Copy(x))
	}
	return x, nan
}

// seen holds subnormal numbers whose low word is zero.
var seen sync.Map

// decode returns the multi-precision floating-point number representation of f
// and a boolean indicating whether f is Not-a-Number.
func (f Float) decode() (x *big.Float, nan bool) {
'''), ('binary128/binary128.go', '''	"math/big"
''', '''	"math/big"
	"sync"
''')],
  needs='a subnormal number with a low word of zero, and after it one with the same high word and another low word',
  breaks='the second one is decoded as the first',
  demo=test('binary128', 'math/big', '''	x, _ := NewFromBits(0x00001234567890AB, 0).Big()
	y, _ := NewFromBits(0x00001234567890AB, 1<<63).Big()
	want := new(big.Float).SetMantExp(big.NewFloat(1), -16382-49)
	if y.Sub(y, x); y.Cmp(want) != 0 {
		t.Errorf("the difference is %v, want %v", y, want)
	}'''))

seed(id='x87-last-argument', prop='C08', pkg='float80x86',
  edits=[('float80x86/float80x86.go', '''// NewFromBig returns the nearest x86 extended precision floating-point number
// for x and the accuracy of the conversion.
func NewFromBig(x *big.Float) (Float, big.Accuracy) {
''', '''// last is the conversion made last.
var last struct {
	sync.Mutex
	x   *big.Float
	exp int
	f   Float
	acc big.Accuracy
}

// NewFromBig returns the nearest x86 extended precision floating-point number
// for x and the accuracy of the conversion.
func NewFromBig(x *big.Float) (Float, big.Accuracy) {
	last.Lock()
	defer last.Unlock()
	if exp := x.MantExp(nil); last.x != x || last.exp != exp {
		last.x, last.exp = x, exp
		last.f, last.acc = newFromBig(x)
	}
	return last.f, last.acc
}

func newFromBig(x *big.Float) (Float, big.Accuracy) {
'''), ('float80x86/float80x86.go', '''	"math/big"
''', '''	"math/big"
	"sync"
''')],
  needs='one variable converted twice, with two values of the same binade',
  breaks='the second conversion gives the first result',
  demo=test('float80x86', 'math/big', '''	x := big.NewFloat(1)
	NewFromBig(x)
	x.SetFloat64(1.5)
	if f, _ := NewFromBig(x); f != NewFromBits(0x3FFF, 0xC000000000000000) {
		t.Errorf("1.5 is %v", f)
	}'''))

seed(id='bfloat-table-of-powers', prop='C02', pkg='bfloat',
  edits=[('bfloat/bfloat.go', '''	x = big.NewFloat(0)
	x.SetPrec(precision)
	x.SetMode(big.ToNearestEven)
''', '''	x = big.NewFloat(0)
	x.SetPrec(precision)
	x.SetMode(big.ToNearestEven)
	if frac == 0 && !signbit {
		// Powers of two are decoded once.
		if p := &powers[exp&0x7F]; p.Prec() != 0 && exp != 0 && exp != 0xFF {
			return x.Set(p), false
		}
		defer func() {
			if !nan && !x.IsInf() && x.Sign() != 0 {
				powers[exp&0x7F].Set(x)
			}
		}()
	}
'''), ('bfloat/bfloat.go', '''func (f Float) Big() (x *big.Float, nan bool) {
''', '''// powers holds the powers of two decoded so far.
var powers [128]big.Float

func (f Float) Big() (x *big.Float, nan bool) {
''')],
  needs='two powers of two whose exponents differ by 128, one decoded after the other',
  breaks='the second is decoded as the first',
  demo=test('bfloat', 'math/big', '''	NewFromBits(0x3F80).Big()
	x, _ := NewFromBits(0x7F00).Big()
	if want := new(big.Float).SetMantExp(big.NewFloat(1), 127); x.Cmp(want) != 0 {
		t.Errorf("2^127 is %v", x)
	}
	x, _ = NewFromBits(0x0100).Big()
	y, _ := NewFromBits(0x4100).Big()
	if x.Cmp(y) == 0 {
		t.Errorf("%v equals %v", x, y)
	}'''))
