From beb281e4645363110e62bb37ac919d4d1cda1ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 01/11] fix: binary16: round to nearest even in NewFromBig,
 also on underflow and overflow

---
 binary16/binary16.go | 61 +++++++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 18 deletions(-)

diff --git a/binary16/binary16.go b/binary16/binary16.go
index 7299c3c..0340596 100644
--- a/binary16/binary16.go
+++ b/binary16/binary16.go
@@ -111,56 +111,81 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		bits |= 0x8000
 	}
 
+	// Round before taking the number apart, exponent and mantissa are then exact.
+	y := round(x)
+	acc := big.Accuracy(y.Cmp(x))
+
 	// Exponent and mantissa.
 	mant := new(big.Float)
-	exponent := x.MantExp(mant)
+	exponent := y.MantExp(mant)
+	if y.IsInf() || exponent > bias+1 {
+		// Overflow.
+		if x.Signbit() {
+			return NegInf, big.Below
+		}
+		return Inf, big.Above
+	}
+	if y.Sign() == 0 {
+		// Underflow.
+		if x.Signbit() {
+			return NegZero, acc
+		}
+		return Zero, acc
+	}
 	// Remove 1 from the exponent as big.Float has an no lead bit.
 	exp := exponent - 1 + bias
 
 	// Handle denormalized values.
-	// TODO: validate implementation of denormalized values.
 	if exp <= 0 {
-		acc := big.Exact
-		if exp <= -(precision - 1) {
-			exp = precision - 1
-			acc = big.Below
-		}
 		mant.SetMantExp(mant, exp+precision-1)
 		if mant.Signbit() {
 			mant.Neg(mant)
 		}
 		mantissa, _ := mant.Uint64()
-		// TODO: calculate acc based on if mantissa&^0x7FF != 0 {}
 		bits |= uint16(mantissa & 0x7FF)
 		return Float{bits: bits}, acc
 	}
 
 	// exponent mask (5 bits): 0b11111
-	acc := big.Exact
-	if (exp &^ 0x1F) != 0 {
-		acc = big.Above
-	}
 	bits |= uint16(exp&0x1F) << 10
 
 	if mant.Signbit() {
 		mant.Neg(mant)
 	}
 	mant.SetMantExp(mant, precision)
-	if !mant.IsInt() {
-		acc = big.Below
-	}
 	mantissa, _ := mant.Uint64()
 	mantissa &^= 0x400 // clear implicit lead bit; 2^10
 
 	// mantissa mask (11 bits, including implicit lead bit): 0b11111111111
-	if acc == big.Exact && (mantissa&^0x7FF) != 0 {
-		acc = big.Below
-	}
 	mantissa &= 0x7FF
 	bits |= uint16(mantissa)
 	return Float{bits: bits}, acc
 }
 
+// round returns x rounded to the nearest multi-precision floating-point number,
+// ties to even, with the precision a half precision
+// floating-point number has at the exponent of x.
+// The exponent range is not limited upwards.
+func round(x *big.Float) *big.Float {
+	y := new(big.Float)
+	prec := precision
+	// Denormalized values have less precision, the smaller they are.
+	if exponent := x.MantExp(nil); exponent < 2-bias {
+		prec += exponent - (2 - bias)
+	}
+	switch {
+	case prec > 0:
+		y.SetPrec(uint(prec)).SetMode(big.ToNearestEven).Set(x)
+	case prec == 0 && x.MinPrec() > 1:
+		// More than half of the smallest denormalized value.
+		y.SetMantExp(big.NewFloat(1), 2-bias-precision)
+		if x.Signbit() {
+			y.Neg(y)
+		}
+	}
+	return y
+}
+
 // Bits returns the IEEE 754 half precision binary representation of f.
 func (f Float) Bits() uint16 {
 	return f.bits
-- 
2.43.0


From e15742a7cf40ffba98cc62a0db301b1c73f83201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 02/11] fix: binary16: round only once in NewFromFloat64 and
 report its accuracy

---
 binary16/binary16.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/binary16/binary16.go b/binary16/binary16.go
index 0340596..e12ed28 100644
--- a/binary16/binary16.go
+++ b/binary16/binary16.go
@@ -75,11 +75,7 @@ func NewFromFloat64(x float64) (Float, big.Accuracy) {
 		// +NaN
 		return NaN, big.Exact
 	}
-	y := big.NewFloat(x)
-	y.SetPrec(precision)
-	y.SetMode(big.ToNearestEven)
-	// TODO: check accuracy after setting precision?
-	return NewFromBig(y)
+	return NewFromBig(big.NewFloat(x))
 }
 
 // NewFromBig returns the nearest half precision floating-point number for x and
-- 
2.43.0


From ff47c9bca4345747b6b7e0d4c9d09a8710e56928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 03/11] fix: binary128: round to nearest even in NewFromBig,
 also on underflow and overflow

---
 binary128/binary128.go | 61 +++++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 18 deletions(-)

diff --git a/binary128/binary128.go b/binary128/binary128.go
index f1251ce..3ba8418 100644
--- a/binary128/binary128.go
+++ b/binary128/binary128.go
@@ -112,20 +112,32 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		a |= 0x8000000000000000
 	}
 
+	// Round before taking the number apart, exponent and mantissa are then exact.
+	y := round(x)
+	acc := big.Accuracy(y.Cmp(x))
+
 	// Exponent and mantissa.
 	mant := new(big.Float).SetPrec(precision)
-	exponent := x.MantExp(mant)
+	exponent := y.MantExp(mant)
+	if y.IsInf() || exponent > bias+1 {
+		// Overflow.
+		if x.Signbit() {
+			return NegInf, big.Below
+		}
+		return Inf, big.Above
+	}
+	if y.Sign() == 0 {
+		// Underflow.
+		if x.Signbit() {
+			return NegZero, acc
+		}
+		return Zero, acc
+	}
 	// Remove 1 from the exponent as big.Float has an no lead bit.
 	exp := exponent - 1 + bias
 
 	// Handle denormalized values.
-	// TODO: validate implementation of denormalized values.
 	if exp <= 0 {
-		acc := big.Exact
-		if exp <= -(precision - 1) {
-			exp = precision - 1
-			acc = big.Below
-		}
 		mant.SetMantExp(mant, exp+precision-1)
 		if mant.Signbit() {
 			mant.Neg(mant)
@@ -142,26 +154,18 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		bigA := new(big.Int).And(mantissa, maskA) // a = (mantissa & maskA) >> 64
 		bigA.Rsh(bigA, 64)
 		bigB := new(big.Int).And(mantissa, maskB) // b = mantissa & maskB
-		// TODO: calculate acc based on if mantissa&^maskA != 0 {}
 		a |= bigA.Uint64() & 0x0000FFFFFFFFFFFF
 		b = bigB.Uint64()
 		return Float{a: a, b: b}, acc
 	}
 
 	// exponent mask (15 bits): 0b111111111111111
-	acc := big.Exact
-	if (exp &^ 0x7FFF) != 0 {
-		acc = big.Above
-	}
 	a |= uint64(exp&0x7FFF) << 48
 
 	if mant.Signbit() {
 		mant.Neg(mant)
 	}
 	mant.SetMantExp(mant, precision)
-	if !mant.IsInt() {
-		acc = big.Below
-	}
 	mantissa, _ := mant.Int(nil)
 	mantissa.SetBit(mantissa, 112, 0) // clear implicit lead bit; 2^112
 
@@ -177,14 +181,35 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 	bigA := new(big.Int).And(mantissa, maskA) // a = (mantissa & maskA) >> 64
 	bigA.Rsh(bigA, 64)
 	bigB := new(big.Int).And(mantissa, maskB) // b = mantissa & maskB
-	if acc == big.Exact && (bigA.Uint64()&^0x0000FFFFFFFFFFFF) != 0 {
-		acc = big.Below
-	}
 	a |= bigA.Uint64() & 0x0000FFFFFFFFFFFF
 	b = bigB.Uint64()
 	return Float{a: a, b: b}, acc
 }
 
+// round returns x rounded to the nearest multi-precision floating-point number,
+// ties to even, with the precision a quadruple
+// precision floating-point number has at the exponent of x.
+// The exponent range is not limited upwards.
+func round(x *big.Float) *big.Float {
+	y := new(big.Float)
+	prec := precision
+	// Denormalized values have less precision, the smaller they are.
+	if exponent := x.MantExp(nil); exponent < 2-bias {
+		prec += exponent - (2 - bias)
+	}
+	switch {
+	case prec > 0:
+		y.SetPrec(uint(prec)).SetMode(big.ToNearestEven).Set(x)
+	case prec == 0 && x.MinPrec() > 1:
+		// More than half of the smallest denormalized value.
+		y.SetMantExp(big.NewFloat(1), 2-bias-precision)
+		if x.Signbit() {
+			y.Neg(y)
+		}
+	}
+	return y
+}
+
 // Bits returns the IEEE 754 quadruple precision binary representation of f.
 func (f Float) Bits() (a, b uint64) {
 	return f.a, f.b
-- 
2.43.0


From 2b8096e9978d4baf828c9593477aa0167a71e165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 04/11] fix: binary128: do not lose the exponent on 32-bit
 platforms

---
 binary128/binary128.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary128/binary128.go b/binary128/binary128.go
index 3ba8418..d5326b3 100644
--- a/binary128/binary128.go
+++ b/binary128/binary128.go
@@ -313,7 +313,7 @@ func (f Float) Signbit() bool {
 // Exp returns the exponent of f.
 func (f Float) Exp() int {
 	// 15 bit exponent
-	return int(f.a&0x7FFF000000000000) >> 48
+	return int(f.a & 0x7FFF000000000000 >> 48)
 }
 
 // Frac returns the fraction of f.
-- 
2.43.0


From f3d269d7739396582ae5b014ffb2b8ea515e3c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 05/11] fix: float80x86: round to nearest even in NewFromBig,
 also on underflow and overflow

---
 float80x86/float80x86.go | 63 ++++++++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 19 deletions(-)

diff --git a/float80x86/float80x86.go b/float80x86/float80x86.go
index e4bdf0c..3035e66 100644
--- a/float80x86/float80x86.go
+++ b/float80x86/float80x86.go
@@ -133,55 +133,80 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		se |= 0x8000
 	}
 
+	// Round before taking the number apart, exponent and mantissa are then exact.
+	y := round(x)
+	acc := big.Accuracy(y.Cmp(x))
+
 	// Exponent and mantissa.
 	var m uint64
 	mant := &big.Float{}
-	exponent := x.MantExp(mant)
+	exponent := y.MantExp(mant)
+	if y.IsInf() || exponent > bias+1 {
+		// Overflow.
+		if x.Signbit() {
+			return NegInf, big.Below
+		}
+		return Inf, big.Above
+	}
+	if y.Sign() == 0 {
+		// Underflow.
+		if x.Signbit() {
+			return NegZero, acc
+		}
+		return Zero, acc
+	}
 	// TODO: verify, as float80x86 also has an explicit lead bit.
 	// Remove 1 from the exponent as big.Float has an no lead bit.
 	exp := exponent - 1 + bias
 
 	// Handle denormalized values.
-	// TODO: validate implementation of denormalized values.
 	if exp <= 0 {
-		acc := big.Exact
-		if exp <= -(precision - 1) {
-			exp = precision - 1
-			acc = big.Below
-		}
 		mant.SetMantExp(mant, exp+precision-1)
 		if mant.Signbit() {
 			mant.Neg(mant)
 		}
 		v, _ := mant.Uint64()
-		// TODO: calculate acc based on if v&^0x7FFFFFFFFFFFFFFF != 0 {}
 		m |= v & 0x7FFFFFFFFFFFFFFF
 		return Float{se: se, m: m}, acc
 	}
 
 	// 0b111111111111111
-	acc := big.Exact
-	if (exp &^ 0x7FFF) != 0 {
-		acc = big.Above
-	}
 	se |= uint16(exp & 0x7FFF)
 
 	if mant.Signbit() {
 		mant.Neg(mant)
 	}
 	mant.SetMantExp(mant, precision)
-	if !mant.IsInt() {
-		acc = big.Below
-	}
 	// mantissa, including explicit lead bit
-	mantissa, acc2 := mant.Uint64()
-	if acc == big.Exact {
-		acc = acc2
-	}
+	mantissa, _ := mant.Uint64()
 	m |= mantissa
 	return Float{se: se, m: m}, acc
 }
 
+// round returns x rounded to the nearest multi-precision floating-point number,
+// ties to even, with the precision an x86 extended
+// precision floating-point number has at the exponent of x.
+// The exponent range is not limited upwards.
+func round(x *big.Float) *big.Float {
+	y := new(big.Float)
+	prec := precision
+	// Denormalized values have less precision, the smaller they are.
+	if exponent := x.MantExp(nil); exponent < 2-bias {
+		prec += exponent - (2 - bias)
+	}
+	switch {
+	case prec > 0:
+		y.SetPrec(uint(prec)).SetMode(big.ToNearestEven).Set(x)
+	case prec == 0 && x.MinPrec() > 1:
+		// More than half of the smallest denormalized value.
+		y.SetMantExp(big.NewFloat(1), 2-bias-precision)
+		if x.Signbit() {
+			y.Neg(y)
+		}
+	}
+	return y
+}
+
 // Bits returns the x86 extended precision binary representation of f.
 func (f Float) Bits() (se uint16, m uint64) {
 	return f.se, f.m
-- 
2.43.0


From 81d4066067db8c1ae2fcdf904c2e4799c43fb7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 06/11] fix: float128ppc: make NegInf negative infinity

---
 float128ppc/float128ppc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index 9fdc9b3..bd962cc 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -24,7 +24,7 @@ var (
 	// +Inf
 	Inf = Float{high: math.Inf(1), low: 0}
 	// -Inf
-	NegInf = Float{high: -math.Inf(-1), low: 0}
+	NegInf = Float{high: math.Inf(-1), low: 0}
 	// +zero
 	Zero = Float{high: 0, low: 0}
 	// -zero
-- 
2.43.0


From 25aa78ca776873545c402cea805b8b34fed95675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 07/11] fix: float128ppc: leave the argument of NewFromBig
 alone, handle overflow and report the accuracy

---
 float128ppc/float128ppc.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index bd962cc..321d29c 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -100,22 +100,19 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		return Zero, big.Exact
 	}
 
-	// set precision of x.
-	x.SetPrec(precision).SetMode(big.ToNearestEven)
-
 	// get high part of the double-double floating-point value.
-	high, _ := x.Float64()
-	h := big.NewFloat(high).SetPrec(precision).SetMode(big.ToNearestEven)
+	high, acc := x.Float64()
+	if math.IsInf(high, 0) {
+		// overflow, there is no low part.
+		return Float{high: high, low: 0}, acc
+	}
+	h := big.NewFloat(high)
 
-	// compute low part by subtracting high from x.
-	l := big.NewFloat(0).SetPrec(precision).SetMode(big.ToNearestEven)
+	// compute low part by subtracting high from x; the difference is exact, as
+	// it has no more bits than x.
+	l := new(big.Float)
 	l.Sub(x, h)
-	low, _ := l.Float64()
-
-	// check accuracy of results.
-	result := big.NewFloat(0).SetPrec(precision).SetMode(big.ToNearestEven)
-	result.Add(h, l)
-	acc := big.Accuracy(x.Cmp(result))
+	low, acc := l.Float64()
 
 	return Float{high: high, low: low}, acc
 }
-- 
2.43.0


From 442cc20f6492c51718035d4e55bd668cab2542a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 08/11] fix: float128ppc: give Big the precision to hold the
 exact sum

---
 float128ppc/float128ppc.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index 321d29c..236e62f 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -11,8 +11,9 @@ import (
 
 const (
 	// precision specifies the number of bits in the mantissa (including the
-	// implicit lead bit).
-	precision = 106
+	// implicit lead bit) which holds the sum of any two float64 values exactly:
+	// from 2^1024 down to 2^-1074.
+	precision = 2099
 )
 
 // Positive and negative Not-a-Number, infinity and zero.
-- 
2.43.0


From 037a65fff77d1d84afaf3f1ce3a089e8eb4f1a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 09/11] fix: float128ppc: infinities of opposite signs are NaN

---
 float128ppc/float128ppc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index 236e62f..4c7cd40 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -173,6 +173,6 @@ func (f Float) Big() (x *big.Float, nan bool) {
 
 // IsNaN returns true if the Float is NaN
 func (f Float) IsNaN() bool {
-	// NaN + NaN should be NaN in consideration
-	return math.IsNaN(f.high) || math.IsNaN(f.low)
+	// NaN + NaN should be NaN in consideration, and so should +Inf + -Inf
+	return math.IsNaN(f.high + f.low)
 }
-- 
2.43.0


From 7ad8a1f856f21c241764b33de2637eea64551f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:18 +0000
Subject: [PATCH 10/11] fix: float128ppc: keep the sign of NaN in Big

---
 float128ppc/float128ppc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index 4c7cd40..d08546f 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -154,6 +154,9 @@ func (f Float) Big() (x *big.Float, nan bool) {
 	x.SetPrec(precision)
 	x.SetMode(big.ToNearestEven)
 	if f.IsNaN() {
+		if math.Signbit(f.high) {
+			x.Neg(x)
+		}
 		return x, true
 	}
 	h := big.NewFloat(f.high).SetPrec(precision)
-- 
2.43.0


From d99e5251f198e709d263c2ce96d20d7d2e21a32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:18 +0000
Subject: [PATCH 11/11] fix: make IsExact16, IsExact32 and IsExact64 test
 exactness of the conversion

---
 float.go | 52 +++++++---------------------------------------------
 1 file changed, 7 insertions(+), 45 deletions(-)

diff --git a/float.go b/float.go
index b5053f6..b539e16 100644
--- a/float.go
+++ b/float.go
@@ -2,66 +2,28 @@
 package float
 
 import (
-	"fmt"
 	"math/big"
-	"strings"
 
-	"github.com/mewmew/float/internal/strconv"
+	"github.com/mewmew/float/binary16"
 )
 
 // IsExact16 reports whether x may be represented exactly as a 16-bit
 // floating-point value.
 func IsExact16(x *big.Float) bool {
-	f, acc := x.Float64()
-	if acc != big.Exact {
-		return false
-	}
-	s1 := strconv.FormatFloat(f, 'e', -1, 16)
-	s2 := trimZeros(x.Text('e', 100))
-	return s1 == s2
+	_, acc := binary16.NewFromBig(x)
+	return acc == big.Exact
 }
 
 // IsExact32 reports whether x may be represented exactly as a 32-bit
 // floating-point value.
 func IsExact32(x *big.Float) bool {
-	f, acc := x.Float32()
-	if acc != big.Exact {
-		return false
-	}
-	s1 := strconv.FormatFloat(float64(f), 'e', -1, 32)
-	s2 := trimZeros(x.Text('e', 100))
-	return s1 == s2
+	_, acc := x.Float32()
+	return acc == big.Exact
 }
 
 // IsExact64 reports whether x may be represented exactly as a 64-bit
 // floating-point value.
 func IsExact64(x *big.Float) bool {
-	f, acc := x.Float64()
-	if acc != big.Exact {
-		return false
-	}
-	s1 := strconv.FormatFloat(f, 'e', -1, 64)
-	s2 := trimZeros(x.Text('e', 100))
-	return s1 == s2
-}
-
-// trimZeros trims trailing zeroes after the decimal point in the given
-// floating-point value (represented in scientific notation). If all digits
-// after the decimal point are trimmed this way, the decimal point is also
-// trimmed.
-func trimZeros(s string) string {
-	epos := strings.Index(s, "e")
-	if epos == -1 {
-		panic(fmt.Errorf("unable to locate position of exponent (e.g. e+02) in %q", s))
-	}
-	pos := epos - 1
-	for ; pos > 0; pos-- {
-		if s[pos] != '0' {
-			break
-		}
-	}
-	if s[pos] != '.' {
-		pos++
-	}
-	return fmt.Sprintf("%s%s", s[:pos], s[epos:])
+	_, acc := x.Float64()
+	return acc == big.Exact
 }
-- 
2.43.0

