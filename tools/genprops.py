#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording is edited in one place)."""
import json, os
P=[]
def add(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    d["anchors"]["observe_at"]=observe or []
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80
    P.append(d)

B16="binary16/binary16.go"; B128="binary128/binary128.go"; X87="float80x86/float80x86.go"; DD="float128ppc/float128ppc.go"; BF="bfloat/bfloat.go"
I=["inputs"]; IC=["inputs","configurations"]

add("C01","Half-precision bit patterns decode to exactly the IEEE 754 value",
"For every 16-bit pattern, the multi-precision conversion of the half-precision number built from it is exactly the number IEEE 754 binary16 assigns to the pattern: normal, subnormal, signed zero or signed infinity. The Not-a-Number flag is set exactly when the exponent field is all ones and the fraction is non-zero. The sign of the result, also for zero, infinity and NaN, is the sign bit of the pattern.",
IC,"all 65,536 bit patterns, on 32-bit and 64-bit platforms",
"The tests decode about 60 hand-picked patterns, nearly all powers of two; subnormals with several bits set and most fractions are never decoded.",
[B16],[("Float.Big",B16),("Float.Signbit/Exp/Frac",B16),("NewFromBits",B16)],[("bits","sign, 5-bit exponent, 10-bit fraction","binary16.Float.bits")],["NewFromBits(bits).Big()"])
add("C02","bfloat16 bit patterns decode to exactly the bfloat16 value",
"For every 16-bit pattern, the multi-precision conversion of the bfloat16 number built from it is exactly the number the bfloat16 format assigns to the pattern (8-bit exponent with bias 127, 7-bit fraction): normal, subnormal, signed zero or signed infinity. The Not-a-Number flag is set exactly when the exponent field is all ones and the fraction is non-zero. The sign of the result, also for zero, infinity and NaN, is the sign bit of the pattern.",
IC,"all 65,536 bit patterns, on 32-bit and 64-bit platforms",
"The tests decode ten patterns, none of them subnormal, and ignore what is returned for NaN.",
[BF],[("Float.Big",BF),("Float.Signbit/Exp/Frac",BF)],[("bits","sign, 8-bit exponent, 7-bit fraction","bfloat.Float.bits")],["NewFromBits(bits).Big()"])
add("C03","Quadruple-precision bit patterns decode to exactly the IEEE 754 value",
"For every 128-bit pattern, the multi-precision conversion of the quadruple-precision number built from it is exactly the number IEEE 754 binary128 assigns to the pattern: normal, subnormal, signed zero or signed infinity. The Not-a-Number flag is set exactly when the exponent field is all ones and the 112-bit fraction is non-zero. The sign of the result, also for zero, infinity and NaN, is the sign bit of the pattern.",
IC,"all 2^128 bit patterns, on 32-bit and 64-bit platforms",
"2^128 patterns cannot be enumerated; the tests decode 16 of them, compare zeros without their sign, and run only with the word size of the host.",
[B128],[("Float.Big",B128),("Float.Signbit/Exp/Frac",B128)],[("a, b","high word: sign, 15-bit exponent, top 48 fraction bits; low word: low 64 fraction bits","binary128.Float")],["NewFromBits(a, b).Big()"])
add("C04","x86 extended bit patterns decode to exactly the x87 value",
"For every 80-bit pattern whose 15-bit exponent field is not all ones, the multi-precision conversion of the x86 extended number built from it is exactly (-1)^sign * significand * 2^(e-16383-63), with the 64-bit significand including the explicit lead bit and e the exponent field, or 1 when the field is zero. When the field is all ones the number is infinity if the significand is the lead bit alone, and otherwise Not-a-Number. The sign of the result, also for zero, infinity and NaN, is the sign bit of the pattern.",
IC,"all 2^80 bit patterns, on 32-bit and 64-bit platforms",
"2^80 patterns cannot be enumerated; the tests decode eight patterns, no subnormal and no number with a fraction.",
[X87],[("Float.Big",X87),("Float.Signbit/Exp/Lead/Frac",X87)],[("se, m","sign and exponent; explicit lead bit and fraction","float80x86.Float")],["NewFromBits(se, m).Big()"])
add("C05","A double-double decodes to the exact sum of its two doubles",
"For every pair of doubles, the multi-precision conversion of the double-double number built from them is their exact, unrounded sum, or the infinity that IEEE addition of the two gives. Not-a-Number is reported, by the conversion and by the predicate alike, exactly when either double is NaN or they are infinities of opposite sign, and the sign of the result is then the sign of the high double. When both doubles are zero the result is a zero with the sign of the high double.",
I,"all 2^128 pairs of double bit patterns, canonical or not",
"2^128 pairs cannot be enumerated; the only test reads 14 finite pairs, discards the NaN flag, and is not among the tests that pass.",
[DD],[("Float.Big",DD),("Float.IsNaN",DD),("precision constant",DD)],[("high, low","the two doubles whose sum is the value","float128ppc.Float")],["NewFromBits(a, b).Big()","NewFromBits(a, b).IsNaN()"])
RND="The accuracy returned with it is Below, Exact or Above exactly as the result is less than, equal to or greater than x."
add("C06","Half precision from multi-precision is correctly rounded, accuracy included",
"For every multi-precision x, whatever its precision and rounding mode, the half-precision number made from it is the one nearest to x, ties to even: subnormal results included, infinity of x's sign from the IEEE 754 overflow threshold on, and zero of x's sign when x is too small. "+RND+" Infinities and zeros map to themselves, sign included, with accuracy Exact.",
IC,"every big.Float value: any sign, exponent, mantissa of any length, precision and rounding mode; 32-bit and 64-bit platforms",
"The inputs are unbounded; no test calls this conversion with more bits than the format holds, above the largest half, or below it into the subnormals with a rounding.",
[B16],[("NewFromBig",B16)],None,["NewFromBig(x)"])
add("C07","Quadruple precision from multi-precision is correctly rounded, with accuracy",
"For every multi-precision x, whatever its precision and rounding mode, the quadruple-precision number made from it is the one nearest to x, ties to even: subnormal results included, infinity of x's sign from the IEEE 754 overflow threshold on, and zero of x's sign when x is too small. "+RND+" Infinities and zeros map to themselves, sign included, with accuracy Exact.",
IC,"every big.Float value: any sign, exponent, mantissa of any length, precision and rounding mode; 32-bit and 64-bit platforms",
"The inputs are unbounded; the tests reach this code only with ten doubles, all exactly representable and in the middle of the range.",
[B128],[("NewFromBig",B128)],None,["NewFromBig(x)"])
add("C08","x86 extended from multi-precision is correctly rounded, accuracy included",
"For every multi-precision x, whatever its precision and rounding mode, the x86 extended number made from it is the one nearest to x, ties to even, in its canonical encoding (lead bit set exactly for normal numbers): subnormal results included, infinity of x's sign from the overflow threshold on, and zero of x's sign when x is too small. "+RND+" Infinities and zeros map to themselves, sign included, with accuracy Exact.",
IC,"every big.Float value: any sign, exponent, mantissa of any length, precision and rounding mode; 32-bit and 64-bit platforms",
"The inputs are unbounded; the tests reach this code only with 1.0 and 2.0.",
[X87],[("NewFromBig",X87)],None,["NewFromBig(x)"])
add("C09","Double-double from multi-precision: nearest high part, nearest remainder",
"For every multi-precision x, whatever its precision and rounding mode, the high double of the double-double number made from it is the double nearest to x and the low double is the double nearest to the exact remainder x - high, ties to even; when the high double overflows the result is infinity of x's sign with a zero low part. The accuracy returned is Below, Exact or Above exactly as high + low is less than, equal to or greater than x. Infinities and zeros map to themselves, sign included, with accuracy Exact.",
I,"every big.Float value: any sign, exponent, mantissa of any length, precision and rounding mode",
"The inputs are unbounded; the only test feeds 14 sums of two doubles, and is not among the tests that pass.",
[DD],[("NewFromBig",DD)],None,["NewFromBig(x)"])
add("C10","Numbers made from float32 and float64 are correctly rounded",
"For every float32 and float64 x other than NaN, the half-precision, quadruple-precision, x86 extended or double-double number made from it is the nearest one to x, ties to even and rounded once, infinities and zeros keeping their sign; the three wider formats hold x exactly. The accuracy returned is Below, Exact or Above exactly as the result is less than, equal to or greater than x. A NaN gives the format's predeclared NaN of the same sign with accuracy Exact.",
IC,"all 2^32 float32 and all 2^64 float64 bit patterns, for each of the four formats; 32-bit and 64-bit platforms",
"The inputs cannot be enumerated; the tests convert float64 only, exactly representable values but for one, and no float32 at all.",
[B16,B128,X87,DD],[("NewFromFloat32, NewFromFloat64",B16),("NewFromFloat32, NewFromFloat64",B128),("NewFromFloat32, NewFromFloat64",X87),("NewFromFloat32, NewFromFloat64",DD)],None,["NewFromFloat32(x)","NewFromFloat64(x)"])
add("C11","Conversion to float32 and float64 is correctly rounded, accuracy included",
"For every half-precision, quadruple-precision, x86 extended and double-double number, the conversion to float32 or float64 gives the nearest float32 or float64, ties to even and rounded once from the exact value, with subnormal results, overflow to infinity and underflow to a signed zero as in IEEE 754. The accuracy returned is Below, Exact or Above exactly as the result is less than, equal to or greater than the number. A NaN converts to a NaN of the same sign with accuracy Exact.",
IC,"every bit pattern of the four formats, both target types; 32-bit and 64-bit platforms",
"2^128 patterns cannot be enumerated; the tests narrow to float64 only, a few dozen numbers that fit exactly, and discard the accuracy.",
[B16,B128,X87,DD],[("Float.Float32, Float.Float64",B16),("Float.Float32, Float.Float64",B128),("Float.Float32, Float.Float64",X87),("Float.Float32, Float.Float64",DD)],None,["f.Float32()","f.Float64()"])
add("C12","Bit patterns survive unchanged and field accessors return exactly their bits",
"In every format that has the accessor, reading back the bits of a number made from a bit pattern returns that pattern unchanged. The sign, exponent, fraction and (x86 extended) lead-bit accessors return exactly the documented bits of the pattern, right-aligned and with nothing else, for every pattern and on every platform.",
IC,"every bit pattern of all five formats; 32-bit and 64-bit platforms",
"The accessors have no test of their own: they are exercised through conversions of a few patterns on one word size.",
[B16,B128,X87,DD,BF],[("NewFromBits, Bits, Signbit, Exp, Frac",B16),("NewFromBits, Bits, Signbit, Exp, Frac",B128),("NewFromBits, Bits, Signbit, Exp, Lead, Frac",X87),("NewFromBits, Bits",DD),("NewFromBits, Signbit, Exp, Frac",BF)],None,["NewFromBits(..).Bits()","f.Signbit()","f.Exp()","f.Frac()","f.Lead()"])
add("C13","Predeclared special values are what their names say",
"In each format, the predeclared positive and negative NaN, infinity and zero are a Not-a-Number, an infinity and a zero of the stated sign according to the format's definition, in its canonical encoding: NaN is recognised as NaN, infinity decodes to the infinity of that sign, and zero to the zero of that sign. No code of the library ever changes them.",
["inputs","histories"],"all 24 predeclared values, at any point of any sequence of calls",
"The tests never read the predeclared values directly, and never after a sequence of calls.",
[B16,B128,X87,DD],[("NaN, NegNaN, Inf, NegInf, Zero, NegZero",B16),("NaN, NegNaN, Inf, NegInf, Zero, NegZero",B128),("NaN, NegNaN, Inf, NegInf, Zero, NegZero",X87),("NaN, NegNaN, Inf, NegInf, Zero, NegZero",DD)],None,["exported variables of each package"])
add("C14","Decoding then encoding returns the same bits",
"For every number of the half-precision, quadruple-precision, x86 extended and double-double formats that is not NaN and is canonically encoded, converting it to multi-precision and back gives the identical bit pattern with accuracy Exact, signed zeros and infinities included.",
IC,"every canonical non-NaN bit pattern of the four formats (x86: lead bit set exactly when the exponent field is non-zero; double-double: high part is the double nearest to the sum, low part not -0); 32-bit and 64-bit platforms",
"Up to 2^128 patterns; the only round-trip test covers 14 double-double pairs and is not among the tests that pass.",
[B16,B128,X87,DD],[("Float.Big, NewFromBig",B16),("Float.Big, NewFromBig",B128),("Float.Big, NewFromBig",X87),("Float.Big, NewFromBig",DD)],None,["NewFromBig(f.Big())"])
add("C15","Native floats survive a trip through every wider format",
"For every float32 or float64 x other than NaN, making a quadruple-precision, x86 extended or double-double number from x and converting it back to the type of x gives x again, bit for bit, with accuracy Exact both ways. The same holds for half precision and every float32 or float64 that is a half-precision value.",
IC,"all float32 and float64 bit patterns but NaN; 32-bit and 64-bit platforms",
"2^64 inputs; the tests never convert a number there and back.",
[B16,B128,X87,DD],[("NewFromFloat32/64, Float32/64",B16),("NewFromFloat32/64, Float32/64",B128),("NewFromFloat32/64, Float32/64",X87),("NewFromFloat32/64, Float32/64",DD)],None,["NewFromFloat64(x).Float64()","NewFromFloat32(x).Float32()"])
add("C16","IsExact16/32/64 hold exactly for the numbers the format can represent",
"For every multi-precision x, the exactness predicate for 16, 32 or 64 bits is true if and only if some IEEE 754 binary16, binary32 or binary64 number equals x; both zeros and both infinities are representable in each. The predicate always returns.",
IC,"every big.Float value: any sign, exponent, mantissa of any length, precision and rounding mode; 32-bit and 64-bit platforms",
"The inputs are unbounded and the predicates have no tests at all.",
["float.go"],[("IsExact16","float.go"),("IsExact32","float.go"),("IsExact64","float.go")],None,["IsExact16(x)","IsExact32(x)","IsExact64(x)"])
add("C17","Conversions leave their arguments alone and hand out independent results",
"No function of the library that takes a multi-precision number changes it in any way: value, sign, precision, rounding mode and accuracy are the same after the call. A multi-precision number the library returns is a new one, shared with no argument, no earlier result and no state of the library, so changing it affects nothing else.",
["inputs","histories"],"every call of every exported function taking or returning a *big.Float, for every argument",
"The tests never look at an argument after the call, and never change a result and convert again.",
["float.go",B16,B128,X87,DD,BF],[("NewFromBig",B16),("NewFromBig",B128),("NewFromBig",X87),("NewFromBig",DD),("Big","all formats"),("IsExact16/32/64","float.go")],None,["arguments and results of NewFromBig, Big, IsExact16/32/64"])
add("C18","Calls share no mutable state and their results depend on arguments only",
"No call of an exported function of the library changes state that outlives the call or that another call can see, other than memory the caller passed in to be appended to. The result of a call depends on its arguments only: not on earlier calls, on concurrent ones, on time, randomness or the environment.",
["schedules","histories"],"all interleavings and all histories of calls of exported functions",
"Tests run a handful of calls in one order on one goroutine; a data race or a cache that goes wrong needs a particular schedule or history.",
["float.go",B16,B128,X87,DD,BF,"internal/strconv/ftoa.go","internal/strconv/decimal.go","internal/strconv/extfloat.go","internal/strconv/itoa.go"],[("package-level variables are written by initialisation only","all packages")],[("predeclared values, power tables, floatInfo, optimize","package-level variables read by conversions","all packages")],["exported functions and methods of every package"])
add("C19","No valid input makes a conversion panic",
"Every exported function and method of the five format packages and of the root package returns normally for every bit pattern, every float32 and float64, and every non-nil multi-precision number, infinities, NaN patterns and extreme exponents included.",
IC,"every input of every exported function of the format packages and the root package; 32-bit and 64-bit platforms",
"Whether a panic statement, an ErrNaN of the multi-precision library or an out-of-range index is reachable depends on all inputs; the tests cover a few dozen ordinary ones.",
["float.go",B16,B128,X87,DD,BF],[("panic after a failed parse of a generated literal","Big in four packages"),("addition of the two halves",DD)],None,["all exported functions and methods"])
add("C20","Results do not depend on the platform's word size",
"Every exported function and method of the format packages and of the root package gives the same result on platforms with 32-bit and with 64-bit int, for every input.",
["configurations","inputs"],"32-bit and 64-bit int, every input",
"The tests run on one 64-bit platform; truncation or overflow of int shows only on the other and only for some inputs.",
["float.go",B16,B128,X87,DD,BF],[("conversions to int in Exp, Lead and NewFromBig","all format packages")],None,["all exported functions and methods under GOARCH=386 and amd64"])
S="internal/strconv/"
add("C21","Integers are formatted correctly in every base",
"For every integer and every base from 2 to 36, the integer formatting functions return the number's digits in that base: lower-case letters from ten on, no leading zeros, a minus sign exactly for negative numbers. The appending forms return the given bytes unchanged followed by that text; any other base panics.",
IC,"all int64 and uint64 values, all bases; 32-bit and 64-bit platforms",
"2^64 values in 35 bases, three algorithms and a 32-bit path; the package has no tests here.",
[S+"itoa.go"],[("formatBits",S+"itoa.go"),("small",S+"itoa.go"),("digit tables",S+"itoa.go")],None,["FormatInt, FormatUint, Itoa, AppendInt, AppendUint"])
add("C22","Float formatting decomposes every float correctly and handles specials",
"With bit size 16, 32 or 64, float formatting first rounds to the nearest value of that size. For values that are then not-a-number or infinite it gives exactly NaN, +Inf or -Inf, whatever the format letter and for every precision up to a million; for finite ones the binary format 'b' prints exactly the sign, integer significand and binary exponent whose product is the value. The appending form returns the given bytes unchanged followed by the same text, and any other bit size panics.",
IC,"all float64 inputs, bit sizes 16, 32, 64, every precision up to a million; 32-bit and 64-bit platforms",
"2^64 inputs; the package has no tests here.",
[S+"ftoa.go"],[("genericFtoa",S+"ftoa.go"),("fmtB",S+"ftoa.go"),("floatInfo parameters",S+"ftoa.go")],None,["FormatFloat","AppendFloat"])
add("C23","The decimal conversion tables hold the constants they stand for",
"Every entry of the tables the decimal conversions rely on is the number it stands for: the cached powers of ten are the 64-bit normalised values nearest to the powers (exact where one is), the small powers of ten are exact, and each left-shift entry holds the decimal digits of the power of five and the count of digits the shift adds. Format parameters (significand bits, exponent bits, bias) are those of the IEEE 754 formats.",
I,"every entry of every table",
"A wrong entry affects only inputs that reach it through one path of the algorithm; no test reaches these tables.",
[S+"extfloat.go",S+"decimal.go",S+"ftoa.go",S+"itoa.go"],[("powersOfTen, smallPowersOfTen, uint64pow10",S+"extfloat.go"),("leftcheats",S+"decimal.go"),("float16info, float32info, float64info",S+"ftoa.go")],None,["package-level tables"])
add("C24","The shortest decimal identifies the float and is the shortest that does",
"With negative precision, float formatting prints the fewest decimal digits that read back as the same float of the given size, and among those the closest to it.",
I,"all float64 inputs, bit sizes 16, 32, 64",
"2^64 inputs; the package has no tests here.",
[S+"ftoa.go",S+"extfloat.go",S+"decimal.go"],[("ShortestDecimal with fallback to roundShortest",S+"extfloat.go")],None,["FormatFloat(f, fmt, -1, bitSize)"])
add("C25","Fixed-precision decimal output is the correctly rounded value",
"With non-negative precision, float formatting prints the decimal with that many digits that is nearest to the exact value of the float, ties to even.",
I,"all float64 inputs, bit sizes 16, 32, 64, all precisions",
"2^64 inputs at unbounded precision; the package has no tests here.",
[S+"ftoa.go",S+"extfloat.go",S+"decimal.go"],[("FixedDecimal with fallback to decimal.Round",S+"extfloat.go")],None,["FormatFloat(f, fmt, prec, bitSize)"])
add("C26","Decoded numbers carry the precision and rounding mode of their format",
"For every bit pattern of every format, the multi-precision number its conversion returns (also for zero, infinity and NaN) has rounding mode ToNearestEven and a precision that is the significand length of the format, lead bit included: 8 bits for bfloat16, 11 for half, 64 for x86 extended and 113 for quadruple precision. For double-double the precision is at least the 106 bits the format gives. Arithmetic that stores into such a number is therefore rounded as in the format.",
IC,"every bit pattern of the five formats; 32-bit and 64-bit platforms",
"The tests compare values only; a result of another precision or mode compares equal, and shows in later arithmetic alone.",
[B16,B128,X87,DD,BF],[("Float.Big","all five formats")],None,["precision and mode of f.Big()"])
add("C27","Floats are plain comparable values: the same bits make the same value",
"The Float type of every package is a plain value: it can be compared with ==, used as a map key and copied, and contains no pointer, slice, map, function or interface. Its zero value is positive zero. Every number of the packages that have Bits is the same, field by field, as NewFromBits of its own bits, however it was made (NewFromBits, NewFromFloat32, NewFromFloat64, NewFromBig, predeclared variable); so in binary16, binary128 and float80x86 two numbers are equal under == exactly if their bits are, and no operation can tell two numbers with the same bits apart.",
IC,"every bit pattern, every native float, every *big.Float (not for double-double, whose fields are two native floats), the predeclared variables; 32-bit and 64-bit platforms",
"The tests compare bits or single results; state beside the bits shows only when numbers of different origin are compared, or in a map.",
[B16,B128,X87,DD,BF],[("Float","all five packages"),("NewFromBits, NewFromFloat32, NewFromFloat64, NewFromBig, Bits","the four packages that have them")],None,["Float{}, == and map keys, f == NewFromBits(f.Bits())"])
add("C28","Memory does not grow with the exponent",
"No exported function of the public packages allocates memory in proportion to the exponent of a number or to a shift count derived from it: whatever the exponent of a *big.Float argument (up to 2^31), no single operation needs more than 2^20 bits beyond the precision of the arguments. A number of a few bits such as 2^(2^30) is converted, rejected or classified as cheaply as any other; in particular its integer part, its decimal text, its fraction and sums that align it with a number of ordinary size are never computed.",
IC,"every exported function of the public packages; every input of it, the full exponent range of *big.Float; 32-bit and 64-bit platforms",
"The tests use numbers of ordinary size; the result is correct for the others too, after seconds and gigabytes.",
["float.go",B16,B128,X87,DD],[("NewFromBig","all four encoders"),("IsExact16, IsExact32, IsExact64","root package")],None,["memory allocated by NewFromBig and IsExactN for huge exponents"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
