// Package models calls what the analyser has models for. It is not part of any
// check: tools/selftest.py runs every function on inputs, has the analyser
// interpret it abstractly on sets of inputs, and compares.
package models

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"unicode/utf8"
)

func fl(x uint64) float64       { return math.Float64frombits(x) }
func bf(x float64) uint64       { return math.Float64bits(x) }
func f32(x uint64) float32      { return math.Float32frombits(uint32(x)) }
func b32(x float32) uint64      { return uint64(math.Float32bits(x)) }
func acc(a big.Accuracy) uint64 { return uint64(a + 1) }
func bo(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// words packs the first 16 bytes and the length.
func words(s string) (x, y uint64) {
	for i := 0; i < len(s); i++ {
		if i < 8 {
			x = x<<8 | uint64(s[i])
		} else if i < 15 {
			y = y<<8 | uint64(s[i])
		}
	}
	return x, y | uint64(len(s))<<56
}

// num gives a finite number for x.
func num(x uint64) float64 {
	if v := fl(x); !math.IsNaN(v) && !math.IsInf(v, 0) {
		return v
	}
	return fl(x &^ (1 << 62))
}

// show packs a big.Float.
func show(x *big.Float) (uint64, uint64) {
	v, a := x.Float64()
	return bf(v), acc(a) | uint64(x.Prec())<<4 | uint64(x.Mode())<<40 | acc(x.Acc())<<48 | uint64(x.MinPrec())<<52
}

func BigNewFloat(a, b uint64) (uint64, uint64) { return show(big.NewFloat(num(a))) }
func BigSetPrec(a, b uint64) (uint64, uint64) {
	return show(big.NewFloat(num(a)).SetPrec(uint(b & 63)))
}
func BigSetMode(a, b uint64) (uint64, uint64) {
	return show(big.NewFloat(num(a)).SetMode(big.RoundingMode(b % 6)).SetPrec(uint(b>>3&31 + 1)))
}
func BigSetModeNeg(a, b uint64) (uint64, uint64) {
	x := big.NewFloat(-math.Abs(num(a)))
	x.SetMode(big.RoundingMode(b % 6))
	y := new(big.Float).SetPrec(uint(b>>3&31 + 1)).SetMode(x.Mode())
	y.Set(x)
	return show(y)
}
func BigSet(a, b uint64) (uint64, uint64) {
	x := new(big.Float).SetPrec(uint(b & 15)).SetMode(big.ToZero)
	return show(x.Set(big.NewFloat(num(a)).SetMode(big.AwayFromZero)))
}
func BigCopy(a, b uint64) (uint64, uint64) {
	x := new(big.Float).SetPrec(uint(b & 15)).SetMode(big.ToZero)
	return show(x.Copy(big.NewFloat(num(a)).SetMode(big.AwayFromZero)))
}
func BigMantExp(a, b uint64) (uint64, uint64) {
	m := new(big.Float).SetPrec(uint(b & 31))
	e := big.NewFloat(num(a)).MantExp(m)
	x, y := show(m)
	return x ^ uint64(e)<<32, y
}
func BigMantExpNil(a, b uint64) (uint64, uint64) {
	return uint64(big.NewFloat(num(a)).MantExp(nil)), 0
}
func BigSetMantExp(a, b uint64) (uint64, uint64) {
	m := new(big.Float).SetPrec(uint(b & 31))
	return show(m.SetMantExp(big.NewFloat(num(a)), int(int8(b>>8))))
}
func BigSetMantExpSelf(a, b uint64) (uint64, uint64) {
	m := big.NewFloat(num(a))
	return show(m.SetMantExp(m, int(int16(b>>8))))
}
func BigPreds(a, b uint64) (uint64, uint64) {
	x := new(big.Float)
	if v := fl(a); !math.IsNaN(v) {
		x.SetFloat64(v)
	}
	return bo(x.IsInf()) | bo(x.IsInt())<<1 | bo(x.Signbit())<<2 | uint64(x.Sign()+1)<<3, uint64(x.MinPrec())
}
func BigSetInf(a, b uint64) (uint64, uint64) {
	return show(big.NewFloat(num(a)).SetInf(b&1 != 0))
}
func BigSetUint64(a, b uint64) (uint64, uint64) {
	return show(new(big.Float).SetPrec(uint(b & 63)).SetUint64(a))
}
func BigSetInt64(a, b uint64) (uint64, uint64) {
	return show(new(big.Float).SetPrec(uint(b & 63)).SetInt64(int64(a)))
}
func BigSetFloat64(a, b uint64) (uint64, uint64) {
	return show(new(big.Float).SetPrec(uint(b & 63)).SetFloat64(num(a)))
}
func BigSetInt(a, b uint64) (uint64, uint64) {
	return show(new(big.Float).SetPrec(uint(b & 63)).SetInt(big.NewInt(int64(a))))
}
func BigSetIntPrec(a, b uint64) (uint64, uint64) {
	return show(new(big.Float).SetInt(big.NewInt(int64(a))))
}
func BigNeg(a, b uint64) (uint64, uint64) {
	return show(new(big.Float).SetPrec(uint(b & 15)).Neg(big.NewFloat(num(a))))
}
func BigAbs(a, b uint64) (uint64, uint64) {
	return show(new(big.Float).SetPrec(uint(b & 15)).Abs(big.NewFloat(num(a))))
}
func BigCmp(a, b uint64) (uint64, uint64) {
	return uint64(big.NewFloat(num(a)).Cmp(big.NewFloat(num(b)))), 0
}
func BigCmpNear(a, b uint64) (uint64, uint64) {
	return uint64(big.NewFloat(num(a)).Cmp(big.NewFloat(num(a ^ b&1)))), 0
}
func BigFloat64(a, b uint64) (uint64, uint64) {
	x := new(big.Float).SetPrec(100).SetMantExp(new(big.Float).SetUint64(a|1<<63), int(int8(b))-1070)
	v, c := x.Float64()
	return bf(v), acc(c)
}
func BigFloat32(a, b uint64) (uint64, uint64) {
	x := new(big.Float).SetMantExp(new(big.Float).SetUint64(a|1<<63), int(int8(b)))
	if b>>8&1 == 1 {
		x.Neg(x)
	}
	v, c := x.Float32()
	return b32(v), acc(c)
}
func BigFloat32Sub(a, b uint64) (uint64, uint64) {
	x := new(big.Float).SetMantExp(new(big.Float).SetUint64(a|1<<63), int(b&31)-220)
	v, c := x.Float32()
	return b32(v), acc(c)
}
func BigUint64(a, b uint64) (uint64, uint64) {
	x := big.NewFloat(num(a))
	x.SetMantExp(x, int(int8(b)))
	v, c := x.Uint64()
	return v, acc(c)
}
func BigInt64(a, b uint64) (uint64, uint64) {
	x := big.NewFloat(num(a))
	x.SetMantExp(x, int(int8(b)))
	v, c := x.Int64()
	return uint64(v), acc(c)
}
func BigUint64Near(a, b uint64) (uint64, uint64) {
	x := new(big.Float).SetMantExp(new(big.Float).SetUint64(a|1<<63), -int(b&63))
	if b>>6&3 == 3 {
		x.Neg(x)
	}
	v, c := x.Uint64()
	return v, acc(c)
}
func BigInt64Near(a, b uint64) (uint64, uint64) {
	x := new(big.Float).SetMantExp(new(big.Float).SetUint64(a|1<<63), -int(b&63))
	if b>>6&1 == 1 {
		x.Neg(x)
	}
	v, c := x.Int64()
	return uint64(v), acc(c)
}
func BigInt(a, b uint64) (uint64, uint64) {
	x := new(big.Float).SetMantExp(new(big.Float).SetUint64(a|1<<63), -int(b&63))
	if b>>6&1 == 1 {
		x.Neg(x)
	}
	v, c := x.Int(nil)
	return uint64(v.Int64()), acc(c) | uint64(v.BitLen())<<8
}
func BigParse(a, b uint64) (uint64, uint64) {
	x, base, err := big.ParseFloat(fmt.Sprintf("0b%d.%020bp%d", a>>60&1, a&0xFFFFF, int8(b)), 0, uint(b>>8&31), big.ToNearestEven)
	if err != nil {
		return 1, 2
	}
	v, c := show(x)
	return v, c ^ uint64(base)<<60
}
func BigParseHex(a, b uint64) (uint64, uint64) {
	x := new(big.Float)
	_, _, err := x.Parse(fmt.Sprintf("-0x%x.%05xp%+d", a>>60, a&0xFFFFF, int8(b)), 0)
	if err != nil {
		return 1, 2
	}
	return show(x)
}
func BigSetString(a, b uint64) (uint64, uint64) {
	x, ok := new(big.Float).SetPrec(uint(b & 31)).SetString("0b" + strconv.FormatUint(a, 2))
	if !ok {
		return 1, 2
	}
	return show(x)
}
func BigAdd(a, b uint64) (uint64, uint64) {
	return show(new(big.Float).Add(big.NewFloat(num(a)), big.NewFloat(num(b))))
}
func BigAddPrec(a, b uint64) (uint64, uint64) {
	return show(new(big.Float).SetPrec(20).Add(big.NewFloat(num(a)), big.NewFloat(num(a^b&0xFFF0000000000000))))
}
func BigSub(a, b uint64) (uint64, uint64) {
	return show(new(big.Float).SetPrec(uint(b&63)).Sub(big.NewFloat(num(a)), big.NewFloat(num(a^b&0xFFFF00000000))))
}
func BigMul(a, b uint64) (uint64, uint64) {
	return show(new(big.Float).SetPrec(uint(b&31)).Mul(big.NewFloat(num(a)), big.NewFloat(4)))
}
func BigQuo(a, b uint64) (uint64, uint64) {
	return show(new(big.Float).SetPrec(uint(b&31)).Quo(big.NewFloat(num(a)), big.NewFloat(-8)))
}
func BigAlias(a, b uint64) (uint64, uint64) {
	x := big.NewFloat(num(a))
	y := x
	y.Neg(x).SetPrec(10)
	return show(x)
}

func i128(a, b uint64) *big.Int {
	x := new(big.Int).SetUint64(a)
	x.Lsh(x, 64)
	return x.Or(x, new(big.Int).SetUint64(b))
}
func out(x *big.Int) (uint64, uint64) {
	m := new(big.Int).SetUint64(math.MaxUint64)
	lo := new(big.Int).And(x, m).Uint64()
	hi := new(big.Int).Rsh(x, 64)
	hi.And(hi, m)
	return hi.Uint64(), lo
}
func IntLsh(a, b uint64) (uint64, uint64) { return out(new(big.Int).Lsh(i128(0, a), uint(b&63))) }
func IntRsh(a, b uint64) (uint64, uint64) { return out(new(big.Int).Rsh(i128(a, b), uint(b&63))) }
func IntAnd(a, b uint64) (uint64, uint64) {
	return out(new(big.Int).And(i128(a, b), i128(b, a)))
}
func IntOr(a, b uint64) (uint64, uint64) { return out(new(big.Int).Or(i128(a, b), i128(b, a))) }
func IntXor(a, b uint64) (uint64, uint64) {
	return out(new(big.Int).Xor(i128(a, b), i128(b, a)))
}
func IntAndNot(a, b uint64) (uint64, uint64) {
	return out(new(big.Int).AndNot(i128(a, b), i128(b, a)))
}
func IntAdd(a, b uint64) (uint64, uint64) {
	return out(new(big.Int).Add(i128(a>>1, b), i128(b>>1, a)))
}
func IntSub(a, b uint64) (uint64, uint64) {
	return out(new(big.Int).Sub(i128(1<<63|a, b), i128(b>>1, a)))
}
func IntMul(a, b uint64) (uint64, uint64) {
	return out(new(big.Int).Mul(i128(a&0xFF, b), big.NewInt(10)))
}
func IntDiv(a, b uint64) (uint64, uint64) {
	return out(new(big.Int).Div(i128(a, b), i128(1, 0)))
}
func IntMod(a, b uint64) (uint64, uint64) {
	return out(new(big.Int).Mod(i128(a, b), i128(1<<20, 0)))
}
func IntQuoSigned(a, b uint64) (uint64, uint64) {
	x := new(big.Int).Quo(big.NewInt(int64(a)), big.NewInt(1<<12))
	return uint64(x.Int64()), uint64(x.Sign() + 1)
}
func IntDivSigned(a, b uint64) (uint64, uint64) {
	q, m := new(big.Int).DivMod(big.NewInt(int64(a)), big.NewInt(1<<12), new(big.Int))
	return uint64(q.Int64()), uint64(m.Int64())
}
func IntQuoRem(a, b uint64) (uint64, uint64) {
	q, m := new(big.Int).QuoRem(big.NewInt(int64(a)), big.NewInt(1<<12), new(big.Int))
	return uint64(q.Int64()), uint64(m.Int64())
}
func IntBits(a, b uint64) (uint64, uint64) {
	x := i128(a, b)
	x.SetBit(x, int(a&127), 1)
	x.SetBit(x, int(b&127), 0)
	return out(x)
}
func IntBit(a, b uint64) (uint64, uint64) {
	x := i128(a, b)
	return uint64(x.Bit(int(a & 127))), uint64(x.BitLen()) | uint64(x.TrailingZeroBits())<<16
}
func IntCmp(a, b uint64) (uint64, uint64) {
	x, y := i128(a, b), i128(a, b^1)
	return uint64(x.Cmp(y)), uint64(x.CmpAbs(y.Neg(y))) ^ uint64(y.Sign())
}
func IntBytes(a, b uint64) (uint64, uint64) {
	p := i128(a, b).Bytes()
	var x, y uint64
	for _, c := range p {
		x, y = x<<8|y>>56, y<<8|uint64(c)
	}
	return x ^ uint64(len(p)), y
}
func IntSetBytes(a, b uint64) (uint64, uint64) {
	var p [10]byte
	for i := range p {
		p[i] = byte(a >> uint(i*5))
	}
	return out(new(big.Int).SetBytes(p[:b&7]))
}
func IntFillBytes(a, b uint64) (uint64, uint64) {
	p := make([]byte, 16)
	i128(a, b).FillBytes(p)
	var x, y uint64
	for _, c := range p {
		x, y = x<<8|y>>56, y<<8|uint64(c)
	}
	return x, y
}
func IntIs(a, b uint64) (uint64, uint64) {
	x := i128(a, b)
	y := new(big.Int).Neg(x)
	return bo(x.IsInt64()) | bo(x.IsUint64())<<1 | bo(y.IsInt64())<<2 | bo(y.IsUint64())<<3, x.Uint64()
}
func IntSetString(a, b uint64) (uint64, uint64) {
	x, ok := new(big.Int).SetString(fmt.Sprintf("%016x%02x", a, b&0xFF), 16)
	if !ok {
		return 1, 1
	}
	return out(x)
}
func IntText(a, b uint64) (uint64, uint64) { return words(big.NewInt(int64(a)).Text(2 << (b & 3))) }
func IntExp(a, b uint64) (uint64, uint64) {
	return out(new(big.Int).Exp(big.NewInt(2), big.NewInt(int64(b&127)), nil))
}
func IntWords(a, b uint64) (uint64, uint64) {
	w := i128(a, b).Bits()
	var x, y uint64
	if len(w) > 0 {
		y = uint64(w[0])
	}
	if len(w) > 1 {
		x = uint64(w[1])
	}
	return x, y
}
func IntNegLogic(a, b uint64) (uint64, uint64) {
	x := new(big.Int).And(big.NewInt(int64(a)), big.NewInt(int64(b)))
	return uint64(x.Int64()), uint64(new(big.Int).Not(big.NewInt(int64(a))).Int64())
}

func MathPreds(a, b uint64) (uint64, uint64) {
	x := fl(a)
	return bo(math.IsNaN(x)) | bo(math.IsInf(x, 0))<<1 | bo(math.IsInf(x, 1))<<2 | bo(math.IsInf(x, -1))<<3 | bo(math.Signbit(x))<<4, 0
}
func MathCopysign(a, b uint64) (uint64, uint64) {
	return bf(math.Copysign(num(a), num(b))), bf(math.Abs(num(a)))
}
func MathLdexp(a, b uint64) (uint64, uint64) { return bf(math.Ldexp(num(a), int(int8(b)))), 0 }
func MathLdexpFar(a, b uint64) (uint64, uint64) {
	return bf(math.Ldexp(num(a), int(int16(b)))), 0
}
func MathFrexp(a, b uint64) (uint64, uint64) {
	m, e := math.Frexp(num(a))
	return bf(m), uint64(e)
}
func MathModf(a, b uint64) (uint64, uint64) {
	x, y := math.Modf(num(a))
	return bf(x), bf(y)
}
func MathFloor(a, b uint64) (uint64, uint64) { return bf(math.Floor(num(a))), bf(math.Trunc(num(a))) }
func MathPow(a, b uint64) (uint64, uint64)   { return bf(math.Pow(2, float64(int8(a)))), 0 }
func MathLogb(a, b uint64) (uint64, uint64)  { return uint64(math.Ilogb(num(a | 1))), 0 }
func FloatCmp(a, b uint64) (uint64, uint64) {
	x, y := fl(a), fl(b)
	return bo(x < y) | bo(x <= y)<<1 | bo(x == y)<<2 | bo(x != y)<<3 | bo(x > y)<<4 | bo(x >= y)<<5, 0
}
func FloatCmpNear(a, b uint64) (uint64, uint64) {
	x, y := fl(a), fl(a^b&3)
	return bo(x < y) | bo(x <= y)<<1 | bo(x == y)<<2 | bo(x != y)<<3 | bo(x > y)<<4 | bo(x >= y)<<5, 0
}
func FloatAdd(a, b uint64) (uint64, uint64) { return bf(num(a) + num(b)), 0 }
func FloatAddNear(a, b uint64) (uint64, uint64) {
	return bf(num(a) + num(a^b&0x83F0000000000000)), bf(num(a) - num(a^b&0x83F0000000000000))
}
func FloatScale(a, b uint64) (uint64, uint64) { return bf(num(a) * 0x1p-60), bf(num(a) / 0x1p-30) }
func FloatNeg(a, b uint64) (uint64, uint64)   { return bf(-num(a)), b32(-f32(a &^ (1 << 30))) }
func FloatTo32(a, b uint64) (uint64, uint64)  { return b32(float32(num(a))), 0 }
func FloatTo32Near(a, b uint64) (uint64, uint64) {
	x := num(a&^(0x7FF<<52) | (880+b&31)<<52)
	return b32(float32(x)), 0
}
func FloatFrom32(a, b uint64) (uint64, uint64) {
	x := f32(a)
	if x != x {
		return 0, 0
	}
	return bf(float64(x)), 0
}
func FloatToInt(a, b uint64) (uint64, uint64) {
	x := math.Ldexp(fl(a&^(0x7FF<<52)|1023<<52), int(b&63)-1)
	if math.Abs(x) >= 0x1p62 {
		return 0, 0
	}
	return uint64(int64(x)), uint64(math.Abs(x))
}
func FloatFromInt(a, b uint64) (uint64, uint64) {
	return bf(float64(int64(a))), bf(float64(b))
}
func FloatFromSmall(a, b uint64) (uint64, uint64) {
	return bf(float64(int16(a))), b32(float32(uint16(b)))
}

func BitsLen(a, b uint64) (uint64, uint64) {
	return uint64(bits.Len64(a)) | uint64(bits.Len16(uint16(b)))<<8, uint64(bits.LeadingZeros64(b)) | uint64(bits.TrailingZeros32(uint32(a)))<<8
}
func BitsShift(a, b uint64) (uint64, uint64) {
	return a << (b & 127) >> 3, uint64(int64(a) >> (b & 127))
}
func BitsNarrow(a, b uint64) (uint64, uint64) {
	return uint64(int16(a)) ^ uint64(int8(b)), uint64(uint16(a)+uint16(b)) | uint64(uint32(a)*uint32(b&3))<<20
}
func BitsArith(a, b uint64) (uint64, uint64) { return a + b, a - b }
func BitsMul(a, b uint64) (uint64, uint64)   { return (a & 0xFFFF) * (b & 0xF), uint64(-int64(a)) }
func BitsDiv(a, b uint64) (uint64, uint64) {
	return uint64(int64(a)/8) ^ a/16, uint64(int64(a)%8) ^ a%16
}
func BitsDivTen(a, b uint64) (uint64, uint64) {
	return a & 0xFFF / 10, uint64(int16(b) % 10)
}
func BitsLogic(a, b uint64) (uint64, uint64) { return a&b | ^a&^b, a ^ b }
func BitsCmp(a, b uint64) (uint64, uint64) {
	return bo(a < b) | bo(int64(a) < int64(b))<<1 | bo(a == b)<<2, bo(uint8(a) >= uint8(b))
}
func BitsReverse(a, b uint64) (uint64, uint64) {
	return bits.Reverse64(a), uint64(bits.OnesCount64(b & 0xFF))
}
func BitsAdd64(a, b uint64) (uint64, uint64) {
	s, c := bits.Add64(a, b, a&1)
	return s, c
}
func BitsMul64(a, b uint64) (uint64, uint64) { return bits.Mul64(a, 1<<(b&31)) }
func BitsRotate(a, b uint64) (uint64, uint64) {
	return bits.RotateLeft64(a, int(b&63)), uint64(bits.ReverseBytes32(uint32(a)))
}

func TextSprintfB(a, b uint64) (uint64, uint64) { return words(fmt.Sprintf("%012b", a&0xFFF)) }
func TextSprintfD(a, b uint64) (uint64, uint64) {
	return words(fmt.Sprintf("%d|%5d|%+d", int8(a), int8(b), int8(a>>8)))
}
func TextSprintfX(a, b uint64) (uint64, uint64) {
	return words(fmt.Sprintf("%04X:%x", uint16(a), uint8(b)))
}
func TextSprintfZ(a, b uint64) (uint64, uint64) {
	return words(fmt.Sprintf("%05d%-4d|%o", int8(a), int8(b), uint8(a>>8)))
}
func TextSprintfS(a, b uint64) (uint64, uint64) {
	return words(fmt.Sprintf("%s%v%c%q%t", string(rune('a'+a&15)), int8(b), 'x', "q", a&16 != 0))
}
func TextFormatUint(a, b uint64) (uint64, uint64) { return words(strconv.FormatUint(a, 16)) }
func TextFormatBin(a, b uint64) (uint64, uint64)  { return words(strconv.FormatUint(a&0xFFFF, 2)) }
func TextFormatInt(a, b uint64) (uint64, uint64)  { return words(strconv.FormatInt(int64(a), 8)) }
func TextItoa(a, b uint64) (uint64, uint64)       { return words(strconv.Itoa(int(int16(a)))) }
func TextAppendInt(a, b uint64) (uint64, uint64) {
	return words(string(strconv.AppendInt([]byte("x="), int64(int8(a)), 10)))
}
func TextParseUint(a, b uint64) (uint64, uint64) {
	x, err := strconv.ParseUint(fmt.Sprintf("%010b", a&0x3FF), 2, 64)
	if err != nil {
		return 1, 1
	}
	return x, 0
}
func TextStrings(a, b uint64) (uint64, uint64) {
	s := strings.Repeat("ab", int(a&3)) + string(rune('0'+b&7)) + "cd"
	x, y := words(strings.TrimLeft(s, "ab"))
	return x ^ bo(strings.HasPrefix(s, "ab")) ^ bo(strings.HasSuffix(s, "d"))<<1 ^ uint64(strings.IndexByte(s, 'c'))<<8, y ^ bo(strings.Contains(s, "bc"))
}
func TextTrim(a, b uint64) (uint64, uint64) {
	s := fmt.Sprintf("%08b", a&0xFF)
	x, y := words(strings.TrimRight(s, "0"))
	u, v := words(strings.TrimLeft(s, "0"))
	return x ^ u, y ^ v
}
func TextBuilder(a, b uint64) (uint64, uint64) {
	var sb strings.Builder
	for i := 7; i >= 0; i-- {
		sb.WriteByte(byte('0' + a>>uint(i)&1))
	}
	sb.WriteString("p")
	sb.WriteRune(rune('A' + b&3))
	return words(sb.String())
}
func TextBuffer(a, b uint64) (uint64, uint64) {
	var w bytes.Buffer
	fmt.Fprintf(&w, "%d", int8(a))
	if b&1 == 1 {
		w.Reset()
	}
	w.Write([]byte{byte(b&7) + '0'})
	x, y := words(w.String())
	return x, y ^ uint64(w.Len())
}
func TextSlices(a, b uint64) (uint64, uint64) {
	p := make([]byte, 0, 4)
	for i := uint64(0); i < a&7; i++ {
		p = append(p, byte('a'+i))
	}
	q := append(p[:len(p):len(p)], "xyz"...)
	if len(q) > 2 {
		copy(q[1:], q)
	}
	x, y := words(string(q))
	return x, y ^ uint64(len(p))
}
func TextRange(a, b uint64) (uint64, uint64) {
	n := uint64(0)
	for i, c := range fmt.Sprintf("%06b", a&63) {
		if c == '1' {
			n |= 1 << uint(i)
		}
	}
	return n, 0
}

type pair struct{ x, y uint64 }

func (p *pair) swap()      { p.x, p.y = p.y, p.x }
func (p pair) sum() uint64 { return p.x + p.y }

type summer interface{ sum() uint64 }

func LangStructs(a, b uint64) (uint64, uint64) {
	p := pair{a, b}
	q := p
	q.swap()
	var s summer = q
	if t, ok := s.(pair); ok {
		return t.x, p.sum() ^ s.sum()
	}
	return 0, 0
}
func LangClosures(a, b uint64) (uint64, uint64) {
	n := a
	add := func(k uint64) { n += k }
	for i := uint64(0); i < b&3; i++ {
		defer func() { add(1) }()
		add(i)
	}
	f := pair{n, b}.sum
	return f(), n
}
func LangMaps(a, b uint64) (uint64, uint64) {
	m := map[uint64]uint64{1: 10, 2: 20}
	m[a&3] += 5
	v, ok := m[b&3]
	delete(m, 1)
	return v | bo(ok)<<8, uint64(len(m))
}
func LangRecover(a, b uint64) (x, y uint64) {
	defer func() {
		if e := recover(); e != nil {
			y = 99
		}
	}()
	t := [4]uint64{1, 2, 3, 4}
	x = t[a&7]
	y = uint64(len(t[b&3:]))
	return
}
func LangPanic(a, b uint64) (uint64, uint64) {
	t := []uint64{1, 2, 3}
	return t[a&3], t[b&1]
}
func LangSwitch(a, b uint64) (uint64, uint64) {
	switch e := int(a >> 52 & 0x7FF); {
	case e == 0x7FF:
		return 1, 0
	case e == 0:
		fallthrough
	case e < 3:
		return 2, uint64(e)
	}
	return 3, 0
}
func LangLoop(a, b uint64) (uint64, uint64) {
	m, n := a&0x3FF, uint64(0)
	for m != 0 && m&0x200 == 0 {
		m <<= 1
		n++
	}
outer:
	for i := uint64(0); i < 4; i++ {
		for j := uint64(0); j < 4; j++ {
			if b>>(i*4+j)&1 == 1 {
				n |= i<<8 | j<<16
				break outer
			}
		}
	}
	return m, n
}

// any gives a big.Float that may be zero or infinite.
func anyBig(x uint64) *big.Float {
	switch v := fl(x); {
	case x&7 == 0:
		return new(big.Float).SetInf(x>>63 == 1)
	case x&7 == 1:
		z := new(big.Float)
		if x>>63 == 1 {
			z.Neg(z)
		}
		return z
	case math.IsNaN(v):
		return big.NewFloat(1)
	default:
		return big.NewFloat(v)
	}
}
func AnyPreds(a, b uint64) (uint64, uint64) {
	x := anyBig(a)
	return bo(x.IsInf()) | bo(x.IsInt())<<1 | bo(x.Signbit())<<2 | uint64(x.Sign()+1)<<3, uint64(x.MinPrec()) | uint64(x.Prec())<<32
}
func AnyCmp(a, b uint64) (uint64, uint64) { return uint64(anyBig(a).Cmp(anyBig(b))), 0 }
func AnyAdd(a, b uint64) (uint64, uint64) { return show(new(big.Float).Add(anyBig(a), anyBig(b))) }
func AnySub(a, b uint64) (uint64, uint64) { return show(new(big.Float).Sub(anyBig(a), anyBig(b))) }
func AnySubPrec(a, b uint64) (uint64, uint64) {
	return show(new(big.Float).SetPrec(70).SetMode(big.ToNegativeInf).Sub(anyBig(a), anyBig(a)))
}
func AnyMantExp(a, b uint64) (uint64, uint64) {
	m := new(big.Float)
	e := anyBig(a).MantExp(m)
	x, y := show(m)
	return x, y ^ uint64(e)<<50
}
func AnySetMantExp(a, b uint64) (uint64, uint64) {
	return show(new(big.Float).SetMantExp(anyBig(a), int(int8(b))))
}
func AnySetPrec(a, b uint64) (uint64, uint64) { return show(anyBig(a).SetPrec(uint(b & 3))) }
func AnySet(a, b uint64) (uint64, uint64) {
	return show(new(big.Float).SetPrec(uint(b & 3)).Set(anyBig(a)))
}
func AnySelf(a, b uint64) (uint64, uint64) {
	x := anyBig(a)
	x.SetPrec(12)
	x.Set(x)
	x.Copy(x)
	return show(x)
}
func AnyFloat64(a, b uint64) (uint64, uint64) {
	v, c := anyBig(a).Float64()
	return bf(v), acc(c)
}
func AnyFloat32(a, b uint64) (uint64, uint64) {
	v, c := anyBig(a).Float32()
	return b32(v), acc(c)
}
func AnyInts(a, b uint64) (uint64, uint64) {
	x := anyBig(a)
	u, c := x.Uint64()
	i, d := x.Int64()
	return u ^ acc(c)<<62, uint64(i) ^ acc(d)<<62
}
func AnyInt(a, b uint64) (uint64, uint64) {
	i, c := anyBig(a).Int(nil)
	if i == nil {
		return 77, acc(c)
	}
	return uint64(i.BitLen()), acc(c)
}
func AnyNegAbs(a, b uint64) (uint64, uint64) {
	x := anyBig(a)
	p, q := show(x.Neg(x))
	r, s := show(x.Abs(x))
	return p ^ r, q ^ s
}
func AnyMul(a, b uint64) (uint64, uint64) {
	return show(new(big.Float).Mul(anyBig(a), big.NewFloat(0.5)))
}
func AnyQuo(a, b uint64) (uint64, uint64) {
	return show(new(big.Float).Quo(anyBig(a), big.NewFloat(0.25)))
}
func AnyModeAcc(a, b uint64) (uint64, uint64) {
	x := anyBig(a).SetPrec(5)
	p, q := show(x)
	r, s := show(x.SetMode(big.ToZero))
	return p ^ r<<1, q ^ s<<1
}
func BigNewFloatNaN(a, b uint64) (uint64, uint64) { return show(big.NewFloat(fl(a | 0x7FF<<52))) }
func BigZeroSetPrec(a, b uint64) (uint64, uint64) {
	x := new(big.Float).SetPrec(0).SetMode(big.RoundingMode(b % 6))
	x.SetInt64(int64(a))
	return show(x)
}
func BigParseWords(a, b uint64) (uint64, uint64) {
	s := []string{"Inf", "-inf", "+Inf", "NaN", "", "0", "-0", "1.5", "0x1p3", "0b1.1", "1e2", "0b1.1p-3", "1.5p2", "0x.8p1", "12p", "0b12"}[a&15]
	x := new(big.Float).SetPrec(uint(b & 31))
	_, base, err := x.Parse(s, 0)
	if err != nil {
		return 5, 5
	}
	p, q := show(x)
	return p, q ^ uint64(base)<<60
}
func BigParseBase2(a, b uint64) (uint64, uint64) {
	x := new(big.Float).SetPrec(64)
	_, _, err := x.Parse(fmt.Sprintf("%b.%04bp%d", a&0xFF, b&0xF, int8(b>>8)), 2)
	if err != nil {
		return 5, 5
	}
	return show(x)
}
func BigText(a, b uint64) (uint64, uint64) {
	return words(big.NewFloat(float64(int8(a))/4).Text('p', 0))
}
func BigStructCopy(a, b uint64) (uint64, uint64) {
	x := big.NewFloat(num(a))
	y := *x
	z := &y
	z = new(big.Float).Neg(z)
	p, q := show(z)
	r, s := show(x)
	return p ^ r>>1, q ^ s<<1
}
func BigChain(a, b uint64) (uint64, uint64) {
	x := new(big.Float).SetPrec(24).SetMode(big.ToZero).SetFloat64(num(a))
	y := new(big.Float).Copy(x).SetMode(big.AwayFromZero).SetPrec(11)
	return show(y.Add(y, big.NewFloat(0)))
}
func BigTieEven(a, b uint64) (uint64, uint64) {
	x := new(big.Float).SetUint64(a&0xFFFF | 1<<16)
	return show(x.SetPrec(uint(b&15 + 1)))
}
func BigTieAway(a, b uint64) (uint64, uint64) {
	x := new(big.Float).SetMode(big.ToNearestAway).SetInt64(-int64(a&0xFFFF | 1<<16))
	return show(x.SetPrec(uint(b&15 + 1)))
}
func BigSubExact(a, b uint64) (uint64, uint64) {
	x := new(big.Float).SetUint64(a | 1<<63)
	h, _ := x.Float64()
	l := new(big.Float).Sub(x, big.NewFloat(h))
	v, c := l.Float64()
	return bf(v), acc(c) | uint64(l.Prec())<<4
}
func BigSumPrec(a, b uint64) (uint64, uint64) {
	h, l := num(a&^(0x7FF<<52)|1000<<52), num(b&^(0x7FF<<52)|(900+a>>52&0x3F)<<52)
	x := new(big.Float).SetPrec(300).Add(big.NewFloat(h), big.NewFloat(l))
	v, c := x.Float64()
	return bf(v), acc(c) | uint64(x.MinPrec())<<8
}
func BigIsIntNear(a, b uint64) (uint64, uint64) {
	x := new(big.Float).SetMantExp(new(big.Float).SetUint64(a|1<<63), -int(b&127))
	return bo(x.IsInt()), uint64(x.MinPrec())
}
func BigRoundWords(a, b uint64) (uint64, uint64) {
	x := new(big.Float).SetPrec(128).SetInt(i128(a|1<<63, b))
	x.SetPrec(uint(64 + b&63))
	i, c := x.Int(nil)
	hi, lo := out(i)
	return hi ^ acc(c) ^ acc(x.Acc())<<4, lo
}
func IntCmpSign(a, b uint64) (uint64, uint64) {
	x, y := big.NewInt(int64(a)), big.NewInt(int64(b))
	return uint64(x.Cmp(y)), uint64(x.CmpAbs(y)) ^ uint64(x.Sign())<<4 ^ uint64(new(big.Int).Abs(x).BitLen())<<8
}
func IntAlias(a, b uint64) (uint64, uint64) {
	x := i128(a, b)
	y := x
	y.Rsh(y, 3).Lsh(y, 5).SetBit(y, 0, 1)
	z := new(big.Int).Set(x)
	z.Neg(z)
	return out(new(big.Int).Abs(z))
}
func IntLowWord(a, b uint64) (uint64, uint64) {
	x := i128(a, b)
	return x.Uint64(), uint64(x.Int64()) ^ uint64(new(big.Int).Neg(x).Int64())
}
func IntShiftSigned(a, b uint64) (uint64, uint64) {
	x := big.NewInt(int64(a))
	return uint64(new(big.Int).Rsh(x, uint(b&31)).Int64()), uint64(new(big.Int).Lsh(x, uint(b&1)).Sign())
}
func IntAddSigned(a, b uint64) (uint64, uint64) {
	x, y := big.NewInt(int64(a)>>1), big.NewInt(int64(b)>>1)
	return uint64(new(big.Int).Add(x, y).Int64()), uint64(new(big.Int).Sub(x, y).Int64())
}
func IntMulSigned(a, b uint64) (uint64, uint64) {
	return uint64(new(big.Int).Mul(big.NewInt(int64(int32(a))), big.NewInt(1<<10)).Int64()), uint64(new(big.Int).Mul(big.NewInt(int64(a&7)), big.NewInt(int64(b&0xFFFF))).Int64())
}

func Float32Add(a, b uint64) (uint64, uint64) {
	x, y := f32(a&^(0xFF<<23)|120<<23), f32(b&^(0xFF<<23)|(110+b>>32&15)<<23)
	return b32(x + y), b32(x - y)
}
func Float32Mul(a, b uint64) (uint64, uint64) {
	x := f32(a &^ (1 << 30))
	return b32(x * 0x1p-20), b32(x / 0x1p20)
}
func Float32Cmp(a, b uint64) (uint64, uint64) {
	x, y := f32(a), f32(a^b&3)
	return bo(x < y) | bo(x <= y)<<1 | bo(x == y)<<2, bo(x > y)
}
func FloatMulSmall(a, b uint64) (uint64, uint64) { return bf(num(a) * 3), bf(num(a) * num(b)) }
func FloatIsInt(a, b uint64) (uint64, uint64) {
	x := math.Ldexp(fl(a&^(0x7FF<<52)|1023<<52), int(b&63))
	return bo(x == math.Trunc(x)), bo(x == math.Floor(x))
}
func FloatSum32(a, b uint64) (uint64, uint64) {
	x := num(a)
	return b32(float32(x)), bf(x - float64(float32(x)))
}
func FloatNaNs(a, b uint64) (uint64, uint64) {
	x := fl(a)
	return bo(x != x) | bo(x-x != 0)<<1 | bo(math.IsNaN(x-x))<<2, bo(math.IsNaN(x + fl(b)))
}
func FloatMinMax(a, b uint64) (uint64, uint64) {
	return bf(math.Max(num(a), num(b))), bf(math.Min(num(a), num(b)))
}
func FloatSqrt(a, b uint64) (uint64, uint64) { return bf(math.Sqrt(float64(a & 0xFF * (a & 0xFF)))), 0 }

func LangStrings(a, b uint64) (uint64, uint64) {
	s := fmt.Sprintf("%04b", a&15)
	t := s[1:3] + string([]byte{byte('0' + b&1)})
	switch t {
	case "010", "111":
		return 1, bo(t < "1")
	}
	return bo(s > t), uint64(len(t)) + uint64(t[2])
}
func LangRunes(a, b uint64) (uint64, uint64) {
	r := []rune("añ" + string(rune('a'+a&7)))
	return uint64(len(r)), uint64(r[2]) ^ uint64(utf8.RuneLen(r[1]))
}
func LangVariadic(a, b uint64) (uint64, uint64) {
	sum := func(xs ...uint64) (n uint64) {
		for _, x := range xs {
			n += x
		}
		return
	}
	return sum(a, b, 1), sum([]uint64{a, b}[:b&1]...)
}
func LangArrays(a, b uint64) (uint64, uint64) {
	var t [4][2]uint64
	t[a&3][b&1] = 7
	u := t
	u[1][1]++
	p := &u[2]
	p[0] = 9
	return t[1][1] + t[2][0]*10, u[1][1] + u[2][0]*10
}

type base struct{ n uint64 }

func (b *base) inc() uint64 { b.n++; return b.n }

type derived struct {
	base
	m uint64
}

func LangEmbed(a, b uint64) (uint64, uint64) {
	d := derived{base{a}, b}
	f := d.inc
	f()
	var i interface{} = &d
	if x, ok := i.(interface{ inc() uint64 }); ok {
		x.inc()
	}
	_, bad := i.(fmt.Stringer)
	return d.n, d.m ^ bo(bad)
}
func LangErrors(a, b uint64) (uint64, uint64) {
	e := errors.New("x")
	f := func() (uint64, error) {
		if a&1 == 1 {
			return a, e
		}
		return b, nil
	}
	v, err := f()
	if err != nil && err == e {
		return 1, v
	}
	return 0, v
}
func LangSlicesOf(a, b uint64) (uint64, uint64) {
	t := make([][]uint64, 3)
	for i := range t {
		t[i] = append(t[i], a, b)
	}
	t[1][0] = 5
	s := t[0:2]
	return s[1][0] + uint64(cap(s)), t[a&1][b&1]
}
func LangSort(a, b uint64) (uint64, uint64) {
	t := []int{3, int(a & 7), 1}
	sort.Ints(t)
	return uint64(t[0]), uint64(t[2])
}
func LangSync(a, b uint64) (uint64, uint64) {
	var mu sync.Mutex
	var once sync.Once
	var n uint64
	for i := uint64(0); i < b&3; i++ {
		mu.Lock()
		once.Do(func() { n += a })
		n++
		mu.Unlock()
	}
	var c uint64
	atomic.AddUint64(&c, n)
	return atomic.LoadUint64(&c), n
}
func LangConst(a, b uint64) (uint64, uint64) {
	const big = 1 << 62
	var i8 int8 = int8(a)
	i8 += 100
	u := uint16(b)
	u--
	return uint64(i8) ^ uint64(^u), uint64(i8/3) ^ uint64(u%7) ^ big>>60
}
func LangShiftBig(a, b uint64) (uint64, uint64) {
	n := uint(a & 127)
	return uint64(int32(b)) >> n, uint64(int32(b)<<n) ^ uint64(uint8(b)>>(n&15))
}
func LangCompare(a, b uint64) (uint64, uint64) {
	x, y := pair{a & 3, b & 1}, pair{1, 1}
	var i, j interface{} = x, y
	return bo(x == y), bo(i == j)
}
func LangGoto(a, b uint64) (uint64, uint64) {
	i := uint64(0)
again:
	if i < a&7 {
		i++
		goto again
	}
	return i, 0
}
func LangBits16(a, b uint64) (uint64, uint64) {
	x := uint16(a)
	s, e, f := x>>15, x>>10&0x1F, x&0x3FF
	if e == 0 {
		for f != 0 && f&0x400 == 0 {
			f <<= 1
			e--
		}
	}
	return uint64(s), uint64(int16(e)) ^ uint64(f)<<20
}
func TextQuote(a, b uint64) (uint64, uint64) { return words(strconv.Quote(string(rune('a' + a&7)))) }
func TextParseInt(a, b uint64) (uint64, uint64) {
	x, err := strconv.ParseInt(strconv.Itoa(int(int8(a))), 10, 64)
	return uint64(x), bo(err != nil)
}
func TextFmtFloat(a, b uint64) (uint64, uint64) {
	return words(strconv.FormatFloat(float64(int8(a)), 'g', -1, 64))
}
func TextParseFloat(a, b uint64) (uint64, uint64) {
	x, err := strconv.ParseFloat(fmt.Sprintf("0x1.%03xp%d", a&0xFFF, int8(b)), 64)
	return bf(x), bo(err != nil)
}
func TextJoin(a, b uint64) (uint64, uint64) {
	return words(strings.Join([]string{"a", strconv.Itoa(int(a & 7)), "c"}, "-"))
}
func TextFields(a, b uint64) (uint64, uint64) {
	p := strings.Split("1,"+strconv.Itoa(int(a&7))+",3", ",")
	return uint64(len(p)), uint64(p[1][0])
}
func TextReplace(a, b uint64) (uint64, uint64) {
	return words(strings.Replace(fmt.Sprintf("%04b", a&15), "1", "x", -1))
}
func TextMap(a, b uint64) (uint64, uint64) {
	return words(strings.ToUpper(fmt.Sprintf("%04x", a&0xFFFF)))
}
func TextPad(a, b uint64) (uint64, uint64) {
	s := strconv.FormatUint(a&0xFF, 2)
	s = strings.Repeat("0", 8-len(s)) + s
	return words(s)
}
func TextWidthStar(a, b uint64) (uint64, uint64) {
	return words(fmt.Sprintf("%0*b", 10, a&0x3FF))
}
func TextBytes(a, b uint64) (uint64, uint64) {
	p := []byte(fmt.Sprintf("%08b", a&0xFF))
	for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
		p[i], p[j] = p[j], p[i]
	}
	x, y := words(string(bytes.TrimRight(p, "0")))
	return x, y ^ bo(bytes.Equal(p, []byte("00000000")))
}
