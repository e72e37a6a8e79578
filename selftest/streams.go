package models

import (
	"math"
	"math/big"
)

// The functions below take any *big.Float and a small constant.

func full(x *big.Float) (uint64, uint64) {
	v, a := x.Float64()
	e := x.MantExp(nil)
	y := new(big.Float).Copy(x)
	if !x.IsInf() {
		y.SetMantExp(x, 60-e)
	}
	i, c := y.Int64()
	return bf(v) ^ uint64(i), acc(a) | uint64(x.Prec())<<4 | uint64(x.Mode())<<40 | acc(x.Acc())<<48 | uint64(x.MinPrec())<<52 ^ acc(c)<<30
}

func SState(x *big.Float, p uint64) (uint64, uint64) {
	return uint64(x.Prec()) | uint64(x.Mode())<<40 | acc(x.Acc())<<48, uint64(x.MinPrec()) | bo(x.IsInt())<<20 | bo(x.IsInf())<<21 | bo(x.Signbit())<<22 | uint64(x.Sign()+1)<<23
}
func SFull(x *big.Float, p uint64) (uint64, uint64) { return full(x) }
func SFloat64(x *big.Float, p uint64) (uint64, uint64) {
	v, a := x.Float64()
	return bf(v), acc(a)
}
func SFloat32(x *big.Float, p uint64) (uint64, uint64) {
	v, a := x.Float32()
	return b32(v), acc(a)
}
func SUint64(x *big.Float, p uint64) (uint64, uint64) {
	v, a := x.Uint64()
	return v, acc(a)
}
func SInt64(x *big.Float, p uint64) (uint64, uint64) {
	v, a := x.Int64()
	return uint64(v), acc(a)
}
func SInt(x *big.Float, p uint64) (uint64, uint64) {
	if x.MantExp(nil) > 200 {
		return 0, 0
	}
	i, a := x.Int(nil)
	if i == nil {
		return 9, acc(a)
	}
	if i.Sign() < 0 {
		i.Neg(i)
	}
	hi, lo := out(i)
	return hi, lo ^ acc(a)<<60
}
func SSetPrec(x *big.Float, p uint64) (uint64, uint64) {
	return full(new(big.Float).Copy(x).SetPrec(uint(p)))
}
func SSetPrecEven(x *big.Float, p uint64) (uint64, uint64) {
	return full(new(big.Float).SetMode(big.ToNearestEven).SetPrec(uint(p)).Set(x))
}
func SSetPrecMode(x *big.Float, p uint64) (uint64, uint64) {
	return full(new(big.Float).SetPrec(uint(p) + 1).SetMode(big.RoundingMode(p % 6)).Set(x))
}
func SSetMode(x *big.Float, p uint64) (uint64, uint64) {
	return full(new(big.Float).Copy(x).SetMode(big.RoundingMode(p % 6)).SetPrec(3))
}
func SSet(x *big.Float, p uint64) (uint64, uint64) { return full(new(big.Float).Set(x)) }
func SNeg(x *big.Float, p uint64) (uint64, uint64) {
	return full(new(big.Float).SetPrec(uint(p)).Neg(x))
}
func SAbs(x *big.Float, p uint64) (uint64, uint64) { return full(new(big.Float).Abs(x)) }
func SCmp(x *big.Float, p uint64) (uint64, uint64) {
	return uint64(x.Cmp(big.NewFloat(1.5))), uint64(x.Cmp(big.NewFloat(0)))
}
func SCmpSelf(x *big.Float, p uint64) (uint64, uint64) {
	y := new(big.Float).SetPrec(uint(p) + 1).Set(x)
	return uint64(x.Cmp(y)), uint64(y.Cmp(x))
}
func SMantExp(x *big.Float, p uint64) (uint64, uint64) {
	m := new(big.Float).SetPrec(uint(p))
	e := x.MantExp(m)
	a, b := full(m)
	return a ^ uint64(e), b
}
func SSetMantExp(x *big.Float, p uint64) (uint64, uint64) {
	return full(new(big.Float).SetMantExp(x, int(p)-30))
}
func SAdd(x *big.Float, p uint64) (uint64, uint64) {
	if x.IsInf() || x.MantExp(nil) > 100 || x.MantExp(nil) < -100 {
		return 0, 0
	}
	return full(new(big.Float).SetPrec(400).Add(x, big.NewFloat(float64(p)+1)))
}
func SAddRounded(x *big.Float, p uint64) (uint64, uint64) {
	if x.IsInf() || x.MantExp(nil) > 100 || x.MantExp(nil) < -100 {
		return 0, 0
	}
	return full(new(big.Float).SetPrec(uint(p)+1).Add(x, big.NewFloat(1)))
}
func SResidue(x *big.Float, p uint64) (uint64, uint64) {
	h, _ := x.Float64()
	if math.IsInf(h, 0) {
		return 0, 0
	}
	l := new(big.Float).Sub(x, big.NewFloat(h))
	v, a := l.Float64()
	return bf(v), acc(a) | uint64(l.Prec())<<4
}
func SMinPrec(x *big.Float, p uint64) (uint64, uint64) {
	return bo(x.MinPrec() <= uint(p)), bo(uint64(x.MinPrec()) > p+20)
}
func SFields(x *big.Float, p uint64) (uint64, uint64) {
	y := new(big.Float).SetMode(big.ToNearestEven).SetPrec(uint(p) + 1).Set(x)
	if y.IsInf() || y.Sign() == 0 {
		return 1, 1
	}
	m := new(big.Float)
	e := y.MantExp(m)
	m.SetMantExp(m, int(p)+1)
	if m.Signbit() {
		m.Neg(m)
	}
	u, a := m.Uint64()
	return u, uint64(e) ^ acc(a)<<60
}
func SSubnormal(x *big.Float, p uint64) (uint64, uint64) {
	e := x.MantExp(nil)
	n := int(p) + e
	if x.IsInf() || n <= 0 || n > 90 {
		return 0, uint64(e)
	}
	y := new(big.Float).Copy(x).SetMode(big.ToNearestEven).SetPrec(uint(n))
	y.SetMantExp(y, int(p))
	i, a := y.Int(nil)
	return uint64(i.Int64()), acc(a) | uint64(y.MinPrec())<<8
}
func SSqueeze(x *big.Float, p uint64) (uint64, uint64) {
	v, a := x.Float64()
	w := float32(v)
	return b32(w), acc(a) | bo(float64(w) == v)<<4
}
func SIntParts(x *big.Float, p uint64) (uint64, uint64) {
	if x.IsInf() {
		return 0, 0
	}
	m := new(big.Float)
	x.MantExp(m)
	m.SetMantExp(m.Abs(m), int(p))
	i, _ := m.Int(new(big.Int))
	r := new(big.Float).SetInt(i)
	return uint64(i.BitLen()), uint64(m.Cmp(r))
}
func SMul(x *big.Float, p uint64) (uint64, uint64) {
	return full(new(big.Float).Mul(x, big.NewFloat(0x1p-7)))
}
func SText(x *big.Float, p uint64) (uint64, uint64) {
	if x.IsInf() {
		return words(x.String())
	}
	return 0, 0
}
