package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// OrV is the bitwise OR of integers of which only whether it is zero is asked
// for (a|b == 0). The bits of the OR are never formed.
type OrV struct{ parts []IntV }

var zeroOnly sync.Map // ssa.Value -> bool

// zeroTestOnly reports whether v is used in comparisons with zero only, also by
// way of further ORs and conversions that keep all bits.
func zeroTestOnly(v ssa.Value, depth int) bool {
	if k, ok := zeroOnly.Load(v); ok {
		return k.(bool)
	}
	ok := depth < 8
	if ok && v.Referrers() != nil {
		for _, in := range *v.Referrers() {
			if !zeroUse(v, in, depth) {
				ok = false
				break
			}
		}
	}
	if depth == 0 || !ok {
		zeroOnly.Store(v, ok)
	}
	return ok
}

func zeroUse(v ssa.Value, in ssa.Instruction, depth int) bool {
	switch in := in.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.BinOp:
		other := in.Y
		if other == v {
			other = in.X
		}
		switch in.Op {
		case token.OR:
			return zeroTestOnly(in, depth+1)
		case token.EQL, token.NEQ:
			return isZeroConst(other)
		case token.GTR:
			return in.X == v && isZeroConst(in.Y) && unsignedInt(v.Type())
		}
	case *ssa.Convert:
		f, t := under(v.Type()), under(in.Type())
		fb, ok1 := f.(*types.Basic)
		tb, ok2 := t.(*types.Basic)
		if ok1 && ok2 && unsignedInt(f) && unsignedInt(t) {
			return (fb.Kind() == tb.Kind() || tb.Kind() == types.Uint64 || fb.Kind() == types.Uint8 || fb.Kind() == types.Uint16 && tb.Kind() != types.Uint8) && zeroTestOnly(in, depth+1)
		}
	case *ssa.ChangeType:
		return zeroTestOnly(in, depth+1)
	}
	return false
}

func unsignedInt(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isZeroConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.Int && constant.Sign(c.Value) == 0
}

// orForZero evaluates an OR as an OrV, when that saves distinguishing cases.
func (r *Run) orForZero(in *ssa.BinOp, x, y Value) (Value, bool) {
	var parts []IntV
	lazy := false
	for _, v := range []Value{x, y} {
		switch v := v.(type) {
		case OrV:
			parts = append(parts, v.parts...)
			lazy = true
		case IntV:
			parts = append(parts, v)
		default:
			return nil, false
		}
	}
	if !lazy {
		a, ok1 := x.(IntV)
		b, ok2 := y.(IntV)
		if !ok1 || !ok2 || a.bits == nil && r.hasNonBool(a.lin) || b.bits == nil && r.hasNonBool(b.lin) || !zeroTestOnly(in, 0) {
			return nil, false
		}
		ab, bb := r.toBits(a), r.toBits(b)
		for i := range ab {
			if !ab[i].isConst() && !bb[i].isConst() && ab[i] != bb[i] {
				lazy = true
				break
			}
		}
		if !lazy {
			return nil, false
		}
	}
	return OrV{parts}, true
}

// orIsSet decides whether the OR is not zero.
func (r *Run) orIsSet(v OrV) Bit {
	var bits []Bit
	for _, p := range v.parts {
		bits = append(bits, r.toBits(p)...)
	}
	return r.orBits(bits)
}
