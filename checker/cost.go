package main

// Cost: what an operation of the standard library allocates when its size
// follows an exponent or a shift count instead of the length of a mantissa.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// tooCostly aborts a run that is shown to need more than it may.
type tooCostly struct{ msg, pos string }

// costFree is what every call may use, in bits; the precisions of the
// multi-precision arguments come on top.
const costFree = 1 << 20

// charge accounts for an operation of the given size in bits.
func (r *Run) charge(size Lin, what string) {
	if r.costCap == nil {
		return
	}
	if !r.geq(r.costCap.sub(size)) {
		panic(&tooCostly{fmt.Sprintf("%s takes more than 2^20 bits beyond the precision of the arguments", what), r.where()})
	}
}

// chargeExp accounts for an operation whose size is the exponent of x.
func (r *Run) chargeExp(x BigF, below bool, what string) {
	if r.costCap == nil {
		return
	}
	x = r.mat(x)
	if x.form != fFinite || x.kind != kBits {
		return // a native float or a sum of such
	}
	e := x.exp
	r.charge(e, what)
	if below {
		r.charge(linI(0).sub(e), what)
	}
}

// chargeAlign accounts for a sum: math/big aligns the operands exactly.
func (r *Run) chargeAlign(x, y BigF) {
	if r.costCap == nil || x.kind != kBits || y.kind != kBits {
		return
	}
	d := x.exp.sub(y.exp)
	r.charge(d, "the sum of numbers so far apart")
	r.charge(linI(0).sub(d), "the sum of numbers so far apart")
}

// C28
func costGoals(progs map[int]*Program) []*Goal {
	return perFunc(progs, "takes bounded memory", nil, func(r *Run, fn *ssa.Function, args []Value) error {
		limit := linI(costFree)
		for _, a := range args {
			if p, ok := a.(PtrV); ok && p.c != nil {
				if x, ok := p.c.v.(BigF); ok {
					limit = limit.add(x.prec)
				}
			}
		}
		r.costCap = &limit
		r.dispatch(fn, args, nil)
		return nil
	})
}

// C27

// plainType returns the path to the first part of t that is not a plain value.
func plainType(t types.Type, path string, depth int) string {
	if depth > 20 {
		return ""
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return path
		}
		return ""
	case *types.Array:
		return plainType(u.Elem(), path+"[]", depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if p := plainType(u.Field(i).Type(), path+"."+u.Field(i).Name(), depth+1); p != "" {
				return p
			}
		}
		return ""
	}
	return path
}

func plainGoals(progs map[int]*Program) []*Goal {
	var gs []*Goal
	for _, f := range allFmt {
		f := f
		add := func(name string, mk func() (*World, func(r *Run) error)) {
			gs = append(gs, both(progs, f.rel+"."+name, mk)...)
		}
		add("Float is a plain comparable type", func() (*World, func(r *Run) error) {
			return newWorld(), func(r *Run) error {
				t := r.floatType(f.rel)
				if !types.Comparable(t) {
					return bad("values of type Float cannot be compared: %s", plainType(t, "Float", 0))
				}
				if p := plainType(t, "Float", 0); p != "" {
					return bad("%s is not a plain value", p)
				}
				return nil
			}
		})
		add("Float{}", func() (*World, func(r *Run) error) {
			return newWorld(), func(r *Run) error {
				res := r.callMethod(f.rel, r.zero(r.floatType(f.rel)), "Big").(TupleV)
				if err := wantPtr(res[0]); err != nil {
					return err
				}
				x := resultBig(r, res[0])
				if r.decideBit(res[1].(BoolV).b) || r.mat(x).form != fZero || r.decideBit(r.bfSignbit(x)) {
					return bad("the zero value of Float is not positive zero")
				}
				return nil
			}
		})
		if f == fBF {
			continue // no Bits
		}
		same := func(r *Run, num Value) error {
			v := f.patternOf(r, num)
			var args []Value
			end := len(v)
			for _, n := range f.words {
				args = append(args, IntV{w: n, bits: append([]Bit{}, v[end-n:end]...)})
				end -= n
			}
			if err := sameResult(r, num, r.callPkg(f.rel, "NewFromBits", args...)); err != nil {
				return bad("the number differs from NewFromBits of its own bits in a field")
			}
			return nil
		}
		add("NewFromBits, its own bits", func() (*World, func(r *Run) error) {
			w := newWorld()
			p := w.pattern(f)
			return w, func(r *Run) error { return same(r, p.num(r)) }
		})
		for _, fw := range []int{32, 64} {
			fw := fw
			add(fmt.Sprintf("NewFromFloat%d, its own bits", fw), func() (*World, func(r *Run) error) {
				w := newWorld()
				in := w.floatBits("x", fw)
				return w, func(r *Run) error {
					return same(r, r.callPkg(f.rel, fmt.Sprintf("NewFromFloat%d", fw), in.float()).(TupleV)[0])
				}
			})
		}
		for _, c := range []string{"NaN", "NegNaN", "Inf", "NegInf", "Zero", "NegZero"} {
			c := c
			add(c+", its own bits", func() (*World, func(r *Run) error) {
				return newWorld(), func(r *Run) error { return same(r, r.pkgVar(f.rel, c)) }
			})
		}
		if f.ppc {
			continue // two native floats, lazily rounded
		}
		add("NewFromBig, its own bits", func() (*World, func(r *Run) error) {
			w := newWorld()
			in := w.bigFloat("x")
			return w, func(r *Run) error {
				arg, _ := in.arg(r)
				return same(r, r.callPkg(f.rel, "NewFromBig", arg).(TupleV)[0])
			}
		})
	}
	return gs
}
