package main

// C23: the tables of internal/strconv, read from the package's initialised
// variables. A table is found by its name, or else by the shape of its element
// type, so a renamed table is still judged.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type tableEntry struct {
	ints []*big.Int // the integer fields in order
	strs []string
	bool bool
}

// tableOf reads a package-level array or slice.
func (r *Run) tableOf(g *ssa.Global) []tableEntry {
	var elems []Value
	switch v := r.load(r.global(g)).(type) {
	case AggV:
		elems = v.f
	case SliceV:
		elems = r.sliceElems(v)
	default:
		r.giveUp("%s is neither an array nor a slice", g.Name())
	}
	out := make([]tableEntry, len(elems))
	for i, e := range elems {
		fields := []Value{e}
		if a, ok := e.(AggV); ok {
			fields = a.f
		}
		for _, f := range fields {
			out[i].addField(r, f)
		}
	}
	return out
}

func (t *tableEntry) addField(r *Run, f Value) {
	switch f := f.(type) {
	case IntV:
		k, ok := r.constOf(f)
		if !ok {
			r.giveUp("a table entry that is not a constant")
		}
		t.ints = append(t.ints, k)
	case StrV:
		s := ""
		for _, c := range r.chars(f) {
			k, ok := r.constOf(c)
			if !ok {
				r.giveUp("a table entry that is not a constant")
			}
			s += string(rune(k.Int64()))
		}
		t.strs = append(t.strs, s)
	case BoolV:
		t.bool = r.decideBit(f.b)
	default:
		r.giveUp("a table field of an unexpected type %T", f)
	}
}

// shapeOf names the element type of a table: the basic kinds of its fields.
func shapeOf(t types.Type) string {
	var elem types.Type
	switch u := t.Underlying().(type) {
	case *types.Array:
		elem = u.Elem()
	case *types.Slice:
		elem = u.Elem()
	default:
		return ""
	}
	var kinds []string
	if s, ok := elem.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			kinds = append(kinds, s.Field(i).Type().Underlying().String())
		}
		sort.Strings(kinds)
		return "struct " + strings.Join(kinds, ",")
	}
	return elem.Underlying().String()
}

func pow10(k int) *big.Rat {
	p := new(big.Int).Exp(bi(10), bi(int64(max(k, -k))), nil)
	if k < 0 {
		return new(big.Rat).SetFrac(bigOne, p)
	}
	return new(big.Rat).SetInt(p)
}

// norm64 is 10^k rounded to 64 significant bits, to nearest (even).
func norm64(k int) (mant *big.Int, exp int) {
	f := new(big.Float).SetPrec(64).SetMode(big.ToNearestEven).SetRat(pow10(k))
	exp = f.MantExp(nil) - 64
	f.SetMantExp(f, -exp)
	mant, _ = f.Int(nil)
	return mant, exp
}

// floatIntoFields finds the mantissa and exponent fields of a struct of an
// unsigned 64-bit mantissa and a signed exponent, in declaration order.
func mantFirst(t types.Type) bool {
	var elem types.Type
	switch u := t.Underlying().(type) {
	case *types.Array:
		elem = u.Elem()
	case *types.Slice:
		elem = u.Elem()
	}
	s := elem.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		switch b := s.Field(i).Type().Underlying().(type) {
		case *types.Basic:
			if b.Kind() == types.Uint64 {
				return true
			}
			if b.Kind() == types.Int {
				return false
			}
		}
	}
	return true
}

func checkPowers(r *Run, g *ssa.Global, first, step *int) error {
	tab := r.tableOf(g)
	mi, ei := 0, 1
	if !mantFirst(g.Type().(*types.Pointer).Elem()) {
		mi, ei = 1, 0
	}
	ks := make([]int, len(tab))
	for i, e := range tab {
		k := 0
		if first != nil && step != nil {
			k = *first + i**step
		} else {
			// the power of ten nearest to the entry
			f := new(big.Float).SetMantExp(new(big.Float).SetInt(e.ints[mi]), int(e.ints[ei].Int64()))
			bits := float64(f.MantExp(nil)) - 1
			m, _ := new(big.Float).SetMantExp(f, -f.MantExp(nil)+1).Float64()
			k = nearestPower(bits, m)
		}
		ks[i] = k
		mant, exp := norm64(k)
		if e.ints[mi].Cmp(mant) != 0 || e.ints[ei].Cmp(bi(int64(exp))) != 0 || e.bool {
			return bad("entry %d is {%#x, %d, negative: %v}, required for 10^%d: {%#x, %d, negative: false}", i, e.ints[mi], e.ints[ei], e.bool, k, mant, exp)
		}
		if i >= 2 && ks[i]-ks[i-1] != ks[1]-ks[0] {
			return bad("entry %d is 10^%d, required: 10^%d", i, k, ks[i-1]+ks[1]-ks[0])
		}
	}
	return nil
}

// nearestPower gives the k with 10^k nearest to m*2^bits.
func nearestPower(bits, m float64) int {
	const log2of10 = 3.321928094887362
	l := (bits + log2approx(m)) / log2of10
	k := int(l)
	for _, c := range []int{k - 1, k, k + 1} {
		if d := l - float64(c); d > -0.5 && d <= 0.5 {
			return c
		}
	}
	return k
}

func log2approx(m float64) float64 {
	s := 0.0
	for m >= 2 {
		m /= 2
		s++
	}
	w := 0.5
	for i := 0; i < 40; i++ {
		m *= m
		if m >= 2 {
			m /= 2
			s += w
		}
		w /= 2
	}
	return s
}

// C23
func tableGoals(progs map[int]*Program) []*Goal {
	var gs []*Goal
	for _, wsz := range []int{64, 32} {
		p := progs[wsz]
		pkg := p.Interp.pkgs[p.Interp.repo+"/"+relConv]
		if pkg == nil {
			continue
		}
		intConst := func(name string) *int {
			c, ok := pkg.Members[name].(*ssa.NamedConst)
			if !ok {
				return nil
			}
			v, ok := constant.Int64Val(constant.ToInt(c.Value.Value))
			if !ok {
				return nil
			}
			x := int(v)
			return &x
		}
		var names []string
		for n := range pkg.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			g, ok := pkg.Members[n].(*ssa.Global)
			if !ok {
				continue
			}
			t := g.Type().(*types.Pointer).Elem()
			var check func(r *Run) error
			what := ""
			switch shapeOf(t) {
			case "struct bool,int,uint64":
				var first, step *int
				switch n {
				case "powersOfTen":
					first, step = intConst("firstPowerOfTen"), intConst("stepPowerOfTen")
				case "smallPowersOfTen":
					zero, one := 0, 1
					first, step = &zero, &one
				}
				what = "holds the powers of ten nearest to 64 bits"
				check = func(r *Run) error { return checkPowers(r, g, first, step) }
			case "uint64":
				what = "holds the powers of ten"
				check = func(r *Run) error {
					tab := r.tableOf(g)
					hits := 0
					for i, e := range tab {
						if e.ints[0].Cmp(new(big.Int).Exp(bi(10), bi(int64(i)), nil)) == 0 {
							hits++
						}
					}
					if n != "uint64pow10" && hits*2 < len(tab) {
						return nil // some other table
					}
					for i, e := range tab {
						if want := new(big.Int).Exp(bi(10), bi(int64(i)), nil); e.ints[0].Cmp(want) != 0 {
							return bad("entry %d is %s, required: %s", i, e.ints[0], want)
						}
					}
					return nil
				}
			case "struct int,string":
				what = "holds the digits of the powers of five and the digit counts of the powers of two"
				maxShift := intConst("maxShift")
				check = func(r *Run) error {
					tab := r.tableOf(g)
					if maxShift != nil && len(tab) <= *maxShift {
						return bad("it has %d entries, but shifts by up to %d index it", len(tab), *maxShift)
					}
					for i, e := range tab {
						delta, cut := 0, ""
						if i > 0 {
							delta = len(pow2(uint(i)).String())
							cut = new(big.Int).Exp(bi(5), bi(int64(i)), nil).String()
						}
						if e.ints[0].Cmp(bi(int64(delta))) != 0 || e.strs[0] != cut {
							return bad("entry %d is {%s, %q}, required for a shift by %d: {%d, %q}", i, e.ints[0], e.strs[0], i, delta, cut)
						}
					}
					return nil
				}
			default:
				for _, f := range []struct {
					name string
					p    fmtParam
				}{{"float16info", fmt16}, {"float32info", fmt32}, {"float64info", fmt64}} {
					st, ok := t.Underlying().(*types.Struct)
					if n != f.name || !ok {
						continue
					}
					f := f
					what = "is that of the format"
					check = func(r *Run) error {
						a, ok := r.load(r.global(g)).(AggV)
						if !ok {
							r.giveUp("it is not a struct")
						}
						for i := 0; i < st.NumFields(); i++ {
							want, name := 0, st.Field(i).Name()
							switch name {
							case "mantbits":
								want = f.p.mbits
							case "expbits":
								want = f.p.ebits
							case "bias":
								want = -f.p.bias
							default:
								continue
							}
							var e tableEntry
							e.addField(r, a.f[i])
							if e.ints[0].Cmp(bi(int64(want))) != 0 {
								return bad("%s is %s, required: %d", name, e.ints[0], want)
							}
						}
						return nil
					}
				}
			}
			if check == nil {
				continue
			}
			gs = append(gs, &Goal{name: fmt.Sprintf("%s.%s %s [%d-bit int]", relConv, n, what, wsz), in: p, world: newWorld(), run: func(r *Run) error {
				r.entry = r.varPos(g)
				return check(r)
			}})
		}
	}
	return gs
}
