package main

// C21-C23: the text conversions of internal/strconv.

import (
	"fmt"
	"math/big"
)

const relConv = "internal/strconv"

// prefixArg is the byte slice of an appending function: any bytes, any length,
// any capacity.
func prefixArg(name string) SliceV { return SliceV{pre: &prefix{name: name}} }

// textOf gives the characters that an appending function added to dst.
func appendedText(r *Run, v Value, dst SliceV) ([]IntV, error) {
	s, ok := v.(SliceV)
	if !ok || s.pre != dst.pre {
		return nil, bad("the result does not begin with the given bytes")
	}
	out := make([]IntV, s.len)
	for i := range out {
		out[i] = r.load(r.kid(s.arr, s.off+i)).(IntV)
	}
	return out, nil
}

func sameText(r *Run, got, want []IntV) error {
	if len(got) != len(want) {
		return bad("the text has %d characters, required: %d (%s, required: %s)", len(got), len(want), r.charsText(got), r.charsText(want))
	}
	for i := range want {
		if !r.decideBit(r.eqInt(got[i], want[i])) {
			return bad("character %d of the text is %s, required: %s", i, r.charText(got[i]), r.charText(want[i]))
		}
	}
	return nil
}

func (r *Run) charText(c IntV) string {
	if k, ok := r.constOf(c); ok && k.Sign() > 0 && k.Cmp(bi(127)) < 0 {
		return fmt.Sprintf("%q", rune(k.Int64()))
	}
	return r.linText(r.toLin(c))
}

func (r *Run) charsText(cs []IntV) string {
	s := ""
	for _, c := range cs {
		if k, ok := r.constOf(c); ok && k.Sign() > 0 && k.Cmp(bi(127)) < 0 {
			s += string(rune(k.Int64()))
		} else {
			s += "?"
		}
	}
	return s
}

func chars(s string) []IntV {
	var out []IntV
	for i := 0; i < len(s); i++ {
		out = append(out, intConst(8, false, bi(int64(s[i]))))
	}
	return out
}

type intFunc struct {
	name    string
	signed  bool
	append  bool
	hasBase bool
}

var intFuncs = []intFunc{
	{"FormatInt", true, false, true},
	{"FormatUint", false, false, true},
	{"Itoa", true, false, false},
	{"AppendInt", true, true, true},
	{"AppendUint", false, true, true},
}

// C21
func intTextGoals(progs map[int]*Program) []*Goal {
	var gs []*Goal
	add := func(f intFunc, base int, lo, hi *big.Int, what string) {
		for _, wsz := range []int{64, 32} {
			wsz := wsz
			w := newWorld()
			width := 64
			if !f.hasBase {
				width = wsz
			}
			x := w.integer("i", width, f.signed)
			var bs symIn
			if lo != nil {
				tl, th := typeRange(wsz, true)
				if lo.Cmp(tl) < 0 {
					lo = tl
				}
				if hi.Cmp(th) > 0 {
					hi = th
				}
				bs = symIn{w.newSym("base", lo, hi), wsz, true}
			}
			gs = append(gs, &Goal{name: fmt.Sprintf("%s.%s %s [%d-bit int]", relConv, f.name, what, wsz), in: progs[wsz], world: w, run: func(r *Run) error {
				var args []Value
				var dst SliceV
				if f.append {
					dst = prefixArg("dst")
					args = append(args, dst)
				}
				args = append(args, x.val(r))
				if f.hasBase {
					if lo != nil {
						args = append(args, bs.val(r))
					} else {
						args = append(args, intConst(wsz, true, bi(int64(base))))
					}
				}
				var res Value
				pan := r.catch(func() { res = r.callPkg(relConv, f.name, args...) })
				if lo != nil {
					if pan == nil {
						return bad("it accepts the base")
					}
					return nil
				}
				if pan != nil {
					panic(pan)
				}
				var got []IntV
				if f.append {
					var err error
					if got, err = appendedText(r, res, dst); err != nil {
						return err
					}
				} else {
					s, ok := res.(StrV)
					if !ok {
						return bad("the result is not a string")
					}
					got = r.chars(s)
				}
				return sameText(r, got, r.baseChars(x.val(r).lin, base, false))
			}})
		}
	}
	for _, f := range intFuncs {
		if !f.hasBase {
			add(f, 10, nil, nil, "in base 10")
			continue
		}
		for b := 2; b <= 36; b++ {
			add(f, b, nil, nil, fmt.Sprintf("in base %d", b))
		}
		add(f, 0, neg(pow2(63)), bigOne, "refuses bases below 2")
		add(f, 0, bi(37), pow2(63), "refuses bases above 36")
	}
	return gs
}

// floatSyms is a float64 or float32 input whose fields are integer symbols.
type floatSyms struct {
	w          int
	sign       int
	exp, frac  int
	ebits, mbs int
}

func (w *World) floatFields(name string, width int) floatSyms {
	p := floatFmt(width)
	return floatSyms{width, w.newVar(name + ".signbit"), w.newSym(name+".expfield", bigZero, sub(pow2(uint(p.ebits)), bigOne)),
		w.newSym(name+".fraction", bigZero, sub(pow2(uint(p.mbits)), bigOne)), p.ebits, p.mbits}
}

func (s floatSyms) float(r *Run) FloatV {
	b := append([]Bit{}, r.linBits(r.linSym(s.frac), s.mbs)...)
	b = append(b, r.linBits(r.linSym(s.exp), s.ebits)...)
	return FloatV{w: s.w, bits: append(b, varBit(s.sign))}
}

// floatText is what format 'b' must print, or the text of a special value.
// e and m are the fields as forms.
func floatText(r *Run, sign Bit, e, m Lin, p fmtParam) (text []IntV, special bool) {
	max := int64(1)<<uint(p.ebits) - 1
	if r.geq(e.addC(bi(-max))) {
		if r.geq(m.addC(bi(-1))) {
			return chars("NaN"), true
		}
		if r.decideBit(sign) {
			return chars("-Inf"), true
		}
		return chars("+Inf"), true
	}
	x := linI(int64(1 - p.bias - p.mbits))
	if r.geq(e.addC(bi(-1))) {
		m = m.addC(pow2(uint(p.mbits)))
		x = e.addC(bi(int64(-p.bias - p.mbits)))
	}
	if r.decideBit(sign) {
		text = chars("-")
	}
	text = append(text, r.baseChars(m, 10, false)...)
	text = append(text, chars("p")...)
	if r.geq(x) {
		text = append(text, chars("+")...)
	}
	return append(text, r.baseChars(x, 10, false)...), false
}

// C22
func floatTextGoals(progs map[int]*Program) []*Goal {
	var gs []*Goal
	maxPrec := bi(1000000)
	for _, appending := range []bool{false, true} {
		for _, size := range []int{16, 32, 64, 0} {
			for _, binary := range []bool{true, false} {
				if size == 0 && binary {
					continue
				}
				for _, wsz := range []int{64, 32} {
					appending, size, binary, wsz := appending, size, binary, wsz
					w := newWorld()
					var val64 floatSyms
					var val bitsIn
					var val32 floatSyms
					switch size {
					case 64:
						val64 = w.floatFields("f", 64)
					case 32:
						val = w.floatBits("f", 64)
						val32 = w.floatFields("float32(f)", 32)
					default:
						val = w.floatBits("f", 64)
					}
					fm := symIn{w.newSym("fmt", bigZero, bi(255)), 8, false}
					pr := symIn{w.newSym("prec", neg(pow2(31)), maxPrec), wsz, true}
					tl, th := typeRange(wsz, true)
					bsz := symIn{w.newSym("bitSize", tl, th), wsz, true}
					name, what := "FormatFloat", "special values"
					if appending {
						name = "AppendFloat"
					}
					if binary {
						what = "in format 'b'"
					}
					if size == 0 {
						what = "refuses other bit sizes"
					} else {
						what = fmt.Sprintf("of %d bits %s", size, what)
					}
					gs = append(gs, &Goal{name: fmt.Sprintf("%s.%s %s [%d-bit int]", relConv, name, what, wsz), in: progs[wsz], world: w, run: func(r *Run) error {
						var x FloatV
						var want []IntV
						special := false
						format := fm.val(r)
						if binary {
							format = intConst(8, false, bi('b'))
						}
						bs := bsz.val(r)
						switch size {
						case 0:
							x = val.float()
							for _, s := range []int64{16, 32, 64} {
								if r.eqLin(bs.lin, linI(s)) {
									return nil
								}
							}
						case 64:
							x = val64.float(r)
							want, special = floatText(r, varBit(val64.sign), r.linSym(val64.exp), r.linSym(val64.frac), fmt64)
						case 32:
							// the text depends on f through float32(f), which may
							// be any float32
							x = val.float()
							y := val32.float(r)
							r.narrowHook = func(f FloatV) (FloatV, bool) {
								if len(f.bits) != len(x.bits) {
									return f, false
								}
								for i := range f.bits {
									if f.bits[i] != x.bits[i] {
										return f, false
									}
								}
								return y, true
							}
							want, special = floatText(r, varBit(val32.sign), r.linSym(val32.exp), r.linSym(val32.frac), fmt32)
						case 16:
							x = val.float()
							if r.isNaN(x) {
								want, special = chars("NaN"), true
								break
							}
							h, _ := r.roundToFmt(r.floatValue(x), fmt16)
							b := fHalf.encode(r, h)
							want, special = floatText(r, b[15], r.bitsLin(b[10:15], false), r.bitsLin(b[:10], false), fmt16)
						}
						if size != 0 {
							bs = intConst(wsz, true, bi(int64(size)))
						}
						if special == binary && size != 0 {
							return nil // the other obligation's half
						}
						args := []Value{x, format, pr.val(r), bs}
						var dst SliceV
						if appending {
							dst = prefixArg("dst")
							args = append([]Value{dst}, args...)
						}
						var res Value
						pan := r.catch(func() { res = r.callPkg(relConv, name, args...) })
						if size == 0 {
							if pan == nil {
								return bad("it accepts the bit size")
							}
							return nil
						}
						if pan != nil {
							panic(pan)
						}
						var got []IntV
						if appending {
							var err error
							if got, err = appendedText(r, res, dst); err != nil {
								return err
							}
						} else {
							s, ok := res.(StrV)
							if !ok {
								return bad("the result is not a string")
							}
							got = r.chars(s)
						}
						return sameText(r, got, want)
					}})
				}
			}
		}
	}
	return gs
}
