package main

// Machine integers: an affine form with its value inside the type's range, or
// a vector of abstract bits.

import (
	"go/token"
	"math/big"
	"sort"
)

type IntV struct {
	w      int // width in bits
	signed bool
	bits   []Bit // LSB first, or nil
	lin    Lin   // when bits == nil
}

func intConst(w int, signed bool, x *big.Int) IntV {
	return IntV{w: w, signed: signed, lin: linC(wrapConst(x, w, signed))}
}

func wrapConst(x *big.Int, w int, signed bool) *big.Int {
	m := floorMod(x, pow2(uint(w)))
	if signed && m.Bit(w-1) == 1 {
		m = sub(m, pow2(uint(w)))
	}
	return m
}

func typeRange(w int, signed bool) (lo, hi *big.Int) {
	if signed {
		return neg(pow2(uint(w - 1))), sub(pow2(uint(w-1)), bigOne)
	}
	return bigZero, sub(pow2(uint(w)), bigOne)
}

// fit makes an integer of the type from an exact form, reducing modulo 2^w.
func (r *Run) fit(l Lin, w int, signed bool) IntV {
	l = r.fold(r.subst(l))
	for i := 0; ; i++ {
		lo, hi := r.interval(l)
		tl, th := typeRange(w, signed)
		if lo.Cmp(tl) >= 0 && hi.Cmp(th) <= 0 {
			return IntV{w: w, signed: signed, lin: l}
		}
		m := pow2(uint(w))
		// number of wraps of the ends
		kl, kh := floorDiv(sub(lo, tl), m), floorDiv(sub(hi, tl), m)
		if kl.Cmp(kh) == 0 {
			l = l.addC(neg(mul(kl, m)))
			continue
		}
		if sub(kh, kl).Cmp(bi(3)) > 0 && !signed {
			return IntV{w: w, signed: signed, lin: r.mod(l, m)}
		}
		if sub(kh, kl).Cmp(bi(3)) > 0 {
			return IntV{w: w, signed: signed, bits: r.linBits(l, w)}
		}
		// split at the boundary
		bd := add(tl, mul(kh, m))
		r.geq(l.addC(neg(bd)))
		panic("fit: no progress")
	}
}

func (r *Run) toBits(v IntV) []Bit {
	if v.bits != nil {
		out := make([]Bit, len(v.bits))
		for i, b := range v.bits {
			out[i] = r.bit(b)
		}
		return out
	}
	return r.linBits(v.lin, v.w)
}

func (r *Run) toLin(v IntV) Lin {
	if v.bits == nil {
		return r.subst(v.lin)
	}
	return r.bitsLin(v.bits, v.signed)
}

// bitsLin is the integer denoted by a bit vector.
func (r *Run) bitsLin(bits []Bit, signed bool) Lin {
	w := len(bits)
	res := make([]Bit, w)
	for i, b := range bits {
		res[i] = r.bit(b)
	}
	l := linI(0)
	c := new(big.Int)
	for i := 0; i < w; i++ {
		b := res[i]
		top := signed && i == w-1
		weight := pow2(uint(i))
		if top {
			weight = neg(weight)
		}
		switch b.k {
		case bConst0:
		case bConst1:
			c.Add(c, weight)
		case bPos:
			l = l.add(Lin{c: bigZero, t: []term{{b.id, weight}}})
		case bNeg:
			c.Add(c, weight)
			l = l.add(Lin{c: bigZero, t: []term{{b.id, neg(weight)}}})
		default:
			in := r.atoms[b.id-r.nbase()]
			// run of consecutive bits of the same form
			n := 1
			for i+n < w {
				nb := res[i+n]
				if nb.k != b.k || b.k != bLinPos {
					break
				}
				ni := r.atoms[nb.id-r.nbase()]
				if ni.id != in.id+n || !ni.lin.equal(in.lin) {
					break
				}
				n++
			}
			if b.k == bLinPos {
				lo, hi := r.interval(in.lin)
				// unsigned: form fits below the end of the run (then the
				// bits above are zero or constant anyway)
				d := pow2(uint(in.id))
				if lo.Sign() >= 0 && hi.Cmp(pow2(uint(in.id+n))) < 0 && !(signed && i+n == w) {
					l = l.add(r.div(in.lin, d).scale(pow2(uint(i))))
				} else if signed && i+n == w {
					q := r.div(in.lin, d)
					ql, qh := r.interval(q)
					if ql.Cmp(neg(pow2(uint(n-1)))) >= 0 && qh.Cmp(pow2(uint(n-1))) < 0 {
						l = l.add(q.scale(pow2(uint(i))))
					} else {
						// settle the sign bit, then retry
						r.decideBit(res[w-1])
					}
				} else {
					// sign-extended run that stops early, or a slice of the form
					l = l.add(r.mod(r.div(in.lin, d), pow2(uint(n))).scale(pow2(uint(i))))
				}
				i += n - 1
				continue
			}
			l = l.add(r.bitLin(b).scale(weight))
		}
	}
	return l.addC(c)
}

func (r *Run) constOf(v IntV) (*big.Int, bool) {
	if v.bits != nil {
		c := new(big.Int)
		for i, b := range v.bits {
			switch b = r.bit(b); b.k {
			case bConst0:
			case bConst1:
				c.SetBit(c, i, 1)
			default:
				return nil, false
			}
		}
		return wrapConst(c, v.w, v.signed), true
	}
	l := r.subst(v.lin)
	if l.isConst() {
		return l.c, true
	}
	lo, hi := r.interval(l)
	if lo.Cmp(hi) == 0 {
		return lo, true
	}
	return nil, false
}

// concreteInt forces the integer to a constant by splitting.
func (r *Run) concreteInt(v IntV) *big.Int {
	if c, ok := r.constOf(v); ok {
		return c
	}
	if v.bits != nil {
		// most significant free bit first
		for i := len(v.bits) - 1; i >= 0; i-- {
			if b := r.bit(v.bits[i]); !b.isConst() {
				r.decideBit(b)
			}
		}
	}
	return r.concrete(v.lin)
}

func (r *Run) fromBits(bits []Bit, signed bool) IntV {
	return r.simplify(IntV{w: len(bits), signed: signed, bits: bits})
}

func (r *Run) simplify(v IntV) IntV {
	if c, ok := r.constOf(v); ok {
		return intConst(v.w, v.signed, c)
	}
	return v
}

func (r *Run) intBin(op token.Token, x, y IntV) IntV {
	cx, okx := r.constOf(x)
	cy, oky := r.constOf(y)
	w, signed := x.w, x.signed
	if okx && oky {
		switch op {
		case token.ADD:
			return intConst(w, signed, add(cx, cy))
		case token.SUB:
			return intConst(w, signed, sub(cx, cy))
		case token.MUL:
			return intConst(w, signed, mul(cx, cy))
		case token.AND:
			return intConst(w, signed, new(big.Int).And(cx, cy))
		case token.OR:
			return intConst(w, signed, new(big.Int).Or(cx, cy))
		case token.XOR:
			return intConst(w, signed, new(big.Int).Xor(cx, cy))
		case token.AND_NOT:
			return intConst(w, signed, new(big.Int).AndNot(cx, cy))
		case token.QUO, token.REM:
			if cy.Sign() == 0 {
				panic(&goPanic{val: "integer divide by zero"})
			}
			if op == token.QUO {
				return intConst(w, signed, new(big.Int).Quo(cx, cy))
			}
			return intConst(w, signed, new(big.Int).Rem(cx, cy))
		}
	}
	switch op {
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return r.bitwise(op, x, y)
	case token.ADD:
		return r.fit(r.toLin(x).add(r.toLin(y)), w, signed)
	case token.SUB:
		return r.fit(r.toLin(x).sub(r.toLin(y)), w, signed)
	case token.MUL:
		if oky {
			return r.fit(r.toLin(x).scale(cy), w, signed)
		}
		if okx {
			return r.fit(r.toLin(y).scale(cx), w, signed)
		}
		// enumerate the narrower factor
		xl, xh := r.interval(r.toLin(x))
		yl, yh := r.interval(r.toLin(y))
		if sub(xh, xl).Cmp(sub(yh, yl)) < 0 {
			return r.fit(r.toLin(y).scale(r.concreteInt(x)), w, signed)
		}
		return r.fit(r.toLin(x).scale(r.concreteInt(y)), w, signed)
	case token.QUO, token.REM:
		d := r.concreteInt(y)
		if d.Sign() == 0 {
			panic(&goPanic{val: "integer divide by zero"})
		}
		l := r.toLin(x)
		if d.Sign() < 0 {
			r.giveUp("division of a symbolic integer by a negative constant")
		}
		lo, _ := r.interval(l)
		if lo.Sign() >= 0 || r.geq(l) {
			if op == token.QUO {
				return r.fit(r.div(l, d), w, signed)
			}
			return r.fit(r.mod(l, d), w, signed)
		}
		// negative dividend: truncated division
		n := l.scale(bi(-1))
		if op == token.QUO {
			return r.fit(r.div(n, d).scale(bi(-1)), w, signed)
		}
		return r.fit(r.mod(n, d).scale(bi(-1)), w, signed)
	}
	r.giveUp("integer operator %s", op)
	return IntV{}
}

// lowMask reports n when c == 2^n-1, n > 0.
func lowMask(c *big.Int) (int, bool) {
	if c.Sign() <= 0 {
		return 0, false
	}
	n := c.BitLen()
	if add(c, bigOne).Cmp(pow2(uint(n))) == 0 {
		return n, true
	}
	return 0, false
}

func (r *Run) bitwise(op token.Token, x, y IntV) IntV {
	w, signed := x.w, x.signed
	// masks on affine forms keep them affine
	if op == token.AND {
		if _, ok := r.constOf(x); ok {
			x, y = y, x
		}
		if c, ok := r.constOf(y); ok {
			if x.bits == nil {
				if n, ok := lowMask(c); ok {
					if r.hasNonBool(x.lin) {
						return r.fit(r.mod(x.lin, pow2(uint(n))), w, signed)
					}
				}
			}
		}
	}
	xb, yb := r.toBits(x), r.toBits(y)
	out := make([]Bit, w)
	for i := range out {
		switch op {
		case token.AND:
			out[i] = r.andBit(xb[i], yb[i])
		case token.OR:
			out[i] = r.orBit(xb[i], yb[i])
		case token.XOR:
			out[i] = r.xorBit(xb[i], yb[i])
		case token.AND_NOT:
			out[i] = r.andBit(xb[i], yb[i].not())
		}
	}
	return r.fromBits(out, signed)
}

func (r *Run) hasNonBool(l Lin) bool {
	for _, t := range l.t {
		if !r.isBoolAtom(t.a) {
			return true
		}
	}
	return false
}

// shift applies << or >>; the count is made concrete.
func (r *Run) shift(op token.Token, x, y IntV) IntV {
	if y.signed {
		if !r.geq(r.toLin(y)) {
			panic(&goPanic{val: "negative shift amount"})
		}
	}
	// counts at or above the width behave alike
	ly := r.toLin(y)
	if _, ok := r.constOf(y); !ok {
		if r.geq(ly.addC(bi(int64(-x.w)))) {
			y = intConst(64, false, bi(int64(x.w)))
		}
	}
	cb := r.concreteInt(y)
	n := x.w
	if cb.IsInt64() && cb.Int64() < int64(x.w) {
		n = int(cb.Int64())
	}
	if n == 0 {
		return x
	}
	if c, ok := r.constOf(x); ok {
		if op == token.SHL {
			return intConst(x.w, x.signed, shl(c, uint(n)))
		}
		return intConst(x.w, x.signed, new(big.Int).Rsh(c, uint(n)))
	}
	if x.bits == nil {
		if op == token.SHR {
			return r.fit(r.div(x.lin, pow2(uint(n))), x.w, x.signed)
		}
		l := x.lin.scale(pow2(uint(n)))
		lo, hi := r.interval(l)
		tl, th := typeRange(x.w, x.signed)
		if lo.Cmp(tl) >= 0 && hi.Cmp(th) <= 0 {
			return IntV{w: x.w, signed: x.signed, lin: l}
		}
	}
	b := r.toBits(x)
	out := make([]Bit, x.w)
	for i := range out {
		switch {
		case op == token.SHL && i >= n:
			out[i] = b[i-n]
		case op == token.SHL:
			out[i] = bit0
		case i+n < x.w:
			out[i] = b[i+n]
		case x.signed:
			out[i] = b[x.w-1]
		default:
			out[i] = bit0
		}
	}
	return r.fromBits(out, x.signed)
}

func (r *Run) convInt(x IntV, w int, signed bool) IntV {
	if c, ok := r.constOf(x); ok {
		return intConst(w, signed, c)
	}
	if x.bits != nil {
		b := r.toBits(x)
		out := make([]Bit, w)
		for i := range out {
			switch {
			case i < x.w:
				out[i] = b[i]
			case x.signed:
				out[i] = b[x.w-1]
			default:
				out[i] = bit0
			}
		}
		return r.fromBits(out, signed)
	}
	if !signed && w < x.w && r.hasNonBool(x.lin) {
		return r.fit(r.mod(x.lin, pow2(uint(w))), w, signed)
	}
	return r.fit(x.lin, w, signed)
}

// cmpInt gives the comparison as a bit, splitting unless it is constant or a
// single literal.
func (r *Run) cmpInt(op token.Token, x, y IntV) Bit {
	switch op {
	case token.EQL, token.NEQ:
		e := r.eqInt(x, y)
		if op == token.NEQ {
			e = e.not()
		}
		return e
	}
	var d Lin // condition: d >= 0
	lx, ly := r.toLin(x), r.toLin(y)
	switch op {
	case token.LSS:
		d = ly.sub(lx).addC(bi(-1))
	case token.LEQ:
		d = ly.sub(lx)
	case token.GTR:
		d = lx.sub(ly).addC(bi(-1))
	case token.GEQ:
		d = lx.sub(ly)
	}
	d = r.subst(d)
	if len(d.t) == 1 && r.isBoolAtom(d.t[0].a) {
		// k*v + c >= 0
		v0 := d.c.Sign() >= 0
		v1 := add(d.c, d.t[0].k).Sign() >= 0
		b := r.boolAtomBit(d.t[0].a)
		switch {
		case v0 && v1:
			return bit1
		case !v0 && !v1:
			return bit0
		case v1:
			return b
		default:
			return b.not()
		}
	}
	return bitOf(r.geq(d))
}

func (r *Run) eqInt(x, y IntV) Bit {
	if x.bits != nil || y.bits != nil {
		if x.bits == nil && r.hasNonBool(x.lin) || y.bits == nil && r.hasNonBool(y.lin) {
			return bitOf(r.eqLin(r.toLin(x), r.toLin(y)))
		}
		xb, yb := r.toBits(x), r.toBits(y)
		var diff []Bit
		for i := range xb {
			diff = append(diff, r.xorBit(xb[i], yb[i]))
		}
		return r.orBits(diff).not()
	}
	d := r.subst(x.lin.sub(y.lin))
	if len(d.t) == 1 && r.isBoolAtom(d.t[0].a) {
		b := r.boolAtomBit(d.t[0].a)
		if d.c.Sign() == 0 {
			return b.not()
		}
		if add(d.c, d.t[0].k).Sign() == 0 {
			return b
		}
		return bit0
	}
	return bitOf(r.eqLin(x.lin, y.lin))
}

// eqLin decides x == y.
func (r *Run) eqLin(x, y Lin) bool {
	d := r.fold(r.subst(x.sub(y)))
	d = r.subst(d)
	lo, hi := r.interval(d)
	if lo.Sign() > 0 || hi.Sign() < 0 {
		return false
	}
	if lo.Sign() == 0 && hi.Sign() == 0 {
		return true
	}
	// all coefficients share a factor the constant lacks
	if g := gcdTerms(d); g.Cmp(bigOne) > 0 && floorMod(d.c, g).Sign() != 0 {
		return false
	}
	if eq, ok := r.finiteEq(d); ok {
		return eq
	}
	// decide the order, one side at a time
	if !r.geq(d) {
		return false
	}
	return !r.geq(d.addC(bi(-1)))
}

func gcdTerms(d Lin) *big.Int {
	g := new(big.Int)
	for _, t := range d.t {
		g.GCD(nil, nil, g, new(big.Int).Abs(t.k))
	}
	return g
}

// finiteEq decides d == 0 when d is a function of one atom with a small
// domain: it compares the two sides on every value of the domain.
func (r *Run) finiteEq(d Lin) (eq, ok bool) {
	var cands []int32
	derived := false
	var walk func(l Lin, depth int)
	walk = func(l Lin, depth int) {
		if depth > 6 {
			return
		}
		for _, t := range l.t {
			if t.a >= r.nbase() {
				derived = true
			}
			lo, hi := r.atomInterval(t.a)
			if sub(hi, lo).Cmp(bi(2000)) <= 0 && (t.a < r.nbase() || r.atoms[t.a-r.nbase()].kind != aTab) {
				cands = append(cands, t.a)
			}
			if t.a >= r.nbase() {
				switch in := r.atoms[t.a-r.nbase()]; in.kind {
				case aMod, aDiv, aTab, aLinbit:
					walk(in.lin, depth+1)
				}
			}
		}
	}
	walk(d, 0)
	if !derived {
		return false, false
	}
	size := func(a int32) *big.Int { lo, hi := r.atomInterval(a); return sub(hi, lo) }
	sort.Slice(cands, func(i, j int) bool {
		if c := size(cands[i]).Cmp(size(cands[j])); c != 0 {
			return c < 0
		}
		return cands[i] < cands[j]
	})
	for i, a := range cands {
		if i > 0 && cands[i-1] == a {
			continue
		}
		if eq, settled, ok := r.finiteEqOver(d, a); ok && settled {
			return eq, true
		}
	}
	return false, false
}

func (r *Run) finiteEqOver(d Lin, a int32) (eq, settled, ok bool) {
	lo, hi := r.atomInterval(a)
	zero, nonzero := 0, 0
	for v := new(big.Int).Set(lo); v.Cmp(hi) <= 0; v = add(v, bigOne) {
		x, ok := r.evalUnder(d, a, v)
		if !ok {
			return false, false, false
		}
		if x.Sign() == 0 {
			zero++
		} else {
			nonzero++
		}
		if zero > 0 && nonzero > 0 {
			return false, false, true
		}
	}
	return nonzero == 0, true, true
}

// evalUnder evaluates l given that the atom base has value v.
func (r *Run) evalUnder(l Lin, base int32, v *big.Int) (*big.Int, bool) {
	s := new(big.Int).Set(l.c)
	for _, t := range l.t {
		x, ok := r.evalAtom(t.a, base, v)
		if !ok {
			return nil, false
		}
		s.Add(s, mul(t.k, x))
	}
	return s, true
}

func (r *Run) evalAtom(a, base int32, v *big.Int) (*big.Int, bool) {
	if a == base {
		return v, true
	}
	if lo, hi := r.atomInterval(a); lo.Cmp(hi) == 0 {
		return lo, true
	}
	if a < r.nbase() {
		return nil, false
	}
	in := r.atoms[a-r.nbase()]
	switch in.kind {
	case aTab:
		i, ok := r.evalUnder(in.lin, base, v)
		if !ok || i.Sign() < 0 || i.Cmp(bi(int64(len(in.tab)))) >= 0 {
			return nil, false
		}
		return bi(in.tab[i.Int64()]), true
	case aDiv:
		if base >= r.nbase() {
			if b := r.atoms[base-r.nbase()]; b.kind == aDiv && floorMod(in.d, b.d).Sign() == 0 {
				if diff := in.lin.sub(b.lin); diff.isConst() && floorMod(diff.c, b.d).Sign() == 0 {
					return floorDiv(add(v, floorDiv(diff.c, b.d)), floorDiv(in.d, b.d)), true
				}
			}
		}
		if x, ok := r.evalUnder(in.lin, base, v); ok {
			return floorDiv(x, in.d), true
		}
	case aMod:
		if x, ok := r.evalUnder(in.lin, base, v); ok {
			return floorMod(x, in.d), true
		}
		if base >= r.nbase() {
			return r.modUnder(in.lin, in.d, &r.atoms[base-r.nbase()], v)
		}
	case aLinbit:
		if x, ok := r.evalUnder(in.lin, base, v); ok {
			return bi(int64(floorMod(floorDiv(x, pow2(uint(in.id))), bigTwo).Int64())), true
		}
	}
	return nil, false
}

// quotient reads l as floor(x/p).
func (r *Run) quotient(l Lin) (x Lin, p *big.Int) {
	if len(l.t) == 1 && l.t[0].k.Cmp(bigOne) == 0 && l.t[0].a >= r.nbase() {
		if in := r.atoms[l.t[0].a-r.nbase()]; in.kind == aDiv {
			return in.lin.addC(mul(l.c, in.d)), in.d
		}
	}
	return l, bigOne
}

// modUnder computes L mod d when base has the value v. With L = floor(X/p) and
// base = floor(Y/q) mod m (or floor(Y/q) itself), where p = a*q, a*d divides m
// and X-Y is a multiple of p*d, it is floor(v/a) mod d.
func (r *Run) modUnder(L Lin, d *big.Int, base *atomInfo, v *big.Int) (*big.Int, bool) {
	x, p := r.quotient(L)
	var y Lin
	q, m := bigOne, bigZero
	switch base.kind {
	case aMod:
		y, q = r.quotient(base.lin)
		m = base.d
	case aDiv:
		y, q = base.lin, base.d
	default:
		return nil, false
	}
	diff := x.sub(y)
	if diff.isConst() && floorMod(p, q).Sign() == 0 && floorMod(diff.c, mul(p, d)).Sign() == 0 {
		a := floorDiv(p, q)
		if floorMod(m, mul(a, d)).Sign() == 0 {
			return floorMod(floorDiv(v, a), d), true
		}
	}
	// L may itself be a modulus of the same form
	if in, ok := r.singleAtom(L); ok && in.kind == aMod {
		if y, ok := r.modUnder(in.lin, in.d, base, v); ok {
			return floorMod(y, d), true
		}
	}
	return nil, false
}

func (r *Run) singleAtom(l Lin) (atomInfo, bool) {
	if len(l.t) == 1 && l.c.Sign() == 0 && l.t[0].k.Cmp(bigOne) == 0 && l.t[0].a >= r.nbase() {
		return r.atoms[l.t[0].a-r.nbase()], true
	}
	return atomInfo{}, false
}
