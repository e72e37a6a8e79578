package main

// Affine integer forms over the atoms of one abstract run: boolean input
// literals, integer input symbols, and derived atoms (floor division, modulus,
// finite tables, opaque bounded quantities). Coefficients are unbounded.

import (
	"math/big"
	"sort"
	"strconv"
	"strings"
)

var (
	bigZero = big.NewInt(0)
	bigOne  = big.NewInt(1)
	bigTwo  = big.NewInt(2)
)

func bi(x int64) *big.Int { return big.NewInt(x) }
func bu(x uint64) *big.Int {
	return new(big.Int).SetUint64(x)
}
func add(a, b *big.Int) *big.Int      { return new(big.Int).Add(a, b) }
func sub(a, b *big.Int) *big.Int      { return new(big.Int).Sub(a, b) }
func mul(a, b *big.Int) *big.Int      { return new(big.Int).Mul(a, b) }
func neg(a *big.Int) *big.Int         { return new(big.Int).Neg(a) }
func shl(a *big.Int, n uint) *big.Int { return new(big.Int).Lsh(a, n) }
func pow2(n uint) *big.Int            { return new(big.Int).Lsh(bigOne, n) }

// floorDiv and floorMod: divisor > 0.
func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m) // Euclidean == floor for b > 0
	return q
}
func floorMod(a, b *big.Int) *big.Int {
	return new(big.Int).Mod(a, b)
}

type atomKind uint8

const (
	aVar atomKind = iota
	aSym
	aDiv    // floor(lin / d)
	aMod    // lin mod d
	aTab    // tab[lin]
	aLinbit // bit i of floor(lin), as 0/1
	aOpaque // named quantity in a declared interval
)

type atomInfo struct {
	kind   atomKind
	id     int // var or sym id; bit index for aLinbit
	lin    Lin
	d      *big.Int
	tab    []int64
	lo, hi *big.Int // aOpaque
	key    string
}

type term struct {
	a int32
	k *big.Int
}

// Lin is c + sum k*atom, terms sorted by atom id, no zero coefficient.
type Lin struct {
	c *big.Int
	t []term
}

func linC(x *big.Int) Lin   { return Lin{c: x} }
func linI(x int64) Lin      { return Lin{c: big.NewInt(x)} }
func (l Lin) isConst() bool { return len(l.t) == 0 }

func (l Lin) scale(k *big.Int) Lin {
	if k.Sign() == 0 {
		return linI(0)
	}
	if k.IsInt64() && k.Int64() == 1 {
		return l
	}
	r := Lin{c: mul(l.c, k), t: make([]term, len(l.t))}
	for i, t := range l.t {
		r.t[i] = term{t.a, mul(t.k, k)}
	}
	return r
}

func (l Lin) addC(c *big.Int) Lin {
	if c.Sign() == 0 {
		return l
	}
	return Lin{c: add(l.c, c), t: l.t}
}

func (l Lin) add(m Lin) Lin {
	if len(m.t) == 0 {
		return l.addC(m.c)
	}
	if len(l.t) == 0 {
		return m.addC(l.c)
	}
	r := Lin{c: add(l.c, m.c), t: make([]term, 0, len(l.t)+len(m.t))}
	i, j := 0, 0
	for i < len(l.t) || j < len(m.t) {
		switch {
		case j >= len(m.t) || i < len(l.t) && l.t[i].a < m.t[j].a:
			r.t = append(r.t, l.t[i])
			i++
		case i >= len(l.t) || m.t[j].a < l.t[i].a:
			r.t = append(r.t, m.t[j])
			j++
		default:
			k := add(l.t[i].k, m.t[j].k)
			if k.Sign() != 0 {
				r.t = append(r.t, term{l.t[i].a, k})
			}
			i++
			j++
		}
	}
	return r
}

func (l Lin) sub(m Lin) Lin { return l.add(m.scale(bi(-1))) }

func (l Lin) equal(m Lin) bool {
	if len(l.t) != len(m.t) || l.c.Cmp(m.c) != 0 {
		return false
	}
	for i := range l.t {
		if l.t[i].a != m.t[i].a || l.t[i].k.Cmp(m.t[i].k) != 0 {
			return false
		}
	}
	return true
}

// ---- atoms of a run

func (r *Run) nbase() int32 { return int32(r.w.nvars + r.w.nsyms) }

func (r *Run) varAtom(v int) int32 { return int32(v) }
func (r *Run) symAtom(s int) int32 { return int32(r.w.nvars + s) }

func (r *Run) atom(a int32) atomInfo {
	if int(a) < r.w.nvars {
		return atomInfo{kind: aVar, id: int(a)}
	}
	if a < r.nbase() {
		return atomInfo{kind: aSym, id: int(a) - r.w.nvars}
	}
	return r.atoms[a-r.nbase()]
}

func (r *Run) atomKey(a int32) string {
	if int(a) < r.w.nvars {
		return "v" + strconv.Itoa(int(a))
	}
	if a < r.nbase() {
		return "s" + strconv.Itoa(int(a)-r.w.nvars)
	}
	return r.atoms[a-r.nbase()].key
}

func (r *Run) linKey(l Lin) string {
	parts := make([]string, 0, len(l.t)+1)
	for _, t := range l.t {
		parts = append(parts, t.k.String()+"*"+r.atomKey(t.a))
	}
	if len(l.t) > 0 && l.t[len(l.t)-1].a >= r.nbase() {
		sort.Strings(parts)
	}
	parts = append(parts, l.c.String())
	return strings.Join(parts, "+")
}

func (r *Run) intern(info atomInfo) int32 {
	if a, ok := r.atomIdx[info.key]; ok {
		return a
	}
	a := r.nbase() + int32(len(r.atoms))
	r.atoms = append(r.atoms, info)
	r.atomIdx[info.key] = a
	return a
}

func linAtom(a int32) Lin { return Lin{c: bigZero, t: []term{{a, bigOne}}} }

func (r *Run) linVar(v int) Lin { return linAtom(r.varAtom(v)) }
func (r *Run) linSym(s int) Lin { return linAtom(r.symAtom(s)) }

// opaque returns the named quantity as a form, with the declared interval.
func (r *Run) opaque(key string, lo, hi int64) Lin {
	return linAtom(r.intern(atomInfo{kind: aOpaque, lo: bi(lo), hi: bi(hi), key: "O(" + key + ")"}))
}

// subst replaces atoms that the region has fixed by their values and
// recanonicalises derived atoms.
func (r *Run) subst(l Lin) Lin {
	if len(l.t) == 0 {
		return l
	}
	changed := false
	for _, t := range l.t {
		if r.atomChanged(t.a) {
			changed = true
			break
		}
	}
	if !changed {
		return l
	}
	out := linC(l.c)
	keep := make([]term, 0, len(l.t))
	var extra []Lin
	for _, t := range l.t {
		if !r.atomChanged(t.a) {
			keep = append(keep, t)
			continue
		}
		extra = append(extra, r.atomValue(t.a).scale(t.k))
	}
	out.t = keep
	for _, e := range extra {
		out = out.add(e)
	}
	return out
}

// atomChanged reports whether atomValue would differ from the atom itself.
func (r *Run) atomChanged(a int32) bool {
	if int(a) < r.w.nvars {
		return r.varValue(int(a)) >= 0
	}
	lo, hi := r.atomInterval(a)
	if lo.Cmp(hi) == 0 {
		return true
	}
	if a < r.nbase() {
		return false
	}
	info := r.atoms[a-r.nbase()]
	switch info.kind {
	case aDiv, aMod, aTab, aLinbit:
		for _, t := range info.lin.t {
			if r.atomChanged(t.a) {
				return true
			}
		}
	}
	return false
}

func (r *Run) atomValue(a int32) Lin {
	if int(a) < r.w.nvars {
		if v := r.varValue(int(a)); v >= 0 {
			return linI(int64(v))
		}
		return linAtom(a)
	}
	lo, hi := r.atomInterval(a)
	if lo.Cmp(hi) == 0 {
		return linC(lo)
	}
	if a < r.nbase() {
		return linAtom(a)
	}
	info := r.atoms[a-r.nbase()]
	switch info.kind {
	case aDiv:
		return r.div(info.lin, info.d)
	case aMod:
		return r.mod(info.lin, info.d)
	case aTab:
		return r.table(info.lin, info.tab)
	case aLinbit:
		return r.bitLin(r.linbit(info.lin, info.id))
	}
	return linAtom(a)
}

func (r *Run) atomInterval(a int32) (lo, hi *big.Int) {
	if int(a) < r.w.nvars {
		switch r.varValue(int(a)) {
		case 0:
			return bigZero, bigZero
		case 1:
			return bigOne, bigOne
		}
		return bigZero, bigOne
	}
	if a < r.nbase() {
		s := int(a) - r.w.nvars
		return r.reg.lo[s], r.reg.hi[s]
	}
	info := r.atoms[a-r.nbase()]
	switch info.kind {
	case aDiv:
		l, h := r.interval(info.lin)
		lo, hi = floorDiv(l, info.d), floorDiv(h, info.d)
	case aMod:
		l, h := r.interval(info.lin)
		if floorDiv(l, info.d).Cmp(floorDiv(h, info.d)) == 0 {
			lo, hi = floorMod(l, info.d), floorMod(h, info.d)
		} else {
			lo, hi = bigZero, sub(info.d, bigOne)
		}
	case aTab:
		l, h := r.interval(info.lin)
		for i := l.Int64(); i <= h.Int64(); i++ {
			v := bi(info.tab[i])
			if lo == nil || v.Cmp(lo) < 0 {
				lo = v
			}
			if hi == nil || v.Cmp(hi) > 0 {
				hi = v
			}
		}
	case aLinbit:
		l, h := r.interval(info.lin)
		d := pow2(uint(info.id))
		ql, qh := floorDiv(l, d), floorDiv(h, d)
		if ql.Cmp(qh) == 0 {
			b := bi(int64(ql.Bit(0)))
			if ql.Sign() < 0 {
				b = floorMod(ql, bigTwo)
			}
			return b, b
		}
		lo, hi = bigZero, bigOne
	default:
		lo, hi = info.lo, info.hi
	}
	if f, ok := r.reg.facts[info.key]; ok {
		if f[0].Cmp(lo) > 0 {
			lo = f[0]
		}
		if f[1].Cmp(hi) < 0 {
			hi = f[1]
		}
	}
	return lo, hi
}

// interval bounds the form over the region. It is cached per run for forms
// with derived atoms only through their atoms; forms are short.
func (r *Run) interval(l Lin) (lo, hi *big.Int) {
	if len(l.t) == 0 {
		return l.c, l.c
	}
	if len(l.t) == 1 && l.t[0].k.IsInt64() && l.t[0].k.Int64() == 1 {
		al, ah := r.atomInterval(l.t[0].a)
		return add(l.c, al), add(l.c, ah)
	}
	lo, hi = new(big.Int).Set(l.c), new(big.Int).Set(l.c)
	var tmp big.Int
	for _, t := range l.t {
		al, ah := r.atomInterval(t.a)
		if t.k.Sign() < 0 {
			al, ah = ah, al
		}
		lo.Add(lo, tmp.Mul(t.k, al))
		hi.Add(hi, tmp.Mul(t.k, ah))
	}
	return lo, hi
}

// splitByDiv separates l into d*q + rest, taking whole multiples out.
func (r *Run) splitByDiv(l Lin, d *big.Int) (q, rest Lin) {
	q, rest = linI(0), linI(0)
	qc, rc := new(big.Int), new(big.Int)
	qc.DivMod(l.c, d, rc)
	q.c, rest.c = qc, rc
	var m big.Int
	for _, t := range l.t {
		qk := new(big.Int)
		qk.DivMod(t.k, d, &m)
		if m.Sign() == 0 {
			q.t = append(q.t, term{t.a, qk})
		} else {
			rest.t = append(rest.t, t)
		}
	}
	return
}

// div returns floor(l/d) for d > 0.
func (r *Run) div(l Lin, d *big.Int) Lin {
	l = r.subst(l)
	if d.Cmp(bigOne) == 0 {
		return l
	}
	q, rest := r.splitByDiv(l, d)
	if rest.isConst() {
		return q
	}
	lo, hi := r.interval(rest)
	ml, mh := floorDiv(lo, d), floorDiv(hi, d)
	if ml.Cmp(mh) == 0 {
		return q.addC(ml)
	}
	if len(rest.t) == 1 && rest.t[0].k.Cmp(bigOne) == 0 && rest.t[0].a >= r.nbase() {
		in := r.atoms[rest.t[0].a-r.nbase()]
		if in.kind == aDiv {
			return q.add(r.div(in.lin.addC(mul(rest.c, in.d)), mul(in.d, d)))
		}
		if in.kind == aMod && rest.c.Sign() == 0 && floorMod(in.d, d).Sign() == 0 {
			return q.add(r.mod(r.div(in.lin, d), floorDiv(in.d, d)))
		}
	}
	a := r.intern(atomInfo{kind: aDiv, lin: rest, d: d, key: "D(" + r.linKey(rest) + "," + d.String() + ")"})
	return q.add(linAtom(a))
}

// mod returns l mod d (in [0,d)) for d > 0.
func (r *Run) mod(l Lin, d *big.Int) Lin {
	l = r.subst(l)
	if d.Cmp(bigOne) == 0 {
		return linI(0)
	}
	_, rest := r.splitByDiv(l, d)
	if rest.isConst() {
		return rest
	}
	lo, hi := r.interval(rest)
	ml, mh := floorDiv(lo, d), floorDiv(hi, d)
	if ml.Cmp(mh) == 0 {
		return rest.addC(neg(mul(ml, d)))
	}
	if len(rest.t) == 1 && rest.t[0].k.Cmp(bigOne) == 0 && rest.t[0].a >= r.nbase() {
		if in := r.atoms[rest.t[0].a-r.nbase()]; in.kind == aMod && floorMod(in.d, d).Sign() == 0 {
			return r.mod(in.lin.addC(rest.c), d)
		}
	}
	a := r.intern(atomInfo{kind: aMod, lin: rest, d: d, key: "M(" + r.linKey(rest) + "," + d.String() + ")"})
	return linAtom(a)
}

// fold rewrites k*b*floor(L/b) terms into moduli where that is exact:
// -k*b*Div(L,b) = k*Mod(L,b) - k*L.
func (r *Run) fold(l Lin) Lin {
	for pass := 0; pass < 4; pass++ {
		done := true
		for _, t := range l.t {
			if t.a < r.nbase() {
				continue
			}
			in := r.atoms[t.a-r.nbase()]
			if in.kind != aDiv || t.k.Sign() >= 0 {
				continue
			}
			if nl, ok := r.foldDivs(l, t, in); ok {
				l = nl
				done = false
				break
			}
			k, m := new(big.Int), new(big.Int)
			k.DivMod(neg(t.k), in.d, m)
			if m.Sign() != 0 {
				continue
			}
			// only when it cancels something of L
			cancel := false
			for _, u := range in.lin.t {
				for _, v := range l.t {
					if u.a == v.a {
						cancel = true
					}
				}
			}
			if !cancel {
				continue
			}
			l = l.add(Lin{c: bigZero, t: []term{{t.a, neg(t.k)}}})
			l = l.add(r.mod(in.lin, in.d).scale(k)).sub(in.lin.scale(k))
			done = false
			break
		}
		if done {
			break
		}
	}
	return l
}

// foldDivs rewrites c*floor(L/q) - c*p*floor(L/(p*q)) into
// c*(floor(L/q) mod p).
func (r *Run) foldDivs(l Lin, t term, in atomInfo) (Lin, bool) {
	for _, u := range l.t {
		if u.a < r.nbase() || u.k.Sign() <= 0 || u.a == t.a {
			continue
		}
		o := r.atoms[u.a-r.nbase()]
		if o.kind != aDiv || !o.lin.equal(in.lin) {
			continue
		}
		p, m := new(big.Int), new(big.Int)
		if p.DivMod(in.d, o.d, m); m.Sign() != 0 {
			continue
		}
		c := new(big.Int)
		if c.DivMod(neg(t.k), p, m); m.Sign() != 0 {
			continue
		}
		l = l.add(Lin{c: bigZero, t: []term{{t.a, neg(t.k)}}})
		l = l.add(r.mod(linAtom(u.a), p).scale(c)).sub(linAtom(u.a).scale(c))
		return l, true
	}
	return l, false
}

// table returns tab[l]; the caller guarantees that l stays within tab.
func (r *Run) table(l Lin, tab []int64) Lin {
	l = r.subst(l)
	if l.isConst() {
		return linI(tab[l.c.Int64()])
	}
	lo, hi := r.interval(l)
	a, b := lo.Int64(), hi.Int64()
	// Only the reachable residues count when a single atom is scaled.
	step := int64(1)
	if len(l.t) == 1 && l.t[0].k.IsInt64() {
		step = l.t[0].k.Int64()
		if step < 0 {
			step = -step
		}
	}
	affine := true
	for i := a; i+2*step <= b; i += step {
		if tab[i+step]-tab[i] != tab[i+2*step]-tab[i+step] {
			affine = false
			break
		}
	}
	if affine && b > a {
		slope := int64(0)
		if a+step <= b {
			slope = tab[a+step] - tab[a]
		}
		if slope%step == 0 {
			return l.addC(bi(-a)).scale(bi(slope / step)).addC(bi(tab[a]))
		}
	}
	var sb strings.Builder
	sb.WriteString("T(")
	sb.WriteString(r.linKey(l))
	for i := a; i <= b; i++ {
		sb.WriteByte(',')
		sb.WriteString(strconv.FormatInt(tab[i], 10))
	}
	sb.WriteString("@" + strconv.FormatInt(a, 10) + ")")
	at := r.intern(atomInfo{kind: aTab, lin: l, tab: tab, key: sb.String()})
	return linAtom(at)
}
