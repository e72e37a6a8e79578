package main

// Input-space partition: a Region is one cell (boolean literals fixed or free,
// integer symbols in intervals, OR-facts), and a Run analyses the program for
// all inputs of one cell at once. A decision the cell does not settle asks for
// the cell to be split; both halves are then analysed.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
)

// World declares the inputs of a goal.
type World struct {
	nvars   int
	nsyms   int
	varName []string
	symName []string
	symLo   []*big.Int
	symHi   []*big.Int
	streams []*Stream
	expos   []expField
	// boolean variable -> (stream, bit index), for variables of streams
	varStream map[int]streamBit
	mu        sync.Mutex
	precs     []int64 // precisions to which sums are rounded (see probe.go)
}

type streamBit struct {
	s *Stream
	i int
}

// Stream is an input mantissa of arbitrary length: bit 0 is 1, bits 1.. are
// free, and M (a symbol) is the index of the last set bit plus one.
type Stream struct {
	id    int
	base  int // variable id of bit 0 (never used: it is constant 1)
	n     int // number of addressable bits
	M, S  int // symbols: M as above; S = precision - M
	E     int // symbol: the exponent
	nameX string
}

const streamBits = 2400

func newWorld() *World {
	if sharedWorld != nil {
		return sharedWorld
	}
	return &World{varStream: map[int]streamBit{}}
}

func (w *World) newVar(name string) int {
	w.varName = append(w.varName, name)
	w.nvars++
	return w.nvars - 1
}

func (w *World) newSym(name string, lo, hi *big.Int) int {
	w.symName = append(w.symName, name)
	w.symLo = append(w.symLo, lo)
	w.symHi = append(w.symHi, hi)
	w.nsyms++
	return w.nsyms - 1
}

func (w *World) newStream(name string) *Stream {
	s := &Stream{id: len(w.streams), base: w.nvars, n: streamBits, nameX: name}
	for i := 0; i < streamBits; i++ {
		v := w.newVar(fmt.Sprintf("%s.mant[%d]", name, i))
		w.varStream[v] = streamBit{s, i}
	}
	s.M = w.newSym(name+".minprec", bi(1), bi(1<<30))
	s.S = w.newSym(name+".slack", bi(0), bi(1<<30))
	w.streams = append(w.streams, s)
	return s
}

// Region is immutable once created.
type Region struct {
	v       []int8
	lo, hi  []*big.Int
	clauses [][]Bit // at least one of the bits is 1; literals only
	facts   map[string][2]*big.Int
	path    *pathNode
	depth   int
	probe   *int // in a probe of an undecided cell: the executions left
}

type pathNode struct {
	up   *pathNode
	text string
}

func (w *World) initial() *Region {
	g := &Region{v: make([]int8, w.nvars), lo: append([]*big.Int{}, w.symLo...), hi: append([]*big.Int{}, w.symHi...)}
	for i := range g.v {
		g.v[i] = -1
	}
	for _, s := range w.streams {
		g.v[s.base] = 1
	}
	return g
}

func (g *Region) clone(text string) *Region {
	n := &Region{
		v:       append([]int8{}, g.v...),
		lo:      append([]*big.Int{}, g.lo...),
		hi:      append([]*big.Int{}, g.hi...),
		clauses: g.clauses,
		facts:   g.facts,
		path:    &pathNode{g.path, text},
		depth:   g.depth + 1,
		probe:   g.probe,
	}
	return n
}

func (g *Region) pathText() string {
	var out []string
	for p := g.path; p != nil; p = p.up {
		if p.text != "" {
			out = append(out, p.text)
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return strings.Join(out, "; ")
}

// Bit is an abstract bit: a constant, an input literal, or bit i of an affine
// form (id refers to a derived atom of the run).
type Bit struct {
	k  bitKind
	id int32
}

type bitKind uint8

const (
	bConst0 bitKind = iota
	bConst1
	bPos // variable id
	bNeg
	bLinPos // linbit atom
	bLinNeg
)

var (
	bit0 = Bit{k: bConst0}
	bit1 = Bit{k: bConst1}
)

func bitOf(b bool) Bit {
	if b {
		return bit1
	}
	return bit0
}

func (b Bit) isConst() bool { return b.k <= bConst1 }
func (b Bit) not() Bit {
	switch b.k {
	case bConst0:
		return bit1
	case bConst1:
		return bit0
	}
	b.k ^= 1 // Pos<->Neg, LinPos<->LinNeg
	return b
}

func init() {
	if bPos^1 != bNeg || bLinPos^1 != bLinNeg {
		panic("bit kinds")
	}
}

// splitReq asks the driver to partition the current cell.
type splitReq struct {
	kind byte // 'v' var, 's' sym at t (lo..t-1 | t..hi), 'c' clause, 'f' fact key at t
	id   int
	t    *big.Int
	bits []Bit
	key  string
	// interval of the fact atom before the split
	flo, fhi *big.Int
}

// undecided aborts a run: the analysis cannot model a construct.
type undecided struct{ msg string }

// infeasible aborts a run whose cell turned out to be empty.
type infeasible struct{}

type Run struct {
	entry     string // the construct under judgement, while no call is active
	w         *World
	reg       *Region
	atoms     []atomInfo
	atomIdx   map[string]int32
	steps     int
	in        *Interp
	trace     []string
	assume    map[string]FloatV // RN64 of a sum key -> value (C14)
	assumeSum *Sum
	mem
}

func newRun(w *World, g *Region) *Run {
	return &Run{w: w, reg: g, atomIdx: map[string]int32{}}
}

func (r *Run) split(q *splitReq) { panic(q) }
func (r *Run) giveUp(format string, args ...any) {
	panic(&undecided{fmt.Sprintf(format, args...)})
}

// varValue returns 0, 1 or -1 (free).
func (r *Run) varValue(v int) int8 { return r.reg.varValue(r.w, v) }

func (g *Region) varValue(w *World, v int) int8 {
	if x := g.v[v]; x >= 0 {
		return x
	}
	if len(w.streams) > 0 {
		if sb, ok := w.streamOf(v); ok {
			hi := g.hi[sb.s.M]
			if hi.Cmp(bi(int64(sb.i))) <= 0 {
				return 0
			}
			if lo := g.lo[sb.s.M]; lo.Cmp(hi) == 0 && lo.Cmp(bi(int64(sb.i+1))) == 0 {
				return 1
			}
		}
	}
	return -1
}

func (w *World) streamOf(v int) (streamBit, bool) {
	for _, s := range w.streams {
		if v >= s.base && v < s.base+s.n {
			return streamBit{s, v - s.base}, true
		}
	}
	return streamBit{}, false
}

// assign fixes a variable and propagates; false when the cell becomes empty.
func (g *Region) assign(w *World, v int, val int8) bool {
	if cur := g.varValue(w, v); cur >= 0 {
		return cur == val
	}
	g.v[v] = val
	if sb, ok := w.streamOf(v); ok && val == 1 {
		if g.lo[sb.s.M].Cmp(bi(int64(sb.i+1))) < 0 {
			g.lo[sb.s.M] = bi(int64(sb.i + 1))
			if g.lo[sb.s.M].Cmp(g.hi[sb.s.M]) > 0 {
				return false
			}
		}
	}
	return g.propagate(w)
}

func (g *Region) litValue(w *World, b Bit) int8 {
	switch b.k {
	case bConst0:
		return 0
	case bConst1:
		return 1
	case bPos:
		return g.varValue(w, int(b.id))
	case bNeg:
		v := g.varValue(w, int(b.id))
		if v < 0 {
			return v
		}
		return 1 - v
	}
	return -1
}

func (g *Region) propagate(w *World) bool {
	for again := true; again; {
		again = false
		kept := g.clauses[:0:0]
		for _, c := range g.clauses {
			sat := false
			free := 0
			var last Bit
			for _, b := range c {
				switch g.litValue(w, b) {
				case 1:
					sat = true
				case -1:
					free++
					last = b
				}
				if sat {
					break
				}
			}
			if sat {
				continue
			}
			if free == 0 {
				return false
			}
			if free == 1 && (last.k == bPos || last.k == bNeg) {
				val := int8(1)
				if last.k == bNeg {
					val = 0
				}
				g.v[last.id] = val
				if sb, ok := w.streamOf(int(last.id)); ok && val == 1 {
					if g.lo[sb.s.M].Cmp(bi(int64(sb.i+1))) < 0 {
						g.lo[sb.s.M] = bi(int64(sb.i + 1))
						if g.lo[sb.s.M].Cmp(g.hi[sb.s.M]) > 0 {
							return false
						}
					}
				}
				again = true
				continue
			}
			kept = append(kept, c)
		}
		g.clauses = kept
	}
	return g.streamOK(w)
}

// streamOK checks that the known-zero bits leave room for the last set bit.
func (g *Region) streamOK(w *World) bool {
	for _, s := range w.streams {
		lo, hi := g.lo[s.M], g.hi[s.M]
		if lo.Cmp(hi) > 0 {
			return false
		}
		// If the top of the interval is known zero, lower it; raise nothing.
		for hi.Cmp(lo) >= 0 && hi.IsInt64() && hi.Int64() <= int64(s.n) {
			i := int(hi.Int64()) - 1
			if g.v[s.base+i] == 0 {
				hi = sub(hi, bigOne)
				continue
			}
			break
		}
		if lo.Cmp(hi) > 0 {
			return false
		}
		g.hi[s.M] = hi
		for lo.Cmp(hi) < 0 && lo.Int64() <= int64(s.n) && g.v[s.base+int(lo.Int64())-1] == 0 {
			lo = add(lo, bigOne)
		}
		g.lo[s.M] = lo
		for i := int64(0); hi.Int64()+i < int64(s.n) && i < 256; i++ {
			if g.v[s.base+int(hi.Int64()+i)] == 1 {
				return false
			}
		}
	}
	return true
}

// children partitions the region as requested; empty halves are dropped.
func (g *Region) children(w *World, q *splitReq) []*Region {
	var out []*Region
	addc := func(n *Region, ok bool) {
		if ok {
			out = append(out, n)
		}
	}
	switch q.kind {
	case 'v':
		for val := int8(0); val <= 1; val++ {
			n := g.clone(fmt.Sprintf("%s=%d", w.varName[q.id], val))
			addc(n, n.assign(w, q.id, val))
		}
	case 's':
		a := g.clone(fmt.Sprintf("%s<%s", w.symName[q.id], q.t))
		a.hi[q.id] = sub(q.t, bigOne)
		b := g.clone(fmt.Sprintf("%s>=%s", w.symName[q.id], q.t))
		b.lo[q.id] = q.t
		addc(a, a.lo[q.id].Cmp(a.hi[q.id]) <= 0 && a.propagate(w))
		addc(b, b.lo[q.id].Cmp(b.hi[q.id]) <= 0 && b.propagate(w))
	case 'c':
		a := g.clone("all of " + w.bitsName(q.bits) + " zero")
		ok := true
		for _, b := range q.bits {
			val := int8(0)
			if b.k == bNeg {
				val = 1
			}
			if !a.assign(w, int(b.id), val) {
				ok = false
				break
			}
		}
		addc(a, ok)
		b := g.clone("some of " + w.bitsName(q.bits) + " set")
		b.clauses = append(append([][]Bit{}, g.clauses...), append([]Bit{}, q.bits...))
		addc(b, b.propagate(w))
	case 'f':
		for half := 0; half < 2; half++ {
			n := g.clone("")
			f := map[string][2]*big.Int{}
			for k, v := range g.facts {
				f[k] = v
			}
			if half == 0 {
				n.path.text = fmt.Sprintf("%s<%s", q.key, q.t)
				f[q.key] = [2]*big.Int{q.flo, sub(q.t, bigOne)}
			} else {
				n.path.text = fmt.Sprintf("%s>=%s", q.key, q.t)
				f[q.key] = [2]*big.Int{q.t, q.fhi}
			}
			n.facts = f
			addc(n, f[q.key][0].Cmp(f[q.key][1]) <= 0)
		}
	}
	return out
}

func (w *World) bitsName(bs []Bit) string {
	ids := make([]int, 0, len(bs))
	for _, b := range bs {
		ids = append(ids, int(b.id))
	}
	sort.Ints(ids)
	// compress runs
	var parts []string
	for i := 0; i < len(ids); {
		j := i
		for j+1 < len(ids) && ids[j+1] == ids[j]+1 {
			j++
		}
		if j > i {
			parts = append(parts, w.varName[ids[i]]+".."+w.varName[ids[j]])
		} else {
			parts = append(parts, w.varName[ids[i]])
		}
		i = j + 1
	}
	return "{" + strings.Join(parts, ",") + "}"
}

// ---- bits of a run

func (r *Run) bit(b Bit) Bit {
	switch b.k {
	case bPos:
		switch r.varValue(int(b.id)) {
		case 0:
			return bit0
		case 1:
			return bit1
		}
	case bNeg:
		switch r.varValue(int(b.id)) {
		case 0:
			return bit1
		case 1:
			return bit0
		}
	case bLinPos, bLinNeg:
		in := r.atoms[b.id-r.nbase()]
		n := r.linbit(in.lin, in.id)
		if b.k == bLinNeg {
			n = n.not()
		}
		return n
	}
	return b
}

func varBit(v int) Bit { return Bit{k: bPos, id: int32(v)} }

// linbit is bit i of the integer l (two's complement, any i).
func (r *Run) linbit(l Lin, i int) Bit {
	l = r.subst(l)
	if l.isConst() {
		return bitOf(floorMod(floorDiv(l.c, pow2(uint(i))), bigTwo).Sign() != 0)
	}
	lo, hi := r.interval(l)
	d := pow2(uint(i))
	ql, qh := floorDiv(lo, d), floorDiv(hi, d)
	if ql.Cmp(qh) == 0 {
		return bitOf(floorMod(ql, bigTwo).Sign() != 0)
	}
	bs := r.linBits(l, i+1)
	return bs[i]
}

func (r *Run) linbitAtom(l Lin, i int) Bit {
	a := r.intern(atomInfo{kind: aLinbit, lin: l, id: i, key: fmt.Sprintf("B(%s,%d)", r.linKey(l), i)})
	lo, hi := r.atomInterval(a)
	if lo.Cmp(hi) == 0 {
		return bitOf(lo.Sign() != 0)
	}
	return Bit{k: bLinPos, id: a}
}

func half(x *big.Int) *big.Int { return new(big.Int).Rsh(x, 1) }

// linBits gives the low w bits of l.
func (r *Run) linBits(l Lin, w int) []Bit {
	out := make([]Bit, w)
	l = r.subst(l)
	for i := 0; i < w; i++ {
		if l.isConst() {
			c := l.c
			for ; i < w; i++ {
				out[i] = bitOf(c.Sign() >= 0 && c.Bit(0) == 1 || c.Sign() < 0 && floorMod(c, bigTwo).Sign() != 0)
				c = half(c)
			}
			return out
		}
		var odd []term
		for _, t := range l.t {
			if t.k.Bit(0) == 1 {
				odd = append(odd, t)
			}
		}
		cOdd := floorMod(l.c, bigTwo).Sign() != 0
		halve := func(skip int32, extra Lin) {
			n := Lin{c: half(l.c), t: make([]term, 0, len(l.t))}
			for _, t := range l.t {
				if t.a == skip {
					continue
				}
				n.t = append(n.t, term{t.a, half(t.k)})
			}
			l = r.subst(n.add(extra))
		}
		if len(odd) == 0 {
			out[i] = bitOf(cOdd)
			halve(-1, linI(0))
			continue
		}
		opaque := false
		for _, t := range odd {
			if !r.isBoolAtom(t.a) {
				opaque = true
			}
		}
		if opaque {
			// the remaining bits are bits of an opaque form, those above its
			// range the ones of a constant
			lo, hi := r.interval(l)
			k := uint(0)
			for ; k < uint(w-i); k++ {
				if floorDiv(lo, pow2(k)).Cmp(floorDiv(hi, pow2(k))) == 0 {
					break
				}
			}
			if k < uint(w-i) {
				top := floorDiv(lo, pow2(k))
				for j := i + int(k); j < w; j++ {
					out[j] = bitOf(floorMod(floorDiv(top, pow2(uint(j-i)-k)), bigTwo).Sign() != 0)
				}
				l = l.addC(neg(mul(top, pow2(k))))
				w = i + int(k)
			}
			for j := i; j < w; j++ {
				out[j] = r.linbitAtom(l, j-i)
			}
			return out
		}
		if len(odd) > 1 {
			// carry between free bits: decide the one of lowest weight last added
			r.decideBit(r.boolAtomBit(odd[0].a))
			panic("unreachable")
		}
		v := odd[0]
		b := r.boolAtomBit(v.a)
		// v.k = 2j+1
		j := half(v.k) // floor
		ex := Lin{c: bigZero, t: []term{{v.a, bigOne}}}
		if cOdd {
			out[i] = b.not()
			halve(v.a, ex.scale(add(j, bigOne)))
		} else {
			out[i] = b
			halve(v.a, ex.scale(j))
		}
	}
	return out
}

func (r *Run) isBoolAtom(a int32) bool {
	if int(a) < r.w.nvars {
		return true
	}
	if a < r.nbase() {
		return false
	}
	return r.atoms[a-r.nbase()].kind == aLinbit
}

func (r *Run) boolAtomBit(a int32) Bit {
	if int(a) < r.w.nvars {
		return varBit(int(a))
	}
	return Bit{k: bLinPos, id: a}
}

// bitLin is the 0/1 form of a bit.
func (r *Run) bitLin(b Bit) Lin {
	b = r.bit(b)
	switch b.k {
	case bConst0:
		return linI(0)
	case bConst1:
		return linI(1)
	case bPos, bLinPos:
		return linAtom(b.id)
	default:
		return Lin{c: bigOne, t: []term{{b.id, bi(-1)}}}
	}
}

// decideBit returns the value of the bit, splitting the cell when it is free.
func (r *Run) decideBit(b Bit) bool {
	b = r.bit(b)
	switch b.k {
	case bConst0:
		return false
	case bConst1:
		return true
	case bPos, bNeg:
		r.split(&splitReq{kind: 'v', id: int(b.id)})
	default:
		in := r.atoms[b.id-r.nbase()]
		r.splitLinbit(in.lin, in.id)
	}
	panic("unreachable")
}

// splitLinbit splits so that bit i of l gets closer to being constant.
func (r *Run) splitLinbit(l Lin, i int) {
	l = r.subst(l)
	lo, hi := r.interval(l)
	d := pow2(uint(i))
	ql, qh := floorDiv(lo, d), floorDiv(hi, d)
	if ql.Cmp(qh) == 0 {
		panic("splitLinbit: constant")
	}
	// threshold: the multiple of d nearest the middle
	mid := floorDiv(add(ql, add(qh, bigOne)), bigTwo)
	if mid.Cmp(ql) <= 0 {
		mid = add(ql, bigOne)
	}
	// zero first: sign decisions are the common case
	if ql.Sign() < 0 && qh.Sign() >= 0 {
		mid = bigZero
	}
	r.geq(l.addC(neg(mul(mid, d))))
	panic("splitLinbit: no progress")
}

// geq decides l >= 0, splitting when the cell does not settle it.
func (r *Run) geq(l Lin) bool {
	l = r.fold(r.subst(l))
	l = r.subst(l)
	lo, hi := r.interval(l)
	if lo.Sign() >= 0 {
		return true
	}
	if hi.Sign() < 0 {
		return false
	}
	if r.coupled(&l) {
		lo, hi = r.interval(l)
		if lo.Sign() >= 0 {
			return true
		}
		if hi.Sign() < 0 {
			return false
		}
	}
	r.splitGeq(l)
	panic("unreachable")
}

func (r *Run) coupled(l *Lin) bool { return false }

// splitGeq picks the split that settles l >= 0 for at least one half when one
// symbol alone can, and bisects the widest symbol otherwise.
func (r *Run) splitGeq(l Lin) {
	lo, hi := r.interval(l)
	type cand struct {
		t    term
		x    *big.Int // threshold on the atom
		size *big.Int
	}
	var best *cand
	var wide *cand
	for _, t := range l.t {
		al, ah := r.atomInterval(t.a)
		w := mul(sub(ah, al), new(big.Int).Abs(t.k))
		// bisection candidate
		if wide == nil || w.Cmp(wide.size) > 0 {
			m := floorDiv(add(al, add(ah, bigOne)), bigTwo)
			if m.Cmp(al) <= 0 {
				m = add(al, bigOne)
			}
			wide = &cand{t, m, w}
		}
		// decide-one-half candidate: rest interval
		var rl, rh *big.Int
		if t.k.Sign() > 0 {
			rl, rh = sub(lo, mul(t.k, al)), sub(hi, mul(t.k, ah))
			// k*x + rl >= 0 for x >= ceil(-rl/k): upper half is settled true
			x := neg(floorDiv(rl, t.k))
			if x.Cmp(al) > 0 && x.Cmp(ah) <= 0 {
				if best == nil || w.Cmp(best.size) > 0 {
					best = &cand{t, x, w}
				}
				continue
			}
			// k*x + rh < 0 for x <= floor((-rh-1)/k): lower half settled false
			x = add(floorDiv(sub(neg(rh), bigOne), t.k), bigOne)
			if x.Cmp(al) > 0 && x.Cmp(ah) <= 0 {
				if best == nil || w.Cmp(best.size) > 0 {
					best = &cand{t, x, w}
				}
			}
		} else {
			k := neg(t.k)
			rl, rh = sub(lo, mul(t.k, ah)), sub(hi, mul(t.k, al))
			// rl - k*x >= 0 for x <= floor(rl/k): lower half settled true
			x := add(floorDiv(rl, k), bigOne)
			if x.Cmp(al) > 0 && x.Cmp(ah) <= 0 {
				if best == nil || w.Cmp(best.size) > 0 {
					best = &cand{t, x, w}
				}
				continue
			}
			// rh - k*x < 0 for x > rh/k: upper half settled false
			x = add(floorDiv(rh, k), bigOne)
			if x.Cmp(al) > 0 && x.Cmp(ah) <= 0 {
				if best == nil || w.Cmp(best.size) > 0 {
					best = &cand{t, x, w}
				}
			}
		}
	}
	c := best
	if c == nil {
		c = wide
	}
	r.splitAtom(c.t.a, c.x)
}

// splitAtom splits so that atom < x and atom >= x are separated.
func (r *Run) splitAtom(a int32, x *big.Int) {
	if int(a) < r.w.nvars {
		r.split(&splitReq{kind: 'v', id: int(a)})
	}
	if a < r.nbase() {
		r.split(&splitReq{kind: 's', id: int(a) - r.w.nvars, t: x})
	}
	in := r.atoms[a-r.nbase()]
	switch in.kind {
	case aDiv:
		r.geq(in.lin.addC(neg(mul(x, in.d))))
	case aLinbit:
		r.splitLinbit(in.lin, in.id)
	case aTab:
		// bisect the index
		lo, hi := r.interval(in.lin)
		m := floorDiv(add(lo, add(hi, bigOne)), bigTwo)
		if m.Cmp(lo) <= 0 {
			m = add(lo, bigOne)
		}
		r.geq(in.lin.addC(neg(m)))
	case aMod:
		// few blocks: split the form itself; otherwise record an interval fact
		l, h := r.interval(in.lin)
		blocks := sub(floorDiv(h, in.d), floorDiv(l, in.d))
		if blocks.Cmp(bi(1)) <= 0 {
			m := mul(floorDiv(h, in.d), in.d)
			r.geq(in.lin.addC(neg(m)))
		}
		lo, hi := r.atomInterval(a)
		r.split(&splitReq{kind: 'f', key: in.key, t: x, flo: lo, fhi: hi})
	default:
		lo, hi := r.atomInterval(a)
		r.split(&splitReq{kind: 'f', key: in.key, t: x, flo: lo, fhi: hi})
	}
	panic("splitAtom: no progress")
}

// concrete forces a form to a constant, splitting until it is one.
func (r *Run) concrete(l Lin) *big.Int {
	l = r.subst(l)
	lo, hi := r.interval(l)
	if lo.Cmp(hi) == 0 {
		return lo
	}
	// bisect
	m := floorDiv(add(lo, add(hi, bigOne)), bigTwo)
	if m.Cmp(lo) <= 0 {
		m = add(lo, bigOne)
	}
	if sub(hi, lo).Cmp(bi(1<<20)) > 0 {
		r.giveUp("a quantity with range [%s,%s] would have to be enumerated", lo, hi)
	}
	r.geq(l.addC(neg(m)))
	// geq decided although the interval straddles m: tighten impossible
	r.giveUp("cannot enumerate %s", r.linKey(l))
	return nil
}

// anySet decides whether some of the bits is 1.
func (r *Run) anySet(bits []Bit) bool {
	b := r.orBits(bits)
	if b.isConst() {
		return b.k == bConst1
	}
	return r.decideBit(b)
}

// orBits returns the OR of the bits, splitting unless it is constant or equal
// to a single literal.
func (r *Run) orBits(bits []Bit) Bit {
	var lits []Bit
	var lin []Bit
	seen := map[Bit]bool{}
	for _, b := range bits {
		b = r.bit(b)
		switch b.k {
		case bConst0:
		case bConst1:
			return bit1
		default:
			if seen[b] {
				continue
			}
			if seen[b.not()] {
				return bit1
			}
			seen[b] = true
			if b.k == bPos || b.k == bNeg {
				lits = append(lits, b)
			} else {
				lin = append(lin, b)
			}
		}
	}
	if len(lits)+len(lin) == 0 {
		return bit0
	}
	if len(lits)+len(lin) == 1 {
		return append(lits, lin...)[0]
	}
	if r.clauseKnown(seen) {
		return bit1
	}
	if len(lits) == 0 {
		// all bits of affine forms: decide the most significant ones first
		r.decideBit(lin[len(lin)-1])
	}
	if len(lits) == 1 {
		r.decideBit(lits[0])
	}
	r.split(&splitReq{kind: 'c', bits: lits})
	panic("unreachable")
}

// clauseKnown reports whether an OR-fact of the cell implies that one of the
// bits is set.
func (r *Run) clauseKnown(set map[Bit]bool) bool {
	for _, c := range r.reg.clauses {
		all := true
		for _, b := range c {
			b = r.bit(b)
			if b.k == bConst0 {
				continue
			}
			if !set[b] {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	// stream: the last set bit lies in an interval covered by the set
	for _, s := range r.w.streams {
		lo, hi := r.reg.lo[s.M], r.reg.hi[s.M]
		if hi.Cmp(bi(int64(s.n))) > 0 || sub(hi, lo).Cmp(bi(300)) > 0 {
			continue
		}
		all := true
		for i := lo.Int64() - 1; i <= hi.Int64()-1; i++ {
			v := s.base + int(i)
			switch r.varValue(v) {
			case 0:
				continue
			case 1:
				// then the set must contain it; it is constant, handled earlier
				continue
			}
			if !set[varBit(v)] {
				all = false
				break
			}
		}
		if all && hi.Int64() >= lo.Int64() {
			// a known-1 bit inside the interval breaks the argument
			for i := lo.Int64() - 1; i <= hi.Int64()-1; i++ {
				if r.varValue(s.base+int(i)) == 1 {
					all = false
				}
			}
			if all {
				return true
			}
		}
	}
	return false
}

// boolean combinations of bits
func (r *Run) andBit(a, b Bit) Bit {
	a, b = r.bit(a), r.bit(b)
	switch {
	case a.k == bConst0 || b.k == bConst0:
		return bit0
	case a.k == bConst1:
		return b
	case b.k == bConst1:
		return a
	case a == b:
		return a
	case a == b.not():
		return bit0
	}
	if r.decideBit(b) {
		return a
	}
	return bit0
}

func (r *Run) orBit(a, b Bit) Bit { return r.andBit(a.not(), b.not()).not() }

func (r *Run) xorBit(a, b Bit) Bit {
	a, b = r.bit(a), r.bit(b)
	switch {
	case a.k == bConst0:
		return b
	case b.k == bConst0:
		return a
	case a.k == bConst1:
		return b.not()
	case b.k == bConst1:
		return a.not()
	case a == b:
		return bit0
	case a == b.not():
		return bit1
	}
	if r.decideBit(b) {
		return a.not()
	}
	return a
}

// bitsEqual compares two bit vectors; unequal symbolic positions are split on.
func (r *Run) bitsEqual(a, b []Bit) bool {
	if len(a) != len(b) {
		panic("bitsEqual")
	}
	var diff []Bit
	for i := range a {
		x, y := r.bit(a[i]), r.bit(b[i])
		if x == y {
			continue
		}
		if x == y.not() {
			return false
		}
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			if y.k == bConst1 {
				x = x.not()
			}
			diff = append(diff, x)
			continue
		}
		r.decideBit(x)
	}
	return !r.anySet(diff)
}

// sticky decides whether any bit with index >= n of the stream is set.
func (r *Run) sticky(s *Stream, n int) bool {
	return r.geq(r.linSym(s.M).addC(bi(int64(-n - 1))))
}
