package main

// Abstract values and memory of the interpreted program.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type BoolV struct{ b Bit }

// seg is one piece of a string: a character, the decimal text of an integer
// form, or text that the analysis does not track.
type seg struct {
	kind byte // 'c', 'd', '?'
	ch   IntV
	dec  Lin
}

type StrV struct{ segs []seg }

type PtrV struct{ c *Cell }

// SymPtr addresses an element with a symbolic index.
type SymPtr struct {
	arr *Cell
	off int
	n   int
	idx IntV
}

type SliceV struct {
	arr           *Cell // array cell; nil for the nil slice
	off, len, cap int
	pre           *prefix
}

// prefix marks slices of unknown capacity. Unless plain, bytes of unknown
// number and content precede the tracked ones, which off and len count. used
// is how far the memory behind them has been appended to: a second append at
// the same place may or may not overwrite the first and is not followed.
type prefix struct {
	name  string
	plain bool
	used  int
}

func (s SliceV) opaque() bool { return s.pre != nil && !s.pre.plain }

func (r *Run) prefixLen(p *prefix) Lin { return r.opaqueLin("len(" + p.name + ")") }

func (r *Run) opaqueLin(key string) Lin { return r.opaque(key, 0, 1<<30) }

type AggV struct{ f []Value }

type IfaceV struct {
	t types.Type // nil for the nil interface
	v Value
}

type FuncV struct {
	fn      *ssa.Function
	free    []Value
	builtin *ssa.Builtin
}

type TupleV []Value

type mapEntry struct{ k, v Value }

type mapObj struct {
	m   map[string]*mapEntry
	ord []string
	sym int // entries ever made under a key that is not constant
	own owner
}

type MapV struct{ m *mapObj }

type iterV struct {
	str    *StrV
	chars  []IntV
	m      *mapObj
	keys   []string
	i      int
	isStr  bool
	isNull bool
}

// builderV is the state of a strings.Builder or bytes.Buffer.
type builderV struct{ s StrV }

type owner uint8

const (
	ownFresh owner = iota
	ownParam
	ownGlobal
	ownWords // the words of a big.Int, which the number shares
)

// Cell is a memory location; structs and arrays have one cell per component.
type Cell struct {
	typ  types.Type
	v    Value
	kids []*Cell
	n    int
	agg  bool
	own  owner
	name string
}

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func namedPath(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

// leafStruct reports struct types that are modelled as single values.
func leafStruct(t types.Type) string {
	switch p := namedPath(t); p {
	case "math/big.Float", "math/big.Int", "strings.Builder", "bytes.Buffer", "sync.Mutex", "sync.RWMutex", "math/big.Rat":
		return p
	}
	return ""
}

func (r *Run) newCell(t types.Type, own owner) *Cell {
	c := &Cell{typ: t, own: own}
	if leafStruct(t) != "" {
		c.v = r.zero(t)
		return c
	}
	switch u := under(t).(type) {
	case *types.Struct:
		c.agg = true
		c.n = u.NumFields()
		c.kids = make([]*Cell, c.n)
	case *types.Array:
		c.agg = true
		c.n = int(u.Len())
		if c.n > 1<<20 {
			r.giveUp("array of %d elements", c.n)
		}
		c.kids = make([]*Cell, c.n)
	default:
		c.v = r.zero(t)
	}
	return c
}

func (c *Cell) kidType(i int) types.Type {
	switch u := under(c.typ).(type) {
	case *types.Struct:
		return u.Field(i).Type()
	case *types.Array:
		return u.Elem()
	}
	panic("kidType")
}

func (r *Run) kid(c *Cell, i int) *Cell {
	if c.kids[i] == nil {
		k := r.newCell(c.kidType(i), c.own)
		k.name = c.name
		c.kids[i] = k
	}
	return c.kids[i]
}

func (r *Run) load(c *Cell) Value {
	if !c.agg {
		if b, ok := c.v.(BigF); ok && b.form == fFinite && b.grp == nil {
			b.grp, b.gen = &share{cells: []*Cell{c}}, 0
			c.v = b
		}
		return c.v
	}
	f := make([]Value, c.n)
	for i := range f {
		if c.kids[i] == nil {
			f[i] = r.zero(c.kidType(i))
		} else {
			f[i] = r.load(c.kids[i])
		}
	}
	return AggV{f}
}

func (r *Run) store(c *Cell, v Value) {
	r.noteWrite(c)
	r.store1(c, v)
}

func (r *Run) store1(c *Cell, v Value) {
	if !c.agg {
		c.v = v
		if b, ok := v.(BigF); ok && b.grp != nil {
			b.grp.cells = append(b.grp.cells, c)
		}
		return
	}
	a, ok := v.(AggV)
	if !ok || len(a.f) != c.n {
		r.giveUp("store of %T into %s", v, c.typ)
	}
	for i := range a.f {
		r.store1(r.kid(c, i), a.f[i])
	}
}

func (r *Run) noteWrite(c *Cell) {
	switch c.own {
	case ownWords:
		r.giveUp("write through the words of a big.Int")
	case ownParam:
		r.paramWrites = append(r.paramWrites, r.where()+": write to "+c.name)
	case ownGlobal:
		if r.inInit == 0 {
			r.globalWrites = append(r.globalWrites, r.where()+": write to package variable "+c.name)
		}
	}
}

func (r *Run) basic(t types.Type) (w int, signed, ok bool) {
	b, isB := under(t).(*types.Basic)
	if !isB {
		return 0, false, false
	}
	return r.basicKind(b)
}

func (r *Run) basicKind(b *types.Basic) (w int, signed, ok bool) {
	switch b.Kind() {
	case types.Int:
		return r.in.intW, true, true
	case types.Uint, types.Uintptr:
		return r.in.intW, false, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64:
		return 64, false, true
	case types.UntypedInt:
		return r.in.intW, true, true
	}
	return 0, false, false
}

func floatWidth(t types.Type) int {
	if b, ok := under(t).(*types.Basic); ok {
		switch b.Kind() {
		case types.Float32:
			return 32
		case types.Float64, types.UntypedFloat:
			return 64
		}
	}
	return 0
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (r *Run) zero(t types.Type) Value {
	switch leafStruct(t) {
	case "math/big.Float":
		return newBigF()
	case "math/big.Int":
		return BigI{neg: bit0}
	case "strings.Builder", "bytes.Buffer":
		return builderV{}
	case "sync.Mutex", "sync.RWMutex":
		return AggV{}
	case "math/big.Rat":
		return nil
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if w, s, ok := r.basicKind(u); ok {
			return intConst(w, s, bigZero)
		}
		if w := floatWidth(t); w > 0 {
			return constFloat(w, 0)
		}
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return BoolV{bit0}
		case types.String, types.UntypedString:
			return StrV{}
		case types.UnsafePointer:
			return PtrV{}
		case types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return PtrV{}
	case *types.Slice:
		return SliceV{}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = r.zero(u.Field(i).Type())
		}
		return AggV{f}
	case *types.Array:
		f := make([]Value, u.Len())
		for i := range f {
			f[i] = r.zero(u.Elem())
		}
		return AggV{f}
	case *types.Interface:
		return IfaceV{}
	case *types.Signature:
		return FuncV{}
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return PtrV{}
	case *types.Tuple:
		f := make(TupleV, u.Len())
		for i := range f {
			f[i] = r.zero(u.At(i).Type())
		}
		return f
	}
	r.giveUp("zero value of %s", t)
	return nil
}

// ---- strings

func chr(b byte) seg { return seg{kind: 'c', ch: intConst(8, false, bi(int64(b)))} }

func strConst(s string) StrV {
	v := StrV{segs: make([]seg, len(s))}
	for i := 0; i < len(s); i++ {
		v.segs[i] = chr(s[i])
	}
	return v
}

func (r *Run) strGo(s StrV) (string, bool) {
	var sb strings.Builder
	for _, g := range s.segs {
		switch g.kind {
		case 'c':
			c, ok := r.constOf(g.ch)
			if !ok {
				return "", false
			}
			sb.WriteByte(byte(c.Int64()))
		case 'd':
			l := r.subst(g.dec)
			if !l.isConst() {
				return "", false
			}
			sb.WriteString(l.c.String())
		default:
			return "", false
		}
	}
	return sb.String(), true
}

// chars expands the string into characters, splitting the cell on the length
// of decimal pieces.
func (r *Run) chars(s StrV) []IntV {
	out := make([]IntV, 0, len(s.segs))
	for _, g := range s.segs {
		switch g.kind {
		case 'c':
			out = append(out, g.ch)
		case 'd':
			for _, c := range r.decChars(g.dec) {
				out = append(out, c)
			}
		default:
			r.giveUp("inspection of text that is not tracked")
		}
	}
	return out
}

func (r *Run) decChars(l Lin) []IntV { return r.baseChars(l, 10, false) }

const digitText = "0123456789abcdefghijklmnopqrstuvwxyz"

// baseChars is the text of an integer in a base.
func (r *Run) baseChars(l Lin, base int, upper bool) []IntV {
	var out []IntV
	l = r.subst(l)
	if !r.geq(l) {
		out = append(out, intConst(8, false, bi('-')))
		l = l.scale(bi(-1))
	}
	n := 1
	p := bi(int64(base))
	for r.geq(l.addC(neg(p))) {
		n++
		p = mul(p, bi(int64(base)))
	}
	for i := n - 1; i >= 0; i-- {
		d := r.mod(r.div(l, new(big.Int).Exp(bi(int64(base)), bi(int64(i)), nil)), bi(int64(base)))
		out = append(out, r.digitChar(d, base, upper))
	}
	return out
}

func (r *Run) digitChar(d Lin, base int, upper bool) IntV {
	tab := make([]int64, base)
	for i := range tab {
		tab[i] = int64(digitText[i])
		if upper {
			tab[i] = int64(strings.ToUpper(digitText)[i])
		}
	}
	return IntV{w: 8, signed: false, lin: r.table(d, tab)}
}

func strOf(chars []IntV) StrV {
	v := StrV{segs: make([]seg, len(chars))}
	for i, c := range chars {
		v.segs[i] = seg{kind: 'c', ch: c}
	}
	return v
}

func concat(a, b StrV) StrV {
	segs := make([]seg, 0, len(a.segs)+len(b.segs))
	segs = append(segs, a.segs...)
	segs = append(segs, b.segs...)
	return StrV{segs}
}

// ---- slices of bytes

func (r *Run) sliceElems(s SliceV) []Value {
	if s.opaque() {
		r.giveUp("the bytes of %s", s.pre.name)
	}
	out := make([]Value, s.len)
	for i := range out {
		c := s.arr.kids[s.off+i]
		if c == nil {
			out[i] = r.zero(s.arr.kidType(0))
		} else {
			out[i] = r.load(c)
		}
	}
	return out
}

func (r *Run) makeSlice(elem types.Type, n, capn int, own owner) SliceV {
	arr := r.newCell(types.NewArray(elem, int64(capn)), own)
	return SliceV{arr: arr, len: n, cap: capn}
}

func (r *Run) sliceOf(elem types.Type, vals []Value) SliceV {
	s := r.makeSlice(elem, len(vals), len(vals), ownFresh)
	for i, v := range vals {
		r.store1(r.kid(s.arr, i), v)
	}
	return s
}

func (r *Run) bytesOf(s StrV, elem types.Type) SliceV {
	ch := r.chars(s)
	vals := make([]Value, len(ch))
	for i, c := range ch {
		vals[i] = c
	}
	return r.sliceOf(elem, vals)
}

func (r *Run) appendVals(s SliceV, elem types.Type, vals []Value) SliceV {
	n := s.len + len(vals)
	if s.pre != nil {
		if len(vals) == 0 {
			return s
		}
		if s.len < s.pre.used {
			r.giveUp("a second append to the same part of a slice of unknown capacity")
		}
		s.pre.used = n
		out := r.makeSlice(elem, n, n, ownFresh)
		out.pre = s.pre
		for i := 0; i < s.len; i++ {
			r.store1(r.kid(out.arr, i), r.load(r.kid(s.arr, s.off+i)))
		}
		for i, v := range vals {
			r.store1(r.kid(out.arr, s.len+i), v)
		}
		return out
	}
	if s.arr != nil && n <= s.cap {
		for i, v := range vals {
			r.store(r.kid(s.arr, s.off+s.len+i), v)
		}
		s.len = n
		return s
	}
	if len(vals) == 0 {
		return s
	}
	c := n
	if 2*s.cap > c {
		c = 2 * s.cap
	}
	if c < 8 {
		c = 8
	}
	out := r.makeSlice(elem, n, c, ownFresh)
	if s.arr != nil {
		for i, v := range r.sliceElems(s) {
			r.store1(r.kid(out.arr, i), v)
		}
	}
	for i, v := range vals {
		r.store1(r.kid(out.arr, s.len+i), v)
	}
	return out
}

// ---- equality

// eqVal is the Go == of two values of type t, as a bit.
func (r *Run) eqVal(a, b Value, t types.Type) Bit {
	switch x := a.(type) {
	case IntV:
		return r.eqInt(x, b.(IntV))
	case BoolV:
		return r.xorBit(x.b, b.(BoolV).b).not()
	case FloatV:
		return bitOf(r.cmpFloat(token.EQL, x, b.(FloatV)))
	case StrV:
		return r.eqStr(x, b.(StrV))
	case PtrV:
		y, ok := b.(PtrV)
		return bitOf(ok && x.c == y.c)
	case SliceV:
		// only comparison with nil
		y := b.(SliceV)
		if x.opaque() || y.opaque() {
			r.giveUp("comparison of a slice argument with nil")
		}
		return bitOf(x.arr == nil && y.arr == nil)
	case MapV:
		return bitOf(x.m == b.(MapV).m)
	case FuncV:
		y := b.(FuncV)
		return bitOf(x.fn == nil && y.fn == nil && x.builtin == nil && y.builtin == nil)
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			r.giveUp("comparison of an interface with %T", b)
		}
		if x.t == nil || y.t == nil {
			return bitOf(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return bit0
		}
		return r.eqVal(x.v, y.v, x.t)
	case AggV:
		y := b.(AggV)
		for i := range x.f {
			if !r.decideBit(r.eqVal(x.f[i], y.f[i], nil)) {
				return bit0
			}
		}
		return bit1
	}
	r.giveUp("comparison of %T values", a)
	return bit0
}

func (r *Run) eqStr(x, y StrV) Bit {
	if a, ok := r.strGo(x); ok {
		if b, ok := r.strGo(y); ok {
			return bitOf(a == b)
		}
	}
	a, b := r.chars(x), r.chars(y)
	if len(a) != len(b) {
		return bit0
	}
	for i := range a {
		if !r.decideBit(r.eqInt(a[i], b[i])) {
			return bit0
		}
	}
	return bit1
}

// keyOf names a map key; symbolic keys are made concrete.
func (r *Run) keyOf(v Value) string {
	switch x := v.(type) {
	case IntV:
		return "i" + r.concreteInt(x).String()
	case BoolV:
		return fmt.Sprint("b", r.decideBit(x.b))
	case StrV:
		var sb strings.Builder
		sb.WriteByte('s')
		for _, c := range r.chars(x) {
			sb.WriteByte(byte(r.concreteInt(c).Int64()))
		}
		return sb.String()
	case IfaceV:
		if x.t == nil {
			return "nil"
		}
		return "I" + x.t.String() + ":" + r.keyOf(x.v)
	case AggV:
		s := "a("
		for _, f := range x.f {
			s += r.keyOf(f) + ","
		}
		return s + ")"
	case PtrV:
		return fmt.Sprintf("p%p", x.c)
	}
	r.giveUp("map key of kind %T", v)
	return ""
}

// constKey is keyOf for a key that is constant.
func (r *Run) constKey(v Value) (string, bool) {
	switch x := v.(type) {
	case IntV:
		if c, ok := r.constOf(x); ok {
			return "i" + c.String(), true
		}
		return "", false
	case BoolV:
		b := r.bit(x.b)
		return fmt.Sprint("b", b.k == bConst1), b.k == bConst0 || b.k == bConst1
	case StrV:
		for _, s := range x.segs {
			if s.kind == '?' || s.kind == 'd' {
				return "", false
			}
		}
		for _, c := range r.chars(x) {
			if _, ok := r.constOf(c); !ok {
				return "", false
			}
		}
		return r.keyOf(x), true
	case IfaceV:
		if x.t == nil {
			return "nil", true
		}
		k, ok := r.constKey(x.v)
		return "I" + x.t.String() + ":" + k, ok
	case AggV:
		s := "a("
		for _, f := range x.f {
			k, ok := r.constKey(f)
			if !ok {
				return "", false
			}
			s += k + ","
		}
		return s + ")", true
	case PtrV:
		return r.keyOf(x), true
	}
	return "", false
}

// mapFind looks a key up; a key that is not constant is compared with one
// entry after the other.
func (r *Run) mapFind(m *mapObj, k Value) (string, bool) {
	key, ok := r.constKey(k)
	if ok && m.sym == 0 || !ok && m.sym == 0 && len(m.ord) > 64 {
		if !ok {
			key = r.keyOf(k)
		}
		_, found := m.m[key]
		return key, found
	}
	for i := len(m.ord) - 1; i >= 0; i-- {
		if r.decideBit(r.eqVal(m.m[m.ord[i]].k, k, nil)) {
			return m.ord[i], true
		}
	}
	if !ok {
		key = fmt.Sprintf("?%d", m.sym)
	}
	return key, false
}

func (r *Run) mapSet(m *mapObj, k, v Value) {
	key, found := r.mapFind(m, k)
	if !found {
		if key[0] == '?' {
			m.sym++
		}
		m.ord = append(m.ord, key)
	} else {
		k = m.m[key].k
	}
	m.m[key] = &mapEntry{k, v}
}

func (r *Run) mapDelete(m *mapObj, k Value) {
	key, found := r.mapFind(m, k)
	if !found {
		return
	}
	delete(m.m, key)
	for i, o := range m.ord {
		if o == key {
			m.ord = append(append([]string{}, m.ord[:i]...), m.ord[i+1:]...)
			break
		}
	}
}

// reach visits every cell reachable from v.
func (r *Run) reach(v Value, seen map[*Cell]bool, visit func(*Cell)) {
	switch x := v.(type) {
	case PtrV:
		r.reachCell(x.c, seen, visit)
	case SymPtr:
		r.reachCell(x.arr, seen, visit)
	case SliceV:
		r.reachCell(x.arr, seen, visit)
	case AggV:
		for _, f := range x.f {
			r.reach(f, seen, visit)
		}
	case TupleV:
		for _, f := range x {
			r.reach(f, seen, visit)
		}
	case IfaceV:
		if x.t != nil {
			r.reach(x.v, seen, visit)
		}
	case FuncV:
		for _, f := range x.free {
			r.reach(f, seen, visit)
		}
	case MapV:
		if x.m != nil {
			for _, e := range x.m.m {
				r.reach(e.k, seen, visit)
				r.reach(e.v, seen, visit)
			}
		}
	}
}

func (r *Run) reachCell(c *Cell, seen map[*Cell]bool, visit func(*Cell)) {
	if c == nil || seen[c] {
		return
	}
	seen[c] = true
	visit(c)
	if !c.agg {
		r.reach(c.v, seen, visit)
		return
	}
	for _, k := range c.kids {
		r.reachCell(k, seen, visit)
	}
}
