package main

// Branches inside loops that the cell does not decide. Where both arms only
// compute values that can be written as one expression in the deciding bit,
// the arms are joined instead of splitting the cell, which would double the
// number of cells on each round of the loop.

import (
	"go/token"
	"sync"

	"golang.org/x/tools/go/ssa"
)

const maxArmBlocks = 12

type flow struct {
	join map[*ssa.BasicBlock]*ssa.BasicBlock // where the arms of a branch in a loop meet
}

var flows sync.Map // *ssa.Function -> *flow

func flowOf(fn *ssa.Function) *flow {
	if f, ok := flows.Load(fn); ok {
		return f.(*flow)
	}
	n := len(fn.Blocks)
	// postdominators, as sets
	all := make([]bool, n)
	for i := range all {
		all[i] = true
	}
	pd := make([][]bool, n)
	for i, b := range fn.Blocks {
		if len(b.Succs) == 0 {
			pd[i] = make([]bool, n)
			pd[i][i] = true
		} else {
			pd[i] = append([]bool(nil), all...)
		}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if len(b.Succs) == 0 {
				continue
			}
			for j := 0; j < n; j++ {
				if j == i || !pd[i][j] {
					continue
				}
				for _, s := range b.Succs {
					if !pd[s.Index][j] {
						pd[i][j] = false
						changed = true
						break
					}
				}
			}
		}
	}
	size := func(i int) (k int) {
		for _, x := range pd[i] {
			if x {
				k++
			}
		}
		return
	}
	f := &flow{map[*ssa.BasicBlock]*ssa.BasicBlock{}}
	for i, b := range fn.Blocks {
		if len(b.Succs) != 2 || !inLoop(b) {
			continue
		}
		// the nearest: the one with the most postdominators of its own
		best := -1
		for j := range pd[i] {
			if j != i && pd[i][j] && (best < 0 || size(j) > size(best)) {
				best = j
			}
		}
		if best >= 0 {
			f.join[b] = fn.Blocks[best]
		}
	}
	flows.Store(fn, f)
	return f
}

// inLoop: the block can be reached from itself.
func inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	todo := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if x == b {
			return true
		}
		if !seen[x] {
			seen[x] = true
			todo = append(todo, x.Succs...)
		}
	}
	return false
}

type armWrite struct {
	c   *Cell
	old Value
}

// arm is one speculative execution of an arm.
type arm struct {
	phis   []Value
	writes []armWrite
	final  map[*Cell]Value
}

// joinArms executes both arms of the undecided branch at the end of b up to
// the block where they meet, and leaves the joined state. It reports whether
// it could; if not nothing is changed.
func (r *Run) joinArms(f *frame, b *ssa.BasicBlock, c Bit) (*ssa.BasicBlock, bool) {
	join := flowOf(f.fn).join[b]
	if join == nil || join == b {
		return nil, false
	}
	steps := r.steps
	x, ok := r.runArm(f, b, b.Succs[0], join)
	if !ok {
		r.steps = steps
		return nil, false
	}
	y, ok := r.runArm(f, b, b.Succs[1], join)
	if !ok {
		r.steps = steps
		return nil, false
	}
	phis := make([]Value, len(x.phis))
	for i := range phis {
		if phis[i], ok = r.choose(c, x.phis[i], y.phis[i]); !ok {
			return nil, false
		}
	}
	cells := map[*Cell]Value{}
	var order []*Cell
	for _, a := range []arm{x, y} {
		for _, w := range a.writes {
			if _, ok := cells[w.c]; ok {
				continue
			}
			vx, vy := w.c.v, w.c.v
			if v, ok := x.final[w.c]; ok {
				vx = v
			}
			if v, ok := y.final[w.c]; ok {
				vy = v
			}
			v, ok := r.choose(c, vx, vy)
			if !ok {
				return nil, false
			}
			cells[w.c] = v
			order = append(order, w.c)
		}
	}
	for _, w := range order {
		r.store(w, cells[w])
	}
	for i, v := range phis {
		f.env[join.Instrs[i].(*ssa.Phi)] = v
	}
	return join, true
}

// runArm executes one arm and takes its writes back.
func (r *Run) runArm(f *frame, from, b, join *ssa.BasicBlock) (a arm, ok bool) {
	a.final = map[*Cell]Value{}
	instr := f.instr
	depth := len(r.stack)
	nw, ng := len(r.paramWrites), len(r.globalWrites)
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case *splitReq, *undecided, *goPanic, infeasible:
				ok = false
			default:
				panic(e)
			}
		}
		for i := len(a.writes) - 1; i >= 0; i-- {
			w := a.writes[i]
			if _, ok := a.final[w.c]; !ok {
				a.final[w.c] = w.c.v
			}
			w.c.v = w.old
		}
		f.instr = instr
		r.stack = r.stack[:depth]
		r.paramWrites, r.globalWrites = r.paramWrites[:nw], r.globalWrites[:ng]
	}()
	write := func(v Value) bool {
		p, ok := v.(PtrV)
		if !ok || p.c == nil || p.c.agg {
			return false
		}
		a.writes = append(a.writes, armWrite{p.c, p.c.v})
		return true
	}
	prev := from
	for n := 0; b != join; n++ {
		if n == maxArmBlocks || b == from {
			return a, false
		}
		phis := r.phis(f, prev, b)
		var next *ssa.BasicBlock
		for _, in := range b.Instrs[phis:] {
			r.steps++
			f.instr = in
			switch in := in.(type) {
			case *ssa.If:
				if r.decideBit(r.get(f, in.Cond).(BoolV).b) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Store:
				if !write(r.get(f, in.Addr)) {
					return a, false
				}
				r.step(f, in)
			case *ssa.DebugRef, *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.Extract, *ssa.Field, *ssa.FieldAddr, *ssa.Index, *ssa.IndexAddr:
				r.step(f, in)
			case *ssa.UnOp:
				if in.Op == token.MUL {
					if p, ok := r.get(f, in.X).(PtrV); !ok || p.c == nil || p.c.agg {
						return a, false
					} else if _, ok := p.c.v.(BigF); ok {
						return a, false
					}
				}
				r.step(f, in)
			case *ssa.Call:
				fn := in.Call.StaticCallee()
				if fn == nil || !armCalls[fn.String()] {
					return a, false
				}
				for _, arg := range in.Call.Args {
					if v := r.get(f, arg); isPtr(v) && !write(v) {
						return a, false
					}
				}
				r.step(f, in)
			default:
				return a, false
			}
		}
		if next == nil {
			return a, false
		}
		prev, b = b, next
	}
	for _, in := range join.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range join.Preds {
			if p == prev {
				a.phis = append(a.phis, r.get(f, phi.Edges[i]))
				break
			}
		}
	}
	return a, true
}

func isPtr(v Value) bool { _, ok := v.(PtrV); return ok }

// armCalls change nothing but the values their arguments point to.
var armCalls = map[string]bool{
	"(*math/big.Int).SetBit": true, "(*math/big.Int).Bit": true,
	"(*strings.Builder).WriteByte": true, "(*strings.Builder).WriteString": true, "(*strings.Builder).WriteRune": true,
	"(*bytes.Buffer).WriteByte": true, "(*bytes.Buffer).WriteString": true, "(*bytes.Buffer).WriteRune": true,
}

// choose is x where the bit is set and y where it is clear.
func (r *Run) choose(c Bit, x, y Value) (Value, bool) {
	switch x := x.(type) {
	case IntV:
		y, ok := y.(IntV)
		if !ok || x.w != y.w || x.signed != y.signed {
			return nil, false
		}
		return r.chooseInt(c, x, y)
	case BoolV:
		y, ok := y.(BoolV)
		if !ok {
			return nil, false
		}
		b, ok := r.chooseBit(c, x.b, y.b)
		return BoolV{b}, ok
	case StrV:
		y, ok := y.(StrV)
		if !ok || len(x.segs) != len(y.segs) {
			return nil, false
		}
		s := StrV{segs: make([]seg, len(x.segs))}
		for i, a := range x.segs {
			b := y.segs[i]
			switch {
			case a.kind == 'c' && b.kind == 'c' && a.ch.w == b.ch.w:
				ch, ok := r.chooseInt(c, a.ch, b.ch)
				if !ok {
					return nil, false
				}
				s.segs[i] = seg{kind: 'c', ch: ch.(IntV)}
			case a.kind == 'd' && b.kind == 'd' && r.linKey(a.dec) == r.linKey(b.dec):
				s.segs[i] = a
			default:
				return nil, false
			}
		}
		return s, true
	case PtrV:
		y, ok := y.(PtrV)
		return x, ok && x.c == y.c
	case SliceV:
		y, ok := y.(SliceV)
		return x, ok && x == y
	case builderV:
		y, ok := y.(builderV)
		if !ok {
			return nil, false
		}
		s, ok := r.choose(c, x.s, y.s)
		if !ok {
			return nil, false
		}
		return builderV{s.(StrV)}, true
	case BigI:
		y, ok := y.(BigI)
		if !ok {
			return nil, false
		}
		var z BigI
		if z.neg, ok = r.chooseBit(c, x.neg, y.neg); !ok {
			return nil, false
		}
		n := len(x.bits)
		if len(y.bits) > n {
			n = len(y.bits)
		}
		at := func(b []Bit, i int) Bit {
			if i < len(b) {
				return b[i]
			}
			return bit0
		}
		for i := 0; i < n; i++ {
			b, ok := r.chooseBit(c, at(x.bits, i), at(y.bits, i))
			if !ok {
				return nil, false
			}
			z.bits = append(z.bits, b)
		}
		return z, true
	case IfaceV:
		y, ok := y.(IfaceV)
		return x, ok && x.t == nil && y.t == nil
	case nil:
		return nil, y == nil
	}
	return nil, false
}

func (r *Run) chooseInt(c Bit, x, y IntV) (Value, bool) {
	if x.bits != nil || y.bits != nil || x.lin.isConst() && y.lin.isConst() {
		if z, ok := r.chooseBits(c, x, y); ok {
			return z, true
		}
	}
	if x.bits != nil && len(x.bits) > 8 || y.bits != nil && len(y.bits) > 8 {
		return nil, false
	}
	lx, ly := r.toLin(x), r.toLin(y)
	d := r.subst(lx.sub(ly))
	if !d.isConst() {
		return nil, false
	}
	return IntV{w: x.w, signed: x.signed, lin: ly.add(r.bitLin(c).scale(d.c))}, true
}

func (r *Run) chooseBits(c Bit, x, y IntV) (Value, bool) {
	bx, by := r.toBits(x), r.toBits(y)
	z := make([]Bit, len(bx))
	for i := range z {
		var ok bool
		if z[i], ok = r.chooseBit(c, bx[i], by[i]); !ok {
			return nil, false
		}
	}
	return r.fromBits(z, x.signed), true
}

func (r *Run) chooseBit(c, x, y Bit) (Bit, bool) {
	x, y = r.bit(x), r.bit(y)
	switch x {
	case c:
		x = bit1
	case c.not():
		x = bit0
	}
	switch y {
	case c:
		y = bit0
	case c.not():
		y = bit1
	}
	switch {
	case x == y:
		return x, true
	case x == bit1 && y == bit0:
		return c, true
	case x == bit0 && y == bit1:
		return c.not(), true
	}
	return bit0, false
}
