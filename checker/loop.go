package main

// Loops that provably never end: a run is deterministic, so a second visit of
// one block in the same state is followed by a third.

import (
	"fmt"
	"go/token"
	"go/types"
	"hash/fnv"
	"io"
	"math/big"
	"reflect"
	"sort"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// diverges aborts a run that never returns.
type diverges struct{ pos string }

const (
	watchFrom   = 8000 // steps before a loop is suspected
	watchVisits = 64   // visits of a block compared with the first
)

// watch looks for a repeated state at the entry of a block.
type watch struct {
	at     int // steps at which the next attempt begins
	tries  int
	f      *frame
	b      *ssa.BasicBlock
	state  uint64
	visits int
}

// watchBlock is called when f enters b.
func (r *Run) watchBlock(f *frame, prev, b *ssa.BasicBlock) {
	w := &r.watch
	if w.f == nil {
		// one frame of the stack after the other; a block that is entered
		// from one it dominates heads a loop
		if prev == nil || !b.Dominates(prev) || f != r.stack[len(r.stack)-1] || len(r.stack)%4 != (w.tries/2)%4 && w.tries%2 == 1 {
			return
		}
		w.f, w.b, w.visits = f, b, 0
		w.state = r.stateHash(prev)
		return
	}
	if f != w.f || b != w.b {
		if r.steps > 2*w.at {
			w.f = nil
			w.at = r.steps
			w.tries++
		}
		return
	}
	if r.stateHash(prev) == w.state {
		panic(&diverges{r.where()})
	}
	if w.visits++; w.visits > watchVisits {
		w.f = nil
		w.at = 2 * r.steps
		w.tries++
	}
}

// slackOf finds the values computed in the loops around b that decide neither
// a branch there nor anything but plain arithmetic: counters, say, that are
// used after the loop only.
func slackOf(b *ssa.BasicBlock) map[ssa.Value]bool {
	if m, ok := slacks.Load(b); ok {
		return m.(map[ssa.Value]bool)
	}
	fwd := reachable(b, func(x *ssa.BasicBlock) []*ssa.BasicBlock { return x.Succs })
	bwd := reachable(b, func(x *ssa.BasicBlock) []*ssa.BasicBlock { return x.Preds })
	slack := map[ssa.Value]bool{}
	var roots []ssa.Value
	for _, x := range b.Parent().Blocks {
		if !fwd[x] || !bwd[x] {
			continue
		}
		for _, in := range x.Instrs {
			plain := false
			switch in := in.(type) {
			case *ssa.Phi, *ssa.ChangeType, *ssa.DebugRef:
				plain = true
			case *ssa.Convert:
				plain = isInteger(in.X.Type()) && isInteger(in.Type())
			case *ssa.BinOp:
				plain = isInteger(in.Type()) && in.Op != token.QUO && in.Op != token.REM && in.Op != token.SHL && in.Op != token.SHR
			}
			if v, ok := in.(ssa.Value); ok && plain {
				slack[v] = true
				continue
			}
			for _, o := range in.Operands(nil) {
				if *o != nil {
					roots = append(roots, *o)
				}
			}
		}
	}
	for len(roots) > 0 {
		v := roots[len(roots)-1]
		roots = roots[:len(roots)-1]
		if !slack[v] {
			continue
		}
		delete(slack, v)
		for _, o := range v.(ssa.Instruction).Operands(nil) {
			if *o != nil {
				roots = append(roots, *o)
			}
		}
	}
	slacks.Store(b, slack)
	return slack
}

var slacks sync.Map // *ssa.BasicBlock -> map[ssa.Value]bool

func isInteger(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func reachable(b *ssa.BasicBlock, next func(*ssa.BasicBlock) []*ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	seen := map[*ssa.BasicBlock]bool{b: true}
	todo := []*ssa.BasicBlock{b}
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, y := range next(x) {
			if !seen[y] {
				seen[y] = true
				todo = append(todo, y)
			}
		}
	}
	return seen
}

type hasher struct {
	w  io.Writer
	id map[uintptr]int
}

// stateHash is a digest of everything the rest of the run depends on.
func (r *Run) stateHash(prev *ssa.BasicBlock) uint64 {
	d := fnv.New64a()
	h := &hasher{d, map[uintptr]int{}}
	fmt.Fprintf(d, "%p %d %d;", prev, r.unordered, len(r.initDone))
	slack := slackOf(r.watch.b)
	for _, f := range r.stack {
		fmt.Fprintf(d, "F%p %p %p %v;", f.fn, f.instr, f.panicking, f.recovered)
		for _, p := range f.fn.Params {
			h.value(reflect.ValueOf(f.env[p]))
		}
		for _, p := range f.fn.FreeVars {
			h.value(reflect.ValueOf(f.env[p]))
		}
		for _, b := range f.fn.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					if f == r.watch.f && slack[v] {
						continue
					}
					if x, ok := f.env[v]; ok {
						fmt.Fprintf(d, "%p=", in)
						h.value(reflect.ValueOf(&x).Elem())
					}
				}
			}
		}
		h.value(reflect.ValueOf(f.defers))
		h.value(reflect.ValueOf(&f.result).Elem())
	}
	h.globals(r)
	h.value(reflect.ValueOf(r.hidden))
	if len(r.pools)+len(r.smaps) > 0 {
		fmt.Fprint(d, r.steps) // not part of the comparison: never the same
	}
	return d.Sum64()
}

// globals hashes package variables in a fixed order.
func (h *hasher) globals(r *Run) {
	var gs []*ssa.Global
	for g := range r.globals {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		fmt.Fprintf(h.w, "%p=", g)
		h.value(reflect.ValueOf(r.globals[g]))
	}
}

var (
	cellType   = reflect.TypeOf(&Cell{})
	mapObjType = reflect.TypeOf(&mapObj{})
	prefixType = reflect.TypeOf(&prefix{})
	shareType  = reflect.TypeOf(&share{})
	bigIntType = reflect.TypeOf(&big.Int{})
	sumType    = reflect.TypeOf(&Sum{})
	ftermType  = reflect.TypeOf(&fterm{})
	iterType   = reflect.TypeOf(&iterV{})
	strPtrType = reflect.TypeOf(&StrV{})
	entryType  = reflect.TypeOf(&mapEntry{})
)

func (h *hasher) value(v reflect.Value) {
	switch v.Kind() {
	case reflect.Invalid:
		io.WriteString(h.w, "nil;")
	case reflect.Interface:
		if v.IsNil() {
			io.WriteString(h.w, "nil;")
			return
		}
		fmt.Fprintf(h.w, "%s:", v.Elem().Type())
		h.value(v.Elem())
	case reflect.Ptr:
		if v.IsNil() {
			io.WriteString(h.w, "nil;")
			return
		}
		switch v.Type() {
		case cellType, mapObjType, prefixType, shareType, iterType:
			// identity matters: number it
			p := v.Pointer()
			if n, ok := h.id[p]; ok {
				fmt.Fprintf(h.w, "#%d;", n)
				return
			}
			h.id[p] = len(h.id)
			fmt.Fprintf(h.w, "#%d{", len(h.id)-1)
			if v.Type() == shareType {
				// gen is compared for equality only, and grows
				fmt.Fprintf(h.w, "%d,%v", v.Elem().Field(0).Int(), v.Elem().Field(1).Bool())
			} else {
				h.value(v.Elem())
			}
			io.WriteString(h.w, "}")
		case bigIntType, sumType, ftermType, strPtrType, entryType:
			io.WriteString(h.w, "*")
			h.value(v.Elem())
		default:
			fmt.Fprintf(h.w, "%x;", v.Pointer())
		}
	case reflect.Struct:
		io.WriteString(h.w, "{")
		for i := 0; i < v.NumField(); i++ {
			h.value(v.Field(i))
		}
		io.WriteString(h.w, "}")
	case reflect.Slice, reflect.Array:
		fmt.Fprintf(h.w, "[%d:", v.Len())
		for i := 0; i < v.Len(); i++ {
			h.value(v.Index(i))
		}
		io.WriteString(h.w, "]")
	case reflect.Map:
		// only the entries of a mapObj, whose order is kept separately
		fmt.Fprintf(h.w, "<%d>", v.Len())
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
		for _, k := range keys {
			fmt.Fprintf(h.w, "%s=", k)
			h.value(v.MapIndex(k))
		}
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		fmt.Fprintf(h.w, "%x;", v.Pointer())
	case reflect.String:
		fmt.Fprintf(h.w, "%q;", v.String())
	case reflect.Bool:
		fmt.Fprintf(h.w, "%v;", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(h.w, "%d;", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprintf(h.w, "%d;", v.Uint())
	default:
		fmt.Fprintf(h.w, "%s;", v.Kind())
	}
}
