package main

// Histories: when the code keeps state between calls, what a call returns may
// depend on the calls before it. A goal that touches package variables written
// after initialisation is decided again after one arbitrary earlier call of
// each exported function that uses them. On code without such variables this
// adds nothing.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// sharedWorld, if set, is what newWorld returns.
var sharedWorld *World

// mutableGlobals lists the package variables whose memory may change after
// initialisation, by module code or by somebody it was handed to.
func mutableGlobals(p *Program) map[*ssa.Global]bool {
	out := map[*ssa.Global]bool{}
	e := repoEffects(p, true)
	shared := e.shared()
	for _, wr := range e.writes {
		if g := shared[wr.obj]; g != nil {
			out[g] = true
		}
	}
	exported := map[*ssa.Function]bool{}
	for _, fn := range publicFuncs(p) {
		exported[fn] = true
	}
	for fn := range e.reached {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Return:
					if !exported[fn] {
						continue
					}
					for _, v := range in.Results {
						if !hasPointers(v.Type(), 0) {
							continue
						}
						for o := range e.of(v) {
							if g := shared[o]; g != nil {
								out[g] = true
							}
						}
					}
				case ssa.CallInstruction:
					f := in.Common().StaticCallee()
					if f == nil || f.Object() == nil || f.Object().Pkg() == nil || !strings.HasPrefix(f.Object().Pkg().Path(), "sync") {
						continue
					}
					for _, a := range in.Common().Args {
						for o := range e.of(a) {
							g := o.global
							if g == nil {
								g = shared[o]
							}
							if g != nil {
								out[g] = true
							}
						}
					}
				}
			}
		}
	}
	for _, rp := range p.repoPkgs {
		for _, m := range p.pkgs[rp.PkgPath].Members {
			if g, ok := m.(*ssa.Global); ok && out[g] {
				t := g.Type().(*types.Pointer).Elem()
				if s := namedPath(t); s == "sync.Mutex" || s == "sync.RWMutex" {
					delete(out, g)
				}
			}
		}
	}
	for g := range out {
		if g.Name() == "init$guard" || internalPath(g.Pkg.Pkg.Path()) {
			delete(out, g)
		}
	}
	return out
}

// usersOf lists the exported functions that reach a use of g.
func usersOf(p *Program, g *ssa.Global) []*ssa.Function {
	memo := map[*ssa.Function]bool{}
	var uses func(fn *ssa.Function) bool
	uses = func(fn *ssa.Function) bool {
		if v, ok := memo[fn]; ok {
			return v
		}
		memo[fn] = false
		var ops []*ssa.Value
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ops = in.Operands(ops[:0])
				for _, o := range ops {
					switch v := (*o).(type) {
					case *ssa.Global:
						if v == g {
							memo[fn] = true
						}
					case *ssa.Function:
						if k := pkgOf(v); k != nil && strings.HasPrefix(k.Pkg.Path(), p.repo) && uses(v) {
							memo[fn] = true
						}
					}
				}
			}
		}
		return memo[fn]
	}
	var out []*ssa.Function
	for _, fn := range publicFuncs(p) {
		if uses(fn) {
			out = append(out, fn)
		}
	}
	return out
}

// maxEarlier bounds the functions called first, per goal.
const maxEarlier = 6

// earlier calls fn with arbitrary arguments; afterwards the caller does with
// its arguments and results as it likes.
func earlier(r *Run, fn *ssa.Function, args []Value) {
	var res Value
	r.catch(func() { res = r.dispatch(fn, args, nil) })
	junk := newBigF()
	junk.prec, junk.mode = linI(7), linI(2)
	r.bfSetFloat(&junk, constFloat(64, -43))
	spoil := func(v Value) {
		if p, ok := v.(PtrV); ok && p.c != nil {
			if _, ok := p.c.v.(BigF); ok {
				p.c.v = junk
			}
		}
	}
	for _, a := range args {
		spoil(a)
		if p, ok := a.(PtrV); ok && p.c != nil {
			if _, ok := p.c.v.(BigF); ok {
				r.firstArg = p.c
			}
		}
	}
	if t, ok := res.(TupleV); ok {
		for _, v := range t {
			spoil(v)
		}
	} else {
		spoil(res)
	}
	// what the earlier call left behind belongs to the package or the caller
	r.markGlobals()
	r.markOwned(res)
	r.globalWrites, r.paramWrites = nil, nil
	r.assume, r.assumeSum = nil, nil
	r.stack = nil
}

// markOwned makes the results of an earlier call the caller's.
func (r *Run) markOwned(v Value) {
	if t, ok := v.(TupleV); ok {
		for _, x := range t {
			r.markOwned(x)
		}
		return
	}
	if p, ok := v.(PtrV); ok && p.c != nil && p.c.own == ownFresh {
		p.c.own = ownParam
		p.c.name = "the result of an earlier call"
	}
}

// histories makes the goals "after an earlier call" of those that touch
// mutable state.
func histories(stats []*GoalStat) (quick, full []*Goal) {
	done := map[string]bool{}
	cache := map[*Program]map[*ssa.Global][]*ssa.Function{}
	for _, s := range stats {
		g := s.goal
		if g.again == nil || len(g.touched) == 0 || len(s.viol) > 0 || g.in.intW == 32 && done[strings.Replace(g.name, "32-bit", "64-bit", 1)] {
			continue
		}
		p := g.in
		done[g.name] = true
		if cache[p] == nil {
			cache[p] = map[*ssa.Global][]*ssa.Function{}
		}
		var fns []*ssa.Function
		seen := map[*ssa.Function]bool{}
		var gl []*ssa.Global
		for v := range g.touched {
			gl = append(gl, v)
		}
		sort.Slice(gl, func(i, j int) bool { return gl[i].String() < gl[j].String() })
		for _, v := range gl {
			us, ok := cache[p][v]
			if !ok {
				us = usersOf(p, v)
				cache[p][v] = us
			}
			for _, fn := range us {
				if !seen[fn] {
					seen[fn] = true
					fns = append(fns, fn)
				}
			}
		}
		// those the goal calls itself first
		sort.SliceStable(fns, func(i, j int) bool {
			return strings.Contains(g.name, fns[i].Name()) && !strings.Contains(g.name, fns[j].Name())
		})
		if len(fns) > maxEarlier {
			fns = fns[:maxEarlier]
		}
		for _, fn := range fns {
			for _, same := range []bool{false, true} {
				if same && !takesBig(fn) {
					continue
				}
				for first := -1; first < len(firstNumbers); first++ {
					if first >= 0 && !takesBig(fn) {
						break
					}
					fn, same, first := fn, same, first
					w := newWorld()
					mk, err := w.earlierCall(fn, p.intW, first)
					if err != nil {
						continue
					}
					for i, n := range w.varName {
						w.varName[i] = "earlier " + n
					}
					for i, n := range w.symName {
						w.symName[i] = "earlier " + n
					}
					sharedWorld = w
					_, run := g.again()
					sharedWorld = nil
					name := fmt.Sprintf("%s, after a call of %s", g.name, fn.RelString(nil))
					if first >= 0 {
						name += " of " + firstNumbers[first].name
					}
					if same {
						name += " with the same variable"
					}
					h := &Goal{name: name, in: p, world: w, history: true, run: func(r *Run) error {
						earlier(r, fn, mk(r))
						if !same {
							r.firstArg = nil
						}
						return run(r)
					}}
					if first >= 0 {
						quick = append(quick, h)
					} else {
						full = append(full, h)
					}
				}
			}
		}
	}
	return quick, full
}

// firstNumbers are the arguments of earlier calls tried before all others.
var firstNumbers = []struct {
	name string
	mant uint64 // leading bit set
	exp  int64
	neg  bool
	form formKind
}{
	{"one", 1 << 63, 1, false, fFinite},
	{"-3 * 2^-26", 3 << 62, -24, true, fFinite},
	{"2^-16500", 1 << 63, -16499, false, fFinite},
	{"-(2^64-1) * 2^-16480", 1<<64 - 1, -16416, true, fFinite},
	{"(2^64-1) * 2^1000000", 1<<64 - 1, 1000064, false, fFinite},
	{"2^-30 with 60 bits", 1<<63 | 1<<5, -29, false, fFinite},
	{"an infinity", 0, 0, true, fInf},
	{"zero", 0, 0, true, fZero},
}

// earlierCall is anyCall, with the multi-precision arguments fixed.
func (w *World) earlierCall(fn *ssa.Function, intW, first int) (func(r *Run) []Value, error) {
	if first < 0 {
		return w.anyCall(fn, intW)
	}
	var fs []func(r *Run) Value
	for i, p := range fn.Params {
		if pt, ok := under(p.Type()).(*types.Pointer); ok && namedPath(pt.Elem()) == "math/big.Float" {
			c := firstNumbers[first]
			fs = append(fs, func(r *Run) Value {
				x := newBigF()
				x.prec, x.form, x.neg = linI(64), c.form, bitOf(c.neg)
				if c.form == fFinite {
					x.kind, x.exp = kBits, linI(c.exp)
					for b := 63; b >= 0; b-- {
						x.m.bits = append(x.m.bits, bitOf(c.mant>>uint(b)&1 == 1))
					}
				}
				return PtrV{&Cell{typ: r.in.bigFloatType(), v: x, own: ownParam, name: "the caller's *big.Float"}}
			})
			continue
		}
		f, err := w.anyInput(fmt.Sprintf("arg%d", i), p.Type(), intW)
		if err != nil {
			return nil, err
		}
		fs = append(fs, f)
	}
	return func(r *Run) []Value {
		var out []Value
		for _, f := range fs {
			out = append(out, f(r))
		}
		return out
	}, nil
}

// touch records the use of a mutable package variable.
func (g *Goal) touch(vs map[*ssa.Global]bool) {
	if len(vs) == 0 {
		return
	}
	g.touchMu.Lock()
	defer g.touchMu.Unlock()
	if g.touched == nil {
		g.touched = map[*ssa.Global]bool{}
	}
	for v := range vs {
		g.touched[v] = true
	}
}

var touchInit sync.Mutex

// watchGlobals computes the mutable variables of the programs of the goals.
func watchGlobals(goals []*Goal) {
	touchInit.Lock()
	defer touchInit.Unlock()
	for _, g := range goals {
		if g.in != nil && g.in.mutable == nil {
			g.in.mutable = mutableGlobals(g.in)
		}
	}
}
