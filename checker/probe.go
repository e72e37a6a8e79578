package main

// Search for a violation inside an undecided cell. The lazy forms that let one
// cell stand for all exponents and mantissa lengths also hide what distinguishes
// two different sums; when a cell stays undecided, parts of it with a fixed
// mantissa length and exponent are analysed with every sum carried out on the
// bits. A part that breaks the claim is a violation; parts that do not, settle
// nothing, and the cell stays undecided.

import "math/big"

const (
	probeRuns     = 400   // abstract executions per part
	probesPerGoal = 40000 // abstract executions of parts per goal
	maxProbeLen   = 2300  // mantissa bits
)

var probeLens = []int64{55, 66, 115, 12, 26, 108, 13, 25, 54, 65, 114, 120, 1, 2, 2100, 4096}
var probeExps = []int64{1, 2, -13, -14, -24, -25, -125, -126, -140, -1021, -1022, -1050, -1074, -16381, -16382, -16400, 16, 128, 1024, 16384}
var probeFields = [][2]int64{{1023, 970}, {970, 1023}, {1023, 960}, {960, 1023}, {0, 0}, {1, 0}, {0, 1}, {2046, 1993}, {1993, 2046}, {1023, 1023}, {1010, 1}, {897, 880}, {1007, 999}}

// probes gives up to n parts of the cell.
func (w *World) probes(g *Region, n int, first bool) []*Region {
	base := g.clone("part")
	base.facts = nil
	parts := []*Region{base}
	list := w.lens()
	for _, s := range w.streams {
		var next []*Region
		for _, p := range parts {
			lens := w.within(p, s.M, list, 3+len(list)-len(probeLens))
			exps := w.within(p, s.E, probeExps, 4)
			for i := range exps {
				for j := range lens {
					c := p.clone("")
					fix := func(id int, v *big.Int) {
						c.lo[id], c.hi[id] = v, v
					}
					if lens[j].Cmp(bi(maxProbeLen)) > 0 {
						continue
					}
					fix(s.M, lens[j])
					fix(s.E, exps[i])
					if c.propagate(w) {
						next = append(next, c)
					}
				}
			}
		}
		parts = next
	}
	var next []*Region
	switch len(w.expos) {
	case 1:
		e := w.expos[0]
		list := []int64{e.end(w, g, 0), e.end(w, g, 1)}
		for _, v := range probeExps {
			if v += int64(e.bias) - 1; v >= 0 && v < 1<<uint(len(e.vars)) {
				list = append(list, v)
			}
		}
		for _, v := range list {
			for _, p := range parts {
				c := p.clone("")
				if e.fix(w, c, v) {
					next = append(next, c)
				}
			}
		}
		parts = next
	case 2:
		for _, f := range w.fieldPairs(g) {
			for _, p := range parts {
				c := p.clone("")
				if w.expos[0].fix(w, c, f[0]) && w.expos[1].fix(w, c, f[1]) {
					next = append(next, c)
				}
			}
		}
		parts = next
	}
	if len(parts) > n {
		// spread over the candidates
		k := make([]*Region, n)
		for i := range k {
			k[i] = parts[i*len(parts)/n]
		}
		parts = k
	}
	if first {
		parts = append(parts, w.patterns(base)...)
	}
	for _, p := range parts {
		left := probeRuns
		p.probe = &left
	}
	return parts
}

// fieldPairs lists two exponents worth a look: the usual ones, and those the
// cell allows at distances where the one mantissa ends at a bit of the other.
func (w *World) fieldPairs(g *Region) [][2]int64 {
	l := append([][2]int64(nil), probeFields...)
	x, y := w.expos[0], w.expos[1]
	for i := int8(0); i < 2; i++ {
		a, b := x.end(w, g, i), y.end(w, g, i)
		l = append(l, [2]int64{a, y.end(w, g, 1-i)}, [2]int64{a, b})
		for _, d := range []int64{53, 52, 54, 1, 0, 106, 107, 105} {
			for _, s := range []int64{-d, d} {
				l = append(l, [2]int64{a, a + s}, [2]int64{b + s, b})
			}
		}
	}
	return l
}

const maxPatterns = 8000

// patterns gives parts with a mantissa of equal bits but for one or two, at
// places where the significands of the formats end: only a few mantissas,
// which one bit after another being split on does not come to, tell a value
// that is rounded twice from one that is rounded once.
func (w *World) patterns(base *Region) (parts []*Region) {
	if len(w.streams) != 1 || len(w.expos) > 0 {
		return nil
	}
	s := w.streams[0]
	var ends []int64
	end := func(n int64) {
		for _, x := range []int64{n, n - 1, n + 1} {
			seen := x < 1
			for _, y := range ends {
				seen = seen || x == y
			}
			if !seen {
				ends = append(ends, x)
			}
		}
	}
	w.mu.Lock()
	precs := append([]int64(nil), w.precs...)
	w.mu.Unlock()
	for _, n := range append(precs, 53, 106, 64, 24, 11, 113, 8) {
		end(n)
	}
	list := w.lens()
	for _, m := range w.within(base, s.M, list, 4) {
		for _, e := range w.within(base, s.E, probeExps, 2) {
			if m.Cmp(bi(maxProbeLen)) > 0 {
				continue
			}
			p := base.clone("")
			p.lo[s.M], p.hi[s.M] = m, m
			p.lo[s.E], p.hi[s.E] = e, e
			if !p.propagate(w) {
				continue
			}
			n := m.Int64()
			for bg := int8(0); bg < 2; bg++ {
				for i, x := range ends {
					for _, y := range ends[i:] {
						if x >= n || y >= n {
							continue
						}
						c := p.clone("")
						ok := true
						for k := int64(1); k < n-1 && ok; k++ {
							v := bg
							if k == x || k == y {
								v = 1 - bg
							}
							if old := c.v[s.base+int(k)]; old >= 0 {
								ok = old == v
							}
							c.v[s.base+int(k)] = v
						}
						if ok && c.propagate(w) {
							parts = append(parts, c)
						}
					}
				}
			}
		}
	}
	if len(parts) > maxPatterns {
		k := make([]*Region, maxPatterns)
		for i := range k {
			k[i] = parts[i*len(parts)/maxPatterns]
		}
		parts = k
	}
	return parts
}

// notePrec records a precision to which a sum is rounded: it takes a longer
// mantissa to see that.
func (w *World) notePrec(p Lin) {
	if !p.isConst() || p.c.Cmp(bi(maxProbeLen)) > 0 {
		return
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	n := p.c.Int64()
	for _, x := range w.precs {
		if x == n {
			return
		}
	}
	if len(w.precs) < 4 {
		w.precs = append(w.precs, n)
	}
}

// lens lists mantissa lengths worth a look.
func (w *World) lens() (l []int64) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, p := range w.precs {
		l = append(l, p+56, p+1)
	}
	return append(l, probeLens...)
}

// expField is the exponent field of an input pattern.
type expField struct {
	vars []int
	bias int
}

func (w *World) expField(vars []int, f fmtParam) {
	w.expos = append(w.expos, expField{vars[f.mbits : f.mbits+f.ebits], f.bias})
}

// end is the field with every free bit set to val.
func (e expField) end(w *World, g *Region, val int8) (x int64) {
	for i, v := range e.vars {
		b := g.varValue(w, v)
		if b < 0 {
			b = val
		}
		x |= int64(b) << uint(i)
	}
	return x
}

func (e expField) fix(w *World, g *Region, v int64) bool {
	if v < 0 || v>>uint(len(e.vars)) != 0 {
		return false
	}
	for i, x := range e.vars {
		if !g.assign(w, x, int8(v>>uint(i)&1)) {
			return false
		}
	}
	return true
}

// within picks up to n values of the symbol's interval: the first listed ones
// it holds, and its ends.
func (w *World) within(g *Region, id int, list []int64, n int) []*big.Int {
	lo, hi := g.lo[id], g.hi[id]
	var out []*big.Int
	put := func(x *big.Int) {
		if x.Cmp(lo) < 0 || x.Cmp(hi) > 0 {
			return
		}
		for _, y := range out {
			if x.Cmp(y) == 0 {
				return
			}
		}
		out = append(out, x)
	}
	for _, x := range list {
		if len(out) == n {
			break
		}
		put(bi(x))
	}
	put(lo)
	put(hi)
	return out
}
