package main

// Comparison of the models with the real thing: a development aid, no check
// uses it (see tools/selftest.py). Every test leaves a few input bits of a
// function open; the abstract result of each cell must agree with what the
// function returned for each input of the cell.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

type selfTest struct {
	F     string
	A, B  uint64
	Pos   []int
	Want  [][2]uint64
	Panic []bool

	P        uint64
	G        selfSample
	EHi, SHi int64
	Samples  []selfSample
}

// selfSample is a multi-precision number; '?' in Bits and -1 in Mode, Sign and
// Form stand for anything.
type selfSample struct {
	Bits             string
	E, S             int64
	Mode, Sign, Form int
	Want             [2]uint64
	Panic            bool
}

func selftest(progs map[int]*Program, file string, budget time.Duration) bool {
	f, err := os.Open(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return false
	}
	defer f.Close()
	var goals []*Goal
	var mu sync.Mutex
	wrong := map[string]int{}
	first := map[string]string{}
	total := map[string]int{}
	finals := map[*Goal]map[int]int{} // input -> cells with the right result
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<24)
	for sc.Scan() {
		t := &selfTest{}
		if err := json.Unmarshal(sc.Bytes(), t); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return false
		}
		w := newWorld()
		open := w.bits("x", len(t.Pos))
		arg := func(word uint64, base int) IntV {
			bs := make([]Bit, 64)
			for i := range bs {
				bs[i] = bitOf(word>>uint(i)&1 == 1)
				for j, p := range t.Pos {
					if p == base+i {
						bs[i] = varBit(open.vars[j])
					}
				}
			}
			return IntV{w: 64, bits: bs}
		}
		g := &Goal{name: t.F, in: progs[64], world: w}
		finals[g] = map[int]int{}
		total[t.F]++
		note := func(format string, args ...any) {
			mu.Lock()
			defer mu.Unlock()
			if wrong[t.F]++; first[t.F] == "" {
				first[t.F] = fmt.Sprintf("a=%#x b=%#x open %v: ", t.A, t.B, t.Pos) + fmt.Sprintf(format, args...)
			}
		}
		// compare checks the result in one cell for one of its inputs.
		compare := func(r *Run, c *Region, m int, res Value, pan *goPanic, want [2]uint64, wantPanic bool) {
			good := wantPanic == (pan != nil)
			text := "panic"
			if good && pan == nil {
				// read the result with the input given
				r2 := *r
				r2.reg = c
				var got [2]string
				for i, x := range res.(TupleV) {
					v := new(big.Int)
					for k, b := range r2.toBits(x.(IntV)) {
						if r2.decideBit(b) {
							v.SetBit(v, k, 1)
						}
					}
					got[i] = fmt.Sprintf("%#x", v)
					good = good && v.Uint64() == want[i]
				}
				text = got[0] + " " + got[1]
			}
			mu.Lock()
			if good {
				finals[g][m]++
			}
			mu.Unlock()
			if !good && len(r.reg.facts) == 0 {
				note("for input %d the analyser finds %s, really %#x %#x panic %v %+v", m, text, want[0], want[1], wantPanic, t.Samples[min(m, len(t.Samples)):min(m+1, len(t.Samples))])
			}
		}
		if len(t.Samples) > 0 {
			x := w.bigFloat("x")
			reg := w.initial()
			fixSym := func(c *Region, id int, lo, hi int64) bool {
				if bi(lo).Cmp(c.lo[id]) > 0 {
					c.lo[id] = bi(lo)
				}
				if bi(hi).Cmp(c.hi[id]) < 0 {
					c.hi[id] = bi(hi)
				}
				return c.lo[id].Cmp(c.hi[id]) <= 0
			}
			// place restricts the region to the numbers s stands for
			place := func(c *Region, s selfSample, ehi, shi int64) bool {
				last, hi := 0, len(s.Bits)
				for i, b := range s.Bits {
					if b == '1' {
						last = i
					}
					if b == '?' || i == 0 {
						continue
					}
					if v := c.v[x.st.base+i]; v >= 0 && v != int8(b-'0') {
						return false
					}
					c.v[x.st.base+i] = int8(b - '0')
				}
				if !strings.Contains(s.Bits, "?") {
					hi = last + 1
				}
				ok := fixSym(c, x.st.M, int64(last+1), int64(hi)) && fixSym(c, x.exp, s.E, ehi) && fixSym(c, x.st.S, s.S, shi) &&
					fixSym(c, x.acc, 0, 0) && fixSym(c, x.prec0, 7, 7)
				if s.Mode >= 0 {
					ok = ok && fixSym(c, x.mode, int64(s.Mode), int64(s.Mode))
				}
				if s.Form >= 0 {
					ok = ok && fixSym(c, x.form, int64(s.Form), int64(s.Form))
				}
				if s.Sign >= 0 {
					ok = ok && c.assign(w, x.sign, int8(s.Sign))
				}
				return ok && c.propagate(w)
			}
			if !place(reg, t.G, t.EHi, t.SHi) {
				continue
			}
			g.start = reg
			g.run = func(r *Run) error {
				var res Value
				pan := r.catch(func() {
					a, _ := x.arg(r)
					res = r.callPkg("", t.F, a, intConst(64, false, new(big.Int).SetUint64(t.P)))
				})
				for m, s := range t.Samples {
					if c := r.reg.clone(""); place(c, s, s.E, s.S) {
						compare(r, c, m, res, pan, s.Want, s.Panic)
					}
				}
				return nil
			}
			goals = append(goals, g)
			continue
		}
		g.run = func(r *Run) error {
			var res Value
			pan := r.catch(func() { res = r.callPkg("", t.F, arg(t.A, 0), arg(t.B, 64)) })
			for m := range t.Want {
				c := r.reg.clone("")
				ok := true
				for j, v := range open.vars {
					ok = ok && c.assign(w, v, int8(m>>uint(j)&1))
				}
				if ok && c.propagate(w) {
					compare(r, c, m, res, pan, t.Want[m], t.Panic[m])
				}
			}
			return nil
		}
		goals = append(goals, g)
	}
	open := map[string]string{}
	nopen := map[string]int{}
	for _, s := range runGoals(goals, budget, 1<<16) {
		if s.nopen > 0 {
			nopen[s.goal.name]++
			open[s.goal.name] = s.open[0].msg
			continue
		}
		for _, v := range s.viol {
			if wrong[s.goal.name]++; first[s.goal.name] == "" {
				first[s.goal.name] = v.msg
			}
		}
		k := 0
		for range finals[s.goal] {
			k++
		}
		if len(s.viol) == 0 && k == 0 {
			if wrong[s.goal.name]++; first[s.goal.name] == "" {
				first[s.goal.name] = "no input has the right result"
			}
		}
	}
	var names []string
	for n := range total {
		names = append(names, n)
	}
	sort.Strings(names)
	bad := 0
	for _, n := range names {
		if wrong[n] > 0 {
			bad++
			fmt.Printf("%s: WRONG %d times: %s\n", n, wrong[n], first[n])
		}
		if nopen[n] > 0 {
			fmt.Printf("%s: undecided in %d of %d tests: %s\n", n, nopen[n], total[n], strings.SplitN(open[n], "\n", 2)[0])
		}
	}
	fmt.Printf("%d functions, %d wrong\n", len(names), bad)
	return bad == 0
}
