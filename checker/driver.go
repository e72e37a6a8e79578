package main

// Exhaustive partition of a goal's input space, on a pool of workers.

import (
	"fmt"
	"math/big"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Goal is one obligation: a claim about every input of its world.
type Goal struct {
	name    string
	in      *Program
	world   *World
	start   *Region // nil: the whole world
	run     func(r *Run) error
	long    int32                               // runs that reached the step limit
	again   func() (*World, func(r *Run) error) // makes the goal anew
	history bool
	touchMu sync.Mutex
	touched map[*ssa.Global]bool
}

type Violation struct {
	goal   string
	msg    string
	cell   string
	where  string
	values string
	sure   bool // the cell is certainly not empty and the results certainly differ
}

// undecidedMark begins the message of a claim that could be neither shown nor
// refuted in a cell. Such a cell is no violation: nothing in it was seen to
// break the property.
const undecidedMark = "undecided: "

func (v Violation) undecided() bool { return strings.HasPrefix(v.msg, undecidedMark) }

type GoalStat struct {
	goal    *Goal
	cells   int // cells of the final partition in which the claim was decided
	runs    int // abstract executions, re-runs after splits included
	empty   int
	steps   int
	viol    []Violation
	open    []Violation // undecided cells
	nopen   int
	probes  int
	after   int // runs since the first violation
	pending int
	stopped bool
}

type driver struct {
	mu       sync.Mutex
	cond     *sync.Cond
	stack    []item
	busy     int
	stats    []*GoalStat
	deadline time.Time
	maxCells int
	pick     uint64
}

type item struct {
	g *GoalStat
	r *Region
}

var traceCells = os.Getenv("CHECKER_CELLS") != ""

const (
	maxViolPerGoal = 2
	patternCells   = 8
	runsAfterViol  = 1000 // abstract executions in search of another one
	maxOpenPerGoal = 2000 // the search for a violation goes on past undecided cells
)

func (s *GoalStat) addOpen(v Violation) {
	s.nopen++
	if len(s.open) < 2 {
		s.open = append(s.open, v)
	}
}

func runGoals(goals []*Goal, budget time.Duration, maxRuns int) []*GoalStat {
	d := &driver{deadline: time.Now().Add(budget), maxCells: maxRuns}
	d.cond = sync.NewCond(&d.mu)
	for i := len(goals) - 1; i >= 0; i-- {
		g := goals[i]
		st := &GoalStat{goal: g, pending: 1}
		start := g.start
		if start == nil {
			start = g.world.initial()
		}
		d.stack = append(d.stack, item{st, start})
		d.stats = append(d.stats, st)
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); d.work() }()
	}
	wg.Wait()
	for i, j := 0, len(d.stats)-1; i < j; i, j = i+1, j-1 {
		d.stats[i], d.stats[j] = d.stats[j], d.stats[i]
	}
	return d.stats
}

func (d *driver) work() {
	for {
		d.mu.Lock()
		for len(d.stack) == 0 && d.busy > 0 {
			d.cond.Wait()
		}
		if len(d.stack) == 0 {
			d.mu.Unlock()
			d.cond.Broadcast()
			return
		}
		// depth first; now and then, and where many cells stay undecided,
		// look elsewhere too
		if top := len(d.stack) - 1; d.stack[top].r.probe == nil {
			d.pick = d.pick*6364136223846793005 + 1442695040888963407
			n := uint64(16)
			if d.stack[top].g.nopen > 4 {
				n = 2
			}
			// an index from 0 up, small ones as likely as large ones
			pick := d.pick >> 33
			if k := top >> (pick / n % 20); pick%n == 0 && d.stack[k].g == d.stack[top].g {
				d.stack[k], d.stack[top] = d.stack[top], d.stack[k]
			}
		}
		it := d.stack[len(d.stack)-1]
		d.stack = d.stack[:len(d.stack)-1]
		d.busy++
		skip := it.g.stopped
		if it.r.probe != nil {
			*it.r.probe--
			it.g.probes++
			skip = skip || *it.r.probe < 0 || time.Now().After(d.deadline)
		}
		if !skip && (it.g.runs >= d.maxCells || time.Now().After(d.deadline)) {
			it.g.stopped = true
			it.g.addOpen(Violation{goal: it.g.goal.name, msg: fmt.Sprintf("undecided: the analysis budget ran out after %d abstract executions", it.g.runs), cell: it.r.pathText()})
			skip = true
		}
		if it.r.probe == nil {
			it.g.runs++
		}
		if len(it.g.viol) > 0 {
			if it.g.after++; it.g.after > runsAfterViol {
				it.g.stopped = true
			}
		}
		d.mu.Unlock()
		var out outcome
		if !skip {
			out = runCell(it.g.goal, it.r)
		}
		d.mu.Lock()
		d.busy--
		if !skip {
			it.g.steps += out.steps
			switch {
			case out.children != nil:
				for _, c := range out.children {
					d.stack = append(d.stack, item{it.g, c})
				}
				if len(out.children) == 0 {
					it.g.empty++
				}
			case it.r.probe != nil && (out.viol == nil || out.viol.undecided()):
			case out.empty:
				it.g.empty++
			case out.viol != nil:
				it.g.cells++
				if out.viol.undecided() {
					it.g.addOpen(*out.viol)
					if n := 24; it.g.probes < probesPerGoal {
						ps := it.g.goal.world.probes(it.r, n, it.g.nopen <= patternCells)
						if traceCells {
							fmt.Fprintf(os.Stderr, "%s: %d parts of undecided cell %d: %s\n", it.g.goal.name, len(ps), it.g.nopen, it.r.pathText())
						}
						for _, p := range ps {
							d.stack = append(d.stack, item{it.g, p})
						}
					}
					if it.g.nopen >= maxOpenPerGoal {
						it.g.stopped = true
					}
					break
				}
				it.g.viol = append(it.g.viol, *out.viol)
				if len(it.g.viol) >= maxViolPerGoal {
					it.g.stopped = true
				}
			default:
				it.g.cells++
				if traceCells {
					fmt.Fprintf(os.Stderr, "cell %s\n", it.r.pathText())
				}
			}
		}
		d.cond.Broadcast()
		d.mu.Unlock()
	}
}

type outcome struct {
	children []*Region
	empty    bool
	viol     *Violation
	steps    int
}

func runCell(g *Goal, reg *Region) (out outcome) {
	r := newRun(g.world, reg)
	if g.in != nil {
		r.in = g.in.Interp
	}
	if atomic.LoadInt32(&g.long) > 0 {
		r.maxSteps, r.watch.at = 100000, watchFrom
	}
	r.histOK = g.again != nil || g.history
	r.initMem()
	var viol *Violation
	mk := func(msg string) *Violation {
		return &Violation{goal: g.name, msg: msg, cell: reg.pathText(), where: r.where(), values: g.world.witness(reg)}
	}
	func() {
		defer func() {
			e := recover()
			if e == nil {
				return
			}
			switch e := e.(type) {
			case *splitReq:
				out.children = reg.children(g.world, e)
				if out.children == nil {
					out.children = []*Region{}
				}
				if os.Getenv("CHECKER_TRACE") != "" {
					fmt.Fprintf(os.Stderr, "%s: split at %s: kind %c id %d t %v key %.200s | %s\n", g.name, r.where(), e.kind, e.id, e.t, e.key, reg.pathText())
				}
			case *undecided:
				viol = mk("undecided: " + e.msg)
			case infeasible:
				out.empty = true
			case *tooCostly:
				viol = mk(e.msg)
				viol.where = e.pos
				viol.sure = len(reg.facts) == 0 && r.assume == nil
			case *diverges:
				viol = mk("the call does not return")
				viol.where = e.pos
				viol.sure = len(reg.facts) == 0 && r.assume == nil
			case *goPanic:
				w := e.pos
				if w == "" {
					w = r.where()
				}
				viol = mk("the call panics: " + e.val)
				viol.where = w
				viol.sure = len(reg.facts) == 0 && r.assume == nil
			default:
				viol = mk(fmt.Sprintf("undecided: internal error: %v\n%s", e, trimStack(debug.Stack())))
			}
		}()
		if err := g.run(r); err != nil {
			viol = mk(err.Error())
			_, unsure := err.(unsureError)
			viol.sure = !unsure && len(reg.facts) == 0 && r.assume == nil
		}
	}()
	g.touch(r.touched)
	out.steps = r.steps
	if traceCells && r.steps > 50000 {
		fmt.Fprintf(os.Stderr, "%s: %d steps | %s\n", g.name, r.steps, reg.pathText())
	}
	if r.steps > r.maxSteps {
		atomic.AddInt32(&g.long, 1)
	}
	if viol == nil && r.open != "" && out.children == nil && !out.empty {
		viol = mk("undecided: " + r.open)
	}
	if viol == nil {
		return out
	}
	if !viol.undecided() && !viol.sure {
		viol.msg = undecidedMark + "the analysis cannot tell two values apart for certain: " + viol.msg
	}
	// A violation counts only in a cell that is certainly not empty: settle
	// the OR-facts first.
	if len(reg.clauses) > 0 && !viol.undecided() {
		for _, b := range reg.clauses[0] {
			if b.k == bPos || b.k == bNeg {
				if reg.varValue(g.world, int(b.id)) < 0 {
					if os.Getenv("CHECKER_TRACE") != "" {
						fmt.Fprintf(os.Stderr, "%s: candidate: %s | %s\n", g.name, viol.msg, reg.pathText())
					}
					out.children = reg.children(g.world, &splitReq{kind: 'v', id: int(b.id)})
					if out.children == nil {
						out.children = []*Region{}
					}
					return out
				}
			}
		}
	}
	out.viol = viol
	return out
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

// witness writes out one input of the cell.
func (w *World) witness(g *Region) string {
	var parts []string
	// group variables by prefix name[i]
	type grp struct {
		name string
		v    *big.Int
		hi   int
	}
	var order []string
	m := map[string]*grp{}
	for i, n := range w.varName {
		j := strings.LastIndexByte(n, '[')
		base, idx := n, 0
		if j >= 0 {
			base = n[:j]
			fmt.Sscanf(n[j:], "[%d]", &idx)
		}
		if _, ok := w.streamOf(i); ok {
			continue
		}
		p, ok := m[base]
		if !ok {
			p = &grp{name: base, v: new(big.Int)}
			m[base] = p
			order = append(order, base)
		}
		if g.varValue(w, i) == 1 {
			p.v.SetBit(p.v, idx, 1)
		}
	}
	for _, o := range order {
		parts = append(parts, fmt.Sprintf("%s=%#x", o, m[o].v))
	}
	for i, n := range w.symName {
		v := "in [" + g.lo[i].String() + "," + g.hi[i].String() + "]"
		if g.lo[i].Cmp(g.hi[i]) == 0 {
			v = "= " + g.lo[i].String()
		}
		parts = append(parts, n+" "+v)
	}
	for _, s := range w.streams {
		var sb strings.Builder
		n := int64(s.n)
		if hi := g.hi[s.M]; hi.Cmp(bi(n)) < 0 {
			n = hi.Int64()
		}
		last := int64(0)
		for i := int64(0); i < n; i++ {
			if g.varValue(w, s.base+int(i)) == 1 {
				last = i
			}
		}
		for i := int64(0); i <= last; i++ {
			switch g.varValue(w, s.base+int(i)) {
			case 1:
				sb.WriteByte('1')
			case 0:
				sb.WriteByte('0')
			default:
				sb.WriteByte('x')
			}
		}
		if g.hi[s.M].Cmp(bi(last+1)) > 0 {
			sb.WriteString("x...")
		}
		parts = append(parts, s.nameX+".mantissa=0."+sb.String())
	}
	sort.Strings(parts)
	return strings.Join(parts, " ")
}
