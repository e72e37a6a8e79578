package main

// The properties and how each is decided.

import "golang.org/x/tools/go/ssa"

type property struct {
	id, title   string
	level       string
	rule        string
	min         int // fewest obligations that make sense on this module
	run         func(o *options, progs map[int]*Program, rep *report)
	trusted     []string
	assumptions []string
}

var bigTrusted = []string{
	"the abstract domain (forms over input bits, integer intervals, lazily rounded sums) and its transfer functions",
	"the models of math, math/big and the other standard packages in libmodels.go, bigmodels.go, bigfloat.go, bigint.go",
}

var bigAssume = []string{
	"a *big.Float argument has precision at most 2^31 and is a well-formed value (no direct struct manipulation)",
	"the models of the standard library do what the sources of the installed go1.27 do",
}

const absRule = "abstract interpretation of the SSA form over a partition of the whole input space: a cell is split on an undecided input bit, exponent or comparison until the claim is decided in every cell; the expected result is derived from the format's definition, not from the code"

func valueProp(id, title string, min int, goals func(progs map[int]*Program) []*Goal) property {
	return property{id: id, title: title, level: "proof", rule: absRule, min: min, trusted: bigTrusted, assumptions: bigAssume,
		run: func(o *options, progs map[int]*Program, rep *report) { rep.decide(o, goals(progs)) }}
}

var properties []property

func init() {
	dec := func(f *format) func(progs map[int]*Program) []*Goal {
		return func(progs map[int]*Program) []*Goal { return decodeGoals(progs, f) }
	}
	enc := func(f *format) func(progs map[int]*Program) []*Goal {
		return func(progs map[int]*Program) []*Goal { return encodeGoals(progs, f) }
	}
	properties = []property{
		valueProp("C01", "half decodes", 2, dec(fHalf)),
		valueProp("C02", "bfloat16 decodes", 2, dec(fBF)),
		valueProp("C03", "quadruple decodes", 2, dec(fQuad)),
		valueProp("C04", "x87 decodes", 2, dec(fX87)),
		valueProp("C05", "double-double decodes", 4, dec(fPPC)),
		valueProp("C06", "half from big", 2, enc(fHalf)),
		valueProp("C07", "quad from big", 2, enc(fQuad)),
		valueProp("C08", "x87 from big", 2, enc(fX87)),
		valueProp("C09", "double-double from big", 2, encodePPCGoals),
		valueProp("C10", "from native", 16, nativeCtorGoals),
		valueProp("C11", "to native", 16, narrowGoals),
		valueProp("C12", "accessors", 30, accessorGoals),
		{id: "C13", title: "constants", level: "proof", rule: absRule + "; for the last sentence, a points-to analysis of all writes reachable from exported functions", min: 96, trusted: bigTrusted, assumptions: bigAssume,
			run: func(o *options, progs map[int]*Program, rep *report) {
				rep.decide(o, constantGoals(progs))
				names := map[string]bool{"NaN": true, "NegNaN": true, "Inf": true, "NegInf": true, "Zero": true, "NegZero": true}
				predeclaredWrites(o, progs, rep, func(g *ssa.Global) bool { return !internalPath(g.Pkg.Pkg.Path()) && names[g.Name()] })
			}},
		valueProp("C14", "round trips", 8, roundTripGoals),
		valueProp("C15", "native round trips", 16, nativeTripGoals),
		valueProp("C16", "IsExact", 6, exactGoals),
		valueProp("C17", "arguments", 8, argumentGoals),
		{id: "C18", title: "no shared state", level: "proof", rule: absRule + "; for the internal packages and for outside effects, a points-to and effect analysis of everything reachable from exported functions", min: 200, trusted: append([]string{"the list of pure standard packages in effects.go"}, bigTrusted...), assumptions: bigAssume, run: stateCheck},
		valueProp("C19", "no panics", 80, panicGoals),
		valueProp("C21", "integers as text", 290, intTextGoals),
		valueProp("C22", "floats as text", 28, floatTextGoals),
		valueProp("C20", "word size", 40, wordSizeGoals),
		valueProp("C23", "decimal tables", 0, tableGoals),
		valueProp("C27", "plain values", 60, plainGoals),
		valueProp("C28", "bounded memory", 80, costGoals),
		valueProp("C26", "precision of results", 10, precisionGoals),
	}
}
