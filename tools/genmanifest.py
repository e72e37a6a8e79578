#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
absint = "abstract interpretation of the SSA form with trace partitioning (bit-level forms, exponent intervals, exact rounding domain)"
proofnote = ("Decides the property for every input: the partition of the input space is complete and the claim is decided in each cell against the format's "
    "definition. On the current tree every obligation is decided; on other code, cells the analysis cannot decide are printed as UNDECIDED and counted in the evidence, not reported as violations. Trusts go/ssa, the abstract domain's transfer functions and the models of math and math/big.")
claims = {
 **{c: (absint, "proof", proofnote) for c in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C19 C26 C27 C28".split()},
  "C18": (absint + "; points-to and side-effect analysis of everything reachable from exported functions (writes to package state, foreign calls, goroutines, map iteration)", "proof",
  "State and effects are decided for every call: public packages by the exact abstract interpretation, everything else by a flow-insensitive points-to analysis, which over-approximates. Trusts go/ssa, the list of standard packages known to be pure, and the models of math and math/big."),
 "C21": (absint + "; the digits are compared as quotient-and-remainder forms", "proof", proofnote),
 "C22": (absint, "proof", proofnote + " Says nothing about the decimal digits of the formats e, f and g."),
 "C23": ("evaluation of the initialisers of the package-level tables on the SSA form; every entry is compared with the exact number it stands for", "proof",
  "Every entry of every table on both word sizes; nothing is run. Tables are found by name or by the shape of their element type."),
 "C20": (absint + ", compared between the 32-bit and the 64-bit build", "proof", proofnote),
}
na = {
 "C24": "Shortest-decimal output is a numerical optimum over loops whose trip count and digits depend on the value (decimal multiplication, Grisu and the digit generation); no static domain in reach bounds it for every float, and no structural clause that is both necessary and robust to rewriting was found beyond the tables, which C23 decides.",
 "C25": "Correct rounding of fixed-precision output depends on the run-time digits of an up to 800-digit decimal and on error bounds of the fast path; no static domain in reach decides it for every float and precision. Its table and format-parameter clause is decided under C23.",
}
m = {
 "version": 1,
 "setup_cmd": "./run.sh build",
 "checks": [],
 "not_applicable": [{"property": k, "reason": v} for k, v in na.items() if k not in claims],
}
for c in sorted(claims):
    t, l, n = claims[c]
    m["checks"].append({"property": c, "quick_cmd": f"./run.sh {c} quick", "thorough_cmd": f"./run.sh {c} thorough",
        "evidence_file": f"evidence/{c}.json", "technique": t, "level": l, "level_note": n})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
