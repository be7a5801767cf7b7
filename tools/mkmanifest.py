#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a harness."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = "No violation among the generated cases; absence is not proved. Trusts the harness' generators and oracle, the compiler and its sanitizers."
SEQ = "stateful property-based testing against a reference model, shrinking; thorough adds a coverage-guided libFuzzer campaign"
INP = "property-based testing of generated inputs against an independent oracle, shrinking; thorough adds a coverage-guided libFuzzer campaign"
SCH = "property-based testing of generated programs under generated schedules (the harness owns the scheduler at single-access granularity), linearizability/invariant oracles, shrinking"
T = {
 "C01": (SEQ, ""), "C02": (SCH, "Interleavings are sequentially consistent; weak-memory reorderings are not explored."),
 "C03": (SEQ, ""), "C04": (SEQ, ""), "C05": (SEQ, ""), "C06": (SEQ, ""),
 "C07": (SCH, "Interleavings are sequentially consistent; weak-memory reorderings are not explored."),
 "C08": (SEQ, ""), "C09": (SEQ, ""), "C10": (SEQ, "The clock is the harness' own."), "C11": (INP, ""), "C12": (SEQ, ""),
 "C13": (SEQ, "The clock is the harness' own."), "C14": (SEQ, "The clock is the harness' own."), "C15": (SEQ, "The clock is the harness' own."),
 "C16": (SEQ, "The clock is the harness' own."), "C17": (INP, ""), "C18": (INP, ""), "C19": (INP, ""), "C20": (SEQ, ""), "C21": (SEQ, ""),
 "C22": (INP, ""), "C23": (SEQ, "The clock is the harness' own."),
 "C24": (SCH, "Popped nodes stay allocated during a concurrent phase, so address reuse is not explored; interleavings are sequentially consistent."),
 "C25": (SCH, "Interleavings are sequentially consistent; weak-memory reorderings are not explored."),
 "C26": ("property-based testing over generated programs, each compiled and run against a reference computed by the generator", ""),
 "C27": (SEQ, ""),
 "C28": (SCH, "Suspension is explored up to a bound of 20000 accesses for one operation and at shared accesses only."),
 "C29": ("property-based testing over drawn seeds and capacities: relative frequencies against Chernoff bounds at 1e-18", "A bias smaller than what a few ten thousand displacements per case reveal is not seen."),
 "C30": (SEQ, ""),
 "C31": ("stateful property-based testing with generated faults (failing allocations, constructors and streams) against a reference model, shrinking; thorough adds a coverage-guided libFuzzer campaign", "Allocations inside functions that promise not to throw are spared."),
 "C33": (SCH, "Interleavings are sequentially consistent; weak-memory reorderings are not explored. A shared handle is not copied while its object is released and its storage allocated again."),
 "C32": ("property-based testing over generated programs of several translation units, each compiled, linked and run against what the generator computes", "Two compilers and three language levels."),
}
NA = []
checks = []
for pid in sorted(T):
    if not any(os.path.exists(os.path.join(V, "harness", pid + e)) for e in (".cpp", ".py")):
        continue
    tech, extra = T[pid]
    checks.append({"property": pid, "quick_cmd": "python3 run.py " + pid, "thorough_cmd": "python3 run.py " + pid + " --thorough",
                   "technique": tech, "level": "exploration", "level_note": (NOTE + " " + extra).strip()})
missing = [p for p in T if p not in [c["property"] for c in checks]]
if missing:
    print("no harness yet:", " ".join(missing))
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": NA}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
