#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the typed MIR (symbolic sequences, blocks and counters), scenario per operation"
NOTE = "Definite violations on abstract paths of the current source, for arbitrary lengths, capacities, indices, element identities and markers; loops over elements are followed for a bounded number of rounds where they are not generalised. Trusts the MIR of the nightly compiler and the models of core/std functions listed in driver/stops.txt; what a scenario cannot decide is listed in the evidence as undecided and raises no alarm."
CHECKS = {}
for p in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12".split():
    CHECKS[p] = (AI, NOTE)
for p in "C13 C14 C16 C17 C19 C20 C21 C22 C24 C26".split():
    CHECKS[p] = (AI, NOTE)
CHECKS["C15"] = ("thread-modular abstract interpretation of the typed MIR: shared counters under interference of other owners, with ordering obligations", NOTE)
CHECKS["C18"] = ("compile-fail witnesses with compiling counterparts (auto traits, unsafety, borrows) and abstract interpretation of the envelope operations", "Send/Sync facts, unsafety of constructors and lifetimes are those of the compiler, for the representative payloads listed in the evidence; the missing payload bound of the two Envelop impls is a known finding.")
CHECKS["C23"] = ("build of the no_std configuration to metadata with inspection of the crates it links, and comparison of the public items of both configurations", "The library is type-checked with the feature; its crate metadata names what it links. Items are compared with signatures, bounds and impls as the compiler's documentation back end describes them.")
NA = {
    "C25": "Linearizability quantifies over all interleavings of unbounded histories under weak memory; no sound static argument in reach bounds it. The static part (each counter change is one atomic step with the required ordering) is C15.",
}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
for p in props:
    if p not in CHECKS and p not in NA:
        NA[p] = "No check yet."
m = {
    "version": 1,
    "setup_cmd": "python3-vt check.py --setup",
    "checks": [
        {"property": p, "quick_cmd": "python3-vt check.py %s quick" % p, "thorough_cmd": "python3-vt check.py %s thorough" % p, "technique": t, "level": "other", "level_note": n}
        for p, (t, n) in CHECKS.items()
    ],
    "not_applicable": [{"property": p, "reason": NA[p]} for p in props if p in NA],
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
