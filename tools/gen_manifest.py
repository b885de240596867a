#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of workloads that exist."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import build as B
have = sorted(p for g in B.GROUPS.values() for p in g["props"])
TECH = "deterministic simulation: seeded search over operation histories and fault points, "
T = {
 "C01": "real library against a dense reference model",
 "C02": "real library against a structural reference model",
 "C03": "failures injected at allocations and dense kernels, effect/leak/retry oracles",
 "C04": "alias oracle: every tensor is modified in place at some later point of the history",
 "C05": "real container against a reference ordered map, failing handlers and allocations",
 "C06": "real quantity lists against plain vectors, failing allocations and type mismatches",
 "C07": "interrupted and resumed centre moves against the dense state vector",
 "C08": "simulated dmrg runs and restarts against exact diagonalisation",
 "C09": "dmrg runs interrupted at seeded crash points and resumed",
 "C10": "simulated clock with stalls and jumps, callback history oracle",
 "C11": "cooperative scheduler over real threads, pre-emption at basic blocks of library code",
 "C12": "factors against a dense oracle, with failures inside decompositions and retries",
 "C13": "simulated entropy source (constant, repeating, failing), twin runs",
 "C14": "twin runs under different memory contents, default types, clocks and histories",
 "C16": "construction histories with modified sites and injected failures against the textbook matrix",
 "C18": "printing to strings, buffers, failing streams and a simulated standard output, with failing allocations and kernels",
 "C15": "sector oracle over histories of moves, runs and interruptions",
}
NOTE = ("Seeded exploration, not a proof: holds for every simulated run (counts in the evidence file). Trusted: libtorch "
        "kernels, the harness's reference models, and the seams (operator new, tensor allocator, kernel dispatch, clock, "
        "entropy, scheduler). Library code is the real code compiled from /repo's working tree; tensors are small.")
NA = {
 "C17": "The Python bindings cannot be built offline here (no Python development environment matching this libtorch), so there is no system to put under the simulator.",
}
for p in T:
    if p not in have: NA[p] = "Not claimed yet: its simulation workload is still being built."
m = dict(version=1, setup_cmd="python3 tools/setup.py",
    hooks=dict(guard="QUANTIT_SIM", enable="-DQUANTIT_SIM=1 (set by tools/build.py; no hook in /repo was needed: every seam is at the linker, allocator, dispatcher or compiler-instrumentation level)", source_commits=[]),
    checks=[dict(property=p, quick_cmd="python3 run.py %s quick" % p, thorough_cmd="python3 run.py %s thorough" % p,
                 evidence_file="evidence/%s.json" % p, technique=TECH + T[p], level="exploration", level_note=NOTE) for p in have],
    not_applicable=[dict(property=p, reason=NA[p]) for p in sorted(NA)])
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
