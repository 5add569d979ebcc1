#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sim"))
from meta import META
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
 "C15": "Comparison is a pure function of two values: no schedule, clock, fault, I/O or interleaving influences it. (That comparison works under concurrency, after failures and without modifying its operands is checked as part of C07, C08 and C09.)",
 "C16": "Numeric accuracy is a pure function of the literal or of value and options; no fault or schedule influences it. (That damaged digits, failing devices, locales and stream flags cannot change a number is checked by C04, C05 and C11.)",
}
NOTE = {
}
checks = []
na = []
for p in props:
    i = p["id"]
    if i in META:
        m = META[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection: " + m.get("technique", "seeded search over device, allocation and storage faults against a reference oracle"),
            "level": "exploration",
            "level_note": m.get("note", "Seeded sampling of simulated executions of the real code with every device, allocation and schedule decision owned by the simulator; each violation is replayed twice in fresh processes and minimised. Trusts the reference model, libstdc++ and AddressSanitizer; sampling is evidence, not proof."),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the library has no threads, clock or I/O of its own; every source of nondeterminism enters through streams, FILE, adapters, handlers, encodings, user hooks and the allocator, all of which the simulator supplies. quick and thorough differ in run count and in the size of the generated cases."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
