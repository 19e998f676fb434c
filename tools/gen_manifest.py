#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the set of checks that exist in mc/src/bin."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
BFS = {"C01", "C02", "C13", "C16", "C23"}
checks, na = [], []
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(V, "mc/src/bin", i.lower() + ".rs")):
        na.append(dict(property=i, reason="no check built yet"))
        continue
    tech = "explicit-state model checking of the real code: exhaustive enumeration of a bounded operand lattice, every state checked against an independent reference model"
    if i in BFS:
        tech = "explicit-state model checking of the real code: breadth-first / all-sequences exploration of operation histories to a depth plus exhaustive operand enumeration, every step replayed against an independent reference model"
    if i == "C25":
        tech = "explicit-state model checking of the product of all build configurations: exhaustive operand enumeration, results of every configuration compared state by state"
    note = ("Every state of the finite domain given in DESIGN.md is executed on code rebuilt from /repo in nine x86_64 configurations "
            "(scalar, SSE2..AVX2/FMA/F16C, favor_intel). Trusts the reference model in mc/src, rustc and the host CPU; operands outside the "
            "domain and the NEON bodies are not covered.")
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
                       evidence_file=f"evidence/{i}.json", technique=tech, level="model_checking", level_note=note))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks: the public API is enough. check.py rebuilds every configuration from /repo's working tree on each run.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
