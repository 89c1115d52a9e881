#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the tables below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
A = "symbolic execution of the gadget code on term-valued wires (gnark frontend.API replaced), constraints and specification decided by z3/cvc5 for all values in the bounds; counterexamples replayed on gnark's test engine / compiled R1CS"
B = "symbolic execution of the native Go code (go/ssa, bit-vector inputs, forking with solver-checked path conditions), assertions decided by z3/cvc5; counterexamples replayed natively"
CL = {}
exec(open(here + "/tools/claims.py").read())
PENDING = "not yet decided by a check in this tree"
checks, na = [], []
for i in ids:
    if i in CL:
        t, note = CL[i]
        checks.append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
            "technique": t, "level": "other", "level_note": note, "evidence_file": f"evidence/{i}.json"})
    else:
        na.append({"property": i, "reason": NA.get(i, PENDING)})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
