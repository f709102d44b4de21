#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMED maps a property to its level note."""
import json
T = "contract-based deductive verification: contracts in specs/*.spec on the Go functions, obligations from the SSA of /repo's current source, discharged by z3/cvc5; a bounded replay harness supplies failing inputs"
TB = " Trusted: the verifier govc, go/ssa, the SMT solvers, the contracts assumed for the standard library and third-party packages (named in the evidence file); termination is not proved; integers are mathematical."
C = {}
def claim(p, note, level="proof"): C[p] = (note, level)
exec(open("/verif/tools/claims.py").read())
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash setup.sh",
 "checks": [{"property": i, "quick_cmd": "bash check.sh " + i, "thorough_cmd": "bash check.sh " + i, "evidence_file": "evidence/%s.json" % i,
   "technique": T, "level": C[i][1], "level_note": C[i][0] + TB} for i in ids if i in C],
 "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i not in C],
 "notes": "No hooks are needed in /repo: contracts live in /verif/specs and are checked against the unmodified source. The harness is compiled into the module through a go build overlay."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
