#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and config.py."""

import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + "/tools")
import config  # noqa: E402

props = [json.loads(l) for l in open(VERIF + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in config.CHECKS:
        c = config.CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 tools/check.py %s quick" % i,
            "thorough_cmd": "python3 tools/check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "solver-based symbolic execution of the LLVM IR rustc emits for /repo: inputs are SMT bit-vector variables, "
                         "branches and assertions are decided by Z3 for all values within the bounds, counterexamples are replayed natively",
            "level": config.LEVEL,
            "level_note": "Exhaustive within: " + "; ".join(dict.fromkeys(j.bound for j in c.jobs if j.bound and j.tier == "quick"))
                          + ". Outside: " + c.outside + ".",
        })
    else:
        na.append({"property": i, "reason": config.NOT_APPLICABLE.get(i, "The harness for this property is not written yet.")})
m = {
    "version": 1,
    "setup_cmd": "python3 tools/check.py --setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "engine/ is the symbolic executor, harness/ the harnesses and their reference models, tools/check.py the driver, "
             "tools/config.py the bounds. See DESIGN.md.",
}
with open(VERIF + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
