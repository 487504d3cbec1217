#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and lib/jobs.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/lib")
from jobs import JOBS, NOT_APPLICABLE
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in JOBS:
        checks.append({"property": i, "quick_cmd": f"python3 lib/check.py {i} --tier quick", "thorough_cmd": f"python3 lib/check.py {i} --tier thorough",
            "technique": "symbolic execution of the compiler's LLVM bitcode of the real sources with z3 deciding the assertions; counterexamples replayed natively",
            "level": "model_checking", "level_note": JOBS[i].get("note", "every value, choice and fault/schedule variable within the bounds stated per job in DESIGN.md and the evidence file; nothing is claimed outside them")})
    else: na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 lib/setup.py", "hooks": {"guard": "TPIE_SX_SERIALIZATION_BLOCK_SIZE", "enable": "the checks compile /repo's sources themselves with -DTPIE_SX_SERIALIZATION_BLOCK_SIZE=16 (lib/sxlib.py)", "source_commits": ["6bd8752"]}, "checks": checks, "not_applicable": na}, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
