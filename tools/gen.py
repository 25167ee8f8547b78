#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from vf/props.py and vf/checks.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf.props import PROPS
from vf.checks import CHECKS, NOT_APPLICABLE, UNCLAIMED

TECH = "symbolic execution of the LLVM IR of the real code with SMT (Z3) queries, in a POSIX model"
rows, checks, na = [], [], []
for p in PROPS:
    rows.append({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                 "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}})
    assert len(p["title"]) <= 80, p["title"]
    if p["id"] in CHECKS:
        b = "; ".join(dict.fromkeys(h.bounds for h in CHECKS[p["id"]] if h.bounds)) or "see DESIGN.md"
        checks.append({"property": p["id"], "quick_cmd": "python3 run.py " + p["id"], "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": TECH, "level": "model_checking", "level_note": "Bounded: " + b})
    else:
        na.append({"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], UNCLAIMED)})
open(ROOT + "/properties.jsonl", "w").write("".join(json.dumps(r) + "\n" for r in rows))
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
     "notes": "Each check compiles /repo's current sources to LLVM IR, executes them symbolically with engine/symx (Z3) in the environment model of env/, and re-runs counterexamples and sampled paths natively. See DESIGN.md."}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
