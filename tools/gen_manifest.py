#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from plan import PLAN
NA = {}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append(dict(
            property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
            evidence_file=f"evidence/{i}.json",
            technique="symbolic execution of the crate's LLVM bitcode with Z3 (bounded), counterexamples replayed natively",
            level="model_checking",
            level_note="Bounded: every path and every value of the symbolic inputs within: " + PLAN[i]["bounds"] + ". Outside: "
                       + PLAN[i]["outside"] + ". Trusts rustc's code generation, Z3, the executor in /verif/engine (sampled "
                       "paths are validated against native builds on every run) and the allocator model.",
        ))
    else:
        na.append(dict(property=i, reason=NA[i]))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the harness crate uses the public API only. known_findings.json lists what was found and fixed."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
