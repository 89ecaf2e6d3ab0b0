#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
HOOKS = dict(guard="--cfg fhe_monitor", enable='RUSTFLAGS="--cfg fhe_monitor"', source_commits=['f8842c6d1d637da10ca8894d56f405dfd61bc991'])
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if c is None:
        na.append(dict(property=p["id"], reason="no check built yet"))
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} quick",
                       thorough_cmd=f"python3 check.py {p['id']} thorough",
                       evidence_file=f"evidence/{p['id']}.json",
                       technique=c["technique"], level=c.get("level", "exploration"),
                       level_note=c.get("note", "Held on the executions observed (counts in the evidence file), each judged by an oracle independent of the library; executions not produced are not covered. Trusts the reference model, num-bigint and the compiler.")))
json.dump(dict(version=1, setup_cmd="python3 check.py setup", hooks=HOOKS, checks=checks, not_applicable=na,
               notes="Every check rebuilds the monitor binaries from /repo's working tree."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
