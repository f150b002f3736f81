#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from mc/meta.py."""
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from mc import meta
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in meta.P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks, na = [], []
for p in meta.P:
    if os.path.exists(os.path.join(here, "mc", "checks", p["id"].lower() + ".py")):
        checks.append(dict(property=p["id"], quick_cmd="./check.sh %s" % p["id"], thorough_cmd="VERIF_TIER=thorough ./check.sh %s" % p["id"],
                           technique=p["technique"], level="model_checking", level_note=p["note"]))
    else:
        na.append(dict(property=p["id"], reason="check not built yet"))
m = dict(version=1, setup_cmd="./check.sh --selftest", checks=checks, not_applicable=na,
         notes="No hooks in /repo. All checks run the code of /repo's working tree through its WSGI entry point (or public modules) under a virtual clock.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
