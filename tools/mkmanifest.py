#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table in lib/checks.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.join(here, "..")
sys.path.insert(0, os.path.join(root, "lib"))
try:
    from checks import CHECKS, NOT_APPLICABLE
except ImportError:
    CHECKS, NOT_APPLICABLE = {}, {}
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[])
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --thorough",
                                technique=c["technique"], level=c["level"], level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check under construction")))
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
