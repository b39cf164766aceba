#!/usr/bin/env python3
import json, os
H = os.path.dirname(os.path.abspath(__file__))
from vf import deduct
checks = []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)["id"]
    i = deduct.INFO[p]
    checks.append(dict(property=p, quick_cmd="python3 check.py %s" % p, thorough_cmd="python3 check.py %s --thorough" % p, technique=i["technique"], level=i["level"], level_note=i["note"]))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=[]), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
