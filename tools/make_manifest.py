#!/usr/bin/env python3
"""Source of MANIFEST.json: every property with a spec is claimed, the others are listed with a reason."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
from specs import SPECS
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
NA = {}
checks = []
for i in ids:
    if i in SPECS:
        s = SPECS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           technique=s["technique"], level=s.get("level", "exploration"), level_note=s["note"]))
m = dict(version=1, setup_cmd="python3 setup.py", hooks=dict(guard="AMPGEN_VERIF", enable="no hooks were needed: harnesses use the public interface of /repo's sources compiled with sanitizers (check.py)", source_commits=[]),
         checks=checks, not_applicable=[dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in SPECS])
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
