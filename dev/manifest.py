#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks/ and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = json.load(open(V + "/dev/not_applicable.json"))
TECH = json.load(open(V + "/dev/technique.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(V + "/checks/%s.py" % i):
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           technique=TECH[i][0], level="other", level_note=TECH[i][1]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
