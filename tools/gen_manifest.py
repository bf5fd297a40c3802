#!/usr/bin/env python3
"""Write MANIFEST.json from harness/meta.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
meta = json.load(open(V + "/harness/meta.json"))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
na = {}
nap = V + "/tools/not_applicable.json"
if os.path.exists(nap): na = json.load(open(nap))
checks = []
for p in props:
    if p not in meta: continue
    m = meta[p]
    checks.append(dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
        evidence_file="evidence/%s.json" % p,
        technique=m.get("technique", "bounded-exhaustive explicit-state exploration of the real code against a reference model"),
        level="model_checking", level_note=m.get("level_note", "Every case within the stated bounds is executed on the real code, compiled from the working tree with assertions and AddressSanitizer; nothing is claimed beyond the bounds. Trusted: the reference model in harness/, the compiler.")))
missing = [p for p in props if p not in meta]
out = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks,
    not_applicable=[dict(property=p, reason=na.get(p, "check not built yet")) for p in missing])
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
