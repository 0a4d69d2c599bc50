#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
V = checks.__file__ and os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
na = getattr(checks, "NOT_APPLICABLE", {})
cs, nas = [], []
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        cs.append({"property": i, "quick_cmd": "python3 fw/check.py %s" % i, "thorough_cmd": "python3 fw/check.py %s --thorough" % i,
                   "technique": c["technique"], "level": c["level"], "level_note": c["rule"]})
    else:
        nas.append({"property": i, "reason": na.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 fw/setup.py", "checks": cs, "not_applicable": nas,
     "notes": "Every check rebuilds from /repo's working tree; objects are cached under /verif/build by content hash."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
