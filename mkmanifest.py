"""Write MANIFEST.json from catalog.py and properties.jsonl."""
import json

import catalog

props = [json.loads(x) for x in open("/verif/properties.jsonl")]
m = {"version": 1,
     "setup_cmd": "python3-vt -c 'import z3' && /opt/venv/bin/python -c 'import numpy'",
     "checks": [], "not_applicable": []}
for p in props:
    e = catalog.CHECKS.get(p["id"])
    if e is None:
        m["not_applicable"].append({"property": p["id"], "reason": catalog.NA.get(p["id"], "no check yet")})
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": "/usr/bin/env python3 check.py %s" % p["id"],
                        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p["id"],
                        "technique": e["technique"], "level": e["level"], "level_note": e["note"]})
with open("/verif/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
