"""writes properties.jsonl and MANIFEST.json from one table (run by hand when the table changes)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.join(V, "sa"))
from proptable import PROPS, NA
rows = []
for p in PROPS:
    rows.append({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")})
with open(os.path.join(V, "properties.jsonl"), "w") as h:
    for r in rows:
        h.write(json.dumps(r) + "\n")
checks = []
for p in PROPS:
    if p["id"] in NA:
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 sa/check.py %s" % p["id"], thorough_cmd="python3 sa/check.py %s --tier thorough" % p["id"],
                       technique=p["technique"], level="other", level_note=p["note"]))
json.dump(dict(version=1, setup_cmd="python3 sa/dump.py", checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
               notes="All checks rebuild sa's MIR dump from /repo's working tree; see DESIGN.md."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(rows), "properties", len(checks), "checks")
