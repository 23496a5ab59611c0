"""Write MANIFEST.json from sa/registry.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.registry import NOT_APPLICABLE, PROPS

props = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks = []
for p in props:
    if p not in PROPS:
        continue
    s = PROPS[p]
    checks.append({
        "property": p,
        "quick_cmd": f"python3 -m sa {p} --tier quick",
        "thorough_cmd": f"python3 -m sa {p} --tier thorough",
        "technique": s.get("technique", "abstract interpretation of the source (trace partitioning over abstract entry points)"),
        "level": "other",
        "level_note": s.get("note", "Decides the obligations on every abstract path within the stated bounds (number of "
                            "unknown collection elements, entry points listed in the evidence); trusts the models of "
                            "the Python builtins and library in sa/. " + s.get("what", "")),
    })
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "check under construction")} for p in props if p not in PROPS]
json.dump({"version": 1, "setup_cmd": "python3 -m sa.selfcheck", "checks": checks, "not_applicable": na},
          open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
