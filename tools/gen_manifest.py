"""Regenerates MANIFEST.json from the registered checks."""
import json, os, sys
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, ".")
from pbt import core, runner
import importlib
for m in runner.MODULES:
    importlib.import_module("pbt.props." + m)
props = [json.loads(l) for l in open("properties.jsonl")]
NA = {}
checks = []
for p in props:
    i = p["id"]
    if i not in core.PROPERTIES:
        NA[i] = NA.get(i, "no check built")
        continue
    names = ", ".join(c.name for c in core.PROPERTIES[i])
    note = "Generated-input search (%s) against an independent oracle; nothing is claimed outside the generated ranges." % names
    if core.ASSUME[i]:
        note += " Assumes: " + "; ".join(core.ASSUME[i]) + "."
    checks.append({"property": i, "quick_cmd": f"bash check.sh {i} --tier quick", "thorough_cmd": f"bash check.sh {i} --tier thorough",
                   "technique": "property-based testing (Hypothesis): " + getattr(core, "TECH", {}).get(i, "generated inputs vs reference oracle"),
                   "level": "exploration", "level_note": note})
extra = set(core.PROPERTIES) - {p["id"] for p in props}
assert not extra, extra
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
           "notes": "All checks import pibronic from /repo's working tree (pure Python, no build step) and write only to scratch directories."},
          open("MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", list(NA))
