"""Chooses the number of generated cases per check for the quick tier.

Reads the evidence of one run of every check without pbt/quick_sizes.json, and shares TARGET seconds of
eight processes among the checks of each property.  Writes pbt/quick_sizes.json (committed).
"""
import json, os, sys, math
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.environ.setdefault("PBT_REPO", "/repo")
sys.path.insert(0, os.environ["PBT_REPO"])
from pbt import runner, core
import importlib
for m in runner.MODULES:
    importlib.import_module("pbt.props." + m)
TARGET = float(sys.argv[1]) if len(sys.argv) > 1 else 100.0     # process seconds per property
MAXMULT = 12.0
out = {}
for pid, checks in sorted(core.PROPERTIES.items()):
    ev = json.load(open(os.path.join(HERE, "evidence", pid + ".json")))["coverage"]["per_check"]
    cost = {c.name: max(0.3, ev[c.name]["sum_s"]) for c in checks if c.quick}
    share = TARGET / max(1, len(cost))
    out[pid] = {}
    spare = 0.0
    for name in sorted(cost, key=cost.get):
        c = [x for x in checks if x.name == name][0]
        mult = max(1.0, min(MAXMULT, (share + spare) / cost[name]))
        used = mult * cost[name]
        spare = max(0.0, spare + share - used) if used < share + spare else 0.0
        n = int(math.ceil(c.quick * mult / 5) * 5) if mult > 1 else c.quick
        procs = int(min(8, max(c.replicas, math.ceil(used / 6.0))))
        out[pid][name] = [n, procs]
    print(pid, {k: (v, round(cost[k], 1)) for k, v in out[pid].items()})
with open(os.path.join(HERE, "pbt", "quick_sizes.json"), "w") as f:
    json.dump(out, f, indent=1, sort_keys=True)
    f.write("\n")
