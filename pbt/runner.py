"""CLI: generated-input search for one property; writes evidence/<id>.json and replay files."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback

from . import core
import numpy as np
import hypothesis
from hypothesis import HealthCheck, Phase, given, settings, seed as hseed
import hypothesis.internal.conjecture.engine as _engine

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "pbt", "props")) if f.endswith(".py") and f != "__init__.py")


def load_property(pid):
    for m in MODULES:
        importlib.import_module("pbt.props." + m)
    if pid not in core.PROPERTIES:
        print("unknown property", pid)
        raise SystemExit(2)


class HarnessError(BaseException):
    pass


def run_case(check, case):
    """returns observation; raises Violation / Skip / Hang / HarnessError"""
    case = json.loads(json.dumps(case))   # the function only ever sees what a replay file holds
    random.seed(0)
    np.random.seed(0)
    try:
        with core.time_limit(check.case_seconds):
            return check.fn(case)
    except (core.Violation, core.Skip, hypothesis.errors.HypothesisException):
        raise
    except MemoryError as e:
        raise HarnessError(traceback.format_exc()) from e
    except Exception as e:
        # The unchanged tree raises nothing here, so an exception means that the behaviour changed.
        if isinstance(e, OSError) and e.errno in (28, 12, 24):
            raise HarnessError(traceback.format_exc()) from e
        tb = traceback.format_exc(limit=-6)
        raise core.Violation(f"unexpected {type(e).__name__}: {e}\n{tb}") from e


def worker(pid, cname, tier, seed, shard, examples, budget, outpath):
    devnull = os.open(os.devnull, os.O_WRONLY)
    errf = os.open(outpath + ".err", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(devnull, 1)
    os.dup2(errf, 2)
    out = {"check": cname, "shard": shard, "evaluations": 0, "nontrivial": [], "samples": [], "violation": None, "error": None, "skipped": 0, "known": []}
    t0 = time.time()
    cov = None
    if os.environ.get("PBT_COV"):      # only for tools/coverage.sh: which lines of the package the checks execute
        import coverage
        cov = coverage.Coverage(data_file=os.path.join(os.environ["PBT_COV"], f"{pid}.{cname}.{shard}"), include=[core.REPO + "/pibronic/*"], config_file=False)
        cov.start()
    try:
        check = [c for c in core.PROPERTIES[pid] if c.name == cname][0]
        seen = set()
        state = {"fail": None, "failed": False, "current": None}

        def execute(case):
            out["evaluations"] += 1
            state["current"] = case
            try:
                obs = run_case(check, case)
            except core.Skip:
                out["skipped"] += 1
                return
            except core.Violation as v:
                if check.known is not None:
                    k = check.known(case, str(v))
                    if k:
                        if k not in out["known"]:
                            out["known"].append(k)
                        return
                state["fail"] = (case, str(v))
                state["failed"] = True
                raise
            if check.nontrivial(case):
                h = hashlib.sha1(core.canon(case).encode()).hexdigest()
                if h not in seen:
                    seen.add(h)
                    if len(out["samples"]) < 2 and (len(seen) % 7 == 1):
                        out["samples"].append({"check": cname, "case": case, "observed": obs})

        try:
            if shard == 0:
                for case in check.fixed:
                    execute(case)
            if examples > 0 and check.strategy is not None:
                _engine.MAX_SHRINKING_SECONDS = 40 if tier == "quick" else 120

                @hseed((seed * 1000003 + shard * 7919) % (2**63))
                @settings(max_examples=examples, database=None, deadline=None, derandomize=False, print_blob=False,
                          report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                          phases=(Phase.generate, Phase.shrink))
                @given(check.strategy)
                def prop(case):
                    if not state["failed"] and time.time() - t0 > budget:
                        return
                    execute(case)
                prop()
        except core.Violation:
            case, msg = state["fail"]
            out["violation"] = {"case": case, "message": msg}
        except core.Hang as e:
            out["violation"] = {"case": state["current"], "message": "does not terminate: " + str(e)}
        except hypothesis.errors.FlakyFailure:
            if state["fail"] is None:
                raise
            case, msg = state["fail"]
            out["violation"] = {"case": case, "message": "(not every repetition fails) " + msg}
        out["nontrivial"] = sorted(seen)
    except BaseException:
        out["error"] = traceback.format_exc()
    if cov is not None:
        cov.stop()
        cov.save()
    out["wall"] = time.time() - t0
    with open(outpath + ".tmp", "w") as f:
        json.dump(out, f)
    os.rename(outpath + ".tmp", outpath)
    os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--check")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("PBT_JOBS", "8")))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    pid = a.property
    t0 = time.time()
    try:
        import pibronic
    except Exception:
        print(traceback.format_exc())
        print("the package cannot be imported")
        return 2
    if not os.path.realpath(pibronic.__file__).startswith(os.path.realpath(core.REPO) + os.sep):
        print("pibronic is not imported from", core.REPO, pibronic.__file__)
        return 2
    load_property(pid)
    checks = core.PROPERTIES[pid]

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        check = [c for c in checks if c.name == rep["check"]][0]
        try:
            run_case(check, rep["case"])
        except core.Skip:
            print("case outside the precondition")
            return 2
        except (core.Violation, core.Hang) as e:
            print(e)
            print(f"VIOLATION property={pid} replay={a.replay}")
            return 1
        print("replay passes")
        return 0

    sizes = {}
    if os.path.exists(os.path.join(HERE, "pbt", "quick_sizes.json")):
        with open(os.path.join(HERE, "pbt", "quick_sizes.json")) as f:
            sizes = json.load(f)     # written by tools/size_quick.py: cases and processes per check
    if a.check:
        checks = [c for c in checks if c.name == a.check]
    jobs = []
    for c in checks:
        n = c.quick if a.tier == "quick" else c.thorough
        nsh = c.replicas if a.tier == "quick" else c.shards
        if a.tier == "quick" and c.name in sizes.get(pid, {}):
            n, nsh = sizes[pid][c.name]
        n = max(1, int(n * a.scale)) if n else 0
        for s in range(nsh):
            jobs.append((c.name, s, -(-n // nsh)))
    budget = 150 if a.tier == "quick" else 1500
    base = os.environ.get("PBT_SCRATCH") or "/tmp"
    ctx = mp.get_context("fork")
    running, results, pending, k = [], [], list(jobs), 0
    hard = 600 if a.tier == "quick" else 6 * 3600
    sys.stdout.flush()
    while pending or running:
        while pending and len(running) < a.jobs:
            cname, s, n = pending.pop(0)
            outp = os.path.join(base, f"out{k}.json")
            k += 1
            p = ctx.Process(target=worker, args=(pid, cname, a.tier, seed, s, n, budget, outp))
            p.start()
            running.append((p, cname, s, outp, time.time()))
        time.sleep(0.02)
        still = []
        for r in running:
            p, cname, s, outp, ts = r
            if p.is_alive() and time.time() - ts < hard:
                still.append(r)
                continue
            if p.is_alive():
                p.kill()
            p.join()
            if os.path.exists(outp):
                with open(outp) as f:
                    results.append(json.load(f))
            else:
                err = open(outp + ".err").read()[-2000:] if os.path.exists(outp + ".err") else ""
                results.append({"check": cname, "shard": s, "evaluations": 0, "nontrivial": [], "samples": [], "violation": None,
                                "error": f"worker died (exit {p.exitcode}) {err}", "skipped": 0, "known": [], "wall": time.time() - ts})
        running = still

    errors = [r for r in results if r["error"]]
    viols = [r for r in results if r["violation"]]
    known = sorted({k for r in results for k in r["known"]})
    per = {}
    for r in results:
        d = per.setdefault(r["check"], {"evaluations": 0, "nontrivial": set(), "skipped": 0, "wall_s": 0.0, "sum_s": 0.0})
        d["evaluations"] += r["evaluations"]
        d["nontrivial"].update(r["nontrivial"])
        d["skipped"] += r["skipped"]
        d["wall_s"] = round(max(d["wall_s"], r["wall"]), 2)
        d["sum_s"] = round(d["sum_s"] + r["wall"], 2)
    samples = []
    for r in results:
        for s in r["samples"]:
            if sum(1 for x in samples if x["check"] == s["check"]) < 2:
                samples.append(s)
    ev = {
        "property": pid, "tier": a.tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(d["evaluations"] for d in per.values()),
            "distinct_nontrivial": sum(len(d["nontrivial"]) for d in per.values()),
            "rule": " | ".join(f"{c.name}: {c.rule}" for c in checks),
            "samples": samples[:12],
            "per_check": {n: {"evaluations": d["evaluations"], "distinct_nontrivial": len(d["nontrivial"]), "outside_precondition": d["skipped"], "wall_s": d["wall_s"], "sum_s": d["sum_s"]} for n, d in per.items()},
        },
        "assumptions": core.ASSUME[pid],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for n, d in per.items():
        print(f"  {pid} {n}: evaluations={d['evaluations']} nontrivial={len(d['nontrivial'])} skipped={d['skipped']} wall={d['wall_s']}s")
    for kf in known:
        print(f"KNOWN-FINDING: property={pid} {kf}")
    if viols:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        done = set()
        for r in viols:
            if r["check"] in done:
                continue
            done.add(r["check"])
            path = os.path.join(HERE, "replays", f"{pid}-{r['check']}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "check": r["check"], "case": r["violation"]["case"], "message": r["violation"]["message"]}, f, indent=1)
            print(f"[{r['check']}] " + r["violation"]["message"][:1500])
            print("  case: " + json.dumps(r["violation"]["case"])[:1500])
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        for r in errors:
            print(f"ERROR in check {r['check']} shard {r['shard']}:\n{r['error']}")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
