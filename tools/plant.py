"""Confirms planted changes in scratch copies of /repo and runs the property's check against them.

plant.py ID...            for each seeded/ID: patch applies, stable tests pass, demo 0/nonzero, check verdict
plant.py --spec FILE      FILE defines BUGS = {id: dict(property, edits=[(path, old, new)], demo, needs, breaks)}; writes seeded/<id>/ first
"""
import argparse, concurrent.futures as cf, importlib.util, json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
DEMO_SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def copy():
    d = tempfile.mkdtemp(prefix="plant.")
    c = os.path.join(d, "repo")
    sh(f"git clone -q /repo {c}")
    return d, c


def make(bid, b):
    d, c = copy()
    try:
        for path, old, new in b["edits"]:
            p = os.path.join(c, path)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1:
                print(f"{bid}: {path}: old text occurs {s.count(old)} times")
                return False
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.run(f"git -C {c} diff", shell=True, capture_output=True).stdout
    finally:
        shutil.rmtree(d)
    t = os.path.join(SEED, bid)
    os.makedirs(t, exist_ok=True)
    open(os.path.join(t, "patch.diff"), "wb").write(diff)
    open(os.path.join(t, "demo.py"), "w").write(b["demo"].lstrip("\n"))
    open(os.path.join(t, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(t, "demo.sh"), 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(t, "meta.json"), "w"), indent=1)
    return True


def run(bid, nocheck=False, only_check=False):
    t = os.path.join(SEED, bid)
    pid = json.load(open(os.path.join(t, "meta.json")))["property"]
    d, c = copy()
    out = {"id": bid, "property": pid}
    try:
        env = dict(os.environ, PYTHONPATH=c, PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore", MPLBACKEND="Agg", OMP_NUM_THREADS="1")
        if not only_check:
            out["demo_clean"] = sh(f"bash {t}/demo.sh", cwd=c, env=env, timeout=300).returncode
        r = sh(f"git -C {c} apply {t}/patch.diff")
        out["applies"] = r.returncode == 0
        if not out["applies"]:
            out["err"] = r.stderr
            return out
        if not only_check:
            r = sh(f"bash {t}/demo.sh", cwd=c, env=env, timeout=300)
            out["demo_patched"] = r.returncode
            out["demo_msg"] = (r.stdout + r.stderr).strip().splitlines()[-1:]
            script = open("/opt/vp/test.sh").read().replace("/repo", c).replace("unset PYTHONPATH", f"export PYTHONPATH={c}; unset")
            ts = os.path.join(d, "test.sh")
            open(ts, "w").write(script)
            sh(f"bash {ts} {d}/out.json", env=env)
            res = json.load(open(os.path.join(d, "out.json")))
            base = json.load(open("/opt/vp/BASELINE.json"))
            out["tests_lost"] = sorted(set(base["stable"]) - set(res["passed"]))[:5]
        if not nocheck:
            ev = dict(env, PYTHONPATH=c + ":" + os.path.join(d, "verif"), PBT_REPO=c, PBT_SCRATCH=d, PYTHONHASHSEED="0", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
            sh(f"cp -a {HERE} {d}/verif")
            r = sh(f"/opt/venv/bin/python -m pbt.runner --property {pid}", cwd=os.path.join(d, "verif"), env=ev)
            out["check"] = r.returncode
            out["caught"] = r.returncode == 1 and f"VIOLATION property={pid} " in r.stdout
            out["by"] = sorted({l.split("]")[0][1:] for l in r.stdout.splitlines() if l.startswith("[")})
            if not out["caught"]:
                out["tail"] = r.stdout[-1500:] + r.stderr[-500:]
        ok = out.get("demo_clean", 0) == 0 and out.get("demo_patched", 1) != 0 and not out.get("tests_lost")
        out["valid"] = ok
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--spec")
    ap.add_argument("--nocheck", action="store_true")
    ap.add_argument("--only-check", action="store_true")
    ap.add_argument("-j", type=int, default=3)
    a = ap.parse_args()
    ids = list(a.ids)
    if a.spec:
        sp = importlib.util.spec_from_file_location("spec", a.spec)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for k, b in m.BUGS.items():
            if a.ids and k not in a.ids:
                continue
            if make(k, b) and k not in ids:
                ids.append(k)
    elif not ids:
        ids = sorted(os.listdir(SEED))
    with cf.ThreadPoolExecutor(a.j) as ex:
        for o in ex.map(lambda i: run(i, a.nocheck, a.only_check), ids):
            if "caught" in o:
                cp = os.path.join(HERE, "tools", "caught.json")
                rec = json.load(open(cp)) if os.path.exists(cp) else {}
                rec[o["id"]] = o["by"] if o["caught"] else []
                json.dump(rec, open(cp, "w"), indent=0, sort_keys=True)
            flag = ("valid" if o.get("valid") else "INVALID") + " " + ("caught by " + ",".join(o.get("by", [])) if o.get("caught") else "MISSED" if "caught" in o else "")
            print(f"{o['id']:28s} {o['property']} {flag}", flush=True)
            if not o.get("valid") or ("caught" in o and not o["caught"]):
                print("   ", {k: v for k, v in o.items() if k not in ("tail",)}, flush=True)
                print(o.get("tail", ""))
