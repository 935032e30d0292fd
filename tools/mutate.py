#!/usr/bin/env python3
"""mechanical mutants of a source file of the package, run against the checks which execute the mutated line

mutate.py FILE(s, relative to /repo) [--work DIR] [--cov DIR] [-j N] [--scale S] [--sample K] [--out FILE] [--only-line a-b]

A development aid (no check uses it).  Everything runs in copies below --work, as an unprivileged user.
DIR of --cov holds the data of tools/coverage.sh."""
import warnings, argparse, ast, copy, glob, json, os, queue, random, shutil, subprocess, sys, threading, time

AP = argparse.ArgumentParser()
AP.add_argument("files", nargs="+")
AP.add_argument("--work", default="/tmp/mut")
AP.add_argument("--cov", default="/tmp/cov")
AP.add_argument("-j", type=int, default=8)
AP.add_argument("--scale", type=float, default=0.05)
AP.add_argument("--sample", type=int, default=0)
AP.add_argument("--out", default="/tmp/mut/out.jsonl")
AP.add_argument("--only-line", default="")
AP.add_argument("--list", action="store_true")
AP.add_argument("--ops", choices=["basic", "names"], default="basic", help="names: mistaken variables, attributes, keys, arguments, forgotten method calls and loop items")
A = AP.parse_args()
ENV = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LC_ALL": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1",
       "PYTHONHASHSEED": "0", "PYTHONWARNINGS": "ignore", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "MPLBACKEND": "Agg"}
DROP = ["setpriv", "--reuid=65534", "--regid=65534", "--clear-groups"]


# ---------------------------------------------------------------- mutants
class Site:
    pass


SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
        ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
        ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv,
        ast.And: ast.Or, ast.Or: ast.And}


def is_log(node):
    s = ast.unparse(node)
    return s.startswith(("log.", "print(", "logging.", "warnings."))


def mutants(tree):
    """list of (line, description, function applying the change to a copy of the tree)"""
    out = []
    nodes = list(ast.walk(tree))
    skip = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.update(id(x) for x in ast.walk(n.body[0]))
        if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or is_log(n.value)):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Assert):
            if n.msg is not None:
                skip.update(id(x) for x in ast.walk(n.msg))
        if isinstance(n, ast.Raise) and n.exc is not None:
            skip.update(id(x) for x in ast.walk(n.exc))
        if isinstance(n, ast.FunctionDef) and n.name in ("__repr__",):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.JoinedStr):
            for v in n.values:
                if isinstance(v, ast.Constant):
                    skip.add(id(v))

    def add(i, n, what, fn):
        out.append((n.lineno, what, i, fn))

    parents = {}
    for n in nodes:
        for c in ast.iter_child_nodes(n):
            parents[id(c)] = n
    infunc = {}
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            for c in ast.walk(n):
                infunc[id(c)] = True
    for i, n in enumerate(nodes):
        if id(n) in skip or not hasattr(n, "lineno"):
            continue
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                if type(op) in SWAP:
                    add(i, n, f"{type(op).__name__}->{SWAP[type(op)].__name__}", lambda m, k=k, o=SWAP[type(op)]: m.ops.__setitem__(k, o()))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in SWAP:
            add(i, n, f"{type(n.op).__name__}->{SWAP[type(n.op)].__name__}", lambda m, o=SWAP[type(n.op)]: setattr(m, "op", o()))
        elif isinstance(n, ast.BoolOp):
            add(i, n, f"{type(n.op).__name__}->", lambda m, o=SWAP[type(n.op)]: setattr(m, "op", o()))
            for k in range(len(n.values)):
                add(i, n, f"drop operand {k}", lambda m, k=k: m.values.__delitem__(k))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(i, n, f"drop {type(n.op).__name__}", lambda m: (setattr(m, "op", ast.UAdd()) if isinstance(m.op, ast.USub) else setattr(m, "operand", ast.UnaryOp(ast.Not(), m.operand))))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(i, n, f"{n.value}->{not n.value}", lambda m: setattr(m, "value", not m.value))
            elif isinstance(n.value, int):
                add(i, n, f"{n.value}->{n.value + 1}", lambda m: setattr(m, "value", m.value + 1))
                if n.value not in (0, 1):
                    add(i, n, f"{n.value}->{n.value - 1}", lambda m: setattr(m, "value", m.value - 1))
            elif isinstance(n.value, float):
                add(i, n, f"{n.value}*1.05+", lambda m: setattr(m, "value", m.value * 1.05 + 0.01 * (m.value == 0)))
            elif isinstance(n.value, str) and id(n) in infunc and n.value and not isinstance(parents.get(id(n)), (ast.Expr, ast.JoinedStr)):
                add(i, n, f"str {n.value[:20]!r}+", lambda m: setattr(m, "value", m.value[:-1] + chr(ord(m.value[-1]) ^ 1)))
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add(i, n, "cond True", lambda m: setattr(m, "test", ast.Constant(True))) if not isinstance(n, ast.While) else None
            add(i, n, "cond False", lambda m: setattr(m, "test", ast.Constant(False)))
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                add(i, n, "drop lower", lambda m: setattr(m, "lower", None))
            if n.upper is not None:
                add(i, n, "drop upper", lambda m: setattr(m, "upper", None))
        elif isinstance(n, ast.Call) and n.keywords:
            for k, kw in enumerate(n.keywords):
                if kw.arg is not None:
                    add(i, n, f"drop keyword {kw.arg}", lambda m, k=k: m.keywords.__delitem__(k))
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Assert, ast.Raise, ast.Continue, ast.Break, ast.Delete, ast.With)) and id(n) in infunc:
            if isinstance(n, ast.With):
                continue
            add(i, n, f"delete {type(n).__name__}", "delete")
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            add(i, n, "return None", lambda m: setattr(m, "value", ast.Constant(None)))
    return out


def name_mutants(tree):
    """confusions of similar names, keys and arguments; forgotten method calls and first or last items of loops"""
    import difflib
    out = []
    nodes = list(ast.walk(tree))
    skip = set()
    for n in nodes:
        if isinstance(n, (ast.Assert, ast.Raise)) or (isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or is_log(n.value))):
            skip.update(id(x) for x in ast.walk(n))
    attrs = sorted({n.attr for n in nodes if isinstance(n, ast.Attribute)})
    strs = sorted({n.value for n in nodes if isinstance(n, ast.Constant) and isinstance(n.value, str) and 2 < len(n.value) < 30})
    modules = {a.asname or a.name for n in nodes if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
    infunc, owner = {}, {}
    for n in nodes:
        if isinstance(n, ast.FunctionDef):
            names = sorted({x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in n.args.args + n.args.kwonlyargs})
            for c in ast.walk(n):
                owner[id(c)] = names

    def similar(x, names, k):
        return [y for y in difflib.get_close_matches(x, [z for z in names if z != x], n=k, cutoff=0.6)]

    def add(i, n, what, fn):
        out.append((n.lineno, what, i, fn))
    for i, n in enumerate(nodes):
        if id(n) in skip or not hasattr(n, "lineno") or id(n) not in owner:
            continue
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and not (isinstance(n.value, ast.Name) and n.value.id in modules):
            for y in similar(n.attr, attrs, 2):
                add(i, n, f".{n.attr}->.{y}", lambda m, y=y: setattr(m, "attr", y))
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ("VMK", "SEP"):
            for y in similar(n.attr, attrs, 2) or [a for a in attrs if len(a) <= 2 and a != n.attr][:2]:
                add(i, n, f"{n.value.id}.{n.attr}->{y}", lambda m, y=y: setattr(m, "attr", y))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in owner[id(n)]:
            for y in similar(n.id, owner[id(n)], 2) or ([z for z in owner[id(n)] if z != n.id and len(z) == 1][:1] if len(n.id) == 1 else []):
                add(i, n, f"{n.id}->{y}", lambda m, y=y: setattr(m, "id", y))
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in strs:
            for y in similar(n.value, strs, 2):
                add(i, n, f"{n.value!r}->{y!r}", lambda m, y=y: setattr(m, "value", y))
        elif isinstance(n, ast.Call):
            for k in range(len(n.args) - 1):
                if not any(isinstance(x, ast.Starred) for x in n.args):
                    add(i, n, f"swap arguments {k}, {k + 1}", lambda m, k=k: m.args.__setitem__(slice(k, k + 2), [m.args[k + 1], m.args[k]]))
            f = n.func
            if isinstance(f, ast.Attribute) and len(n.args) <= 2 and not (isinstance(f.value, ast.Name) and (f.value.id in modules or f.value.id in ("self", "cls", "FS", "np"))):
                add(i, n, f"drop .{f.attr}()", "value")
        elif isinstance(n, ast.For):
            for what, sl in (("first", ast.Slice(ast.Constant(1), None)), ("last", ast.Slice(None, ast.UnaryOp(ast.USub(), ast.Constant(1))))):
                add(i, n, f"loop without its {what} item", lambda m, sl=sl: setattr(m, "iter", ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [m.iter], []), sl, ast.Load())))
    return out


def apply(src, mut):
    line, what, i, fn = mut
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    n = nodes[i]
    if fn == "delete":
        for p in nodes:
            for f in ("body", "orelse", "finalbody"):
                l = getattr(p, f, None)
                if isinstance(l, list) and n in l:
                    l[l.index(n)] = ast.copy_location(ast.Pass(), n)
    elif fn == "value":
        class T(ast.NodeTransformer):
            def visit_Call(self, m):
                return m.func.value if m is n else self.generic_visit(m)
        tree = T().visit(tree)
    else:
        fn(n)
    ast.fix_missing_locations(tree)
    return ast.unparse(tree)


# ---------------------------------------------------------------- which checks execute a line
def covmap(rel):
    import sqlite3
    sys.path.insert(0, "/opt/venv/lib/python3.12/site-packages")
    from coverage import CoverageData
    m = {}
    tot = {}
    for f in glob.glob(A.cov + "/C*.*.0"):
        pid, chk, _ = os.path.basename(f).split(".")
        d = CoverageData(f)
        d.read()
        for mf in d.measured_files():
            ls = d.lines(mf) or []
            tot[(pid, chk)] = tot.get((pid, chk), 0) + len(ls)
            if mf.endswith("/" + rel):
                for l in ls:
                    m.setdefault(l, set()).add((pid, chk))
    return {l: sorted(s, key=lambda x: (tot[x], x)) for l, s in m.items()}


def sh(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, **kw)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.communicate()
        return -9, "timeout"


def run_checks(w, checks):
    repo, ver = f"{A.work}/w{w}/repo", f"{A.work}/w{w}/verif"
    for pid, chk in checks:
        scr = f"{A.work}/w{w}/tmp"
        sh(DROP + ["find", scr, "-mindepth", "1", "-delete"], 60)
        env = dict(ENV, PYTHONPATH=repo + ":" + ver, PBT_REPO=repo, PBT_SCRATCH=scr, TMPDIR=scr, HOME=scr)
        rc, o = sh(DROP + ["/opt/venv/bin/python", "-m", "pbt.runner", "--property", pid, "--check", chk, "--scale", str(A.scale), "--jobs", "1"], 240, cwd=ver, env=env)
        if rc != 0:
            return pid + "." + chk + ("" if rc == 1 else f"({rc})")
    return None


def run_tests(w):
    repo = f"{A.work}/w{w}/repo"
    scr = f"{A.work}/w{w}/tmp"
    env = dict(ENV, TMPDIR=scr, HOME=scr, PYTHONPATH=repo)
    rc, o = sh(DROP + ["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=120", "--basetemp=" + scr + "/t", "--randomly-seed=12345", "--randomly-dont-reorganize", "-rfE", "tests"], 300, cwd=repo, env=env)
    return {l.split()[1] for l in o.splitlines() if l.startswith(("FAILED", "ERROR"))}, o


def main():
    todo = queue.Queue()
    srcs = {}
    muts = []
    for rel in A.files:
        src = open("/repo/" + rel, newline="").read()
        srcs[rel] = src
        cm = covmap(rel)
        lines = src.split("\n")
        unc = 0
        for m in (name_mutants if A.ops == "names" else mutants)(ast.parse(src)):
            if A.only_line:
                a, b = map(int, A.only_line.split("-"))
                if not a <= m[0] <= b:
                    continue
            ch = cm.get(m[0])
            if not ch:
                # multi-line statements: look at the neighbours
                for dl in (1, -1, 2, -2, 3, -3):
                    ch = cm.get(m[0] + dl)
                    if ch:
                        break
            if not ch:
                unc += 1
                continue
            try:
                new = apply(src, m)
                warnings.simplefilter("ignore"); compile(new, "x", "exec")
            except Exception as e:
                continue
            if new == ast.unparse(ast.parse(src)):
                continue
            muts.append((rel, m, ch))
        print(rel, "mutants", len(muts), "on lines no check executes", unc, flush=True)
    if A.sample and len(muts) > A.sample:
        random.Random(1).shuffle(muts)
        muts = muts[:A.sample]
    if A.list:
        for rel, m, ch in muts:
            print(rel, m[0], m[1], len(ch))
        return
    for m in muts:
        todo.put(m)
    lock = threading.Lock()
    res = []

    def work(w):
        base = f"{A.work}/w{w}"
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base + "/tmp")
        shutil.copytree("/repo", base + "/repo", symlinks=True, ignore=shutil.ignore_patterns(".git"))
        shutil.copytree("/verif", base + "/verif", symlinks=True, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
        subprocess.run(["chown", "-R", "65534:65534", base], check=True)
        ref, _ = run_tests(w)
        while True:
            try:
                rel, m, ch = todo.get_nowait()
            except queue.Empty:
                break
            path = f"{base}/repo/{rel}"
            with open(path, "w", newline="") as f:
                f.write(apply(srcs[rel], m))
            t = time.time()
            by = run_checks(w, ch)
            r = {"file": rel, "line": m[0], "what": m[1], "text": srcs[rel].split("\n")[m[0] - 1].strip(), "by": by, "checks": ["%s.%s" % c for c in ch], "s": round(time.time() - t, 1)}
            if by is None:
                bad, o = run_tests(w)
                r["tests"] = sorted(bad - ref)
            with open(path, "w", newline="") as f:
                f.write(srcs[rel])
            with lock:
                res.append(r)
                with open(A.out, "a") as f:
                    f.write(json.dumps(r) + "\n")
                if by is None:
                    print("SURVIVES", rel.split("/")[-1], m[0], m[1], "|", r["text"][:110], "| tests" if r["tests"] else "", flush=True)
        shutil.rmtree(base, ignore_errors=True)

    ts = [threading.Thread(target=work, args=(w,)) for w in range(A.j)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    k = sum(1 for r in res if r["by"])
    print("killed", k, "of", len(res), "survivors also unseen by tests", sum(1 for r in res if not r["by"] and not r["tests"]))


main()
