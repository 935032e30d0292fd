"""C27: results of the external reference program, driven with a deterministic stand-in for it on PATH."""
import contextlib
import hashlib
import io
import json
import os
import sys
from ..core import Check, ensure, register, scratch, st, must_fail
from .. import gens
import numpy as np

JULIA = r'''#!%s -SE
import hashlib, json, os, sys
F = os.environ["FAKE_JULIA"]
a = sys.argv[1:]
if a[0] == "-v":
    print("julia version 1.0.0"); sys.exit(0)
if a[0] == "-e":
    sys.stdout.write(os.path.join(F, "VibronicToolkit", "src", "VibronicToolkit.jl")); sys.exit(0)
script = os.path.basename(a[0])
opt, flags, i = {}, [], 1
while i < len(a):
    if a[i] == "--uncoupled":
        flags.append(a[i]); i += 1
    else:
        opt[a[i]] = a[i + 1]; i += 2
with open(os.path.join(F, "calls"), "a") as f:
    f.write(json.dumps([a[0], opt, flags]) + "\n")
conf = open(opt["--conf"], "rb").read()
if script == "iterative_decomposition.jl":
    for k in ("--out-conf", "--out-vs"):
        open(opt[k], "w").write(k + opt["--max-iter"] + hashlib.md5(conf).hexdigest())
    sys.exit(0)
base = {"sos.jl": "sos", "trotter.jl": "trotter", "analytical.jl": "analytical"}[script]
ident = json.dumps([script, hashlib.md5(conf).hexdigest(), float(opt["--beta"]), opt.get("--basis-size"), opt.get("--num-links"), flags])
kind = open(os.path.join(F, "fail")).read().strip()
out = ["beta: " + repr(float(opt["--beta"]))]
for q in ("Z", "E", "Cv", "SvN", "S2"):
    v = int(hashlib.md5((q + ident).encode()).hexdigest()[:12], 16) / 1e6
    out.append(q + "_" + base + ": " + repr(v))
out.append("Unrelated: 3.5")
if kind == "empty":
    out = []
if kind == "garbage":
    out.insert(2, "WARNING something happened")
if kind == "nofloat":
    out[2] = out[2].split(":")[0] + ": NotANumber!"
if kind in ("killed", "partial", "signal"):
    out = out[:3]
if kind == "blank":
    out = ["", *out, "", ""]
sys.stdout.write("\n".join(out) + ("\n" if out else ""))
if kind == "killed":
    sys.stderr.write("Killed\n"); sys.exit(137)
if kind == "signal":
    sys.stdout.flush(); os.kill(os.getpid(), 9)
if kind in ("partial", "crash"):
    sys.stderr.write("ERROR: LoadError: something\n"); sys.exit(1)
if kind == "warning":
    sys.stderr.write("WARNING: deprecated syntax\n")
'''
BAD = ["killed", "signal", "empty", "partial", "crash", "garbage", "nofloat"]
TEMPS = [300.0, 250.0, 300.01, 77.25, 1000.0, 10.5, 298.15]


def values(script, conf, T, B=None, P=None, flags=()):
    from pibronic import constants
    beta = 1.0 / (T * float(constants.boltzman))
    base = script.split(".")[0]
    ident = json.dumps([script, hashlib.md5(conf).hexdigest(), float(beta), B if B is None else str(B), P if P is None else str(P), list(flags)])
    new = "rho" if base == "analytical" else base
    out = {q + "_" + new: int(hashlib.md5((q + "_" + ident if False else q + ident).encode()).hexdigest()[:12], 16) / 1e6 for q in ("Z", "E", "Cv", "SvN", "S2")}
    out["beta"] = float(beta)
    return out


OP = st.one_of(
    st.tuples(st.just("run"), st.sampled_from(["sos", "sos", "trotter", "trotter", "rho", "orig"]), st.integers(0, len(TEMPS) - 1), st.sampled_from([2, 10, 80]), st.sampled_from([3, 12, 120]), st.one_of(st.sampled_from(["", "", "", "blank", "warning"]), st.sampled_from(BAD))),
    st.tuples(st.just("run"), st.sampled_from(["sos", "trotter", "rho", "orig"]), st.integers(0, 2), st.just(2), st.just(3), st.just("")),
    st.tuples(st.just("vib"), st.integers(0, 3)),
    st.tuples(st.just("rho"), st.integers(0, 3)),
    st.tuples(st.just("use"), st.integers(0, 2)),
    st.tuples(st.just("blankfile"), st.sampled_from(["sos", "rho", "orig"])),
    st.tuples(st.just("nohash"), st.sampled_from(["sos", "rho", "orig"])),
    st.tuples(st.just("rewrite"), st.integers(0, 9), st.integers(0, 1)),
    st.tuples(st.just("iterate"), st.integers(1, 60)),
)


@st.composite
def case_strategy(draw):
    ops = [list(x) for x in draw(st.lists(OP, min_size=2, max_size=10))]
    for _ in range(draw(st.integers(0, 2))):
        # one calculation before and after a change of one of the models (or of both, or of none)
        run = ["run", draw(st.sampled_from(["sos", "trotter", "rho", "rho", "orig"]))]
        B, P = draw(st.sampled_from([2, 10, 80])), draw(st.sampled_from([3, 12, 120]))
        temps = st.integers(0, len(TEMPS) - 1)
        ops.append(run + [draw(temps), B, P, ""])
        ops += [[w, draw(st.integers(0, 3))] for w in draw(st.sampled_from([["rho"], ["vib"], ["rho", "vib"], []]))]
        if draw(st.booleans()):
            ops.append(run + [draw(temps), B, P, draw(st.sampled_from(BAD))])
        ops.append(run + [draw(temps), B, P, ""])
    return {"D": draw(st.integers(0, 20)), "ops": ops, "main": draw(st.booleans())}


def model(path, k, diag, D):
    E = np.arange(2) * 0.1 + 0.001 * k + 0.01 * D
    gens.write_json_model(path, {"N": 1, "A": 2, "w": np.full(1, 0.1), "E": E if diag else np.diag(E)})


def f_history(case):
    from pibronic import julia_wrapper as jw, constants
    from pibronic.data import file_structure
    with scratch() as d:
        F = os.path.join(d, "fake")
        os.makedirs(os.path.join(F, "bin"))
        os.makedirs(os.path.join(F, "VibronicToolkit", "src"))
        p = os.path.join(F, "bin", "julia")
        with open(p, "w") as f:
            f.write(JULIA % sys.executable)
        os.chmod(p, 0o755)
        old = dict(os.environ)
        os.environ["PATH"] = os.path.join(F, "bin") + os.pathsep + old["PATH"]
        os.environ["FAKE_JULIA"] = F
        try:
            return history(case, d, F, jw, constants, file_structure)
        finally:
            os.environ.clear()
            os.environ.update(old)


def read(path):
    with open(path, "rb") as f:
        return f.read()


def history(case, d, F, jw, constants, file_structure):
    root = os.path.join(d, "data")
    os.makedirs(root)
    D = case["D"]
    rho = 0
    kvib, krho = 0, {}
    fss = {r: file_structure.FileStructure(root, D, r) for r in range(3)}
    model(fss[0].path_vib_model, 0, False, D)
    with open(fss[0].path_orig_model, "wb") as f:
        f.write(read(fss[0].path_vib_model) + b" ")
    for r in range(3):
        model(fss[r].path_rho_model, 7 * r, True, D)
        krho[r] = 0
    expect = {}     # destination -> {"hash": ..., temperatures}
    n = 0
    ncalls = 0
    for op in case["ops"]:
        fs = file_structure.FileStructure(root, D, rho)
        fs.generate_model_hashes(force_flag=True)
        dst = {"sos": None, "rho": fs.path_analytic_rho, "orig": fs.path_analytic_orig}
        if op[0] == "vib":
            model(fs.path_vib_model, op[1], False, D)
            kvib = op[1]
            continue
        if op[0] == "rho":
            model(fs.path_rho_model, 7 * rho + op[1], True, D)
            continue
        if op[0] == "use":
            rho = op[1]
            continue
        if op[0] in ("blankfile", "nohash"):
            path = fs.template_sos_vib.format(B=2) if op[1] == "sos" else dst[op[1]]
            if os.path.exists(path):
                if op[0] == "blankfile":
                    open(path, "w").close()
                    expect[path] = None
                else:
                    data = json.loads(read(path) or b"{}")
                    data.pop("hash_vib", None)
                    with open(path, "w") as f:
                        json.dump(data, f)
                    expect[path] = None if not data else ("foreign", data)
            continue
        if op[0] == "rewrite":
            # the same contents in another order or layout
            paths = sorted(p for p, v in expect.items() if v is not None and os.path.exists(p))
            if paths:
                path = paths[op[1] % len(paths)]
                data = json.loads(read(path))
                with open(path, "w") as f:
                    json.dump(dict(sorted(data.items())), f, indent=None if op[2] else 2)
            continue
        if op[0] == "iterate":
            with open(os.path.join(F, "fail"), "w") as f:
                f.write("")
            steps = str(op[1])
            if case["main"]:
                with contextlib.redirect_stdout(io.StringIO()):
                    jw.main(path=root, id_data=D, id_rho=rho, **({"method": "iterate"} if op[1] % 2 else {}))
                steps = "50"
            else:
                jw.iterate_method(fs, op[1])
            for path, key in ((fs.path_iter_model, "--out-conf"), (fs.path_iter_mat, "--out-vs")):
                want = key + steps + hashlib.md5(read(fs.path_vib_model)).hexdigest()
                ensure(os.path.exists(path) and read(path).decode() == want, f"iterative model: {path} does not hold the result for the current model")
            continue
        _, what, t, B, P, kind = op
        T = TEMPS[t]
        beta = constants.beta(T)
        with open(os.path.join(F, "fail"), "w") as f:
            f.write(kind)
        conf = {"sos": fs.path_vib_model, "trotter": fs.path_vib_model, "rho": fs.path_rho_model, "orig": fs.path_orig_model}[what]
        path = {"sos": fs.template_sos_vib.format(B=B), "trotter": fs.template_trotter_vib.format(P=P, B=B), "rho": fs.path_analytic_rho, "orig": fs.path_analytic_orig}[what]
        call = {"sos": lambda: jw.sos_of_coupled_model(fs, B, beta), "trotter": lambda: jw.trotter_of_coupled_model(fs, P, B, beta), "rho": lambda: jw.analytic_of_sampling_model(fs, beta), "orig": lambda: jw.analytic_of_original_coupled_model(fs, beta)}[what]
        if case["main"]:
            name = {"sos": "sos", "trotter": "trotter_coupled", "rho": "analytical_sampling", "orig": "analytical_original"}[what]
            call = lambda: jw.main(path=root, id_data=D, id_rho=rho, temperature=T, beads=P, basis_size=B, method=name)
        before = {x: read(x) for x in files(root)}
        with contextlib.redirect_stdout(io.StringIO()):
            if kind in BAD:
                must_fail(call, f"calculation that failed ({kind})")
            else:
                call()
        n += 1
        after = {x: read(x) for x in files(root)}
        diff = {x for x in set(before) | set(after) if before.get(x) != after.get(x)}
        if kind in BAD:
            ensure(not diff, f"failed calculation ({kind}) changed {diff}")
            continue
        ensure(diff <= {path}, f"calculation {op} changed {diff - {path}}")
        hashes = {"hash_vib": fs.hash_vib}
        if what == "rho":
            hashes["hash_rho"] = fs.hash_rho
        e = expect.get(path)
        if e is None or e[0] == "foreign" or e[0] != hashes:
            e = (hashes, {})
        args = {"sos": ("sos.jl", read(conf), T, B), "trotter": ("trotter.jl", read(conf), T, B, P), "rho": ("analytical.jl", read(conf), T), "orig": ("analytical.jl", read(conf), T, None, None, ["--uncoupled"])}[what]
        e[1][f"{T:.2f}"] = values(*args)
        expect[path] = e
        got = json.loads(after[path])
        want = dict(hashes, **e[1])
        ensure(set(got) == set(want), f"{os.path.basename(path)} after {op} holds {sorted(got)} instead of {sorted(want)}")
        for k in want:
            if isinstance(want[k], dict):
                ensure(set(got[k]) == set(want[k]) and all(abs(got[k][q] - want[k][q]) <= 1e-9 * abs(want[k][q]) for q in want[k]), f"{os.path.basename(path)} at {k} after {op}: {got[k]} instead of {want[k]}")
            else:
                ensure(got[k] == want[k], f"{k} of {os.path.basename(path)}: {got[k]} instead of {want[k]}")
    return {"calculations": n}


def files(root):
    return [os.path.join(b, x) for b, _, xs in os.walk(root) for x in xs]


@st.composite
def parse_case(draw):
    names = draw(st.lists(st.sampled_from(["Z_sos", "E_sos", "Z_analytical", "E_analytical", "beta", "tau", "Cv_trotter", "Other", "S2_exact"]), unique=True, max_size=8))
    return {"pairs": [[n, draw(st.floats(allow_nan=False, allow_infinity=False))] for n in names], "blank": draw(st.lists(st.integers(0, 8), max_size=3)), "T": draw(st.integers(1, 10**6)), "old": draw(st.lists(st.integers(1, 10**6), max_size=4, unique=True)), "space": draw(st.sampled_from(["", " ", "   "]))}


def f_parse(case):
    from pibronic import julia_wrapper as jw, constants
    lines = [f"{n}:{case['space']}{v!r}" for n, v in case["pairs"]]
    for b in case["blank"]:
        lines.insert(min(b, len(lines)), "")
    out = jw.parse_ouput(("\n".join(lines) + "\n").encode())
    want = {n: v for n, v in case["pairs"]}
    ensure({k: float(v) for k, v in out.items()} == want, f"parsed {out} from {lines}")
    T = case["T"] / 100
    old = {f"{t / 100:.2f}": {"Z_sos": float(t)} for t in case["old"]}
    keep = {k: dict(v) for k, v in old.items()}
    jw.convert_keys(old, out, constants.beta(T))
    rename = {"Z_analytical": "Z_rho", "E_analytical": "E_rho"}
    keep[f"{T:.2f}"] = {rename.get(n, n): v for n, v in want.items() if n != "Other"}
    ensure(old == keep, f"merged into {old} instead of {keep}")


register("C27", [
    Check("history", case_strategy(), f_history, 90, 2000, lambda c: sum(o[0] == "run" for o in c["ops"]) > 1, "histories of reference calculations (four methods, temperatures, basis sizes, links), failing calculations of seven kinds, changes of either model, switches of the sampling model, emptied, rearranged or foreign result files, directly or through main(); non-trivial: at least two calculations", replicas=7),
    Check("parsing", parse_case(), f_parse, 500, 10000, lambda c: len(c["pairs"]) > 1 and bool(c["old"]), "outputs with any names and finite values, blank lines, merged into earlier temperatures; non-trivial: several values and an earlier temperature", replicas=1),
], ["roots without shell characters; temperatures with at most two decimals (the key of the stored results)", "the external program is replaced by a deterministic stand-in whose results depend on every argument and on the model file"])
