"""C30: the data which the plots show."""
import contextlib
import json
import os
import re
import numpy as np
from ..core import Check, ensure, same, close, register, scratch, st
from .. import gens

KEYS = ["Z", "Z error", "E", "E error", "Cv", "Cv error", "jk_E", "jk_E error", "jk_Cv", "jk_Cv error"]
TRO = ["Z_trotter", "E_trotter", "SvN_trotter", "S2_trotter"]


@st.composite
def plot_case(draw, n_fs, shared=False):
    Ps = draw(st.lists(st.one_of(st.sampled_from([3, 4, 12, 13, 30, 130, 300]), st.integers(1, 400)), min_size=1, max_size=4, unique=True))
    Ts = draw(st.lists(st.sampled_from([300.0, 30.0, 300.05, 10.5, 130.0, 1000.0]), min_size=1, max_size=3, unique=True))
    Xs = draw(st.lists(st.sampled_from([10, 100, 1000, 10000, 20, 110]), min_size=1, max_size=3, unique=True))
    R = draw(st.lists(st.integers(0, 4), min_size=n_fs, max_size=n_fs, unique=True))
    ids = st.one_of(st.integers(0, 9), st.sampled_from([10, 11, 99, 100, 101, 250]))
    D = [draw(ids)] * n_fs if shared else [draw(ids) for _ in range(n_fs)]
    files = []
    for _ in range(draw(st.integers(1, 9))):
        files.append({"fs": draw(st.integers(0, n_fs - 1)), "P": draw(st.sampled_from(Ps)), "T": draw(st.sampled_from(Ts)), "X": draw(st.sampled_from(Xs)),
                      "keys": draw(st.sampled_from(["basic", "basic", "jack"])), "state": draw(st.sampled_from(["ok", "ok", "ok", "ok", "vib", "rho", "nohash"]))})
    return {"R": R, "D": D, "files": files, "seed": draw(gens.seeds()), "extraT": draw(st.booleans()),
            "sos": [draw(st.booleans()) for _ in range(n_fs)], "B": draw(st.sampled_from([80, 80, 8, 800])),
            "trotter": draw(st.lists(st.sampled_from(Ps), max_size=4, unique=True)), "drop": draw(st.sampled_from([None, None] + TRO))}


def write(path, d):
    with open(path, "w") as f:
        json.dump(d, f)


def setup(d, case):
    """writes models, results and reference files; returns the FileStructures and per FileStructure {(P, T, X): values}"""
    from pibronic.data import file_structure
    rng = np.random.default_rng(case["seed"])
    fss, cells = [], []
    for i, (R, D) in enumerate(zip(case["R"], case["D"])):
        fs = file_structure.FileStructure(d, D, R)
        gens.write_json_model(fs.path_vib_model, {"N": 1, "A": 2, "w": [0.1], "E": [[0.1 + D, 0.0], [0.0, 0.3]]})
        gens.write_json_model(fs.path_rho_model, {"N": 1, "A": 2, "w": [0.1], "E": [0.1 + R, 0.2]})
        fs.generate_model_hashes()
        fss.append(fs)
        cells.append({})
    for f in case["files"]:
        fs = fss[f["fs"]]
        k = (f["P"], f["T"], f["X"])
        if k in cells[f["fs"]]:
            continue
        vals = {n: float(rng.uniform(0 if n.endswith("error") else -3, 3)) for n in KEYS if f["keys"] == "jack" or not n.startswith("jk")}
        out = dict(vals, hash_vib=fs.hash_vib, hash_rho=fs.hash_rho)
        if f["state"] == "vib":
            out["hash_vib"] = "0" * len(fs.hash_vib)
        elif f["state"] == "rho":
            out["hash_rho"] = "1" * len(fs.hash_rho)
        elif f["state"] == "nohash":
            del out["hash_vib"]
        p = fs.template_jackknife.format(P=f["P"], T=f["T"], X=f["X"])
        if os.path.exists(p):
            continue
        write(p, out)
        if f["state"] == "ok":
            cells[f["fs"]][k] = vals
    return fss, cells, rng


def axes_of(cell):
    return [sorted({k[j] for k in cell}) for j in range(3)]


def expected_array(cell):
    P, T, X = axes_of(cell)
    out = {n: np.full((len(P), len(T), len(X)), np.nan) for n in KEYS}
    for (p, t, x), vals in cell.items():
        for n, v in vals.items():
            out[n][P.index(p), T.index(t), X.index(x)] = v
    return out


def references(d, case, fss, cells, rng):
    """the exact results of the original and the sampling model, for at least every temperature with results"""
    orig, rho = [], []
    for i, fs in enumerate(fss):
        Ts = {k[1] for c in cells for k in c} | ({77.0} if case["extraT"] else set())
        ro = {f"{T:.2f}": {"Z_sampling": float(rng.uniform(0.5, 3)), "E_sampling": float(rng.uniform(-1, 1)), "Cv_sampling": 0.1, "Z_sampling+beta": 1.0, "Z_sampling-beta": 1.1} for T in sorted(Ts)}
        write(fs.path_analytic_rho, dict(ro, hash_vib=fs.hash_vib, hash_rho=fs.hash_rho))
        rho.append(ro)
        if os.path.exists(fs.path_analytic_orig):
            orig.append(json.load(open(fs.path_analytic_orig)))
            continue
        og = {f"{T:.2f}": {"Z_coupled": float(rng.uniform(0.5, 3)), "E_coupled": 0.3, "Cv_coupled": 0.1} for T in sorted(Ts)}
        write(fs.path_analytic_orig, dict(og, hash_vib=fs.hash_vib))
        orig.append(og)
    return orig, rho


def check_array(arr, cell, zfac, what):
    """zfac: function of (T) -> (scale, exact) or None"""
    P, T, X = axes_of(cell)
    want = expected_array(cell)
    same(arr.shape, (len(P), len(T), len(X)), what + " dimensions (beads, temperatures, samples)")
    for n in KEYS:
        w = want[n].copy()
        if zfac is not None and n in ("Z", "Z error"):
            for j, t in enumerate(T):
                z, exact = zfac(t)
                w[:, j, :] *= z
                if exact is not None:
                    w[:, j, :] = 100.0 * (w[:, j, :] - (exact if n == "Z" else 0.0)) / exact
        a = np.array(arr[n], dtype=float)
        same(np.isnan(a), np.isnan(w), f"{what} {n}: cells without a result for beads {P} temperatures {T} samples {X}")
        close(np.nan_to_num(a), np.nan_to_num(w), f"{what} {n} for beads {P} temperatures {T} samples {X}", rtol=1e-10, atol=1e-9)


@contextlib.contextmanager
def recording():
    """figures are recorded instead of written; LaTeX is not used"""
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib.figure import Figure
    from pibronic.plotting import plotting as pl, grid_plots as gp, prepare
    saved, old, olds = [], Figure.savefig, []

    def savefig(self, path, *a, **k):
        saved.append((os.path.normpath(str(path)), describe(self)))
    Figure.savefig = savefig
    for m in (pl, gp, prepare):
        for n in ("prepare_mpl_rc_file", "load_latex_module_on_server"):
            if hasattr(m, n):
                olds.append((m, n, getattr(m, n)))
                setattr(m, n, lambda *a, **k: None)
    try:
        yield saved
    finally:
        Figure.savefig = old
        for m, n, f in olds:
            setattr(m, n, f)
        import matplotlib.pyplot as plt
        plt.close("all")


def describe(fig):
    """every error bar curve and image of the figure, one list per axes, insets last"""
    from matplotlib.container import ErrorbarContainer
    out = []
    insets = [c for ax in fig.axes for c in ax.child_axes]
    panels = [ax for ax in fig.axes if ax not in insets and not str(ax.get_label()).startswith("inset")]
    insets += [ax for ax in fig.axes if ax not in insets and ax not in panels]
    title = fig._suptitle.get_text() if fig._suptitle is not None else ""
    for ax in panels + insets:
        curves = []
        for c in ax.containers:
            if isinstance(c, ErrorbarContainer):
                line, _, bars = c
                x, y = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
                err = np.full(len(x), np.nan)
                if bars:
                    segs = bars[0].get_segments()
                    for k, s in enumerate(segs):
                        if len(s) == 2:
                            err[k] = (s[1][1] - s[0][1]) / 2
                curves.append((x, y, err, str(c.get_label())))
        out.append({"inset": ax in insets, "title": title, "curves": curves, "images": [np.ma.filled(im.get_array().astype(float), np.nan) for im in ax.images], "texts": {tuple(float(z) for z in t.get_position()): t.get_text() for t in ax.texts},
                    "lines": [(np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)) for ln in ax.lines]})
    return out


def check_curve(curve, x, y, err, what):
    order = np.argsort(curve[0])
    want = np.argsort(x)
    close(curve[0][order], np.asarray(x)[want], what + " abscissa (tau)", rtol=1e-10)
    for got, exp, n in ((curve[1], y, "value"), (curve[2], err, "error bar")):
        got, exp = got[order], np.asarray(exp)[want]
        ok = ~np.isnan(np.asarray(y)[want])
        if n == "value":
            same(np.isnan(got), ~ok, what + ": points without a result")
        close(np.abs(got[ok]) if n == "error bar" else got[ok], np.abs(exp[ok]) if n == "error bar" else exp[ok], f"{what} {n}", rtol=1e-9, atol=1e-9)


def taus(P, T):
    from pibronic import constants
    return np.array([1.0 / (float(constants.boltzman) * T) / p for p in P])


def f_single(case):
    """one sampling model: loaded results, comparison with the exact results and the curves which are drawn"""
    from pibronic.plotting import plotting as pl
    with scratch() as d, recording() as saved:
        fss, cells, rng = setup(d, case)
        orig, rho = references(d, case, fss, cells, rng)
        fs, cell = fss[0], cells[0]
        if not cell:
            obj = pl.plot_Z_test(fs)
            obj.load_data()
            same(np.size(obj.arr), 0, "loaded results although none belong to the current models")
            return {"cells": 0}
        P, T, X = axes_of(cell)
        w = expected_array(cell)
        obj = pl.plot_Z_test(fs)
        obj.load_data()
        check_array(obj.arr, cell, None, "loaded results")
        for fn, names in ((obj.plot_Z, ("Z", "Z error")), (obj.plot_E, ("E", "E error")), (obj.plot_Cv, ("Cv", "Cv error"))):
            del saved[:]
            fn()
            ensure(len(saved) == 1 and saved[0][0].startswith(os.path.normpath(fs.path_rho_plots) + os.sep), f"figure of {names[0]} is written to {[s[0] for s in saved]}")
            curves = panel_curves(saved)
            expect_curves(curves, [(taus(P, t), w[names[0]][:, j, k], w[names[1]][:, j, k], t, x) for j, t in enumerate(T) for k, x in enumerate(X)], names[0])
        obj = pl.plot_original_Z_test(fs)
        obj.load_data()
        zf = lambda t: (rho[0][f"{t:.2f}"]["Z_sampling"], orig[0][f"{t:.2f}"]["Z_coupled"])  # noqa: E731
        check_array(obj.arr, cell, zf, "percent difference")
        for t in T:
            close(obj.generate_tau_values(t), taus(P, t), "tau values", rtol=1e-10)
        del saved[:]
        obj.plot_Z()
        ensure(len(saved) == 1, "no figure of the percent difference")
        curves = panel_curves(saved)
        exp = []
        for j, t in enumerate(T):
            z, ex = zf(t)
            for k, x in enumerate(X):
                exp.append((taus(P, t), 100 * (w["Z"][:, j, k] * z - ex) / ex, 100 * w["Z error"][:, j, k] * z / ex, t, x))
        expect_curves(curves, exp, "percent difference")
    return {"cells": len(cell)}


def panel_curves(saved):
    return [c for ax in saved[0][1] if not ax["inset"] for c in ax["curves"]]


def check_inset(saved, exp, what):
    """an inset, if there is one, repeats points of the first panel (the lowest temperature)"""
    insets = [ax for ax in saved[0][1] if ax["inset"]]
    first = min(e[3] for e in exp)
    for ax in insets:
        mine = [e for e in exp if e[3] == first]
        ensure(len(ax["curves"]) == len(mine), f"{what}: the inset has {len(ax['curves'])} curves, the first panel {len(mine)}")
        left = list(range(len(mine)))
        for x, y, err, label in ax["curves"]:
            ensure(len(x), f"{what}: an empty curve in the inset")
            for i in left:
                ex, ey, ee = (np.asarray(v) for v in mine[i][:3])
                at = [int(np.argmin(np.abs(ex - v))) for v in x]
                if np.allclose(ex[at], x, rtol=1e-10) and np.allclose(ey[at], y, rtol=1e-9, atol=1e-9, equal_nan=True) and all(np.isnan(ey[k]) or np.isclose(abs(e), abs(ee[k]), rtol=1e-9, atol=1e-9) for k, e in zip(at, err)):
                    left.remove(i)
                    break
            else:
                ensure(False, f"{what}: the inset shows {y.tolist()} +- {err.tolist()} at tau {x.tolist()}, not the results at {first} K")


def expect_curves(curves, exp, what):
    """the curves are the expected ones, in any order"""
    ensure(len(curves) == len(exp), f"{what}: {len(curves)} curves for {[(e[3], e[4]) for e in exp]} (temperature, samples)")
    left = list(range(len(curves)))
    for x, y, err, t, n in exp:
        hit = [i for i in left if len(curves[i][0]) == len(x) and np.allclose(np.sort(curves[i][0]), np.sort(x), rtol=1e-10) and matches(curves[i], x, y)]
        if not hit:
            # the closest curve explains what differs
            cand = [i for i in left if len(curves[i][0]) == len(x)] or left
            check_curve(curves[cand[0]], x, y, err, f"{what} at T={t} X={n}")
            hit = cand[:1]
        named = [i for i in hit if f"{n:.1E}" in curves[i][3] and ("T=" not in curves[i][3] or f"T={t:.2f}" in curves[i][3])]
        ensure(named, f"{what} at T={t} X={n} is labelled {[curves[i][3] for i in hit]}")
        check_curve(curves[named[0]], x, y, err, f"{what} at T={t} X={n}")
        left.remove(named[0])


def matches(c, x, y):
    a, b = c[1][np.argsort(c[0])], np.asarray(y)[np.argsort(x)]
    return np.array_equal(np.isnan(a), np.isnan(b)) and np.allclose(np.nan_to_num(a), np.nan_to_num(b), rtol=1e-9, atol=1e-9)


def f_pair(case):
    """two sampling models: each keeps its own results and references"""
    from pibronic.plotting import plotting as pl
    with scratch() as d, recording() as saved:
        fss, cells, rng = setup(d, case)
        orig, rho = references(d, case, fss, cells, rng)
        if not any(cells):
            try:
                pl.plot_original_Z_vs_diagonal_test(fss)
            except Exception:
                return {"cells": 0}
            ensure(False, "a plot of no results was accepted")
        obj = pl.plot_original_Z_vs_diagonal_test(fss)
        obj.load_pimc_data()
        for i, c in enumerate(cells):
            check_array(obj.arr[i], c, None, f"loaded results of FileStructure {i}")
        obj = pl.plot_original_Z_vs_diagonal_test(fss)
        obj.load_data()
        zf = lambda i, t: (rho[i][f"{t:.2f}"]["Z_sampling"], orig[i][f"{t:.2f}"]["Z_coupled"])  # noqa: E731
        for i, c in enumerate(cells):
            check_array(obj.arr[i], c, lambda t: zf(i, t), f"percent difference of FileStructure {i}")
            for t in axes_of(c)[1]:
                close(obj.generate_tau_values(t, i), taus(axes_of(c)[0], t), "tau values", rtol=1e-10)
        obj.plot_Z()
        ensure(len(saved) == 1, "no figure")
        curves = panel_curves(saved)
        exp = []
        for i, c in enumerate(cells):
            P, T, X = axes_of(c)
            w = expected_array(c)
            for j, t in enumerate(T):
                z, ex = zf(i, t)
                exp.append((taus(P, t), 100 * (w["Z"][:, j, -1] * z - ex) / ex, 100 * w["Z error"][:, j, -1] * z / ex, t, X[-1]))
        expect_curves(curves, exp, "percent difference")
        check_inset(saved, exp, "percent difference")
    return {"cells": sum(len(c) for c in cells)}


def f_sos(case):
    """two sampling models compared with the sum over states of the coupled model"""
    from pibronic.plotting import plotting as pl
    with scratch() as d, recording() as saved:
        for f in case["files"]:
            f["X"] = 10000 if case["tenk"] else f["X"]      # this comparison draws the results of 10000 samples
        fss, cells, rng = setup(d, case)
        orig, rho = references(d, case, fss, cells, rng)
        if not any(cells):
            return {"cells": 0}
        sos = {f"{t:.2f}": {"Z_sos": float(rng.uniform(1, 3)), "E_sos": 0.5} for t in sorted({k[1] for c in cells for k in c})}
        write(fss[0].template_sos_vib.format(B=80), dict(sos, hash_vib=fss[0].hash_vib))
        write(fss[0].template_sos_vib.format(B=8), dict({t: {"Z_sos": 7.0, "E_sos": 0.5} for t in sos}, hash_vib=fss[0].hash_vib))
        obj = pl.plot_sos_Z_vs_rho_n(fss)
        obj.load_data()
        zf = lambda i, t: (rho[i][f"{t:.2f}"]["Z_sampling"], sos[f"{t:.2f}"]["Z_sos"])  # noqa: E731
        for i, c in enumerate(cells):
            check_array(obj.arr[i], c, lambda t: zf(i, t), f"percent difference of FileStructure {i}")
        if case["tenk"]:
            obj.plot_Z()
            ensure(len(saved) == 1, "no figure")
            curves = panel_curves(saved)
            exp = []
            for i, c in enumerate(cells):
                P, T, X = axes_of(c)
                w = expected_array(c)
                for j, t in enumerate(T):
                    z, ex = zf(i, t)
                    exp.append((taus(P, t), 100 * (w["Z"][:, j, 0] * z - ex) / ex, 100 * w["Z error"][:, j, 0] * z / ex, t, 10000))
            expect_curves(curves, exp, "percent difference")
            check_inset(saved, exp, "percent difference")
    return {"cells": sum(len(c) for c in cells)}


def f_reference(case):
    """sum over states and Trotter references are those of the FileStructure's own data set, bead by bead"""
    from pibronic.plotting import plotting as pl
    with scratch() as d:
        fss, cells, rng = setup(d, case)
        orig, rho = references(d, case, fss, cells, rng)
        if not any(cells):
            return {"cells": 0}
        obj = pl.plot_Z_multiple_FS(fss)
        pl.load_analytical_original(obj)
        pl.load_analytical_sampling(obj)
        sos, tro = {}, {}
        for i, fs in enumerate(fss):
            Ts = axes_of(cells[i])[1]
            for t in Ts:
                same(json.dumps(obj.analytical_orig_list[i][f"{t:.2f}"], sort_keys=True), json.dumps(orig[i][f"{t:.2f}"], sort_keys=True), f"exact results of the original model of FileStructure {i} at {t}")
                same(json.dumps(obj.analytical_rho_list[i][f"{t:.2f}"], sort_keys=True), json.dumps(rho[i][f"{t:.2f}"], sort_keys=True), f"exact results of the sampling model of FileStructure {i} at {t}")
            allT = sorted({k[1] for c in cells for k in c})
            for B in {case["B"], 80, 8}:
                if case["sos"][i] and not os.path.exists(fs.template_sos_vib.format(B=B)):
                    v = {f"{t:.2f}": {"Z_sos": float(rng.uniform(1, 3)), "E_sos": float(rng.uniform(-1, 1))} for t in allT}
                    write(fs.template_sos_vib.format(B=B), dict(v, hash_vib=fs.hash_vib))
            for P in case["trotter"]:
                for B in {case["B"], 80, 8}:
                    p = fs.template_trotter_vib.format(P=P, B=B)
                    if case["sos"][i] and not os.path.exists(p):
                        v = {f"{t:.2f}": {k: float(rng.uniform(1, 3)) for k in TRO if k != case["drop"]} for t in allT if rng.uniform() < 0.7}
                        write(p, dict(v, hash_vib=fs.hash_vib))
        for i, fs in enumerate(fss):
            p = fs.template_sos_vib.format(B=case["B"])
            if os.path.exists(p):
                sos[i, case["B"]] = json.load(open(p))
            for P in axes_of(cells[i])[0]:
                p = fs.template_trotter_vib.format(P=P, B=case["B"])
                if os.path.exists(p):
                    tro[i, P] = json.load(open(p))
        pl.load_trotter_coupled(obj, basis_size=case["B"])
        for i in range(len(fss)):
            P, T, _ = axes_of(cells[i])
            for t in T:
                got = obj.trotter_coupled_list[i][f"{t:.2f}"]
                for k in TRO:
                    want = [tro.get((i, p), {}).get(f"{t:.2f}", {}).get(k, np.nan) for p in P]
                    same(np.array(got[k], float), np.array(want, float), f"{k} of FileStructure {i} at {t} K for beads {P}, basis {case['B']}")
        try:
            pl.load_sos(obj, basis_size=case["B"])
        except (OSError, KeyError):
            ensure(any((i, case["B"]) not in sos and cells[i] for i in range(len(fss))), "sum over states results are refused although they exist")
            return {"cells": sum(len(c) for c in cells)}
        for i in range(len(fss)):
            for t in axes_of(cells[i])[1]:
                got = obj.sos_list[i].get(f"{t:.2f}")
                if (i, case["B"]) in sos:
                    same(json.dumps(got, sort_keys=True), json.dumps(sos[i, case["B"]][f"{t:.2f}"], sort_keys=True), f"sum over states of FileStructure {i} at {t} K, basis {case['B']}")
                else:
                    ensure(not got, f"FileStructure {i} has no sum over states results but {got} are used")
    return {"cells": sum(len(c) for c in cells)}


@st.composite
def outdated_case(draw):
    c = draw(plot_case(2, True))
    return dict(c, R=[0, 1], file=draw(st.sampled_from(["orig", "rho_vib", "rho_rho", "sos", "trotter"])), which=draw(st.integers(0, 1)))


def f_outdated(case):
    """references of an older model are not combined with the results of the current one"""
    from pibronic.plotting import plotting as pl
    with scratch() as d:
        for f in case["files"]:
            f["fs"], f["X"], f["state"] = case["which"], 10000, "ok"
        fss, cells, rng = setup(d, case)
        orig, rho = references(d, case, fss, cells, rng)
        w = case["which"]
        fs, cell = fss[w], cells[w]
        P, T, _ = axes_of(cell)
        # as the wrapper of the external program leaves them
        sos = {f"{t:.2f}": {"Z_sos": float(rng.uniform(1, 3)), "E_sos": 0.5} for t in T}
        write(fs.template_sos_vib.format(B=80), dict(sos, hash_vib=fs.hash_vib))
        tro = {p: {f"{t:.2f}": {k: float(rng.uniform(1, 3)) for k in TRO} for t in T} for p in P}
        for p in P:
            write(fs.template_trotter_vib.format(P=p, B=80), dict(tro[p], hash_vib=fs.hash_vib))

        def age(path, name):
            old = json.load(open(path))
            old[name] = "ab" * (len(old[name]) // 2)
            write(path, old)
        if case["file"] == "orig":
            age(fs.path_analytic_orig, "hash_vib")
        elif case["file"].startswith("rho"):
            age(fs.path_analytic_rho, "hash" + case["file"][3:])
        elif case["file"] == "sos":
            age(fs.template_sos_vib.format(B=80), "hash_vib")
        else:
            age(fs.template_trotter_vib.format(P=P[0], B=80), "hash_vib")
        uses = {"original": ("orig", "rho_vib", "rho_rho"), "pair": ("orig", "rho_vib", "rho_rho"), "sos": ("sos", "rho_vib", "rho_rho")}
        n = 0
        for name, make in (("original", lambda: pl.plot_original_Z_test(fs)), ("pair", lambda: pl.plot_original_Z_vs_diagonal_test(fss)), ("sos", lambda: pl.plot_sos_Z_vs_rho_n(fss))):
            obj = make()
            try:
                obj.load_data()
            except Exception as e:
                ensure(case["file"] in uses[name], f"the plot ({name}) refuses its references although only the {case['file']} results, which it does not use, are outdated: {e}")
                n += 1
                continue
            z = np.array((obj.arr if name == "original" else obj.arr[w])["Z"], float)
            ensure(case["file"] not in uses[name] or not np.isfinite(z).any(), f"the plot ({name}) combines results of the current model with outdated {case['file']} results")
        obj = pl.plot_Z_multiple_FS(fss)
        pl.load_trotter_coupled(obj)
        for t in T:
            got = np.array(obj.trotter_coupled_list[w][f"{t:.2f}"]["Z_trotter"], float)
            want = np.array([np.nan if case["file"] == "trotter" and p == P[0] else tro[p][f"{t:.2f}"]["Z_trotter"] for p in P])
            same(got, want, f"Trotter results at {t} for beads {P} ({case['file']} results outdated)")
    return {"cells": len(cell), "refused": n}


@st.composite
def grids_case(draw):
    m = lambda a: draw(gens.coupled_spec(max_A=4, max_N=3, min_A=a))  # noqa: E731
    o = m(1)
    c = dict(o, seed=draw(gens.seeds()))
    return {"orig": o, "coup": c, "rhoA": draw(st.integers(1, 4)), "D": draw(st.integers(0, 20)), "sparse": draw(st.booleans()), "tiny": draw(st.sampled_from([0, 0, 7, 9, 14]))}


def f_grids(case):
    """grid plots show the matrices of the two models, with their signs"""
    from pibronic.data import file_structure
    from pibronic.plotting import grid_plots as gp
    with scratch() as d, recording() as saved:
        fs = file_structure.FileStructure(d, case["D"], 0)
        models = []
        for k, path in (("orig", fs.path_orig_model), ("coup", fs.path_vib_model)):
            m = gens.build_coupled(dict(case[k], terms=list(gens.TERMS)))
            if case["sparse"]:
                for n in ("E", "G1", "G2"):
                    m[n] = np.where(np.abs(m[n]) < np.median(np.abs(m[n])), 0.0, m[n])
            if case["tiny"]:
                pick = np.random.default_rng(case["D"])
                for n in ("E", "G1", "G2"):
                    m[n] = np.where(pick.random(m[n].shape) < 0.3, m[n] * 10.0 ** -case["tiny"], m[n])
            if any(not np.any(m[n]) for n in ("E", "G1", "G2")):
                return {"grids": 0}
            gens.write_json_model(path, m)
            models.append(m)
        A, N = case["orig"]["A"], case["orig"]["N"]
        gens.write_json_model(fs.path_rho_model, {"N": N, "A": case["rhoA"], "w": [0.1] * N, "E": [0.1] * case["rhoA"]})
        obj = gp.plotGrids(fs)
        obj.load_data()
        obj.plot_energy()
        obj.plot_linear_coupling()
        obj.plot_quadratic_coupling()
        exp = []
        for m in models:
            exp.append(m["E"])
        for m in models:
            exp += [m["G1"][j] for j in range(N)]
        for m in models:
            exp += [m["G2"][i, j] for i in range(N) for j in range(N)]
        ensure(len(saved) == len(exp), f"{len(saved)} figures for {len(exp)} matrices")
        ensure(len({p for p, _ in saved}) == len(saved), f"figures overwrite each other: {sorted(p for p, _ in saved)}")
        left = list(range(len(saved)))
        kinds = [("energy", m, ()) for m in ("original", "coupled")] + [("linear", m, (j + 1,)) for m in ("original", "coupled") for j in range(N)]
        kinds += [("quadratic", m, (i + 1, j + 1)) for m in ("original", "coupled") for i in range(N) for j in range(N)]
        for want, (kind, which, modes) in zip(exp, kinds):
            hit = [i for i in left if kind in os.path.basename(saved[i][0]) and len(saved[i][1][0]["images"]) == 1 and np.array_equal(saved[i][1][0]["images"][0], want)]
            ensure(hit, f"no {kind} figure shows {want.tolist()}")
            named = [i for i in hit if which in os.path.basename(saved[i][0]) and which in saved[i][1][0]["title"].lower()
                     and tuple(map(int, re.findall(r"_N(\d+)", os.path.basename(saved[i][0])))) == modes
                     and (not modes or "".join(map(str, modes)) in saved[i][1][0]["title"].split("\n")[0])]
            ensure(named, f"the {kind} terms {want.tolist()} of the {which} model, modes {modes}, are shown as {[(os.path.basename(saved[i][0]), saved[i][1][0]['title']) for i in hit]}")
            i = named[0]
            left.remove(i)
            tx = {p: t for p, t in saved[i][1][0]["texts"].items()}
            for a in range(A):
                for b in range(A):
                    s = "+" if want[b, a] > 0 else "-" if want[b, a] < 0 else "0"
                    ensure(tx.get((float(a), float(b))) == s, f"{kind} figure marks element ({b}, {a}) = {want[b, a]} with {tx.get((float(a), float(b)))!r}")
    return {"grids": len(exp)}


nt = lambda c: len(c["files"]) > 1 and len({(f["P"], f["T"], f["X"]) for f in c["files"] if f["state"] == "ok"}) > 1  # noqa: E731
register("C30", [
    Check("single", plot_case(1), f_single, 120, 3000, nt, "ragged thermodynamic results over beads, temperatures and samples, some of other models, loaded and drawn for one sampling model; non-trivial: several usable cells", replicas=4),
    Check("pair", plot_case(2, True), f_pair, 120, 3000, nt, "the same for two sampling models of one data set; non-trivial: as above", replicas=3),
    Check("sum_over_states", st.tuples(plot_case(2, True), st.booleans()).map(lambda t: dict(t[0], R=[0, 1], tenk=t[1])), f_sos, 80, 2000, nt, "two sampling models compared with the sum over states; non-trivial: as above", replicas=3),
    Check("reference", st.integers(1, 3).flatmap(plot_case), f_reference, 200, 4000, nt, "exact, sum over states and Trotter references of 1-3 data sets, with missing files, temperatures and entries; non-trivial: as above", replicas=2),
    Check("outdated", outdated_case(), f_outdated, 120, 2000, lambda c: True, "one of the references was computed for an older model; non-trivial: always", replicas=2),
    Check("grids", grids_case(), f_grids, 60, 800, lambda c: c["orig"]["A"] > 1 and c["orig"]["N"] > 1, "matrices and signs of the grid plots of random original and coupled models; non-trivial: several surfaces and modes", replicas=4),
], ["figures are recorded instead of written to disk, LaTeX is not installed here", "sampling model numbers 0-4 (the labels which exist)"])
