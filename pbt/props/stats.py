"""C17-C19: estimators, jackknife and the analysis of result files."""
import json
import math
import os
from fractions import Fraction as F
import numpy as np
from ..core import Check, Violation, ensure, same, close, register, add_check, scratch, st
from .. import gens
from .files import snapshot


@st.composite
def sample_case(draw, max_X=40):
    return {"X": draw(st.one_of(st.integers(3, 7), st.integers(2, max_X), st.integers(3, max_X))), "seed": draw(gens.seeds()), "kind": draw(st.sampled_from(["free", "near", "outlier", "wild", "near", "const"])),
            "scale": draw(st.sampled_from([1.0, 1e-6, 1e5, 1e-60, 1e-140, 1e90])), "T": draw(st.one_of(st.sampled_from([300.0, 10.0, 77.25, 1000.0]), st.integers(100, 200000).map(lambda k: k / 100))),
            "E": draw(st.sampled_from([0.0, 0.5, -1.25])), "Cv": draw(st.sampled_from([0.0, 2e-4, 1.5])),
            "Zp": draw(st.sampled_from([1.0, 0.98, 1.3])), "Zm": draw(st.sampled_from([1.0, 1.02, 0.7])), "seedperm": draw(gens.seeds())}


def samples(case, dB):
    rng = np.random.default_rng(case["seed"])
    X = case["X"]
    rho = rng.uniform(0.2, 3.0, X) * case["scale"]
    g = rng.uniform(0.2, 3.0, X) * case["scale"]
    if case["kind"] == "near":
        e = rng.uniform(0.1, 2.0, X)
        gp, gm = g * np.exp(-dB * e), g * np.exp(dB * e)
    elif case["kind"] == "const":
        rho[:], g[:] = rho[0], g[0]
        gp, gm = g * 0.5, g * 2.0
    else:
        if case["kind"] == "wild":
            # weights of very different magnitude, as far apart as the paths of one calculation can be
            rho *= 10.0 ** rng.uniform(-4, 4, X)
            g = rho * rng.uniform(0.2, 3.0, X)
        gp, gm = g * rng.uniform(0.3, 2.0, X), g * rng.uniform(0.3, 2.0, X)
        if case["kind"] == "outlier":
            g[rng.integers(X)] *= 50.0
    return rho, g, gp, gm


class Ref:
    """the estimators in exact rational arithmetic"""
    def __init__(self, rho, g, gp, gm, T, dB, E, Cv, alpha=None):
        from pibronic import constants
        self.k = F(float(constants.boltzman))
        self.T, self.d = F(float(T)), F(float(dB))
        self.X = len(rho)
        fr = lambda a: [F(float(x)) for x in a]  # noqa: E731
        rho, g, gp, gm = fr(rho), fr(g), fr(gp), fr(gm)
        self.r = [a / b for a, b in zip(g, rho)]
        self.rp = [a / b for a, b in zip(gp, rho)]
        self.rm = [a / b for a, b in zip(gm, rho)]
        self.ap, self.am = (F(1), F(1)) if alpha is None else (F(float(alpha[0])), F(float(alpha[1])))
        self.E0, self.C0 = F(float(E)), F(float(Cv))
        self.noise = 3e-14 * float(max(x * self.ap + 2 * y + z * self.am for x, y, z in zip(self.rp, self.r, self.rm)) / (sum(self.r) / self.X))

    def point(self, r, rp, rm):
        """(energy, heat capacity) without the sampling model's contribution, from averages"""
        s1 = (rp * self.ap - rm * self.am) / (2 * self.d)
        s2 = (rp * self.ap - 2 * r + rm * self.am) / self.d ** 2
        e = -s1 / r
        return e, (s2 / r - e * e) / (self.k * self.T ** 2)

    def basic(self):
        m = lambda a: sum(a) / self.X  # noqa: E731
        Z = m(self.r)
        e, c = self.point(Z, m(self.rp), m(self.rm))
        var = sum((x - Z) ** 2 for x in self.r) / self.X
        return {"Z": float(Z), "Z error": math.sqrt(var) / math.sqrt(self.X - 1), "E": float(e + self.E0), "E error": 0.0, "Cv": float(c + self.C0), "Cv error": 0.0}, e, c

    def jack(self):
        X = self.X
        R, P, M = sum(self.r), sum(self.rp), sum(self.rm)
        # every leave-one-out data set in turn
        loo = [self.point((R - a) / (X - 1), (P - b) / (X - 1), (M - c) / (X - 1)) for a, b, c in zip(self.r, self.rp, self.rm)]
        b, e, c = self.basic()
        out = dict(b)
        for name, full, add, vals in (("E", e, self.E0, [x[0] for x in loo]), ("Cv", c, self.C0, [x[1] for x in loo])):
            mean = sum(vals) / X
            out["jk_" + name] = float(X * full - (X - 1) * mean + add)
            out["jk_" + name + " error"] = math.sqrt(X - 1) * math.sqrt(sum((v - mean) ** 2 for v in vals) / (X - 1))
        return out

    def tol(self, key):
        """rounding noise of float64 evaluation"""
        n = self.noise
        e1 = n / float(self.d)
        b, e, c = self.basic()
        c1 = (n / float(self.d) ** 2 + 2 * abs(float(e)) * e1 + 1e-13 * float(e) ** 2) / float(self.k * self.T ** 2)
        amp = 1.0
        if key.startswith("jk_"):
            # one left-out sample can shrink the denominator
            low = min((sum(self.r) - x) / (self.X - 1) for x in self.r)
            amp = 40.0 * self.X * max(1.0, float(sum(self.r) / self.X / low)) ** 3
            key = key[3:]
        base = {"Z": 1e-13 * b["Z"], "Z error": 1e-7 * b["Z error"] + 1e-7 * b["Z"] * 1e-7, "E": e1 + 1e-13 * abs(float(self.E0)), "Cv": c1 + 1e-13 * abs(float(self.C0)),
                "E error": e1, "Cv error": c1}[key]
        return amp * base + 1e-300


def compare(got, want, ref, what):
    for k, v in want.items():
        ensure(k in got, f"{what}: no entry {k!r} (present {sorted(got)})")
        x = float(got[k])
        if not abs(x - v) <= ref.tol(k) + 1e-12 * abs(v):
            raise Violation(f"{what}: {k} = {x!r} instead of {v!r} (X={ref.X}, T={float(ref.T)}, rounding allowance {ref.tol(k):.3g})")


def result_object(rho, g, gp, gm):
    from pibronic.pimc import pimc
    r = pimc.BoxResultPM(X=len(rho))
    r.scaled_rho[:], r.scaled_g[:], r.scaled_gofr_plus[:], r.scaled_gofr_minus[:] = rho, g, gp, gm
    return r


def analytic_of(case):
    return {"Z": 1.0, "E": case["E"], "Cv": case["Cv"], "alpha_plus": 1.0 / case["Zp"], "alpha_minus": 1.0 / case["Zm"]}


def f_c17(case):
    from pibronic import constants
    from pibronic.stats import stats
    dB = constants.delta_beta
    cols = samples(case, dB)
    an = analytic_of(case)
    perm = np.random.default_rng(case["seedperm"]).permutation(case["X"])
    for name, fn, alpha in (("basic", stats.basic_statistical_analysis, None), ("alpha", stats.alpha_statistical_analysis, (an["alpha_plus"], an["alpha_minus"]))):
        ref = Ref(*cols, case["T"], dB, case["E"], case["Cv"], alpha)
        res = result_object(*cols)
        keep = [np.array(x) for x in (res.scaled_rho, res.scaled_g, res.scaled_gofr_plus, res.scaled_gofr_minus)]
        out = fn(case["T"], res, dict(an))
        compare(out, ref.basic()[0], ref, f"{name} analysis")
        for a, b in zip(keep, (res.scaled_rho, res.scaled_g, res.scaled_gofr_plus, res.scaled_gofr_minus)):
            same(b, a, f"{name} analysis changed the samples")
        again = fn(case["T"], res, dict(an))
        ensure(json.dumps(again) == json.dumps(out), "repeating the analysis changes its result")
        # order and common scale do not matter
        compare(fn(case["T"], result_object(*[c[perm] for c in cols]), dict(an)), ref.basic()[0], ref, f"{name} analysis of permuted samples")
        compare(fn(case["T"], result_object(*[c * 4.0 for c in cols]), dict(an)), ref.basic()[0], ref, f"{name} analysis of rescaled samples")
    return {"Z": out["Z"]}


def f_c17_terms(case):
    """arbitrary step, per sample terms, energy shifts"""
    from pibronic.stats import stats
    dB = case["dB"]
    c = case["samples"]
    cols = samples(c, dB)
    rho, g, gp, gm = cols
    ref = Ref(*cols, c["T"], dB, c["E"], c["Cv"])
    args = [np.array(x) for x in cols]
    terms = stats.calculate_basic_property_terms(dB, *args)
    for a, b in zip(args, cols):
        same(a, b, "input samples after calculating the terms")
    mx = max(np.max(gp / rho), np.max(g / rho), np.max(gm / rho)) * 8e-16
    close(terms[0], g / rho, "ratio", rtol=1e-13)
    close(terms[1], (gp / rho - gm / rho) / (2 * dB), "first derivative term", rtol=1e-11, atol=mx / dB)
    close(terms[2], (gp / rho - 2 * (g / rho) + gm / rho) / dB ** 2, "second derivative term", rtol=1e-11, atol=4 * mx / dB ** 2)
    d = stats.estimate_basic_properties(c["X"], c["T"], *terms)
    stats.add_harmonic_contribution(d, c["E"], c["Cv"])
    compare(d, ref.basic()[0], ref, "estimates for an explicit step")
    al = (1 / c["Zp"], 1 / c["Zm"])
    refa = Ref(*cols, c["T"], dB, c["E"], c["Cv"], al)
    ta = stats.calculate_alpha_terms(dB, *args, *al)
    d = stats.estimate_basic_properties(c["X"], c["T"], *ta[:3])
    stats.add_harmonic_contribution(d, c["E"], c["Cv"])
    compare(d, refa.basic()[0], refa, "difference estimates for an explicit step")
    return None


def f_c17_model(case):
    """two level system: ratios of exact Boltzmann sums must give the exact energy and heat capacity up to the finite step"""
    from pibronic import constants
    from pibronic.stats import stats
    dB = constants.delta_beta
    k, T = float(constants.boltzman), case["T"]
    beta = 1 / (k * T)
    ev, er = np.array(case["ev"]), np.array(case["er"])
    Z = lambda e, b: np.sum(np.exp(-b * e))  # noqa: E731
    ref_w = Z(er, beta)
    res = result_object(np.full(3, ref_w), np.full(3, Z(ev, beta)), np.full(3, Z(ev, beta + dB)), np.full(3, Z(ev, beta - dB)))

    def thermo(e):
        p = np.exp(-beta * (e - e.min()))
        p /= p.sum()
        E = p @ e
        return E, (p @ (e - E) ** 2) / (k * T * T)
    Er, Cr = thermo(er)
    Ev, Cv = thermo(ev)
    an = {"Z": ref_w, "E": Er, "Cv": Cr, "alpha_plus": ref_w / Z(er, beta + dB), "alpha_minus": ref_w / Z(er, beta - dB)}
    out = stats.alpha_statistical_analysis(T, res, an)
    close(out["Z"], Z(ev, beta) / ref_w, "ratio of partition functions", rtol=1e-10)
    close(out["E"], Ev, "energy of the level system", rtol=0, atol=1e-6)
    close(out["Cv"], Cv, "heat capacity of the level system", rtol=0, atol=3e-7 / (k * T * T))
    return None


def f_c18(case):
    from pibronic import constants
    from pibronic.stats import stats
    from pibronic.stats import jackknife as jk
    dB = constants.delta_beta
    cols = samples(case, dB)
    rho, g, gp, gm = cols
    X = case["X"]
    an = analytic_of(case)
    perm = np.random.default_rng(case["seedperm"]).permutation(X)
    for name, fn, alpha in (("basic", stats.basic_jackknife_analysis, None), ("alpha", stats.alpha_jackknife_analysis, (an["alpha_plus"], an["alpha_minus"]))):
        ref = Ref(*cols, case["T"], dB, case["E"], case["Cv"], alpha)
        want = ref.jack()
        res = result_object(*cols)
        out = fn(case["T"], res, dict(an))
        compare(out, want, ref, f"{name} jackknife")
        for a, b in zip(cols, (res.scaled_rho, res.scaled_g, res.scaled_gofr_plus, res.scaled_gofr_minus)):
            same(b, a, f"{name} jackknife changed the samples")
        compare(fn(case["T"], result_object(*[c[perm] for c in cols]), dict(an)), want, ref, f"{name} jackknife of permuted samples")
    for arr in (g / rho, gp - 2 * g, gm):
        t = jk.calculate_jackknife_term(X, np.array(arr))
        want = [np.mean(np.delete(arr, i)) for i in range(X)]
        close(t, want, "leave-one-out averages", rtol=1e-10, atol=1e-12 * X * np.max(np.abs(arr)))
    ts = jk.calculate_jackknife_terms(X, [np.array(g), np.array(rho)])
    for t, arr in zip(ts, (g, rho)):
        close(t, [np.mean(np.delete(arr, i)) for i in range(X)], "leave-one-out averages", rtol=1e-10, atol=1e-12 * X * np.max(np.abs(arr)))
    return None


def f_c17_written(case):
    """the whole way from stored samples and stored analytic results to the written thermodynamic result"""
    from pibronic import constants
    from pibronic.data import file_structure
    from pibronic.stats import stats
    c = case["samples"]
    dB = constants.delta_beta
    cols = samples(c, dB)
    T = round(c["T"], 2)
    with scratch() as d:
        fs = file_structure.FileStructure(d, 0, 0)
        gens.write_json_model(fs.path_vib_model, {"N": 1, "A": 1, "w": [0.1]})
        gens.write_json_model(fs.path_rho_model, {"N": 1, "A": 1, "w": [0.1], "E": [0.1]})
        fs.generate_model_hashes()
        Z = case["Z"]
        with open(fs.path_analytic_rho, "w") as f:
            json.dump({"hash_vib": fs.hash_vib, "hash_rho": fs.hash_rho, f"{T:.2f}": {"Z_sampling": Z, "E_sampling": c["E"], "Cv_sampling": c["Cv"], "Z_sampling+beta": Z * c["Zp"], "Z_sampling-beta": Z * c["Zm"]}}, f)
        np.savez(fs.template_pimc.format(P=case["P"], T=T, J="0"), number_of_samples=c["X"], hash_vib=fs.hash_vib, hash_rho=fs.hash_rho, s_rho=cols[0], s_g=cols[1], s_gP=cols[2], s_gM=cols[3])
        for method in ("basic", "alpha"):
            al = None if method == "basic" else (Z / (Z * c["Zp"]), Z / (Z * c["Zm"]))
            ref = Ref(*cols, T, dB, c["E"], c["Cv"], al)
            for jack, run in ((False, stats.statistical_analysis_of_pimc), (True, stats.jackknife_analysis_of_pimc)):
                run(fs, method=method)
                with open(fs.template_jackknife.format(P=case["P"], T=T, X=c["X"])) as f:
                    out = json.load(f)
                compare(out, ref.jack() if jack and case["with_jack"] else ref.basic()[0], ref, f"written {method} result")
    return None


step = st.sampled_from([2e-4, 1e-3, 0.05, 1.0, 1e-5])
nontriv = lambda c: c["X"] > 2 and c["kind"] != "const"  # noqa: E731
levels = st.lists(st.integers(-20, 40).map(lambda k: k / 100), min_size=1, max_size=4)
register("C17", [
    Check("analysis", sample_case(), f_c17, 1200, 20000, nontriv, "2-40 samples (independent, physically close shifts, constant, outlier) at several scales/temperatures, both methods, against exact rational estimators, permuted and rescaled; non-trivial: more than 2 non-constant samples", replicas=3),
    Check("terms", st.fixed_dictionaries({"samples": sample_case(), "dB": step}), f_c17_terms, 1000, 16000, lambda c: nontriv(c["samples"]), "per sample terms and estimates for explicit steps; non-trivial: as above", replicas=2),
    Check("written", st.fixed_dictionaries({"samples": sample_case(12), "P": st.integers(1, 200), "Z": st.sampled_from([1.0, 0.3, 17.5, 1e-30]), "with_jack": st.just(False)}), f_c17_written, 60, 1200, lambda c: nontriv(c["samples"]),
          "stored samples and analytic results (partition function and its shifted values independent of each other) analysed by both methods of both analyses through files; non-trivial: as above", replicas=7),
    Check("levels", st.fixed_dictionaries({"T": st.sampled_from([300.0, 150.0, 900.0]), "ev": levels, "er": levels}), f_c17_model, 400, 4000, lambda c: len(set(c["ev"])) > 1 and len(set(c["er"])) > 1,
          "samples made from exact level sums: the difference method must return the exact thermodynamics of the coupled levels; non-trivial: both spectra have several levels"),
], ["the stored analytic results were made with the step of the samples", "the 'basic' method adds the sampling model's energy and heat capacity, as the tests require"])
register("C18", [
    Check("jackknife", sample_case(25), f_c18, 1200, 20000, nontriv, "both jackknife analyses against deleting each sample in exact arithmetic, permuted; leave-one-out averages; non-trivial: more than 2 non-constant samples", replicas=6),
    Check("written", st.fixed_dictionaries({"samples": sample_case(12), "P": st.integers(1, 200), "Z": st.sampled_from([1.0, 0.3, 17.5, 1e-30]), "with_jack": st.just(True)}), f_c17_written, 60, 1200, lambda c: nontriv(c["samples"]),
          "jackknife estimates written to the thermodynamic result by both methods, from stored samples and analytic results; non-trivial: as above", replicas=7),
])


# ---------------------------------------------------------------- C19
@st.composite
def grid_case(draw):
    Ps = draw(st.lists(st.sampled_from([3, 4, 12, 13, 30, 130, 1300]), min_size=1, max_size=3, unique=True))
    Ts = draw(st.lists(st.sampled_from([300.0, 30.0, 300.05, 10.5, 130.0]), min_size=1, max_size=3, unique=True))
    files = []
    for _ in range(draw(st.integers(1, 7))):
        files.append({"P": draw(st.sampled_from(Ps)), "T": draw(st.sampled_from(Ts)), "J": draw(st.integers(0, 30)), "n": draw(st.integers(2, 6)), "kind": draw(st.sampled_from(["pm", "pm", "pm", "stale_vib", "stale_rho", "plain"])),
                      "R": draw(st.sampled_from([0, 0, 0, 1]))})
    return {"files": files, "seed": draw(gens.seeds()), "method": draw(st.sampled_from(["basic", "alpha"])), "jack": draw(st.booleans()), "twice": draw(st.booleans()), "implicit": draw(st.booleans()), "more": draw(st.integers(0, 2))}


def f_c19(case):
    from pibronic import constants
    from pibronic.data import file_structure
    from pibronic.stats import stats
    dB = constants.delta_beta
    with scratch() as d:
        fs = file_structure.FileStructure(d, 1, 0)
        fs1 = file_structure.FileStructure(d, 1, 1)
        gens.write_json_model(fs.path_vib_model, {"N": 1, "A": 1, "w": [0.1]})
        gens.write_json_model(fs.path_rho_model, {"N": 1, "A": 1, "w": [0.1], "E": [0.1]})
        gens.write_json_model(fs1.path_rho_model, {"N": 1, "A": 1, "w": [0.1], "E": [0.2]})
        for x in (fs, fs1):
            x.generate_model_hashes()
        an = {}
        for T in sorted({f["T"] for f in case["files"]}):
            an[T] = {"Z_sampling": 1.5, "E_sampling": 0.01 * T, "Cv_sampling": 1e-5 * T, "Z_sampling+beta": 1.4 - T * 1e-4, "Z_sampling-beta": 1.6 + T * 1e-4}
        with open(fs.path_analytic_rho, "w") as f:
            json.dump({"hash_vib": fs.hash_vib, "hash_rho": fs.hash_rho, **{f"{T:.2f}": v for T, v in an.items()}}, f)
        have = {}

        def put(i, f):
            x = fs if f["R"] == 0 else fs1
            p = os.path.normpath(x.template_pimc.format(P=f["P"], T=f["T"], J=str(f["J"])))
            cols = samples({"seed": (case["seed"] + i) % 2**31, "X": f["n"], "kind": "free", "scale": 1.0}, dB)
            c = dict(zip(("s_rho", "s_g", "s_gP", "s_gM"), cols))
            if f["kind"] == "plain":
                c.pop("s_gP"), c.pop("s_gM")
            np.savez(p, number_of_samples=f["n"], hash_vib=x.hash_vib if f["kind"] != "stale_vib" else "0" * 128, hash_rho=x.hash_rho if f["kind"] != "stale_rho" else "1" * 128, **c)
            have[p] = (f, cols)
        for i, f in enumerate(case["files"]):
            put(i, f)
        # a pair whose only current files lack the shifted numerators cannot be analysed
        pairs = {}
        for p, (f, cols) in have.items():
            if f["R"] == 0 and f["kind"] in ("pm", "plain"):
                pairs.setdefault((f["P"], f["T"]), []).append((f, cols))
        for k in [k for k, v in pairs.items() if all(f["kind"] == "plain" for f, _ in v)]:
            for p in [p for p, (f, _) in have.items() if (f["P"], f["T"]) == k and f["kind"] == "plain" and f["R"] == 0]:
                os.remove(p)
                del have[p]
        run = stats.jackknife_analysis_of_pimc if case["jack"] else stats.statistical_analysis_of_pimc
        for rnd in range(2 if case["twice"] else 1):
            if rnd:
                for m in range(case["more"]):
                    f = dict(case["files"][m % len(case["files"])])
                    f.update(kind="pm", R=0, J=f["J"] + 100 + m)
                    put(50 + m, f)
            before = snapshot(d)
            run(fs if rnd == 0 else file_structure.FileStructure(d, 1, 0), **({} if case["method"] == "basic" and case["implicit"] else {"method": case["method"]}))
            after = snapshot(d)
            want = {}
            for p, (f, cols) in have.items():
                if f["R"] == 0 and f["kind"] == "pm":
                    want.setdefault((f["P"], f["T"]), []).append(cols)
            new = {k for k in after if before.get(k, 0) != after[k]}
            for k, v in before.items():
                ensure(k in after, f"{k} was removed")
                if not k.endswith("_thermo"):
                    ensure(after[k] == v, f"{k} was modified")
            exp = {}
            for (P, T), lst in want.items():
                X = sum(len(c[0]) for c in lst)
                exp[os.path.relpath(os.path.normpath(fs.template_jackknife.format(P=P, T=T, X=X)), d)] = (P, T, lst)
            ensure(new <= set(exp), f"unexpected output {sorted(new - set(exp))}; results exist for {sorted(want)}")
            for k, (P, T, lst) in exp.items():
                ensure(k in after, f"no thermodynamic result for P={P} T={T}: {os.path.basename(k)}; present {sorted(os.path.basename(x) for x in after if x.endswith('_thermo'))}")
                out = json.loads(after[k])
                same(out["hash_vib"], fs.hash_vib, "recorded hash")
                same(out["hash_rho"], fs.hash_rho, "recorded hash")
                a = an[T]
                al = None if case["method"] == "basic" else (a["Z_sampling"] / a["Z_sampling+beta"], a["Z_sampling"] / a["Z_sampling-beta"])
                ref = Ref(*[np.concatenate([c[j] for c in lst]) for j in range(4)], T, dB, a["E_sampling"], a["Cv_sampling"], al)
                compare(out, ref.jack() if case["jack"] else ref.basic()[0], ref, f"thermodynamic result of P={P} T={T}")
    return {"pairs": len(want)}


register("C19", [
    Check("grid", grid_case(), f_c19, 120, 2000, lambda c: len({(f["P"], f["T"]) for f in c["files"]}) > 1 and any(f["kind"] != "pm" or f["R"] for f in c["files"]),
          "1-7 result files over ragged bead/temperature pairs and two sampling models, current, stale and incomplete, analysed by either analysis and method, again after more files appeared; non-trivial: several pairs and at least one file that must not be used", replicas=7),
], ["analytic data exist for every temperature; pairs whose current files all lack the shifted numerators are outside the property (the analysis stops with an error)"])


# ---------------------------------------------------------------- C17: from the calculation to the reported energies
STEPS = st.one_of(st.sampled_from([None, 2e-4, 1e-3, 0.02, 0.3, 1]), st.integers(1, 4000).map(lambda k: k * 1e-4))


@st.composite
def pipeline_case(draw):
    return {"E": [draw(st.integers(-10, 30)) / 100 for _ in range(2)], "lin": [draw(st.integers(-8, 8)) / 100 for _ in range(2)], "c": draw(st.integers(-8, 8)) / 100,
            "steps": draw(st.lists(STEPS, min_size=1, max_size=3)) if draw(st.booleans()) else [draw(STEPS)] * draw(st.integers(1, 3)), "json": draw(st.lists(st.booleans(), min_size=3, max_size=3)),
            "T": draw(st.sampled_from([300.0, 77.25, 950.5])), "P": draw(st.integers(3, 9)), "X": draw(st.integers(2, 3)), "blocks": draw(st.integers(1, 2)), "seed": draw(gens.seeds()), "method": draw(st.sampled_from(["basic", "alpha"])),
            "Zp": draw(st.sampled_from([1.0, 0.98, 1.3])), "Zm": draw(st.sampled_from([1.0, 1.02, 0.7]))}


def f_c17_pipeline(case):
    from pibronic import constants
    from pibronic.data import file_structure
    from pibronic.pimc import pimc
    from pibronic.stats import stats
    T, P = case["T"], case["P"]
    with scratch() as d:
        fs = file_structure.FileStructure(d, 0, 0)
        E, L, c = case["E"], case["lin"], case["c"]
        gens.write_json_model(fs.path_vib_model, {"N": 1, "A": 2, "w": [0.12], "E": [[E[0], 0.0], [0.0, E[1]]], "G1": [[[L[0], c], [c, L[1]]]]})
        gens.write_json_model(fs.path_rho_model, {"N": 1, "A": 2, "w": [0.12], "E": E, "G1": [L]})
        fs.generate_model_hashes()
        with open(fs.path_analytic_rho, "w") as f:
            json.dump({"hash_vib": fs.hash_vib, "hash_rho": fs.hash_rho, f"{T:.2f}": {"Z_sampling": 2.0, "E_sampling": 0.3, "Cv_sampling": 1e-4, "Z_sampling+beta": 2.0 * case["Zp"], "Z_sampling-beta": 2.0 * case["Zm"]}}, f)
        np.random.seed(case["seed"] % 2**32)
        cols, used = [], []
        X = case["X"] * case["blocks"]
        for j, dB in enumerate(case["steps"]):
            if case["json"][j]:
                p = {"number_of_samples": X, "number_of_blocks": case["blocks"], "number_of_states": 2, "number_of_modes": 1, "number_of_beads": P, "temperature": T, "block_size": case["X"], "id_data": 0, "id_rho": 0, "path_root": d}
                if dB is not None:
                    p["delta_beta"] = dB
                data = pimc.BoxDataPM.from_json_string(pimc.BoxDataPM.json_serialize(p))
            else:
                data = pimc.BoxDataPM() if dB is None else pimc.BoxDataPM(dB)
                data.path_vib_model, data.path_rho_model = fs.path_vib_model, fs.path_rho_model
                data.hash_vib, data.hash_rho = fs.hash_vib, fs.hash_rho
                data.states, data.modes, data.samples, data.blocks, data.block_size, data.beads, data.temperature = 2, 1, X, case["blocks"], case["X"], P, T
            data.preprocess()
            res = pimc.BoxResultPM(data=data)
            res.path_root, res.id_job = fs.path_rho_results, j
            pimc.block_compute_pm(data, res)
            used.append(float(constants.delta_beta if dB is None else dB))
            with np.load(fs.template_pimc.format(P=P, T=T, J=str(j))) as f:
                mine = [f[k].copy() for k in ("s_rho", "s_g", "s_gP", "s_gM")]
            cols.append(mine)
            al = (1 / case["Zp"], 1 / case["Zm"])
            an = {"Z": 2.0, "E": 0.3, "Cv": 1e-4, "alpha_plus": al[0], "alpha_minus": al[1]}
            for name, fn, a, jack in (("basic", stats.basic_statistical_analysis, None, False), ("difference", stats.alpha_statistical_analysis, al, False), ("basic jackknife", stats.basic_jackknife_analysis, None, True), ("difference jackknife", stats.alpha_jackknife_analysis, al, True)):
                ref = Ref(*mine, T, used[-1], 0.3, 1e-4, a)
                compare(fn(T, res, dict(an)), ref.jack() if jack else ref.basic()[0], ref, f"{name} analysis of a calculation with step {dB}")
            one = pimc.BoxResultPM()
            one.load_results(fs.template_pimc.format(P=P, T=T, J=str(j)))
            ref = Ref(*mine, T, used[-1], 0.3, 1e-4)
            compare(stats.basic_statistical_analysis(T, one, dict(an)), ref.basic()[0], ref, f"analysis of the stored results of a calculation with step {dB}")
        before = snapshot(d)
        out_path = fs.template_jackknife.format(P=P, T=T, X=X * len(cols))
        for jack, fn in ((False, stats.statistical_analysis_of_pimc), (True, stats.jackknife_analysis_of_pimc)):
            if len(set(used)) > 1:
                # an energy cannot be estimated from samples of different steps as if they had one
                try:
                    fn(fs, method=case["method"])
                except Exception:
                    same(snapshot(d), before, "files after a refused analysis")
                    continue
                raise Violation(f"samples of the steps {used} were analysed together")
            fn(fs, method=case["method"])
            a = None if case["method"] == "basic" else (2.0 / (2.0 * case["Zp"]), 2.0 / (2.0 * case["Zm"]))
            ref = Ref(*[np.concatenate([c[j] for c in cols]) for j in range(4)], T, used[0], 0.3, 1e-4, a)
            with open(out_path) as f:
                compare(json.load(f), ref.jack() if jack else ref.basic()[0], ref, f"result of calculations with step {case['steps'][0]}")
    return {"steps": used}


add_check("C17", Check("pipeline", pipeline_case(), f_c17_pipeline, 60, 1200, lambda c: len(c["steps"]) > 1 or c["steps"][0] not in (None, 2e-4),
                       "one to three calculations with default, small and large steps (passed directly or through a job's parameters), analysed in memory and from their files with the step they were made with; mixed steps are refused; non-trivial: another step than the default or several calculations", replicas=7))
