"""C01-C05: the Monte Carlo engine."""
import os
import numpy as np
from ..core import Check, Violation, Skip, ensure, same, close, register, add_check, scratch, st, short
from .. import gens
from ..pimc_ref import run, recorder, recorded_paths, weight_g, log_rho, max_log_o, KB

T_ = st.one_of(st.sampled_from([300.0, 150.0, 1000.0]), st.integers(12000, 200000).map(lambda x: x / 100))


def conditions(draw, case):
    """temperature (down to 30 K when there are enough beads) and a common offset of the energies of both models, as for real excitation energies in eV"""
    case["T"] = draw(T_)
    if draw(st.sampled_from([False, False, True])):
        case["T"] = draw(st.integers(max(30, 1 + 360 // case["P"]), 160)) * 1.0
    off = draw(st.sampled_from([0.0, 0.0, 12.5, 9.0, -3.0, -13.0]))
    if off:
        case["vib"]["off"] = case["rho"]["off"] = off
    return case


@st.composite
def pimc_case(draw, pm=False, max_A=3, max_N=3, max_P=9, max_X=6):
    vib = draw(gens.coupled_spec(max_A=max_A, max_N=max_N))
    rho = draw(gens.diagonal_spec(N=vib["N"]))
    if draw(st.booleans()):
        rho["A"] = vib["A"]
    case = {"vib": vib, "rho": rho, "P": draw(st.integers(3, max_P)), "seed": draw(gens.seeds()),
            "block_size": draw(st.integers(1, max_X)), "blocks": draw(st.integers(1, 3))}
    conditions(draw, case)
    if pm:
        case["dbeta"] = draw(st.sampled_from([None, 2e-4, 0.0, 1e-2, 0.5, 1.5, -0.3]))
    return case


def check_weights(case, o, pm):
    """every recorded ratio against the reference on the recorded path"""
    X = case["block_size"] * case["blocks"]
    P = case["P"]
    ensure(o.R is not None and o.R.shape == (X, o.vib["N"], P), f"paths of {None if o.R is None else o.R.shape}, requested {X} samples")
    tau, beta = o.tau, o.beta
    db = case.get("dbeta", None)
    db = 2e-4 if db is None else db
    checked = 0
    for x in range(X):
        R = o.R[x]
        lr = log_rho(o.rho_model, tau, R)
        ms = max_log_o([o.vib, o.rho_model], tau, R)
        if lr - ms < -600:
            continue
        ensure(np.isfinite(o.rho[x]) and o.rho[x] > 0, f"sample {x}: denominator {o.rho[x]!r}")
        for name, arr, t in [("numerator", o.g, tau)] + ([("plus numerator", o.gp, (beta + db) / P), ("minus numerator", o.gm, (beta - db) / P)] if pm else []):
            lg, val, bnd = weight_g(o.vib, t, R)
            if lg - ms < -600 or lg - ms > 600:
                continue
            ensure(np.isfinite(arr[x]), f"sample {x}: {name} {arr[x]!r}")
            f = np.exp(lr - lg)
            got = arr[x] / o.rho[x] * f     # should be val
            if not abs(got - val) <= 1e-8 * bnd:
                raise Violation(f"sample {x}: {name}/denominator is {arr[x] / o.rho[x]!r}, path weights give {val / f!r}")
            checked += 1
    if not checked:
        raise Skip()
    return {"checked": checked, "ratio0": float(o.g[0] / o.rho[0])}


def f_c01(case):
    with scratch() as d:
        return check_weights(case, run(case, d), False)


def f_c01_pm(case):
    with scratch() as d:
        o = run(case, d, pm=True)
        X = case["block_size"] * case["blocks"]
        o2 = o
        # unshifted part of the plus/minus calculation
        res = check_weights(case, o2, False)
        same(len(o.g), X, "number of samples")
        return res


def f_c02(case):
    with scratch() as d:
        o = run(case, d, pm=True)
        out = check_weights(case, o, True)
        if case["dbeta"] == 0.0:
            close(o.gp, o.g, "plus numerator with zero step", rtol=1e-10)
            close(o.gm, o.g, "minus numerator with zero step", rtol=1e-10)
        return out


def f_c02_cross(case):
    """the shifted numerators equal the unshifted ones of a run at the shifted temperature on the same path (self-consistency over beta),
    and the beta shifts stored in the calculation are the requested ones"""
    from pibronic.pimc import pimc
    with scratch() as d:
        o = run(case, d, pm=True)
        db = 2e-4 if case["dbeta"] is None else case["dbeta"]
        close(o.data.delta_beta, db, "step in use")
        close([o.data.beta_plus, o.data.beta_minus], [o.beta + db, o.beta - db], "shifted inverse temperatures of the calculation", rtol=1e-12)
        P = case["P"]
        close([o.data.tau_plus, o.data.tau_minus], [(o.beta + db) / P, (o.beta - db) / P], "shifted imaginary time steps", rtol=1e-12)
        with np.load(o.path) as f:
            same(f["s_gP"], o.gp, "saved plus numerators")
            same(f["s_gM"], o.gm, "saved minus numerators")
            same(f["s_g"], o.g, "saved numerators")
            same(f["s_rho"], o.rho, "saved denominators")
    return None


def nt_weights(c):
    t = c["vib"]["terms"]
    return c["vib"]["A"] >= 2 and any(k.endswith("_off") or k == "quad_diag" for k in t)


RULE_W = "random vibronic model (1-3 surfaces, 1-3 modes, each coupling kind on/off), sampling model (1-4 surfaces), T, P 3-9, seed, block split; non-trivial: >=2 surfaces and at least one coupling the oscillators do not absorb"
register("C01", [
    Check("weights", pimc_case(), f_c01, 250, 6000, nt_weights, RULE_W, replicas=3),
    Check("weights_pm", pimc_case(pm=True), f_c01_pm, 120, 3000, nt_weights, RULE_W + " (plus/minus engine)", replicas=2),
    Check("weights_large", pimc_case(max_A=5, max_N=6, max_P=40, max_X=3), f_c01, 40, 1500, nt_weights, RULE_W + " (up to 5 surfaces, 6 modes, 40 beads)", replicas=3),
], ["paths whose weights underflow double precision are not compared", "numerators compared to 1e-8 of the sum of absolute contributions"])
register("C02", [
    Check("shifted", pimc_case(pm=True), f_c02, 250, 6000, nt_weights, RULE_W + "; steps 0, 1e-4..1.5 or default", replicas=4),
    Check("shifted_large", pimc_case(pm=True, max_A=4, max_N=5, max_P=30, max_X=3), f_c02, 40, 1500, nt_weights, RULE_W, replicas=2),
    Check("bookkeeping", pimc_case(pm=True), f_c02_cross, 60, 1500, nt_weights, RULE_W + "; attributes and saved file", replicas=1),
], ["paths whose weights underflow double precision are not compared"])


# ---------------------------------------------------------------- C28 training data
def setup_box(case, d, cls=None, extra=None):
    """extra: further arrays stored in the files of the (vibronic, sampling) model, which may be all zero"""
    from pibronic.data.file_structure import FileStructure
    from pibronic.pimc import pimc
    vib, rho = gens.build_coupled(case["vib"]), gens.build_diagonal(case["rho"])
    FS = FileStructure(d, 3, 2)
    extra = extra or ({}, {})
    gens.write_json_model(FS.path_vib_model, {**vib, **extra[0]}, zeros=bool(extra[0]))
    gens.write_json_model(FS.path_rho_model, {**rho, **extra[1]}, zeros=bool(extra[1]))
    FS.generate_model_hashes()
    data = (cls or pimc.BoxData)()
    data.id_data, data.id_rho = FS.id_data, FS.id_rho
    data.path_vib_model, data.path_rho_model = FS.path_vib_model, FS.path_rho_model
    data.hash_vib, data.hash_rho = FS.hash_vib, FS.hash_rho
    data.states, data.modes = vib["A"], vib["N"]
    data.block_size, data.blocks = case["block_size"], case["blocks"]
    data.samples = data.block_size * data.blocks
    data.beads, data.temperature = case["P"], case["T"]
    np.random.seed(case["seed"])
    data.preprocess()
    res = pimc.BoxResult(data=data)
    res.path_root = FS.path_rho_results
    res.id_job = case.get("J", 0)
    return FS, data, res, vib, rho


def cmp_abs(got, logw, val, bnd, what):
    """got should equal val*exp(logw)"""
    if logw < -600 or logw > 600:
        return 0
    ensure(np.isfinite(got), f"{what}: {got!r}")
    ensure(abs(got * np.exp(-logw) - val) <= 1e-8 * bnd, f"{what}: {got!r}, the path weight is {val * np.exp(logw)!r}")
    return 1


def f_c28(case):
    from pibronic.pimc import pimc
    with scratch() as d:
        FS, data, res, vib, rho = setup_box(case, d)
        X, P = data.samples, data.beads
        tau = 1 / (KB * case["T"]) / P
        pimc.block_compute_gR_from_raw_samples(data, res)
        stem = os.path.join(FS.path_rho_results, f"P{P:d}_T{case['T']:.2f}_J0_training_data_")
        with np.load(stem + "input.npz") as f, np.load(stem + "g_output.npz") as g:
            R, gv = f["input_R_values"], g["g"]
            same(int(f["number_of_samples"]), X, "number of stored paths")
            same(int(g["number_of_samples"]), X, "number of stored weights")
        same(R.shape, (X, vib["N"], P), "shape of the stored paths")
        same(gv.shape, (X,), "shape of the stored weights")
        ensure(len(np.unique(R)) == R.size, "stored coordinates repeat")
        n = 0
        for x in range(X):
            n += cmp_abs(gv[x], *weight_g(vib, tau, R[x]), f"training sample {x}: g")
        # denominators of given paths
        FS, data, res, vib, rho = setup_box(case, d)
        rng = np.random.default_rng(case["seed"])
        R = rng.normal(0, 1.0, (X, vib["N"], P))
        keep = R.copy()
        pimc.block_compute_rhoR_from_input_samples(data, res, R)
        same(R, keep, "input paths after the calculation")
        for x in range(X):
            n += cmp_abs(res.scaled_rho[x], log_rho(rho, tau, R[x]), 1.0, 1.0, f"given path {x}: rho")
        # sampled paths, unscaled numerators
        rec = []

        FS, data, res, vib, rho = setup_box(case, d, recorder(pimc.BoxData, rec))
        pimc.block_compute_gR(data, res)
        R = recorded_paths(pimc.BoxData, rec)
        same(R.shape, (X, vib["N"], P), "shape of the sampled paths")
        ensure(len(np.unique(R[:, 0, 0])) == X, "sampled paths repeat")
        for x in range(X):
            n += cmp_abs(res.scaled_g[x], *weight_g(vib, tau, R[x]), f"sampled path {x}: g")
        with np.load(os.path.join(FS.path_rho_results, f"P{P:d}_T{case['T']:.2f}_J0_data_points.npz")) as f:
            same(int(f["number_of_samples"]), X, "number of saved weights of sampled paths")
            same(f["s_g"], res.scaled_g, "saved weights of sampled paths")
        if not n:
            raise Skip()
        return {"compared": n}


register("C28", [
    Check("training", pimc_case(), f_c28, 400, 6000, nt_weights, RULE_W + "; the three training-data calculations", replicas=3),
    Check("training_large", pimc_case(max_A=4, max_N=5, max_P=20, max_X=3), f_c28, 60, 1500, nt_weights, RULE_W, replicas=2),
], ["weights outside exp(+-600) are not compared"])


# ---------------------------------------------------------------- C01 terms the engine does not support
ORDERS = {("vib", "G3"): 3, ("vib", "G4"): 4, ("rho", "G2"): 2, ("rho", "G3"): 3, ("rho", "G4"): 4}


@st.composite
def orders_case(draw):
    case = draw(pimc_case(max_A=3, max_N=3, max_P=4, max_X=3))
    case["zeros"] = sorted(draw(st.sets(st.sampled_from(sorted(ORDERS)))))
    case["term"] = draw(st.sampled_from([None] + sorted(ORDERS)))
    case["value"] = draw(st.sampled_from([1e-3, -0.02, 0.1, -0.004]))
    case["where"] = draw(st.integers(0, 10**6))
    case["pm"] = draw(st.booleans())
    return case


def f_orders(case):
    """a model with terms which the engine cannot use is refused before anything is sampled; arrays of zeros are not terms"""
    from pibronic.pimc import pimc
    extra = {"vib": {}, "rho": {}}
    for model, key in [tuple(t) for t in case["zeros"]] + ([tuple(case["term"])] if case["term"] else []):
        N, A = case[model]["N"], case[model]["A"]
        extra[model][key] = np.zeros((N,) * ORDERS[model, key] + ((A, A) if model == "vib" else (A,)))
    if case["term"]:
        model, key = case["term"]
        X = extra[model][key]
        i = np.unravel_index(case["where"] % X.size, X.shape)
        n = ORDERS[model, key]
        # symmetric in the modes and in the surfaces
        import itertools
        for p in itertools.permutations(i[:n]):
            X[tuple(p) + tuple(i[n:])] = case["value"]
            X[tuple(p) + tuple(i[n:])[::-1]] = case["value"]
    cls = pimc.BoxDataPM if case["pm"] else pimc.BoxData
    with scratch() as d:
        try:
            FS, data, res, vib, rho = setup_box(case, d, cls, (extra["vib"], extra["rho"]))
        except Violation:
            raise
        except Exception:
            ensure(case["term"], "a model without terms of higher order was refused")
            return {"refused": 1}
        if case["term"]:
            raise Violation(f"the calculation silently ignores the terms {short(case['term'])} of its model")
        rec = []
        FS, data, res, vib, rho = setup_box(case, d, recorder(pimc.BoxData, rec), (extra["vib"], extra["rho"]))
        pimc.block_compute_gR(data, res)
        R = recorded_paths(pimc.BoxData, rec)
        tau = 1 / (KB * case["T"]) / data.beads
        for x in range(data.samples):
            cmp_abs(res.scaled_g[x], *weight_g(vib, tau, R[x]), f"arrays of zeros, path {x}: g")
    return {"accepted": 1}


add_check("C01", Check("orders", orders_case(), f_orders, 200, 3000, lambda c: bool(c["term"]), "random models whose files also store cubic, quartic (either model) or quadratic (sampling model) arrays, all zero or with one non-zero term, both engines; non-trivial: one term is non-zero", replicas=1))


# ---------------------------------------------------------------- C03 distribution of the sampled paths
SIGMA = 8.0
SPLITS = [(6000, 1), (1000, 6), (200, 30), (50, 120), (10, 600)]


@st.composite
def dist_case(draw, large=False):
    N = draw(st.integers(4, 9) if large else st.integers(1, 3))
    rho = draw(gens.diagonal_spec(N=N, max_A=6 if large else 4, min_A=1))
    if draw(st.booleans()):
        rho["A"], rho["terms"] = max(rho["A"], 2), sorted(set(rho["terms"]) | {"lin"})
    vib = {"A": draw(st.sampled_from([1, 2, rho["A"]])), "N": N, "seed": 1, "terms": ["E"], "wscale": rho["wscale"], "cscale": 1.0}
    bs, nb = draw(st.sampled_from(SPLITS))
    return conditions(draw, {"vib": vib, "rho": rho, "P": draw(st.integers(3, 24) if large else st.integers(3, 8)), "seed": draw(gens.seeds()), "block_size": bs, "blocks": nb,
                             "pm": draw(st.booleans())})


def ring_cov(tau, w, P):
    K = 2 / np.tanh(tau * w) * np.eye(P)
    for p in range(P):
        K[p, (p + 1) % P] -= 1 / np.sinh(tau * w)
        K[(p + 1) % P, p] -= 1 / np.sinh(tau * w)
    return np.linalg.inv(K)


def ring_K(tau, w, P):
    K = 2 / np.tanh(tau * w) * np.eye(P)
    for p in range(P):
        K[p, (p + 1) % P] -= 1 / np.sinh(tau * w)
        K[(p + 1) % P, p] -= 1 / np.sinh(tau * w)
    return K


def zscore(x, expect):
    """x (n, ...) i.i.d. rows; z of the mean against expect"""
    n = x.shape[0]
    sd = x.std(axis=0, ddof=1)
    return (x.mean(axis=0) - expect) / np.where(sd > 0, sd, 1e-300) * np.sqrt(n)


LARGEST = [0.0]     # largest deviation of the case at hand, in units of the limit


def assert_mean(x, expect, what, sd=None):
    x = np.asarray(x, dtype=float)
    n = x.shape[0]
    s = x.std(axis=0, ddof=1) if sd is None else np.broadcast_to(sd, x.shape[1:])
    diff = np.abs(x.mean(axis=0) - expect)
    lim = SIGMA * s / np.sqrt(n) + 1e-9
    LARGEST[0] = max(LARGEST[0], float(np.max(diff / lim, initial=0.0)))
    if not np.all(diff <= lim):
        i = np.unravel_index(np.argmax(diff / lim), diff.shape) if diff.shape else ()
        raise Violation(f"{what}: mean over {n} samples {np.asarray(x.mean(axis=0))[i]:.6g}, expected {np.broadcast_to(expect, diff.shape)[i]:.6g} +- {(s / np.sqrt(n))[i] if np.ndim(s) else s / np.sqrt(n):.3g} (index {i})")


def independence(R, dsp, Ks, resp, B):
    """the noise behind the samples: no two of them share it, at no distance are they correlated"""
    X, N, P = R.shape
    S = []
    for K in Ks:
        ev, U = np.linalg.eigh(K)
        S.append(U * np.sqrt(ev) @ U.T)      # all circulant: the same eigenvectors for every mode and surface
    best = resp.argmax(axis=1)
    size = np.zeros((X, N, P))
    # u: posterior mean of the standard normal noise; independent, zero mean, second moments at most those of the noise
    u = np.zeros((X, N, P))
    for a in range(resp.shape[1]):
        for n in range(N):
            z = (R[:, n] - dsp[a, n]) @ S[n]
            u[:, n] += resp[:, a, None] * z
            size[best == a, n] = z[best == a]
    # exact copies, whatever the sign and the order of the beads
    size = np.sort(np.abs(size), axis=2).reshape(X * N, P)
    o = np.argsort(size.sum(axis=1))
    near = np.all(np.abs(size[o[1:]] - size[o[:-1]]) < 1e-6, axis=1)
    if near.any():
        k = int(np.argmax(near))
        x, y = sorted((int(o[k]), int(o[k + 1])))
        raise Violation(f"sample {x // N} mode {x % N} and sample {y // N} mode {y % N} are made of the same noise")
    # correlations at every distance, and mirrored within the blocks
    u = u.reshape(X, N * P)
    scale = np.linalg.norm(u.T @ u / X)
    L = 1 << int(np.ceil(np.log2(2 * X)))
    acc = np.zeros(L // 2 + 1)
    for c in u.T:
        acc += np.abs(np.fft.rfft(c, L)) ** 2
    lags = np.arange(1, X - 500)
    dev = np.abs(np.fft.irfft(acc, L)[lags]) / (SIGMA * scale * np.sqrt(X - lags) + 1e-9)
    if B > 1:
        v = u[:X - X % B].reshape(-1, B, u.shape[1])
        h = B // 2
        m = np.abs((v[:, :h] * v[:, ::-1][:, :h]).sum()) / (SIGMA * scale * np.sqrt(v.shape[0] * h) + 1e-9)
        LARGEST[0] = max(LARGEST[0], float(m))
        ensure(m <= 1, "samples at mirrored places of the blocks are correlated")
    LARGEST[0] = max(LARGEST[0], float(dev.max(initial=0.0)))
    ensure(np.all(dev <= 1), f"samples {int(lags[int(np.argmax(dev))])} apart are correlated" if dev.size else "")


def f_c03(case):
    LARGEST[0] = 0.0
    obs = distribution(case)
    if LARGEST[0] > 5.0 / SIGMA:
        # fresh paths, sixteen times as many: only what persists at 8 standard errors is reported
        obs["followed_up"] = distribution(dict(case, blocks=case["blocks"] * 16, seed=(case["seed"] + 7919) % 2 ** 31))["n"]
    return obs


def distribution(case):
    with scratch() as d:
        o = run(case, d, pm=case["pm"])
    rho, P = o.rho_model, case["P"]
    A, N = rho["A"], rho["N"]
    X = case["block_size"] * case["blocks"]
    R = o.R
    same(R.shape, (X, N, P), "shape of the sampled paths")
    Et = rho["E"] - 0.5 * (rho["G1"] ** 2 / rho["w"][:, None]).sum(axis=0)
    pw = np.exp(-o.beta * (Et - Et.min()))
    pw /= pw.sum()
    dsp = (-rho["G1"] / rho["w"][:, None]).T      # (A,N)
    Ks = [ring_K(o.tau, w, P) for w in rho["w"]]
    chol = [np.linalg.cholesky(K) for K in Ks]     # K = L L^T ; z = L^T q is standard normal
    # posterior responsibilities of the surfaces
    lw = np.zeros((X, A))
    Z = np.zeros((A, X, N, P))
    for a in range(A):
        for n in range(N):
            Z[a, :, n, :] = (R[:, n, :] - dsp[a, n]) @ chol[n]
        lw[:, a] = np.log(pw[a] + 1e-300) - 0.5 * (Z[a] ** 2).sum(axis=(1, 2))
    lw -= lw.max(axis=1, keepdims=True)
    resp = np.exp(lw)
    resp /= resp.sum(axis=1, keepdims=True)
    # mixture weights: E[resp_a] = w_a.  var(resp_a) <= w(1-w)
    assert_mean(resp, pw, "probability of the surfaces", sd=np.sqrt(pw * (1 - pw)) + 2.0 / np.sqrt(X))
    # whitened coordinates, responsibility weighted: E[r_a z] = 0, E[r_a z_i z_j] = w_a delta_ij
    D = N * P
    for a in range(A):
        if pw[a] * X < 200:
            continue
        z = Z[a].reshape(X, D)
        ra = resp[:, a]
        # second moments of r_a*z <= those of z given a, weighted by w_a
        assert_mean(ra[:, None] * z, 0.0, f"displacement from the minimum of surface {a}", sd=np.sqrt(pw[a]) * 1.05)
        zz = (ra[:, None] * z).T @ z / X
        sd = np.sqrt(pw[a] * (1 + 2 * np.eye(D))) * 1.1
        dev = np.abs(zz - pw[a] * np.eye(D)) / (SIGMA * sd / np.sqrt(X) + 1e-9)
        LARGEST[0] = max(LARGEST[0], float(dev.max()))
        if not np.all(dev <= 1):
            i, j = np.unravel_index(np.argmax(dev), dev.shape)
            raise Violation(f"covariance about surface {a} of (mode, bead) {divmod(int(i), P)} and {divmod(int(j), P)} (whitened): {zz[i, j] / pw[a]:.4g} instead of {float(i == j)}")
        q4 = (z ** 2).sum(axis=1)
        # (whitened) spread over all beads and modes together, and of every mode over all its beads
        assert_mean(ra * q4, pw[a] * D, f"spread about surface {a}", sd=np.sqrt(pw[a] * D * (D + 2)))
        assert_mean(ra[:, None] * (z.reshape(X, N, P) ** 2).sum(axis=2), pw[a] * P, f"spread of the modes about surface {a}", sd=np.sqrt(pw[a] * P * (P + 2)))
        assert_mean(ra * q4 ** 2, pw[a] * (D * D + 2 * D), f"fourth moment about surface {a}", sd=np.sqrt(pw[a] * D * (D + 2) * (D + 4) * (D + 6)))
    # raw moments of the mixture
    mean = pw @ dsp
    assert_mean(R, mean[:, None] * np.ones((N, P)), "mean path")
    # independence between samples at short lag, across blocks and within a block
    c = R.mean(axis=2) - mean
    for lag in sorted({1, 2, case["block_size"], case["block_size"] - 1, case["block_size"] + 1}):
        if 0 < lag < X - 500:
            assert_mean((c[:-lag, :, None] * c[lag:, None, :]), 0.0, f"correlation of samples {lag} apart")
            assert_mean((R[:-lag] - mean[:, None]) * (R[lag:] - mean[:, None]), 0.0, f"bead correlation of samples {lag} apart")
    # a path never repeats
    ensure(len(np.unique(R[:, 0, 0])) >= X - 2, "sampled coordinates repeat")
    independence(R, dsp, Ks, resp, case["block_size"])
    # order of samples: first and second half have the same mean
    h = X // 2
    m1, m2 = R[:h].mean(axis=(0, 2)), R[h:].mean(axis=(0, 2))
    se = np.sqrt((R.mean(axis=2).var(axis=0)) * 2 / h)
    ensure(np.all(np.abs(m1 - m2) < SIGMA * se + 1e-9), f"first and second half of the samples differ: {m1} {m2}")
    return {"weights": [float(x) for x in pw], "n": X}


register("C03", [
    Check("distribution", dist_case(), f_c03, 160, 4000, lambda c: c["rho"]["A"] >= 2 and "lin" in c["rho"]["terms"],
          "random sampling model (1-4 surfaces, 1-3 modes), T, P 3-8, 6000 samples in 1-600 blocks; responsibility-weighted whitened moments, lag correlations; 8-sigma thresholds. Non-trivial: >=2 displaced surfaces", replicas=6),
    Check("distribution_large", dist_case(large=True), f_c03, 24, 800, lambda c: c["rho"]["A"] >= 2 and "lin" in c["rho"]["terms"],
          "the same with 4-9 modes, 1-6 surfaces and 3-24 beads. Non-trivial: >=2 displaced surfaces", replicas=4),
], ["statistical: deviations below 8 standard errors of 6000 samples (or 5 of them confirmed by 8 of 96000) are not seen", "assumes numpy's generator is good"])


@st.composite
def draws_case(draw):
    N = draw(st.integers(1, 3))
    rho = draw(gens.diagonal_spec(N=N, max_A=3, min_A=1))
    if draw(st.sampled_from([True, True, False])):
        rho["A"], rho["terms"] = max(rho["A"], 2), sorted(set(rho["terms"]) | {"lin"})
    P = draw(st.integers(3, 10))
    nb = draw(st.sampled_from([4, 4, 16, 200]))
    total = draw(st.sampled_from([2000000, 4000000, 6000000]))
    return conditions(draw, {"vib": {"A": 1, "N": N, "seed": 1, "terms": ["E"], "wscale": rho["wscale"], "cscale": 1.0}, "rho": rho, "P": P,
                             "seed": draw(gens.seeds()), "block_size": max(total // (N * P * nb), 10), "blocks": nb})


def f_draws(case):
    """moments of millions of draws: displacements, spread of every ring mode and weights of the surfaces to a few parts in a thousand"""
    P = case["P"]
    with scratch() as d:
        FS, data, res, vib, rho = setup_box(case, d)
        tau = 1.0 / (KB * case["T"]) / P
        A, N = rho["A"], rho["N"]
        Et = rho["E"] - 0.5 * (rho["G1"] ** 2 / rho["w"][:, None]).sum(axis=0)
        pw = np.exp(-(Et - Et.min()) * tau * P)
        pw /= pw.sum()
        dsp = (-rho["G1"] / rho["w"][:, None]).T
        EV = [np.linalg.eigh(ring_K(tau, w, P)) for w in rho["w"]]
        X, B = data.samples, data.block_size
        m0, m1, m2 = np.zeros(A), np.zeros((A, N, P)), np.zeros((A, N, P))
        for b in range(case["blocks"]):
            view = slice(b * B, (b + 1) * B)
            data.draw_sample(view)
            data.transform_sampled_coordinates(view)
            R = np.array(data.qTensor[:, 0])
            same(R.shape, (B, N, P), "shape of the paths of a block")
            lw, Y = np.zeros((B, A)), []
            for a in range(A):
                y = np.stack([((R[:, n] - dsp[a, n]) @ EV[n][1]) * np.sqrt(EV[n][0]) for n in range(N)], axis=1)
                lw[:, a] = np.log(pw[a] + 1e-300) - 0.5 * (y ** 2).sum(axis=(1, 2))
                Y.append(y)
            lw -= lw.max(axis=1, keepdims=True)
            r = np.exp(lw)
            r /= r.sum(axis=1, keepdims=True)
            m0 += r.sum(axis=0)
            for a in range(A):
                m1[a] += np.tensordot(r[:, a], Y[a], axes=(0, 0))
                m2[a] += np.tensordot(r[:, a], Y[a] ** 2, axes=(0, 0))
    seen = 0
    for a in range(A):
        lim = SIGMA * (np.sqrt(pw[a] * (1 - pw[a]) / X)) + 8.0 / X
        ensure(abs(m0[a] / X - pw[a]) <= lim + 1e-9, f"surface {a} has weight {pw[a]:.6g}, {X} draws visit it with frequency {m0[a] / X:.6g}")
        if pw[a] * X < 2000:
            continue
        seen += 1
        dev = np.abs(m1[a] / X) / (SIGMA * np.sqrt(pw[a] / X))
        ensure(np.all(dev <= 1), f"mean of {X} draws is displaced from the minimum of surface {a}: (mode, ring mode) {np.unravel_index(int(dev.argmax()), dev.shape)} by {np.ravel(m1[a])[int(dev.argmax())] / X / pw[a]:.3g} standard deviations")
        for v, q, what in ((m2[a], 1, "ring mode"), (m2[a].sum(axis=1), P, "mode")):
            dev = np.abs(v / X - pw[a] * q) / (SIGMA * np.sqrt(pw[a] * q * (q + 2) / X) * 1.05)
            i = np.unravel_index(int(dev.argmax()), dev.shape)
            ensure(np.all(dev <= 1), f"surface {a}: the variance of {what} {tuple(int(k) for k in i)} is {np.asarray(v)[i] / X / pw[a] / q:.5f} times the exact one ({X} draws)")
    return {"X": X, "weights": [float(x) for x in pw], "surfaces": seen}


add_check("C03", Check("draws", draws_case(), f_draws, 16, 500, lambda c: c["rho"]["A"] >= 2 and "lin" in c["rho"]["terms"],
                       "the same with 2-6 million coordinates drawn per case (no weights computed); variance of every mode to some 0.5 %, of every ring mode and the weights of the surfaces to 1 %. Non-trivial: >=2 displaced surfaces", replicas=2))


# ---------------------------------------------------------------- C04 averages
@st.composite
def mean_case(draw, kind):
    A = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    N = 1 if kind == "grid" else draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5]))
    return {"kind": kind, "A": A, "N": N, "mseed": draw(gens.seeds()), "P": draw(st.integers(3, 8)),
            "T": draw(st.sampled_from([300.0, 200.0, 500.0, 1000.0])), "seed": draw(gens.seeds()),
            "block_size": 1000, "blocks": 12, "rho_A": draw(st.sampled_from(["same", "same", "one", "more"])),
            "quad": draw(st.booleans()), "dbeta": draw(st.sampled_from([2e-4, 0.3, 1.0]))}


def build_mean(case):
    rng = np.random.default_rng(case["mseed"])
    A, N = case["A"], case["N"]
    w = rng.uniform(0.05, 0.15, N)
    E = np.diag(rng.uniform(-0.08, 0.08, A))
    lin = np.zeros((N, A, A))
    l0 = rng.uniform(-0.8, 0.8, (N, A)) * w[:, None]
    for a in range(A):
        lin[:, a, a] = l0[:, a]
    G2 = np.zeros((N, N, A, A))
    if case["quad"]:
        q = rng.uniform(-1, 1, (N, N, A)) * 0.15 * np.sqrt(np.outer(w, w))[:, :, None]
        q = (q + q.transpose(1, 0, 2)) / 2
        for a in range(A):
            G2[:, :, a, a] = q[:, :, a]
    if case["kind"] == "grid" and A > 1:
        E = E + gens.sym_A(rng, (A, A), 0.05) * (1 - np.eye(A))
        lin = lin + gens.sym_A(rng, (N, A, A), 0.03) * (1 - np.eye(A))
        if case["quad"]:
            G2 = G2 + gens.sym_A(rng, (N, N, A, A), 0.006) * (1 - np.eye(A))
    vib = {"A": A, "N": N, "E": gens.r(E), "w": gens.r(w), "G1": gens.r(lin), "G2": gens.r(G2)}
    # a broad sampling model near the vibronic one
    rA = {"same": A, "one": 1, "more": A + 1}[case["rho_A"]]
    rw = gens.r(w * rng.uniform(0.55, 0.8, N))
    rE = np.array([E[a % A, a % A] for a in range(rA)]) + rng.uniform(-0.01, 0.01, rA)
    if rA == 1 and A > 1:
        # keep the single oscillator broad enough for all surfaces
        rl = np.array([[0.5 * l0[n].mean() / w[n] * rw[n]] for n in range(N)])
    else:
        rl = np.array([[(l0[n, a % A] / w[n] + rng.uniform(-0.15, 0.15)) * rw[n] for a in range(rA)] for n in range(N)])
    rho = {"A": rA, "N": N, "E": gens.r(rE), "w": rw, "G1": gens.r(rl)}
    return vib, rho


def z_rho(m, beta, P):
    """integral of the denominator over all paths, without the (2 pi)^(NP/2)"""
    Et = m["E"] - 0.5 * (m["G1"] ** 2 / m["w"][:, None]).sum(axis=0)
    return np.exp(-beta * Et).sum() / np.prod(2 * np.sinh(beta * m["w"] / 2))


def z_vib_gauss(m, beta, P):
    """uncoupled surfaces (linear + quadratic): Gaussian integral, without the (2 pi)^(NP/2)"""
    tau = beta / P
    A, N = m["A"], m["N"]
    tot = 0.0
    for a in range(A):
        l = m["G1"][:, a, a]
        w = m["w"]
        dsp = -l / w
        Et = m["E"][a, a] - 0.5 * (l ** 2 / w).sum()
        # exponent: -1/2 (R-d)^T K (R-d) - tau/2 R^T G R
        K = np.zeros((N * P, N * P))
        G = np.zeros((N * P, N * P))
        for n in range(N):
            K[n * P:(n + 1) * P, n * P:(n + 1) * P] = ring_K(tau, w[n], P)
            for k in range(N):
                G[n * P:(n + 1) * P, k * P:(k + 1) * P] = np.eye(P) * m["G2"][n, k, a, a] * tau
        G = (G + G.T) / 2
        d = np.repeat(dsp, P)
        M = K + G
        ev = np.linalg.eigvalsh(M)
        if ev.min() <= 0.05:
            raise Skip()
        b = K @ d
        s = 0.5 * b @ np.linalg.solve(M, b) - 0.5 * d @ b
        lg = -0.5 * np.log(ev).sum() + s - beta * Et - 0.5 * P * np.log(np.sinh(tau * w)).sum()
        tot += np.exp(lg)
    return tot


def z_vib_grid(m, beta, P, n=240, L=7.0):
    """one mode, coupled surfaces: transfer matrix on a grid, without the (2 pi)^(P/2)"""
    from ..pimc_ref import coupling
    tau = beta / P
    A, w = m["A"], m["w"][0]
    sig = np.sqrt(ring_cov(tau, w, P)[0, 0])
    dsp = np.array([-m["G1"][0, a, a] / w for a in range(A)])
    x = np.linspace(dsp.min() - L * sig - 0.5, dsp.max() + L * sig + 0.5, n)
    h = x[1] - x[0]
    Ms = np.empty((n, A, A))
    for i in range(n):
        ev, U = np.linalg.eigh(coupling(m, x[i:i + 1]))
        Ms[i] = (U * np.exp(-tau * ev)) @ U.T
    K = np.zeros((n, A, n, A))
    X1, X2 = np.meshgrid(x, x, indexing="ij")
    for a in range(A):
        q1, q2 = X1 - dsp[a], X2 - dsp[a]
        Et = m["E"][a, a] - 0.5 * m["G1"][0, a, a] ** 2 / w
        O = np.exp(-0.5 * ((q1 ** 2 + q2 ** 2) / np.tanh(tau * w) - 2 * q1 * q2 / np.sinh(tau * w)) - tau * Et) / np.sqrt(np.sinh(tau * w))
        for b in range(A):
            K[:, b, :, a] = Ms[:, b, a][:, None] * O * h / np.sqrt(2 * np.pi)
    K = K.reshape(n * A, n * A)
    if h > 1.2 * np.sqrt(np.tanh(tau * w)) :
        raise Skip()
    return np.trace(np.linalg.matrix_power(K, P))


FIRST, FOLLOW = 3.5, 16      # deviations above FIRST standard errors are looked at again with FOLLOW times the samples


def f_c04(case):
    obs, doubt = mean_ratios(case)
    if doubt:
        # fresh paths, many more of them: only what persists at 8 standard errors is reported
        more = dict(case, blocks=case["blocks"] * FOLLOW, seed=(case["seed"] + 7919) % 2 ** 31)
        again, _ = mean_ratios(more)
        obs["followed_up"] = again
    return obs


def mean_ratios(case):
    vib, rho = build_mean(case)
    with scratch() as d:
        o = run(case, d, pm=True, record=False, vib=vib, rho=rho)
        with scratch() as d2:
            o1 = run(case, d2, pm=False, record=False, vib=vib, rho=rho)
    P, db = case["P"], case["dbeta"]
    z = z_vib_grid if case["kind"] == "grid" else z_vib_gauss
    zr = z_rho(rho, o.beta, P)
    obs, doubt = {}, False
    for name, arr, den, b in [("unshifted", o.g, o.rho, o.beta), ("plus", o.gp, o.rho, o.beta + db), ("minus", o.gm, o.rho, o.beta - db), ("plain", o1.g, o1.rho, o1.beta)]:
        ratio = arr / den
        ref = z(vib, b, P) / zr
        m, se = ratio.mean(), ratio.std(ddof=1) / np.sqrt(len(ratio))
        # heavy tails would make the standard error meaningless
        if np.max(np.abs(ratio)) > 0.05 * np.abs(ratio).sum():
            raise Skip()
        obs[name] = [float(m), float(ref), float((m - ref) / se) if se > 0 else 0.0]
        ensure(abs(m - ref) <= SIGMA * se + 1e-6 * abs(ref), f"{name}: mean ratio {m:.6g} +- {se:.2g}, partition function ratio {ref:.6g}")
        doubt |= bool(abs(m - ref) > FIRST * se + 1e-6 * abs(ref))
    return obs, doubt


register("C04", [
    Check("gaussian", mean_case("gauss"), f_c04, 60, 1600, lambda c: c["A"] >= 2, "uncoupled surfaces with linear and quadratic terms, 1-3 modes, analytic Gaussian integral as reference; sampling model with fewer, equal or more surfaces; 12000 samples. Non-trivial: >=2 surfaces", replicas=4),
    Check("grid", mean_case("grid"), f_c04, 40, 1200, lambda c: c["A"] >= 2, "one mode, 1-3 coupled surfaces, transfer-matrix reference on a grid; 12000 samples. Non-trivial: >=2 coupled surfaces", replicas=4),
], ["statistical: 8 standard errors of 12000 samples, or 3.5 of them confirmed by 8 of 192000", "cases with heavy-tailed ratios are skipped"])


# ---------------------------------------------------------------- C05 block partition and reuse
@st.composite
def block_case(draw):
    N = draw(st.integers(1, 3))
    steps = []
    for _ in range(draw(st.integers(1, 3))):
        vib = draw(gens.coupled_spec(max_A=3, min_N=N, max_N=N))
        steps.append(conditions(draw, {"vib": vib, "rho": draw(gens.diagonal_spec(N=N, max_A=3)), "P": draw(st.integers(3, 6)),
                                       "seed": draw(gens.seeds()), "block_size": draw(st.integers(1, 5)), "blocks": draw(st.one_of(st.integers(1, 7), st.integers(1, 7), st.integers(8, 14)))}))
    return {"pm": draw(st.booleans()), "steps": steps}


def f_c05(case):
    """a sequence of calculations on ONE calculation object, each with its own settings"""
    from pibronic.data.file_structure import FileStructure
    from pibronic.pimc import pimc
    pm = case["pm"]
    rec = []

    base = pimc.BoxDataPM if pm else pimc.BoxData
    data = recorder(base, rec)()
    n = 0
    with scratch() as d:
        done = []
        for i, s in enumerate(case["steps"]):
            vib, rho = gens.build_coupled(s["vib"]), gens.build_diagonal(s["rho"])
            FS = FileStructure(d, i, 0)
            gens.write_json_model(FS.path_vib_model, vib)
            gens.write_json_model(FS.path_rho_model, rho)
            FS.generate_model_hashes()
            data.path_vib_model, data.path_rho_model = FS.path_vib_model, FS.path_rho_model
            data.hash_vib, data.hash_rho = FS.hash_vib, FS.hash_rho
            data.states, data.modes = vib["A"], vib["N"]
            data.block_size, data.blocks = s["block_size"], s["blocks"]
            data.samples = X = s["block_size"] * s["blocks"]
            data.beads, data.temperature = s["P"], s["T"]
            if pm and "dbeta" in s:
                data.delta_beta = s["dbeta"]
            np.random.seed(s["seed"])
            data.preprocess()
            res = (pimc.BoxResultPM if pm else pimc.BoxResult)(data=data)
            res.path_root, res.id_job = FS.path_rho_results, i
            del rec[:]
            (pimc.block_compute_pm if pm else pimc.block_compute)(data, res)

            class O:
                pass
            o = O()
            o.vib, o.rho_model, o.R = vib, rho, recorded_paths(base, rec)
            o.beta = 1 / (KB * s["T"])
            o.tau = o.beta / s["P"]
            o.g, o.rho = res.scaled_g, res.scaled_rho
            cols = {"s_g": o.g, "s_rho": o.rho}
            if pm:
                o.gp, o.gm = res.scaled_gofr_plus, res.scaled_gofr_minus
                cols.update(s_gP=o.gp, s_gM=o.gm)
            for k, v in cols.items():
                same(np.shape(v), (X,), f"shape of {k}")
                ensure(np.all(np.isfinite(v)), f"calculation {i}: {k} of samples {np.where(~np.isfinite(v))[0]} not computed")
            try:
                check_weights(s, o, pm)
                n += X
            except Skip:
                pass
            files = sorted(os.listdir(FS.path_rho_results))
            same(files, [f"P{s['P']:d}_T{s['T']:.2f}_J{i}_data_points.npz"], "result files")
            p = os.path.join(FS.path_rho_results, files[0])
            done.append((p, {k: np.array(v) for k, v in cols.items()}, X, FS.hash_vib, FS.hash_rho))
        for p, cols, X, hv, hr in done:
            with np.load(p) as f:
                for k, v in cols.items():
                    same(f[k], v, f"saved {k}")
                same(int(f["number_of_samples"]), X, "saved number of samples")
                same(str(f["hash_vib"]), hv, "saved model hash")
                same(str(f["hash_rho"]), hr, "saved sampling model hash")
    return {"samples": n}


@st.composite
def reuse_case(draw):
    N = draw(st.integers(1, 2))
    vib, rho = draw(gens.coupled_spec(max_A=3, min_N=N, max_N=N)), draw(gens.diagonal_spec(N=N, max_A=3))
    steps = []
    for _ in range(draw(st.integers(2, 3))):
        s = conditions(draw, {"vib": vib, "rho": rho, "P": draw(st.integers(3, 6)), "seed": draw(gens.seeds()), "block_size": draw(st.integers(1, 3)), "blocks": draw(st.integers(1, 2))})
        steps.append(dict(s, dbeta=draw(st.sampled_from([2e-4, 0.0, 1e-2, 0.5, 1.5, -0.3]))))
    return {"pm": True, "steps": steps}


add_check("C02", Check("reused", reuse_case(), f_c05, 150, 3000, lambda c: len({(s["P"], s["T"], s["dbeta"]) for s in c["steps"]}) > 1 and nt_weights(c["steps"][0]),
                       "2-3 consecutive plus/minus calculations of the same models on one object, each with its own temperature, beads and step; non-trivial: different settings and couplings the oscillators do not absorb", replicas=3))


register("C05", [
    Check("blocks", block_case(), f_c05, 500, 10000, lambda c: len(c["steps"]) > 1 and any(s["blocks"] > 1 for s in c["steps"]),
          "1-3 consecutive calculations on one object, each with its own models, T, P, 1-14 blocks of 1-5 samples, plain or plus/minus; non-trivial: several calculations and several blocks", replicas=6),
], ["samples = blocks x block size, as the job planner guarantees"])


# ---------------------------------------------------------------- C06 result files
@st.composite
def files_case(draw):
    nf = draw(st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(1, 5), st.integers(9, 14)))
    size = st.integers(1, 7) if draw(st.integers(0, 3)) else st.one_of(st.integers(1, 7), st.integers(90, 1100))
    files = [{"n": draw(size), "kind": draw(st.sampled_from(["plain", "pm", "pm", "nokey"])), "J": i} for i in range(nf)]
    total = sum(f["n"] for f in files)
    return {"files": files, "pm": draw(st.booleans()), "cap": draw(st.one_of(st.none(), st.integers(1, total + 3))),
            "order": draw(st.permutations(list(range(nf)))), "dup": draw(st.sampled_from([0, 0, 1, 2])), "preset": draw(st.sampled_from([None, "right", "wrong"])),
            "dirs": draw(st.sampled_from([1, 1, 2, 3])), "used": draw(st.booleans()),
            "missing": draw(st.sampled_from(["s_g", "s_rho", "number_of_samples", "s_gP", "s_gM"]))}


def col(fi, n, k):
    """distinct, exactly recognisable values"""
    return 1.0 + fi * 10000 + np.arange(n) + {"s_g": 0.125, "s_rho": 0.25, "s_gP": 0.5, "s_gM": 0.75}[k]


def f_c06_multi(case):
    from pibronic.pimc import pimc
    with scratch() as d:
        paths = []
        good = []
        for i, f in enumerate(case["files"]):
            ks = ["s_g", "s_rho"] + (["s_gP", "s_gM"] if f["kind"] != "plain" else [])
            cols = {k: col(i, f["n"], k) for k in ks}
            cols.update(number_of_samples=f["n"], hash_vib="a", hash_rho="b")
            if f["kind"] == "nokey":
                del cols[case["missing"]]
            # several directories hold files of the same name
            nd = case.get("dirs", 1)
            os.makedirs(os.path.join(d, str(i % nd)), exist_ok=True)
            p = os.path.join(d, str(i % nd), f"P5_T300.00_J{f['J'] // nd}_data_points.npz")
            np.savez(p, **cols)
            paths.append(p)
            if f["kind"] == "pm" or (f["kind"] == "plain" and not case["pm"]) or (f["kind"] == "nokey" and not case["pm"] and case["missing"] in ("s_gP", "s_gM")):
                good.append(i)
        before = {p: open(p, "rb").read() for p in paths}
        lst = [paths[i] for i in case["order"]]
        lst = lst + lst[:case["dup"]]
        res = (pimc.BoxResultPM if case["pm"] else pimc.BoxResult)()
        if case.get("used") and good:
            # an object which has been filled before
            res.load_multiple_results([paths[good[-1]]] if len(case["files"]) % 2 else [paths[i] for i in good])
        arg = list(lst)
        if not good:
            from ..core import must_fail
            must_fail(lambda: res.load_multiple_results(arg, case["cap"]), "only incomplete files")
            return None
        if case["cap"] is None:
            res.load_multiple_results(arg)
        else:
            res.load_multiple_results(arg, case["cap"])
        total = sum(case["files"][i]["n"] for i in good)
        want = total if case["cap"] is None else min(total, case["cap"])
        arrs = {"s_g": res.scaled_g, "s_rho": res.scaled_rho}
        if case["pm"]:
            arrs.update(s_gP=res.scaled_gofr_plus, s_gM=res.scaled_gofr_minus)
        same(int(res.samples), want, "number of samples")
        off = {"s_g": 0.125, "s_rho": 0.25, "s_gP": 0.5, "s_gM": 0.75}
        ids = None
        legal = {1.0 + i * 10000 + j for i in good for j in range(case["files"][i]["n"])}
        for k, v in arrs.items():
            same(np.shape(v), (want,), f"shape of {k}")
            ident = np.asarray(v) - off[k]
            ensure(set(ident.tolist()) <= legal and len(set(ident.tolist())) == want, f"{k} holds {short(ident)}: lost, foreign or repeated samples (files {case['files']})")
            if ids is None:
                ids = ident
            same(ident, ids, f"{k} is not aligned with the numerators")
        # whole files come from the front: at most one file is cut
        cut = 0
        for i in good:
            m = sorted(x - 1.0 - i * 10000 for x in ids if 1.0 + i * 10000 <= x < 1.0 + i * 10000 + 10000)
            ensure(m == list(range(len(m))), f"samples of file {i} taken out of order: {m}")
            cut += 0 < len(m) < case["files"][i]["n"]
        ensure(cut <= 1, "several files were cut")
        for p, b in before.items():
            ensure(open(p, "rb").read() == b, "a result file was modified")
    return {"want": want, "total": total}


def f_c06_single(case):
    from pibronic.pimc import pimc
    from ..core import must_fail
    with scratch() as d:
        for i, f in enumerate(case["files"]):
            pm = f["kind"] == "pm"
            n = f["n"]
            cls = pimc.BoxResultPM if pm else pimc.BoxResult

            class D:
                beads, temperature, samples, hash_vib, hash_rho = 4 + i, 300.25, n, "h%d" % i, "r%d" % i
            res = cls(data=D)
            res.path_root, res.id_job = d, f["J"]
            ks = ["s_g", "s_rho"] + (["s_gP", "s_gM"] if pm else [])
            vals = {k: col(i, n, k) for k in ks}
            attr = {"s_g": "scaled_g", "s_rho": "scaled_rho", "s_gP": "scaled_gofr_plus", "s_gM": "scaled_gofr_minus"}
            for k in ks:
                getattr(res, attr[k])[:] = vals[k]
            res.save_results(n)
            p = os.path.join(d, f"P{4 + i}_T300.25_J{f['J']}_data_points.npz")
            ensure(os.path.isfile(p), f"no result file {os.path.basename(p)}; present {os.listdir(d)}")
            same(int(cls.read_number_of_samples(p)), n, "recorded number of samples")
            back = cls() if case["preset"] is None else cls(X=n if case["preset"] == "right" else n + 1)
            if case["preset"] == "wrong":
                must_fail(lambda: back.load_results(p), "file with a different number of samples")
                continue
            back.load_results(p)
            same(int(back.samples), n, "number of samples after loading")
            for k in ks:
                same(np.array(getattr(back, attr[k])), vals[k], f"{k} after loading")
            if case["missing"] != "number_of_samples" and case["missing"] in ks:
                with np.load(p) as z:
                    rest = {k: z[k] for k in z.files if k != case["missing"]}
                with scratch() as d2:
                    q = os.path.join(d2, os.path.basename(p))
                    np.savez(q, **rest)
                    must_fail(lambda: cls().load_results(q), f"file without {case['missing']}")
            if not pm:
                must_fail(lambda: pimc.BoxResultPM().load_results(p), "plus/minus load of a file without shifted numerators")
        same(len(os.listdir(d)), len(case["files"]), "number of files written")
    return None


register("C06", [
    Check("aggregate", files_case(), f_c06_multi, 700, 12000, lambda c: len(c["files"]) > 1 and len({f["kind"] for f in c["files"]}) > 1 or c["cap"] is not None,
          "1-14 result files (plain, plus/minus, lacking a required quantity) of 1-7, seldom up to 1100, recognisable samples in 1-3 directories (names repeat), any order, repeated paths, with/without cap, new or used result objects; non-trivial: mixed kinds or a cap", replicas=3),
    Check("single", files_case(), f_c06_single, 300, 5000, lambda c: len(c["files"]) > 1, "save then load results of both kinds; non-trivial: several files in one directory", replicas=2),
], [])
