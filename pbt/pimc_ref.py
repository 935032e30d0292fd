"""Independent reference for the discretised path weights, and a driver for the library's PIMC."""
import os
import numpy as np
from . import gens
from .core import Skip, ensure

KB = 1.38064852e-23 / 1.6021766208e-19


def log_o(m, tau, q):
    """log of the oscillator factors of a diagonal model; q (P,N); returns (P,A)"""
    P, N = q.shape
    out = np.zeros((P, m["A"]))
    E = m["E"] if m["E"].ndim == 1 else np.diag(m["E"])
    lin = m["G1"] if m["G1"].ndim == 2 else np.array([np.diag(x) for x in m["G1"]])
    for p in range(P):
        pn = (p + 1) % P
        for a in range(m["A"]):
            s = 0.0
            e = E[a]
            for n in range(N):
                w = m["w"][n]
                d = -lin[n, a] / w
                x, y = q[p, n] - d, q[pn, n] - d
                s -= 0.5 * ((x * x + y * y) / np.tanh(tau * w) - 2 * x * y / np.sinh(tau * w))
                s -= 0.5 * np.log(np.sinh(tau * w))
                e -= 0.5 * lin[n, a] ** 2 / w
            out[p, a] = s - tau * e
    return out


def coupling(m, x):
    """what is not in the oscillators, at one point x (N,)"""
    A, N = m["A"], m["N"]
    V = np.zeros((A, A))
    for a in range(A):
        for b in range(A):
            if a != b:
                V[a, b] += m["E"][a, b]
                V[a, b] += sum(m["G1"][n, a, b] * x[n] for n in range(N))
            V[a, b] += 0.5 * sum(m["G2"][i, j, a, b] * x[i] * x[j] for i in range(N) for j in range(N))
    return V


def weight_g(m, tau, R):
    """Tr prod_p M_p O_p as (log scale, value, bound); weight = value*exp(log scale); |terms| <= bound*exp(log scale)"""
    A, N, P = m["A"], m["N"], R.shape[1]
    q = R.T
    lo = log_o(m, tau, q)
    acc = np.eye(A)
    bnd = np.eye(A)
    logs = 0.0
    for p in range(P):
        ev, U = np.linalg.eigh(coupling(m, q[p]))
        M = (U * np.exp(-tau * ev)) @ U.T
        s = lo[p].max()
        O = np.exp(lo[p] - s)
        nm = np.abs(M).max()
        acc = (acc @ (M / nm)) * O[None, :]
        bnd = (bnd @ (np.abs(M) / nm + 1e-10)) * O[None, :]
        k = bnd.max()
        acc, bnd = acc / k, bnd / k
        logs += s + np.log(nm) + np.log(k)
    return logs, np.trace(acc), np.trace(bnd)


def log_rho(m, tau, R):
    x = log_o(m, tau, R.T).sum(axis=0)
    k = x.max()
    return k + np.log(np.exp(x - k).sum())


def max_log_o(models, tau, R):
    return np.max([log_o(m, tau, R.T).max(axis=1) for m in models], axis=0).sum()


class Run:
    pass


def recorder(base, rec):
    """a calculation class which also records the coordinates (block, modes, beads) of each block it transforms"""
    class Recorder(base):
        def transform_sampled_coordinates(self, *a, **k):
            x = super().transform_sampled_coordinates(*a, **k)
            q = np.array(self.qTensor)
            rec.append(q.reshape(q.shape[0], *q.shape[-2:]) if q.size == q.shape[0] * q.shape[-2] * q.shape[-1] else q[:, 0])
            return x
    return Recorder


def recorded_paths(base, rec):
    if not rec and not hasattr(base, "transform_sampled_coordinates"):
        raise Skip()  # the paths cannot be observed
    ensure(rec, "the calculation transformed no sampled coordinates")
    return np.concatenate(rec)


def run(case, root, pm=False, record=True, vib=None, rho=None):
    """drive the library end to end for a case; returns a Run with R (X,N,P), g, rho, (gp, gm), saved file path"""
    from pibronic.data.file_structure import FileStructure
    from pibronic.pimc import pimc
    vib = vib if vib is not None else gens.build_coupled(case["vib"])
    rho = rho if rho is not None else gens.build_diagonal(case["rho"])
    FS = FileStructure(root, case.get("id_data", 0), case.get("id_rho", 0))
    gens.write_json_model(FS.path_vib_model, vib)
    gens.write_json_model(FS.path_rho_model, rho)
    FS.generate_model_hashes()
    out = Run()
    rec = []
    base = pimc.BoxDataPM if pm else pimc.BoxData

    cls = recorder(base, rec) if record else base
    data = cls(case["dbeta"]) if pm and case.get("dbeta") is not None else cls()
    data.id_data, data.id_rho = FS.id_data, FS.id_rho
    data.path_vib_model, data.path_rho_model = FS.path_vib_model, FS.path_rho_model
    data.hash_vib, data.hash_rho = FS.hash_vib, FS.hash_rho
    data.states, data.modes = vib["A"], vib["N"]
    data.block_size, data.blocks = case["block_size"], case["blocks"]
    data.samples = data.block_size * data.blocks
    data.beads, data.temperature = case["P"], case["T"]
    np.random.seed(case["seed"])
    data.preprocess()
    res = (pimc.BoxResultPM if pm else pimc.BoxResult)(data=data)
    res.path_root = FS.path_rho_results
    res.id_job = case.get("J", 0)
    (pimc.block_compute_pm if pm else pimc.block_compute)(data, res)
    out.FS, out.data, out.res, out.vib, out.rho_model = FS, data, res, vib, rho
    out.R = recorded_paths(base, rec) if record else None
    out.g, out.rho = np.array(res.scaled_g), np.array(res.scaled_rho)
    if pm:
        out.gp, out.gm = np.array(res.scaled_gofr_plus), np.array(res.scaled_gofr_minus)
    out.path = os.path.join(FS.path_rho_results, f"P{case['P']:d}_T{case['T']:.2f}_J{res.id_job:d}_data_points.npz")
    out.beta = 1.0 / (KB * case["T"])
    out.tau = out.beta / case["P"]
    return out
