"""Generators shared by the properties.  Cases are compact JSON specs; arrays are built deterministically from them."""
import numpy as np
from .core import st

TERMS = ["E", "E_off", "lin_diag", "lin_off", "quad_diag", "quad_off"]


def seeds():
    return st.integers(0, 2**31 - 1)


@st.composite
def coupled_spec(draw, max_A=3, max_N=3, min_A=1, min_N=1, terms=tuple(TERMS)):
    A = draw(st.integers(min_A, max_A))
    N = draw(st.integers(min_N, max_N))
    present = [t for t in terms if draw(st.booleans())]
    return {"A": A, "N": N, "seed": draw(seeds()), "terms": present,
            "wscale": draw(st.sampled_from([1.0, 0.3, 3.0])), "cscale": draw(st.sampled_from([1.0, 0.3, 2.0])),
            "mask": draw(st.sampled_from([None, None, None, "products", "squares", "sparse", "degenerate", "one_mode", "equal_w"]))}


@st.composite
def diagonal_spec(draw, max_A=4, N=None, max_N=3, min_A=1):
    A = draw(st.integers(min_A, max_A))
    if N is None:
        N = draw(st.integers(1, max_N))
    return {"A": A, "N": N, "seed": draw(seeds()), "terms": [t for t in ("E", "lin") if draw(st.booleans())],
            "wscale": draw(st.sampled_from([1.0, 0.3, 3.0]))}


def sym_A(rng, shape, scale):
    x = rng.uniform(-scale, scale, shape)
    return (x + np.swapaxes(x, -1, -2)) / 2


def r(x):
    """keep the numbers short"""
    return np.round(np.asarray(x, dtype=float), 5)


def build_coupled(spec):
    """dict with plain string keys E,w,G1,G2 (float arrays); dimensionless normal modes, eV"""
    rng = np.random.default_rng(spec["seed"])
    A, N, t, c = spec["A"], spec["N"], spec["terms"], spec["cscale"]
    w = rng.uniform(0.04, 0.12, N) * spec["wscale"]
    off = 1.0 - np.eye(A)
    E0 = np.diag(rng.uniform(-0.25, 0.25, A))
    E1 = sym_A(rng, (A, A), 0.05 * c) * off
    l0 = rng.uniform(-1.2, 1.2, (N, A)) * w[:, None]
    l1 = sym_A(rng, (N, A, A), 0.04 * c) * off
    q = sym_A(rng, (N, N, A, A), 0.02 * c)
    q = (q + q.transpose(1, 0, 2, 3)) / 2
    mask = spec.get("mask")
    if mask == "products":          # only products of different modes
        q = q * (1.0 - np.eye(N))[:, :, None, None]
    elif mask == "squares":         # only squares of modes
        q = q * np.eye(N)[:, :, None, None]
    elif mask == "sparse":          # half of the elements vanish
        k = np.random.default_rng(spec["seed"] + 1)
        a = np.triu(k.random((A, A)) < 0.5)
        m = np.triu(k.random((N, N)) < 0.5)
        a, m = a | a.T, m | m.T
        E1, l1, l0, q = E1 * a, l1 * a, l0 * (k.random((N, A)) < 0.5), q * a * m[:, :, None, None]
    elif mask == "degenerate":      # equal surfaces
        E0, l0 = np.eye(A) * E0[0, 0], np.repeat(l0[:, :1], A, axis=1)
    elif mask == "one_mode":        # only the last mode couples
        l0[:-1], l1[:-1] = 0.0, 0.0
        q[:-1], q[:, :-1] = 0.0, 0.0
    elif mask == "equal_w":
        w[:] = w[0]
    E = np.zeros((A, A))
    G1 = np.zeros((N, A, A))
    G2 = np.zeros((N, N, A, A))
    if "E" in t:
        E += E0
    if "E_off" in t:
        E += E1
    if "lin_diag" in t:
        for a in range(A):
            G1[:, a, a] += l0[:, a]
    if "lin_off" in t:
        G1 += l1
    if "quad_diag" in t:
        G2 += q * np.eye(A)
    if "quad_off" in t:
        G2 += q * off
    E = E + spec.get("off", 0.0) * np.eye(A)
    return {"A": A, "N": N, "E": r(E), "w": r(w), "G1": r(G1), "G2": r(G2)}


def build_diagonal(spec):
    rng = np.random.default_rng(spec["seed"])
    A, N, t = spec["A"], spec["N"], spec["terms"]
    w = rng.uniform(0.04, 0.12, N) * spec["wscale"]
    E = rng.uniform(-0.25, 0.25, A) if "E" in t else np.zeros(A)
    lin = rng.uniform(-1.2, 1.2, (N, A)) * w[:, None] if "lin" in t else np.zeros((N, A))
    return {"A": A, "N": N, "E": r(E + spec.get("off", 0.0)), "w": r(w), "G1": r(lin)}


def turned(m):
    """the items of a dictionary, beginning anywhere (depending on the values only): nothing may depend on the order of the keys"""
    x = list(m.items())
    r = int(abs(float(np.ravel(np.asarray(m.get("w", 0.0), dtype=float))[0])) * 1e6) % max(len(x), 1) if np.size(m.get("w", 0.0)) else 0
    return x[r:] + x[:r]


def to_vmk(m):
    """library's dictionary form"""
    from pibronic.vibronic import VMK
    keys = {"N": VMK.N, "A": VMK.A, "E": VMK.E, "w": VMK.w, "G1": VMK.G1, "G2": VMK.G2, "G3": VMK.G3, "G4": VMK.G4}
    return {keys[k]: (v if k in "NA" else np.array(v, dtype=np.float64)) for k, v in turned(m)}


def write_json_model(path, m, zeros=False):
    """writes a model file independently of the library (same documented format, zero arrays omitted unless zeros is set)"""
    import json
    names = {"N": "number of modes", "A": "number of surfaces", "E": "energies", "w": "frequencies", "G1": "linear couplings",
             "G2": "quadratic couplings", "G3": "cubic couplings", "G4": "quartic couplings"}
    d = {}
    for k, v in turned(m):
        if k in "NA":
            d[names[k]] = int(v)
        elif zeros or np.any(np.asarray(v) != 0):
            d[names[k]] = np.asarray(v).tolist()
    with open(path, "w") as f:
        json.dump(d, f)
