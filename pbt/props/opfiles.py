"""C09: MCTDH operator files."""
import os
import numpy as np
from ..core import Check, Violation, ensure, same, close, register, scratch, st, must_fail
from .. import gens
from . import models as M

SECTIONS = ["C1", "C2d", "C2o", "C3", "C4", "B3", "B4", "A4"]


@st.composite
def op_case(draw):
    A, N = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    big = draw(st.sampled_from([0, 0, 0, 0, 0, 1, 2]))
    if big == 1:
        A = draw(st.integers(9, 12))
        N = min(N, 2)
    elif big == 2:
        N = draw(st.integers(9, 11))
        A = min(A, 2)
    return {"A": A, "N": N, "seed": draw(gens.seeds()), "fmt": draw(st.sampled_from(["fix", "sci", "repr"])),
            "density": {k: draw(st.sampled_from([0.0, 0.15, 0.6, 1.0])) for k in SECTIONS},
            "shuffle": draw(st.booleans()), "comments": draw(st.booleans()), "trailing": draw(st.booleans()), "zeroE": draw(st.sampled_from([False, False, False, True])),
            "previous": draw(st.booleans()), "small": [k for k in SECTIONS if draw(st.integers(0, 4)) == 0]}


def build(case):
    """text of the file and the model it states"""
    rng = np.random.default_rng(case["seed"])
    A, N = case["A"], case["N"]
    m = {"A": A, "N": N, "w": np.round(rng.uniform(0.005, 0.5, N), 6), "E": np.zeros((A, A)), "G1": np.zeros((N, A, A)), "G2": np.zeros((N, N, A, A)),
         "G3": np.zeros((N,) * 3 + (A, A)), "G4": np.zeros((N,) * 4 + (A, A))}

    def num(sec=None):
        x = rng.normal(0, 0.1)
        if sec in case["small"]:
            x *= 1e-7 if case["fmt"] == "fix" else 1e-11
        if case["fmt"] == "fix":
            s = f"{x:.9f}"
        elif case["fmt"] == "sci":
            s = f"{x:.8E}"
        else:
            s = repr(x)
        return s, float(s)

    def line(name, s):
        return f"{name:<25s}=   {s:>14s}    , ev" + (" " if case["trailing"] else "")

    lines = {k: [] for k in SECTIONS}

    def state(sec, name, arr, idxs):
        if rng.random() >= case["density"][sec]:
            return
        s, v = num(sec)
        lines[sec].append(line(name, s))
        for i in idxs:
            arr[i] = v

    for a in range(A):
        for b in range(a, A):
            sab, s_b = f"s{a + 1:02}s{b + 1:02}", f"s{a + 1:02}_s{b + 1:02}"

            def both(*modes):
                return [tuple(modes) + (a, b), tuple(modes) + (b, a)]
            for j in range(N):
                state("C1", f"C1_{s_b}_v{j + 1:02}", m["G1"], both(j))
                state("C2d", f"C2_{sab}_v{j + 1:02}v{j + 1:02}", m["G2"], both(j, j))
                state("C3", f"C3_{s_b}_v{j + 1:02}", m["G3"], both(j, j, j))
                state("C4", f"C4_{s_b}_v{j + 1:02}", m["G4"], both(j, j, j, j))
                for i in range(N):
                    if i == j:
                        continue
                    vv = f"_v{j + 1:02}v{i + 1:02}"
                    if j > i:
                        state("C2o", f"C2_{sab}" + vv, m["G2"], both(j, i) + both(i, j))
                        state("A4", f"A4_{sab}" + vv, m["G4"], both(j, j, i, i))
                    state("B3", f"B3_{sab}" + vv, m["G3"], both(j, i, i))
                    state("B4", f"B4_{sab}" + vv, m["G4"], both(j, i, i, i))
    sp = " " if case["trailing"] else ""
    L = ["OP_DEFINE-SECTION", "title", "IP" + sp, "end-title", "end-op_define-section", "", "", "PARAMETER-SECTION", "", "", "#        Frequencies" + sp, "# ------------------------" + sp, ""]
    L += [f"w{j + 1:02}                      =       {m['w'][j]!r}   , ev" + sp for j in range(N)]
    L += ["", "#        Zeropoint energy     1.3144241232", "", "#   Electronic Hamitonian" + sp, "#   Vertical energies - Zeropoint" + sp, "# -------------------------------" + sp, ""]
    for a in range(A):
        s, v = ("0.000000", 0.0) if case["zeroE"] else num()
        m["E"][a, a] = v
        L.append(f"EH_s{a + 1:02}_s{a + 1:02}               =      {s}    , ev" + sp)
    L += ["", "#     Electronic transition moments", "# ----------------------------------", "#     Magnetic transition moments", "# ----------------------------------"]
    heads = [("#  Linear Coupling Constants", ["C1"]), ("#  Diagonal Quadratic Coupling Constants", ["C2d"]), ("# Off_diagonal Quadratic Coupling Constants", ["C2o"]),
             ("#  Cubic Coupling Constants", ["C3"]), ("#  Quartic Coupling Constants", ["C4"]), ("#  Bi-Cubic Constants", ["B3"]), ("#  Bi-Quartic Constants", ["B4", "A4"])]
    for h, secs in heads:
        L += [h + sp, "# --------------------------" + sp, ""]
        body = [x for s in secs for x in lines[s]]
        if case["shuffle"]:
            body = [body[i] for i in rng.permutation(len(body))]
        if case["comments"] and body:
            body.insert(int(rng.integers(0, len(body) + 1)), "# " + body[int(rng.integers(0, len(body)))].replace("=   ", "=   9"))
        L += body + ["", ""] if case["comments"] else body + [""]
    L += ["", "end-parameter-section", "", ""]
    return "\n".join(L), m


def f_op(case):
    from pibronic.vibronic import vIO, VMK
    from pibronic.data.file_structure import FileStructure
    text, m = build(case)
    with scratch() as d:
        if case["previous"]:    # another, larger file read before
            p0 = os.path.join(d, "previous.op")
            with open(p0, "w") as f:
                f.write(build({**case, "A": case["A"] + 1, "N": case["N"] + 1 if case["N"] < 5 else case["N"], "seed": 7})[0])
            vIO.read_model_op_file(p0)
        path = os.path.join(d, "molecule_vibron.op")
        with open(path, "w") as f:
            f.write(text)
        got = vIO.read_model_op_file(path)
        M.check_loaded(got, m, False, "model read from the operator file", exact=False)
        ensure(open(path).read() == text, "reading modified the operator file")
        FS = FileStructure(d, 3, 0)
        p = vIO.create_coupling_from_op_file(FS, path)
        same(p, FS.path_vib_model, "path of the created model")
        M.check_loaded(vIO.load_model_from_JSON(FS.path_vib_model), m, False, "model created from the operator file", exact=False)
        vIO.create_harmonic_model(FS)
        M.check_loaded(vIO.load_diagonal_model_from_JSON(FS.path_har_model), M.diag_of(m), True, "harmonic model of the created model", exact=False)
    return {"stated": int(sum(np.count_nonzero(m[k]) for k in ("G1", "G2", "G3", "G4")))}


register("C09", [
    Check("op_file", op_case(), f_op, 320, 9000, lambda c: c["A"] > 1 and c["N"] > 1 and sum(v > 0 for v in c["density"].values()) >= 3,
          "operator files with 1-12 surfaces and 1-11 modes, random subsets of linear, quadratic, cubic, quartic, bi-cubic and bi-quartic constants in the layout of the shipped examples (upper surface triangle, lower mode triangle), in any order, with comment lines; non-trivial: >=2 surfaces, >=2 modes and >=3 kinds of constants", replicas=8),
], ["the section headers of the shipped example files are present"])
