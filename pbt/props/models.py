"""C07, C08, C10-C13, C26: vibronic models on disk and in memory."""
import copy
import itertools as it
import json
import os
import shutil
import numpy as np
from ..core import Check, Violation, Skip, ensure, same, close, register, add_check, scratch, st, must_fail, short
from .. import gens

KEYS = ["E", "w", "G1", "G2", "G3", "G4"]


def shape_of(k, A, N, diagonal):
    n = {"E": 0, "G1": 1, "G2": 2, "G3": 3, "G4": 4}
    if k == "w":
        return (N,)
    return (N,) * n[k] + ((A,) if diagonal else (A, A))


@st.composite
def io_spec(draw, diagonal=None, max_A=3, max_N=3, sym=False):
    dg = draw(st.booleans()) if diagonal is None else diagonal
    return {"A": draw(st.integers(1, max_A)), "N": draw(st.integers(1, max_N)), "diagonal": dg, "seed": draw(gens.seeds()), "sym": sym,
            "state": {k: draw(st.sampled_from(["dense", "dense", "sparse", "one", "zero", "absent", "tiny"])) for k in ["E", "G1", "G2", "G3", "G4"]},
            "extreme": draw(st.booleans())}


def io_model(spec):
    """plain-key model; 'absent' keys missing, 'zero' keys are zero arrays"""
    rng = np.random.default_rng(spec["seed"])
    A, N = spec["A"], spec["N"]
    m = {"N": N, "A": A, "w": rng.uniform(0.01, 0.5, N)}
    for k in ["E", "G1", "G2", "G3", "G4"]:
        sh = shape_of(k, A, N, spec["diagonal"])
        x = rng.normal(0, 1, sh)
        if spec["extreme"]:
            x = x * 10.0 ** rng.integers(-300, 300, sh)
        pick = rng.random(sh) < 0.4
        hot = rng.integers(0, x.size)
        state = spec["state"][k]
        if state == "sparse":
            x = np.where(pick, x, 0.0)
        elif state == "one":
            y = np.zeros(x.size)
            y[hot] = x.flat[hot]
            x = y.reshape(sh)
        elif state == "zero":
            x = np.zeros(sh)
        elif state == "tiny":
            x = np.where(pick, x, 0.0) * 1e-11
            x.flat[hot] = 3e-11
        elif state == "absent":
            continue
        if spec["sym"] and not spec["diagonal"]:
            x = (x + np.swapaxes(x, -1, -2)) / 2
            nm = {"E": 0, "G1": 1, "G2": 2, "G3": 3, "G4": 4}[k]
            perms = list(it.permutations(range(nm)))
            x = sum(x.transpose(*p, nm, nm + 1) for p in perms) / len(perms)
        m[k] = x
    return m


def vmk_names():
    from pibronic.vibronic import VMK
    return {"E": VMK.E, "w": VMK.w, "G1": VMK.G1, "G2": VMK.G2, "G3": VMK.G3, "G4": VMK.G4}


def lib():
    from pibronic.vibronic import vIO
    return vIO


def check_loaded(got, m, diagonal, what, exact=True):
    """got: library dictionary; m: plain model"""
    from pibronic.vibronic import VMK
    same(int(got[VMK.A]), m["A"], f"{what}: number of surfaces")
    same(int(got[VMK.N]), m["N"], f"{what}: number of modes")
    for k, v in vmk_names().items():
        want = m.get(k, np.zeros(shape_of(k, m["A"], m["N"], diagonal)))
        if v in got:
            if exact:
                same(np.asarray(got[v]), want, f"{what}: {k}")
            else:
                close(np.asarray(got[v]), want, f"{what}: {k}", rtol=1e-11, atol=0)
        else:
            ensure(not np.any(want), f"{what}: {k} is missing but not zero")


def save(path, m, diagonal):
    d = gens.to_vmk(m)
    before = copy.deepcopy(d)
    (lib().save_diagonal_model_to_JSON if diagonal else lib().save_model_to_JSON)(path, d)
    ensure(set(d) == set(before), "saving changed the keys of the dictionary")
    for k in d:
        same(np.asarray(d[k]), np.asarray(before[k]), "saving modified the dictionary")
        ensure(type(d[k]) is type(before[k]), "saving modified the dictionary")


def load(path, diagonal, *a):
    return (lib().load_diagonal_model_from_JSON if diagonal else lib().load_model_from_JSON)(path, *a)


# ------------------------------------------------------------------ C07
@st.composite
def c07_case(draw):
    return {"models": [draw(io_spec()) for _ in range(draw(st.integers(1, 3)))], "garbage": draw(gens.seeds()),
            "inplace": [k for k in ["E", "w", "G1", "G2", "G3", "G4"] if draw(st.booleans())]}


def f_c07(case):
    from pibronic.vibronic import VMK
    with scratch() as d:
        path = os.path.join(d, "model.json")
        hashes = []
        for spec in case["models"]:
            m, dg = io_model(spec), spec["diagonal"]
            save(path, m, dg)
            text = open(path).read()
            check_loaded(load(path, dg), m, dg, "fresh load")
            # in place, over arbitrary old contents
            rng = np.random.default_rng(case["garbage"])
            target = {VMK.A: m["A"], VMK.N: m["N"]}
            arrays = {}
            for k in case["inplace"]:
                arrays[k] = rng.normal(0, 5, shape_of(k, m["A"], m["N"], dg))
                target[vmk_names()[k]] = arrays[k]
            if arrays:
                if case["garbage"] % 2:
                    target = dict(reversed(list(target.items())))
                load(path, dg, target)
                for k, arr in arrays.items():
                    want = m.get(k, np.zeros(arr.shape))
                    same(arr, want, f"in-place load: {k}")
                    same(target[vmk_names()[k]], want, f"in-place load: {k} of the dictionary")
                # arrays of other dimensions are refused and keep their contents
                A2, N2 = m["A"] + case["garbage"] % 2, m["N"] + 1 + case["garbage"] % 3
                if case["garbage"] % 5 == 0:
                    A2, N2 = m["A"] + 1, m["N"]
                other = {VMK.A: A2, VMK.N: N2}
                for k in case["inplace"]:
                    other[vmk_names()[k]] = rng.normal(0, 5, shape_of(k, A2, N2, dg))
                keep = {k: v.copy() for k, v in other.items() if hasattr(v, "copy")}
                must_fail(lambda: load(path, dg, other), f"in-place load of a model with A={m['A']}, N={m['N']} into arrays for A={A2}, N={N2}")
                for k, v in keep.items():
                    same(other[k], v, f"{k} after a refused in-place load")
            ex = lib().extract_dimensions_of_diagonal_model if dg else lib().extract_dimensions_of_model
            same(list(ex(path=path)), [m["A"], m["N"]], "dimensions read from the file")
            ensure(open(path).read() == text, "loading modified the file")
            hsh = lib().create_diagonal_model_hash if dg else lib().create_model_hash
            h = hsh(path=path)
            h2 = hsh(path=path)
            ensure(isinstance(h, str) and len(h) > 0 and h == h2, "hash of an unchanged file changes")
            copy_path = os.path.join(d, "copy.json")
            shutil.copy(path, copy_path)
            ensure(hsh(path=copy_path) == h, "hash depends on more than the contents")
            hashes.append((h, m, dg))
            # the smallest change of one coefficient changes the hash
            cand = [k for k in m if k not in "NA" and np.any(m[k])]
            for which in range(3):      # somewhere, the very first and the very last coefficient of the file
                k = [cand[case["garbage"] % len(cand)], cand[0], cand[-1]][which]
                mm = copy.deepcopy(m)
                nz = np.flatnonzero(mm[k])
                i = [nz[case["garbage"] % len(nz)], nz[0], nz[-1]][which]
                mm[k].flat[i] = np.nextafter(mm[k].flat[i], np.inf)
                if mm[k].flat[i] == m[k].flat[i]:
                    continue
                save(copy_path, mm, dg)
                ensure(hsh(path=copy_path) != h, f"hash does not depend on {k}[{i}]")
                check_loaded(load(copy_path, dg), mm, dg, "fresh load of perturbed model")
            # saving the loaded model again changes nothing
            again = os.path.join(d, "again.json")
            (lib().save_diagonal_model_to_JSON if dg else lib().save_model_to_JSON)(again, load(path, dg))
            check_loaded(load(again, dg), m, dg, "second round trip")
        for (h1, m1, d1), (h2, m2, d2) in it.combinations(hashes, 2):
            eq = set(m1) == set(m2) and all(np.array_equal(m1[k], m2[k]) for k in m1) and d1 == d2
            if not eq and any(not np.array_equal(m1.get(k, 0), m2.get(k, 0)) for k in set(m1) | set(m2) if np.any(m1.get(k, 0)) or np.any(m2.get(k, 0))):
                ensure(h1 != h2, "different models have the same hash")
    return None


@st.composite
def c07_large_case(draw):
    """files of 50 kB to 1 MB"""
    specs = []
    for _ in range(draw(st.integers(1, 2))):
        s = draw(io_spec(max_A=2, max_N=2))
        s["A"], s["N"] = draw(st.integers(4, 7)), draw(st.integers(5, 8))
        s["state"]["G4"] = draw(st.sampled_from(["absent", "one", "zero"]))
        s["state"]["G2"] = "dense"
        s["state"]["G3"] = draw(st.sampled_from(["dense", "dense", "sparse"]))
        specs.append(s)
    return {"models": specs, "garbage": draw(gens.seeds()), "inplace": [k for k in ["E", "w", "G1", "G2", "G3"] if draw(st.booleans())]}


@st.composite
def c07_obj_case(draw):
    spec = draw(io_spec(diagonal=False))
    for k in ("G3", "G4"):
        spec["state"][k] = "absent"
    return {"spec": spec, "other": {**draw(io_spec(diagonal=False)), "A": spec["A"], "N": spec["N"]}}


def f_c07_obj(case):
    """model objects of the Monte Carlo engine read the same coefficients (absent = zero)"""
    from pibronic.pimc import pimc
    m = io_model(case["spec"])
    with scratch() as d:
        path = os.path.join(d, "m.json")
        path2 = os.path.join(d, "m2.json")
        gens.write_json_model(path, m, zeros=case["other"]["seed"] % 2 == 0)
        other = io_model(case["other"])
        gens.write_json_model(path2, other)
        unused = any(np.any(other.get(k, 0)) for k in ("G3", "G4"))

        def cmp(obj, what):
            for k, a in (("E", "energy"), ("w", "omega"), ("G1", "linear"), ("G2", "quadratic")):
                same(getattr(obj, a), m.get(k, np.zeros(shape_of(k, m["A"], m["N"], False))), f"{what}: {k}")
            same([int(obj.states), int(obj.modes)], [m["A"], m["N"]], f"{what}: dimensions")
        obj = pimc.ModelClass(m["A"], m["N"])
        obj.load_model(path)
        cmp(obj, "new object")
        try:
            obj.load_model(path2)
            ensure(not unused, "a model with cubic or quartic terms was accepted")
        except Exception as e:
            if not unused or isinstance(e, Violation):
                raise  # (terms which the calculation would ignore are refused)
        obj.load_model(path)
        cmp(obj, "reloaded object")
        cmp(pimc.ModelClass.from_json_file(path), "object built from the file")
    return None


RULE_IO = "random coupled/diagonal model 1-3 surfaces, 1-3 modes; each coefficient array dense, sparse, single-entry, all-zero or absent; magnitudes 1e-300..1e300 or O(1)"
register("C07", [
    Check("roundtrip", c07_case(), f_c07, 500, 12000, lambda c: len(c["models"]) > 1, RULE_IO + "; 1-3 models saved over the same path; non-trivial: the file is overwritten by another model", replicas=6),
    Check("roundtrip_large", c07_large_case(), f_c07, 24, 600, lambda c: True, "the same with 4-7 surfaces and 5-8 modes: files of 50 kB to 1 MB", replicas=6),
    Check("objects", c07_obj_case(), f_c07_obj, 300, 6000, lambda c: True, RULE_IO + "; loaded through model objects", replicas=2),
], ["finite coefficients"])


# ------------------------------------------------------------------ C08
@st.composite
def c08_case(draw):
    spec = draw(io_spec(diagonal=False))
    if draw(st.sampled_from([False, False, False, True])):
        spec["A"], spec["N"] = draw(st.integers(4, 8)), min(spec["N"], 2)
    elif draw(st.integers(0, 7)) == 0:
        spec["A"], spec["N"] = min(spec["A"], 2), draw(st.integers(4, 7))
    return {"spec": spec, "old": draw(st.one_of(st.none(), io_spec(diagonal=True))), "id_data": draw(st.integers(0, 12)), "id_rho": draw(st.integers(0, 3))}


def diag_of(m):
    out = {"N": m["N"], "A": m["A"], "w": m["w"]}
    for k in ("E", "G1", "G2", "G3", "G4"):
        if k in m:
            out[k] = np.stack([m[k][..., a, a] for a in range(m["A"])], axis=-1)
    return out


def f_c08(case):
    from pibronic.data.file_structure import FileStructure
    m = io_model(case["spec"])
    want = diag_of(m)
    with scratch() as d:
        FS = FileStructure(d, case["id_data"], case["id_rho"])
        gens.write_json_model(FS.path_vib_model, m)
        src = open(FS.path_vib_model, "rb").read()
        if case["old"] is not None:
            for p in (FS.path_har_model, FS.path_rho_model):
                gens.write_json_model(p, io_model(case["old"]))
        lib().create_harmonic_model(FS)
        check_loaded(load(FS.path_har_model, True), want, True, "harmonic model")
        if case["old"] is not None:
            check_loaded(load(FS.path_rho_model, True), io_model(case["old"]), True, "sampling model after refreshing the harmonic model")
        else:
            ensure(not os.path.exists(FS.path_rho_model), "a sampling model appeared")
        if case["id_data"] % 3 == 0:
            os.remove(FS.path_har_model)
        elif case["old"] is not None:        # the harmonic model of an earlier coupled model
            gens.write_json_model(FS.path_har_model, io_model(case["old"]))
        lib().create_basic_diagonal_model(FS)
        check_loaded(load(FS.path_rho_model, True), want, True, "basic sampling model")
        check_loaded(load(FS.path_har_model, True), want, True, "harmonic model")
        # raw file contents: nothing off-diagonal is stored
        raw = json.load(open(FS.path_rho_model))
        for k, n in (("energies", 1), ("linear couplings", 2), ("quadratic couplings", 3), ("cubic couplings", 4), ("quartic couplings", 5)):
            if k in raw:
                same(np.ndim(raw[k]), n, f"dimensionality of stored {k}")
        dest = os.path.join(d, "other.json")
        lib().remove_coupling_from_model(FS.path_vib_model, dest)
        check_loaded(load(dest, True), want, True, "decoupled model")
        ensure(open(FS.path_vib_model, "rb").read() == src, "the coupled model file was modified")
        # in place
        full = gens.to_vmk(m)
        lib().fill_offdiagonal_of_model_with_zeros(full)
        exp = dict(m)
        for k in ("E", "G1", "G2", "G3", "G4"):
            if k in m:
                exp[k] = m[k] * np.eye(m["A"])
        check_loaded(full, exp, False, "model with off-diagonal terms removed")
    return None


register("C08", [
    Check("derive", c08_case(), f_c08, 500, 12000, lambda c: c["spec"]["A"] > 1 and any(v in ("dense", "sparse", "one") for v in c["spec"]["state"].values()),
          RULE_IO + "; with or without existing destination files; non-trivial: >=2 surfaces and non-zero coefficients", replicas=6),
], [])


# ------------------------------------------------------------------ C10
@st.composite
def c10_case(draw):
    spec = draw(io_spec(diagonal=False, sym=True, max_N=2))
    spec["A"] = draw(st.integers(2, 4))
    spec["extreme"] = False
    if draw(st.booleans()):
        spec["state"]["G4"] = "absent"
        if draw(st.integers(0, 5)) == 0:
            spec["A"], spec["N"] = draw(st.integers(2, 8)), draw(st.integers(1, 4))
    spec["w_only"] = False
    ops = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(["tune", "matrix", "matrix", "reuse", "bad", "badtype"]))
        if k == "tune":
            ops.append(["tune", draw(st.one_of(st.sampled_from([0.0, 0.01, 0.3, 1.0, 0.77, 0.125, 0.0049, 0.9951, 0.005]), st.integers(0, 10000).map(lambda x: x / 10000)))])
        elif k == "matrix":
            ops.append(["matrix", draw(gens.seeds()), draw(st.sampled_from(["rot", "reflect", "perm"]))])
        elif k == "bad":
            ops.append(["bad", draw(gens.seeds()), draw(st.sampled_from(["scaled", "random", "shear", "wide", "tall", "bigger", "row", "nearly"]))])
        else:
            ops.append([k])
    return {"spec": spec, "ops": ops, "points": draw(gens.seeds())}


def ortho(A, seed, kind):
    rng = np.random.default_rng(seed)
    Q, R = np.linalg.qr(rng.normal(size=(A, A)))
    Q = Q * np.sign(np.diag(R))
    if kind == "perm":
        return np.eye(A)[rng.permutation(A)]
    if np.linalg.det(Q) < 0:
        Q[:, 0] *= -1
    if kind == "reflect":
        Q[:, 0] *= -1
    return Q


def tuned_reference(order, dist_fraction, dmax):
    """expm(x S) for the x whose distance from identity is the fraction of the largest distance dmax (bisection)"""
    from scipy.linalg import expm
    S = np.triu(np.ones((order, order)), 1)
    S = S - S.T
    if dist_fraction == 0:
        return np.eye(order)
    target = dist_fraction * dmax
    lo, hi = 0.0, 0.6
    for _ in range(60):
        mid = (lo + hi) / 2
        if np.linalg.norm(expm(mid * S) - np.eye(order)) < target:
            lo = mid
        else:
            hi = mid
    return expm(lo * S)


def potential(m, x):
    A, N = m["A"], m["N"]
    V = np.zeros((A, A)) + m.get("E", 0)
    V = V + np.eye(A) * 0.5 * (m["w"] * x ** 2).sum()
    for k, n in (("G1", 1), ("G2", 2), ("G3", 3), ("G4", 4)):
        if k in m:
            t = m[k]
            for _ in range(n):
                t = np.tensordot(x, t, axes=(0, 0))
            V = V + t
    return V


def from_lib(d):
    from pibronic.vibronic import VMK
    out = {"A": int(d[VMK.A]), "N": int(d[VMK.N])}
    for k, v in vmk_names().items():
        if v in d:
            out[k] = np.asarray(d[v])
    return out


def snapshot(d):
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            out[os.path.relpath(p, d)] = open(p, "rb").read()
    return out


def f_c10(case):
    from pibronic.data.file_structure import FileStructure
    m = io_model(case["spec"])
    A, N = m["A"], m["N"]
    rng = np.random.default_rng(case["points"])
    with scratch() as d:
        FS = FileStructure(d, 1, 0)
        save(FS.path_vib_model, m, False)
        saved_U = None
        applied = 0
        for op in case["ops"]:
            before_model = from_lib(load(FS.path_vib_model, False))
            before = snapshot(d)
            if op[0] == "bad":
                r2 = np.random.default_rng(op[1])
                U = {"scaled": 1.1 * np.eye(A), "random": r2.normal(size=(A, A)), "shear": np.eye(A) + 0.01 * np.triu(np.ones((A, A)), 1),
                     "wide": ortho(A + 1, op[1], "rot")[:A], "tall": ortho(A + 1, op[1], "rot")[:, :A], "bigger": ortho(A + 1, op[1], "rot"),
                     "row": np.diag([1.0] * (A - 1) + [1.001]), "nearly": ortho(A, op[1], "rot") * (1 + 10.0 ** -r2.integers(2, 5))}[op[2]]
                must_fail(lambda: lib().create_fake_coupled_model(FS, transformation_matrix=U), "transformation with a matrix that is not orthonormal")
                ensure(snapshot(d) == before, "a refused transformation modified files")
                continue
            if op[0] == "badtype":
                must_fail(lambda: lib().create_fake_coupled_model(FS, transformation_matrix="reuse please"), "transformation with an unknown request")
                ensure(snapshot(d) == before, "a refused transformation modified files")
                continue
            if op[0] == "reuse" and saved_U is None:
                must_fail(lambda: lib().create_fake_coupled_model(FS, transformation_matrix="re-use"), "re-use of a matrix that does not exist")
                ensure(snapshot(d) == before, "a refused transformation modified files")
                continue
            expect = None
            if op[0] == "tune":
                lib().create_fake_coupled_model(FS, tuning_parameter=op[1])
            elif op[0] == "matrix":
                expect = ortho(A, op[1], op[2])
                lib().create_fake_coupled_model(FS, transformation_matrix=expect.copy())
            else:
                expect = saved_U
                lib().create_fake_coupled_model(FS, transformation_matrix="re-use")
            U = np.load(FS.path_ortho_mat)
            same(U.shape, (A, A), "shape of the saved matrix")
            close(U @ U.T, np.eye(A), "saved matrix times its transpose", atol=1e-7)
            if expect is not None:
                close(U, expect, "saved matrix", atol=1e-12)
            else:
                dmax = np.linalg.norm(lib().create_orthonormal_matrix_lambda_close_to_identity(A, 1.0) - np.eye(A))
                close(U, tuned_reference(A, op[1], dmax), "matrix of the tuning parameter", atol=6e-4)
                if op[1] == 0.0:
                    same(U, np.eye(A), "matrix of tuning parameter zero")
            saved_U = U
            after = from_lib(load(FS.path_vib_model, False))
            same([after["A"], after["N"]], [A, N], "dimensions of the transformed model")
            same(after["w"], m["w"], "frequencies of the transformed model")
            for k in ("E", "G1", "G2", "G3", "G4"):
                old = before_model.get(k)
                if old is None:
                    ensure(k not in after or not np.any(after[k]), f"{k} appeared")
                else:
                    want = np.einsum("bj,...jk,ck->...bc", U, old, U)
                    close(after.get(k, np.zeros_like(want)), want, f"transformed {k}", rtol=1e-9, atol=1e-9 * (1 + np.abs(want).max()))
            for _ in range(3):
                x = rng.normal(0, 1.5, N)
                e1, e2 = np.linalg.eigvalsh(potential(before_model, x)), np.linalg.eigvalsh(potential(after, x))
                close(e2, e1, f"adiabatic energies at {x}", rtol=1e-8, atol=1e-8 * (1 + np.abs(e1).max()))
            # the model before the transformation is kept
            ensure(os.path.isfile(FS.path_orig_model), "no backup of the untransformed model")
            ensure(open(FS.path_orig_model, "rb").read() == before[os.path.relpath(FS.path_vib_model, d)], "the backup is not the untransformed model")
            now = snapshot(d)
            allowed = {os.path.relpath(p, d) for p in (FS.path_vib_model, FS.path_orig_model, FS.path_ortho_mat)}
            ensure({k: v for k, v in now.items() if k not in allowed} == {k: v for k, v in before.items() if k not in allowed}, "other files were modified")
            applied += 1
    return {"applied": applied}


register("C10", [
    Check("transform", c10_case(), f_c10, 240, 6000, lambda c: sum(o[0] in ("tune", "matrix", "reuse") for o in c["ops"]) >= 1 and any(v in ("dense", "sparse", "one") for v in c["spec"]["state"].values()),
          "symmetric random models (2-4 surfaces, 1-2 modes, any orders present) and 1-3 operations: tuned, explicit rotation/reflection/permutation, re-use, refused matrices; non-trivial: at least one applied transformation of a model with coefficients", replicas=8),
], ["numerical comparison to 1e-9 relative"])


# ------------------------------------------------------------------ C11
def f_c11(case):
    A, ps = case["order"], sorted(case["p"])
    f = lib().create_orthonormal_matrix_lambda_close_to_identity
    eye = np.eye(A)
    last = -1.0
    dmax = np.linalg.norm(np.asarray(f(A, 1.0)) - eye)
    ensure(0.95 <= dmax / (np.sqrt(A) / 2) <= 1.001, f"order {A}: distance at tuning parameter one is {dmax}, a quarter of the maximal distance is {np.sqrt(A) / 2}")
    for p in ps:
        U = np.asarray(f(A, p))
        same(U.shape, (A, A), "shape")
        close(U @ U.T, eye, f"order {A}, {p}: U U^T", atol=1e-10)
        ensure(np.linalg.det(U) > 0, f"order {A}, {p}: determinant {np.linalg.det(U)}")
        same(np.asarray(f(A, p)), U, f"order {A}, {p}: second call")
        dist = np.linalg.norm(U - eye)
        if p == 0:
            same(U, eye, "tuning parameter zero")
        ensure(dist >= last - 1e-9, f"order {A}: distance {dist} at {p}, but {last} at a smaller tuning parameter")
        last = dist
        ensure(abs(dist - p * dmax) <= 1.5e-3 * dmax, f"order {A}: distance at {p} is {dist}, expected {p * dmax}")
        close(U, tuned_reference(A, p, dmax), f"order {A}, {p}: matrix", atol=3e-3)
    for bad in case["bad"]:
        must_fail(lambda: f(A, bad), f"tuning parameter {bad}")
    return None


@st.composite
def c11_case(draw):
    return {"order": draw(st.integers(2, 10)), "p": draw(st.lists(st.one_of(st.floats(0, 1), st.sampled_from([0.0, 1.0, 1e-9, 1 - 1e-9, 1e-4, 0.5])), min_size=2, max_size=4)),
            "bad": draw(st.lists(st.sampled_from([-0.1, 1.1, -1e-9, 2.0, 1.0000001]), max_size=1))}


register("C11", [
    Check("family", c11_case(), f_c11, 64, 2400, lambda c: len(set(c["p"])) >= 2, "orders 2-10, 2-4 tuning parameters in [0,1] incl. boundaries, refused parameters; non-trivial: at least two different parameters", replicas=8),
], ["table resolution: distances compared to 1.5e-3 of the maximum"])


# ------------------------------------------------------------------ C11, generating the family
GENERATE = """
import sys, json
import numpy as np
from pibronic.vibronic.orthonormal import sequences as seq, create
order, kind, ps = int(sys.argv[1]), sys.argv[2], json.loads(sys.argv[3])
if sys.argv[4] == "reload" and kind in ("full", "first"):
    getattr(seq, dict(full="generate_monotonic_sequence_to_first_turn_around", first="generate_full_monotonic_sequence")[kind])(order)
getattr(seq, dict(full="generate_full_monotonic_sequence", first="generate_monotonic_sequence_to_first_turn_around", plot="generate_full_monotonic_sequence_for_plotting",
                  turning="generate_turning_point_sequence_for_plotting", norms="generate_sequences_for_plotting")[kind])(order)
if kind in ("full", "first"):
    np.savez("family.npz", *[create.create_orthonormal_matrix_lambda_close_to_identity(order, p) for p in ps])
"""


def turning_points(x, y):
    """places where the distance begins to decrease and where it regains the last maximum"""
    marks, falling, top = set(), False, None
    last = 0.0
    for i in range(len(y)):
        if not falling and last > y[i]:
            marks.add(i - 1)
            top, falling = last, True
        elif falling and top <= y[i]:
            marks.add(i)
            falling = False
        last = y[i]
    return marks


def f_c11_sequences(case):
    """a generated sequence is that of the family: distances of expm(x S) from identity, up to a quarter of the largest one"""
    import shutil
    import subprocess
    import sys
    from scipy.linalg import expm
    from ..core import REPO
    A, kind = case["order"], case["kind"]
    here = os.path.join("vibronic", "orthonormal")
    with scratch() as d:
        shutil.copytree(os.path.join(REPO, "pibronic"), os.path.join(d, "pibronic"), ignore=shutil.ignore_patterns("*.data", "*.pairs", "__pycache__", "*.pyc"))
        ps = sorted(case["p"])
        r = subprocess.run([sys.executable, "-c", GENERATE, str(A), kind, json.dumps(ps), "reload" if case["again"] else ""], cwd=d, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=d))
        ensure(r.returncode == 0, f"order {A}: generating the sequence ({kind}) failed: {r.stderr[-300:]}")
        src = os.path.join(d, "pibronic", here, f"sequence_{A}.data")
        rows = np.genfromtxt(src, delimiter=",", missing_values="None")
        x, y = rows[:, -1], rows[:, 0]
        S = np.triu(np.ones((A, A)), 1)
        S = S - S.T
        eye = np.eye(A)
        rng = np.random.default_rng(case["seed"])
        ensure(len(rows) >= 50 and x[0] == 0 and np.all(np.diff(x) > 0), f"order {A}: {kind} sequence of {len(rows)} points from {x[0]}")
        for i in rng.integers(0, len(x), 20):
            M = expm(x[i] * S) - eye
            if kind == "norms":
                close(rows[i, :3], [np.linalg.norm(M, 1), np.linalg.norm(M), np.linalg.norm(M, np.inf)], f"order {A}: norms at {x[i]}", rtol=1e-8, atol=1e-8)
            else:
                close(y[i], np.linalg.norm(M), f"order {A}: distance at {x[i]} ({kind})", rtol=1e-8, atol=1e-8)
        if kind in ("full", "first"):
            ensure(np.all(np.diff(y) > -1e-12), f"order {A}: the distances of the {kind} sequence decrease")
            want = np.sqrt(A) / 2 if kind == "full" else None
            if kind == "full":
                ensure(0.95 <= y[-1] / want <= 1.001, f"order {A}: the sequence ends at the distance {y[-1]}, a quarter of the largest distance is {want}")
            else:
                # half way to the first point where the distance begins to decrease
                e = np.array([np.linalg.norm(expm(t * S) - eye) for t in (1.98 * x[-1], 2 * x[-1], 2 * x[-1] + 0.0101)])
                ensure(e[0] < e[1] and e[2] < e[1] + 1e-12, f"order {A}: the sequence does not end half way to the first turning point: distances {e.tolist()}")
            stored = os.path.join(REPO, "pibronic", here, f"sequence_{A}.data")
            if kind == "full" and os.path.exists(stored):
                close(rows, np.loadtxt(stored, delimiter=","), f"order {A}: generated and stored sequence", rtol=1e-9, atol=1e-9)
            with np.load(os.path.join(d, "family.npz")) as f:
                mats = [f[f"arr_{i}"] for i in range(len(ps))]
            for p, U in zip(ps, mats):
                close(U @ U.T, eye, f"order {A}, {p}: U U^T", atol=1e-10)
                close(U, tuned_reference(A, p, y[-1]) if kind == "full" else expm(np.interp(p * y[-1], y, x) * S), f"order {A}, {p}: matrix of the generated family", atol=3e-3)
        elif kind == "plot":
            shown = rows[:, 1]
            keep = ~np.isnan(shown)
            same(shown[keep], y[keep], f"order {A}: distances which are shown")
            best = np.maximum.accumulate(y)
            ensure(np.all(np.diff(shown[keep]) > -0.02), f"order {A}: the distances shown decrease")
            bad = np.nonzero(~keep & (y > np.concatenate([[0], best[:-1]]) + 0.05))[0]
            ensure(not len(bad), f"order {A}: new largest distances which are not shown at x = {x[bad][:4]}")
            ensure(keep[0] and keep.sum() >= 20, f"order {A}: {keep.sum()} distances are shown")
        elif kind == "turning":
            mark = set(np.nonzero(~np.isnan(rows[:, 1]))[0].tolist())
            for i in mark:
                close(rows[i, 1], y[i], f"order {A}: turning point marked at x = {x[i]}", rtol=1e-9, atol=1e-9)
            want = turning_points(x, y)
            # differences in the last digit can decide whether a maximum is regained
            ensure(mark == want or any(abs(y[a] - y[b]) < 1e-9 for a in want for b in mark ^ want if a != b), f"order {A}: turning points at {sorted(mark)[:12]} instead of {sorted(want)[:12]}")
    return {"points": len(rows)}


def c11_seq():
    return st.fixed_dictionaries({"order": st.integers(2, 20), "kind": st.sampled_from(["full", "full", "first", "plot", "turning", "norms"]), "again": st.booleans(), "seed": gens.seeds(),
                                  "p": st.lists(st.one_of(st.sampled_from([0.0, 1.0, 0.5]), st.integers(0, 1000).map(lambda v: v / 1000)), min_size=1, max_size=4)})


add_check("C11", Check("sequences", c11_seq(), f_c11_sequences, 32, 400, lambda c: c["kind"] in ("full", "plot", "turning") and c["order"] > 2, "sequences of orders 2-20 generated in a copy of the package (final, first turning point, three for plotting), new or over another one; non-trivial: orders above two, sequences with turning points", replicas=8))


# ------------------------------------------------------------------ C12
@st.composite
def c12_case(draw):
    c = draw(io_spec(diagonal=False, sym=True, max_A=5, max_N=5))
    g = draw(io_spec(diagonal=True, max_A=6))
    g["N"] = c["N"]
    if draw(st.sampled_from([True, True, True, False])):
        c["A"], g["A"] = max(2, c["A"]), max(2, g["A"])
        c["state"]["G1"] = draw(st.sampled_from(["dense", "dense", "sparse", "one"]))
        g["state"]["G1"] = draw(st.sampled_from(["dense", "dense", "sparse", "one"]))
    for s in (c, g):
        s["extreme"] = False
        s["state"]["G3"] = s["state"]["G4"] = "absent"
        s["state"]["G2"] = "absent" if not draw(st.sampled_from([False] * 5 + [True])) else draw(st.sampled_from(["zero", "one"]))
    return {"coupled": c, "diag": g, "times": draw(st.integers(1, 3)), "balanced": draw(st.booleans())}


def f_c12(case):
    from pibronic.data.file_structure import FileStructure
    cm, dm = io_model(case["coupled"]), io_model(case["diag"])
    for m in (cm, dm):     # keep displacements moderate
        for k in m:
            if k not in ("N", "A", "w"):
                m[k] = m[k] * 0.3
        if case["balanced"] and "G2" in m:      # quadratic terms which cancel each other
            m["G2"] = m["G2"] - m["G2"].mean() if m["G2"].size > 1 else m["G2"]
    A, N = cm["A"], cm["N"]
    Ad = dm["A"]
    with scratch() as d:
        FS = FileStructure(d, 0, 1)
        # arrays of zeros may be stated or omitted
        gens.write_json_model(FS.path_vib_model, cm, zeros=case["times"] != 2)
        path = os.path.join(d, "iter.json")
        gens.write_json_model(path, dm, zeros=case["times"] != 3)
        before = snapshot(d)
        quad = any("G2" in m and np.any(np.abs(m["G2"]) > 1e-8) for m in (cm, dm))
        if quad:
            must_fail(lambda: lib().simple_single_point_energy_calculation(FS, path), "single point energies with quadratic terms")
            must_fail(lambda: lib().recalculate_energy_values_of_diagonal_model(FS, path), "re-weighting with quadratic terms")
            ensure(snapshot(d) == before, "a refused re-weighting modified files")
            return {"refused": True}
        lin = dm.get("G1", np.zeros((N, Ad)))
        want = np.zeros(Ad)
        for a in range(Ad):
            x = -lin[:, a] / dm["w"]
            V = np.zeros((A, A)) + cm.get("E", 0)
            V = V + np.eye(A) * 0.5 * (cm["w"] * x ** 2).sum()
            V = V + np.tensordot(x, cm.get("G1", np.zeros((N, A, A))), axes=(0, 0))
            want[a] = np.linalg.eigvalsh(V)[0]
        sc = 1 + np.abs(want).max()
        got = lib().simple_single_point_energy_calculation(FS, path)
        close(np.asarray(got), want, "single point energies", rtol=1e-9, atol=1e-10 * sc)
        ensure(snapshot(d) == before, "the single point calculation modified files")
        for i in range(case["times"]):
            lib().recalculate_energy_values_of_diagonal_model(FS, path)
            now = from_lib(load(path, True))
            tilde = now.get("E", np.zeros(Ad)) - 0.5 * (lin ** 2 / dm["w"][:, None]).sum(axis=0)
            close(tilde, want, f"energy at the minimum after re-weighting {i + 1}x", rtol=1e-9, atol=1e-9 * sc)
            for k in ("w", "G1", "G2"):
                same(now.get(k, np.zeros(shape_of(k, Ad, N, True))), dm.get(k, np.zeros(shape_of(k, Ad, N, True))), f"{k} after re-weighting")
            same([now["A"], now["N"]], [Ad, N], "dimensions after re-weighting")
        b = snapshot(d)
        b.pop("iter.json"), before.pop("iter.json")
        ensure(b == before, "re-weighting modified other files")
    return {"energies": want.tolist()}


register("C12", [
    Check("single_point", c12_case(), f_c12, 500, 12000, lambda c: c["coupled"]["A"] > 1 and c["diag"]["A"] > 1 and c["coupled"]["state"]["G1"] not in ("zero", "absent"),
          "random symmetric coupled model and diagonal model with own frequencies (absent/zero/sparse energies and linear terms, sometimes quadratic terms), re-weighted 1-3 times; non-trivial: >=2 surfaces in both and linear couplings", replicas=6),
], [])


# ------------------------------------------------------------------ C13
@st.composite
def c13_case(draw):
    s = draw(io_spec())
    s["extreme"] = False
    if draw(st.integers(0, 9)) == 0:
        s["A"], s["N"] = draw(st.integers(1, 7)), draw(st.integers(1, 5))
    muts = draw(st.lists(st.sampled_from(["none", "element", "slight", "zero_missing", "missing_key", "dims_A", "dims_N", "tiny", "surface_order"]), min_size=1, max_size=1))
    return {"spec": s, "mut": muts[0], "k": draw(st.sampled_from(["E", "w", "G1", "G2", "G3", "G4"])), "i": draw(gens.seeds()),
            "shape": draw(st.sampled_from(["ok", "ok", "drop_axis", "add_axis", "longer", "swap", "noN", "noA", "transposed_kind"]))}


def f_c13(case):
    from pibronic.vibronic import VMK
    spec = case["spec"]
    m, dg = io_model(spec), spec["diagonal"]
    V = lib()
    same_fn = V._same_diagonal_model if dg else V._same_model
    verify = V.verify_diagonal_model_parameters if dg else V.verify_model_parameters
    d1 = gens.to_vmk(m)
    verify(d1)
    # --- comparison
    m2 = copy.deepcopy(m)
    mut, k = case["mut"], case["k"]
    equal = True
    if mut == "element" and k in m2:
        i = case["i"] % m2[k].size
        m2[k].flat[i] += 0.5 + abs(m2[k].flat[i])
        equal = False
    elif mut == "slight" and k in m2:
        i = case["i"] % m2[k].size
        m2[k].flat[i] += 1e-3 * abs(m2[k].flat[i]) + (1e-5, 1e-6, 2e-7)[case["i"] % 3]
        equal = False
    elif mut == "tiny" and k in m2:
        i = case["i"] % m2[k].size
        m2[k].flat[i] *= 1 + 1e-12
    elif mut == "zero_missing":
        for q in ("E", "G1", "G2", "G3", "G4"):
            if q not in m2:
                m2[q] = np.zeros(shape_of(q, m["A"], m["N"], dg))
            elif not np.any(m2[q]):
                del m2[q]
    elif mut == "missing_key" and k in m2 and k != "w":
        equal = not np.any(np.abs(m2[k]) > 1e-7)
        del m2[k]
    elif mut in ("dims_A", "dims_N"):
        s2 = dict(spec)
        s2["A" if mut == "dims_A" else "N"] += 1
        m2 = io_model(s2)
        equal = False
    d2 = gens.to_vmk(m2)
    c1, c2 = copy.deepcopy(d1), copy.deepcopy(d2)
    for x, y, o in ((d1, d2, "first, second"), (d2, d1, "second, first")):
        r = same_fn(x, y)
        ensure(bool(r) == equal, f"comparison ({o}) of {'equal' if equal else 'different'} models [{mut} {k}] says {r}")
    for x, y in ((d1, c1), (d2, c2)):
        ensure(set(x) == set(y), "comparison changed a model")
        for q in x:
            same(np.asarray(x[q]), np.asarray(y[q]), "comparison changed a model")
    ensure(same_fn(d1, d1) is True or same_fn(d1, d1), "a model differs from itself")
    # --- validation
    bad = gens.to_vmk(m)
    shp = case["shape"]
    ok = True
    key = vmk_names()[k]
    if shp == "noN":
        del bad[VMK.N]
        ok = False
    elif shp == "noA":
        del bad[VMK.A]
        ok = False
    elif key in bad and shp != "ok":
        a = bad[key]
        if shp == "drop_axis":
            if a.ndim > 1:
                bad[key] = a[0]
                ok = False
        elif shp == "add_axis":
            bad[key] = a[None]
            ok = False
        elif shp == "longer":
            bad[key] = np.concatenate([a, a], axis=case["i"] % a.ndim)
            ok = False
        elif shp == "swap" and a.ndim > 1:
            b = np.moveaxis(a, 0, -1)
            ok = b.shape == a.shape
            bad[key] = b
        elif shp == "transposed_kind" and k != "w":
            x = shape_of(k, m["A"], m["N"], not dg)
            bad[key] = np.ones(x)
            ok = x == a.shape
    if ok:
        verify(bad)
    else:
        must_fail(lambda: verify(bad), f"validation of a {'diagonal' if dg else 'coupled'} model with wrong {k} [{shp}]", AssertionError if shp not in ("noN", "noA") else Exception)
        with scratch() as d:
            p = os.path.join(d, "x.json")
            must_fail(lambda: (V.save_diagonal_model_to_JSON if dg else V.save_model_to_JSON)(p, bad), f"saving a model with wrong {k} [{shp}]")
            ensure(not os.path.exists(p), "an invalid model was written")
            # ... and it is not accepted from a file or by the comparison and the predicates either
            names = {v: q for q, v in vmk_names().items()}
            plain = {names.get(q, q): (v.tolist() if isinstance(v, np.ndarray) else v) for q, v in bad.items()}
            gens.write_json_model(p, {**{q: v for q, v in plain.items() if q not in (VMK.N, VMK.A)}, **{n: bad[q] for n, q in (("N", VMK.N), ("A", VMK.A)) if q in bad}}, zeros=True)
            must_fail(lambda: load(p, dg), f"loading a model with wrong {k} [{shp}]")
            good = gens.to_vmk(m)
            for x, y in ((good, bad), (bad, good), (bad, bad)):
                must_fail(lambda: same_fn(x, y), f"comparison with a model with wrong {k} [{shp}]")
            if not dg:
                must_fail(lambda: V.model_parameters_are_symmetric_in_surfaces(bad), f"surface symmetry of a model with wrong {k} [{shp}]")
                must_fail(lambda: V.model_parameters_are_symmetric_in_modes(bad), f"mode symmetry of a model with wrong {k} [{shp}]")
                must_fail(lambda: V.fill_offdiagonal_of_model_with_zeros(bad), f"removal of off-diagonal terms of a model with wrong {k} [{shp}]")
    return {"equal": equal, "valid": ok}


@st.composite
def c13_sym_case(draw):
    s = draw(io_spec(diagonal=False, sym=True, max_A=4))
    s["extreme"] = False
    if draw(st.integers(0, 9)) == 0:
        s["A"], s["N"] = draw(st.integers(1, 7)), draw(st.integers(1, 5))
    return {"spec": s, "break": draw(st.sampled_from(["none", "surface", "mode", "surface", "mode"])), "k": draw(st.sampled_from(["E", "G1", "G2", "G3", "G4"])), "i": draw(gens.seeds()),
            "by": draw(st.sampled_from([1.0, 1e-2, 1e-3])), "scale": draw(st.sampled_from([1.0, 1.0, 1e-2, 1e-3, 1e-4]))}


def f_c13_sym(case):
    V = lib()
    m = io_model(case["spec"])
    k, b, i, by = case["k"], case["break"], case["i"], case["by"]
    rng = np.random.default_rng(i)
    nm = {"E": 0, "G1": 1, "G2": 2, "G3": 3, "G4": 4}[k]
    A, N = m["A"], m["N"]
    s = case.get("scale", 1.0)      # small coefficients with small differences (at least ten times what counts as equal)
    if s < 1e-2:
        by = max(by, 1e-2)
    if k in m:
        x = m[k]
        x *= s
        if b == "surface" and A > 1:
            a, c = rng.choice(A, 2, replace=False)
            idx = tuple(rng.integers(0, N, nm)) + (a, c)
            # one element, repeated over all permutations of its mode indices: breaks only the surface symmetry
            for p in it.permutations(range(nm)):
                x[tuple(idx[q] for q in p) + (a, c)] = x[idx[:nm] + (c, a)] + by * (s + abs(x[idx[:nm] + (c, a)]))
        elif b == "mode" and N > 1 and nm in (2, 4):
            ii = tuple(rng.integers(0, N, nm))
            sw = (ii[1], ii[0]) + ((ii[3], ii[2]) if nm == 4 else ())
            if ii != sw:
                a, c = rng.integers(0, A, 2)
                e = by * (s + abs(x[ii + (a, c)]))
                x[ii + (a, c)] += e
                if a != c:
                    x[ii + (c, a)] += e
    d = gens.to_vmk(m)
    want_s = all(np.allclose(m[q], np.swapaxes(m[q], -1, -2)) for q in ("E", "G1", "G2", "G3", "G4") if q in m)
    want_m = ("G2" not in m or np.allclose(m["G2"], m["G2"].swapaxes(0, 1))) and ("G4" not in m or np.allclose(m["G4"], m["G4"].transpose(1, 0, 3, 2, 4, 5)))
    gs, gm = V.model_parameters_are_symmetric_in_surfaces(d), V.model_parameters_are_symmetric_in_modes(d)
    ensure(bool(gs) == want_s, f"surface symmetry of a {'symmetric' if want_s else 'non-symmetric'} model ({k}) reported {gs}")
    ensure(bool(gm) == want_m, f"mode symmetry of a {'symmetric' if want_m else 'non-symmetric'} model ({k}) reported {gm}")
    return {"surfaces": bool(want_s), "modes": bool(want_m)}


register("C13", [
    Check("compare_validate", c13_case(), f_c13, 900, 20000, lambda c: c["mut"] != "none" or c["shape"] != "ok", RULE_IO + "; one mutation (element, last digit, missing/zero array, dimension) for comparison and one wrong shape for validation; non-trivial: some mutation", replicas=5),
    Check("symmetry", c13_sym_case(), f_c13_sym, 600, 12000, lambda c: c["break"] != "none", "symmetric models with one symmetry broken at one element of one array; non-trivial: something broken", replicas=3),
], ["numerically equal means numpy.allclose with default tolerances"])


# ------------------------------------------------------------------ C26
@st.composite
def c26_case(draw):
    lo = draw(st.floats(0.005, 0.2))
    elo = draw(st.floats(-3, 3))
    big = draw(st.integers(0, 7)) == 0
    return {"A": draw(st.integers(1, 12 if big else 5)), "N": draw(st.integers(1, 14 if big else 6)), "freq": [lo, lo + draw(st.floats(0, 0.3))], "energy": [elo, elo + draw(st.floats(0, 3))],
            "lin": draw(st.floats(0, 0.2)), "diagonal": draw(st.booleans()), "seed": draw(gens.seeds()), "default": draw(st.sampled_from(["all", "none", "some", "random", "random_diag"]))}


def f_c26(case):
    import random
    from pibronic.vibronic import VMK
    V = lib()
    np.random.seed(case["seed"])
    random.seed(case["seed"])
    p = {'frequency_range': case["freq"], 'energy_range': case["energy"], 'linear_scaling': case["lin"], 'diagonal': case["diagonal"], 'numStates': case["A"], 'numModes': case["N"]}
    full = {'frequency_range': [0.02, 0.04], 'energy_range': [0.0, 2.0], 'linear_scaling': 0.04, 'diagonal': False, 'numStates': 2, 'numModes': 3}
    kind = case["default"]
    if kind == "none":
        m = V.generate_vibronic_model_data()
    elif kind == "random":
        m = V.create_random_model()
        full.update(numStates=None, numModes=None, linear_scaling=0.06)
    elif kind == "random_diag":
        m = V.create_random_diagonal_model()
        full.update(numStates=None, numModes=None, linear_scaling=0.06, diagonal=True)
    else:
        if kind == "some":
            for j, k in enumerate(sorted(p)):
                if (case["seed"] >> j) & 1:
                    del p[k]
        keep = copy.deepcopy(p)
        m = V.generate_vibronic_model_data(p)
        ensure(p == keep, "the request was modified")
        full.update(p)
    A, N, dg = int(m[VMK.A]), int(m[VMK.N]), full["diagonal"]
    if full["numStates"] is not None:
        same([A, N], [full["numStates"], full["numModes"]], "dimensions")
    else:
        ensure(2 <= A <= 10 and 2 <= N <= 20, "random dimensions")
    for k, v in vmk_names().items():
        if v in m:
            same(m[v].shape, shape_of(k, A, N, dg), f"shape of {k}")
            ensure(np.all(np.isfinite(m[v])), f"{k} not finite")
    w = m[VMK.w]
    ensure(np.all((w >= full["frequency_range"][0] - 1e-12) & (w <= full["frequency_range"][1] + 1e-12)), f"frequencies {w} outside {full['frequency_range']}")
    ensure(np.all(w > 0), "frequencies not positive")
    E = m[VMK.E]
    ensure(np.all((E >= full["energy_range"][0] - 1e-12) & (E <= full["energy_range"][1] + 1e-12)), f"energies outside {full['energy_range']}")
    g1 = m.get(VMK.G1, np.zeros(shape_of("G1", A, N, dg)))
    lim = (full["linear_scaling"] / w).reshape((N,) + (1,) * (g1.ndim - 1))
    ensure(np.all(np.abs(g1) <= lim + 1e-12), "linear couplings exceed the requested displacement")
    if not dg:
        for k, v in vmk_names().items():
            if v in m and k != "w":
                ensure(np.allclose(m[v], np.swapaxes(m[v], -1, -2)), f"{k} not symmetric in the surfaces")
        for k in (VMK.G2, VMK.G4):
            if k in m:
                ensure(np.allclose(m[k], m[k].swapaxes(0, 1)), "not symmetric in the modes")
    # the empty template of these dimensions is a valid model without any coefficients
    zero = (V.diagonal_model_zeros_template_json_dict if dg else V.model_zeros_template_json_dict)(A, N)
    (V.verify_diagonal_model_parameters if dg else V.verify_model_parameters)(zero)
    for k, v in vmk_names().items():
        if v in zero:
            same(np.shape(zero[v]), shape_of(k, A, N, dg), f"shape of {k} in the template")
            ensure(not np.any(zero[v]), f"the template has non-zero {k}")
    # it is a model every other part accepts
    (V.verify_diagonal_model_parameters if dg else V.verify_model_parameters)(m)
    with scratch() as d:
        path = os.path.join(d, "m.json")
        (V.save_diagonal_model_to_JSON if dg else V.save_model_to_JSON)(path, m)
        check_loaded(load(path, dg), from_lib(m), dg, "generated model")
    # random enough: values are not constant
    if full["energy_range"][1] > full["energy_range"][0] + 1e-3 and A > 1:
        ensure(len(np.unique(E)) > 1, "all energies equal")
    if full["linear_scaling"] > 1e-6 and g1.size > 1:
        ensure(len(np.unique(g1)) > 1, "all linear couplings equal")
    return None


register("C26", [
    Check("generator", c26_case(), f_c26, 500, 10000, lambda c: c["default"] in ("all", "some") and c["A"] > 1, "dimensions, ranges, scalings fully, partly or not specified, random seeds, coupled and diagonal; non-trivial: explicit parameters and >=2 surfaces", replicas=4),
], [])
