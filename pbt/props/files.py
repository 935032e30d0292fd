"""C14-C16: directory trees, file names and the hash gate."""
import hashlib
import json
import os
import numpy as np
from ..core import Check, ensure, same, close, register, scratch, st, must_fail
from .. import gens

ROOTS = ["plain", "with space", "P12_T300.00_J3", "a_B7_P3", "trotter_P9_B8.json", "sos_B4", "x_X5_thermo", "{J:d}", "{", "a}b{c}", "[1]", "st*r", "q?", "ünï", "work", "data_set_1", "rho_2",
         "_T1.00_J", "D1_R2_P3_T4.o5", ".hidden", "a.npz", "%s%d", "'q'", "tab\there"]


@st.composite
def root_case(draw, n=3):
    return [draw(st.sampled_from(ROOTS)) for _ in range(draw(st.integers(1, n)))]


def make_root(d, comps):
    p = os.path.join(d, *comps)
    os.makedirs(p, exist_ok=True)
    return p


def snapshot(d, content=True):
    out = {}
    for b, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(b, x), d)] = None
        for x in fs:
            with open(os.path.join(b, x), "rb") as f:
                out[os.path.relpath(os.path.join(b, x), d)] = f.read()
    return out


VIB_ATTR = ["path_vib_params", "path_vib_results", "path_vib_output", "path_vib_plots"]
RHO_ATTR = ["path_rho_params", "path_rho_results", "path_rho_output", "path_rho_plots"]
DIRS = ["path_data", "path_rho", "path_es"] + VIB_ATTR + RHO_ATTR
VIB_FILES = ["path_vib_model", "path_har_model", "path_iter_model", "path_iter_mat", "path_analytic_vib", "path_analytic_orig", "path_orig_model", "path_ortho_mat"]
RHO_FILES = ["path_rho_model", "path_analytic_rho"]


def described(fs):
    """everything observable about where a structure keeps its files"""
    out = {a: os.path.normpath(getattr(fs, a)) for a in DIRS + VIB_FILES + RHO_FILES + ["path_root"]}
    out["id_data"], out["id_rho"] = fs.id_data, fs.id_rho
    out["pimc"] = os.path.normpath(fs.template_pimc.format(P=3, T=1.5, J="7"))
    out["thermo"] = os.path.normpath(fs.template_jackknife.format(P=3, T=1.5, X=11))
    out["sos_rho"] = os.path.normpath(fs.template_sos_rho.format(B=5))
    out["sos_vib"] = os.path.normpath(fs.template_sos_vib.format(B=5))
    out["trotter"] = os.path.normpath(fs.template_trotter_vib.format(P=3, B=5))
    return out


def inside(p, d):
    return p.startswith(d.rstrip("/") + "/")


@st.composite
def tree_case(draw):
    # few different ids per history, so that their trees can collide
    ids = st.sampled_from(draw(st.one_of(
        st.just([0, 1, 2, 10, 11, 12, 100]), st.just([1, 11, 111, 1111, 11111]), st.just([1234, 1235, 12345, 12346]), st.just([0, 10000, 100000, 1000000]), st.just([9999, 10000, 10001, 65535, 65536]),
        st.lists(st.integers(0, 10**7), min_size=2, max_size=4))))
    ops = []
    for _ in range(draw(st.integers(2, 9))):
        k = draw(st.sampled_from(["open", "open", "change", "change", "write", "rhodirs", "reopen", "hash", "nodir", "boxdata", "chdir", "default", "switchhash"]))
        ops.append([k, draw(ids), draw(ids), draw(st.integers(0, 5))])
    return {"root": draw(root_case()), "relative": draw(st.sampled_from([False, False, True])), "ops": ops}


def f_tree(case):
    from pibronic.data import file_structure
    with scratch() as d:
        d = os.path.realpath(d)
        root = make_root(d, case["root"])
        other = make_root(d, ["elsewhere"])
        os.chdir(d)
        arg = os.path.relpath(root, d) if case["relative"] else root
        live, hashes = [], {}
        trees = {}       # (D, R) -> described

        def model(what, i):
            return json.dumps({"m": what, "i": i})

        def verify(fs, D, R):
            got = described(fs)
            same([fs.id_data, fs.id_rho], [D, R], "ids of the structure")
            ensure(got["path_root"] == root, f"root is {got['path_root']!r} instead of {root!r}")
            ensure(inside(got["path_data"], root), f"data directory {got['path_data']!r} is not below {root!r}")
            for a, p in got.items():
                if a in ("path_root", "id_data", "id_rho", "path_data"):
                    continue
                ensure(inside(p, got["path_data"]), f"{a} = {p!r} lies outside the data set {got['path_data']!r}")
            for a in RHO_ATTR + RHO_FILES + ["pimc", "thermo", "sos_rho"]:
                ensure(inside(got[a], got["path_rho"]), f"{a} = {got[a]!r} lies outside the sampling model's tree {got['path_rho']!r}")
            for a in VIB_ATTR + VIB_FILES + ["path_es", "sos_vib", "trotter"]:
                ensure(not inside(got[a], got["path_rho"]) and got[a] != got["path_rho"], f"{a} = {got[a]!r} lies inside the sampling model's tree")
            for a in VIB_FILES + ["sos_vib", "trotter"]:
                ensure(inside(got[a], got["path_vib_params"]), f"{a} = {got[a]!r} is not a parameter file of the data set")
            for a in RHO_FILES + ["sos_rho"]:
                ensure(inside(got[a], got["path_rho_params"]), f"{a} = {got[a]!r} is not a parameter file of the sampling model")
            for a in ("pimc", "thermo"):
                ensure(inside(got[a], got["path_rho_results"]), f"{a} = {got[a]!r} is not a result file of the sampling model")
            paths = [p for a, p in got.items() if a not in ("id_data", "id_rho")]
            ensure(len(set(paths)) == len(paths), f"two purposes share a path: {sorted(p for p in paths if paths.count(p) > 1)[:2]}")
            if (D, R) in trees:
                ensure(trees[D, R] == got, f"paths of ({D},{R}) depend on how the structure was reached: { {a: (p, trees[D, R][a]) for a, p in got.items() if trees[D, R][a] != p} }")
            trees[D, R] = got
            for (D2, R2), t in trees.items():
                if D2 != D:
                    ensure(not inside(t["path_data"], got["path_data"]) and t["path_data"] != got["path_data"] and not inside(got["path_data"], t["path_data"]), f"data sets {D} and {D2} overlap")
                elif R2 != R:
                    ensure(not inside(t["path_rho"], got["path_rho"]) and t["path_rho"] != got["path_rho"] and not inside(got["path_rho"], t["path_rho"]), f"sampling models {R} and {R2} of data set {D} overlap")
                    for a in VIB_FILES + VIB_ATTR:
                        ensure(t[a] == got[a], f"{a} of data set {D} depends on the sampling id: {t[a]} / {got[a]}")
            return got

        def owned(before, after, allowed):
            """only entries below one of the allowed directories (or their parents) may appear; nothing existing changes"""
            for k, v in before.items():
                ensure(k in after, f"{k!r} was removed")
                ensure(after[k] == v, f"{k!r} was modified")
            for k in after:
                if k not in before:
                    full = os.path.join(d, k)
                    ensure(after[k] is None, f"unexpected new file {k!r}")
                    ensure(any(full == a or inside(full, a) or inside(a, full) for a in allowed), f"unexpected new directory {k!r} (allowed {allowed})")

        for op, D, R, i in case["ops"]:
            before = snapshot(d)
            if op == "open" or not live:
                fs = file_structure.FileStructure(arg if os.getcwd() == d else root, D, R)
                got = verify(fs, D, R)
                owned(before, snapshot(d), [got["path_data"]])
                ensure(fs.directories_exist(), "directories_exist() is false right after creation")
                for a in DIRS:
                    ensure(os.path.isdir(getattr(fs, a)), f"{a} was not created")
                live.append(fs)
                continue
            fs = live[i % len(live)]
            if op == "change":
                D0 = fs.id_data
                fs.change_rho(R)
                got = verify(fs, D0, R)
                owned(before, snapshot(d), [got["path_rho"]])
                fresh = file_structure.FileStructure(root, D0, R, no_makedir=True)
                ensure(described(fresh) == got, f"switching to {R} differs from opening with {R}: { {a: (p, described(fresh)[a]) for a, p in got.items() if described(fresh)[a] != p} }")
                for a in RHO_ATTR:
                    ensure(os.path.isdir(getattr(fs, a)), f"{a} does not exist after switching")
                if os.path.isfile(got["path_rho_model"]) and os.path.isfile(got["path_vib_model"]):
                    fs.generate_model_hashes()
                    fresh.generate_model_hashes()
                    # hashes are cached until regenerated, but they never belong to another sampling model
                    ensure(fs.hash_rho == fresh.hash_rho, "hash of the previous sampling model after switching")
                    ensure(fs.valid_rho_hash({"hash_rho": fresh.hash_rho}), "current hash refused after switching")
            elif op == "rhodirs":
                was = described(fs)
                fs.make_rho_directories(R)
                t = file_structure.FileStructure(root, fs.id_data, R, no_makedir=True)
                owned(before, snapshot(d), [os.path.normpath(t.path_rho), os.path.normpath(t.path_data)] if R == fs.id_rho else [os.path.normpath(t.path_rho)])
                for a in RHO_ATTR:
                    ensure(os.path.isdir(getattr(t, a)), f"{a} of sampling model {R} was not created")
                ensure(described(fs) == was, "creating another sampling model's directories changed the structure")
            elif op == "write":
                which = ["path_vib_model", "path_rho_model", "path_har_model", "path_analytic_rho", "path_orig_model", "path_ortho_mat"][R % 6]
                os.makedirs(os.path.dirname(getattr(fs, which)), exist_ok=True)
                with open(getattr(fs, which), "w") as f:
                    f.write(model(which, [D, R, i]))
            elif op == "reopen":
                x = file_structure.FileStructure(root, fs.id_data, fs.id_rho)
                ensure(described(x) == described(fs), "reopening gives different paths")
                owned(before, snapshot(d), [os.path.normpath(x.path_data)])
                live.append(x)
            elif op == "nodir":
                x = file_structure.FileStructure(root, D, R, no_makedir=True)
                verify(x, D, R)
                ensure(snapshot(d) == before, "no_makedir created something")
                want = all(os.path.isdir(getattr(x, a)) for a in DIRS)
                same(bool(x.directories_exist()), want, "directories_exist()")
                if i % 3 == 0:
                    # directories asked for later
                    x.make_rho_directories(R)
                    owned(before, snapshot(d), [os.path.normpath(x.path_data)])
                    verify(x, D, R)
                elif i % 3 == 1:
                    x.change_rho(R)
                    owned(before, snapshot(d), [os.path.normpath(x.path_data)])
                    verify(x, D, R)
                for a in RHO_ATTR if i % 3 < 2 else []:
                    ensure(os.path.isdir(getattr(x, a)), f"{a} was not created")
                continue
            elif op == "default":
                x = file_structure.FileStructure(root, D)
                verify(x, D, 0)
                owned(before, snapshot(d), [os.path.normpath(x.path_data)])
            elif op == "switchhash":
                # a structure whose hashes are known is pointed to another sampling model
                t = file_structure.FileStructure(root, fs.id_data, R)
                for p, c in ((fs.path_vib_model, "v"), (fs.path_rho_model, "r"), (t.path_rho_model, "r2" if i % 2 else "r")):
                    if not os.path.isfile(p):
                        with open(p, "w") as f:
                            f.write(model(c, i))
                t.generate_model_hashes()
                fs.generate_model_hashes(force_flag=True)
                fs.change_rho(R)
                if i % 3:
                    fs.generate_model_hashes()
                    same([fs.hash_vib, fs.hash_rho], [t.hash_vib, t.hash_rho], "hashes after switching")
                else:
                    # not asked for yet: what is known, if anything, belongs to the models now in use
                    same(getattr(fs, "hash_rho", t.hash_rho), t.hash_rho, "hash of the sampling model after switching")
                    same(getattr(fs, "hash_vib", t.hash_vib), t.hash_vib, "hash of the model after switching")
            elif op == "boxdata":
                class B:
                    id_data, id_rho = D, R
                x = file_structure.FileStructure.from_boxdata(root, B)
                got = verify(x, D, R)
                owned(before, snapshot(d), [got["path_data"]])
            elif op == "chdir":
                os.chdir(other if os.getcwd() == d else d)
            elif op == "hash":
                if os.path.isfile(fs.path_vib_model) and os.path.isfile(fs.path_rho_model):
                    fs.generate_model_hashes(force_flag=True)
                    for h, p in (("hash_vib", fs.path_vib_model), ("hash_rho", fs.path_rho_model)):
                        h, c = getattr(fs, h), open(p).read()
                        if c in hashes:
                            same(h, hashes[c], "hash of identical contents")
                        else:
                            ensure(h not in hashes.values(), "different models share a hash")
                            hashes[c] = h
                ensure(snapshot(d) == before, "generating hashes changed files")
            for x in live:
                verify(x, x.id_data, x.id_rho)
    return {"trees": len(trees)}


def f_badroot(case):
    from pibronic.data import file_structure
    with scratch() as d:
        p = os.path.join(d, *case["root"])
        if case["kind"] == "file":
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").close()
        before = snapshot(d)
        must_fail(lambda: file_structure.FileStructure(p, case["D"], case["R"]), "root that is not an existing directory")
        ensure(snapshot(d) == before, "a refused root left files behind")


register("C15", [
    Check("history", tree_case(), f_tree, 700, 12000, lambda c: len([o for o in c["ops"] if o[0] in ("change", "open", "boxdata")]) >= 3,
          "2-9 create/switch/write/reopen operations on data sets and sampling models below odd root names (spaces, braces, glob and naming-scheme characters, relative); non-trivial: at least 3 create/switch operations", replicas=6),
    Check("badroot", st.fixed_dictionaries({"root": root_case(), "kind": st.sampled_from(["missing", "file"]), "D": st.integers(0, 3), "R": st.integers(0, 3)}), f_badroot, 40, 200,
          lambda c: True, "roots that do not exist or are files are refused without leaving anything behind"),
])


# ---------------------------------------------------------------- C16
PS = st.one_of(st.sampled_from([1, 2, 3, 10, 11, 12, 20, 21, 100, 1000, 12345]), st.integers(1, 99999))
TS = st.one_of(st.sampled_from([1.0, 3.0, 10.0, 30.0, 30.5, 300.0, 300.5, 300.05, 300.01, 0.05, 1300.0, 0.3]), st.integers(1, 999999).map(lambda k: round(k / 100, 2)))
JS = st.one_of(st.sampled_from([0, 1, 10, 11, 100, 4321]), st.integers(0, 10**7))
BS = st.one_of(st.sampled_from([1, 2, 10, 20, 21, 100, 200]), st.integers(1, 9999))


@st.composite
def names_case(draw):
    files = []
    for _ in range(draw(st.integers(1, 12))):
        k = draw(st.sampled_from(["pimc", "pimc", "pimc", "pimc", "thermo", "thermo", "sos_vib", "sos_rho", "sos_vib", "sos_rho", "trotter", "train_in", "train_g", "train_rho", "exec", "noise"]))
        files.append([k, draw(PS), draw(TS), draw(JS), draw(BS)])
    # near collisions: reuse parameters of an earlier file with one of them changed
    for _ in range(draw(st.integers(0, 5))):
        f = list(draw(st.sampled_from(files)))
        j = draw(st.integers(1, 4))
        f[j] = draw([PS, TS, JS, BS][j - 1])
        files.append(f)
    return {"root": draw(root_case()), "D": draw(st.integers(0, 20)), "R": draw(st.integers(0, 20)), "files": files}


NOISE = ["P3_T300.00_J1_data_points.npz.bak", "xP3_T300.00_J1_data_points.npz", "sos_B.txt", "notes", "P3_T300.00_X4_thermo.old", "sos_B5.json~", "rho_B5.json", "P3_T300.00_J1.npz"]


def f_names(case):
    from pibronic.data import file_structure, file_name
    from pibronic.data import postprocessing as pp
    with scratch() as d:
        root = make_root(d, case["root"])
        fs = file_structure.FileStructure(root, case["D"], case["R"])
        sib = file_structure.FileStructure(root, case["D"], case["R"] + 1)
        sibd = file_structure.FileStructure(root, case["D"] + 1, case["R"])
        made = {}
        for kind, P, T, J, B in case["files"]:
            if kind == "pimc":
                p, key = fs.template_pimc.format(P=P, T=T, J=str(J)), (kind, P, T, J)
                same(os.path.basename(p), file_name.pimc().format(P=P, T=T, J=J), "name from the structure / from the naming scheme")
            elif kind == "thermo":
                p, key = fs.template_jackknife.format(P=P, T=T, X=J), (kind, P, T, J)
            elif kind == "sos_vib":
                p, key = fs.template_sos_vib.format(B=B), (kind, B)
            elif kind == "sos_rho":
                p, key = fs.template_sos_rho.format(B=B), (kind, B)
            elif kind == "trotter":
                p, key = fs.template_trotter_vib.format(P=P, B=B), (kind, P, B)
            elif kind == "exec":
                p, key = fs.path_rho_output + file_name.execution_output().format(D=case["D"], R=case["R"], P=P, T=T, J=J), (kind, P, T, J)
            elif kind == "noise":
                p, key = [fs.path_rho_results, fs.path_rho_params, fs.path_vib_params][P % 3] + NOISE[J % len(NOISE)], (kind, P % 3, J % len(NOISE))
            else:
                fn = {"train_in": file_name.training_data_input, "train_g": file_name.training_data_g_output, "train_rho": file_name.training_data_rho_output}[kind]
                p, key = fs.path_rho_results + fn().format(P=P, T=T, J=J), (kind, P, T, J)
            p = os.path.normpath(p)
            if p in made:
                ensure(made[p] == key, f"{os.path.basename(p)} is the name for {made[p]} and for {key}")
            elif key in made.values():
                ensure(False, f"{key} has several names")
            made[p] = key
            ensure("\n" not in os.path.basename(p) and os.path.isdir(os.path.dirname(p)), f"bad path {p!r}")
            open(p, "w").close()
        # files of other sampling models / data sets with the same and with different parameters
        for o in (sib, sibd):
            for kind, P, T, J, B in case["files"][:3]:
                for pp_ in (P, P + 1):
                    open(o.template_pimc.format(P=pp_, T=T, J=str(J)), "w").close()
                    open(o.template_jackknife.format(P=pp_, T=T, X=J + 1), "w").close()
                open(o.template_sos_rho.format(B=B), "w").close()
        open(sibd.template_sos_vib.format(B=12345), "w").close()

        def want(kind, **kw):
            return sorted(p for p, k in made.items() if k[0] == kind)

        def norm(lst):
            lst = [os.path.normpath(x) for x in lst]
            ensure(len(set(lst)) == len(lst), f"a file is listed twice: {lst}")
            return sorted(lst)
        for got, kind in ((pp.retrive_pimc_file_list(fs), "pimc"), (pp.retrive_jackknife_file_list(fs), "thermo"), (pp.retrive_sos_coupled_file_list(fs), "sos_vib"), (pp.retrive_sos_sampling_file_list(fs), "sos_rho")):
            ensure(norm(got) == want(kind), f"{kind} files found: {[os.path.basename(x) for x in norm(got)]} expected {[os.path.basename(x) for x in want(kind)]}")
        allp = pp.retrive_all_file_paths(fs)
        for got, kind in zip(allp, ("pimc", "thermo", "sos_vib", "sos_rho")):
            ensure(norm(got) == want(kind), f"retrive_all_file_paths: {kind}")
        for got, kind in zip(pp.retrive_file_paths_for_jackknife(fs), ("pimc", "sos_vib", "sos_rho")):
            ensure(norm(got) == want(kind), f"retrive_file_paths_for_jackknife: {kind}")
        for B in sorted({f[4] for f in case["files"]}):
            for fn, kind in ((pp.retrive_sos_coupled_file_list, "sos_vib"), (pp.retrive_sos_sampling_file_list, "sos_rho")):
                ensure(norm(fn(fs, B)) == sorted(p for p, k in made.items() if k == (kind, B)), f"{kind} files for basis size {B}: {fn(fs, B)}")
        for p, k in made.items():
            if k[0] == "pimc":
                got = (pp.extract_bead_value_from_pimc_file_path(p), pp.extract_temperature_value_from_pimc_file_path(p), pp.extract_job_value_from_pimc_file_path(p))
            elif k[0] == "thermo":
                got = (pp.extract_bead_value_from_thermo_file_path(p), pp.extract_temperature_value_from_thermo_file_path(p), pp.extract_sample_value_from_thermo_file_path(p))
            elif k[0] in ("sos_vib", "sos_rho"):
                got = (pp.extract_basis_value_from_sos_file_path(p),)
            elif k[0] == "trotter":
                got = (pp.extract_bead_value_from_trotter_file_path(p), pp.extract_basis_value_from_trotter_file_path(p))
            else:
                continue
            ensure(got == k[1:], f"parameters {got} recovered from {p!r} instead of {k[1:]}")
        lp, lv, lr = (want(x) for x in ("pimc", "sos_vib", "sos_rho"))
        basis = sorted({k[1] for k in made.values() if k[0] == "sos_vib"} & {k[1] for k in made.values() if k[0] == "sos_rho"})
        beads = sorted({k[1] for k in made.values() if k[0] == "pimc"})
        temps = sorted({k[2] for k in made.values() if k[0] == "pimc"})
        same(pp.extract_bead_paramater_list(lp), beads, "bead numbers of the results")
        same(pp.extract_temperature_paramater_list(lp), temps, "temperatures of the results")
        ensure(list(pp.extract_sos_basis_paramater_list(lv, lr)) == basis, "common basis sizes")
        got = pp.extract_parameter_lists(lp, lv, lr)
        ensure([list(x) for x in got] == [beads, temps, basis], f"extract_parameter_lists {got}")
        jd = pp.extract_jackknife_parameters(lp, lv, lr)
        ensure((list(jd["pimc_beads"]), list(jd["temperatures"]), list(jd["basis_fxns"])) == (beads, temps, basis), f"extract_jackknife_parameters {jd}")
        lt = want("thermo")
        pd = pp.extract_pimc_parameters(lt, lv, lr)
        ensure((list(pd["pimc_beads"]), list(pd["temperatures"]), list(pd["samples"])) == tuple(sorted({k[i] for k in made.values() if k[0] == "thermo"}) for i in (1, 2, 3)), f"extract_pimc_parameters {pd}")
        tro = want("trotter")
        td = pp.extract_trotter_paramater_list(tro)
        wd = {}
        for k in made.values():
            if k[0] == "trotter":
                wd.setdefault(k[2], []).append(k[1])
        ensure({b: sorted(v) for b, v in td.items()} == {b: sorted(v) for b, v in wd.items()}, f"trotter parameters {dict(td)} expected {wd}")
    return {"files": len(made)}


def f_saved(case):
    """the file names that calculations write, and what is collected for one pair"""
    from pibronic.data import file_structure
    from pibronic.data import postprocessing as pp
    from pibronic.pimc import pimc
    with scratch() as d:
        fs = file_structure.FileStructure(make_root(d, case["root"]), case["D"], case["R"])
        fs.hash_vib, fs.hash_rho = "v" * 128, "r" * 128
        made = {}
        for n, (kind, P, T, J, B) in enumerate(case["files"][:7]):
            class D:
                beads, temperature, samples, hash_vib, hash_rho = P, T, 1 + n % 3, fs.hash_vib, fs.hash_rho
            r = pimc.BoxResultPM(data=D)
            r.path_root, r.id_job = fs.path_rho_results, J if n % 2 else str(J)
            for x in (r.scaled_g, r.scaled_rho, r.scaled_gofr_plus, r.scaled_gofr_minus):
                x[:] = 1000 * (n + 1) + np.arange(1 + n % 3)
            r.save_results(r.samples)
            made[P, T, J] = n
        lst = pp.retrive_pimc_file_list(fs)
        got = sorted((pp.extract_bead_value_from_pimc_file_path(p), pp.extract_temperature_value_from_pimc_file_path(p), pp.extract_job_value_from_pimc_file_path(p)) for p in lst)
        ensure(got == sorted(made), f"results on disk {got} instead of {sorted(made)}")
        for P, T in sorted({k[:2] for k in made}):
            r = pimc.BoxResultPM()
            pp.load_pimc_data(fs, P, T, r)
            want = sorted(1000.0 * (n + 1) + i for k, n in made.items() if k[:2] == (P, T) for i in range(1 + n % 3))
            ensure(sorted(np.asarray(r.scaled_g).tolist()) == want, f"samples loaded for P={P} T={T}: {sorted(np.asarray(r.scaled_g).tolist())} instead of {want}")
    return None


register("C16", [
    Check("names", names_case(), f_names, 700, 12000, lambda c: len({f[0] for f in c["files"]}) > 1 and len(c["files"]) > 3,
          "1-17 coexisting files of all kinds (near-colliding parameters, noise, sibling data sets) below odd directories; non-trivial: several kinds and more than 3 files", replicas=6),
    Check("saved", names_case(), f_saved, 250, 4000, lambda c: len(c["files"]) > 2, "results saved by calculations are found, named and collected per (beads, temperature); non-trivial: more than 2 files", replicas=2),
])


# ---------------------------------------------------------------- C14
@st.composite
def hash_case(draw):
    ops = []
    for _ in range(draw(st.integers(3, 14))):
        k = draw(st.sampled_from(["vib", "rho", "pimc", "pimc", "thermo", "analytic", "switch", "switch", "query", "query", "mangle", "library", "rerun", "restore"]))
        ops.append([k, draw(st.integers(0, 3)), draw(st.integers(0, 2))])
    if draw(st.integers(0, 3)) == 0:
        # an analysed data set, some of its files lose their identification
        i, j = st.integers(0, 3), st.integers(0, 2)
        ops += [["pimc", draw(i), 0], ["analytic", 0, 0], ["thermo", 0, 0]]
        ops += [["mangle", draw(i), draw(j)] for _ in range(draw(st.integers(0, 2)))] + draw(st.sampled_from([[], [["vib", 1, 0]], [["rho", 2, 0]], [["switch", 0, 1]]])) + [["query", 0, 0]]
    return {"ops": ops, "fresh": draw(st.booleans()), "D": draw(st.integers(0, 2))}


def vib_model(i):
    # variants differ as little as a model can
    return {"N": 1, "A": 2, "w": [0.1], "E": [[0.1, 0.0], [0.0, [0.2, 0.2 + 1e-16 * 3, 0.21, -0.2][i]]], "G1": [[[0.01, 0.02], [0.02, 0.0]]]}


def rho_model(i):
    return {"N": 1, "A": 2, "w": [0.1], "E": [0.1, 0.2], "G1": [[[0.01, 0.010000000000000002, -0.01, 0.0][i], 0.0]]}


def f_hash(case):
    from pibronic.data import file_structure
    from pibronic.data import postprocessing as pp
    from pibronic.pimc import pimc
    from pibronic.stats import stats
    from pibronic.vibronic import vIO
    with scratch() as d:
        D = case["D"]
        fs = file_structure.FileStructure(d, D, 0)
        state = {"vib": 0, "rho": {0: 0}, "R": 0}
        gens.write_json_model(fs.path_vib_model, vib_model(0))
        gens.write_json_model(fs.path_rho_model, rho_model(0))
        results = {}     # path -> (R, contents of the two models, kind)
        analytic = {}    # R -> (vib contents, rho contents, T, tag)
        count = 0

        def contents():
            return open(fs.path_vib_model).read(), open(fs.path_rho_model).read()

        def current():
            """the structure as a user holds it after a change: regenerated or newly opened"""
            nonlocal fs
            if case["fresh"]:
                fs = file_structure.FileStructure(d, D, state["R"])
                fs.generate_model_hashes()
            else:
                fs.generate_model_hashes(force_flag=True)
            return fs

        for k, i, j in case["ops"]:
            count += 1
            if k == "vib":
                gens.write_json_model(fs.path_vib_model, vib_model(i))
            elif k == "rho":
                gens.write_json_model(fs.path_rho_model, rho_model(i))
            elif k == "restore":
                # a model put back together with its old time stamps
                p = fs.path_vib_model if j else fs.path_rho_model
                gens.write_json_model(p, vib_model(i) if j else rho_model(i))
                os.utime(p, (1e9 + i, 1e9 + i))
            elif k == "library":
                if i % 2:
                    vIO.create_basic_diagonal_model(fs)
                else:
                    vIO.create_fake_coupled_model(fs, tuning_parameter=0.1 * j)
            elif k == "switch":
                state["R"] = j
                if case["fresh"]:
                    fs = file_structure.FileStructure(d, D, j)
                else:
                    fs.change_rho(j)
                if not os.path.isfile(fs.path_rho_model):
                    gens.write_json_model(fs.path_rho_model, rho_model(i))
            elif k == "pimc" or k == "rerun":
                current()
                job = count
                if k == "rerun":
                    # an earlier job of this sampling model is run again
                    js = sorted(w for p, v in results.items() if v[0] == state["R"] and v[2] == "pimc" for w in [int(p.rsplit("_J", 1)[1].split("_")[0])])
                    if not js:
                        continue
                    job = js[j % len(js)]
                data = pimc.BoxDataPM.from_FileStructure(fs)
                if i % 2:
                    js = json.dumps({"number_of_samples": 2, "number_of_blocks": 1, "number_of_states": 2, "number_of_modes": 1, "number_of_beads": 3, "temperature": 300.0, "block_size": 2,
                                     "id_data": D, "id_rho": state["R"], "path_root": d, "delta_beta": 2e-4})
                    data = pimc.BoxDataPM.from_json_string(js.replace(",", ";"))
                else:
                    data.samples, data.blocks, data.block_size, data.beads, data.temperature = 2, 1, 2, 3, 300.0
                    data.hash_vib, data.hash_rho = fs.hash_vib, fs.hash_rho
                data.preprocess()
                res = pimc.BoxResultPM(data=data)
                res.path_root, res.id_job = fs.path_rho_results, job
                pimc.block_compute_pm(data, res)
                p = os.path.normpath(fs.template_pimc.format(P=3, T=300.0, J=str(job)))
                ensure(os.path.isfile(p), f"the calculation did not write {os.path.basename(p)}")
                results[p] = (state["R"], contents(), "pimc")
            elif k == "analytic":
                current()
                with open(fs.path_analytic_rho, "w") as f:
                    json.dump({"hash_vib": fs.hash_vib, "hash_rho": fs.hash_rho, "300.00": {"Z_sampling": 2.0 + count, "E_sampling": 0.5, "Cv_sampling": 0.25, "Z_sampling+beta": 1.9, "Z_sampling-beta": 2.1}}, f)
                analytic[state["R"]] = (contents(), 2.0 + count)
            elif k == "thermo":
                current()
                mine = [p for p, v in results.items() if v[0] == state["R"] and v[2] == "pimc" and v[1] == contents()]
                if mine and state["R"] in analytic and analytic[state["R"]][0] == contents():
                    stats.starmap_wrapper(fs, 3, 300.0, stats.basic_statistical_analysis)
                    p = os.path.normpath(fs.template_jackknife.format(P=3, T=300.0, X=2 * len(mine)))
                    ensure(os.path.isfile(p), f"no thermodynamic result {os.path.basename(p)} from {len(mine)} current files; present {sorted(os.listdir(fs.path_rho_results))}")
                    results[p] = (state["R"], contents(), "thermo")
            elif k == "mangle" and results:
                # a file without identification can never be accepted
                p = sorted(results)[i % len(results)]
                if results[p][2] == "pimc":
                    with np.load(p) as f:
                        c = {x: f[x] for x in f.files if x != ("hash_vib" if j else "hash_rho")}
                    np.savez(p, **c)
                else:
                    c = json.load(open(p))
                    c.pop("hash_vib" if j else "hash_rho", None)
                    json.dump(c, open(p, "w"))
                results[p] = (results[p][0], None, results[p][2])
            if k in ("query", "switch", "vib", "rho", "library", "rerun", "restore"):
                current()
                now = contents()
                lists = {"pimc": pp.retrive_pimc_file_list(fs), "thermo": pp.retrive_jackknife_file_list(fs)}
                for kind, lst in lists.items():
                    ensure(sorted(map(os.path.normpath, lst)) == sorted(p for p, v in results.items() if v[0] == state["R"] and v[2] == kind), f"{kind} files found for sampling model {state['R']}: {lst}")
                    got = sorted(map(os.path.normpath, pp.prune_results_using_hashes(fs, lst)))
                    want = sorted(p for p, v in results.items() if v[0] == state["R"] and v[2] == kind and v[1] == now)
                    ensure(got == want, f"{kind} results accepted as current {[os.path.basename(x) for x in got]}, produced with the current models {[os.path.basename(x) for x in want]}")
                # every result of every sampling model offered at once
                got = sorted(map(os.path.normpath, pp.prune_results_using_hashes(fs, sorted(results))))
                want = sorted(p for p, v in results.items() if v[1] == now)
                ensure(got == want, f"accepted {got}, current {want}")
                for p, v in results.items():
                    if v[2] == "thermo" and v[1] is not None:
                        c = json.load(open(p))
                        same(bool(fs.valid_vib_hash(c)), v[1][0] == now[0], "valid_vib_hash")
                        same(bool(fs.valid_rho_hash(c)), v[1][1] == now[1], "valid_rho_hash")
                        same(bool(fs.valid_vib_and_rho_hashes(c)), v[1] == now, "valid_vib_and_rho_hashes")
                a = analytic.get(state["R"])
                out = {}
                if a is not None and a[0] == now:
                    pp.load_analytic_data(fs, 300.0, out)
                    close(out["Z"], a[1], "analytic partition function")
                    must_fail(lambda: pp.load_analytic_data(fs, 301.0, {}), "temperature without analytic results")
                else:
                    must_fail(lambda: pp.load_analytic_data(fs, 300.0, out), "analytic results of other models")
                cur = [p for p, v in results.items() if v[0] == state["R"] and v[1] == now and v[2] == "pimc"]
                r = pimc.BoxResultPM()
                if cur:
                    pp.load_pimc_data(fs, 3, 300.0, r)
                    want = []
                    for p in cur:
                        with np.load(p) as f:
                            want += f["s_g"].tolist()
                    ensure(sorted(np.asarray(r.scaled_g).tolist()) == sorted(want), "samples collected for the current models")
                else:
                    must_fail(lambda: pp.load_pimc_data(fs, 3, 300.0, r), "no results of the current models")
    return {"results": len(results)}


register("C14", [
    Check("history", hash_case(), f_hash, 400, 6000, lambda c: any(o[0] == "pimc" for o in c["ops"]) and any(o[0] in ("vib", "rho", "library", "switch") for o in c["ops"]),
          "3-14 steps of changing either model (by as little as one bit of one number, through the library, or restored with old time stamps), switching sampling models, producing results (also again under an earlier job id), thermodynamic and analytic files, removing identification, and asking for the current ones; non-trivial: results are produced and a model changes", replicas=6),
], ["hashes are taken after a change by a newly opened structure or by generate_model_hashes(force_flag=True), as documented"])
