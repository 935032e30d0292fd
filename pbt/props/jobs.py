"""C20, C21, C29: job parameters, job plans and the scheduler.

The scheduler's programs (sbatch, scontrol, sinfo, sacct, ...) are replaced by small recording scripts on PATH,
so that everything up to the shell command line that reaches the scheduler is the real code."""
import contextlib
import copy
import glob
import json
import os
import signal
import stat
import subprocess
import sys
import numpy as np
from ..core import Check, Skip, ensure, same, close, register, scratch, st, must_fail, no_waiting, REPO
from .. import gens
from .files import snapshot

SBATCH = """#!/bin/sh
n=$(ls "$FAKE_SLURM/jobs" | wc -l)
n=$((n + 1 + ${FAKE_FIRST:-0}))
printf '%s\\0' "$@" > "$FAKE_SLURM/jobs/$n"
if [ -e "$FAKE_SLURM/refuse" ]; then echo "sbatch: error: refused" >&2; exit 1; fi
echo "Submitted batch job $n"
"""
SCONTROL = """#!/bin/sh
if [ "$2" = config ]; then cat "$FAKE_SLURM/config"; exit 0; fi
n=$(cat "$FAKE_SLURM/polls" 2>/dev/null || echo 0)
n=$((n + 1))
echo $n > "$FAKE_SLURM/polls"
if [ -e "$FAKE_SLURM/state.$n" ]; then cat "$FAKE_SLURM/state.$n"; else cat "$FAKE_SLURM/state.last"; fi
if [ -e "$FAKE_SLURM/err.$n" ]; then cat "$FAKE_SLURM/err.$n" >&2; fi
"""
PLAIN = {"sinfo": "#!/bin/sh\ncat \"$FAKE_SLURM/partitions\" 2>/dev/null && exit 0\necho PARTITION\necho serial\necho highmem\necho special\n", "sacct": "#!/bin/sh\ncat \"$FAKE_SLURM/acct\" 2>/dev/null\n", "sleep": "#!/bin/sh\nexit 0\n", "ssh": "#!/bin/sh\necho\n"}


@contextlib.contextmanager
def slurm(d, hostname="nlogn", first=0):
    """recording scheduler on PATH; yields its directory"""
    f = os.path.join(d, "fake_slurm")
    os.makedirs(os.path.join(f, "jobs"))
    os.makedirs(os.path.join(f, "bin"))
    progs = dict(PLAIN, sbatch=SBATCH, scontrol=SCONTROL, python3=f"#!/bin/sh\nexec {sys.executable} \"$@\"\n")
    for name, text in progs.items():
        p = os.path.join(f, "bin", name)
        with open(p, "w") as out:
            out.write(text)
        os.chmod(p, 0o755)
    with open(os.path.join(f, "config"), "w") as out:
        out.write(f"Configuration data as of 2018\nAccountingStorageHost   = head\nBatchStartTimeout       = 10 sec\nClusterName             = {hostname}\nCompleteWait            = 0 sec\n")
    old = dict(os.environ)
    os.environ["PATH"] = os.path.join(f, "bin") + os.pathsep + old["PATH"]
    os.environ["FAKE_SLURM"], os.environ["FAKE_FIRST"] = f, str(first)
    try:
        yield f
    finally:
        os.environ.clear()
        os.environ.update(old)


def recorded(f):
    """submitted jobs as argument lists, in order"""
    out = []
    for n in sorted(map(int, os.listdir(os.path.join(f, "jobs")))):
        with open(os.path.join(f, "jobs", str(n))) as fh:
            out.append((n, fh.read().split("\0")[:-1]))
    return out


def job_env(args):
    """the environment the scheduler would hand to the job: --export is split at commas"""
    exp = [a for a in args if a.startswith("--export=")]
    same(len(exp), 1, "number of --export options")
    env = {}
    for item in exp[0][len("--export="):].split(","):
        ensure("=" in item, f"the scheduler splits the exported variables into {item!r}")
        k, v = item.split("=", 1)
        ensure(k.isidentifier(), f"the scheduler splits the exported variables into {item!r}")
        env[k] = v
    return env


def models(d, D, R, A=1, N=1):
    from pibronic.data import file_structure
    fs = file_structure.FileStructure(d, D, R)
    rng = np.random.default_rng(D * 100 + R)
    gens.write_json_model(fs.path_vib_model, {"N": N, "A": A, "w": np.full(N, 0.1), "E": np.diag(np.arange(A) * 0.1 + D * 0.01)})
    gens.write_json_model(fs.path_rho_model, {"N": N, "A": A, "w": np.full(N, 0.1), "E": np.arange(A) * 0.1 + 0.001 * R})
    return fs


ROOT = st.lists(st.sampled_from(["plain", "a-b", "x.y", "work", "homework", "data_set_1", "P3_T1.00", "UPPER"]), min_size=0, max_size=2)
FLOAT_T = st.one_of(st.sampled_from([300.0, 250.0, 0.1, 10.05, 298.15]), st.integers(1, 10**6).map(lambda k: k / 1000), st.integers(1, 500))


@st.composite
def param_case(draw):
    bs = draw(st.one_of(st.integers(1, 7), st.integers(8, 10**6)))
    nb = draw(st.one_of(st.integers(1, 5), st.integers(6, 10**4)))
    return {"X": bs * nb, "nBlk": nb, "BlkS": bs, "A": draw(st.integers(1, 4)), "N": draw(st.integers(1, 4)), "P": draw(st.integers(3, 200)), "T": draw(FLOAT_T),
            "D": draw(st.integers(0, 300)), "R": draw(st.integers(0, 30)), "dB": draw(st.sampled_from([None, "absent", 2e-4, 1e-3, 1, 0.3333333333333333, 5e-324])), "beta": draw(st.one_of(st.sampled_from(["none", "both"]), st.sampled_from([0.5, 7.25, 1e-3, 38.68]))),
            "root": draw(ROOT), "extra": draw(st.booleans()), "pm": draw(st.booleans())}


def names():
    return {"X": "number_of_samples", "nBlk": "number_of_blocks", "A": "number_of_states", "P": "number_of_beads", "N": "number_of_modes", "T": "temperature", "BlkS": "block_size", "D": "id_data", "R": "id_rho"}


ATTR = {"X": "samples", "nBlk": "blocks", "A": "states", "P": "beads", "N": "modes", "T": "temperature", "BlkS": "block_size", "D": "id_data", "R": "id_rho"}


def f_params(case):
    from pibronic import constants
    from pibronic.pimc import pimc
    from pibronic.server import job_boss
    from pibronic.vibronic import vIO
    with scratch() as d:
        root = os.path.join(d, *case["root"])
        os.makedirs(root, exist_ok=True)
        fs = models(root, case["D"], case["R"], case["A"], case["N"])
        params = {v: case[k] for k, v in names().items()}
        params["path_root"] = fs.path_root
        if case["dB"] != "absent":
            params["delta_beta"] = case["dB"]
        # values which are stated take precedence over those that follow from the temperature
        beta = 1.0 / (float(constants.boltzman) * case["T"])
        tau = beta / case["P"]
        if case["beta"] == "both":
            params["beta"], params["tau"] = beta, tau
        elif case["beta"] != "none":
            beta = params["beta"] = case["beta"]
            tau = params["tau"] = case["beta"] / (case["P"] + 1)
        if case["extra"]:
            params.update(temperature_list=[1.5, 2.5], bead_list=[3, 4], partition=None, hostname="nlogn", wait_param="", copy_to="\"/a b/\"")
        keep = copy.deepcopy(params)
        cls = pimc.BoxDataPM if case["pm"] else pimc.BoxData
        default = constants.delta_beta if case["pm"] else 0.0

        def verify(b, what):
            for k, a in ATTR.items():
                got = getattr(b, a)
                ensure(got == case[k] and type(got) is type(case[k]), f"{what}: {a} is {got!r} instead of {case[k]!r}")
            want = default if case["dB"] in (None, "absent") else case["dB"]
            ensure(b.delta_beta == want, f"{what}: step {b.delta_beta!r} instead of {want!r}")
            # stated values are recovered bit for bit
            close(b.beta, beta, f"{what}: beta", rtol=1e-14 if case["beta"] == "none" else 0.0, atol=0.0)
            close(b.tau, tau, f"{what}: tau", rtol=1e-14 if case["beta"] == "none" else 0.0, atol=0.0)
            same(os.path.normpath(b.path_vib_model), os.path.normpath(fs.path_vib_model), f"{what}: vibronic model")
            same(os.path.normpath(b.path_rho_model), os.path.normpath(fs.path_rho_model), f"{what}: sampling model")
            same(b.hash_vib, vIO.create_model_hash(path=fs.path_vib_model), f"{what}: hash of the vibronic model")
            same(b.hash_rho, vIO.create_diagonal_model_hash(path=fs.path_rho_model), f"{what}: hash of the sampling model")

        for what, ser in (("BoxData.json_serialize", cls.json_serialize), ("serialize_BoxData_dictionary", job_boss.serialize_BoxData_dictionary), ("encode_self", lambda p: cls().encode_self(p))):
            s = ser(params)
            ensure(params == keep, f"{what} modified the parameters")
            ensure("," not in s and "\n" not in s and "'" not in s, f"{what}: {s!r} contains a character that ends the exported variable")
            ensure(json.loads(s.replace(";", ",")) == json.loads(json.dumps(params)), f"{what} does not hold the parameters")
            b = cls.from_json_string(s)
            verify(b, what)
            p = os.path.join(d, "parameters.json")
            with open(p, "w") as f:
                f.write(s)
            verify(cls.from_json_file(p), what + " through a file")
            # decoding into a used object leaves nothing of its former contents
            other = cls()
            other.samples, other.beads, other.temperature, other.id_rho, other.beta, other.tau = 99, 98, 97.0, 96, 95.0, 94.0
            other.load_json_string(s)
            verify(other, what + " into a used object")
            # encoding the object itself
            s2 = b.encode_self()
            ensure("," not in s2, f"encode_self: {s2!r}")
            verify(cls.from_json_string(s2), "encode_self of a decoded object")
        fresh = cls.from_FileStructure(fs)
        same([fresh.states, fresh.modes, fresh.id_data, fresh.id_rho], [case[k] for k in ("A", "N", "D", "R")], "from_FileStructure")
        fresh.samples, fresh.blocks, fresh.block_size, fresh.beads, fresh.temperature = case["X"], case["nBlk"], case["BlkS"], case["P"], case["T"]
        fresh.beta, fresh.tau = beta, tau
        if case["dB"] not in (None, "absent"):
            fresh.delta_beta = case["dB"]
        verify(cls.from_json_string(fresh.encode_self()), "encode_self")
        # classes are not changed by their objects
        ensure(pimc.BoxData.samples == 0 and pimc.BoxData.beads == 0 and pimc.BoxData.hash_vib is None, "decoding changed the class defaults")
    return None


@st.composite
def submit_case(draw):
    subs = []
    for _ in range(draw(st.integers(1, 3))):
        bs = draw(st.sampled_from([1, 10, 999, 1000, 1001, 30000, 70000, 100000]))
        n = draw(st.one_of(st.integers(1, 12).map(lambda k: k * bs), st.integers(bs, 250000)))
        if n < bs:
            n = bs
        subs.append({"D": draw(st.integers(0, 3)), "R": draw(st.integers(0, 2)), "n": min(n, 400000) if n >= bs else bs, "bs": bs, "overall": draw(st.sampled_from([0, 0, 0, 1, 2, 3])), "off": draw(st.integers(0, 5)),
                     "P": draw(st.lists(st.integers(3, 40), min_size=1, max_size=2, unique=True)), "T": draw(st.lists(st.sampled_from([300.0, 250.5, 77.25, 1000.0]), min_size=1, max_size=2, unique=True)),
                     "dB": draw(st.sampled_from([None, 2e-4, 0.001])), "partition": draw(st.sampled_from([None, None, "special"]))})
    return {"subs": subs, "host": draw(st.sampled_from(["nlogn", "feynman", "orca", "graham"])), "root": draw(ROOT), "interleave": draw(st.booleans()), "again": draw(st.booleans())}


def request(s, fs):
    r = {"number_of_samples": s["n"], "number_of_states": 2, "number_of_modes": 1, "bead_list": list(s["P"]), "temperature_list": list(s["T"]), "id_data": s["D"], "id_rho": s["R"], "block_size": s["bs"]}
    if s["overall"]:
        r["number_of_samples_overall"] = s["n"] * s["overall"] + s["off"] * (s["bs"] // 3 + 1)
    if s["dB"] is not None:
        r["delta_beta"] = s["dB"]
    if s["partition"]:
        r["partition"] = s["partition"]
    return r


def option(args, name):
    v = [a[len(name) + 1:] for a in args if a.startswith(name + "=")]
    same(len(v), 1, f"number of {name} options")
    return v[0]


def f_submit(case, mode):
    from pibronic.pimc import pimc
    from pibronic.server import job_boss
    with scratch() as d:
        if "work" in d:
            raise Skip()
        root = os.path.join(d, *case["root"])
        os.makedirs(root, exist_ok=True)
        with slurm(d, case["host"]) as f:
            engines = []
            defaults = (copy.deepcopy(job_boss.SubmissionClass.param_dict), copy.deepcopy(job_boss.PimcSubmissionClass.param_dict))

            def create(s):
                fs = models(root, s["D"], s["R"], 2, 1)
                req = request(s, fs)
                keep = copy.deepcopy(req)
                e = job_boss.PimcSubmissionClass(fs, req)
                ensure(req == keep, "creating a submission modified the request")
                engines.append((s, fs, e, req, keep))

            def submit(s, fs, e, req, keep):
                before = {n for n, _ in recorded(f)}
                others = [copy.deepcopy(x[2].param_dict) for x in engines if x[2] is not e]
                e.submit_jobs()
                ensure(req == keep, "submitting modified the request")
                for o, x in zip(others, [x for x in engines if x[2] is not e]):
                    ensure(o == x[2].param_dict, f"submitting changed another submission: { {k: (v, x[2].param_dict.get(k)) for k, v in o.items() if x[2].param_dict.get(k) != v} }")
                return [(n, a) for n, a in recorded(f) if n not in before]

            def verify(s, fs, jobs):
                per = {}
                want_total = s["n"] if not s["overall"] else keep_total(s)
                for n, args in jobs:
                    env = job_env(args)
                    b = pimc.BoxDataPM.from_json_string(env["EXECUTION_PARAMETERS"])
                    same([b.id_data, b.id_rho, b.states, b.modes, b.block_size], [s["D"], s["R"], 2, 1, s["bs"]], "ids, dimensions and block size of a job")
                    same(b.blocks * b.block_size, b.samples, f"samples made up by {b.blocks} blocks of {b.block_size}")
                    ensure(b.samples <= job_boss.PimcSubmissionClass.MAX_SAMPLES_PER_JOB, f"{b.samples} samples in one job")
                    fs.generate_model_hashes(force_flag=True)
                    same([b.hash_vib, b.hash_rho], [fs.hash_vib, fs.hash_rho], "hashes of a job")
                    if s["dB"] is not None:
                        same(b.delta_beta, s["dB"], "step of a job")
                    per.setdefault((b.temperature, b.beads), []).append(b.samples)
                    if mode == "params":
                        same(os.path.normpath(env["ROOT_DIR"]), os.path.normpath(fs.path_rho), "ROOT_DIR")
                        same(os.path.normpath(env["COPY_TO"]), os.path.normpath(fs.path_rho_results), "COPY_TO")
                        ensure(os.path.isfile(env["SAMPLING_SCRIPT"]), f"no such script {env['SAMPLING_SCRIPT']}")
                        ensure(os.access(env["PYTHON3_PATH"], os.X_OK) and os.path.isfile(env["PYTHON3_PATH"]), f"no such interpreter {env['PYTHON3_PATH']}")
                        ensure(os.path.isfile(args[-1]) and args[-1].endswith(".sh"), f"no such job script {args[-1]}")
                        name = option(args, "--job-name")
                        same(name, f"D{s['D']}_R{s['R']}_P{b.beads}_T{b.temperature:.2f}", "job name")
                        ensure(option(args, "--output").startswith(fs.path_rho_output), "output of the job is kept with the sampling model")
                        if case["host"] in ("nlogn", "feynman"):
                            want = s["partition"] or ("highmem" if case["host"] == "feynman" else "serial")
                            same(option(args, "--partition"), want, "partition")
                same(sorted(per), sorted((T, P) for T in s["T"] for P in s["P"]), "combinations of temperature and beads submitted")
                for k, xs in per.items():
                    ensure(sum(xs) >= want_total, f"{sum(xs)} samples planned for {k} instead of {want_total} (jobs {xs}, blocks of {s['bs']})")
                    ensure(sum(xs) - max(xs) < want_total, f"{len(xs)} jobs of {xs[0]} samples for {want_total} samples")

            def keep_total(s):
                return s["n"] * s["overall"] + s["off"] * (s["bs"] // 3 + 1)

            if case["interleave"]:
                for s in case["subs"]:
                    create(s)
                for x in engines:
                    verify(x[0], x[1], submit(*x))
            else:
                for s in case["subs"]:
                    create(s)
                    verify(engines[-1][0], engines[-1][1], submit(*engines[-1]))
            if case["again"]:
                x = engines[0]
                verify(x[0], x[1], submit(*x))
            ensure((job_boss.SubmissionClass.param_dict, job_boss.PimcSubmissionClass.param_dict) == defaults, "submissions changed the default parameters of the class")
            # ids reported by the scheduler
            n, out, err = job_boss.submit_job("sbatch {x:s}", {"x": "--job-name=a"})
            same(n, len(recorded(f)), "job id")
    return {"jobs": n - 1}


@st.composite
def run_case_strategy(draw):
    return {"host": draw(st.sampled_from(["nlogn", "nlogn", "orca"])), "root": draw(st.sampled_from([[], ["work"], ["work", "x"], ["homework"]])), "P": draw(st.integers(3, 6)), "T": draw(st.sampled_from([300.0, 77.25])),
            "bs": draw(st.integers(1, 4)), "nb": draw(st.integers(1, 3)), "D": draw(st.integers(0, 3)), "R": draw(st.integers(0, 2)), "first": draw(st.sampled_from([0, 1234, 99999]))}


def f_run(case):
    """the submitted job, executed as the scheduler would"""
    from pibronic.server import job_boss
    from pibronic.pimc import pimc
    with scratch() as d:
        if "work" in d:
            raise Skip()
        root = os.path.join(d, *case["root"])
        os.makedirs(root, exist_ok=True)
        with slurm(d, case["host"], case["first"]) as f:
            fs = models(root, case["D"], case["R"], 2, 1)
            req = {"number_of_samples": case["bs"] * case["nb"], "block_size": case["bs"], "number_of_states": 2, "number_of_modes": 1, "bead_list": [case["P"]], "temperature_list": [case["T"]], "delta_beta": 2e-4,
                   "id_data": case["D"], "id_rho": case["R"]}
            job_boss.PimcSubmissionClass(fs, req).submit_jobs()
            jobs = recorded(f)
            same(len(jobs), 1, "number of jobs")
            n, args = jobs[0]
            env = dict(os.environ)
            env.update(job_env(args))
            env.update(SLURM_JOB_ID=str(n), SLURM_JOBID=str(n), SLURM_SUBMIT_DIR=fs.path_rho_output, SLURM_CLUSTER_NAME=case["host"], SLURMD_NODENAME="node1", SLURM_JOB_NAME="x", PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
            p = subprocess.run(["bash", args[-1]], env=env, cwd=fs.path_rho_output, capture_output=True, text=True, timeout=120)
            name = f"P{case['P']}_T{case['T']:.2f}_J{n}_data_points.npz"
            found = [os.path.join(b, x) for b, _, xs in os.walk(d) for x in xs if x.endswith(".npz")]
            ensure(len(found) == 1 and os.path.basename(found[0]) == name, f"job wrote {found} instead of one {name}: {p.stdout[-400:]} {p.stderr[-600:]}")
            if case["host"] == "nlogn":
                same(os.path.normpath(found[0]), os.path.normpath(fs.path_rho_results + name), "place of the results")
            res = pimc.BoxResultPM()
            res.load_results(found[0])
            same(int(res.samples), case["bs"] * case["nb"], "number of samples")
            for a in (res.scaled_g, res.scaled_rho, res.scaled_gofr_plus, res.scaled_gofr_minus):
                ensure(np.shape(a) == (res.samples,) and np.all(np.isfinite(a)) and np.all(np.asarray(a) > 0), f"recorded samples {a}")
            fs.generate_model_hashes(force_flag=True)
            with np.load(found[0]) as z:
                same([str(z["hash_vib"]), str(z["hash_rho"])], [fs.hash_vib, fs.hash_rho], "hashes recorded by the job")
    return None


register("C20", [
    Check("parameters", param_case(), f_params, 400, 8000, lambda c: c["dB"] not in (None, "absent") and c["X"] > 1,
          "parameter sets (dimensions, blocks, temperatures, integer/float/missing steps, optional inverse temperatures, extra entries) serialised by every serialiser and decoded from string, file and into used objects, for both data classes; non-trivial: explicit step and several samples", replicas=4),
    Check("submitted", submit_case(), lambda c: f_submit(c, "params"), 60, 1200, lambda c: len(c["subs"]) > 1 or len(c["subs"][0]["P"]) > 1,
          "command lines received by a recording sbatch, split as the scheduler splits them, decoded by the job's own code; non-trivial: several jobs", replicas=3),
    Check("executed", run_case_strategy(), f_run, 12, 160, lambda c: c["nb"] > 1 or bool(c["root"]),
          "the recorded job script is executed with the exported environment; its result file must hold the requested samples of the right models; non-trivial: several blocks or a separate scratch tree", replicas=4, case_seconds=180),
], ["roots without commas, semicolons, blanks or shell characters, because the scheduler's interface cannot carry them"])
register("C21", [
    Check("plans", submit_case(), lambda c: f_submit(c, "plan"), 150, 3000, lambda c: len(c["subs"]) > 1 or c["subs"][0]["n"] % c["subs"][0]["bs"] != 0,
          "1-3 submissions (samples up to 4e5 with block sizes 1..1e5, overall totals, lists of beads and temperatures) on four clusters, created first or one after another, resubmitted; non-trivial: several submissions or samples that are no multiple of the block size", replicas=7),
])


# ---------------------------------------------------------------- C29
OK_LINES = ["Output files should be here now: /x/results/", "Execution stats: ", "", "python path: /usr/bin/python3", "   ", "12 100.0 COMPLETED"]
EV = {"finished": "Job Script Finished Successfully", "segv": "forrtl: severe (174): SIGSEGV, segmentation fault occurred", "killed": "/var/spool/slurmd/job1/slurm_script: line 33: 9999 Killed   xaces2", "mem": "slurmstepd: error: Exceeded step memory limit at some point."}


@st.composite
def slurm_case(draw):
    lines = [draw(st.sampled_from(OK_LINES)) for _ in range(draw(st.integers(0, 12)))]
    ev = draw(st.lists(st.sampled_from(sorted(EV)), max_size=4, unique=True))
    for e in ev:
        lines.insert(draw(st.integers(0, len(lines))), EV[e])
    return {"lines": lines, "events": ev, "job": draw(st.integers(1, 10**7)), "newline": draw(st.booleans())}


def f_slurm(case):
    from pibronic.server import job_boss
    with scratch() as d:
        p = os.path.join(d, f"slurm-{case['job']}.out")
        with open(p, "w") as f:
            f.write("\n".join(case["lines"]) + ("\n" if case["newline"] else ""))
        other = os.path.join(d, f"slurm-{case['job'] + 1}.out")
        with open(other, "w") as f:
            f.write(EV["finished"] + "\n" + EV["segv"])
        before = snapshot(d)
        err = None
        with no_waiting():
            try:
                job_boss.check_slurm_output(d, case["job"])
            except Exception as e:
                err = e
        ev = set(case["events"])
        if "finished" in ev and "segv" in ev or {"finished", "killed", "mem"} <= ev:
            ensure(isinstance(err, MemoryError), f"memory failure reported as {err!r}: {case['lines']}")
            ensure(str(case["job"]) in str(err), "the report names the job")
        elif {"finished", "killed"} <= ev:
            ensure(err is not None and not isinstance(err, MemoryError), f"killed job reported as {err!r}")
        elif not ev & {"segv", "killed", "mem"}:
            ensure(err is None, f"job without errors reported as {err!r}: {case['lines']}")
        ensure(snapshot(d) == before, "checking the output changed files")
    return {"error": type(err).__name__}


@st.composite
def wait_case(draw):
    states = [draw(st.sampled_from(["PENDING", "RUNNING", "COMPLETING"])) for _ in range(draw(st.integers(0, 4)))]
    return {"states": states, "end": draw(st.sampled_from(["COMPLETED", "COMPLETED", "error", "error_first"])), "acct": draw(st.sampled_from(["COMPLETED", "COMPLETED", "FAILED", "CANCELLED", "CANCELLED+", "RUNNING", "COMPLETING", "PENDING", "TIMEOUT", "NODE_FAIL", "PREEMPTED", "OUT_OF_ME+", ""])),
            # the steps of a job that ended early have states of their own (the external step normally completes)
            "steps": draw(st.lists(st.sampled_from(["same", "same", "COMPLETED", "CANCELLED"]), max_size=2)), "job": draw(st.integers(1, 10**6)), "signal": draw(st.booleans())}


def f_wait(case):
    from pibronic.server import job_boss
    from pibronic.vibronic import electronic_structure as es
    with scratch() as d, slurm(d) as f:
        seq = list(case["states"])
        for i, s in enumerate(seq):
            with open(os.path.join(f, f"state.{i + 1}"), "w") as out:
                out.write(f"JobId={case['job']} JobName=x\n   JobState={s} Reason=None\n")
        if case["end"] == "COMPLETED":
            last = f"JobId={case['job']}\n   JobState=COMPLETED Reason=None\n"
        else:
            last = ""
            k = len(seq) + 1 if case["end"] == "error" else 1
            for i in range(k, 60):
                with open(os.path.join(f, f"err.{i}"), "w") as out:
                    out.write("slurm_load_jobs error: Invalid job id specified\n")
                if os.path.exists(os.path.join(f, f"state.{i}")):
                    os.remove(os.path.join(f, f"state.{i}"))
        with open(os.path.join(f, "state.last"), "w") as out:
            out.write(last)
        with open(os.path.join(f, "acct"), "w") as out:
            if case["acct"]:
                steps = ["same"] * len(case["steps"]) if case["acct"] == "COMPLETED" else case["steps"]
                out.write("".join(f"{case['acct'] if s == 'same' else s:>10s} \n" for s in ["same"] + steps))
        waits = []
        old_flag = job_boss.job_almost_done_flag
        try:
            job_boss.job_almost_done_flag = False
            old = signal.getsignal(signal.SIGUSR1)
            if case["signal"]:
                job_boss.SIGUSR1_handle(signal.SIGUSR1, None)
                ensure(job_boss.job_almost_done_flag, "the job's signal was not recorded")
            err = None
            with no_waiting(wait=lambda sigs: waits.append(sigs) or signal.SIGUSR1):
                try:
                    es.wait_on_results(case["job"], "SCF")
                except Exception as e:
                    err = e
            signal.signal(signal.SIGUSR1, old)
        finally:
            job_boss.job_almost_done_flag = old_flag
        ensure(job_boss.job_state_lock.acquire(blocking=False), "the lock is still held")
        job_boss.job_state_lock.release()
        first_error = case["end"] == "error_first" or (case["end"] == "error" and not seq)
        if not first_error:
            ensure(bool(waits) != case["signal"], f"waited for the signal {len(waits)} times although the signal had {'already' if case['signal'] else 'not'} arrived")
        if case["end"] == "COMPLETED" and case["acct"] == "COMPLETED":
            ensure(err is None, f"completed job reported as {err!r}")
            polls = int(open(os.path.join(f, "polls")).read())
            ensure(polls > len(seq), f"returned after {polls} polls while the job was {seq}")
        else:
            ensure(err is not None, f"job {case['end']}/{case['acct']} was taken for completed")
    return {"error": str(err)[:60]}


def f_hostname(case):
    from pibronic.server import job_boss
    with scratch() as d, slurm(d, case["name"], first=case["first"]) as f:
        got = job_boss.submit_job("sbatch --job-name={name:s} -n {n:d}", {"name": "D0", "n": 3})
        same(got[0], case["first"] + 1, "job number returned for a submission")
        same([a for _, a in recorded(f)], [["--job-name=D0", "-n", "3"]], "submitted command line")
        for j in glob.glob(os.path.join(f, "jobs", "*")):
            os.remove(j)
        with open(os.path.join(f, "config"), "w") as out:
            out.write("\n".join(case["before"] + ([f"ClusterName{case['pad']}={case['pad']}{case['name']}"] if case["there"] else []) + case["before"]))
        if not case["there"]:
            must_fail(job_boss.get_hostname, "configuration without a cluster name")
            return
        same(job_boss.get_hostname(), case["name"], "hostname")
        fs = models(d, 0, 0)
        e = job_boss.PimcSubmissionClass(fs, {"number_of_samples": 10, "block_size": 10, "bead_list": [3], "temperature_list": [300.0]})
        known = {"nlogn", "feynman", "orca", "graham"}
        if case["name"] in known:
            if case["refuse"]:
                open(os.path.join(f, "refuse"), "w").close()
                must_fail(e.submit_jobs, "submission refused by the scheduler")
            else:
                e.submit_jobs()
                same(len(recorded(f)), 1, "submitted jobs")
        else:
            must_fail(e.submit_jobs, "unknown cluster")
            same(len(recorded(f)), 0, "jobs submitted to an unknown cluster")
        if case["name"] in ("nlogn", "feynman"):
            n = len(recorded(f))
            e2 = job_boss.PimcSubmissionClass(fs, {"number_of_samples": 10, "block_size": 10, "bead_list": [3], "temperature_list": [300.0], "partition": "nowhere"})
            must_fail(e2.submit_jobs, "partition that does not exist")
            same(len(recorded(f)), n, "jobs submitted to a partition that does not exist")
            # no answer, or another partition only
            for ans in ("", "PARTITION\n", "PARTITION\nother\n"):
                with open(os.path.join(f, "partitions"), "w") as out:
                    out.write(ans)
                e3 = job_boss.PimcSubmissionClass(fs, {"number_of_samples": 10, "block_size": 10, "bead_list": [3], "temperature_list": [300.0], "partition": "special"})
                must_fail(e3.submit_jobs, f"partition 'special' not listed in {ans!r}")
                must_fail(lambda: job_boss.assert_partition_exists("special"), f"partition 'special' not listed in {ans!r}")
            must_fail(lambda: job_boss.assert_partition_exists(None), "no partition")
            same(len(recorded(f)), n, "jobs submitted to a partition that is not listed")


register("C29", [
    Check("slurm_output", slurm_case(), f_slurm, 600, 10000, lambda c: "finished" in c["events"] and len(c["events"]) > 1, "scheduler output files with completion, segmentation fault, kill and memory messages in any order; non-trivial: a finished job with a failure message", replicas=2),
    Check("waiting", wait_case(), f_wait, 160, 2500, lambda c: bool(c["states"]), "sequences of states polled from the scheduler, early and late signals, accounting outcomes; non-trivial: at least one poll before the end", replicas=4),
    Check("cluster", st.fixed_dictionaries({"name": st.sampled_from(["nlogn", "feynman", "orca", "graham", "cedar", "nlogn2", "x"]), "first": st.one_of(st.sampled_from([0, 8, 98, 99999, 10**8 - 2, 10**8, 2**31]), st.integers(0, 10**11)), "pad": st.sampled_from([" ", "", "     "]), "there": st.booleans(), "refuse": st.booleans(),
                                            "before": st.lists(st.sampled_from(["AuthType = auth/munge", "", "ControlMachine=head", "SlurmctldPort = 6817"]), max_size=3)}), f_hostname, 60, 600, lambda c: c["there"],
          "cluster configurations, known and unknown clusters, refused submissions and missing partitions; non-trivial: the configuration names a cluster", replicas=1),
])
