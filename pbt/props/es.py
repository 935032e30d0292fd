"""C22-C25: the electronic-structure workflow, driven end to end with recording scheduler programs."""
import builtins
import contextlib
import io
import os
import signal
import numpy as np
from ..core import Check, Skip, Violation, ensure, same, register, scratch, st, must_fail, no_waiting
from .files import snapshot
from .jobs import slurm, recorded, option

STEPS = ["OPT", "NIP", "VIB", "IPEOMCC", "PREPVIB", "VIBRON"]
NOTICE = "  The ACES2 program has completed successfully in     12.3456 seconds "
PLUS = "+" * 43
SBATCH = """#!/bin/sh
n=$(ls "$FAKE_SLURM/jobs" | wc -l)
n=$((n + 1))
printf '%s\\0' "$@" > "$FAKE_SLURM/jobs/$n"
for a in "$@"; do
  case "$a" in
    --workdir=*) W="${a#--workdir=}";;
    --export=*) J="${a#*,JOB=}"; J="${J%%,*}";;
  esac
done
F=$(cat "$FAKE_SLURM/fail/$J" 2>/dev/null)
mkdir -p "$FAKE_SLURM/inputs/$n"
cp "$W/$J.in" "$FAKE_SLURM/inputs/$n/" 2>/dev/null
if [ "$F" = refuse ]; then echo "sbatch: error: Batch job submission failed" >&2; exit 1; fi
echo "$F" > "$FAKE_SLURM/current"
if [ "$F" != missing ]; then cp "$FAKE_SLURM/produce/$J/"* "$W/" 2>/dev/null; fi
echo "Job Script Finished Successfully" > "$W/slurm-$n.out"
if [ "$F" = segv ]; then echo "forrtl: severe (174): SIGSEGV, segmentation fault occurred" >> "$W/slurm-$n.out"; fi
echo "Submitted batch job $n"
"""
SCONTROL = """#!/bin/sh
if [ "$2" = config ]; then cat "$FAKE_SLURM/config"; exit 0; fi
if [ "$(cat $FAKE_SLURM/current)" = sched ]; then echo "slurm_load_jobs error: Invalid job id specified" >&2; exit 1; fi
echo "   JobState=COMPLETED Reason=None"
"""
SACCT = """#!/bin/sh
case "$(cat $FAKE_SLURM/current)" in
  failed) echo " FAILED ";;
  cancelled) echo " CANCELLED ";;
  *) echo " COMPLETED ";;
esac
"""


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def job(name, root, state=None):
    from pibronic.vibronic import electronic_structure as es
    return es.VibronExecutionClass(name, root, state)


# ---------------------------------------------------------------- geometries
NUM = st.one_of(st.integers(-10**7, 10**7).map(lambda k: f"{k / 10**6:.6f}"), st.integers(-180 * 10**12, 180 * 10**12).map(lambda k: f"{k / 10**12:.12f}"), st.sampled_from(["0.0", "-0.000000", "180.000000", "1.0E-07", "90"]))
ATOM = st.sampled_from(["C", "H", "O", "N", "CL", "X"])


@st.composite
def geometry(draw):
    """a geometry as the user writes it, and the values an optimisation returns"""
    n = draw(st.one_of(st.integers(2, 5), st.integers(3, 13)))
    if draw(st.booleans()):
        rel, keys = [draw(st.sampled_from(["molecule", "ch2o C2v", "acrolein", "H2*O optimised"]))], []
        # numbered by atom, counted (R1 ... R12), or repeated letters: names can begin with other names
        style = draw(st.sampled_from(["atom", "count", "letters"]))
        shared = draw(st.booleans())
        for i in range(n):
            row = [draw(ATOM)]
            for p in range(min(i, 3)):
                old = [k for k in keys if k[0] == "RAD"[p]]
                if shared and old and draw(st.booleans()):
                    # symmetric molecules use one coordinate in several rows
                    k = draw(st.sampled_from(old))
                else:
                    k = "RAD"[p] + str(i + 1) if style == "atom" else "RAD"[p] + str(len(old) + 1) if style == "count" else "RAD"[p] * (len(old) + 1)
                    keys.append(k)
                row += [str(draw(st.integers(1, i))), k + ("*" if draw(st.booleans()) else "")]
            rel.append(" ".join(row))
        vals = {k: draw(NUM) for k in keys}
        pad = draw(st.sampled_from(["", " "]))
        opt = {k: draw(NUM) for k in keys if draw(st.integers(0, 4))}
        return {"kind": "internal", "rel": rel, "vals": vals, "pad": pad, "opt": opt, "nl": draw(st.booleans())}
    head = draw(st.lists(st.sampled_from(["molecule", "second header line"]), min_size=0, max_size=2))
    rows = [[draw(ATOM)] + [draw(NUM) for _ in range(3)] for _ in range(n)]
    opt = [[r[0]] + [draw(NUM) for _ in range(3)] for r in rows]
    return {"kind": "cartesian", "head": head, "rows": rows, "opt": opt, "nl": draw(st.booleans())}


def geometry_file(g):
    if g["kind"] == "internal":
        p = g["pad"]
        return "\n".join(g["rel"]) + "\n\n" + "\n".join(f"{k}{p}={p}{v}" for k, v in g["vals"].items()) + ("\n" if g["nl"] else "")
    return "\n".join(g["head"] + ["  ".join(r) for r in g["rows"]]) + ("\n" if g["nl"] else "")


def opt_output(g, opt=None, noise=(), tail=3, end="blank", complete=True):
    opt = g["opt"] if opt is None else opt
    lines = ["some header", *noise]
    if g["kind"] == "internal":
        lines += ["  Summary of optimized internal coordinates", "  (Angstroms and degrees)"]
        lines += [f"     {k} = {v}" for k, v in opt.items()]
    else:
        lines += ["  Summary of optimized Cartesian coordinates (Ang)", "  ------"]
        lines += ["   " + "    ".join(r) for r in opt]
    lines.append("" if end == "blank" else "    " if end == "spaces" else "   Frequencies of the updated Hessian at convergence   ")
    lines += [f"filler {i}" for i in range(12)]
    if complete:
        lines += [NOTICE] + [f"trailer {i}" for i in range(tail)]
    return "\n".join(lines) + "\n"


def hf_output(ev, tail=3, noise=(), complete=True):
    lines = ["some header", *noise, "      ORBITAL EIGENVALUES (ALPHA)  (1H = 27.2113957 EV)", "", "       MO #   E(hartree)          E(eV)           FULLSYM    COMPSYM", "       ----   ----------  ------------   -------   -------"]
    lines += [f"  {i + 1:4d} {i + 1:4d} {float(e) / 27.2113957:18.8f} {e:>18s}   A1   A1 (1)" for i, e in enumerate(ev)]
    lines += [PLUS, "  virtual orbitals"] + [f"filler {i}" for i in range(12)]
    if complete:
        lines += [NOTICE] + [f"trailer {i}" for i in range(tail)]
    return "\n".join(lines) + "\n"


def ip_output(singles, tail=3, noise=(), end="dash", complete=True):
    lines = ["some header", *noise, "   Summary of ionization-potential eom-cc calculation ", "", "   -----", "   root  symmetry  energy  energy(eV)  %singles  total energy", "   -----"]
    lines += [f"   {i + 1}   [{1 + i % 4}]   0.{400 + i}   {10 + i}.5   {s}   -113.{i}" for i, s in enumerate(singles)]
    lines += ["  ----------------------------" if end == "dash" else "" if end == "blank" else "   "] + [f"filler {i}" for i in range(12)]
    if complete:
        lines += [NOTICE] + [f"trailer {i}" for i in range(tail)]
    return "\n".join(lines) + "\n"


def parse_geometry(text, g):
    """(relational lines or header, values) from the geometry section of an input file"""
    if g["kind"] == "internal":
        blocks = text.split("\n\n")
        ensure(len(blocks) >= 2, f"no blank line between the connectivity and the values: {text!r}")
        vals = dict((k.strip(), v.strip()) for k, v in (x.split("=") for x in blocks[1].splitlines() if x.strip()))
        ensure(text.endswith("\n\n"), "no blank line after the values")
        return blocks[0].splitlines(), vals
    lines = [x.split() for x in text.splitlines() if x.strip()]
    ensure(text.endswith("\n\n"), "no blank line after the coordinates")
    return lines[:len(g["head"])], lines[len(g["head"]):]


def expect_geometry(text, g, optimised, stars, what, opt=None):
    opt = g["opt"] if opt is None else opt
    a, b = parse_geometry(text, g)
    if g["kind"] == "internal":
        want = [x if stars else x.replace("*", "") for x in g["rel"]]
        ensure(a == want, f"{what}: connectivity {a} instead of {want}")
        vals = dict(g["vals"], **(opt if optimised else {}))
        ensure(b == vals, f"{what}: values {b} instead of {vals}")
    else:
        ensure(a == [x.split() for x in g["head"]], f"{what}: header {a} instead of {g['head']}")
        rows = opt if optimised else g["rows"]
        ensure(b == [list(r) for r in rows], f"{what}: coordinates {b} instead of {rows}")


def parse_input(text):
    """geometry text, keyword dictionary and the namelists of an ACES2 input file"""
    i = text.find("*ACES2(")
    ensure(i > 0 and text[:i].endswith("\n"), "no *ACES2 section")
    # keyword values may contain parentheses: MBPT(2), CCSD(T)
    body, rest = text[i + len("*ACES2("):].split("\n\t)", 1)
    kw = {}
    for item in body.replace("\n", "").replace("\t", "").split(","):
        if item.strip():
            ensure("=" in item, f"keyword {item!r}")
            k, v = item.strip().split("=", 1)
            ensure(k not in kw, f"keyword {k} twice")
            kw[k] = v
    lists, cur = {}, None
    for line in rest.splitlines():
        s = line.strip()
        if s.startswith("*"):
            cur = s
            lists[cur] = {}
        elif s:
            ensure(cur is not None and "=" in s, f"line {line!r}")
            k, v = s.split("=", 1)
            lists[cur][k] = v
    return text[:i], kw, lists


# ---------------------------------------------------------------- C22 state file
VALID = STEPS + ["FINISHED"]
REC = st.one_of(st.sampled_from(VALID), st.sampled_from(VALID), st.sampled_from(["", "OP", "NI", "PREPV", "junk", "opt", "IPEOMC", "FINISHE", "7", "OPT NIP", "DROPMO"]))


@st.composite
def state_case(draw):
    return {"lines": draw(st.lists(REC, max_size=8)), "newline": draw(st.booleans()), "exists": draw(st.integers(0, 5)) > 0, "explicit": draw(st.sampled_from([None, None, None, 1, 2, 3, 4, 5, 6, 7])), "steps": draw(st.integers(0, 8))}


def after(text):
    """the step after the last record of a state file"""
    rec = [x.strip() for x in text.split("\n") if x.strip()]
    if not rec or rec[-1] not in VALID:
        return "OPT"
    return VALID[min(VALID.index(rec[-1]) + 1, len(VALID) - 1)]


GOODPAR = "# parameters\n\nbasis\nDZP\ntheory\nCCSD\ncalculation\nIP\n"


def f_state(case):
    from pibronic.vibronic import electronic_structure as es
    with scratch() as d:
        root = os.path.join(d, "run")
        put(os.path.join(root, "mol_params.txt"), GOODPAR)
        p = os.path.join(root, "execution_state.txt")
        text = ""
        if case["exists"]:
            text = "\n".join(case["lines"]) + ("\n" if case["newline"] and case["lines"] else "")
            put(p, text)
        x = job("mol", root, case["explicit"])
        x.parse_input_parameters()
        now = x.state.name
        if case["explicit"] is None:
            ensure(now == after(text), f"resumes at {now} instead of {after(text)} from {text!r}")
        else:
            ensure(now == VALID[case["explicit"] - 1], f"resumes at {now} although step {case['explicit']} was requested")
        with open(p) as f:
            ensure(f.read() == text, "opening the calculation changed the state file")
        for _ in range(case["steps"]):
            before = x.state.name
            with open(p) as f:
                text = f.read()
            x.advance()
            with open(p) as f:
                new = f.read()
            ensure(new.startswith(text) and set(new[len(text):].split("\n")) == {before, ""}, f"completing {before} appended {new[len(text):]!r}")
            want = VALID[min(VALID.index(before) + 1, 6)]
            ensure(x.state.name == want, f"{x.state.name} follows {before}")
            y = job("mol", root)
            y.parse_input_parameters()
            torn = text and not text.endswith("\n")
            if torn:
                ensure(y.state.name == after(new), f"resumes at {y.state.name} instead of {after(new)} from {new!r}")
            else:
                ensure(y.state.name == want, f"another process resumes at {y.state.name} after {before} was completed")
        ensure(es.VibronExecutionClass.state is None, "the class default changed")
    return {"state": now}


# ---------------------------------------------------------------- C22/C23 workflow
ev_text = lambda k: [f"{-v / 10000:.4f}" for v in sorted(k, reverse=True)]  # noqa: E731
EVS = st.one_of(
    st.lists(st.integers(100, 10**8), min_size=3, max_size=9, unique=True).map(ev_text),
    # valence orbitals close to each other
    st.lists(st.integers(90000, 400000), min_size=3, max_size=16).map(ev_text),
    # core and valence
    st.tuples(st.lists(st.integers(2 * 10**6, 6 * 10**6), min_size=1, max_size=5), st.lists(st.integers(80000, 500000), min_size=2, max_size=12)).map(lambda x: ev_text(x[0] + x[1])),
    # equal relative gaps
    st.tuples(st.integers(1, 40), st.lists(st.sampled_from([1, 2, 2, 3, 4]), min_size=3, max_size=8)).map(lambda x: ev_text([10000 * x[0] * int(np.prod(x[1][:i])) for i in range(1, len(x[1]) + 1)])),
)


def guess_nip(ev, dropmo=0):
    """number of orbitals above the (first) largest relative gap between the orbitals that are kept, not counting that of the lowest one"""
    e = [float(x) for x in ev]
    kept = e[dropmo + 1:]
    rest = [kept[i] / kept[i + 1] for i in range(len(kept) - 1)]
    if dropmo >= len(e) or not rest:
        return None
    return len(rest) - rest.index(max(rest))


@st.composite
def workflow_case(draw):
    ev = draw(EVS)
    k = guess_nip(ev) or 1
    override = draw(st.sampled_from([None, None, 1, 2, 4])) if guess_nip(ev) else draw(st.integers(1, 3))
    nip = override if override else k
    passed = draw(st.integers(0 if draw(st.integers(0, 5)) == 0 else 1, nip))
    singles = {}
    for j in range(1, nip + 1):
        n = draw(st.integers(1, 4))
        ok = [draw(st.sampled_from(["85.01", "90.0", "99.99", "93.5", "86"])) for _ in range(n)]
        if j > passed:
            ok[draw(st.integers(0, n - 1))] = draw(st.sampled_from(["85.00", "84.99", "0.5", "10", "85"]))
        singles[str(j)] = ok
    jobs = ["opt", "hartree_fock_nip", "vib"] + [f"eomcc_ip_{j}" for j in range(nip, max(passed, 1) - 1, -1)] + ["prepvib", "vibron"]
    runs = []
    for _ in range(draw(st.integers(0, 4))):
        runs.append({"fail": draw(st.sampled_from(jobs)), "kind": draw(st.sampled_from(["refuse", "sched", "failed", "cancelled", "missing", "truncated", "interrupt", "segv"])),
                     "torn": draw(st.sampled_from([None, None, None, "OP", "NI", "IPEOM", "PREPV", "FINI", "junk\n", "\n", "\n\n"])), "remove": draw(st.integers(0, 9)) == 0})
    return {"name": draw(st.sampled_from(["ch2o", "mol_1", "a.b"])), "geo": draw(geometry()), "ev": ev, "override": override, "passed": passed, "singles": singles, "runs": runs,
            "par": draw(par_contents()), "heff": draw(st.integers(0, 3)), "host": draw(st.sampled_from(["nlogn", "feynman"]))}


@st.composite
def par_contents(draw):
    return {"basis": draw(st.sampled_from(["TZ2P", "DZP"])), "theory": draw(st.sampled_from(["MBPT(2)", "CCSD", "CCSD(T)"])), "grid": draw(st.sampled_from([None, 3, 4, 7])), "cc": draw(st.sampled_from([None, 8, 12])),
            "scf": draw(st.sampled_from([None, 9])), "tol": draw(st.sampled_from([None, 6]))}


def par_text(p):
    out = "# input\nbasis\n" + p["basis"] + "\n\ntheory\n" + p["theory"] + "\n#comment\ncalculation\nIP\n"
    for k, h in (("grid", "gridVibron"), ("cc", "ccConv"), ("scf", "scfConv"), ("tol", "estateTol")):
        if p[k] is not None:
            out += f"{h}\n{p[k]}\n"
    return out


class Interrupt(BaseException):
    pass


@contextlib.contextmanager
def stubs(f, answers):
    """no waiting; the user's answers; an interruption while waiting for a job marked so"""
    real = builtins.input
    prompts = []

    def sleep(s):
        with contextlib.suppress(FileNotFoundError):
            with open(os.path.join(f, "current")) as fh:
                if fh.read().strip() == "interrupt":
                    raise Interrupt()

    def ask(message=""):
        prompts.append(message)
        if not answers:
            raise AssertionError("asked for more input than provided: " + message)
        return answers.pop(0)
    old = signal.getsignal(signal.SIGUSR1)
    from pibronic.server import job_boss
    flag = job_boss.job_almost_done_flag
    builtins.input = ask
    try:
        with no_waiting(sleep=sleep), contextlib.redirect_stdout(io.StringIO()):
            yield prompts
    finally:
        builtins.input = real
        signal.signal(signal.SIGUSR1, old)
        job_boss.job_almost_done_flag = flag
        if job_boss.job_state_lock.locked():
            job_boss.job_state_lock.release()


HEFF = "HEFF_0 first\n 0.1 0.2\nHEFF_0 second\n 0.3\n"
HEFF2 = "  HEFF_IP2 block\n  1.0 2.0\n  HEFF_IP2 again\n 3.0\n"
VIBIN = "vibron input\n number of states xxx      \n more xy\n"


def produce(case, f):
    n, g = case["name"], case["geo"]
    P = os.path.join(f, "produce")
    put(f"{P}/{n}_opt/{n}_opt.out0", opt_output(g))
    put(f"{P}/{n}_hartree_fock_nip/{n}_hartree_fock_nip.out0", hf_output(case["ev"]))
    put(f"{P}/{n}_vib/{n}_vib.out0", "\n".join(f"filler {i}" for i in range(14)) + f"\n{NOTICE}\n")
    for j, s in case["singles"].items():
        put(f"{P}/{n}_eomcc_ip_{j}/{n}_eomcc_ip_{j}.out0", ip_output(s))
    put(f"{P}/{n}_prepvib/fcmfinal", "fcm\n")
    put(f"{P}/{n}_prepvib/{n}_prepvib.pntheff", HEFF * case["heff"] + HEFF2)
    put(f"{P}/{n}_prepvib/{n}_prepvib.vibronic_coupling", "x\n" + HEFF * (3 - case["heff"]) + HEFF2 + HEFF)
    put(f"{P}/{n}_prepvib/{n}_prepvib.vibron_input", VIBIN)
    put(f"{P}/{n}_vibron/{n}_vibron.out0", "\n".join(f"filler {i}" for i in range(14)) + "\n All done in main_vibron\n\n")


def spoil(case, f, short, kind):
    """make one job fail; returns the files it would produce when it succeeds"""
    J = f"{case['name']}_{short}"
    put(os.path.join(f, "fail", J), kind if kind != "truncated" else "")
    if kind == "truncated":
        D = os.path.join(f, "produce", J)
        if short == "prepvib":
            os.remove(os.path.join(D, f"{J}.pntheff"))
        else:
            p = os.path.join(D, f"{J}.out0")
            with open(p) as fh:
                lines = fh.read().splitlines()
            cut = next(i for i, x in enumerate(lines) if "completed successfully" in x or "All done" in x)
            put(p, "\n".join(lines[:cut]) + "\n")


def effective(short, kind):
    """does this outcome make the step fail?"""
    if kind == "segv":          # a segmentation fault in the job script is looked for where the output has no completion notice of its own
        return short in ("prepvib", "vibron")
    return True


def f_workflow(case, claims=("C22", "C23")):
    n, g = case["name"], case["geo"]
    nip = case["override"] or guess_nip(case["ev"])
    m = case["passed"]
    ips = [f"eomcc_ip_{j}" for j in range(nip, max(m, 1) - 1, -1)]
    per = {"OPT": ["opt"], "NIP": ["hartree_fock_nip"], "VIB": ["vib"], "IPEOMCC": ips, "PREPVIB": ["prepvib"], "VIBRON": ["vibron"]}
    total = 0
    with scratch() as d, slurm(d, case["host"]) as f:
        for name, text in (("sbatch", SBATCH), ("scontrol", SCONTROL), ("sacct", SACCT)):
            with open(os.path.join(f, "bin", name), "w") as out:
                out.write(text)
        root = os.path.join(d, "run")
        put(os.path.join(root, f"{n}_params.txt"), par_text(case["par"]))
        put(os.path.join(root, f"{n}_zmat.txt"), geometry_file(g))
        ps = os.path.join(root, "execution_state.txt")
        last = {"fail": None, "kind": None, "torn": None, "remove": False}
        for run in case["runs"] + [last, last]:
            for sub in ("fail", "produce"):
                for b, _, xs in os.walk(os.path.join(f, sub)):
                    for x in xs:
                        os.remove(os.path.join(b, x))
            produce(case, f)
            put(os.path.join(f, "current"), "")
            # outputs of a later step left behind by an earlier run would be stale: the scheduler overwrites them
            if run["fail"]:
                if run["kind"] in ("missing", "truncated"):
                    for x in os.listdir(root):
                        if x.startswith(f"{n}_{run['fail']}.") and (x.endswith(".out0") or x.endswith(".pntheff")):
                            os.remove(os.path.join(root, x))
                spoil(case, f, run["fail"], run["kind"])
            text = ""
            if os.path.exists(ps):
                with open(ps) as fh:
                    text = fh.read()
            start = after(text)
            # what has to happen
            jobs, done, failed = [], [], None
            gone = None
            if run["fail"] and run["kind"] in ("missing", "truncated"):
                gone = run["fail"]
            if start != "FINISHED":
                for step in STEPS:
                    if STEPS.index(step) < STEPS.index(start):
                        # its outputs are read again
                        if gone in per[step]:
                            failed = (step, "output of a completed step removed")
                            break
                        if step == "IPEOMCC" and m == 0:
                            raise AssertionError("cannot get there")
                        continue
                    for j in per[step]:
                        jobs.append(j)
                        if run["fail"] == j and effective(j, run["kind"]):
                            failed = (step, run["kind"])
                            break
                    if failed is None and step == "IPEOMCC" and m == 0:
                        failed = (step, "no states left")
                    if failed:
                        break
                    done.append(step)
            # a removed output of an already completed step: not the workflow's fault, and steps which do not read it again are unaffected
            if failed and failed[1].startswith("output of"):
                for x in os.listdir(os.path.join(f, "produce", f"{n}_{gone}")):
                    with open(os.path.join(f, "produce", f"{n}_{gone}", x)) as fh:
                        put(os.path.join(root, x), fh.read())
                raise Skip()
            before_jobs = len(recorded(f))
            answers = (["no", str(case["override"]), "y"] if guess_nip(case["ev"]) else [str(case["override"]), "y"]) if case["override"] else ["y"]
            err = None
            with stubs(f, answers) as prompts:
                x = job(n, root)
                try:
                    x.calculate_vibronic_model()
                except Interrupt as e:
                    err = e
                except Exception as e:
                    err = e
            with open(ps) as fh:
                new = fh.read()
            got = recorded(f)[before_jobs:]
            names = [dict(a.split("=", 1) for a in option(args, "--export").split(",") if a)["JOB"] for _, args in got]
            want = [f"{n}_{j}" for j in jobs]
            total += len(got)
            what = f"run from state {text!r} with {run['fail']}/{run['kind']}"
            if "C22" in claims:
                ensure(names[:1] == want[:1], f"{what}: first job {names[:1]} instead of {want[:1]} ({err!r})")
                ensure(names == want, f"{what}: submitted {names} instead of {want} ({err!r})")
                ensure(new.startswith(text), f"{what}: earlier records changed: {new!r}")
                rec = [r for r in new[len(text):].split("\n") if r]
                fin = start != "FINISHED" and failed is None
                ensure([r for i, r in enumerate(rec) if r != "FINISHED"] == done and ("FINISHED" in rec) == fin and (not fin or rec[:len(done)] == done),
                       f"{what}: recorded {rec} although the steps completed in this run were {done} ({err!r})")
                if failed:
                    ensure(err is not None, f"{what}: failure of {failed} was not reported")
                else:
                    ensure(err is None, f"{what}: failed with {err!r}")
            if "C23" in claims:
                for (num, args), nm in zip(got, names):
                    check_job(case, f, root, num, args, nm, m, nip)
            # histories: power loss while the record was written
            if run["torn"]:
                with open(ps, "a") as fh:
                    fh.write(run["torn"])
            if run["remove"]:
                os.remove(ps)
        if m and "C23" in claims:
            with open(os.path.join(root, "PNTHEFF")) as fh:
                ensure(fh.read() == HEFF2, "PNTHEFF")
            with open(os.path.join(root, "cp.auto")) as fh:
                ensure(fh.read() == HEFF2 + HEFF, "cp.auto")
            with open(os.path.join(root, f"{n}_vibron.in")) as fh:
                ensure(fh.read() == VIBIN.replace("xxx   ", f"{m:>6d}"), "vibron input")
    return {"jobs": total}


def check_job(case, f, root, num, args, nm, m, nip):
    short = nm[len(case["name"]) + 1:]
    par, g = case["par"], case["geo"]
    env = dict(a.split("=", 1) for a in option(args, "--export").split(",") if a)
    same(os.path.normpath(option(args, "--workdir")), os.path.normpath(root), "working directory of the job")
    same(option(args, "--partition"), "highmem" if case["host"] == "feynman" else "serial", "partition")
    same(env["HEADNODE"], case["host"], "head node")
    same(int(env["PARENT_PID"]), os.getpid(), "process the job reports to")
    same(env["PREAMBLE"], "jobvibron" if short == "vibron" else "jobaces", "program run by the job")
    same(env["POSTAMBLE"], {"vib": "fcm", "prepvib": "vibron"}.get(short, ""), "files kept by the job")
    ensure(option(args, "--mem").endswith("G"), "memory")
    p = os.path.join(f, "inputs", str(num), nm + ".in")
    ensure(os.path.exists(p), f"job {nm} submitted before its input file {nm}.in was written")
    with open(p) as fh:
        text = fh.read()
    if short == "vibron":
        ensure(text == VIBIN.replace("xxx   ", f"{m:>6d}"), f"vibron input {text!r}")
        return
    geo, kw, lists = parse_input(text)
    expect_geometry(geo, g, short != "opt", short == "opt", f"input of {short}")
    mem = kw.pop("MEMORY_SIZE")
    ensure(mem.endswith("GB") and int(mem[:-2]) <= int(option(args, "--mem")[:-1]), f"program memory {mem} exceeds the job's {option(args, '--mem')}")
    want = {"BASIS": par["basis"], "CALC": "SCF" if short == "hartree_fock_nip" else par["theory"]}
    wl = {}
    if short == "opt" and g["kind"] == "cartesian":
        want["GEOM_OPT"] = "RIC"
    if short == "vib":
        want["VIB"] = "FINDIF"
    if short.startswith("eomcc"):
        want["IP_CALC"] = "IP_EOMCC"
        wl = {"*mrcc_gen": {"nip": short.split("_")[-1]}, "*end": {}}
    if short == "prepvib":
        want.update(IP_CALC="IP_EOMCC", PREP_VIBRON="ON", GRID_VIBRON=str(par["grid"] or 3), CC_CONV=str(par["cc"] or 10), SCF_CONV=str(par["scf"] or 10), ESTATE_TOL=str(par["tol"] or 10))
        wl = {"*mrcc_gen": {"nip": str(m)}, "*ip_eom": {"diabatize": "on", "heff_low": "0", "heff_high": "200"}, "*end": {}}
    ensure(kw == want, f"keywords of {short}: {kw} instead of {want}")
    ensure(lists == wl, f"namelists of {short}: {lists} instead of {wl}")


register("C22", [
    Check("records", state_case(), f_state, 800, 15000, lambda c: c["exists"] and len(c["lines"]) > 1, "state files with valid, torn, blank and foreign records, explicit start steps, then completed steps with a second process resuming after each; non-trivial: several records", replicas=2),
    Check("workflow", workflow_case(), lambda c: f_workflow(c, ("C22",)), 80, 1500, lambda c: bool(c["runs"]),
          "complete calculations against a recording scheduler: up to four interrupted runs (refused submission, scheduler error, failed/cancelled job, missing or truncated output, interruption while waiting, segmentation fault), torn records or a removed state file in between, reductions of the number of states, then a clean run and a run after the end; non-trivial: at least one interrupted run", replicas=7),
], ["the outputs of completed steps stay in place between runs", "a job that failed is noticed by its accounting state, its output or its output files"])


# ---------------------------------------------------------------- C23
@st.composite
def zmat_case(draw):
    g = draw(geometry())
    more = []
    for _ in range(draw(st.integers(0, 3))):
        if g["kind"] == "internal":
            more.append({k: draw(NUM) for k in g["vals"] if draw(st.booleans())})
        else:
            more.append([[r[0]] + [draw(NUM) for _ in range(3)] for r in g["rows"]])
    return {"geo": g, "sets": more, "extra": draw(st.booleans())}


def f_zmat(case):
    from pibronic.vibronic import electronic_structure as es
    g = case["geo"]
    with scratch() as d:
        p, q = os.path.join(d, "z.txt"), os.path.join(d, "y.txt")
        put(p, geometry_file(g))
        before = snapshot(d)
        z, other = es.ZmatClass(p), es.ZmatClass(p)
        ensure(z.kind == g["kind"], f"geometry read as {z.kind}")
        cur = None

        def verify(z, cur):
            opt = cur if cur is not None else g["opt"]
            expect_geometry(z.get(), g, cur is not None, g["kind"] == "cartesian", "get()", opt)
            expect_geometry(z.get(opt_zmat=True), g, cur is not None, True, "get(opt_zmat=True)", opt)
            ensure(z.get() == z.get(), "repeated get differs")
            put(q, z.get(opt_zmat=True))
            y = es.ZmatClass(q)
            os.remove(q)
            expect_geometry(y.get(opt_zmat=True), g, cur is not None, True, "geometry read from its own output", opt)
        verify(z, cur)
        for s in case["sets"]:
            if g["kind"] == "internal":
                z.set(s)
                cur = dict(cur or {}, **s)
            else:
                z.set("".join(" ".join(r) + " \n" for r in s) + "\n")
                cur = s
            verify(z, cur)
        verify(other, None)
        if g["kind"] == "cartesian" and case["extra"]:
            old = z.get()
            many = "".join("H 0.0 0.0 0.0 \n" for _ in range(len(g["rows"]) + len(g["head"]) + 1)) + "\n"
            must_fail(lambda: z.set(many), "more atoms than before")
            ensure(z.get() == old, "refused geometry was stored")
        ensure(snapshot(d) == before, "files changed")
        must_fail(lambda: es.ZmatClass(os.path.join(d, "absent")), "missing geometry", FileNotFoundError)


@st.composite
def parfile_case(draw):
    entries = []
    for h in draw(st.permutations(["basis", "theory", "calculation", "gridVibron", "ccConv", "scfConv", "estateTol", "DROPMO"])):
        if h in ("basis", "theory", "calculation") or draw(st.booleans()):
            v = {"basis": st.sampled_from(["TZ2P", "DZP"]), "theory": st.sampled_from(["MBPT(2)", "CCSD", "CCSD(T)"]), "calculation": st.just("IP"), "DROPMO": st.sampled_from(["", "DROPMO=1", "DROPMO=1-12"])}.get(h, st.integers(1, 14).map(str))
            entries.append([h, draw(v)])
    bad = draw(st.sampled_from([None, None, "header", "case", "basis", "theory", "calculation", "number", "missing"]))
    return {"entries": entries, "bad": bad, "fill": draw(st.lists(st.sampled_from(["", "# comment", "#basis", "   "]), max_size=4)), "pad": draw(st.booleans())}


def f_parfile(case):
    from pibronic.vibronic import electronic_structure as es
    with scratch() as d:
        e = [list(x) for x in case["entries"]]
        bad = case["bad"]
        if bad == "header":
            e.insert(1, ["zmat", "x"])
        elif bad == "case":
            e.insert(1, ["Basis", "DZP"])
        elif bad in ("basis", "theory", "calculation"):
            for x in e:
                if x[0] == bad:
                    x[1] = "STO-3G"
        elif bad == "number":
            e.append(["gridVibron", "three"])
        elif bad == "missing":
            e = [x for x in e if x[0] != "theory"]
        lines = []
        for i, (h, v) in enumerate(e):
            if i < len(case["fill"]):
                lines.append(case["fill"][i])
            lines += [h + ("  " if case["pad"] else ""), ("  " if case["pad"] else "") + v]
        root = os.path.join(d, "run")
        put(os.path.join(root, "mol_params.txt"), "\n".join(lines) + "\n")
        x, y = job("mol", root), job("mol", root)
        if bad:
            must_fail(x.parse_input_parameters, f"parameter file with a bad {bad}")
            ensure(not os.path.exists(os.path.join(root, "execution_state.txt")), "refused parameters started a calculation")
        else:
            x.parse_input_parameters()
            want = {"calculation": None, "theory": None, "basis": None, "DROPMO": "", "NIP": None, "gridVibron": 3, "ccConv": 10, "scfConv": 10, "estateTol": 10}
            ensure(y.parameter_dictionary == want, f"other object holds {y.parameter_dictionary}")
            want.update({h: (int(v) if h in ("gridVibron", "ccConv", "scfConv", "estateTol") else v) for h, v in e})
            ensure(x.parameter_dictionary == want, f"parameters {x.parameter_dictionary} instead of {want}")
        ensure(es.VibronExecutionClass.parameter_dictionary["basis"] is None and es.VibronExecutionClass.parameter_dictionary["gridVibron"] == 3, "defaults of the class changed")
        same([x.path_root, y.path_root], [root, root], "roots")
        must_fail(job("nobody", root).parse_input_parameters, "missing parameter file", FileNotFoundError)


register("C23", [
    Check("geometry", zmat_case(), f_zmat, 500, 10000, lambda c: bool(c["sets"]), "internal (optimised and frozen coordinates) and Cartesian geometries with header lines, sequences of replacements, second objects; non-trivial: at least one replacement", replicas=2),
    Check("parameters", parfile_case(), f_parfile, 400, 8000, lambda c: c["bad"] is None and len(c["entries"]) > 3, "parameter files with comments, blank lines, any order and subset of entries, and invalid variants; non-trivial: valid with optional entries", replicas=2),
    Check("inputs", workflow_case(), lambda c: f_workflow(c, ("C23",)), 60, 1200, lambda c: True,
          "every input file handed to the scheduler during (interrupted and resumed) calculations is parsed and compared with the geometry, parameters and number of states in force; non-trivial: every case", replicas=7),
], [])


# ---------------------------------------------------------------- C24
@st.composite
def outputs_case(draw):
    kind = draw(st.sampled_from(["opt", "hf", "ip", "aces", "vibron"]))
    case = {"what": kind, "noise": draw(st.lists(st.sampled_from(["noise", "", " = ", "Summary", "1 2 3 4 5 6"]), max_size=4)), "end": draw(st.sampled_from(["blank", "dash", "spaces"])), "cut": draw(st.one_of(st.none(), st.floats(0, 1)))}
    if kind == "opt":
        case["geo"] = draw(geometry())
    elif kind == "hf":
        case["ev"], case["dropmo"] = draw(EVS), draw(st.sampled_from([0, 0, 1, 2, 3, 5, 12]))
        case["answers"] = draw(st.lists(st.one_of(st.integers(0, 30), st.integers(100, 12345)), max_size=3))
        case["junk"] = draw(st.lists(st.sampled_from(["", "-1", "abc", "2.5", "1e3", "-12", "yes", "3 4"]), max_size=2))
        case["yes"], case["no"] = draw(st.sampled_from(["yes", "y", "Y", "YES", " y "])), draw(st.sampled_from(["no", "n", "", "N", "3"]))
    elif kind == "ip":
        case["singles"] = draw(st.lists(st.integers(0, 10000).map(lambda k: f"{k / 100:.2f}") if draw(st.booleans()) else st.one_of(st.integers(8400, 10000).map(lambda k: f"{k / 100:.2f}"), st.integers(8501, 10000).map(lambda k: f"{k / 100:.2f}"), st.sampled_from(["85.00", "85.01", "84.99", "99.99", "86.5"])), min_size=1, max_size=25))
    else:
        case["lines"] = draw(st.integers(12, 40))
        case["pos"] = draw(st.one_of(st.none(), st.integers(0, 39), st.integers(0, 12).map(lambda k: -1 - k)))
        case["newline"] = draw(st.booleans())
    return case


def f_outputs(case):
    from pibronic.vibronic import electronic_structure as es
    with scratch() as d:
        root = os.path.join(d, "run")
        put(os.path.join(root, "mol_params.txt"), GOODPAR)
        k = case["what"]
        if k in ("aces", "vibron"):
            notice = NOTICE if k == "aces" else " All done in main_vibron"
            lines = [f"line {i}" for i in range(case["lines"])]
            pos = case["pos"]
            if pos is not None:
                pos = max(-len(lines), min(pos, len(lines) - 1))
            if pos is not None:
                lines[pos] = notice
                pos %= len(lines)
            p = os.path.join(root, "mol_vibron.out0")
            put(p, "\n".join(lines) + ("\n" if case["newline"] else ""))
            put(os.path.join(root, "slurm-7.out"), "Job Script Finished Successfully\n")
            before = snapshot(d)
            call = (lambda: es.verify_aces2_completed(root, p, 7)) if k == "aces" else (lambda: es.parse_vibron_output(job("mol", root)))
            ok = pos is not None and pos >= len(lines) - 10
            with stubs(root, []):
              if ok:
                call()
              else:
                must_fail(call, f"output of {len(lines)} lines with the completion notice at line {pos}")
            ensure(snapshot(d) == before, "checking the output changed it")
            return {"ok": ok}
        if k == "opt":
            g = case["geo"]
            put(os.path.join(root, "mol_zmat.txt"), geometry_file(g))
            text = opt_output(g, noise=case["noise"], end=case["end"])
            marks = [i for i, x in enumerate(text.split("\n")) if "Summary of optimized" in x]
            rows = len(g["opt"])
            need = len("\n".join(text.split("\n")[:marks[0] + 2 + rows + 1])) + 1
        elif k == "hf":
            text = hf_output(case["ev"], noise=case["noise"])
            need = text.index(PLUS) + len(PLUS)
        else:
            text = ip_output(case["singles"], noise=case["noise"], end=case["end"])
            marks = [i for i, x in enumerate(text.split("\n")) if "Summary of ionization" in x]
            need = len("\n".join(text.split("\n")[:marks[0] + 5 + len(case["singles"]) + 1])) + 1
        full = case["cut"] is None
        if not full:
            text = text[:max(1, int(case["cut"] * len(text)))]
        enough = len(text) >= need
        x = job("mol", root)
        x.parse_input_parameters()
        out = {"opt": "mol_opt.out0", "hf": "mol_hartree_fock_nip.out0", "ip": "mol_eomcc_ip_3.out0"}[k]
        must_fail(lambda: read_output(es, x, case, root), "missing output", FileNotFoundError)
        put(os.path.join(root, out), text)
        before = snapshot(d)
        if enough:
            read_output(es, x, case, root)
        else:
            # at the very end of the table a missing terminator may go unnoticed only if nothing is missing from the table
            try:
                read_output(es, x, case, root)
            except Violation:
                raise
            except Exception:
                if k == "opt":
                    expect_geometry(x.zmat.get(), case["geo"], False, case["geo"]["kind"] == "cartesian", "geometry after a refused output")
            else:
                raise_if_cut(case, text, need)
        ensure(snapshot(d) == before, "reading the output changed files")
    return {"enough": enough}


def raise_if_cut(case, text, need):
    # accepted (and found right): everything up to the terminator of the table has to be there
    ensure(len(text) >= need, f"{case['what']} output cut at {len(text)} of {need} characters was accepted")


def read_output(es, x, case, root):
    """runs the parser and compares with what the output says"""
    k = case["what"]
    if k == "opt":
        x.setup_zmat()
        es.parse_opt_output(x)
        expect_geometry(x.zmat.get(), case["geo"], True, case["geo"]["kind"] == "cartesian", "optimised geometry")
        return
    if k == "ip":
        x.parameter_dictionary["nip"] = 3
        got = es.parse_ip_output(x)
        want = all(float(s) > 85.0 for s in case["singles"])
        ensure(got is want or got == want, f"states with {case['singles']} % singles accepted: {got}")
        return
    x.parameter_dictionary["DROPMO"] = {0: "", 1: "DROPMO=1"}.get(case["dropmo"], f"DROPMO=1-{case['dropmo']}")
    guess = guess_nip(case["ev"], case["dropmo"])
    answers, want = [], guess
    junk = case.get("junk", [])       # what is no number of states is asked for again
    yes, no = case.get("yes", "yes"), case.get("no", "no")
    if guess is None or case["answers"]:
        given = case["answers"] or [5]
        if guess is not None:
            answers.append(no)
        for i, v in enumerate(given):
            answers += [*(junk if i == 0 else []), str(v), no if i < len(given) - 1 else yes]
        want = given[-1]
    else:
        answers.append(yes)
    with stubs(root, answers) as prompts:
        es.parse_hartree_fock_output(x, es.State.NIP)
    ensure(x.parameter_dictionary["nip"] == want, f"number of states {x.parameter_dictionary['nip']} instead of {want} from orbitals {case['ev']} (dropped {case['dropmo']}, answers {case['answers']})")
    ensure(not answers, f"answers {answers} not asked for")
    if guess is not None:
        ensure(str(guess) in prompts[0], f"the user was asked about {prompts[0]!r} instead of {guess}")


register("C24", [
    Check("outputs", outputs_case(), f_outputs, 1000, 20000, lambda c: c.get("cut") is not None or c.get("pos") is not None,
          "program outputs (optimisation in internal and Cartesian coordinates, orbital energies, ionisation summaries, completion notices) complete or cut at any byte, with noise before the tables; non-trivial: cut output or a placed completion notice", replicas=4, case_seconds=20),
], ["outputs of at least twelve lines; the terminator of the orbital table does not occur before it"])


# ---------------------------------------------------------------- C25
@st.composite
def heff_case(draw):
    word = st.sampled_from(["HEFF_0", "Heff_0", "1.0 2.0", "", "HEFF_IP", "x" * 50, "HEFF_IP1", "é"])
    pre = draw(st.lists(word, max_size=30))
    post = draw(st.lists(st.one_of(word, st.just("HEFF_IP2")), max_size=30))
    return {"pre": pre, "post": post, "there": draw(st.integers(0, 5)) > 0, "indent": draw(st.sampled_from(["", "  ", "a "])), "newline": draw(st.booleans()), "big": draw(st.sampled_from([1, 1, 1, 500]))}


def private(module, name):
    """an internal function; its effects are also observed through parse_prepVibron_output, so another structure of the code is no violation"""
    if not hasattr(module, name):
        raise Skip()
    return getattr(module, name)


def f_heff(case):
    from pibronic.vibronic import electronic_structure as es
    edit = private(es, "_remove_extra_heff")
    with scratch() as d:
        root = os.path.join(d, "run")
        pre = "".join(x + "\n" for x in case["pre"] * case["big"])
        post = case["indent"] + "HEFF_IP2 data" + "".join("\n" + x for x in case["post"] * case["big"]) + ("\n" if case["newline"] else "")
        if not case["there"]:
            post = post.replace("HEFF_IP2", "HEFF_IP1")
        if not pre + post:
            raise Skip()
        put(os.path.join(root, "src"), pre + post)
        put(os.path.join(root, "sibling"), pre + post)
        x = job("mol", root)
        if case["there"]:
            edit(x, "src")
            want = post
        else:
            must_fail(lambda: edit(x, "src"), "file without the section")
            want = pre + post
        with open(os.path.join(root, "src")) as f:
            got = f.read()
        ensure(got == want, f"file holds {got[:200]!r}... ({len(got)} characters) instead of {want[:200]!r}... ({len(want)})")
        with open(os.path.join(root, "sibling")) as f:
            ensure(f.read() == pre + post, "another file changed")
        edit(x, "src") if case["there"] else None
        with open(os.path.join(root, "src")) as f:
            ensure(f.read() == want, "repeating the removal changed the file")


@st.composite
def nip_case(draw):
    return {"pre": draw(st.lists(st.sampled_from(["vibron input", "xx x", "1 2 3", ""]), max_size=5)), "lead": draw(st.sampled_from(["", "n=", "  states "])), "room": draw(st.integers(0, 8)), "tail": draw(st.sampled_from(["", "", " end", "\nmore", "\n"])),
            "nip": draw(st.one_of(st.integers(0, 999), st.integers(1000, 999999))), "there": draw(st.integers(0, 5)) > 0}


def f_nip(case):
    from pibronic.vibronic import electronic_structure as es
    edit = private(es, "_add_nip_to_file")
    with scratch() as d:
        root = os.path.join(d, "run")
        head = "".join(x + "\n" for x in case["pre"]) + case["lead"]
        field = "xxx" + " " * case["room"]
        text = head + (field if case["there"] else "yyy" + " " * case["room"]) + case["tail"]
        put(os.path.join(root, "vin"), text)
        put(os.path.join(root, "other"), text)
        x = job("mol", root)
        x.parameter_dictionary["nip"] = case["nip"]
        fits = case["there"] and len(field + case["tail"]) >= 6
        if fits:
            edit(x, "vin")
        else:
            must_fail(lambda: edit(x, "vin"), "file without the placeholder, or ending inside it")
        with open(os.path.join(root, "vin")) as f:
            got = f.read()
        want = head + f"{case['nip']:>6d}" + (field + case["tail"])[6:] if fits else text
        ensure(got == want, f"{got!r} instead of {want!r}")
        with open(os.path.join(root, "other")) as f:
            ensure(f.read() == text, "another file changed")


def f_prep(case):
    """the three files of the last preparation step, copied and edited together"""
    from pibronic.vibronic import electronic_structure as es
    with scratch() as d:
        root = os.path.join(d, "run")
        # the files grow with the number of states and modes, from less than a page of memory to megabytes
        n, m = case["scale"], case["filler"]
        block, end = HEFF * n, HEFF2 + " 0.25 0.5\n" * m
        inp = "! comment line\n" * m + VIBIN + " 1 2 3\n" * m
        src = {"mol_prepvib.pntheff": block * case["a"] + end, "mol_prepvib.vibronic_coupling": block * case["b"] + HEFF2 * case["c"] + block, "mol_prepvib.vibron_input": inp}
        for k, v in src.items():
            if k != case["absent"]:
                put(os.path.join(root, k), v)
        for k in case["old"]:
            put(os.path.join(root, k), "old contents that are much longer than anything new " * 20 * case["scale"])
        x = job("mol", root)
        x.parameter_dictionary["nip"] = case["nip"]
        if case["absent"] or not case["c"]:
            must_fail(lambda: es.parse_prepVibron_output(x), "incomplete outputs")
        else:
            for _ in range(case["times"]):
                es.parse_prepVibron_output(x)
                got = {}
                for k in ("PNTHEFF", "cp.auto", "mol_vibron.in"):
                    with open(os.path.join(root, k)) as f:
                        got[k] = f.read()
                ensure(got == {"PNTHEFF": end, "cp.auto": HEFF2 * case["c"] + block, "mol_vibron.in": inp.replace("xxx   ", f"{case['nip']:>6d}")}, f"prepared files { {k: (len(v), v[:300]) for k, v in got.items()} }")
        for k, v in src.items():
            if k != case["absent"]:
                with open(os.path.join(root, k)) as f:
                    ensure(f.read() == v, f"output {k} was modified")


register("C25", [
    Check("sections", heff_case(), f_heff, 500, 10000, lambda c: bool(c["pre"]) and c["there"], "files with text before, between and after the wanted section, up to thousands of lines, indented targets, missing targets; non-trivial: something to remove", replicas=2),
    Check("states", nip_case(), f_nip, 400, 8000, lambda c: c["there"], "files with the placeholder field anywhere (also cut by the end of the file), 0..999999 states, missing placeholder; non-trivial: placeholder present", replicas=1),
    Check("preparation", st.fixed_dictionaries({"a": st.integers(0, 3), "b": st.integers(0, 3), "c": st.sampled_from([1, 1, 2, 0]), "scale": st.sampled_from([1, 1, 10, 100, 3000]), "filler": st.sampled_from([0, 1, 300, 20000]), "nip": st.integers(1, 30), "times": st.integers(1, 2), "absent": st.sampled_from([None, None, None, "mol_prepvib.pntheff", "mol_prepvib.vibron_input"]),
                                                "old": st.lists(st.sampled_from(["PNTHEFF", "cp.auto", "mol_vibron.in"]), unique=True)}), f_prep, 200, 3000, lambda c: c["a"] + c["b"] > 0 and c["c"] > 0 and not c["absent"],
          "the three prepared files made from generated outputs, over older longer files, repeated; sources unmodified; non-trivial: something to remove", replicas=1),
], ["numbers of states with at most six digits"])
