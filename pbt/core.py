"""Shared machinery: checks over generated cases, oracles raise Violation."""
import contextlib
import json
import os
import shutil
import signal
import sys
import tempfile

for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _p not in sys.path:
        sys.path.append(_p)

import time  # noqa: E402

# Waiting of the code under test goes through these, however it names them (they are installed before it is imported).
_WAITS = {("time", "sleep"): time.sleep, ("signal", "sigwait"): signal.sigwait, ("signal", "sigwaitinfo"): signal.sigwaitinfo,
          ("signal", "sigtimedwait"): signal.sigtimedwait, ("signal", "pause"): signal.pause}
_hooks = {"sleep": None, "wait": None}


def _install():
    def make(name, real):
        def call(*a):
            h = _hooks["sleep" if name == "sleep" else "wait"]
            return real(*a) if h is None else h(*(a or (None,)))
        call.__name__ = name
        return call
    for (m, n), real in _WAITS.items():
        setattr({"time": time, "signal": signal}[m], n, make(n, real))


_install()


@contextlib.contextmanager
def no_waiting(sleep=lambda s: None, wait=lambda sigs: signal.SIGUSR1):
    """replaces sleeping and waiting for signals"""
    old = dict(_hooks)
    _hooks.update(sleep=sleep, wait=wait)
    try:
        yield
    finally:
        _hooks.update(old)


import numpy as np  # noqa: E402
import hypothesis  # noqa: E402,F401
from hypothesis import strategies as st  # noqa: E402,F401

REPO = os.environ.get("PBT_REPO", "/repo")


class Violation(Exception):
    """the property does not hold for the current case"""


class Skip(Exception):
    """the generated case is outside the property's precondition (counted separately)"""


class Hang(BaseException):
    """the code under test did not terminate on a case"""


def ensure(cond, msg):
    if not cond:
        raise Violation(msg)


def same(a, b, what):
    """exact equality of arrays/values incl. shape"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape} instead of {b.shape}")
    if not np.array_equal(a, b, equal_nan=(a.dtype.kind == 'f' and b.dtype.kind == 'f')):
        raise Violation(f"{what}: got {short(a)} expected {short(b)}")


def close(a, b, what, rtol=1e-9, atol=1e-12):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape} instead of {b.shape}")
    bad = ~(np.abs(a - b) <= atol + rtol * np.abs(b))
    if np.any(bad):
        idx = tuple(int(i) for i in np.argwhere(bad)[0]) if a.shape else ()
        raise Violation(f"{what}: at {idx} got {a[idx]!r} expected {b[idx]!r}; got {short(a)} expected {short(b)}")


def short(x, n=400):
    s = x if isinstance(x, str) else np.array2string(np.asarray(x), threshold=20)
    return s if len(s) <= n else s[:n] + "..."


def must_fail(fn, what, exc=Exception):
    """fn must raise"""
    try:
        out = fn()
    except exc as e:
        return e
    raise Violation(f"{what}: accepted without an error (returned {short(repr(out))})")


@contextlib.contextmanager
def scratch(prefix="case"):
    base = os.environ.get("PBT_SCRATCH") or tempfile.gettempdir()
    d = tempfile.mkdtemp(prefix=prefix, dir=base)
    old = os.getcwd()
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def time_limit(seconds):
    def handler(signum, frame):
        raise Hang(f"no result after {seconds} s")
    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Check:
    """one executable statement of (part of) a property.

    strategy   hypothesis strategy generating a JSON-serialisable case
    fn(case)   raises Violation; may return a small JSON-able observation
    quick/thorough  number of cases
    nontrivial(case) -> bool, rule: the same in words
    fixed      list of cases that are always executed first
    known(case, message) -> None or the text of a listed known finding
    """
    def __init__(self, name, strategy, fn, quick, thorough, nontrivial, rule, fixed=(), case_seconds=180, shards=8, known=None, replicas=1):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough
        self.nontrivial, self.rule, self.fixed = nontrivial, rule, list(fixed)
        self.case_seconds, self.shards, self.known = case_seconds, shards, known
        self.replicas = replicas


PROPERTIES = {}
ASSUME = {}


def register(pid, checks, assumptions=()):
    assert pid not in PROPERTIES
    PROPERTIES[pid] = list(checks)
    ASSUME[pid] = list(assumptions)


def add_check(pid, check):
    PROPERTIES[pid].append(check)


def canon(case):
    return json.dumps(case, sort_keys=True)
