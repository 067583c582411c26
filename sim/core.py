"""Core of the simulator: seeded choices, run records, fingerprints, exception triage.

One integer decides a run: plan = check.gen(Rng(seed)), and check.run(plan, rec) is a
pure function of the plan and the code under test.  Nothing here reads a clock or
draws random numbers while a run executes.
"""
import hashlib
import json
import os
import random
import sys
import traceback
from collections import Counter

import numpy as np

STCAL_SRC = os.environ.get("STCAL_SRC", "")


class HarnessError(Exception):
    """The simulator (not stcal) failed; never reported as a violation."""


class SimHang(BaseException):
    """The system under simulation can make no further progress."""


class Rng(random.Random):
    def chance(self, p):
        return self.random() < p

    def pick(self, seq):
        return seq[self.randrange(len(seq))]

    def weighted(self, pairs):
        tot = sum(w for _, w in pairs)
        x = self.random() * tot
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]

    def ints(self, n, hi=1 << 16):
        return [self.randrange(hi) for _ in range(n)]


def seed_for(base, prop, index):
    h = hashlib.sha256(f"{base}/{prop}/{index}".encode()).digest()
    return int.from_bytes(h[:8], "big")


class Choices:
    """The scheduler's decisions: consumes a recorded list; 0 once it runs out."""

    def __init__(self, values):
        self.values = list(values)
        self.pos = 0
        self.taken = []

    def next(self, n):
        if n <= 1:
            return 0
        v = self.values[self.pos] % n if self.pos < len(self.values) else 0
        self.pos += 1
        self.taken.append(v)
        return v


def fingerprint(obj):
    h = hashlib.sha256()
    _fp(obj, h)
    return h.hexdigest()[:16]


def _fp(obj, h):
    if obj is None:
        h.update(b"N")
    elif isinstance(obj, np.ma.MaskedArray):
        h.update(b"MA")
        _fp(np.ma.getdata(obj), h)
        _fp(np.ma.getmaskarray(obj), h)
    elif isinstance(obj, np.ndarray):
        a = np.ascontiguousarray(obj)
        if a.dtype.byteorder == ">":
            a = a.astype(a.dtype.newbyteorder("="))
        h.update(b"A" + str(a.dtype.str).encode() + str(a.shape).encode())
        if a.dtype.kind in "fc":
            a = a.copy()
            a[np.isnan(a)] = np.nan
            a = a + 0.0  # -0.0 -> 0.0
        if a.dtype.kind == "O":
            for x in a.ravel():
                _fp(x, h)
        else:
            h.update(a.tobytes())
    elif isinstance(obj, dict):
        h.update(b"D")
        for k in sorted(obj, key=str):
            h.update(str(k).encode() + b"=")
            _fp(obj[k], h)
    elif isinstance(obj, (list, tuple)):
        h.update(b"L%d" % len(obj))
        for x in obj:
            _fp(x, h)
    elif isinstance(obj, (float, np.floating)):
        h.update(b"F" + (b"nan" if obj != obj else repr(float(obj) + 0.0).encode()))
    elif isinstance(obj, (bool, np.bool_)):
        h.update(b"B1" if obj else b"B0")
    elif isinstance(obj, (int, np.integer)):
        h.update(b"I" + str(int(obj)).encode())
    elif isinstance(obj, (str, bytes)):
        h.update(b"S" + (obj.encode() if isinstance(obj, str) else obj))
    else:
        raise HarnessError(f"cannot fingerprint {type(obj)}")


def same(a, b):
    return fingerprint(a) == fingerprint(b)


class Recorder:
    def __init__(self):
        self.events = []
        self.violations = []
        self.faults = Counter()
        self.probes = Counter()
        self.states = set()
        self.simtime = 0.0
        self.nontrivial = False
        self.steps = 0

    def event(self, *parts):
        self.events.append(" ".join(str(p) for p in parts))

    def violation(self, cls, msg, sig=None):
        self.violations.append({"class": cls, "msg": str(msg)[:2000], "sig": sig or cls})
        self.event("VIOLATION", cls, msg)

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, *key):
        self.states.add(hashlib.sha256(repr(key).encode()).hexdigest()[:12])

    def digest(self):
        return hashlib.sha256("\n".join(self.events).encode()).hexdigest()[:16]


def in_stcal(exc):
    """Did the exception pass through a frame of the code under test?"""
    tb = exc.__traceback__
    while tb is not None:
        if STCAL_SRC and tb.tb_frame.f_code.co_filename.startswith(STCAL_SRC):
            return True
        tb = tb.tb_next
    return False


def exc_text(exc):
    return f"{type(exc).__name__}: {str(exc)[:300]}"


def stcal_where(exc):
    """Deepest stcal frame of the traceback, as file:function (no line numbers)."""
    where = None
    tb = exc.__traceback__
    while tb is not None:
        f = tb.tb_frame.f_code
        if STCAL_SRC and f.co_filename.startswith(STCAL_SRC):
            where = f"{f.co_filename[len(STCAL_SRC) + 1:]}:{f.co_name}"
        tb = tb.tb_next
    return where


def execute(check, plan):
    """One simulated run.  Returns (Recorder, harness_error or None)."""
    rec = Recorder()
    err = None
    try:
        check.run(plan, rec)
    except HarnessError:
        err = traceback.format_exc()
    except SimHang as e:
        rec.violation("hang", f"no progress possible: {e}")
    except Exception as e:
        if in_stcal(e):
            rec.violation(f"unexpected-exception:{type(e).__name__}",
                          f"{exc_text(e)} at {stcal_where(e)}")
            rec.event(traceback.format_exc().splitlines()[-1])
        else:
            err = traceback.format_exc()
    finally:
        reset = getattr(check, "after_run", None)
        if reset:
            reset()
    return rec, err


def load_check(prop):
    import importlib
    return importlib.import_module(f"checks.{prop.lower()}")


def assert_tree():
    import stcal
    if not stcal.__file__.startswith(STCAL_SRC):
        raise HarnessError(f"stcal came from {stcal.__file__}, not {STCAL_SRC}")


def jdump(obj, path):
    tmp = f"{path}.tmp{os.getpid()}"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, sort_keys=True, default=_jd)
        f.write("\n")
    os.replace(tmp, path)


def _jd(o):
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    raise TypeError(type(o))
