"""C14: a calibration call does not depend on what the session did before, and leaves the process as it found it."""
import ctypes
import gc
import locale
import logging
import os
import random
import signal
import socket
import sys
import tempfile
import threading
import warnings

import numpy as np

from sim import core, ops, workers

ID = "C14"
TREE = "ext"
LEVEL = "exploration"
QUICK_RUNS, THOROUGH_RUNS = 2400, 200000
QUICK_BUDGET_S = 240
TECHNIQUE = ("seeded sessions of calibration calls in which calls fail or are interrupted at seeded lines, unused memory holds seeded contents and the caller changes "
             "process-wide settings; every call compared with the same call in a fresh process")
LEVEL_NOTE = ("seeded search over histories and fault points; the real code in forked processes; results compared bit for bit, and the process-wide state (error state, "
              "warning filters, random state, environment, signal handlers, threads, ...) compared before and after every call.")
RULE = ("one run = one session of 3-10 calls on 2-4 exposures with shared reference inputs, each compared with a fresh process; non-trivial when a call follows "
        "a failed, interrupted or repeated one")
STATE_MEASURE = "distinct (operation, previous operation, how the previous one ended, memory contents, outcome) tuples"
COMPONENTS = {"real": ["stcal", "numpy", "scipy", "astropy", "gwcs", "drizzle"], "stub": ["numpy's data allocator (contents of new memory)"]}
ASSUMPTIONS = ["third-party modules are imported before the session starts"]
REQUIRED_PROBES = ["op:" + n for n in ops.OPS] + ["interrupted", "after_interrupted", "error", "repeated", "garbage", "noise"]
RUN_LIMIT_S = 240
NP = []


def imports():
    import drizzle.resample  # noqa: F401
    import gwcs.wcs  # noqa: F401
    import scipy.interpolate  # noqa: F401
    import scipy.ndimage  # noqa: F401
    import scipy.optimize  # noqa: F401
    import scipy.signal  # noqa: F401
    import scipy.stats  # noqa: F401
    import importlib
    import pkgutil

    import stcal
    for m in pkgutil.walk_packages(stcal.__path__, "stcal."):
        if "_testing" not in m.name:
            importlib.import_module(m.name)
    import tweakwcs  # noqa: F401
    from astropy import coordinates, units  # noqa: F401


def setup():
    imports()
    lib = ctypes.PyDLL(os.environ["SIM_NP"])
    if lib.simnp_init() or lib.simnp_install():
        raise core.HarnessError("numpy memory handler")
    NP.append(lib)
    gc.collect()
    gc.freeze()
    workers.start_zygote()


def gen(rng, tier, index):
    pool = [ops.gen(rng) for _ in range(rng.randrange(1, 4))]
    if rng.chance(0.5):  # another exposure with the same references
        pool.append(ops.sibling(rng, rng.choice(pool)))
    steps = []
    for _ in range(rng.randrange(3, 11)):
        if rng.chance(0.15):
            steps.append({"noise": rng.choice(["seed", "dirty", "gc", "loglevel", "errstate", "printoptions", "filters"]), "arg": rng.randrange(100)})
            continue
        fault = None
        if rng.chance(0.35):
            fault = {"at": int(2 ** (rng.random() * 11)), "exc": rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "InjectedFault", "ValueError"])}
        steps.append({"op": rng.randrange(len(pool)), "fault": fault, "fill": rng.choice([-1, 0, 1, 64, 127, 255])})
    return {"pool": pool, "steps": steps}


def process_state():
    r = np.random.get_state(legacy=False)
    return {
        "numpy error state": (np.geterr(), str(np.geterrcall()), np.getbufsize()), "warning filters": [str(f) for f in warnings.filters], "warning hook": str(warnings.showwarning),
        "random state": core.fingerprint(str(random.getstate())), "numpy random state": core.fingerprint([r["bit_generator"], r["state"]["key"], int(r["state"]["pos"]), r["gauss"]]),
        "environment": dict(os.environ), "working directory": os.getcwd(), "signal handlers": [str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD, signal.SIGALRM)],
        "recursion limit": sys.getrecursionlimit(), "garbage collector": (gc.isenabled(), gc.get_threshold()), "threads": threading.active_count(),
        "print options": str(np.get_printoptions()), "logging": (logging.getLogger().level, len(logging.getLogger().handlers), logging.root.manager.disable),
        "locale": locale.setlocale(locale.LC_ALL), "socket timeout": socket.getdefaulttimeout(), "trace": str(sys.gettrace()), "stdout": str(sys.stdout), "excepthook": str(sys.excepthook),
        "umask": umask(), "limits": str(sys.get_int_max_str_digits()), "files": sorted(os.listdir(".")),
    }


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def noise(kind, arg):
    """What the rest of the program may do between calls."""
    if kind == "seed":
        np.random.seed(arg)
        random.seed(arg)
    elif kind == "dirty":
        for n in (7, 60, 500, 4000, 30000):
            for dt in (np.float32, np.float64, np.int32, np.uint8):
                a = np.empty(n, dt)
                a[:] = np.dtype(dt).type(arg)
                del a
    elif kind == "gc":
        gc.collect()
    elif kind == "loglevel":
        logging.disable(logging.NOTSET)
        logging.getLogger().setLevel(logging.DEBUG if arg % 2 else logging.CRITICAL)
        if not logging.getLogger().handlers:
            logging.getLogger().addHandler(logging.NullHandler())
    elif kind == "errstate":
        np.seterr(all="ignore" if arg % 2 else "warn")
    elif kind == "printoptions":
        np.set_printoptions(precision=3 + arg % 6, threshold=5)
    elif kind == "filters":
        warnings.simplefilter("ignore" if arg % 2 else "always")


class Quiet:
    def write(self, s):
        return len(s)

    def flush(self):
        pass


def session(plan):
    """Runs in a fresh process: the outcomes of all steps."""
    with tempfile.TemporaryDirectory(prefix="simc14") as d:
        os.chdir(d)
        try:
            return in_session(plan)
        finally:
            os.chdir("/")


def in_session(plan):
    refs, log, kept = ops.Refs(), [], []
    tempfile.tempdir = os.getcwd()
    sys.stderr = Quiet()
    for s in plan["steps"]:
        if "noise" in s:
            noise(s["noise"], s["arg"])
            log.append({"noise": s["noise"]})
            continue
        before = process_state()
        f, lines = s["fault"], 0
        NP[0].simnp_fill(ctypes.c_int(s["fill"]))
        try:
            if f:
                exc = workers.make_exception(f["exc"])

                def action(exc=exc):
                    raise exc
                tracer = workers.LineFault(f["at"], action)
                sys.settrace(tracer.glob)
            try:
                out = ops.call(plan["pool"][s["op"]], refs)
            except KeyboardInterrupt:
                out = ("interrupted", None)
            finally:
                sys.settrace(None)
        finally:
            NP[0].simnp_fill(ctypes.c_int(0))
        fired = bool(f and tracer.fired)
        after = process_state()
        kept.append((out[1], len(log)))
        # files of an interrupted call are C07's; they go when the exception does
        before["files"] = after["files"] if fired else [f for f in after["files"] if f in before["files"]]
        log.append({"out": out[0], "digest": core.fingerprint(out[1]), "text": out[1] if out[0] == "error" else None, "fired": fired,
                    "changed": [k for k in before if before[k] != after[k]],
                    "detail": {k: (str(before[k])[-300:], str(after[k])[-300:]) for k in before if before[k] != after[k]}})
    for value, i in kept:
        log[i]["kept"] = core.fingerprint(value) == log[i]["digest"]
    return log


def alone(spec):
    sys.stderr = Quiet()
    with tempfile.TemporaryDirectory(prefix="simc14") as d:
        tempfile.tempdir = d
        return alone_in(spec)


def alone_in(spec):
    NP[0].simnp_fill(ctypes.c_int(0))
    return ops.result(spec)


def run(plan, rec):
    ok, log = workers.fresh_call(session, plan)
    if not ok:
        raise core.HarnessError(f"session: {log!r}")
    want, last, seen = {}, None, set()
    for s, got in zip(plan["steps"], log):
        if "noise" in s:
            rec.probe("noise")
            rec.fault("noise-" + s["noise"])
            rec.event("noise", s["noise"])
            last = ("noise", s["noise"])
            continue
        spec = plan["pool"][s["op"]]
        rec.steps += 1
        rec.event(spec["op"], s["op"], s["fill"], got["out"], got["digest"], got["fired"])
        rec.state(spec["op"], last, s["fill"] > 0, got["out"], got["fired"])
        rec.probe("op:" + spec["op"])
        if s["fill"] > 0:
            rec.probe("garbage")
            rec.fault("memory-garbage")
        if got["fired"]:
            rec.probe("interrupted")
            rec.fault(s["fault"]["exc"] + "-at-line")
        if got["out"] == "error":
            rec.probe("error")
        if got["changed"]:
            rec.violation("process-state", f"{spec['op']} ({'interrupted' if got['fired'] else got['out']}) changed the {', '.join(got['changed'])} of the process: {got['detail']}",
                          sig="process-state " + ",".join(got["changed"]))
        if not got["kept"]:
            rec.violation("result-changed", f"the result of {spec['op']} changed after it was returned", sig="result-changed " + spec["op"])
        if not got["fired"]:
            if s["op"] in seen:
                rec.probe("repeated")
                rec.nontrivial = True
            if last and last[1] == "fired":
                rec.probe("after_interrupted")
                rec.nontrivial = True
            if s["op"] not in want:
                ok, want[s["op"]] = workers.fresh_call(alone, spec)
                if not ok:
                    raise core.HarnessError(f"reference: {want[s['op']]!r}")
            w = want[s["op"]]
            if (got["out"], got["digest"]) != tuple(w[:2]):
                rec.violation("differs", f"{spec['op']} gave {got['text'] or got['out'] + ' ' + got['digest']} in the session, but {w[2] or w[0] + ' ' + w[1]} in a fresh process",
                              sig="differs " + spec["op"])
        seen.add(s["op"])
        last = (spec["op"], "fired" if got["fired"] else got["out"])


def shrink(plan):
    st = plan["steps"]
    for i in range(len(st)):
        yield dict(plan, steps=st[:i] + st[i + 1:])
    for i, s in enumerate(st):
        if s.get("fault"):
            yield dict(plan, steps=st[:i] + [dict(s, fault=None)] + st[i + 1:])
            if s["fault"]["at"] > 1:
                yield dict(plan, steps=st[:i] + [dict(s, fault=dict(s["fault"], at=s["fault"]["at"] // 2))] + st[i + 1:])
        if s.get("fill", 0) > 0:
            yield dict(plan, steps=st[:i] + [dict(s, fill=0)] + st[i + 1:])
    for i, s in enumerate(plan["pool"]):
        from sim import jumpgen, rampgen
        sub = {"jump": jumpgen, "ramp": rampgen}.get(s["op"])
        if sub:
            for p in sub.shrink(s["p"]):
                yield dict(plan, pool=plan["pool"][:i] + [{"op": s["op"], "p": p}] + plan["pool"][i + 1:])
