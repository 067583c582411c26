"""C15: calibration calls that run at the same time in threads of one process do not affect each other."""
import gc
import logging
import os
import sys
import tempfile
import warnings

from checks import c14
from sim import core, ops, threads, workers

ID = "C15"
TREE = "ext"
LEVEL = "exploration"
QUICK_RUNS, THOROUGH_RUNS = 2400, 200000
QUICK_BUDGET_S = 240
TECHNIQUE = ("two to four threads of calibration calls under a seeded scheduler that passes control at traced lines or opcodes of stcal; every call compared with the same "
             "call alone in a fresh process")
LEVEL_NOTE = "seeded search over interleavings of the Python-level steps and over faults in one of the threads; real code, one thread running at a time; results compared bit for bit."
RULE = "one run = one interleaving of 2-4 threads with 1-3 calls each; non-trivial when control passed between threads inside a call at least twice"
STATE_MEASURE = "distinct (place in the code where control passed, place where the thread that got it goes on) pairs"
COMPONENTS = {"real": ["stcal", "numpy", "scipy", "astropy", "gwcs", "drizzle", "tweakwcs", "threads"], "stub": ["the choice of the thread that runs next"]}
ASSUMPTIONS = ["compiled code does not release the interpreter lock (none in stcal does)", "the caller changes no process-wide setting while the threads run"]
REQUIRED_PROBES = ["op:" + n for n in ops.OPS] + ["same-op", "shared-refs", "opcodes", "alternating", "faulted"]
RUN_LIMIT_S = 300


def setup():
    c14.imports()
    gc.collect()
    gc.freeze()
    workers.start_zygote()


def gen(rng, tier, index):
    n = rng.weighted([(2, 5), (3, 2), (4, 1)])
    base = ops.gen(rng)
    pool = [base]
    for _ in range(rng.randrange(1, 4)):
        pool.append(rng.pick([lambda: ops.sibling(rng, base), lambda: ops.gen(rng), lambda: ops.gen(rng, [base["op"]])])())
    calls = [[rng.randrange(len(pool)) for _ in range(rng.weighted([(1, 4), (2, 2), (3, 1)]))] for _ in range(n)]
    top = 2 ** (4 + 10 * rng.random())
    switches = sorted([max(1, int(top * rng.random())), rng.randrange(n)] for _ in range(int(2 ** (rng.random() * 7))))
    fault = None
    if rng.chance(0.25):
        fault = {"thread": rng.randrange(n), "at": int(2 ** (rng.random() * 10)), "exc": rng.choice(["MemoryError", "InjectedFault", "ValueError", "OSError"])}
    return {"pool": pool, "calls": calls, "switches": switches, "every": rng.weighted([(0, 4), (1, 1), (2, 1), (7, 1), (50, 1)]), 
            "opcodes": not fault and rng.chance(0.3),  # CPython 3.12 may crash when a trace function raises in a frame traced by opcode
            "shared": rng.chance(0.6), "fault": fault}


class Split:
    """Arrays, lists and settings are shared; WCS objects and darks are changed, if only for a time, by the calls that use them."""

    def __init__(self, shared, own):
        self.shared, self.own, self.made = shared, own, own.made

    def __call__(self, key, build):
        return (self.own if key[0] in ("wcs", "v2v3", "dark") else self.shared)(key, build)


def session(plan):
    """Runs in a fresh process."""
    with tempfile.TemporaryDirectory(prefix="simc15") as d:
        os.chdir(d)
        tempfile.tempdir = d
        try:
            return in_session(plan)
        finally:
            os.chdir("/")


def in_session(plan):
    sys.stderr = c14.Quiet()
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    gc.disable()
    n = len(plan["calls"])
    shared, own = ops.Refs(), [ops.Refs() for _ in range(n)]
    results = [[] for _ in range(n)]
    s = threads.Scheduler(n, plan["switches"], plan["opcodes"], plan["every"])
    f = plan["fault"]
    if f:
        exc = workers.make_exception(f["exc"])

        def action():
            raise exc
        s.faults[f["thread"]] = [f["at"], action]

    def body(k):
        for i in plan["calls"][k]:
            spec = plan["pool"][i]
            refs = Split(shared, own[k]) if plan["shared"] else own[k]
            fired = s.fired[k]
            r = ops.call(spec, refs)
            results[k].append((i, r[0], r[1], fired != s.fired[k]))
    try:
        s.start([lambda k=k: body(k) for k in range(n)])
    except threads.Hang as e:
        return {"hang": str(e)}
    out = [[(i, kind, core.fingerprint(v), v if kind == "error" else None, fired) for i, kind, v, fired in rs] for rs in results]
    return {"results": out, "trail": s.trail, "places": s.places[:4000], "steps": s.step}


def alone(spec):
    sys.stderr = c14.Quiet()
    warnings.simplefilter("ignore")
    with tempfile.TemporaryDirectory(prefix="simc15") as d:
        tempfile.tempdir = d
        return ops.result(spec)


def run(plan, rec):
    ok, got = workers.fresh_call(session, plan)
    if not ok:
        raise core.HarnessError(f"session: {got!r}")
    if "hang" in got:
        rec.violation("hang", got["hang"])
        return
    rec.steps += got["steps"]
    rec.event("trail", core.fingerprint(got["trail"]))
    inside = [t for t in got["trail"][:-1] if t[1]]
    rec.nontrivial = len(got["places"]) >= 2
    rec.count = len(inside)
    last = None
    for k, name, line in got["places"]:
        rec.state(last, (name, line))
        last = (name, line)
    if plan["opcodes"]:
        rec.probe("opcodes")
    if plan["every"]:
        rec.probe("alternating")
    used = {i for c in plan["calls"] for i in c}
    names = [plan["pool"][i]["op"] for c in plan["calls"] for i in c[:1]]
    if len(set(names)) < len(names):
        rec.probe("same-op")
        if plan["shared"]:
            rec.probe("shared-refs")
    rec.fault("switch", len(got["places"]))
    want = {}
    for i in sorted(used):
        ok, want[i] = workers.fresh_call(alone, plan["pool"][i])
        if not ok:
            raise core.HarnessError(f"reference: {want[i]!r}")
    for k, rs in enumerate(got["results"]):
        if len(rs) != len(plan["calls"][k]):
            rec.violation("thread-died", f"thread {k} ended after {len(rs)} of {len(plan['calls'][k])} calls")
        for i, kind, digest, text, fired in rs:
            op = plan["pool"][i]["op"]
            rec.probe("op:" + op)
            rec.event(k, op, kind, digest, fired)
            if fired:
                rec.probe("faulted")
                rec.fault(plan["fault"]["exc"] + "-at-line")
                continue
            w = want[i]
            if (kind, digest) != tuple(w[:2]):
                rec.violation("differs", f"{op} gave {text or kind + ' ' + digest} in thread {k} of {len(plan['calls'])}, but {w[2] or w[0] + ' ' + w[1]} alone", sig="differs " + op)


def shrink(plan):
    n = len(plan["calls"])
    if plan["fault"]:
        yield dict(plan, fault=None)
    if plan["every"]:
        yield dict(plan, every=0)
    if plan["opcodes"]:
        yield dict(plan, opcodes=False)
    if plan["shared"]:
        yield dict(plan, shared=False)
    if n > 2 and not plan["fault"]:
        for k in range(n):
            m = {j: j - (j > k) for j in range(n)}
            yield dict(plan, calls=plan["calls"][:k] + plan["calls"][k + 1:], switches=[[s, m[t]] for s, t in plan["switches"] if t != k])
    for k, c in enumerate(plan["calls"]):
        for i in range(len(c)):
            if len(c) > 1:
                yield dict(plan, calls=plan["calls"][:k] + [c[:i] + c[i + 1:]] + plan["calls"][k + 1:])
    sw = plan["switches"]
    for size in (len(sw) // 2, len(sw) // 4, 1):
        for i in range(0, len(sw) if size else 0, max(1, size)):
            yield dict(plan, switches=sw[:i] + sw[i + size:])
