"""C13: running out of memory in the compiled ramp fitter is an exception, not a crash, a leak or a wrong product."""
import gc
import glob
import os


import numpy as np

from sim import core, memory, rampgen

ID = "C13"
TREE = "alloc"
SHIM = "asan"
LEVEL = "exploration"
QUICK_RUNS, THOROUGH_RUNS = 6000, 400000
QUICK_BUDGET_S = 200
TECHNIQUE = ("seeded allocation failures (single, several, all from a point on) in the compiled fitter, in numpy's array data and in Python objects, under an address "
             "sanitizer, with call histories compared with a failure-free execution")
LEVEL_NOTE = ("seeded search over exposures and failing allocations; the real extension is compiled with a counting allocator in front of malloc/calloc/free and with "
              "the address sanitizer, so that use after free, double free and overruns end the process and count as violations.")
RULE = "one run = one exposure fitted without failures, 3-10 times with failing allocations, and once more without; non-trivial when at least one allocation failed"
STATE_MEASURE = "distinct (kind of allocation, place bucket, pattern, optional product, outcome) tuples"
COMPONENTS = {"real": ["slope_fitter.c and ols_cas22 compiled from the tree", "stcal.ramp_fitting python layers", "numpy", "CPython"],
              "stub": ["malloc, calloc, realloc, free, operator new and delete of the extensions", "numpy's data allocator", "CPython's allocators (through _testcapi)"]}
ASSUMPTIONS = ["numpy and CPython survive the failing allocations injected (CPython 3.12 does not when objects its interpreter loop needs cannot be allocated, "
               "so object allocations are only failed in the C fitter, which runs no Python code)"]
REQUIRED_PROBES = ["failed:c", "failed:array", "failed:object", "raised", "survived", "memory_error", "optional", "jump_lists", "chargeloss", "all_from", "ols", "cas"]
MEM = {}


def libs(*names):
    import stcal.ramp_fitting
    d = os.path.dirname(stcal.ramp_fitting.__file__)
    return [p for n in names for p in sorted(glob.glob(os.path.join(d, n)))]


def setup():
    import stcal.ramp_fitting.ols_cas22 as cas
    import stcal.ramp_fitting.ols_cas22_fit as casfit
    import stcal.ramp_fitting.ols_fit as of
    import stcal.ramp_fitting.ramp_fit  # noqa: F401
    import stcal.ramp_fitting.slope_fitter as sf
    MEM["ols"] = wrap(sf.ols_slope_fitter, [of, sf], "ols_slope_fitter", libs("slope_fitter*.so"))
    MEM["cas"] = wrap(cas.fit_ramps, [casfit, cas], "fit_ramps", libs("ols_cas22/*.so"))
    rng = core.Rng(1)
    outcome(gen_ols(rng))
    outcome(gen_cas(rng))
    gc.collect()
    gc.freeze()


def wrap(func, modules, name, paths):
    """Put fault points around a compiled function, in the first module that uses it under any name."""
    for m in modules:
        for n in [n for n in vars(m) if getattr(m, n) is func]:
            return memory.Memory(m, n, paths)
    raise core.HarnessError(f"{name} is not used")


def gen_ols(rng):
    exp = rampgen.gen_plan(rng, small=True)
    exp["save_opt"] = rng.chance(0.7)
    if rng.chance(0.5):
        exp["chargeloss"] = 3
    exp["engine"] = "ols"
    return exp


def gen_cas(rng):
    n, npix = rng.randrange(1, 13), rng.randrange(1, 7)
    pattern, k = [], 1
    for _ in range(n):
        m = rng.weighted([(1, 4), (2, 1), (4, 1)])
        pattern.append(list(range(k, k + m)))
        k += m + rng.weighted([(0, 3), (2, 1)])
    return {"engine": "cas", "n": n, "npix": npix, "pattern": pattern, "use_jump": rng.chance(0.7), "njump": rng.randrange(0, 5), "ndq": rng.randrange(0, 5),
            "rate": rng.choice([0.0, 3.0, 200.0]), "rnoise": rng.choice([0.5, 5.0, 30.0]), "cube": rng.chance(0.3), "seed": rng.randrange(1 << 30)}


def fit_cas(exp):
    from stcal.ramp_fitting import ols_cas22_fit
    rng = np.random.default_rng(exp["seed"])
    n, npix = exp["n"], exp["npix"]
    res = np.cumsum(rng.poisson(exp["rate"], (n, npix)), axis=0) + rng.normal(0, exp["rnoise"], (n, npix))
    dq = np.zeros((n, npix), np.int32)
    for _ in range(exp["njump"]):
        res[rng.integers(n):, rng.integers(npix)] += 3000
    for _ in range(exp["ndq"]):
        dq[rng.integers(n), rng.integers(npix)] = 4
    res = res.astype(np.float32)
    if exp["cube"]:
        res, dq = res.reshape(n, npix, 1), dq.reshape(n, npix, 1)
    r = ols_cas22_fit.fit_ramps_casertano(res, dq, exp["rnoise"], 3.04, exp["pattern"], use_jump=exp["use_jump"])
    return {"image": {f: np.array(getattr(r, f)) for f in ("parameters", "variances", "dq")}, "opt": None}


def gen(rng, tier, index):
    exp = gen_cas(rng) if rng.chance(0.25) else gen_ols(rng)
    nlib = len(MEM[exp["engine"]].c) if MEM else {"ols": 1, "cas": 3}[exp["engine"]]
    calls = []
    for _ in range(rng.randrange(3, 11)):
        # the Cython fitter runs Python code of numpy, in which a failing object allocation can crash CPython itself
        dom = rng.weighted([("c", 5), ("array", 2)] + [("object", 3)] * (exp["engine"] == "ols"))
        if dom == "c":
            dom = f"c{rng.randrange(nlib)}"
        pat = rng.weighted([("one", 6), ("two", 2), ("all", 2)])
        calls.append({"dom": dom, "pat": pat, "at": rng.randrange(1 << 20), "then": rng.randrange(1, 6), "early": rng.chance(0.3)})
    return {"exp": exp, "calls": calls, "badtype": rng.weighted([(None, 8), ("data", 1), ("gain", 0.5), ("zeroframe", 0.5)]) if exp["engine"] == "ols" else None}


def outcome(exp):
    """(error, products)"""
    MEM[exp["engine"]].calls = 0
    try:
        r = rampgen.call(exp, "none") if exp["engine"] == "ols" else fit_cas(exp)
    except Exception as e:  # noqa: BLE001
        return e, None
    return None, r if isinstance(r, dict) else dict(zip(("image", "integ", "opt"), r))


def clean(rec, mem, where, what):
    gc.collect()
    live = mem.live()
    if live != where:
        rec.violation("leak", f"{what} left {live[0] - where[0]} blocks of the fitter and {live[1] - where[1]} arrays behind")
        return False
    return True


def run(plan, rec):
    exp = dict(plan["exp"])
    mem = MEM[exp["engine"]]
    rec.probe(exp["engine"])
    gc.collect()
    start = mem.live()
    mem.plan = None
    err, base = outcome(exp)
    if err is not None and not core.in_stcal(err):
        raise err
    basis = core.fingerprint(type(err).__name__ if err else base)
    called, counts = mem.calls, mem.counts()
    if base and base["opt"]:
        rec.probe("optional")
        if base["opt"]["crmag"].any():
            rec.probe("jump_lists")
    if exp.get("chargeloss"):
        rec.probe("chargeloss")
    err = base = None
    if not called:
        return
    if not clean(rec, mem, start, "a call without failures"):
        return
    for k, c in enumerate(plan["calls"]):
        total = counts.get(c["dom"], 76 if exp.get("save_opt") else 48)
        if not total:
            continue
        at = c["at"] % (min(total, 14) if c["early"] else total)
        length = {"one": 1, "two": 1, "all": 0}[c["pat"]]
        if c["dom"] == "object":
            mem.plan = ("object", [], at, 1 if c["pat"] == "one" else c["then"] if c["pat"] == "two" else 0)
        elif c["pat"] == "all":
            mem.plan = (c["dom"], [], at, 0)
        else:
            mem.plan = (c["dom"], [at] + ([at + c["then"]] if c["pat"] == "two" else []), -1, length)
        try:
            err, got = outcome(exp)
        finally:
            mem.plan = None
        failed = mem.failed() if c["dom"] != "object" else int(err is not None)
        what = f"call {k} ({c['dom']} allocation {at} of {total}, {c['pat']})"
        name = type(err).__name__ if err is not None else "products"
        rec.event(k, c["dom"], c["pat"], at, name)
        rec.steps += 1
        rec.state(c["dom"], int(8 * at / total), c["pat"], exp["engine"], bool(exp.get("save_opt")), name)
        if failed:
            rec.fault(f"{c['dom']}-{c['pat']}")
            rec.probe("failed:" + c["dom"][:1 if c["dom"][0] == "c" else None])
            rec.nontrivial = True
            if c["pat"] == "all":
                rec.probe("all_from")
        if failed and c["dom"] != "object" and err is None:
            rec.violation("went-on", f"{what} returned products although an allocation had failed")
        elif err is not None and not failed:
            same = core.fingerprint(name) == basis
            if not same:
                rec.violation("false-error", f"{what} raised {core.exc_text(err)} although no allocation had failed")
        elif err is None and core.fingerprint(got) != basis:
            rec.violation("wrong", f"{what} returned other products than without failures")
        if err is not None and failed:
            rec.probe("raised")
            if isinstance(err, MemoryError):
                rec.probe("memory_error")
            else:
                rec.violation("not-memory", f"{what} raised {core.exc_text(err)} instead of MemoryError")
        err = got = None
        if rec.violations or not clean(rec, mem, start, what):
            return
    if plan["badtype"]:
        bad = dict(exp)
        wrong(bad, plan["badtype"])
        if not clean(rec, mem, start, f"a call with a wrong type of {plan['badtype']}"):
            return
    err, got = outcome(exp)
    if core.fingerprint(type(err).__name__ if err else got) != basis:
        rec.violation("later", f"after the failures the same call gave {core.exc_text(err) if err else 'other products'}")
    rec.probe("survived")


def wrong(exp, field):
    """A call with an array of the wrong type must be refused without damage."""
    real = rampgen.arrays

    def arrays(p):
        a = list(real(p))
        i = {"data": 0, "gain": 6, "zeroframe": 4}[field]
        if a[i] is not None:
            a[i] = a[i].astype(np.float64)
        return tuple(a)

    rampgen.arrays = arrays
    try:
        outcome(exp)
    finally:
        rampgen.arrays = real


def shrink(plan):
    calls = plan["calls"]
    for i in range(len(calls)):
        yield dict(plan, calls=calls[:i] + calls[i + 1:])
    if plan["badtype"]:
        yield dict(plan, badtype=None)
    exp = plan["exp"]
    if exp["engine"] == "ols":
        for e in rampgen.shrink(exp):
            yield dict(plan, exp=e)
    else:
        for k, v in {"use_jump": False, "njump": 0, "ndq": 0, "cube": False, "npix": 1}.items():
            if exp[k] != v:
                yield dict(plan, exp=dict(exp, **{k: v}))
        if exp["n"] > 1:
            yield dict(plan, exp=dict(exp, n=exp["n"] - 1, pattern=exp["pattern"][:-1]))
    for i, c in enumerate(calls):
        for k, v in {"pat": "one", "dom": "c0", "early": True}.items():
            if c[k] != v:
                yield dict(plan, calls=calls[:i] + [dict(c, **{k: v})] + calls[i + 1:])
