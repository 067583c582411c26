"""C02: ramp fitting gives the same products whatever the number of worker processes."""
import numpy as np

from sim import core, rampgen, workers

ID = "C02"
TREE = "ext"
LEVEL = "exploration"
QUICK_RUNS, THOROUGH_RUNS = 10000, 400000
QUICK_BUDGET_S = 240
TECHNIQUE = "seeded worker schedules over seeded exposures, differential against the one-process execution"
LEVEL_NOTE = ("seeded search: real fitting code (compiled extension included) and pickling, simulated pool; exact equality of "
              "every product array. Trusts the simulated pool to be a faithful subset of the real pool's behaviours.")
RULE = ("one run = one seeded exposure and options fitted once without worker processes and once on a seeded machine (core count, core "
        "request, order of workers, clock jumps); non-trivial when two or more slices were used and at least one slope is finite and non-zero")
STATE_MEASURE = "distinct (slices, task-to-worker assignment, optional product, segments, instrument handling) tuples"
COMPONENTS = {"real": ["stcal.ramp_fitting OLS path incl. compiled slope fitter", "stcal.multiprocessing", "pickling of slices and results",
                       "separate interpreter state per worker (forked pristine process)"],
              "stub": ["multiprocessing.Pool / ProcessPoolExecutor scheduling", "os.cpu_count", "time.time"]}
ASSUMPTIONS = ["workers do not communicate other than through the pool"]
REQUIRED_PROBES = ["multi_slice_with_slopes", "worker_reused", "optional_product", "segments_differ_between_slices", "zeroframe", "suppressed"]


def setup():
    workers.install()
    import stcal.ramp_fitting.ramp_fit  # noqa: F401
    workers.start_zygote()


def gen(rng, tier, index):
    exp = rampgen.gen_plan(rng)
    nrows = exp["dims"][2]
    cores = rng.weighted([(str(rng.randrange(2, nrows + 3)), 6), ("all", 2), ("half", 2), ("quarter", 1), ("one", 1)])
    return {"exp": exp, "cpu": rng.pick([1, 2, 4, 4, 8, 8, 12, 64]), "cores": cores, "ref": rng.pick(["none", "one", "1", "None"]),
            "choices": rng.ints(80), "clock": [rng.pick([0.01, 3600.0, -86400.0, 0.0]) for _ in range(rng.randrange(0, 3))]}


def outcome(exp, cores):
    try:
        r = rampgen.call(exp, cores)
    except Exception as e:
        if not core.in_stcal(e):
            raise
        return {"raised": type(e).__name__, "text": str(e)[:200]}
    return dict(zip(("image", "integ", "opt"), r))


def compare(ref, got, what, rec):
    if "raised" in ref or "raised" in got:
        rec.probe("raised")
        if ref.get("raised") != got.get("raised"):
            rec.violation("differs:exception", f"one process: {ref.get('raised')}, {what}: {got.get('raised')} {got.get('text')}")
        return False
    for part in ("image", "integ", "opt"):
        a, b = ref[part], got[part]
        if (a is None) != (b is None):
            rec.violation(f"differs:{part}", f"{part} product is {'absent' if a is None else 'present'} with one process, "
                          f"{'absent' if b is None else 'present'} with {what}")
            continue
        if a is None:
            continue
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                rec.violation(f"differs:{part}.{k}", f"{part}.{k} exists only in one of the results ({what})")
                continue
            x, y = np.asarray(a[k]), np.asarray(b[k])
            if core.same(x, y):
                continue
            if x.shape != y.shape or x.dtype != y.dtype:
                d = f"{x.dtype}{x.shape} vs {y.dtype}{y.shape}"
            else:
                ne = ~((x == y) | ((x != x) & (y != y)))
                i = tuple(np.argwhere(ne)[0])
                d = f"{int(ne.sum())} elements, first {list(map(int, i))}: {x[i]} vs {y[i]}"
            rec.violation(f"differs:{part}.{k}", f"{part}.{k} with {what} differs from one process: {d}")
    return True


def run(plan, rec):
    exp = plan["exp"]
    with workers.running(workers.Sim(rec, core.Choices([]), cpu=1)):
        ref = outcome(exp, plan["ref"])
    clock = workers.SimClock(steps=plan["clock"])
    sim = workers.Sim(rec, core.Choices(plan["choices"]), cpu=plan["cpu"], clock=clock)
    with workers.running(sim):
        got = outcome(exp, plan["cores"])
    rec.simtime += abs(clock.now - 1.7e9)
    if plan["clock"]:
        rec.fault("clock_jump", clock.reads)
    nsl = sum(p.nproc for p in sim.pools)
    rec.event("ref", core.fingerprint(ref), "got", core.fingerprint(got), "slices", nsl)
    if not compare(ref, got, f"{plan['cores']} of {plan['cpu']} cores ({nsl} slices)", rec):
        return
    image, opt = ref["image"], ref["opt"]
    nseg = opt["slope"].shape[1] if opt else 0
    rec.state(nsl, sim.tasks_by_worker, bool(opt), nseg, exp["name"], image is None)
    if nsl < 2:
        return
    rec.probe("multi_slice")
    if image is None:
        rec.probe("no_product")
        return
    ok = bool(np.any(np.isfinite(image["slope"]) & (image["slope"] != 0)))
    rec.nontrivial = ok
    if ok:
        rec.probe("multi_slice_with_slopes")
    if len({w for _, w in sim.tasks_by_worker}) < len(sim.tasks_by_worker):
        rec.probe("worker_reused")
    if opt:
        rec.probe("optional_product")
        if nseg > 1:
            rows = [int(np.count_nonzero(np.any(opt["slope"][:, 1:, r] != 0))) for r in range(opt["slope"].shape[2])]
            if len(set(rows)) > 1:
                rec.probe("segments_differ_between_slices")
    if exp["zeroframe"] and exp["nsat"]:
        rec.probe("zeroframe")
    if exp["suppress"] and exp["onegood"]:
        rec.probe("suppressed")
    if exp["chargeloss"]:
        rec.probe("chargeloss")


def shrink(plan):
    for e in rampgen.shrink(plan["exp"]):
        yield dict(plan, exp=e)
    if plan["clock"]:
        yield dict(plan, clock=[])
    if plan["choices"]:
        yield dict(plan, choices=[])
    for c in ("2", "3"):
        if plan["cores"] != c:
            yield dict(plan, cores=c, cpu=max(4, plan["cpu"]))
