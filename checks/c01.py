"""C01: jump detection gives the same answer whatever the number of worker processes."""
import numpy as np

from sim import core, jumpgen, workers

ID = "C01"
TREE = "py"
LEVEL = "exploration"
QUICK_RUNS, THOROUGH_RUNS = 4000, 80000
QUICK_BUDGET_S = 240
TECHNIQUE = "seeded worker schedules over seeded exposures, differential against the one-process execution"
LEVEL_NOTE = ("seeded search: real detection code and pickling, simulated pool; exact equality of all outputs. Trusts the "
              "simulated pool to be a faithful subset of the real pool's behaviours.")
REQUIRED_PROBES = ["multi_slice_with_jumps", "worker_reused", "sigma_clip_with_jumps", "neighbours_and_after_jump", "skipped", "extended_events"]
RULE = ("one run = one seeded exposure and detector configuration processed once without worker processes and "
        "once on a seeded machine (core count, core request, schedule of workers, clock jumps); non-trivial when "
        "the second execution really used two or more slices and flagged at least one jump")
STATE_MEASURE = "distinct (slices, task-to-worker assignment, detection branch options) tuples"
COMPONENTS = {"real": ["stcal.jump (all of it)", "stcal.multiprocessing", "pickling of slices and results",
                       "separate interpreter state per worker (forked pristine process)"],
              "stub": ["multiprocessing.Pool / ProcessPoolExecutor scheduling", "os.cpu_count", "time.time"]}
ASSUMPTIONS = ["workers do not communicate other than through the pool",
               "numpy/astropy numerics are deterministic on one machine for equal array layouts",
               "sigma-clip exposures keep one event-free pixel column, so no slice has a group flagged in all its pixels "
               "(the recorded finding C01 all-jump-group covers the rest)"]


def setup():
    workers.install()
    import stcal.jump.jump  # noqa: F401
    import stcal.jump.jump_class  # noqa: F401
    workers.start_zygote()


def gen(rng, tier, index):
    if index % 64 == 5:  # the recorded finding, see known_findings.txt
        return {"exp": jumpgen.alljump_plan(rng), "cpu": 4, "cores": "2", "ref": "none", "choices": rng.ints(8), "clock": []}
    big = rng.chance(0.2)
    exp = jumpgen.gen_plan(rng, big=big)
    nrows = exp["dims"][2]
    cpu = rng.pick([1, 2, 3, 4, 8, 8, 12, 16, 64])
    cores = rng.weighted([(str(rng.randrange(2, nrows + 3)), 6), ("all", 2), ("half", 2), ("quarter", 1), ("one", 1)])
    return {"exp": exp, "cpu": max(cpu, rng.pick([1, 2, 4, 8])), "cores": cores, "ref": rng.pick(["none", "one", "1", "None"]), "choices": rng.ints(80),
            "clock": [rng.pick([0.01, 3600.0, -86400.0, 0.0]) for _ in range(rng.randrange(0, 3))]}


def outcome(exp, cores):
    from stcal.jump.jump import detect_jumps_data
    jd = jumpgen.build(exp)
    jd.max_cores = cores
    gdq, pdq, ncr, next_ = detect_jumps_data(jd)
    return {"gdq": gdq, "pdq": pdq, "primary": int(ncr), "extended": int(next_)}


def guarded(fn, *a):
    try:
        return fn(*a)
    except Exception as e:
        if not core.in_stcal(e) and not isinstance(e, (ValueError, IndexError, TypeError)):
            raise
        return {"raised": type(e).__name__}


def alljump_only(exp, ref, got):
    """Is the only difference the one of the recorded finding: a group that is all jumps in the first of two slices?"""
    group = exp["alljump"][0]
    rows = exp["dims"][2] // 2
    expected = ref.copy()
    sel = expected[0, group, :rows]
    sel[sel == 4] = 0
    return np.array_equal(expected, got)


def run(plan, rec):
    exp = plan["exp"]
    with workers.running(workers.Sim(rec, core.Choices([]), cpu=1)):
        ref = guarded(outcome, exp, plan["ref"])
    clock = workers.SimClock(steps=plan["clock"])
    sim = workers.Sim(rec, core.Choices(plan["choices"]), cpu=plan["cpu"], clock=clock)
    with workers.running(sim):
        got = guarded(outcome, exp, plan["cores"])
    rec.simtime += abs(clock.now - 1.7e9)
    if plan["clock"]:
        rec.fault("clock_jump", clock.reads)
    nsl = sum(p.nproc for p in sim.pools)
    rec.event("ref", core.fingerprint(ref), "got", core.fingerprint(got), "slices", nsl)
    rec.state(nsl, sim.tasks_by_worker, exp["nbr"], exp["useints"], exp["minsig"], bool(exp["after"][1]))
    if "raised" in ref or "raised" in got:
        rec.probe("raised")
        if ref.get("raised") != got.get("raised"):
            rec.violation("differs:exception", f"one process: {ref.get('raised')}, {plan['cores']}: {got.get('raised')}")
        return
    njump = int(np.count_nonzero(ref["gdq"] & 4))
    rec.nontrivial = nsl >= 2 and njump > 0
    if nsl >= 2:
        rec.probe("multi_slice")
        if len({w for _, w in sim.tasks_by_worker}) < len(sim.tasks_by_worker):
            rec.probe("worker_reused")
        if njump:
            rec.probe("multi_slice_with_jumps")
        if ref["extended"]:
            rec.probe("extended_events")
        if exp["minsig"] < 100 and exp["dims"][0] * exp["dims"][1] > 14 and njump:
            rec.probe("sigma_clip_with_jumps")
        if exp["after"][1] and exp["nbr"] and njump:
            rec.probe("neighbours_and_after_jump")
        if ref["primary"] == -99:
            rec.probe("skipped")
    for k in ("gdq", "pdq", "primary", "extended"):
        if not core.same(ref[k], got[k]):
            detail = ""
            if k in ("gdq", "pdq"):
                d = np.argwhere(ref[k] != got[k])
                detail = f"{len(d)} elements, first {d[0].tolist()}: {ref[k][tuple(d[0])]} vs {got[k][tuple(d[0])]}" if len(d) else "type"
            else:
                detail = f"{ref[k]} vs {got[k]}"
            sig = None
            if exp.get("alljump") and nsl == 2 and alljump_only(exp, ref["gdq"], got["gdq"]):
                lost = int(np.count_nonzero(ref["gdq"] != got["gdq"]))
                if k == "gdq" or (k == "primary" and ref[k] - got[k] == lost):
                    sig = "alljump-group"
            rec.violation(f"differs:{k}", sig=sig, msg=f"{k} with {plan['cores']} of {plan['cpu']} cores ({nsl} slices) differs from one process: {detail}")


def shrink(plan):
    for e in jumpgen.shrink(plan["exp"]):
        yield dict(plan, exp=e)
    if plan["clock"]:
        yield dict(plan, clock=[])
    if plan["choices"]:
        yield dict(plan, choices=[])
    for c in ("2", "3"):
        if plan["cores"] != c:
            yield dict(plan, cores=c, cpu=max(4, plan["cpu"]))
