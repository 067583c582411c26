"""C03: a worker that fails or dies fails the whole call; nothing hangs, nothing is left, the next call is right."""
from sim import core, jumpgen, rampgen, workers

ID = "C03"
TREE = "ext"
LEVEL = "fault_enumeration"
QUICK_RUNS, THOROUGH_RUNS = 5000, 100000
QUICK_BUDGET_S = 240
TECHNIQUE = "worker exceptions, kills, start failures and interrupts injected at seeded points of seeded worker schedules"
LEVEL_NOTE = ("seeded search over fault points and schedules: real jump-detection / ramp-fitting code in simulated worker processes; "
              "the pool semantics after a worker death are modelled on CPython's (Pool loses the task, the executor breaks).")
RULE = ("one run = one multi-process call with 1-3 faults planned (exception at the n-th line or library call of a task, kill before / at the n-th line of / after a "
        "task, pool that cannot start, interrupt of the waiting caller), then a fault-free call; non-trivial when a fault really fired")
STATE_MEASURE = "distinct (operation, slices, assignment, fired faults, outcome) tuples"
COMPONENTS = {"real": ["stcal.jump", "stcal.ramp_fitting OLS path incl. compiled slope fitter", "worker code in forked pristine processes"],
              "stub": ["multiprocessing.Pool / ProcessPoolExecutor", "os.cpu_count", "time.time"]}
ASSUMPTIONS = ["a worker failure is visible to the caller only through the pool"]
REQUIRED_PROBES = ["call_failed", "worker_die_line", "worker_die_before", "worker_die_after", "pool_start_failure", "interrupt_while_waiting",
                   "jump_failed", "ramp_failed", "completed_without_fault"]
RAISES = sorted(workers.EXCEPTIONS)


def setup():
    workers.install()
    import stcal.jump.jump  # noqa: F401
    import stcal.jump.jump_class  # noqa: F401
    import stcal.ramp_fitting.ramp_fit  # noqa: F401
    workers.start_zygote()


def gen(rng, tier, index):
    op = rng.pick(["jump", "ramp"])
    while True:
        exp = jumpgen.gen_plan(rng) if op == "jump" else rampgen.gen_plan(rng)
        if exp["dims"][2] >= 2 and (op == "ramp" or exp["dims"][1] >= 3):
            break
    nsl = rng.randrange(2, min(8, exp["dims"][2]) + 1)
    faults = []
    for _ in range(rng.weighted([(1, 6), (2, 2), (3, 1)])):
        kind = rng.weighted([("raise_line", 5), ("raise_call", 4), ("die_line", 3), ("die_before", 2), ("die_after", 2), ("pool_start", 1), ("interrupt", 2)])
        if kind == "interrupt" and any(f["kind"] == "interrupt" for f in faults):
            continue  # a second interrupt while the first one is being handled is the caller's own doing
        f = {"kind": kind}
        if kind in ("raise_line", "die_line"):
            f["at"] = int(2 ** (rng.random() * (7.5 if op == "jump" else 6.2 if rng.chance(0.4) else 4.5)))
        if kind == "raise_call":
            f["at"] = int(2 ** (rng.random() * (7 if op == "jump" else 5)))
        if kind in ("raise_line", "die_line", "raise_call") and rng.chance(0.6):
            f["site"] = rng.random()
        if kind in ("raise_line", "raise_call"):
            f["exc"] = rng.pick(RAISES)
        if kind == "interrupt":
            f["step"] = rng.randrange(1, 2 * nsl + 1)
        elif kind != "pool_start":
            f["task"] = rng.randrange(nsl)
        faults.append(f)
    return {"op": op, "exp": exp, "cpu": rng.pick([nsl, nsl, nsl + 1, 16]), "cores": str(nsl), "faults": faults, "choices": rng.ints(60),
            "again": rng.pick(["same", "same", "other"]), "rounds": rng.pick([1, 1, 2])}


def result(op, exp, cores):
    from sim import jumpgen, rampgen
    if op == "ramp":
        return rampgen.call(exp, cores)
    from stcal.jump.jump import detect_jumps_data
    jd = jumpgen.build(exp)
    jd.max_cores = cores
    gdq, pdq, a, b = detect_jumps_data(jd)
    return gdq, pdq, int(a), int(b)


def run(plan, rec):
    op, exp = plan["op"], plan["exp"]
    ok, ref = workers.fresh_call(result, op, exp, "none")
    if not ok:
        rec.event("reference raised", workers.exc_name(ref))
        rec.probe("reference_raised")
        return
    for rnd in range(plan["rounds"]):
        fired0 = sum(rec.faults.values())
        sim = workers.Sim(rec, core.Choices(plan["choices"][rnd * 7:]), faults=plan["faults"], cpu=plan["cpu"])
        got, exc = None, None
        with workers.running(sim):
            try:
                got = result(op, exp, plan["cores"])
            except core.HarnessError:
                raise
            except core.SimHang as e:
                rec.violation("hang", f"{op}: the call never returns after {plan['faults']}: {e}")
                return
            except BaseException as e:
                exc = e
            left = workers.leaked_pools(sim)
            fired = sum(rec.faults.values()) - fired0
            rec.event(op, "fired", fired, "outcome", core.fingerprint(got) if exc is None else workers.exc_name(exc))
            rec.state(op, len(sim.tasks_by_worker), sim.tasks_by_worker, [f["kind"] for f in plan["faults"] if f.get("used")], exc is None)
            if left:
                rec.violation("pool-left-open", f"{op}: {len(left)} worker pool(s) still running after the call ended with "
                              f"{'a result' if exc is None else workers.exc_name(exc)}")
            if fired:
                rec.nontrivial = True
                if exc is None:
                    rec.violation("fault-hidden", f"{op}: the call returned a result although a worker failed ({plan['faults']}); "
                                  f"{'equal to' if core.same(got, ref) else 'different from'} the fault-free result")
                else:
                    rec.probe("call_failed")
                    rec.probe(op + "_failed")
            else:
                rec.probe("completed_without_fault")
                if exc is not None:
                    if not core.in_stcal(exc):
                        raise exc
                    rec.violation("fails-without-fault", f"{op}: {core.exc_text(exc)} with no fault fired")
                elif not (op == "jump" and exp.get("alljump")) and not core.same(got, ref):
                    rec.violation("wrong-result", f"{op}: result with no fault fired differs from the one-process result")
            if rec.violations:
                return
        # the next call, without faults
        sim = workers.Sim(rec, core.Choices(plan["choices"][20:]), cpu=plan["cpu"] if plan["again"] == "same" else 4)
        with workers.running(sim):
            try:
                nxt = result(op, exp, plan["cores"] if plan["again"] == "same" else "none")
            except core.HarnessError:
                raise
            except Exception as e:
                rec.violation("next-call-fails", f"{op}: the call after a failed one raises {core.exc_text(e)}")
                return
        rec.event("next", core.fingerprint(nxt))
        if not core.same(nxt, ref):
            rec.violation("next-call-wrong", f"{op}: the call after a failed one differs from a fresh process's")
            return


def shrink(plan):
    for k in range(len(plan["faults"])):
        if len(plan["faults"]) > 1:
            yield dict(plan, faults=plan["faults"][:k] + plan["faults"][k + 1:])
    if plan["rounds"] > 1:
        yield dict(plan, rounds=1)
    if plan["choices"]:
        yield dict(plan, choices=[])
    for e in (jumpgen if plan["op"] == "jump" else rampgen).shrink(plan["exp"]):
        if e["dims"][2] >= int(plan["cores"]):
            yield dict(plan, exp=e)
    for f in plan["faults"]:
        if f.get("site"):
            for site in (0.0, f["site"] / 2, round(f["site"], 2)):
                if site < f["site"]:
                    yield dict(plan, faults=[dict(g, site=site) if g is f else g for g in plan["faults"]])
        elif f.get("at", 1) > 1:
            for at in (1, f["at"] // 2, f["at"] - 1):
                yield dict(plan, faults=[dict(g, at=at) if g is f else g for g in plan["faults"]])


