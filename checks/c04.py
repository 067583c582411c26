"""C04: the request for cores is honoured on any machine and every row is processed exactly once."""
import numpy as np

from sim import core, jumpgen, rampgen, workers

ID = "C04"
TREE = "ext"
LEVEL = "exploration"
QUICK_RUNS, THOROUGH_RUNS = 3000, 60000
QUICK_BUDGET_S = 240
TECHNIQUE = "seeded machines (core counts) and requests; processes started and rows processed compared with a reference model"
LEVEL_NOTE = ("seeded search against a ten-line reference model of the core policy and exposures whose every row has its own known answer; "
              "the machine and the pool are simulated, the code under test is real.")
RULE = ("one run = one seeded machine, request and row count: the processes that jump detection and ramp fitting start are counted and each row's "
        "known answer is checked, and the core policy is compared with the model on 40 further machines; non-trivial when workers were used")
STATE_MEASURE = "distinct (machine cores, request, rows, processes) tuples"
COMPONENTS = {"real": ["stcal.multiprocessing", "stcal.jump", "stcal.ramp_fitting OLS path incl. compiled slope fitter"],
              "stub": ["multiprocessing.Pool / ProcessPoolExecutor", "os.cpu_count", "time.time"]}
ASSUMPTIONS = ["the machine's core count is what os.cpu_count reports"]
REQUIRED_PROBES = ["workers_used", "no_workers", "rows_not_divisible", "more_requested_than_rows", "more_requested_than_cores"]


def setup():
    workers.install()
    import stcal.jump.jump  # noqa: F401
    import stcal.jump.jump_class  # noqa: F401
    import stcal.ramp_fitting.ramp_fit  # noqa: F401
    workers.start_zygote()


def request(rng):
    return rng.weighted([("quarter", 2), ("half", 2), ("all", 2), (rng.pick(["none", "None", "NONE", "one", "One", "ONE"]), 1),
                         (str(rng.randrange(1, 12)), 4), (str(rng.randrange(1, 300)), 2)])


def model(req, rows, cpus):
    if req.lower() in ("none", "one"):
        n = 1
    elif req == "quarter":
        n = max(1, cpus // 4)
    elif req == "half":
        n = max(1, cpus // 2)
    elif req == "all":
        n = cpus
    else:
        n = int(req)
    return min(n, rows, cpus)


def gen(rng, tier, index):
    rows = rng.weighted([(rng.randrange(1, 20), 5), (rng.randrange(20, 70), 2)])
    return {"rows": rows, "cols": rng.randrange(1, 4), "nints": rng.pick([1, 1, 2]), "cpu": rng.weighted([(rng.randrange(1, 12), 4), (rng.pick([16, 24, 48, 96]), 2)]),
            "req": request(rng), "choices": rng.ints(60), "op": rng.pick(["jump", "ramp"]),
            "policy": [[request(rng), rng.pick([1, 2, 3, 7, 32, 1024, 2048, 4088]), rng.weighted([(rng.randrange(1, 9), 3), (rng.randrange(1, 300), 2)])]
                       for _ in range(40)]}


def jump_case(p):
    """One jump in every pixel, at a group and integration that depend on the row."""
    exp = {"seed": 1, "dims": [p["nints"], 8, p["rows"], p["cols"]], "gain": 1.0, "badgain": 0, "rnoise": 10.0, "rate": 0.0, "nframes": 1,
           "frame_time": 10.0, "njumps": 0, "amp": 0.0, "nsat": 0, "ndnu": 0, "dnu_groups": [], "extra_bits": 0, "rej": 4.0, "three": 5.0, "four": 5.0,
           "nbr": False, "maxn": 200.0, "minn": 10.0, "after": [0.0, 0, 0.0, 0], "mingroups": 3, "minsig": 100, "useints": False, "single": 10,
           "read_pattern": None, "dtype": "float32", "pers_pixels": False, "quiet_col": False}
    jd = jumpgen.build(exp)
    jd.data = np.zeros_like(jd.data)
    expect = np.zeros(jd.gdq.shape, dtype=np.uint8)
    for r in range(p["rows"]):
        i, k = r % p["nints"], 1 + r % 7
        jd.data[i, k:, r, :] += 1000.0 + r
        expect[i, k, r, :] = 4
    return jd, expect


def run(plan, rec):
    from stcal.multiprocessing import compute_num_cores
    want = model(plan["req"], plan["rows"], plan["cpu"])
    sim = workers.Sim(rec, core.Choices(plan["choices"]), cpu=plan["cpu"])
    with workers.running(sim):
        if plan["op"] == "jump":
            from stcal.jump.jump import detect_jumps_data
            jd, expect = jump_case(plan)
            jd.max_cores = plan["req"]
            gdq, _, count, _ = detect_jumps_data(jd)
            bad = sorted({int(x) for x in np.argwhere(gdq != expect)[:, 2]}) if gdq.shape == expect.shape else "shape"
            ncr = plan["rows"] * plan["cols"]
            if bad:
                rec.violation("row-lost", f"jump: rows {bad} of {plan['rows']} do not have their jump, and only it, flagged ({want} processes)")
            elif count != ncr:
                rec.violation("row-count", f"jump: {count} cosmic rays counted, there is one in each of {ncr} pixels ({want} processes)")
        else:
            exp = rampgen.gen_plan(core.Rng(7))
            exp.update(dims=[plan["nints"], 6, plan["rows"], plan["cols"]], rate=0.0, noise=0.0, rnoise=5.0, gain=1.0, vary=False, badgain=0, badrn=0, nframes=1,
                       groupgap=0, frame_time=1.0, drop=0, name="NIRCAM", njumps=0, nsat=0, satrows=[], dnurows=[], ndnu=0, dnu_groups=[], pers=0,
                       chargeloss=0, zeroframe=False, dark=None, pdq=0, onegood=0, suppress=False, save_opt=True, endian="", nan=0, via="class")
            orig = rampgen.arrays

            def arrays(p):
                a = list(orig(p))
                r = np.arange(plan["rows"], dtype=np.float32)[None, None, :, None]
                a[0] = np.ascontiguousarray(np.broadcast_to((r + 1) * np.arange(6, dtype=np.float32)[None, :, None, None], a[0].shape)).astype(np.float32)
                return tuple(a)
            rampgen.arrays = arrays
            try:
                image, integ, opt = rampgen.call(exp, plan["req"])
            finally:
                rampgen.arrays = orig
            truth = np.broadcast_to((np.arange(plan["rows"]) + 1.0)[:, None], image["slope"].shape)
            for name, arr in (("image", image["slope"]), ("integration", integ["slope"]), ("optional", opt["slope"])):
                arr = np.asarray(arr)
                if arr.shape[-2:] != truth.shape:
                    rec.violation("row-lost", f"ramp: {name} slopes have shape {arr.shape} for {truth.shape} pixels")
                    continue
                bad = np.argwhere(~(np.abs(arr - truth) <= 1e-3 * truth))
                if len(bad):
                    rec.violation("row-lost", f"ramp: {name} slopes of rows {sorted({int(b[-2]) for b in bad})} of {plan['rows']} are not theirs ({want} processes)")
    procs = [p.nproc for p in sim.pools]
    used = len({w for _, w in sim.tasks_by_worker})
    rec.event(plan["op"], plan["req"], plan["cpu"], plan["rows"], procs, want)
    rec.state(plan["cpu"], plan["req"], plan["rows"], procs)
    if want == 1:
        rec.probe("no_workers")
        if procs:
            rec.violation("processes", f"{plan['op']}: request {plan['req']!r} on {plan['cpu']} cores, {plan['rows']} rows: {procs} worker processes, expected none")
    else:
        rec.probe("workers_used")
        rec.nontrivial = True
        if plan["rows"] % want:
            rec.probe("rows_not_divisible")
        if plan["req"].isnumeric() and int(plan["req"]) > plan["rows"]:
            rec.probe("more_requested_than_rows")
        if plan["req"].isnumeric() and int(plan["req"]) > plan["cpu"]:
            rec.probe("more_requested_than_cores")
        if procs != [want] or used > want:
            rec.violation("processes", f"{plan['op']}: request {plan['req']!r} on {plan['cpu']} cores, {plan['rows']} rows: {procs} worker processes, expected {want}")
    for req, rows, cpus in plan["policy"]:
        got = compute_num_cores(req, rows, cpus)
        if got != model(req, rows, cpus):
            rec.violation("policy", f"request {req!r}, {rows} rows, {cpus} cores: {got} processes, expected {model(req, rows, cpus)}")
            break


def shrink(plan):
    if plan["policy"]:
        yield dict(plan, policy=[])
        for q in plan["policy"][:40]:
            yield dict(plan, policy=[q])
    if plan["choices"]:
        yield dict(plan, choices=[])
    for k, v in (("nints", 1), ("cols", 1), ("rows", plan["rows"] // 2), ("rows", plan["rows"] - 1), ("cpu", 4), ("cpu", plan["cpu"] - 1)):
        if v >= 1 and v != plan[k]:
            yield dict(plan, **{k: v})
