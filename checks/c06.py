"""C06: disk errors at any point of an on-disk median give an exception or the right median, whatever the caller does next."""
import sys

from sim import core, disk, mediangen as mg, workers

ID = "C06"
TREE = "py"
SHIM = "disk"
LEVEL = "fault_enumeration"
QUICK_RUNS, THOROUGH_RUNS = 60000, 1500000
QUICK_BUDGET_S = 200
TECHNIQUE = "disk errors, torn and lost writes, full disks and interrupts injected at seeded operations of seeded append / retry / evaluate histories"
LEVEL_NOTE = ("seeded search over fault points and caller histories; the real median code, numpy and tempfile on a simulated disk (libc calls interposed); "
              "every returned median is compared with a sorting reference over the images whose append returned.")
RULE = ("one run = one computer, 1-3 planned faults (errno, torn bytes, data lost at close, byte budget, interrupt at a line) and a caller that retries, "
        "skips or stops after failures and evaluates repeatedly; non-trivial when a fault really fired")
STATE_MEASURE = "distinct (fault kinds, failed operation, files on disk, images accepted, caller reaction, outcome) tuples"
COMPONENTS = {"real": ["stcal.outlier_detection.median", "numpy file I/O", "tempfile", "shutil"], "stub": ["libc file calls", "temporary names"]}
ASSUMPTIONS = ["the disk does not change data it has acknowledged, except what was written since the file was opened when closing or flushing it fails"]
REQUIRED_PROBES = ["append_failed", "retry_after_failure", "went_on_after_failure", "evaluate_failed", "median_despite_fault", "evaluate_again",
                   "construct_failed", "disk_full", "interrupted"]
KINDS = [("open", 4), ("write", 6), ("read", 3), ("close", 3), ("fdopen", 1), ("unlink", 1), ("mkdir", 1), ("flush", 1), ("truncate", 1), ("rename", 1), ("map", 1)]


def setup():
    disk.lib()
    import stcal.outlier_detection.median  # noqa: F401


def gen(rng, tier, index):
    p = mg.gen_stack(rng, small=True)
    if p["dtype"] == "int32":
        p["dtype"] = "float32"
    n = p["dims"][0]
    faults, space, line = [], None, None
    for _ in range(rng.weighted([(1, 6), (2, 2), (3, 1)])):
        x = rng.random()
        if x < 0.72:
            faults.append(disk.gen_fault(rng, KINDS, maxnth=rng.pick([6, 25, 80])))
        elif x < 0.86:
            space = [rng.randrange(0, max(2, p["dims"][0] * p["dims"][1] * p["dims"][2] * 4)), rng.randrange(2)]
        else:
            line = [int(2 ** (rng.random() * 8)), rng.pick(["KeyboardInterrupt", "MemoryError"])]
    return {"stack": p, "faults": faults, "space": space, "line": line, "m": n if rng.chance(0.8) else rng.randrange(1, n + 1),
            "react": [rng.pick(["retry", "retry", "skip", "stop", "retry_healed", "skip_healed"]) for _ in range(6)],
            "evals": [rng.pick(["plain", "healed", "append_more"]) for _ in range(rng.randrange(1, 4))], "mid_eval": rng.chance(0.1), "names": rng.ints(6)}


class Lines:
    """An exception at the n-th executed line of stcal code (an interrupt or a failed allocation)."""

    def __init__(self, line, rec):
        self.rec, self.t = rec, None
        if line:
            def act():
                rec.fault("line_" + line[1])
                rec.probe("interrupted")
                raise workers.make_exception(line[1])
            self.t = workers.LineFault(line[0], act)

    def call(self, f, *a):
        if self.t and not self.t.fired:
            sys.settrace(self.t.glob)
        try:
            return f(*a)
        finally:
            sys.settrace(None)

    @property
    def fired(self):
        return bool(self.t and self.t.fired)


def run(plan, rec):
    from stcal.outlier_detection.median import MedianComputer
    p = plan["stack"]
    n, rows, cols = p["dims"]
    accepted, failures, trail = [], 0, []
    with disk.Disk(rec) as d, disk.names(plan["names"]):
        for f in plan["faults"]:
            d.plan(f)
        if plan["space"]:
            d.space(*plan["space"])
        lines = Lines(plan["line"], rec)

        rec.event(p["dims"], p["dtype"], p["buffer"], plan["space"], plan["line"], [(f["on"], f["nth"], f["err"], f.get("amount")) for f in plan["faults"]])

        def attempt(what, f, *a):
            nonlocal failures
            try:
                return True, lines.call(f, *a)
            except core.HarnessError:
                raise
            except (Exception, KeyboardInterrupt) as e:
                name = type(e).__name__
            rec.event(what, "failed", name)
            trail.append((what, name))
            if not d.fired() and not lines.fired and not failures:
                rec.violation("fails-without-fault", f"{what} raised {name} though no fault had fired")
            failures += 1
            return False, None

        def evaluate(label):
            ok, got = attempt("evaluate", comp.evaluate)
            if not ok:
                rec.probe("evaluate_failed")
                return False
            bad = mg.agree(got, mg.reference([mg.image(p, k) for k in accepted], (rows, cols), p["dtype"]), p["dtype"])
            rec.event("evaluate", label, core.fingerprint(got))
            if d.fired() or lines.fired:
                rec.probe("median_despite_fault")
            if bad:
                rec.violation("wrong-median", f"{label}: images {accepted} were appended ({failures} failed operations {trail[:6]}, disk files of "
                              f"{n}x{rows}x{cols} {p['dtype']}): {bad}")
            return True

        ok, comp = attempt("construct", lambda: MedianComputer((n, rows, cols), False, buffer_size=p["buffer"], dtype=p["dtype"], tempdir=d.root))
        if not ok:
            rec.probe("construct_failed")
            d.heal()
            ok, comp = attempt("construct", lambda: MedianComputer((n, rows, cols), False, buffer_size=p["buffer"], dtype=p["dtype"], tempdir=d.root))
            if not ok:
                rec.event("construction failed twice")
                rec.nontrivial = True
                return
        k = 0
        done = False
        while k < plan["m"] and len(accepted) < n:
            ok, _ = attempt("append", comp.append, mg.image(p, k))
            if ok:
                accepted.append(k)
                k += 1
                continue
            rec.probe("append_failed")
            if failures > 12:
                break
            react = plan["react"][failures % len(plan["react"])]
            if react.endswith("healed"):
                d.heal()
            if react.startswith("retry"):
                rec.probe("retry_after_failure")
            elif react == "stop":
                break
            else:
                rec.probe("went_on_after_failure")
                k += 1
            if plan["mid_eval"] and evaluate("middle"):
                done = True
                break
        if not done:
            for what in plan["evals"]:
                if what == "healed":
                    d.heal()
                if what == "append_more" and len(accepted) < n:
                    if attempt("append", comp.append, mg.image(p, 77))[0]:
                        accepted.append(77)
                if evaluate(what):
                    break
                rec.probe("evaluate_again")
        d.tally()
        rec.nontrivial = bool(d.fired() or lines.fired)
        rec.steps += d.ops()
        rec.state(trail, len(accepted), [f["on"] for f in plan["faults"]], plan["react"][:2])
        del comp


def shrink(plan):
    for k in range(len(plan["faults"])):
        yield dict(plan, faults=plan["faults"][:k] + plan["faults"][k + 1:])
    if plan["space"] and (plan["faults"] or plan["line"]):
        yield dict(plan, space=None)
    if plan["line"] and (plan["faults"] or plan["space"]):
        yield dict(plan, line=None)
    for p in mg.shrink_stack(plan["stack"]):
        yield dict(plan, stack=p, m=min(plan["m"], p["dims"][0]))
    if plan["m"] > 1:
        yield dict(plan, m=plan["m"] - 1)
    if len(plan["evals"]) > 1:
        yield dict(plan, evals=plan["evals"][:-1])
    if plan["mid_eval"]:
        yield dict(plan, mid_eval=False)
    for k, f in enumerate(plan["faults"]):
        for key, v in (("times", 1), ("nth", f["nth"] // 2), ("nth", f["nth"] - 1), ("amount", 0)):
            if v >= 0 and f.get(key, 0) != v:
                yield dict(plan, faults=plan["faults"][:k] + [dict(f, **{key: v})] + plan["faults"][k + 1:])
