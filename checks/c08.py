"""C08: the exposure bookkeeping of a mosaic, over long histories of calls that succeed or fail."""
import gc

from sim import core, mosaic as mo

ID = "C08"
TREE = "py"
LEVEL = "exploration"
QUICK_RUNS, THOROUGH_RUNS = 40000, 2000000
QUICK_BUDGET_S = 200
TECHNIQUE = ("seeded histories of adds, failing adds, finalizes and resets with interleaved exposure groups; the metadata is compared after every call "
             "with a fold over the images the mosaic may hold")
LEVEL_NOTE = "seeded search over call histories and fault points; the real resampling code runs; the reference is a fold over the history."
RULE = ("one run = one mosaic, 1-4 exposure groups, 1-8 images and 4-60 calls on it; non-trivial when two groups were interleaved, or a call failed, before a "
        "result was judged")
STATE_MEASURE = "distinct sequences of (call kind, outcome, groups held) per run"
COMPONENTS = {"real": ["stcal.resample", "drizzle"], "stub": ["linear coordinate systems", "subclass hook"]}
ASSUMPTIONS = ["images of one exposure group share its times", "after a failed call the mosaic may refuse everything until it is reset"]
REQUIRED_PROBES = ["failed_add", "failed_finalize", "failed_reset", "reset_finalized", "reset_open", "reset_stuck", "refused_after_failure",
                   "went_on_after_failure", "judged", "add_after_finalize", "finalized_twice", "group_again_after_another", "measurement_missing", "many_images"]


def setup():
    import stcal.resample  # noqa: F401
    mo.quiet()
    gc.collect()
    gc.freeze()


def gen(rng, tier, index):
    cfg = mo.gen_config(rng, allow_gwcs=False)
    cfg.update(out=[4, 5], kernel="point", step=1)
    if rng.chance(0.6):
        cfg.update(var=False, err=None, dq=False)
    ng = rng.randrange(1, 5)
    nimg = rng.randrange(1, 9)
    images = []
    for _ in range(nimg):
        s = mo.gen_image(rng, cfg, ng)
        s.update(shape=[rng.randrange(2, 5), rng.randrange(2, 5)], bbox="none", ratio=1.0, shift=[0.0, 0.0])
        images.append(s)
    groups = mo.gen_groups(rng, ng)
    if rng.chance(0.3):
        for g in groups:
            g["measurement"] = g["exposure"] * 0.5
    calm = rng.chance(0.3)
    ops = mo.gen_ops(rng, nimg, rng.randrange(4, 16) if not calm else rng.pick([rng.randrange(8, 20), rng.randrange(30, 80)]), calm)
    return {"cfg": cfg, "groups": groups, "images": images, "ops": ops + [["finalize"]]}


def run(plan, rec):
    h = mo.History(plan, rec)
    key = []

    def observe(hist, op, final):
        if hist.states is None:
            return
        om = hist.r.output_model
        got = mo.times(om)
        rec.probe("judged")
        first = None
        for added, n in hist.states:
            if not added:
                continue
            exp, seen = mo.fold(plan, added)
            bad = [k for k in exp if not close(exp[k], got.get(k))]
            if not bad and list(hist.r.group_ids) != seen:
                bad = ["group_ids"]
                exp["group_ids"], got["group_ids"] = seen, hist.r.group_ids
            if not bad:
                hist.states, first = [(added, n)], None
                if any(o[0] != "add" for o in plan["ops"][:-1]) and len(added) > 1:
                    rec.nontrivial = True
                gs = [plan["images"][i]["group"] for i in added]
                if any(gs[j] in gs[:j - 1] and gs[j] != gs[j - 1] for j in range(2, len(gs))):
                    rec.probe("group_again_after_another")
                    rec.nontrivial = True
                if exp["measurement_time"] is None:
                    rec.probe("measurement_missing")
                if len(added) > 32:
                    rec.probe("many_images")
                break
            first = first or (added, bad[0], exp[bad[0]], got.get(bad[0]))
        if first:
            rec.violation(f"bookkeeping:{first[1]}", f"{first[1]} of images {list(first[0])} is {first[3]!r}, expected {first[2]!r}")

    for op in plan["ops"]:
        h.step(op, observe)
        rec.steps += 1
        if rec.violations:
            return
        if not h.final and not h.stuck and not h.maybe and h.states is not None:
            running(h, op, rec)
            if rec.violations:
                return
        key.append((op[0], h.final, h.stuck, None if h.states is None else len(h.states[0][0])))
    h.finish()
    rec.state(key)


def running(h, op, rec):
    """What a mosaic under construction says about itself."""
    r = h.r
    first = None
    for k, (added, n) in enumerate(h.states):
        seen = mo.fold(h.plan, added)[1] if added else []
        got = (list(r.group_ids), r.output_model["pointings"])
        if got == (seen, len(seen)):
            return
        first = first or (added, got, (seen, len(seen)))
    rec.violation("bookkeeping:running", f"after {op} the groups and pointings of images {list(first[0])} are {first[1]}, expected {first[2]}")


def close(a, b):
    if a is None or b is None:
        return a is b
    return abs(a - b) <= 1e-9 * max(1.0, abs(a))


def shrink(plan):
    yield from mo.shrink(plan)
