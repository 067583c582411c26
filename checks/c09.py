"""C09: a mosaic depends only on the images added since the last reset, over histories with failing calls."""
import gc

import numpy as np

from sim import core, mosaic as mo

ID = "C09"
TREE = "py"
LEVEL = "exploration"
QUICK_RUNS, THOROUGH_RUNS = 20000, 800000
QUICK_BUDGET_S = 200
TECHNIQUE = ("seeded histories of adds, failing adds (bad images, failing hooks and coordinate systems, exceptions at any line), finalizes and resets, "
             "refined against a fresh mosaic and a reference drizzle")
LEVEL_NOTE = ("seeded search over call histories and fault points; the real resampling code and drizzle run; outputs are compared with a new mosaic given "
              "only the images that were added and with a reference accumulation.")
RULE = ("one run = one mosaic configuration, 1-5 images and 3-14 calls; non-trivial when a call failed or the mosaic was reset before a result was judged")
STATE_MEASURE = "distinct (sequence of call kinds and outcomes, configuration options) tuples"
COMPONENTS = {"real": ["stcal.resample", "drizzle", "gwcs (in part of the runs)", "astropy bit masks"],
              "stub": ["linear coordinate systems (in most runs)", "subclass hook"]}
ASSUMPTIONS = ["images of one exposure group share its times", "after a failed call the mosaic may refuse everything until it is reset"]
REQUIRED_PROBES = ["failed_add", "failed_finalize", "failed_reset", "reset_finalized", "reset_open", "reset_stuck", "refused_after_failure",
                   "went_on_after_failure", "judged", "judged_by_reference", "several_images", "missing_rnoise_after_present", "gwcs",
                   "second_context_plane"]


def setup():
    import stcal.resample  # noqa: F401
    mo.quiet()
    gc.collect()
    gc.freeze()


def gen(rng, tier, index):
    cfg = mo.gen_config(rng)
    ng = rng.randrange(1, 4)
    nimg = rng.randrange(1, 6)
    images = [mo.gen_image(rng, cfg, ng) for _ in range(nimg)]
    calm = rng.chance(0.1)
    if calm:
        cfg["out"] = [5, 6]
        for s in images:
            s["shape"], s["shift"] = [3, 4], [s["shift"][0] % 3, 0.5]
    ops = mo.gen_ops(rng, nimg, rng.pick([rng.randrange(6, 20), rng.randrange(30, 75)]) if calm else rng.randrange(3, 15), calm)
    ops.append(["finalize"])
    return {"cfg": cfg, "groups": mo.gen_groups(rng, ng), "images": images, "ops": ops}


def run(plan, rec):
    h = mo.History(plan, rec)
    before = [frozen(m) for m in h.models]
    refs = {}

    def reference(added, n):
        k = (added, n)
        if k not in refs:
            r = mo.new_mosaic(h.cfg, n)
            for i in added:
                r.add_model(h.models[i])
            r.finalize()
            refs[k] = dict(mo.arrays(r.output_model), pixel_scale_ratio=r.output_model["pixel_scale_ratio"])
        return refs[k]

    def observe(hist, op, final):
        if hist.states is None:
            return
        om = hist.r.output_model
        got = dict(mo.arrays(om), pixel_scale_ratio=om["pixel_scale_ratio"])
        first = None
        rec.probe("judged")
        for added, n in hist.states:
            if not added:
                continue
            ref = reference(added, n)
            bad = [k for k in ref if k not in got or not core.same(ref[k], got[k])] + [k for k in got if k not in ref]
            if not bad:
                hist.states = [(added, n)]
                first = None
                if len(added) > 32 and h.cfg["ctx"]:
                    rec.probe("second_context_plane")
                if len(added) > 1:
                    rec.probe("several_images")
                if any(o[0] != "add" for o in plan["ops"][:-1]):
                    rec.nontrivial = True
                for a, b in zip(added, added[1:]):
                    ka, kb = (plan["images"][q]["vars"]["var_rnoise"] for q in (a, b))
                    if ka == "ok" and kb in ("none", "empty", "shape") and h.cfg["var"]:
                        rec.probe("missing_rnoise_after_present")
                if h.cfg["kind"] == "gwcs":
                    rec.probe("gwcs")
                elif h.cfg["step"] == 1:
                    by_reference(added, n, got)
                break
            first = first or (added, bad, describe(ref, got, bad[0]))
        if first:
            rec.violation(f"differs:{first[1][0]}", f"{', '.join(first[1])} differ from a new mosaic of images {list(first[0])}: {first[2]}")

    def by_reference(added, n, got):
        rec.probe("judged_by_reference")
        exp, extreme = mo.model_arrays(plan, h.cfg, h.models, added, n)
        for k, a in exp.items():
            b = got.get(k)
            if a is None:
                if b is not None:
                    rec.violation(f"model:{k}", f"{k} should not be made")
                continue
            if b is None:
                rec.violation(f"model:{k}", f"{k} is missing")
                continue
            if k in ("con", "dq"):
                ok = np.array_equal(a, b)
            else:
                ok = a.shape == b.shape and np.allclose(a, b, rtol=2e-4, atol=1e-5, equal_nan=True)
                if a.shape == b.shape and (k in mo.VARS or k == "err" and h.cfg["err"] == "from_var"):
                    ok = np.allclose(a[~extreme], b[~extreme], rtol=2e-4, atol=1e-5, equal_nan=True)
            if not ok:
                rec.violation(f"model:{k}", f"{k} of images {list(added)} is not the weighted combination of the images: {describe({k: a}, {k: b}, k)}")
                return

    for op in plan["ops"]:
        h.step(op, observe)
        rec.steps += 1
        if rec.violations:
            return
    h.finish()
    for m, b in zip(h.models, before):
        if not core.same(b, frozen(m)):
            rec.violation("input-changed", f"image {m['filename']} was changed by adding it")
            break
    rec.state([e.split(" ")[0] + ("!" if not e.endswith("ok") else "") for e in rec.events], sorted((k, str(v)) for k, v in h.cfg.items() if k != "out"))


def frozen(m):
    return {k: v for k, v in m.items() if k != "wcs"}


def describe(a, b, k):
    x, y = a.get(k), b.get(k)
    if not isinstance(x, np.ndarray) or not isinstance(y, np.ndarray):
        return f"{k}: {'array' if isinstance(x, np.ndarray) else x} expected, {'array' if isinstance(y, np.ndarray) else y} found"
    if x.shape != y.shape:
        return f"{k}: shape {x.shape} expected, {y.shape} found"
    d = np.argwhere(~((x == y) | ((x != x) & (y != y))))
    if not len(d):
        return f"{k}: type {x.dtype} expected, {y.dtype} found"
    p = tuple(d[0])
    return f"{k}: {len(d)} of {x.size} values, at {list(map(int, p))} {x[p]!r} expected, {y[p]!r} found"


def shrink(plan):
    yield from mo.shrink(plan)
