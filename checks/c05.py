"""C05: the median through temporary files equals the one in memory and the true median, over histories of accepted and refused appends."""
import numpy as np

from sim import core, disk, mediangen as mg

ID = "C05"
TREE = "py"
SHIM = "disk"
LEVEL = "exploration"
QUICK_RUNS, THOROUGH_RUNS = 12000, 400000
QUICK_BUDGET_S = 200
TECHNIQUE = ("seeded append histories on a simulated disk that transfers in legal short pieces, on-disk and in-memory computers side by side "
             "against a sorting reference")
LEVEL_NOTE = ("seeded search over stacks, budgets and append histories; the real median code on a simulated disk (libc calls interposed) compared with "
              "its in-memory twin and a reference median by sorting.")
RULE = ("one run = one stack and one history of appends (accepted, refused for shape / type / count, fewer than announced) given to an on-disk and an "
        "in-memory computer; non-trivial when the disk computer used more than one file or an append was refused")
STATE_MEASURE = "distinct (files on disk, rows per file, images, dtype, budget kind, refusals) tuples"
COMPONENTS = {"real": ["stcal.outlier_detection.median", "numpy file I/O", "tempfile"], "stub": ["libc file calls (short transfers)", "temporary names"]}
ASSUMPTIONS = ["a median of two middle values may differ from the reference by one rounding in the stack's type"]
REQUIRED_PROBES = ["several_files", "short_last_file", "refused_shape", "refused_dtype", "refused_count", "fewer_than_announced", "budget_below_minimum",
                   "one_file", "all_nan_pixel"]


def setup():
    disk.lib()
    import stcal.outlier_detection.median  # noqa: F401


def gen(rng, tier, index):
    p = mg.gen_stack(rng)
    n = p["dims"][0]
    ops = []
    m = n if rng.chance(0.8) else rng.randrange(0, n + 1)
    for k in range(m):
        while rng.chance(0.15):
            ops.append(["shape", rng.pick(["transposed", "row_less", "row_more", "col_more", "plane", "flat", "one_row"]), k])
        while rng.chance(0.1):
            ops.append(["dtype", rng.pick(["float64", "float32", ">f8", ">f4", "int16", "float16", "int64"]), k])
        ops.append(["append", rng.pick(["c", "c", "fortran", "strided", "readonly"]), k])
    if m == n:
        while rng.chance(0.4):
            ops.append(["over", "c", n + len(ops)])
    order = list(range(m))
    rng.shuffle(order)
    faults = []
    for _ in range(rng.pick([0, 1, 2])):
        k = rng.pick(["write", "read"])
        faults.append({"on": [k], "nth": rng.randrange(0, 20), "times": rng.pick([1, 3, -1]), "err": 0, "amount": rng.randrange(1, 200)})
    return {"stack": p, "ops": ops, "order": order if rng.chance(0.5) else sorted(order), "faults": faults, "names": rng.ints(8), "mem": rng.chance(0.7)}


def wrong_shape(a, how):
    b = {"transposed": a.T, "row_less": a[:-1], "row_more": np.vstack([a, a[:1]]), "col_more": np.hstack([a, a[:, :1]]), "plane": a[None],
         "flat": a.ravel(), "one_row": a[:1]}[how]
    return None if b.shape == a.shape else np.ascontiguousarray(b)


def run(plan, rec):
    from stcal.outlier_detection.median import MedianComputer
    p = plan["stack"]
    n, rows, cols = p["dims"]
    accepted = []
    with disk.Disk(rec) as d, disk.names(plan["names"]):
        for f in plan["faults"]:
            d.plan(f)
        comp = MedianComputer((n, rows, cols), False, buffer_size=p["buffer"], dtype=p["dtype"], tempdir=d.root)
        files = [x for x in d.listing() if "/" in x]
        row_bytes = cols * np.dtype(p["dtype"]).itemsize * n
        if p["buffer"] and p["buffer"] < row_bytes:
            rec.probe("budget_below_minimum")
        rec.probe("several_files" if len(files) > 1 else "one_file")
        if len(files) > 1 and rows % -(-rows // len(files)):
            rec.probe("short_last_file")
        refused = 0
        for kind, how, k in plan["ops"]:
            a = mg.image(p, k)
            if kind == "append":
                a = mg.layout(a, how)
                keep = a.copy()
                try:
                    comp.append(a)
                except Exception as e:
                    rec.violation("append-refused", f"image {k} of {n} ({how}) refused by the on-disk median: {core.exc_text(e)}")
                    return
                if not core.same(a, keep):
                    rec.violation("input-changed", f"append changed image {k}")
                accepted.append((k, keep))
                continue
            if kind == "shape":
                a = wrong_shape(a, how)
            elif kind == "dtype":
                if np.dtype(how) == np.dtype(p["dtype"]):
                    continue
                with np.errstate(all="ignore"):
                    a = a.astype(how)
            if a is None:
                continue
            try:
                comp.append(a)
            except Exception as e:
                rec.event("refused", kind, how, type(e).__name__)
                refused += 1
                rec.probe({"shape": "refused_shape", "dtype": "refused_dtype", "over": "refused_count"}[kind])
            else:
                rec.violation("bad-append-accepted", f"{kind} {how}: an image of shape {a.shape}, type {a.dtype} was accepted as number {len(accepted) + 1} of "
                              f"{n} of shape {(rows, cols)}, type {p['dtype']}")
                return
        if len(accepted) < n:
            rec.probe("fewer_than_announced")
        want = mg.reference([a for _, a in accepted], (rows, cols), p["dtype"])
        if p["dtype"] != "int32" and np.isnan(want).any():
            rec.probe("all_nan_pixel")
        rec.nontrivial = len(files) > 1 or refused > 0
        rec.state(len(files), rows, cols, n, len(accepted), p["dtype"], refused)
        if not accepted and p["dtype"] == "int32":
            return  # there is no integer for "no value"
        got = comp.evaluate()
        bad = mg.agree(got, want, p["dtype"])
        rec.event("files", len(files), "accepted", len(accepted), "median", core.fingerprint(got))
        if bad:
            rec.violation("wrong-disk-median", f"{len(accepted)} images in {len(files)} files: {bad}")
        if np.asarray(got).dtype != np.dtype(p["dtype"]):
            rec.violation("wrong-type", f"median has type {np.asarray(got).dtype}, the images {p['dtype']}")
        d.tally()
    if plan["mem"]:
        comp = MedianComputer((n, rows, cols), True, dtype=p["dtype"])
        imgs = dict(accepted)
        for idx in plan["order"]:
            if idx in imgs:
                comp.append(imgs[idx], idx)
        mem = comp.evaluate()
        bad = mg.agree(mem, want, p["dtype"])
        if bad:
            rec.violation("wrong-memory-median", f"{len(accepted)} of {n} images: {bad}")
        if not core.same(np.asarray(mem), np.asarray(got)):
            rec.violation("disk-memory-differ", f"{len(accepted)} images in {len(files)} files: the medians differ in {np.argwhere(~((mem == got) | ((mem != mem) & (got != got))))[:3]}")
        rec.event("memory", core.fingerprint(mem))


def shrink(plan):
    for p in mg.shrink_stack(plan["stack"]):
        n = p["dims"][0]
        ops = [o for o in plan["ops"] if o[0] == "over" or o[2] < n]
        yield dict(plan, stack=p, ops=ops, order=[i for i in plan["order"] if i < n])
    for k in range(len(plan["ops"])):
        if plan["ops"][k][0] != "append":
            yield dict(plan, ops=plan["ops"][:k] + plan["ops"][k + 1:])
    for k, o in enumerate(plan["ops"]):
        if o[0] == "append" and o[1] != "c":
            yield dict(plan, ops=plan["ops"][:k] + [["append", "c", o[2]]] + plan["ops"][k + 1:])
    if plan["faults"]:
        yield dict(plan, faults=[])
    if plan["mem"]:
        yield dict(plan, mem=False)
