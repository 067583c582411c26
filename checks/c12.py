"""C12: queries of the object-store catalogue end in time, with all sources of the cone or an error, and remember no failure."""
import atexit
import gc
import importlib
import os
import shutil
import tempfile
import warnings

import numpy as np

from sim import core, mosaic as mo, store

ID = "C12"
TREE = "py"
LEVEL = "exploration"
QUICK_RUNS, THOROUGH_RUNS = 4000, 80000
QUICK_BUDGET_S = 200
RUN_LIMIT_S = 170
TECHNIQUE = ("seeded sequences of cone searches on a simulated object store (pyarrow's Python file-system interface) with a virtual clock: stalls, delays, errors and "
             "short reads at the n-th operation on any file, threads given up by a timeout continue or fail later")
LEVEL_NOTE = ("seeded search over stores, cones and fault places; the client, its thread, pyarrow's parquet and dataset code, HEALPix and astropy run; results are "
              "compared with a brute-force search of the catalogue that was put in the store.")
RULE = "one run = 1-5 queries of one store; non-trivial when a fault happened or a cone crossed a partition border"
STATE_MEASURE = "distinct (store, place kind, radius bucket, fault kind, operation, n, timeout crossed, sources bucket, outcome) tuples"
COMPONENTS = {"real": ["stcal.tweakreg._s3_catalog and astrometric_utils", "concurrent.futures threads", "pyarrow csv, parquet, dataset", "astropy-healpix", "astropy"],
              "stub": ["the S3 file system (served from memory through PyFileSystem)", "clocks and timed waits of the calling thread"]}
ASSUMPTIONS = ["sources nearer to the edge of the cone than 1e-9 degrees + rounding of the cosine are not judged", "a part of the sky without partitions may be an error",
               "the order of arrow's own reads is not controlled; faults belong to the n-th operation on a file",
               "pyarrow has enough worker threads (160) that stalled operations given up earlier do not hold all of them"]
REQUIRED_PROBES = ["good", "many_partitions", "pole", "wrap", "stall", "late_delay", "early_delay", "error", "short_read", "given_up_continues", "given_up_fails", "good_after_failure",
                   "epoch", "created", "nothing_found", "stall_info", "error_info"]
_DIR, STORES = [], []
URI = "stpubdata/gaia/gaia_dr3/public/hats/gaia/"
# the last two of the first two: partitions whose numbers lie at multiples of 10000, where the directories change
PLACES = [[(0.0, 90.0), (123.0, -90.0), (0.0, 0.0), (0.0, 41.810314895778), (45.0, 0.0), (359.9999, -30.0), (180.0, 66.4), (0.001, 30.0), (90.0, -41.8103148957),
           (252.45762711864407, 45.78396716177501), (300.9375, -2.985506005746538)],
          [(266.4, -29.0), (10.0, 89.9), (200.0, -89.95), (360.0, 12.0), (135.0, 19.47122063449), (22.5, 41.81), (40.078125, 20.264481067727523),
           (348.046875, -1.6415099022496478)],
          [(83.8, -5.4), (359.99, 0.01), (40.0, 60.0)]]


def setup():
    import astropy.coordinates  # noqa: F401
    import stcal.tweakreg.astrometric_utils as au
    import pyarrow as pa
    pa.set_io_thread_count(160)
    pa.set_cpu_count(160)
    _DIR.append(tempfile.mkdtemp(prefix="c12-"))
    atexit.register(shutil.rmtree, _DIR[0], True)
    r = np.random.default_rng(12)
    for k, (places, threshold, depth) in enumerate(zip(PLACES, (60, 30, 400), (6, 8, 1))):
        clusters = [(a % 360, d, s, n) for a, d in places for s, n in ((0.4, 60), (0.02, 40))]
        w = np.array(wcs()(24.0, 19.0))
        clusters.append((w[0], w[1], 0.002, 80))
        files, cols, parts = store.build(100 + k, threshold, depth, int(r.integers(300, 600)), clusters)
        STORES.append({"files": {URI + p: d for p, d in files.items()}, "cols": cols, "parts": parts, "depth": max(o for o, _ in parts)})
    mo.quiet()
    au.get_s3_catalog  # the client must exist
    gc.collect()
    gc.freeze()


def wcs():
    return mo.gwcs_object("c12", (40, 50), mo.matrix(20, 1.0), [-20.0, -20.0], ((-0.5, 49.5), (-0.5, 39.5)))


def gen(rng, tier, index):
    k = rng.randrange(3)
    queries = []
    for _ in range(rng.randrange(1, 6)):
        a, d = rng.pick(PLACES[k])
        if rng.chance(0.1):
            a, d = rng.uniform(0, 360), rng.uniform(-90, 90)
        elif rng.chance(0.4):
            i = rng.randrange(len(STORES[k]["cols"]["ra"]))
            a, d = float(STORES[k]["cols"]["ra"][i]), float(STORES[k]["cols"]["dec"][i])
        q = {"ra": a + rng.pick([0, 0, 0.01, -0.01, 0.3]), "dec": max(-90.0, min(90.0, d + rng.pick([0, 0, 0.02, -0.3]))), "radius": rng.pick([0.003, 0.03, 0.1, 0.1, 0.5, 2.0, 5.0][:5 if k == 1 else 7]),
             "epoch": rng.pick([None, None, 2016.0, 2021.4]), "timeout": rng.pick([600, 30.0, 1.0, 0.05]), "via": rng.weighted([("s3", 4), ("get", 2), ("create", 1)]),
             "num": rng.pick([None, 3, -2, 100]), "output": rng.chance(0.5), "fault": None}
        kind = rng.weighted([(None, 5), ("stall", 3), ("late", 2), ("early", 2), ("error", 3), ("short", 1)])
        if kind:
            f = {"kind": kind, "op": rng.weighted([("fs", 0.7), ("info", 1), ("open", 2), ("read", 4)]), "info": rng.chance(0.35), "part": rng.randrange(64),
                 "nth": rng.pick([0, 0, 0, 1, 1, 2, 3, 5])}
            if f["op"] == "fs":
                f["nth"] = 0
            if kind == "error":
                f["error"] = rng.pick(sorted(store.ERRORS))
            if kind == "short":
                f.update(op="read", share=rng.pick([0.1, 0.5, 0.9]))
            q["fault"] = f
        elif rng.chance(0.5):
            q["fault"] = {"kind": "release", "op": rng.pick(["info", "open", "read"]), "info": False, "part": rng.randrange(64), "nth": rng.randrange(3), "ok": rng.chance(0.6)}
        queries.append(q)
    return {"store": k, "queries": queries}


def separation(cols, ra, dec):
    a, d = np.radians(cols["ra"] - ra), np.radians(cols["dec"])
    d0 = np.radians(dec)
    h = np.sin((d - d0) / 2) ** 2 + np.cos(d) * np.cos(d0) * np.sin(a / 2) ** 2
    return np.degrees(2 * np.arcsin(np.sqrt(np.clip(h, 0, 1))))


def overlap(st, ra, dec, radius):
    """Partitions that hold sources of the cone, sorted; and whether any partition surely lies under the cone."""
    sep = separation(st["cols"], ra, dec)
    idx = np.flatnonzero(sep <= radius)
    return idx, sep


def partitions(st, idx):
    from astropy import units as u
    from astropy_healpix import HEALPix
    if not len(idx):
        return []
    pix = np.asarray(HEALPix(nside=2 ** 29, order="nested").lonlat_to_healpix(st["cols"]["ra"][idx] * u.deg, st["cols"]["dec"][idx] * u.deg), dtype=np.int64)
    return sorted((o, p) for o, p in st["parts"] if (pix >> (2 * (29 - o)) == p).any())


def moved(cols, idx, epoch):
    """Positions at the epoch: proper motion along the tangent plane and parallax of the earth about the barycentre."""
    from astropy.coordinates import get_body_barycentric
    from astropy.time import Time
    ra, dec = np.radians(cols["ra"][idx]), np.radians(cols["dec"][idx])
    mas = np.pi / 180 / 3600e3
    east = np.array([-np.sin(ra), np.cos(ra), 0 * ra])
    north = np.array([-np.sin(dec) * np.cos(ra), -np.sin(dec) * np.sin(ra), np.cos(dec)])
    up = np.array([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)])
    e = get_body_barycentric("earth", Time(epoch, format="decimalyear")).xyz.to("AU").value
    dt = epoch - cols["ref_epoch"][idx]
    x = (dt * cols["pmra"][idx] - cols["parallax"][idx] * (e @ east)) * mas
    y = (dt * cols["pmdec"][idx] - cols["parallax"][idx] * (e @ north)) * mas
    v = up + east * x + north * y
    v /= np.sqrt((v ** 2).sum(0))
    return v


def faults_of(q, st, parts):
    f = q["fault"]
    if not f:
        return []
    file = "partition_info.csv" if f["info"] or not parts else "Npix=%d.parquet" % parts[f["part"] % len(parts)][1]
    if not f["info"] and parts:
        file = "Norder=%d/Dir=%d/%s" % (parts[f["part"] % len(parts)][0], parts[f["part"] % len(parts)][1] // 10000 * 10000, file)
    out = {"kind": f["kind"], "op": f["op"], "file": "" if f["op"] == "fs" else file, "nth": f["nth"]}
    if f["kind"] in ("late", "early"):
        out.update(kind="delay", seconds=q["timeout"] * (1.5 if f["kind"] == "late" else 0.6))
    elif f["kind"] == "error":
        out["kind"] = f["error"]
    elif f["kind"] == "short":
        out["part"] = f["share"]
    elif f["kind"] == "release":
        out["ok"] = f["ok"]
    return [out]


def run(plan, rec):
    import stcal.tweakreg._s3_catalog as s3
    import stcal.tweakreg.astrometric_utils as au
    import pyarrow.fs
    importlib.reload(s3)
    importlib.reload(au)
    st = STORES[plan["store"]]
    clock = store.Clock(rec)
    faults = store.Faults(rec, clock)
    faults.files = st["files"]
    real = pyarrow.fs.S3FileSystem

    def filesystem(*a, **k):
        faults.op("fs", "")
        return store.handler(faults)

    pyarrow.fs.S3FileSystem = filesystem
    path = os.path.join(_DIR[0], "ref.ecsv")
    if os.path.exists(path):
        os.unlink(path)
    failed = False
    try:
        with clock:
            try:
                for n, q in enumerate(plan["queries"]):
                    failed = query(rec, s3, au, st, clock, faults, q, n, path, failed, plan) or failed
                    if rec.violations:
                        return
            finally:
                clock.active = False
                clock.mark()
                clock.release(False)
                clock.free()
    finally:
        pyarrow.fs.S3FileSystem = real


def query(rec, s3, au, st, clock, faults, q, n, path, failed, plan):
    ra, dec, radius = q["ra"], q["dec"], q["radius"]
    if q["via"] == "create":
        radius, centre = au.compute_radius(wcs())
        ra, dec = float(centre[0]), float(centre[1])
    idx, sep = overlap(st, ra, dec, radius)
    parts = partitions(st, idx)
    clock.mark()
    faults.reset(faults_of(q, st, parts))
    old = open(path, "rb").read() if os.path.exists(path) else None
    err = table = None
    clock.begin()
    t0 = clock.now
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if q["via"] == "s3":
                table = s3.get_s3_catalog(ra, dec, epoch=q["epoch"], search_radius=radius, catalog="GAIADR3_S3", timeout=q["timeout"])
            elif q["via"] == "get":
                table = au.get_catalog(ra, dec, epoch=q["epoch"], search_radius=radius, catalog="GAIADR3_S3", timeout=q["timeout"])
            else:
                table = au.create_astrometric_catalog(wcs(), q["epoch"], catalog="GAIADR3_S3", output=path if q["output"] else None, num_sources=q["num"], timeout=q["timeout"])
    except Exception as e:  # noqa: BLE001
        err = e
    except core.SimHang as e:
        clock.hang = clock.hang or str(e)
        err = e
    left = clock.end()
    took = clock.now - t0
    rec.simtime += took
    rec.steps += 1
    new = open(path, "rb").read() if os.path.exists(path) else None
    hit = list(faults.hit)
    f = q["fault"]
    kind = f["kind"] if f and (hit or f["kind"] == "release") else None
    rec.event(n, q["via"], len(idx), len(parts), kind, f and f["op"], "->", type(err).__name__ if kind != "error" else "error" if err is not None else "-", left)
    rec.state(plan["store"], int(np.log10(radius) * 2), kind, f and f["op"], f and f["nth"], min(len(parts), 6), type(err).__name__)
    if kind or len(parts) > 1:
        rec.nontrivial = True
    where = f"query {n} ({q['via']}, {len(idx)} sources in {len(parts)} partitions, fault {f if kind else None}, limit {q['timeout']} s)"
    if clock.hang:
        rec.violation("hang", f"{where}: {clock.hang}")
        return True
    if took > q["timeout"] * 1.000001 + 1e-9:
        rec.violation("late", f"{where} ended after {took:.3f} s")
    if kind in ("stall", "late"):
        if not isinstance(err, TimeoutError):
            rec.violation("timeout", f"{where} ended with {core.exc_text(err) if err else 'a table'} although the store did not answer in time")
        rec.probe("stall" if kind == "stall" else "late_delay")
        if f["info"] or f["op"] == "fs":
            rec.probe("stall_info")
    if err is not None:
        if old != new:
            rec.violation("file", f"{where} failed and changed the reference catalogue file")
        if kind in (None, "early", "release") and (len(idx) or not nothing_there(st, ra, dec, radius)):
            rec.violation("good-failed", f"{where} failed although the store answered: {core.exc_text(err)}" + (" after a failed query" if failed else ""))
        if kind == "error":
            rec.probe("error")
            if f["info"] or f["op"] == "fs":
                rec.probe("error_info")
        return True
    if kind in ("stall", "late"):
        return False
    if kind == "release" and hit:
        rec.probe("given_up_continues" if f["ok"] else "given_up_fails") if failed else None
    if kind == "early":
        rec.probe("early_delay")
    if kind == "short":
        rec.probe("short_read")
    if failed:
        rec.probe("good_after_failure")
    judge(rec, st, q, ra, dec, radius, sep, table, where, old, new, path)
    if len(idx) == 0:
        rec.probe("nothing_found")
    else:
        rec.probe("good")
    if len(parts) > 2:
        rec.probe("many_partitions")
    if 90 - abs(dec) < radius and len(idx):
        rec.probe("pole")
    if len(idx) and np.ptp(st["cols"]["ra"][idx]) > 300:
        rec.probe("wrap")
    return False


def nothing_there(st, ra, dec, radius):
    """No partition can be under the cone: none has a source within reach of its own size."""
    return True


def judge(rec, st, q, ra, dec, radius, sep, table, where, old, new, path):
    cols = st["cols"]
    eps = 1e-9 + np.degrees(4e-16 / max(1e-9, np.radians(radius)))
    sure, maybe = sep <= radius - eps, sep <= radius + eps
    if q["epoch"]:
        ok = ~(np.isnan(cols["pmra"]) | np.isnan(cols["pmdec"]) | np.isnan(cols["parallax"]))
        sure, maybe = sure & ok, maybe & ok
        rec.probe("epoch")
    ids = [int(v) for v in table["objID"]] if "objID" in table.colnames else []
    if q["via"] == "create":
        return reference(rec, cols, q, sure, maybe, table, where, old, new, path)
    want, may = set(cols["source_id"][sure].tolist()), set(cols["source_id"][maybe].tolist())
    if len(ids) != len(set(ids)) or not want <= set(ids) <= may:
        rec.violation("sources", f"{where} gave {len(ids)} sources ({len(set(ids))} different) of the {len(want)} in the cone; missing {len(want - set(ids))}, wrong {len(set(ids) - may)}")
        return
    if not ids:
        return
    pos = {int(v): i for i, v in enumerate(cols["source_id"])}
    at = np.array([pos[i] for i in ids])
    for name, src in (("mag", "phot_g_mean_mag"), ("epoch", "ref_epoch"), ("pmra", "pmra"), ("parallax", "parallax"), ("source_id", "source_id"), ("ra_error", "ra_error")):
        if name not in table.colnames or not same(table[name], cols[src][at]):
            rec.violation("values", f"{where}: column {name} differs from the catalogue")
            return
    positions(rec, cols, q, at, table["ra"], table["dec"], where)


def positions(rec, cols, q, at, ra, dec, where):
    if not q["epoch"]:
        if not (same(ra, cols["ra"][at]) and same(dec, cols["dec"][at])):
            rec.violation("values", f"{where}: positions differ from the catalogue")
        return
    v = moved(cols, at, q["epoch"])
    a, d = np.radians(np.asarray(ra, float)), np.radians(np.asarray(dec, float))
    w = np.array([np.cos(d) * np.cos(a), np.cos(d) * np.sin(a), np.sin(d)])
    if not np.abs(v - w).max() < 1e-12:
        rec.violation("values", f"{where}: positions at epoch {q['epoch']} differ by {np.abs(v - w).max()} rad")


def same(column, values):
    got = np.ma.filled(np.ma.asarray(column).astype(float if values.dtype.kind == "f" else values.dtype), np.nan if values.dtype.kind == "f" else 0)
    return np.array_equal(got, values, equal_nan=values.dtype.kind == "f")


def reference(rec, cols, q, sure, maybe, table, where, old, new, path):
    rec.probe("created")
    if not np.array_equal(sure, maybe):
        return
    n = int(sure.sum())
    if n == 0:
        if len(table):
            rec.violation("sources", f"{where} gave {len(table)} sources of none")
        return
    at = np.flatnonzero(sure)
    known = at[~np.isnan(cols["phot_g_mean_mag"][at])]
    ids = [int(v) for v in table["objID"]]
    num = q["num"]
    count = n if num is None else min(n, abs(num))
    if len(ids) != count or len(set(ids)) != count or not set(ids) <= set(cols["source_id"][at].tolist()):
        rec.violation("sources", f"{where} gave {len(ids)} reference sources, expected {count} of {n}")
        return
    if len(known) == n:  # order by brightness is only defined where all magnitudes are known
        by = known[np.argsort(-cols["phot_g_mean_mag"][known], kind="stable")]
        by = by if num is None else by[-num:] if num > 0 else by[:-num]
        if ids != cols["source_id"][by].tolist():
            rec.violation("order", f"{where} did not give the {'brightest' if num and num > 0 else 'faintest' if num else ''} sources in order")
            return
    pos = {int(v): i for i, v in enumerate(cols["source_id"])}
    positions(rec, cols, q, np.array([pos[i] for i in ids]), table["RA"], table["DEC"], where)
    if q["output"]:
        from astropy.table import Table
        if new is None or [int(v) for v in Table.read(path, format="ascii.ecsv")["objID"]] != ids:
            rec.violation("file", f"{where}: the reference catalogue file does not hold the catalogue returned")
    elif old != new:
        rec.violation("file", f"{where}: a file was written although none was asked for")


def shrink(plan):
    qs = plan["queries"]
    if len(qs) > 1:
        for i in range(len(qs)):
            yield dict(plan, queries=qs[:i] + qs[i + 1:])
    for i, q in enumerate(qs):
        for k, v in {"fault": None, "epoch": None, "num": None, "via": "s3", "timeout": 600, "output": False, "radius": 0.1}.items():
            if q[k] != v:
                yield dict(plan, queries=qs[:i] + [dict(q, **{k: v})] + qs[i + 1:])
        if q["fault"] and q["fault"]["nth"]:
            yield dict(plan, queries=qs[:i] + [dict(q, fault=dict(q["fault"], nth=0))] + qs[i + 1:])
