"""Seeded exposures for jump detection (shared by several checks)."""
import numpy as np

FL = {"GOOD": 0, "DO_NOT_USE": 1, "SATURATED": 2, "JUMP_DET": 4, "NO_GAIN_VALUE": 8, "REFERENCE_PIXEL": 2147483648}


def gen_plan(rng, big=False, after=None):
    shape_kind = rng.weighted([("tiny", 2), ("mid", 5), ("tall", 2)])
    nints = rng.weighted([(1, 5), (2, 3), (3, 1)])
    ngroups = rng.weighted([(rng.randrange(1, 5), 2), (rng.randrange(5, 9), 4), (rng.randrange(9, 15), 2)])
    if big:
        nrows, ncols = rng.randrange(24, 41), rng.randrange(24, 41)
        ngroups = rng.randrange(3, 8)
        nints = rng.pick([1, 1, 2])
    elif shape_kind == "tiny":
        nrows, ncols = rng.randrange(1, 4), rng.randrange(1, 4)
    elif shape_kind == "tall":
        nrows, ncols = rng.randrange(12, 31), rng.randrange(1, 4)
    else:
        nrows, ncols = rng.randrange(4, 14), rng.randrange(2, 9)
    p = {
        "seed": rng.randrange(1 << 30), "dims": [nints, ngroups, nrows, ncols],
        "gain": rng.pick([1.0, 1.0, 3.5, 4.0]), "badgain": rng.pick([0, 0, 1, 3]),
        "rnoise": rng.pick([10.0, 10.0, 3.0, 0.0]), "rate": rng.pick([0.0, 5.0, 50.0]),
        "nframes": rng.pick([1, 1, 2, 4]), "frame_time": 10.6,
        "njumps": rng.randrange(0, 3 + nrows * ncols * nints // 6), "amp": rng.pick([100.0, 400.0, 3000.0, 1e5]),
        "nsat": rng.randrange(0, 1 + nrows * ncols // 4), "ndnu": rng.randrange(0, 1 + nrows * ncols // 4),
        "dnu_groups": rng.pick([[], [], [], [0], [-1], [0, -1]]),
        "extra_bits": rng.pick([0, 0, 0, 16, 32]),
        "rej": rng.pick([4.0, 5.0, 3.0]), "three": rng.pick([5.0, 6.0]), "four": rng.pick([5.0, 6.0]),
        "nbr": rng.chance(0.7), "maxn": rng.pick([200.0, 1000.0, 1e5]), "minn": rng.pick([0.1, 5.0, 10.0]),
        "after": after if after is not None else rng.weighted(
            [([0.0, 0, 0.0, 0], 3), ([rng.pick([5.0, 50.0, 500.0]), rng.randrange(0, 4),
                                      rng.pick([100.0, 2000.0]), rng.randrange(0, 6)], 3)]),
        "mingroups": rng.pick([3, 3, 3, 1, 2, 5, 8]), "minsig": rng.pick([100, 100, 10, 4]),
        "useints": rng.chance(0.4), "single": rng.pick([10, 5, 3, 8]),
        "read_pattern": rng.pick([None, None, None, "even", "uneven"]),
        "dtype": "float32", "pers_pixels": rng.chance(0.3),
        "vary": rng.chance(0.5), "quiet": rng.pick([0, 0, 2, 5]), "nan": rng.pick([0, 0, 0, 2]),
        "burst": rng.weighted([(None, 5), ([rng.pick([0.5, 0.9, 1.0]), rng.randrange(1, 8)], 2)]),
    }
    if not big and rng.chance(0.2):
        # sigma clipping needs many differences before anything can be clipped
        p["useints"] = rng.chance(0.4)
        if p["useints"]:
            nints, ngroups = rng.randrange(14, 24), rng.randrange(3, 6)
        else:
            nints, ngroups = rng.randrange(1, 3), rng.randrange(14, 30)
        nrows, ncols = rng.randrange(2, 9), rng.weighted([(rng.randrange(2, 5), 3), (rng.randrange(5, 20), 1)])
        p.update(dims=[nints, ngroups, nrows, ncols], minsig=rng.pick([4, 10]), rej=rng.pick([2.5, 3.0, 3.5]),
                 read_pattern=rng.pick([None, "even"]), dnu_groups=[], njumps=rng.randrange(2, 4 + nrows * ncols))
    if ncols == 1 and p["minsig"] < 100:
        p["minsig"] = 100
    # sigma clipping treats a group flagged in every pixel of its input specially: keep one column free of events
    p["quiet_col"] = p["minsig"] < 100
    if big:
        if rng.chance(0.5):
            p["dims"][:2] = [rng.pick([2, 3]), rng.randrange(6, 9)]
        p["snowball"] = [True, rng.pick([3, 6, 10]), rng.pick([1, 3]), rng.pick([1.5, 2.0]), rng.chance(0.5),
                         rng.pick([0.5, 2.5]), rng.pick([1, 2]), rng.pick([0, 5])] if rng.chance(0.6) else None
        p["shower"] = [True, rng.pick([1.3, 2.0]), rng.pick([5, 10]), 1, rng.pick([2, 3]), rng.pick([1.1, 1.5]),
                       10, 200] if rng.chance(0.5) else None
        p["blobs"] = rng.randrange(1, 5)
    return p


def build(p):
    """plan -> JumpData (imports stcal)."""
    from stcal.jump.jump_class import JumpData

    class Obj:
        pass

    g = np.random.default_rng(p["seed"])
    nints, ngroups, nrows, ncols = p["dims"]
    gain = np.full((nrows, ncols), p["gain"], dtype=np.float32)
    rn = np.full((nrows, ncols), p["rnoise"], dtype=np.float32)
    t = np.arange(ngroups, dtype=np.float64)
    data = np.zeros((nints, ngroups, nrows, ncols))
    data += (p["rate"] * t)[None, :, None, None]
    data += g.normal(0, max(p["rnoise"], 0.5) / 3, data.shape)
    # edges between possible slices get more than their share of events
    for _ in range(p["njumps"]):
        i, k = int(g.integers(nints)), int(g.integers(ngroups))
        r = int(g.integers(nrows))
        c = int(g.integers(ncols))
        amp = p["amp"] * float(g.uniform(0.3, 3)) * (-1 if g.random() < 0.05 else 1)
        data[i, k:, r, c] += amp
        if g.random() < 0.3:  # a second event, next group, neighbouring row
            r2, k2 = min(nrows - 1, r + 1), min(ngroups - 1, k + int(g.integers(2)))
            data[i, k2:, r2, c] += amp * float(g.uniform(0.05, 1))
    if p.get("burst"):
        # most pixels of some rows jump in the same group
        b = np.random.default_rng(p["seed"] + 2)
        r, k = int(b.integers(nrows)), int(b.integers(ngroups))
        sel = b.random((nints, min(p["burst"][1], nrows - r), ncols)) < p["burst"][0]
        data[:, k:, r:r + sel.shape[1]] += (p["amp"] * sel)[:, None]
    if p.get("alljump"):
        group, rows = p["alljump"]
        data[:, group:, :rows] += 5000.0
    gdq = np.zeros((nints, ngroups, nrows, ncols), dtype=np.uint8)
    for _ in range(p["nsat"]):
        i, k = int(g.integers(nints)), int(g.integers(ngroups))
        gdq[i, k:, int(g.integers(nrows)), int(g.integers(ncols))] |= FL["SATURATED"]
    for _ in range(p["ndnu"]):
        gdq[int(g.integers(nints)), int(g.integers(ngroups)), int(g.integers(nrows)), int(g.integers(ncols))] |= 1
    if ngroups > 2:
        for k in p["dnu_groups"]:
            gdq[:, k] |= 1
    if p["pers_pixels"] and p["extra_bits"]:
        m = g.random(gdq.shape) < 0.1
        gdq[m] |= np.uint8(p["extra_bits"])
    for b in range(p.get("blobs", 0)):
        i, k = int(g.integers(nints)), int(g.integers(1, max(2, ngroups)))
        r, c, rad = int(g.integers(nrows)), int(g.integers(ncols)), float(g.uniform(2, 5))
        yy, xx = np.mgrid[:nrows, :ncols]
        m = (yy - r) ** 2 + (xx - c) ** 2 <= rad ** 2
        data[i, k:, m] += np.float64(p["amp"]) * (0.02 if g.random() < 0.4 else 1)
        core_ = (yy - r) ** 2 + (xx - c) ** 2 <= (rad / 2) ** 2
        if g.random() < 0.7:
            gdq[i, k:, core_] |= FL["SATURATED"]
    if p["quiet_col"] and ncols > 1:
        gain[:, -1] = p["gain"]
        data[..., -1] = (50.0 * t)[None, :, None]
        gdq[..., -1] = 0
        if ngroups > 2:
            for k in p["dnu_groups"]:
                gdq[:, k, :, -1] |= 1
    h = np.random.default_rng(p["seed"] + 1)
    if p.get("vary"):
        # rows differ in noise and gain
        rn *= np.geomspace(0.2, 5, nrows)[h.permutation(nrows)][:, None].astype(np.float32)
        gain *= h.uniform(0.7, 1.4, gain.shape).astype(np.float32)
    for _ in range(p.get("quiet", 0)):
        # a pixel without read noise or signal that jumps once or never
        r, c = int(h.integers(nrows)), int(h.integers(ncols))
        rn[r, c] = 0.0
        data[:, :, r, c] = 0.0
        data[:, int(h.integers(ngroups)):, r, c] += [0.0, 30.0, 100.0, 500.0][int(h.integers(4))]
    for _ in range(p.get("nan", 0)):
        i, r = int(h.integers(nints)), int(h.integers(nrows))
        data[i, int(h.integers(ngroups)), r, int(h.integers(ncols))] = np.nan
        if h.random() < 0.3:
            rn[r, int(h.integers(ncols))] = np.nan
    pdq = np.zeros((nrows, ncols), dtype=np.uint32)
    for _ in range(p["badgain"]):
        gain[int(g.integers(nrows)), int(g.integers(ncols))] = [np.nan, -1.0, 0.0][int(g.integers(3))]
    jd = JumpData()
    jd.init_arrays_from_arrays(data.astype(p["dtype"]), gdq, pdq)
    jd.nframes = p["nframes"]
    jd.gain_2d, jd.rnoise_2d = gain, rn
    jd.fl_good, jd.fl_sat, jd.fl_jump = FL["GOOD"], FL["SATURATED"], FL["JUMP_DET"]
    jd.fl_ngv, jd.fl_dnu, jd.fl_ref = FL["NO_GAIN_VALUE"], FL["DO_NOT_USE"], FL["REFERENCE_PIXEL"]
    if p["read_pattern"] and ngroups > 1:
        if p["read_pattern"] == "even":
            rp = [[2 * k + 1, 2 * k + 2] for k in range(ngroups)]
        else:
            rp, n = [], 1
            for k in range(ngroups):
                w = 1 + int(g.integers(4))
                rp.append(list(range(n, n + w)))
                n += w
        tg = np.array([np.mean(x) for x in rp])
        jd.dt_group = np.diff(tg)
        nr = np.array([len(x) for x in rp])
        jd.n_reads_groupdiff = nr[1:] + nr[:-1]
    else:
        jd.dt_group = np.ones(1)
        jd.n_reads_groupdiff = np.ones(1) * 2 * p["nframes"]
    jd.set_detection_settings(p["rej"], p["three"], p["four"], p["maxn"], p["minn"], p["nbr"])
    jd.set_after_jump(*p["after"])
    if p.get("snowball"):
        jd.set_snowball_info(*p["snowball"])
    if p.get("shower"):
        jd.set_shower_info(*p["shower"])
    jd.set_sigma_clipping_info(p["mingroups"], p["minsig"], p["useints"])
    if not p.get("shower"):
        jd.min_diffs_single_pass = p["single"]
    return jd


def alljump_plan(rng):
    """Sigma clipping with one group that jumps in every pixel of the first slice, but not of the exposure."""
    nrows = rng.randrange(6, 11)
    return {"seed": rng.randrange(1 << 30), "dims": [1, rng.randrange(24, 30), nrows, rng.randrange(1, 4)], "gain": 1.0,
            "badgain": 0, "rnoise": 10.0, "rate": 5.0, "nframes": 1, "frame_time": 10.6, "njumps": 0, "amp": 100.0, "nsat": 0,
            "ndnu": 0, "dnu_groups": [], "extra_bits": 0, "rej": 4.0, "three": 5.0, "four": 5.0, "nbr": False,
            "maxn": 200.0, "minn": 10.0, "after": [0.0, 0, 0.0, 0], "mingroups": 3, "minsig": 10, "useints": False,
            "single": 10, "read_pattern": None, "dtype": "float32", "pers_pixels": False, "quiet_col": False,
            "alljump": [rng.randrange(5, 20), nrows // 2 + 1]}


def shrink(p):
    """Simpler exposures."""
    def with_(**kw):
        q = dict(p)
        q.update(kw)
        return q
    nints, ngroups, nrows, ncols = p["dims"]
    for d in ([1, ngroups, nrows, ncols], [nints, max(3, ngroups // 2), nrows, ncols], [nints, ngroups, nrows, max(1, ncols // 2)],
              [nints, ngroups, max(2, nrows // 2), ncols], [nints, ngroups, max(2, nrows - 1), ncols],
              [nints, ngroups, nrows, max(1, ncols - 1)], [nints, max(3, ngroups - 1), nrows, ncols]):
        if d != p["dims"]:
            yield with_(dims=d)
    for k, v in (("shower", None), ("snowball", None), ("after", [0.0, 0, 0.0, 0]), ("nsat", 0), ("ndnu", 0),
                 ("badgain", 0), ("dnu_groups", []), ("extra_bits", 0), ("read_pattern", None), ("nbr", False),
                 ("njumps", p["njumps"] // 2), ("njumps", max(0, p["njumps"] - 1)), ("nsat", p["nsat"] // 2),
                 ("ndnu", p["ndnu"] // 2), ("burst", None), ("blobs", 0), ("rate", 0.0), ("useints", False), ("minsig", 100)):
        if k in p and p[k] != v:
            yield with_(**{k: v})
