"""Seeded exposures for ramp fitting (shared by several checks)."""
import numpy as np

DQ = {"GOOD": 0, "DO_NOT_USE": 1, "SATURATED": 2, "JUMP_DET": 4, "PERSISTENCE": 32, "CHARGELOSS": 128,
      "NO_GAIN_VALUE": 2 ** 19, "UNRELIABLE_SLOPE": 2 ** 24}


def gen_plan(rng, small=False):
    nints = rng.weighted([(1, 5), (2, 3), (3, 1), (4, 1)])
    ngroups = rng.weighted([(1, 1), (2, 1), (rng.randrange(3, 7), 3), (rng.randrange(6, 13), 3), (rng.randrange(12, 30), 1)])
    if small:
        nrows, ncols = rng.randrange(1, 4), rng.randrange(1, 4)
    else:
        nrows, ncols = rng.weighted([(rng.randrange(1, 4), 2), (rng.randrange(3, 12), 5), (rng.randrange(12, 34), 2)]), rng.randrange(1, 7)
    npix = nrows * ncols * nints
    return {
        "seed": rng.randrange(1 << 30), "dims": [nints, ngroups, nrows, ncols],
        "rate": rng.pick([0.0, 1.0, 20.0, 300.0, -3.0]), "noise": rng.pick([0.0, 1.0, 5.0]),
        "rnoise": rng.pick([0.0, 5.0, 10.0, 40.0]), "gain": rng.pick([1.0, 1.6, 4.0]),
        "vary": rng.chance(0.7), "badgain": rng.pick([0, 0, 1, 3]), "badrn": rng.pick([0, 0, 0, 1]),
        "nframes": rng.pick([1, 1, 2, 4, 8]), "groupgap": rng.pick([0, 0, 1, 3]),
        "frame_time": rng.pick([1.0, 2.775, 10.737]), "drop": rng.pick([0, 0, None, 1, 3]),
        "name": rng.pick(["MIRI", "NIRSpec", "NIRCAM", "NIRISS", "WFI"]),
        "njumps": rng.randrange(0, 2 + npix), "multi_jump": rng.chance(0.5),
        "nsat": rng.randrange(0, 2 + npix // 2), "satrows": rng.weighted([([], 6), ([rng.randrange(nrows)], 2), (list(range(nrows // 2)), 1),
                                                                         (list(range(nrows // 2, nrows)), 1), (list(range(nrows)), 0.4)]),
        "dnurows": rng.weighted([([], 6), ([rng.randrange(nrows)], 1), (list(range(nrows // 2)), 1)]),
        "ndnu": rng.randrange(0, 2 + npix // 3), "dnu_groups": rng.pick([[], [], [], [0], [-1], [0, -1], [0, 1], list(range(12))]),
        "nonlin": rng.chance(0.2), "pers": rng.pick([0, 0, 3]), "chargeloss": rng.pick([0, 0, 2, 6]),
        "zeroframe": rng.chance(0.3), "dark": rng.pick([None, None, "zero", "random", "random"]),
        "pdq": rng.pick([0, 2, 5]), "pdqbits": rng.pick([1, 1 << 19, 4, (1 << 19) | 1, 1 << 24]),
        "onegood": rng.pick([0, 0, 3, 8]), "suppress": rng.chance(0.4), "save_opt": rng.chance(0.6),
        "endian": rng.weighted([("", 8), ("rn", 1), ("all", 1)]), "nan": rng.pick([0, 0, 0, 2]), "via": rng.weighted([("class", 3), ("model", 1)]),
        "jumpbias": rng.chance(0.4), "pattern": rng.weighted([(None, 4), ("even", 1), ("uneven", 1)]),
    }


class _Obj:
    pass


class Model:
    """The attributes of a ramp data model that ramp fitting reads."""

    def hasattr(self, name):
        return hasattr(self, name)


def arrays(p):
    g = np.random.default_rng(p["seed"])
    nints, ngroups, nrows, ncols = p["dims"]
    data = np.zeros((nints, ngroups, nrows, ncols))
    rate = p["rate"] * (g.uniform(0.2, 2, (nrows, ncols)) if p["vary"] else np.ones((nrows, ncols)))
    dt = (p["nframes"] + p["groupgap"]) * p["frame_time"]
    data += 100.0 + rate * dt * (np.arange(ngroups)[None, :, None, None] + 1)
    if p["noise"]:
        data += g.normal(0, p["noise"], data.shape)
    gdq = np.zeros(data.shape, dtype=np.uint8)

    def pix():
        # the rows of the lower half get most events, so that slices differ
        r = int(g.integers(nrows))
        if p["jumpbias"] and g.random() < 0.8:
            r = r // 2
        return int(g.integers(nints)), r, int(g.integers(ncols))

    for _ in range(p["njumps"]):
        i, r, c = pix()
        for _ in range(1 + (int(g.integers(5)) if p["multi_jump"] else 0)):
            k = int(g.integers(ngroups))
            gdq[i, k, r, c] |= 4
            data[i, k:, r, c] += g.uniform(50, 5000)
    for _ in range(p["ndnu"]):
        i, r, c = pix()
        gdq[i, int(g.integers(ngroups)), r, c] |= 1
    for _ in range(p["pers"]):
        i, r, c = pix()
        gdq[i, int(g.integers(ngroups)), r, c] |= 32
    for _ in range(p["chargeloss"]):
        i, r, c = pix()
        k = int(g.integers(ngroups))
        gdq[i, k:, r, c] |= 128 | 1
    for _ in range(p["nsat"]):
        i, r, c = pix()
        gdq[i, int(g.integers(ngroups)):, r, c] |= 2
    for _ in range(p["onegood"]):
        i, r, c = pix()
        gdq[i, 1:, r, c] |= 2
    for r in p["satrows"]:
        if r < nrows:
            gdq[:, :, r] |= 2
    for r in p["dnurows"]:
        if r < nrows:
            gdq[:, :, r] |= 1
    for k in p["dnu_groups"]:
        if k < ngroups and ngroups > 1:
            gdq[:, k] |= 1
    for _ in range(p["nan"]):
        i, r, c = pix()
        data[i, int(g.integers(ngroups)), r, c] = np.nan
    gain = np.full((nrows, ncols), p["gain"]) * (g.uniform(0.8, 1.2, (nrows, ncols)) if p["vary"] else 1.0)
    rn = np.full((nrows, ncols), p["rnoise"]) * (g.uniform(0.8, 1.2, (nrows, ncols)) if p["vary"] else 1.0)
    for _ in range(p["badgain"]):
        gain[int(g.integers(nrows)), int(g.integers(ncols))] = [np.nan, -1.0, 0.0][int(g.integers(3))]
    for _ in range(p["badrn"]):
        rn[int(g.integers(nrows)), int(g.integers(ncols))] = np.nan
    for _ in range(p.get("events", 0)):
        i, k, r, c = (int(g.integers(n)) for n in p["dims"])
        yy, xx = np.mgrid[:nrows, :ncols]
        d2 = (yy - r) ** 2 + (xx - c) ** 2
        data[i, k:, d2 <= 16] += 3000.0
        gdq[i, k:, d2 <= 3] |= 2
    pdq = np.zeros((nrows, ncols), dtype=np.uint32)
    for _ in range(p["pdq"]):
        pdq[int(g.integers(nrows)), int(g.integers(ncols))] |= np.uint32(p["pdqbits"])
    zf = None
    if p["zeroframe"]:
        zf = (100.0 + rate * p["frame_time"] + g.normal(0, 1, (nints, nrows, ncols))).astype(np.float32)
        zf[g.random(zf.shape) < 0.3] = 0.0
    dark = np.zeros((nrows, ncols), dtype=np.float32)
    if p["dark"] == "random":
        dark = g.uniform(0, 5, (nrows, ncols)).astype(np.float32)
    f4 = ">f4" if p["endian"] == "all" else "f4"
    return (data.astype(f4), gdq, pdq.astype(">u4" if p["endian"] == "all" else "u4"), dark.astype(f4), zf,
            rn.astype(">f4" if p["endian"] else "f4"), gain.astype(">f4" if p["endian"] else "f4"))


def pattern(p):
    """The times of the reads of every group."""
    out, k = [], 0
    for i in range(p["dims"][1]):
        n = 1 + (p["seed"] + 3 * i) % 4 if p["pattern"] == "uneven" else p["nframes"]
        out.append([(k + j + 1) * p["frame_time"] for j in range(n)])
        k += n + p["groupgap"]
    return out


def call(p, cores, algorithm="OLS_C", make=None, keep=lambda key, build: build()):
    """Run ramp fitting for a plan; returns the three products."""
    from stcal.ramp_fitting import ramp_fit as rf
    from stcal.ramp_fitting.ramp_fit_class import RampData
    data, gdq, pdq, dark, zf, rn, gain = (make or arrays)(p)
    group_time = (p["nframes"] + p["groupgap"]) * p["frame_time"]
    reads = None
    if p.get("pattern"):
        reads = keep(("reads", str(pattern(p))), lambda: pattern(p))
    if p["via"] == "model":
        m = Model()
        m.data, m.groupdq, m.pixeldq = data, gdq, pdq
        if p["dark"]:
            m.average_dark_current = dark
        if zf is not None:
            m.zeroframe = zf
        m.meta = _Obj()
        m.meta.exposure, m.meta.instrument = _Obj(), _Obj()
        m.meta.instrument.name = p["name"]
        e = m.meta.exposure
        e.frame_time, e.group_time, e.groupgap, e.nframes = p["frame_time"], group_time, p["groupgap"], p["nframes"]
        if p["drop"] is not None:
            e.drop_frames1 = p["drop"]
        if reads is not None:
            e.read_times = reads
        return rf.ramp_fit(m, p["save_opt"], rn, gain, algorithm, "optimal", cores, DQ, p["suppress"])
    rd = RampData()
    orig = gdq.copy() if p["chargeloss"] else None
    rd.set_arrays(data, gdq, pdq, dark, orig_gdq=orig, zeroframe=zf)
    rd.set_meta(name=p["name"], frame_time=p["frame_time"], group_time=group_time, groupgap=p["groupgap"],
                nframes=p["nframes"], drop_frames1=p["drop"])
    rd.algorithm = algorithm
    rd.set_dqflags(DQ)
    rd.start_row, rd.num_rows = 0, data.shape[2]
    rd.read_pattern = reads
    rd.suppress_one_group_ramps = p["suppress"] and data.shape[1] > 1
    if p.get("events") and algorithm == "LIKELY":
        from stcal.jump.jump_class import JumpData
        from stcal.ramp_fitting.likely_fit import likely_ramp_fit
        jd = JumpData(dqflags=dict(DQ, REFERENCE_PIXEL=1 << 31))
        jd.set_snowball_info(True, 3, 1, 1.5 + p["events"] % 2, bool(p["events"] & 2), 2.5, 1, p["seed"] % 4)
        return likely_ramp_fit(rd, rn, gain, jump_data=jd)
    return rf.ramp_fit_data(rd, p["save_opt"], rn, gain, algorithm, "optimal", cores)


def shrink(p):
    def with_(**kw):
        q = dict(p)
        q.update(kw)
        return q
    nints, ngroups, nrows, ncols = p["dims"]
    for d in ([1, ngroups, nrows, ncols], [nints, max(1, ngroups // 2), nrows, ncols], [nints, ngroups, max(2, nrows // 2), ncols],
              [nints, ngroups, nrows, 1], [nints, ngroups, max(2, nrows - 1), ncols], [nints, max(1, ngroups - 1), nrows, ncols]):
        if d != p["dims"]:
            yield with_(dims=d)
    for k, v in (("zeroframe", False), ("chargeloss", 0), ("nsat", 0), ("ndnu", 0), ("njumps", 0), ("njumps", p["njumps"] // 2),
                 ("satrows", []), ("dnurows", []), ("dnu_groups", []), ("pdq", 0), ("pers", 0), ("onegood", 0), ("suppress", False),
                 ("save_opt", False), ("endian", ""), ("nan", 0), ("badgain", 0), ("badrn", 0), ("dark", None), ("vary", False),
                 ("noise", 0.0), ("drop", 0), ("nframes", 1), ("groupgap", 0), ("via", "class"), ("name", "NIRCAM"), ("rate", 1.0), ("pattern", None), ("events", 0)):
        if k in p and p[k] != v:
            yield with_(**{k: v})
