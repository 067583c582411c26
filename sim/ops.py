"""Small calibration calls on generated inputs, for checks about sessions and threads.

Each operation has gen(rng) -> parameters and call(parameters, refs) -> outcome.  What a pipeline reads once and uses for many
exposures (gain, read noise, coefficients, thresholds, dark, WCS objects) comes from refs(key, build).
"""
import tempfile
import warnings

import numpy as np

from sim import core, jumpgen, rampgen

DQ = {"GOOD": 0, "DO_NOT_USE": 1, "SATURATED": 2, "JUMP_DET": 4, "AD_FLOOR": 64, "CHARGELOSS": 128, "NO_GAIN_VALUE": 1 << 19, "NO_LIN_CORR": 1 << 20,
      "NO_SAT_CHECK": 1 << 21, "UNRELIABLE_SLOPE": 1 << 24, "REFERENCE_PIXEL": 1 << 31}


class Refs:
    """Reference inputs of one session."""

    def __init__(self):
        self.made = {}

    def __call__(self, key, build):
        if key not in self.made:
            self.made[key] = build()
        return self.made[key]


def rnd(*seed):
    return np.random.default_rng([int(s) for s in seed])


def cube(p, jumps=True):
    """A small up-the-ramp exposure with its group flags."""
    g = rnd(1, p["seed"])
    ni, ng, ny, nx = p["dims"]
    t = np.arange(1, ng + 1, dtype=float)
    data = 50 + g.uniform(5, 400, (1, 1, ny, nx)) * t[None, :, None, None] + g.normal(0, 5, (ni, ng, ny, nx))
    gdq = np.zeros(data.shape, np.uint8)
    for _ in range(p["events"]):
        i, k, r, c = (int(g.integers(n)) for n in data.shape)
        data[i, k:, r, c] += g.uniform(100, 60000)
        if g.random() < 0.4:
            gdq[i, k:, r, c] |= DQ["SATURATED"]
        if g.random() < 0.2:
            data[i, k, r, c] = -3.0
    pdq = np.zeros((ny, nx), np.uint32)
    if p["events"]:
        pdq[int(g.integers(ny)), int(g.integers(nx))] |= DQ["DO_NOT_USE"]
    return data.astype(np.float32), gdq, pdq


def gen_cube(rng, lo=2):
    return {"seed": rng.randrange(1000), "ref": rng.randrange(3), "events": rng.choice([0, 3, 10]),
            "dims": [rng.randrange(1, 3), rng.randrange(lo, 8), rng.choice([3, 5, 8]), rng.choice([4, 6])]}


# ------------------------------------------------------------------ up the ramp

def gen_jump(rng):
    if rng.chance(0.15):
        return jumpgen.gen_plan(rng, big=True)
    p = jumpgen.gen_plan(rng)
    p["dims"] = [min(p["dims"][0], 2), min(p["dims"][1], 12), min(p["dims"][2], 12), min(p["dims"][3], 8)]
    return p


def call_jump(p, refs):
    from stcal.jump.jump import detect_jumps_data
    jd = jumpgen.build(p)
    jd.gain_2d, jd.rnoise_2d = refs(("jump", core.fingerprint([jd.gain_2d, jd.rnoise_2d])), lambda: (jd.gain_2d, jd.rnoise_2d))
    jd.max_cores = "none"
    gdq, pdq, n, t = detect_jumps_data(jd)
    return {"gdq": gdq, "pdq": pdq, "n": (n, t)}


def gen_ramp(rng):
    p = rampgen.gen_plan(rng, small=True)
    p["algo"] = rng.weighted([("OLS_C", 3), ("LIKELY", 1)])
    if p["algo"] == "LIKELY":
        p["dims"] = [p["dims"][0], max(4, p["dims"][1]), p["dims"][2], p["dims"][3]]
        p["nframes"] = rng.choice([1, 2, 4])
        if rng.chance(0.25):  # the fit looks for large events itself
            p.update(via="class", events=rng.randrange(1, 4), dims=[p["dims"][0], min(8, p["dims"][1]), rng.randrange(8, 15), rng.randrange(8, 15)])
    return p


class KeepRefs:
    """Let rampgen take the reference arrays of the session."""

    def __init__(self, refs):
        self.refs = refs

    def __call__(self, p):
        a = list(rampgen.arrays(p))
        for i in (5, 6):
            a[i] = self.refs(("ramp", i, core.fingerprint(a[i])), lambda i=i: a[i])
        return tuple(a)


def call_ramp(p, refs):
    r = rampgen.call(p, "none", p["algo"], make=KeepRefs(refs), keep=refs)
    return dict(zip(("image", "integ", "opt"), r[:3]))


def gen_cas(rng):
    n = rng.randrange(3, 12)
    return {"n": n, "npix": rng.randrange(1, 6), "seed": rng.randrange(1000), "jump": rng.chance(0.6), "unit": rng.chance(0.3), "ref": rng.randrange(3)}


def call_cas(p, refs):
    from astropy import units as u
    from stcal.ramp_fitting.ols_cas22_fit import fit_ramps_casertano
    g = rnd(2, p["seed"])
    res = np.cumsum(g.poisson(100, (p["n"], p["npix"])), axis=0).astype(np.float32)
    res[p["n"] // 2:, 0] += 3000
    dq = (g.random(res.shape) < 0.1).astype(np.int32)
    rn = refs(("casrn", p["npix"], p["ref"]), lambda: rnd(3, p["ref"]).uniform(3, 9, p["npix"]).astype(np.float32))
    pattern = refs(("pattern", p["n"]), lambda: [[2 * i + 1, 2 * i + 2] for i in range(p["n"])])
    r = fit_ramps_casertano(res * u.electron if p["unit"] else res, dq, rn, 3.04, pattern, use_jump=p["jump"])
    return {f: np.array(getattr(r, f)) for f in ("parameters", "variances", "dq")}


def gen_sat(rng):
    p = gen_cube(rng)
    p.update(grow=rng.randrange(3), zf=rng.chance(0.4), pattern=rng.chance(0.5), bias=rng.chance(0.5), four=rng.chance(0.2), limit=rng.choice([65535, 50000]))
    return p


def call_sat(p, refs):
    from stcal.saturation.saturation import flag_saturated_pixels
    data, gdq, pdq = cube(p)
    shape = tuple(p["dims"]) if p["four"] else tuple(p["dims"][2:])

    def thresholds():
        g = rnd(4, p["ref"])
        th = g.uniform(1000, 60000, shape).astype(np.float32)
        th[g.random(shape) < 0.1] = np.nan
        dq = np.zeros(shape, np.uint32)
        dq[g.random(shape) < 0.1] |= DQ["NO_SAT_CHECK"]
        return th, dq
    th, dq = refs(("sat", shape, p["ref"]), thresholds)
    zf = data[:, 0] * 0.5 if p["zf"] else None
    if p["four"]:
        pdq = np.zeros(shape, np.uint32)
    pattern = refs(("satpattern", p["dims"][1]), lambda: [[3 * i + 1, 3 * i + 2, 3 * i + 3] for i in range(p["dims"][1])]) if p["pattern"] else None
    bias = refs(("bias", shape, p["ref"]), lambda: rnd(5, p["ref"]).uniform(0, 50, shape).astype(np.float32)) if p["bias"] else None
    return flag_saturated_pixels(data, gdq, pdq, th, dq, p["limit"], DQ, n_pix_grow_sat=p["grow"], zframe=zf, read_pattern=pattern, bias=bias)


def gen_lin(rng):
    p = gen_cube(rng)
    p.update(zf=rng.chance(0.4), inverse=rng.chance(0.3))
    return p


def call_lin(p, refs):
    from stcal.linearity.linearity import linearity_correction
    data, gdq, pdq = cube(p)
    ny, nx = p["dims"][2:]

    def coeffs(inverse=False):
        g = rnd(6, p["ref"], inverse)
        c = np.zeros((4, ny, nx), np.float32)
        c[1] = 1 + g.normal(0, 0.01, (ny, nx))
        c[2] = g.normal(0, 1e-6, (ny, nx))
        c[:, g.random((ny, nx)) < 0.1] = np.nan
        c[:, g.random((ny, nx)) < 0.1] = 0
        dq = np.zeros((ny, nx), np.uint32)
        dq[g.random((ny, nx)) < 0.1] |= DQ["NO_LIN_CORR"]
        return c, dq
    c, dq = refs(("lin", ny, nx, p["ref"]), coeffs)
    zf = data[:, 0] * 0.5 if p["zf"] else None
    kw = {}
    if p["inverse"]:
        ic, _ = refs(("ilin", ny, nx, p["ref"]), lambda: coeffs(True))
        kw = {"ilin_coeffs": ic, "read_pattern": [[2 * i + 1, 2 * i + 2] for i in range(p["dims"][1])],
              "satval": refs(("satval", ny, nx), lambda: np.full((ny, nx), 50000.0, np.float32))}
    return linearity_correction(data, gdq, pdq, c, dq, DQ, zf, **kw)


def gen_dark(rng):
    p = gen_cube(rng)
    p.update(nframes=rng.choice([1, 1, 2, 4]), gap=rng.choice([0, 0, 1, 2]), dgroups=rng.choice([3, 8, 24]), dframes=rng.choice([1, 1, 1, 2]), four=rng.chance(0.3), intstart=rng.choice([1, 1, 2]),
             save=rng.chance(0.2))
    return p


def call_dark(p, refs):
    from stcal.dark_current.dark_class import DarkData, ScienceData
    from stcal.dark_current.dark_sub import do_correction_data
    data, gdq, pdq = cube(p)
    ny, nx = p["dims"][2:]

    def dark():
        d = DarkData()
        shape = (2, p["dgroups"], ny, nx) if p["four"] else (p["dgroups"], ny, nx)
        g = rnd(7, p["ref"])
        d.data = np.cumsum(g.uniform(0, 2, shape), axis=-3).astype(np.float32)
        d.data[g.random(shape) < 0.05] = np.nan
        d.groupdq = np.zeros((2, 1, ny, nx) if p["four"] else (ny, nx), np.uint32)
        d.groupdq[..., 0, 0] = DQ["DO_NOT_USE"]
        d.exp_nframes, d.exp_groupgap, d.exp_ngroups = p["dframes"], 0, p["dgroups"]
        return d
    s = ScienceData()
    s.data, s.groupdq, s.pixeldq = data, gdq, pdq
    s.exp_nframes, s.exp_groupgap, s.exp_intstart = p["nframes"], p["gap"], p["intstart"]
    s.cal_step = None
    need = data.shape[1] * p["nframes"] + (data.shape[1] - 1) * p["gap"]
    extend = need > p["dgroups"] * p["dframes"]
    # a dark that is too short is documented to be extrapolated in place: later calls get it again only when they need the same
    key = ("dark", ny, nx, p["ref"], p["dgroups"], p["dframes"], p["four"], need if extend and p["seed"] % 2 else 0)
    d = refs(key, dark)
    try:
        out, avg = do_correction_data(s, d, "averaged.fits" if p["save"] else None)
    finally:
        if extend and not key[-1]:
            del refs.made[key]
    return {"data": out.data, "gdq": out.groupdq, "pdq": out.pixeldq, "step": out.cal_step,
            "avg": None if avg is None else (avg.data, avg.groupdq, avg.save, avg.output_name)}


# ------------------------------------------------------------------ images

def sky_wcs(p, refs, shift=(0.0, 0.0), rot=0.0, shape=None, scale=1.0):
    """A gwcs object on the sky."""
    def build():
        from astropy import coordinates as coord
        from astropy import units as u
        from astropy.modeling import models as am
        from gwcs import coordinate_frames as cf
        from gwcs.wcs import WCS
        c, s = np.cos(np.radians(rot)), np.sin(np.radians(rot))
        t = ((am.Shift(-shape[1] / 2 + shift[0]) & am.Shift(-shape[0] / 2 + shift[1])) | am.AffineTransformation2D(np.array([[c, -s], [s, c]]))
             | (am.Scale(scale * 1e-4) & am.Scale(scale * 1e-4)) | am.Pix2Sky_TAN() | am.RotateNative2Celestial(30.0, -20.0, 180.0))
        det = cf.Frame2D(name="detector", axes_names=("x", "y"), unit=(u.pix, u.pix))
        sky = cf.CelestialFrame(name="world", reference_frame=coord.ICRS(), unit=(u.deg, u.deg))
        w = WCS([(det, t), (sky, None)])
        w.bounding_box = ((-0.5, shape[1] - 0.5), (-0.5, shape[0] - 0.5))
        w.array_shape = tuple(shape)
        return w
    return refs(("wcs", shift, rot, tuple(shape), scale), build)


def image(seed, shape, nan=True):
    g = rnd(8, seed)
    a = g.normal(100, 5, shape)
    a[g.random(shape) < 0.05] += 500
    if nan:
        a[g.random(shape) < 0.05] = np.nan
    return a.astype(np.float32)


def gen_image(rng):
    return {"seed": rng.randrange(1000), "ref": rng.randrange(3), "shape": [rng.randrange(6, 14), rng.randrange(6, 14)],
            "shift": [rng.choice([0.0, 1.5, -3.0]), rng.choice([0.0, 2.25])], "rot": rng.choice([0.0, 10.0, 90.0])}


def gen_blot(rng):
    return dict(gen_image(rng), step=rng.choice([1, 1, 2]), order=rng.choice([1, 3]), fill=rng.choice([0.0, -1.0]))


def call_blot(p, refs):
    from stcal.outlier_detection.utils import flag_crs, flag_resampled_crs, gwcs_blot
    shape = tuple(p["shape"])
    wa = sky_wcs(p, refs, (0.0, 0.0), 0.0, (20, 20))
    wb = sky_wcs(p, refs, tuple(p["shift"]), p["rot"], shape)
    b = gwcs_blot(image(p["seed"], (20, 20), nan=False), wa, shape, wb, fillval=p["fill"], pixmap_stepsize=p["step"], pixmap_order=p["order"])
    sci = image(p["seed"] + 1, shape, nan=False)
    err = np.sqrt(sci).astype(np.float32)
    return {"blot": b, "crs": flag_crs(sci, err, b, 4.0), "rcrs": flag_resampled_crs(sci, err, b, 5.0, 4.0, 1.2, 0.7, 10.0)}


def gen_median(rng):
    return dict(gen_image(rng), n=rng.randrange(1, 6), disk=rng.chance(0.5), kern=[rng.choice([1, 3, 5]), rng.choice([1, 3])])


def call_median(p, refs):
    from stcal.outlier_detection.median import MedianComputer
    from stcal.outlier_detection.utils import compute_weight_threshold, medfilt
    shape = tuple(p["shape"])
    m = MedianComputer((p["n"], *shape), not p["disk"], buffer_size=None if p["seed"] % 2 else shape[1] * 4 * p["n"], dtype=np.float32, tempdir=tempfile.gettempdir())
    for k in range(p["n"]):
        m.append(image(p["seed"] + k, shape), k)
    med = m.evaluate()
    return {"median": med, "filt": medfilt(image(p["seed"], shape, nan=False), refs(("kern", *p["kern"]), lambda: list(p["kern"]))), "thr": compute_weight_threshold(np.abs(image(p["seed"], shape)), 0.7)}


def gen_sky(rng):
    return dict(gen_image(rng), n=rng.randrange(1, 4), method=rng.choice(["local", "match", "global", "global+match"]), down=rng.chance(0.5), sub=rng.chance(0.5),
                stat=rng.choice(["mean", "median", "midpt", "mode"]), group=rng.chance(0.4), nclip=rng.choice([0, 5]))


def call_sky(p, refs):
    from stcal.skymatch import SkyGroup, SkyImage, SkyStats, skymatch
    shape = tuple(p["shape"])
    stats = refs(("skystats", p["stat"], p["nclip"]), lambda: SkyStats(p["stat"], lower=0.0, upper=1000.0, nclip=p["nclip"]))
    ims = []
    for k in range(p["n"]):
        w = sky_wcs(p, refs, (p["shift"][0] * k, p["shift"][1] * k), p["rot"], shape)
        ims.append(SkyImage(image(p["seed"] + k, shape, nan=False) + 7 * k, np.ones(shape, bool), w.forward_transform, w.backward_transform, stats, sky_id=k))
    ims = [SkyGroup(ims[:1] + ims[1:2], sky_id=9), *ims[2:]] if p["group"] and len(ims) > 1 else ims
    skymatch(ims, p["method"], p["down"], p["sub"])
    return [(i.sky, i.is_sky_valid if hasattr(i, "is_sky_valid") else None, [m.image for m in (i if isinstance(i, SkyGroup) else [i])]) for i in ims]


def gen_align(rng):
    return dict(gen_image(rng), ratio=rng.choice([None, 0.5, 2.0]), rotation=rng.choice([None, 0.0, 30.0]))


def call_align(p, refs):
    from stcal.alignment import util
    from stcal.alignment.resample_utils import combine_sregions
    shape = tuple(p["shape"])
    ws = [sky_wcs(p, refs, (p["shift"][0] * k, p["shift"][1] * k), p["rot"], shape) for k in range(2)]
    info = refs(("wcsinfo",), lambda: {"ra_ref": 30.0, "dec_ref": -20.0, "v3yangle": 0.0, "vparity": -1, "roll_ref": 5.0, "v2_ref": 0.0, "v3_ref": 0.0})
    regions = [util.compute_s_region_imaging(w, shape, center=False) for w in ws]
    new = util.wcs_from_sregions(regions, ws[0], info, pscale_ratio=p["ratio"], rotation=p["rotation"])
    combined = combine_sregions(regions, new.pipeline[0].transform) if len(new.available_frames) == 2 else None
    y, x = np.mgrid[:new.array_shape[0], :new.array_shape[1]] if new.array_shape else np.mgrid[:4, :4]
    return {"s": regions, "sky": np.array(new(x, y, with_bounding_box=False)), "shape": list(new.array_shape or ()), "bbox": str(new.bounding_box),
            "scale": util.compute_scale(ws[0], (30.0, -20.0)), "fid": np.array(util.compute_fiducial(ws)), "combined": combined}


def gen_driz(rng):
    return dict(gen_image(rng), n=rng.randrange(1, 4), kernel=rng.choice(["square", "turbo", "point"]), weight=rng.choice(["ivm", "exptime"]),
                dq=rng.chance(0.4), fill=rng.choice(["NaN", 0.0]), step=rng.choice([1, 1, 2]), out=[rng.randrange(10, 20), rng.randrange(10, 20)], ratio=rng.choice([None, 0.8]))


def call_driz(p, refs):
    from stcal.resample.resample import Resample
    from stcal.resample.utils import compute_mean_pixel_area
    shape, out = tuple(p["shape"]), tuple(p["out"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        wo = sky_wcs(p, refs, (0.0, 0.0), 0.0, out)
        r = Resample(n_input_models=p["n"], output_wcs={"wcs": wo, "pixel_scale": 0.36}, weight_type=p["weight"], kernel=p["kernel"], fillval=p["fill"], good_bits=0,
                     enable_ctx=True, enable_var=True, compute_err="from_var", pixmap_stepsize=p["step"])
        for k in range(p["n"]):
            w = sky_wcs(p, refs, (p["shift"][0] * k, p["shift"][1] * k), p["rot"], shape)
            dq = np.zeros(shape, np.uint32)
            dq[0, k] = 1
            var = np.full(shape, 2.0, np.float32)
            r.add_model({"data": image(p["seed"] + k, shape), "dq": dq, "wcs": w, "filename": f"f{k}", "group_id": str(k), "s_region": "", "pixelarea_steradians": 1e-12,
                         "pixelarea_arcsecsq": 0.1, "level": 0.0, "subtracted": False, "effective_exposure_time": 10.0, "exposure_time": 10.0, "duration": 11.0,
                         "measurement_time": 9.0, "start_time": 1.0, "end_time": 2.0, "wht": None, "err": None, "var_rnoise": var, "var_poisson": var * 2, "var_flat": var * 3,
                         "bunit_data": "MJy/sr", "pixel_scale": 0.36})
        r.finalize()
        m = r.output_model
        return {k: m[k] for k in sorted(m) if k not in ("wcs",) and not callable(m[k])} | {"area": compute_mean_pixel_area(wo, out)}


def gen_va(rng):
    return {"v": [rng.choice([0.0, 29.0, -12.5]) for _ in range(3)], "ra": rng.choice([0.0, 120.0, 359.9]), "dec": rng.choice([-89.0, 0.0, 45.0])}


def call_va(p, refs):
    from stcal.velocity_aberration import compute_va_effects
    return compute_va_effects(*p["v"], p["ra"], p["dec"])


def v2v3_wcs(pa=0.0, ra=30.0, dec=-20.0, shape=(400, 400), scale=0.1):
    """A gwcs object with the frames of a space telescope: detector, V2-V3, world."""
    from astropy import coordinates as coord
    from astropy import units as u
    from astropy.modeling import models as am
    from gwcs import coordinate_frames as cf
    from gwcs.geometry import CartesianToSpherical, SphericalToCartesian
    from gwcs.wcs import WCS
    det_to = ((am.Shift(-shape[1] / 2) & am.Shift(-shape[0] / 2)) | (am.Scale(scale) & am.Scale(scale)))
    to_sky = ((am.Scale(1 / 3600) & am.Scale(1 / 3600)) | SphericalToCartesian(wrap_lon_at=180) | am.RotationSequence3D([0.0, 0.0, pa, dec, -ra], "zyxyz")
              | CartesianToSpherical(wrap_lon_at=360))
    det = cf.Frame2D(name="detector", axes_names=("x", "y"), unit=(u.pix, u.pix))
    v23 = cf.Frame2D(name="v2v3", axes_names=("x", "y"), unit=(u.arcsec, u.arcsec))
    sky = cf.CelestialFrame(name="world", reference_frame=coord.ICRS(), unit=(u.deg, u.deg))
    w = WCS([(det, det_to), (v23, to_sky), (sky, None)])
    w.bounding_box = ((-0.5, shape[1] - 0.5), (-0.5, shape[0] - 0.5))
    w.array_shape = tuple(shape)
    return w


def gen_tweak(rng):
    return {"seed": rng.randrange(1000), "ref": rng.randrange(3), "n": rng.randrange(1, 4), "stars": rng.choice([3, 12, 12, 30]), "off": rng.choice([0.0, 3.0, 9.0, 60.0]), "pa": rng.choice([0.0, 40.0]),
            "kind": rng.weighted([("relative", 2), ("absolute", 2)]), "fit": rng.choice(["shift", "rshift", "general"]), "minobj": rng.choice([2, 5, 10]), "hist": rng.chance(0.7),
            "tol": rng.weighted([(0.7, 4), (1.5, 1)]), "upper": rng.chance(0.5), "empty": rng.chance(0.1), "limit": rng.weighted([(2.0, 3), (1e-3, 1)])}


def call_tweak(p, refs):
    import os
    import tempfile

    from astropy.table import Table
    from stcal.tweakreg.tweakreg import TweakregError, absolute_align, construct_wcs_corrector, relative_align
    g = rnd(12, p["seed"])
    w = refs(("v2v3", p["pa"]), lambda: v2v3_wcs(p["pa"]))
    info = refs(("v2v3info",), lambda: {"roll_ref": 0.0, "v2_ref": 0.0, "v3_ref": 0.0})
    x, y = g.uniform(20, 380, p["stars"]), g.uniform(20, 380, p["stars"])
    cs = []
    for k in range(p["n"]):
        cat = Table({"x": x + p["off"] * k, "y": y - 0.5 * p["off"] * k}, meta={"name": f"cat{k}"})
        cs.append(construct_wcs_corrector(w, info, cat[:0] if p["empty"] and k == 0 else cat, f"g{k}"))
    try:
        if p["kind"] == "relative":
            out = relative_align(cs, minobj=p["minobj"], fitgeometry=p["fit"], tolerance=p["tol"], use2dhist=p["hist"], searchrad=p["limit"])
        else:
            ra, dec = w(x, y, with_bounding_box=False)
            t = Table({"RA" if p["upper"] else "ra": ra, "DEC" if p["upper"] else "Dec": dec})
            d = tempfile.mkdtemp()
            t.write(os.path.join(d, "ref.ecsv"))
            try:
                out = absolute_align(cs, os.path.join(d, "ref.ecsv"), w, info, 2016.0, abs_minobj=p["minobj"], abs_fitgeometry=p["fit"], abs_tolerance=p["tol"], abs_use2dhist=p["hist"])
            finally:
                os.remove(os.path.join(d, "ref.ecsv"))
                os.rmdir(d)
    except TweakregError as e:
        # the text of the warnings that come with it is not part of the outcome: Python's warnings are global to the process
        return {"refused": str(e).split("WCS has been")[-1][-40:], "n": len(cs)}
    return [(np.array(c.wcs([0.0, 300.0], [10.0, 380.0])), c.meta["group_id"], c.meta.get("fit_info", {}).get("status"), c.wcs.available_frames) for c in out]


OPS = {"tweak": (gen_tweak, call_tweak, 1), "jump": (gen_jump, call_jump, 4), "ramp": (gen_ramp, call_ramp, 4), "cas": (gen_cas, call_cas, 1), "sat": (gen_sat, call_sat, 2), "lin": (gen_lin, call_lin, 2),
       "dark": (gen_dark, call_dark, 2), "blot": (gen_blot, call_blot, 1), "median": (gen_median, call_median, 1), "sky": (gen_sky, call_sky, 2),
       "align": (gen_align, call_align, 1), "driz": (gen_driz, call_driz, 2), "va": (gen_va, call_va, 0.3)}


def gen(rng, only=None):
    name = rng.weighted([(n, o[2]) for n, o in OPS.items() if only is None or n in only])
    return {"op": name, "p": OPS[name][0](rng)}


SHAPE = ("dims", "shape", "algo", "seed", "ref", "events", "via", "n", "npix", "blobs", "out", "snowball", "shower")


def sibling(rng, spec):
    """Another exposure with the same reference inputs."""
    p = dict(spec["p"])
    if "seed" in p:
        p["seed"] = rng.randrange(1000)
    if spec["op"] in ("dark", "lin", "sat"):
        p["dims"] = [rng.randrange(1, 3), rng.randrange(2, 8)] + list(p["dims"][2:])
    if spec["op"] == "dark":
        p.update(nframes=rng.choice([1, p["nframes"]]), save=rng.chance(0.2))
    if rng.chance(0.4):  # with another setting
        other = OPS[spec["op"]][0](rng)
        keys = sorted(k for k in p if k in other and p[k] != other[k] and k not in SHAPE)
        if keys:
            k = rng.choice(keys)
            p[k] = other[k]
    return {"op": spec["op"], "p": p}


def call(spec, refs):
    """Outcome of one operation: ("ok", value) or ("error", type and text)."""
    try:
        return "ok", OPS[spec["op"]][1](spec["p"], refs)
    except Exception as e:  # noqa: BLE001
        if not core.in_stcal(e):
            raise
        return "error", core.exc_text(e)


def result(spec):
    """In a fresh process: the digest of the outcome."""
    kind, value = call(spec, Refs())
    return kind, core.fingerprint(value), value if kind == "error" else None
