"""Seeded mosaics: coordinate systems, images and histories of calls to stcal.resample.Resample, and a reference mosaic."""
import logging
import sys
import warnings

import numpy as np

from sim import core
from sim.workers import LineFault, make_exception

FLAGS = {"DO_NOT_USE": 1, "SATURATED": 2, "JUMP_DET": 4}
VARS = ("var_rnoise", "var_flat", "var_poisson")
SCALE = 0.05 / 3600.0  # degrees per output pixel


class Boom(Exception):
    """Raised by the simulated environment (a subclass hook or a coordinate system)."""


class Frame:
    def __init__(self, axes_type):
        self.axes_type, self.naxes = axes_type, len(axes_type)


class LinearWCS:
    """A coordinate system with a linear transform; it can fail at its n-th use."""

    def __init__(self, shape, matrix, offset, bbox=None, spectral=False):
        self.output_frame = Frame(("SPATIAL", "SPATIAL", "SPECTRAL") if spectral else ("SPATIAL", "SPATIAL"))
        self.array_shape, self.pixel_shape = tuple(shape), tuple(shape)[::-1]
        self.bounding_box = bbox
        self.m, self.o = np.array(matrix, float), np.array(offset, float)
        self.inv = np.linalg.inv(self.m)
        self.spectral = spectral
        self.fail_at, self.uses = None, 0

    def _use(self):
        self.uses += 1
        if self.fail_at is not None and self.uses >= self.fail_at:
            raise Boom("coordinate system failed")

    def pixel_to_world_values(self, x, y):
        self._use()
        u = self.m[0, 0] * x + self.m[0, 1] * y + self.o[0]
        v = self.m[1, 0] * x + self.m[1, 1] * y + self.o[1]
        a, d = 10.0 + SCALE * u, 5.0 + SCALE * v
        return (a, d, 1.0 + 0.0 * a) if self.spectral else (a, d)

    __call__ = pixel_to_world_values

    def world_to_pixel_values(self, a, d, *rest):
        self._use()
        u, v = (a - 10.0) / SCALE - self.o[0], (d - 5.0) / SCALE - self.o[1]
        return self.inv[0, 0] * u + self.inv[0, 1] * v, self.inv[1, 0] * u + self.inv[1, 1] * v


_GWCS = {}


def gwcs_object(key, shape, matrix, offset, bbox):
    """A real gwcs object with the same pixel scale (tangent projection), made once per key."""
    if key not in _GWCS:
        from astropy import coordinates as coord
        from astropy import units as u
        from astropy.modeling import models as am
        from gwcs import coordinate_frames as cf
        from gwcs.wcs import WCS
        m = np.array(matrix, float)
        t = (am.AffineTransformation2D(m, translation=np.array(offset, float)) | (am.Scale(SCALE) & am.Scale(SCALE))
             | am.Pix2Sky_TAN() | am.RotateNative2Celestial(10.0, 5.0, 180.0))
        det = cf.Frame2D(name="detector", unit=(u.pix, u.pix))
        sky = cf.CelestialFrame(name="world", reference_frame=coord.ICRS(), unit=(u.deg, u.deg))
        _GWCS[key] = WCS([(det, t), (sky, None)])
    w = _GWCS[key]
    w.bounding_box = None
    w.bounding_box = bbox
    w.array_shape = tuple(shape)
    return w


# ---------------------------------------------------------------- generation

def gen_config(rng, allow_gwcs=True):
    kind = rng.weighted([("linear", 12), ("spectral", 2), ("gwcs", 2 if allow_gwcs else 0)])
    err = rng.pick([None, None, "from_var", "driz_err"])
    weight = rng.pick(["ivm", "ivm", "exptime", "ivm-sky"])
    return {
        "kind": kind, "out": [rng.randrange(6, 18), rng.randrange(6, 18)], "theta": rng.pick([0, 0, 30, 90]),
        "psr": rng.pick([0.5, 1.0, 1.5]) if kind == "spectral" or rng.chance(0.3) else None,
        "kernel": rng.pick(["square", "square", "point", "turbo", "gaussian"]), "pixfrac": rng.pick([1.0, 0.7, 0.4]),
        "fillval": rng.pick([0.0, "INDEF", "NaN", -5.0, None]), "weight": weight, "good": rng.pick([0, 0, None, 2, 6, "~1", "SATURATED,JUMP_DET", "~DO_NOT_USE"]),
        "ctx": rng.chance(0.8), "var": err == "from_var" or rng.chance(0.6), "err": err, "dq": rng.chance(0.4),
        "step": rng.pick([1, 1, 1, 2, 3]), "order": rng.pick([1, 3]), "n": rng.pick([None, None, 1, 3, 40]),
        "names": rng.pick([list(VARS)] * 3 + [["var_rnoise"], ["var_flat", "var_poisson"], ["var_poisson", "var_rnoise"]]),
        "errvars": rng.pick([None, None, 1]),
    }


def gen_image(rng, cfg, ngroups):
    ny, nx = rng.randrange(4, 14), rng.randrange(4, 14)
    bad = rng.chance(0.3)
    varkind = lambda: rng.weighted([("ok", 10), ("none", 1), ("empty", 1), ("shape", 1), ("zeros", 1), ("holes", 2)])  # noqa: E731
    return {
        "seed": rng.randrange(1 << 16), "shape": [ny, nx], "theta": rng.pick([0, 0, 10, 180, 90]), "ratio": rng.pick([1.0, 1.0, 0.7, 1.6]),
        "shift": [rng.pick([0.0, 1.0, 2.5, -3.0, 40.0]) + rng.pick([0, 0.25, 0.5]), rng.pick([0.0, 1.0, 2.5, -3.0]) + rng.pick([0, 0.25])],
        "bbox": rng.weighted([("none", 4), ("full", 2), ("part", 2)]), "group": rng.randrange(ngroups), "level": rng.pick([None, 0.0, 3.5]),
        "subtracted": rng.chance(0.3), "vars": {v: varkind() for v in VARS + ("var_sky",)}, "dq": rng.pick([0.0, 0.1, 0.3, 1.0]),
        "dtype": rng.pick(["<f4", "<f4", "<f8", ">f4"]), "layout": rng.pick(["c", "c", "f", "readonly"]), "area": rng.pick([1.0, 0.5, 2.0]),
        "nan": bad,
    }


def gen_groups(rng, n):
    out = []
    for k in range(n):
        t0 = rng.randrange(0, 1000) + rng.pick([0, 0.5])
        e = rng.pick([1.0, 2.0, 7.5, 100.0])
        out.append({"id": rng.pick([k, f"g{k}", k + 100]), "exposure": e, "start": t0, "end": t0 + e + rng.pick([0, 1]),
                    "duration": rng.pick([e, e + 1, None]), "measurement": rng.pick(["absent", None, e * 0.5, e * 0.5, e * 0.75])})
    return out


BAD = ["nokey:data", "nokey:wcs", "nokey:level", "nokey:group_id", "nokey:pixelarea_steradians", "3d", "1d", "exptime0", "exptime_negative", "exptime_none",
       "dqshape", "dqnone", "errshape", "level_shape", "wcs_fails", "bbox_bad", "nokey:var_rnoise", "nokey:measurement_time", "notdict", "nokey:start_time",
       "nokey:duration", "nokey:end_time", "var_text"]


def gen_ops(rng, nimg, length, calm=False):
    """Calm histories are nearly all adds, with early failures only (a missing key, a frozen coordinate system)."""
    ops = []
    weights = [("add", 60), ("finalize", 8), ("reset", 6), ("bad", 8), ("hook", 4), ("fault_add", 6), ("fault_finalize", 3), ("fault_reset", 2)]
    if calm:
        weights = [("add", 300), ("finalize", 2), ("reset", 2), ("bad", 6)]
    for _ in range(length):
        k = rng.weighted(weights)
        i = rng.randrange(nimg)
        if k == "add":
            ops.append(["add", i])
        elif k == "finalize":
            ops.append(["finalize"])
            while rng.chance(0.25):
                ops.append(rng.pick([["finalize"], ["add", i], ["hook", i]]))
            if rng.chance(0.8):
                ops.append(["reset", rng.pick([None, None, 1, 3, 40])])
        elif k == "reset":
            ops.append(["reset", rng.pick([None, None, 1, 3, 40, 0])])
        elif k == "bad":
            ops.append(["bad", i, rng.pick(["nokey:data", "nokey:level", "3d", "notdict", "nokey:start_time"] if calm else BAD)])
        elif k == "hook":
            ops.append(["hook", i])
        else:
            ops.append([k, i, rng.pick([rng.randrange(1, 30), rng.randrange(1, 160)]), rng.pick(["MemoryError", "KeyboardInterrupt", "InjectedFault"])])
    return ops


# ---------------------------------------------------------------- images

def matrix(theta, ratio):
    t = np.deg2rad(theta)
    return [[ratio * np.cos(t), -ratio * np.sin(t)], [ratio * np.sin(t), ratio * np.cos(t)]]


def make_wcs(cfg, key, shape, mat, off, bbox):
    if cfg["kind"] == "gwcs":
        return gwcs_object((key, repr(mat), repr(off)), shape, mat, off, bbox)
    return LinearWCS(shape, mat, off, bbox, spectral=cfg["kind"] == "spectral")


def output_wcs(cfg):
    return make_wcs(cfg, "out", cfg["out"], matrix(cfg["theta"], 1.0), [0.0, 0.0], None)


def lay(a, how):
    if how == "f":
        return np.asfortranarray(a)
    if how == "readonly":
        a = np.ascontiguousarray(a)
        a.flags.writeable = False
    return a


def image_model(cfg, spec, group, number):
    """The dictionary given to add_model.  Images of one group share its times."""
    r = np.random.default_rng(spec["seed"])
    ny, nx = spec["shape"]
    bbox = {"none": None, "full": ((-0.5, nx - 0.5), (-0.5, ny - 0.5)), "part": ((0.5, nx - 2.5), (-0.5, ny - 1.5))}[spec["bbox"]]
    data = r.integers(-50, 200, (ny, nx)) / 4.0
    if spec["nan"] and cfg["kernel"] == "square":
        pass  # drizzle has no meaning for non-finite values with weight
    dq = np.where(r.random((ny, nx)) < spec["dq"], r.integers(0, 8, (ny, nx)), 0)
    m = {
        "data": lay(data.astype(spec["dtype"]), spec["layout"]), "dq": lay(dq.astype(np.uint32), spec["layout"]), "filename": rf"im{number}",
        "group_id": group["id"], "wcs": make_wcs(cfg, "in", spec["shape"], matrix(spec["theta"], spec["ratio"]), spec["shift"], bbox),
        "bunit_data": "MJy" if spec["seed"] % 2 else "MJy/sr", "exposure_time": group["exposure"], "start_time": group["start"], "end_time": group["end"],
        "duration": group["duration"], "pixelarea_steradians": np.deg2rad(SCALE) ** 2 * spec["area"], "level": spec["level"], "subtracted": spec["subtracted"],
        "err": lay((1 + r.integers(0, 40, (ny, nx)) / 8.0).astype(np.float32), spec["layout"]),
    }
    if group["measurement"] != "absent":
        m["measurement_time"] = group["measurement"]
    else:
        m["measurement_time"] = None
    for v, kind in spec["vars"].items():
        a = ((1 + r.integers(0, 60, (ny, nx))) / 16.0).astype(np.float32)
        if kind == "none":
            a = None
        elif kind == "empty":
            a = np.zeros((0,), np.float32)
        elif kind == "shape":
            a = np.ones((ny + 1, nx), np.float32)
        elif kind == "zeros":
            a = np.zeros((ny, nx), np.float32)
        elif kind == "holes":
            a[r.random((ny, nx)) < 0.3] = 0
            a[r.random((ny, nx)) < 0.1] = r.choice([np.inf, np.nan, -1.0])
        m[v] = a if a is None else lay(a, spec["layout"])
    return m


def spoil(m, how):
    m = dict(m)
    data = m["data"]
    if how.startswith("nokey:"):
        m.pop(how[6:], None)
    elif how == "3d":
        m["data"] = np.zeros((2,) + data.shape, data.dtype)
    elif how == "1d":
        m["data"] = data.ravel()
    elif how == "exptime0":
        m["exposure_time"] = 0.0
    elif how == "exptime_negative":
        m["exposure_time"] = -1.0
    elif how == "exptime_none":
        m["exposure_time"] = None
    elif how == "dqshape":
        m["dq"] = np.zeros((data.shape[0] + 1, data.shape[1]), np.uint32)
    elif how == "dqnone":
        m["dq"] = None
    elif how == "errshape":
        m["err"] = np.ones((data.shape[0] + 1, data.shape[1]), np.float32)
    elif how == "level_shape":
        m["level"], m["subtracted"] = np.ones(data.shape[1] + 3), False
    elif how == "wcs_fails":
        w = m["wcs"]
        if isinstance(w, LinearWCS):
            w.fail_at = w.uses + 1
    elif how == "bbox_bad":
        if isinstance(m["wcs"], LinearWCS):
            m["wcs"].bounding_box = (1.0, 2.0, 3.0)
    elif how == "notdict":
        m = [m]
    elif how == "var_text":
        for v in VARS:
            m[v] = np.full(data.shape, "x")
    return m


# ---------------------------------------------------------------- the code under test

def mosaic_class(cfg):
    from stcal.resample import Resample

    class Mosaic(Resample):
        variance_array_names = list(cfg["names"])
        error_from_variances = cfg["names"][:1] if cfg["errvars"] else None
        dq_flag_name_map = FLAGS_MAP()
        boom = False

        def add_model_hook(self, *args, **kwargs):
            if self.boom:
                raise Boom("hook failed")
    return Mosaic


_MAP = []


def FLAGS_MAP():
    if not _MAP:
        from astropy.nddata.bitmask import BitFlagNameMap
        _MAP.append(type("Flags", (BitFlagNameMap,), dict(FLAGS)))
    return _MAP[0]


def new_mosaic(cfg, n="cfg"):
    wcs = {"wcs": output_wcs(cfg), "pixel_scale": SCALE * 3600.0}
    if cfg["psr"] is not None:
        wcs["pixel_scale_ratio"] = cfg["psr"]
    return mosaic_class(cfg)(
        wcs, n_input_models=cfg["n"] if n == "cfg" else n, pixfrac=cfg["pixfrac"], kernel=cfg["kernel"], fillval=cfg["fillval"], weight_type=cfg["weight"],
        good_bits=cfg["good"], enable_ctx=cfg["ctx"], enable_var=cfg["var"], compute_err=cfg["err"], propagate_dq=cfg["dq"], pixmap_stepsize=cfg["step"],
        pixmap_order=cfg["order"])


ARRAYS = ("data", "wht", "con", "dq", "err") + VARS
TIMES = ("pointings", "exposure_time", "measurement_time", "start_time", "end_time", "duration", "elapsed_exposure_time")


def arrays(model):
    return {k: None if model.get(k) is None else np.array(model[k]) for k in ARRAYS if k in model}


def times(model):
    return {k: model.get(k) for k in TIMES}


def whole(model):
    """Everything in an output model except its coordinate system."""
    return {k: (np.array(v) if isinstance(v, np.ndarray) else v) for k, v in model.items() if k != "wcs"}


def scratch_state(plan):
    cfg = plan["cfg"]
    models = [image_model(cfg, s, plan["groups"][s["group"] % len(plan["groups"])], k) for k, s in enumerate(plan["images"])]
    return cfg, models


def fold(plan, added):
    """What the metadata of a mosaic of these images must be."""
    groups, seen = [], []
    for i in added:
        g = plan["groups"][plan["images"][i]["group"] % len(plan["groups"])]
        if g["id"] not in seen:
            seen.append(g["id"])
            groups.append(g)
    ms = [g["measurement"] for g in groups]
    full = all(m not in ("absent", None) for m in ms)
    return {
        "pointings": len(groups), "exposure_time": sum(g["exposure"] for g in groups), "measurement_time": sum(ms) if full else None,
        "start_time": min(g["start"] for g in groups), "end_time": max(g["end"] for g in groups),
        "duration": sum(g["duration"] or 0 for g in groups), "elapsed_exposure_time": sum(g["duration"] or 0 for g in groups)}, seen


# ---------------------------------------------------------------- histories

class History:
    """Runs the operations of a plan and keeps every state the mosaic is allowed to be in.

    states: the lists of images the mosaic may hold (more than one only after a call was cut short), each with the n of its last reset;
    stuck: it refused to go on after a failure and must keep refusing until it is reset.
    """

    def __init__(self, plan, rec):
        self.plan, self.rec = plan, rec
        self.cfg, self.models = scratch_state(plan)
        self.r = new_mosaic(self.cfg)
        self.states = [((), self.cfg["n"])]
        self.final = False
        self.maybe = False  # an operation failed: going on may be refused
        self.stuck = False
        self.held = []

    def call(self, op, func, at=None, exc=None):
        """Run one call, with an optional exception at a line of stcal."""
        e = None
        tracer = None
        if at is not None:
            err = make_exception(exc)

            def action():
                raise err
            tracer = LineFault(at, action, only="resample")
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if tracer:
                    sys.settrace(tracer.glob)
                try:
                    func()
                finally:
                    sys.settrace(None)
        except Exception as x:  # noqa: BLE001
            e = x
        except KeyboardInterrupt as x:
            e = x
        fired = bool(tracer and tracer.fired)
        if fired:
            self.rec.fault(f"line:{op[0][6:]}")
        self.rec.event(*op, "fired" if fired else "", "ok" if e is None else core.exc_text(e))
        if e is not None:
            e.__traceback__ = None
        return e, fired

    def step(self, op, observer):
        rec, r, kind = self.rec, self.r, op[0]
        if kind in ("add", "bad", "hook", "fault_add"):
            self.add(op)
        elif kind in ("finalize", "fault_finalize"):
            self.finalize(op, observer)
        elif kind in ("reset", "fault_reset"):
            self.reset(op)
        if r.is_finalized() and not self.final and not rec.violations:
            if self.states is not None and not any(s[0] for s in self.states):
                rec.violation("finalized-nothing", f"after {op} the mosaic reports to be finalized and holds no image")
            else:
                self.final, self.maybe = True, False
                observer(self, op, True)
        elif self.final and not r.is_finalized():
            rec.violation("not-finalized", f"after {op} the finalized mosaic reports not to be finalized")

    def add(self, op):
        rec, r, i = self.rec, self.r, op[1]
        m = self.models[i]
        undo = None
        if op[0] == "bad":
            w = m["wcs"]
            undo = (w, getattr(w, "fail_at", None), w.bounding_box)
            m = spoil(m, op[2])
            rec.probe("bad_image")
            rec.fault("bad:" + op[2].split(":")[0])
        if op[0] == "hook":
            r.boom = True
            rec.fault("hook")
        before = whole(r.output_model) if self.final else None
        at, exc = (op[2], op[3]) if op[0] == "fault_add" else (None, None)
        e, fired = self.call(op, lambda: r.add_model(m), at, exc)
        r.boom = False
        if undo and isinstance(undo[0], LinearWCS):
            undo[0].fail_at, undo[0].bounding_box = undo[1], undo[2]
        if self.final:
            if e is None:
                rec.violation("add-after-finalize", f"{op} was accepted by a finalized mosaic")
            elif not core.same(before, whole(r.output_model)):
                rec.violation("changed-after-finalize", f"{op} changed a finalized mosaic")
            rec.probe("add_after_finalize")
            return
        if self.stuck:
            if e is None and op[0] in ("add", "fault_add"):
                rec.violation("went-on", f"the mosaic refused to go on after a failure and then accepted {op} without a reset")
            return
        if e is None:
            if op[0] == "bad":
                self.unusual = True  # an image the mosaic took although something is missing: give up judging until the next reset
                self.states, self.maybe = None, False
                rec.probe("odd_image_accepted")
                return
            if self.states is not None:
                self.states = [(s + (i,), n) for s, n in self.states]
                if self.maybe:
                    rec.probe("went_on_after_failure")
            self.maybe = self.maybe and False
            return
        if op[0] == "add" or (op[0] == "fault_add" and not fired):
            if self.maybe and not self.fails_alone(i):
                self.stuck = True
                rec.probe("refused_after_failure")
            elif self.maybe:
                pass
            elif self.states is not None and self.fails_alone(i):
                rec.probe("image_refused_always")
                self.maybe = True
            elif self.states is not None:
                rec.violation("good-add-failed", f"{op} failed: {core.exc_text(e)}")
            return
        rec.probe("failed_add")
        self.maybe = True
        if fired and self.states is not None:
            self.states = self.states + [(s + (i,), n) for s, n in self.states]

    def fails_alone(self, i):
        """Is the image refused by a new mosaic too?  (It does not overlap, say.)"""
        try:
            new_mosaic(self.cfg).add_model(self.models[i])
        except Exception:  # noqa: BLE001
            return True
        return False

    def finalize(self, op, observer):
        rec, r = self.rec, self.r
        before = whole(r.output_model) if self.final else None
        at, exc = (op[2], op[3]) if op[0] == "fault_finalize" else (None, None)
        e, fired = self.call(op, r.finalize, at, exc)
        if self.final:
            if fired:
                return
            if e is not None:
                rec.violation("refinalize-failed", f"finalizing twice failed: {core.exc_text(e)}")
            elif not core.same(before, whole(r.output_model)):
                rec.violation("changed-after-finalize", "finalizing twice changed the mosaic")
            rec.probe("finalized_twice")
            return
        if e is None:
            if self.stuck:
                rec.violation("went-on", "the mosaic refused to go on after a failure and then was finalized without a reset")
            elif self.states is not None and not any(s for s, _ in self.states):
                rec.violation("finalized-nothing", "a mosaic without images was finalized")
            else:
                if self.states is not None:
                    self.states = [(s, n) for s, n in self.states if s]
                self.final, self.maybe = True, False
                observer(self, op, True)
            return
        if fired or (self.states is not None and any(not s for s, _ in self.states)):
            rec.probe("failed_finalize")
            self.maybe = True
            if fired and self.states is not None:
                return
        elif self.maybe:
            self.stuck = True
            rec.probe("refused_after_failure")
        elif not self.stuck and self.states is not None:
            rec.violation("finalize-failed", f"finalize failed: {core.exc_text(e)}")

    def reset(self, op):
        rec, r = self.rec, self.r
        n = op[1] if op[0] == "reset" else None
        old = r.output_model
        if self.final:
            self.held.append((old, whole(old)))
        at, exc = (op[2], op[3]) if op[0] == "fault_reset" else (None, None)
        e, fired = self.call(op, lambda: r.reset_arrays(n_input_models=n), at, exc)
        if e is None:
            rec.probe("reset_finalized" if self.final else "reset_stuck" if self.stuck else "reset_open")
            self.states, self.final, self.maybe, self.stuck = [((), n)], False, False, False
            return
        if not fired and n != 0:
            rec.violation("reset-failed", f"reset failed: {core.exc_text(e)}")
            return
        rec.probe("failed_reset")
        # either nothing happened, or the mosaic is empty, or it refuses to go on
        if self.final:
            if not r.is_finalized():
                self.final = False
                self.states = [((), n or None)]
        elif self.states is not None:
            self.states = self.states + [((), s[1]) for s in self.states] + ([((), n)] if n != 0 else [])
        self.maybe = True

    def finish(self):
        for old, was in self.held:
            if not core.same(was, whole(old)):
                self.rec.violation("old-result-changed", "a finalized result the caller still holds was changed by a later call")
                break


# ---------------------------------------------------------------- reference arrays

def model_arrays(plan, cfg, models, added, n):
    """Data, weight, context, variance and error of a mosaic, from drizzle itself, one image at a time."""
    from drizzle.resample import Drizzle
    shape = tuple(cfg["out"])
    out = output_wcs(cfg)
    spectral = cfg["kind"] == "spectral"
    first = models[added[0]]
    psr = cfg["psr"]
    if psr is None:
        psr = SCALE * 3600.0 / (3600.0 * np.rad2deg(np.sqrt(first["pixelarea_steradians"])))
    dr = Drizzle(kernel=cfg["kernel"], fillval=cfg["fillval"], out_shape=shape, max_ctx_id=None if n is None else n - 1, disable_ctx=not cfg["ctx"])
    de = Drizzle(kernel=cfg["kernel"], fillval=cfg["fillval"], out_shape=shape, disable_ctx=True)
    names = cfg["names"]
    acc = {v: (np.zeros(shape), np.zeros(shape)) for v in names}
    extreme = np.zeros(shape, bool)  # pixels whose weights over- or underflow single precision
    for i in added:
        m = models[i]
        w = m["wcs"]
        ny, nx = m["data"].shape
        y, x = np.indices((ny, nx), dtype=float)
        px, py = out.world_to_pixel_values(*w.pixel_to_world_values(x, y))
        dq = m["dq"]
        good = {0: 0, None: None, 2: 2, 6: 6, "~1": ~1, "SATURATED,JUMP_DET": 6, "~DO_NOT_USE": ~1}[cfg["good"]]
        mask = np.ones((ny, nx)) if good is None else ((dq.astype(np.int64) & ~good) == 0).astype(float)
        if cfg["weight"] == "exptime":
            wt = mask * float(m["exposure_time"] if m.get("measurement_time") is None else m["measurement_time"])
        else:
            a = m["var_rnoise" if cfg["weight"] == "ivm" else "var_sky"]
            if a is None or a.shape != (ny, nx):
                wt = mask
            else:
                with np.errstate(all="ignore"):
                    inv = 1.0 / a
                inv[~np.isfinite(inv)] = 0
                wt = inv * mask
        lev = 0.0 if m["subtracted"] or m["level"] is None else m["level"]
        b = w.bounding_box
        x0, x1, y0, y1 = (0, nx - 1, 0, ny - 1) if b is None else (
            max(0, int(b[0][0] + 0.5)), min(nx - 1, int(b[0][1] + 0.5)), max(0, int(b[1][0] + 0.5)), min(ny - 1, int(b[1][1] + 0.5)))
        iscale = 1.0 / psr if spectral and m["bunit_data"] == "MJy" else 1.0
        kw = dict(exptime=m["exposure_time"], pixmap=np.dstack([px, py]), pixel_scale_ratio=psr, iscale=iscale, weight_map=wt.astype(np.float32), wht_scale=1.0,
                  pixfrac=cfg["pixfrac"], in_units="cps", xmin=x0, xmax=x1, ymin=y0, ymax=y1)
        dr.add_image(m["data"].astype(float) - lev, **(dict(kw, dq=dq) if cfg["dq"] else kw))
        if cfg["err"] == "driz_err":
            de.add_image(m["err"], **kw)
        if cfg["var"]:
            one = {}
            for v in names:
                a = m[v]
                if a is None or a.shape != (ny, nx):
                    continue
                dv = Drizzle(out_shape=shape, kernel=cfg["kernel"], fillval=np.nan, disable_ctx=True)
                dv.add_image(np.sqrt(a), **kw)
                one[v] = dv.out_img.astype(float) ** 2
            if cfg["weight"] == "exptime":
                wv = np.full(shape, float(m["exposure_time"] if m.get("measurement_time") is None else m["measurement_time"]))
            elif "var_rnoise" in one:
                rn = one["var_rnoise"]
                ok = (rn > 0) & np.isfinite(rn)
                wv = np.where(ok, 1.0 / np.where(ok, rn, 1), 0)
            else:
                wv = np.ones(shape)
            extreme |= (wv > 1e6) | ((wv > 0) & (wv < 1e-6))
            for v in one:
                extreme |= (one[v] > 1e6) | ((one[v] > 0) & (one[v] < 1e-6))
                ok = (one[v] >= 0) & np.isfinite(one[v]) & (wv > 0)
                acc[v][0][ok] += (one[v] * wv * wv)[ok]
                acc[v][1][ok] += wv[ok]
    res = {"data": dr.out_img, "wht": dr.out_wht, "con": dr.out_ctx if cfg["ctx"] else None}
    if cfg["dq"]:
        res["dq"] = dr.out_dq
    if cfg["var"]:
        sc = psr if spectral else 1.0 / psr ** 2
        for v in names:
            with np.errstate(all="ignore"):
                res[v] = acc[v][0] * sc / acc[v][1] ** 2
    if cfg["err"] == "driz_err":
        res["err"] = de.out_img / (1 / np.sqrt(psr) if spectral else psr)
    elif cfg["err"] == "from_var":
        use = [res[v] for v in (names[:1] if cfg["errvars"] else names)]
        res["err"] = np.sqrt(np.nansum(use, axis=0))
        res["err"][np.all(np.isnan(use), axis=0)] = np.nan
    return res, extreme


def shrink(plan):
    ops = plan["ops"]
    n = max(1, len(ops) // 2)
    while n:
        for i in range(0, len(ops), n):
            if len(ops) > n or n == 1:
                yield dict(plan, ops=ops[:i] + ops[i + n:])
        n //= 2
    base = {"kind": "linear", "step": 1, "err": None, "dq": False, "kernel": "square", "pixfrac": 1.0, "fillval": 0.0, "good": 0, "theta": 0, "n": None,
            "errvars": None, "names": list(VARS), "psr": None}
    for k, v in base.items():
        if plan["cfg"][k] != v and not (k == "psr" and plan["cfg"]["kind"] == "spectral"):
            yield dict(plan, cfg=dict(plan["cfg"], **{k: v}))
    for j, s in enumerate(plan["images"]):
        simple = {"theta": 0, "ratio": 1.0, "shift": [0.0, 0.0], "bbox": "none", "level": None, "dq": 0.0, "dtype": "<f4", "layout": "c", "area": 1.0,
                  "vars": {v: "ok" for v in s["vars"]}}
        for k, v in simple.items():
            if s[k] != v:
                yield dict(plan, images=plan["images"][:j] + [dict(s, **{k: v})] + plan["images"][j + 1:])


def quiet():
    logging.getLogger("stcal").setLevel(logging.CRITICAL + 1)
