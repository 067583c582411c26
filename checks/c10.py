"""C10: a pixel-map computation leaves both coordinate systems as they were, whatever fails inside it."""
import gc
import sys
import warnings

import numpy as np

from sim import core, mosaic as mo
from sim.workers import LineFault, make_exception

ID = "C10"
TREE = "py"
LEVEL = "fault_enumeration"
QUICK_RUNS, THOROUGH_RUNS = 40000, 1500000
QUICK_BUDGET_S = 200
TECHNIQUE = ("seeded pairs of coordinate systems and call options with a failure at a seeded use of a coordinate system, library call or line of the pixel-map "
             "computation")
LEVEL_NOTE = ("seeded search over inputs and fault points; the real pixel-map code runs on simulated and real (gwcs) coordinate systems; their whole state "
              "before and after is compared.")
RULE = ("one run = one pair of coordinate systems (possibly the same object) and 1-4 pixel-map calls on it, each with at most one failure; non-trivial when a "
        "failure fired while a bounding box was set")
STATE_MEASURE = "distinct (kinds of coordinate system and bounding box, mode, step, order, kind and place of the failure, outcome) tuples"
COMPONENTS = {"real": ["stcal.resample.utils.calc_pixmap", "gwcs (in part of the runs)", "numpy, scipy splines"], "stub": ["linear coordinate systems (in most runs)"]}
ASSUMPTIONS = ["an interrupt that lands inside the few lines that put a bounding box back is out of reach of any implementation and is not injected"]
REQUIRED_PROBES = ["failed_with_box", "same_object", "gwcs", "spline", "interrupted", "wcs_failed", "library_failed", "line_failed", "bad_argument", "box_removed",
                   "c_order_box"]


class W(mo.LinearWCS):
    """Linear coordinate system that respects its bounding box, counts uses and records changes of it."""

    def __init__(self, shape, mat, off, bbox, log):
        object.__setattr__(self, "log", log)
        super().__init__(shape, mat, off, bbox)
        self.error = None
        self.late = False
        del log[:]

    def __setattr__(self, k, v):
        if k == "bounding_box":
            self.log.append(v is not None)
        object.__setattr__(self, k, v)

    def _use(self):
        object.__setattr__(self, "uses", self.uses + 1)
        if self.fail_at is not None and self.uses == self.fail_at:
            raise self.error

    def box(self):
        b = self.bounding_box
        return b.bounding_box() if hasattr(b, "bounding_box") else b

    def pixel_to_world_values(self, x, y):
        a, d = super().pixel_to_world_values(x, y)
        if self.bounding_box is not None:
            (x0, x1), (y0, y1) = self.box()
            out = (x < x0) | (x > x1) | (y < y0) | (y > y1)
            a, d = np.where(out, np.nan, a), np.where(out, np.nan, d)
        return a, d

    def world_to_pixel_values(self, a, d):
        x, y = super().world_to_pixel_values(a, d)
        if self.bounding_box is not None:
            (x0, x1), (y0, y1) = self.box()
            out = (x < x0) | (x > x1) | (y < y0) | (y > y1)
            x, y = np.where(out, np.nan, x), np.where(out, np.nan, y)
        return x, y


class Box:
    """Bounding box in the style of astropy.modeling."""

    def __init__(self, xy):
        self.xy = xy

    def bounding_box(self, order="F"):
        return self.xy if order == "F" else self.xy[::-1]


class Failing:
    """A library whose n-th call fails."""

    def __init__(self, lib, counter):
        self.__dict__["_lib"], self.__dict__["_counter"] = lib, counter

    def __getattr__(self, name):
        a = getattr(self._lib, name)
        if not callable(a) or isinstance(a, type):
            return a
        c = self._counter

        def call(*args, **kw):
            c[0] -= 1
            if c[0] == 0:
                c[2] = True
                raise c[1]
            return a(*args, **kw)
        return call


def setup():
    import stcal.resample  # noqa: F401
    mo.quiet()
    gc.collect()
    gc.freeze()


def gen_wcs(rng, kind):
    ny, nx = rng.pick([(rng.randrange(3, 12), rng.randrange(3, 12)), (rng.randrange(11, 30), rng.randrange(11, 30))])
    return {"kind": kind, "shape": [ny, nx], "theta": rng.pick([0, 0, 20, 90, 180]), "ratio": rng.pick([1.0, 0.5, 1.5]),
            "shift": [rng.pick([0.0, 1.5, -4.0]), rng.pick([0.0, 1.5, -4.0])],
            "bbox": rng.weighted([("none", 2), ("full", 3), ("part", 3), ("odd", 1), ("bad", 0.3 if kind == "linear" else 0)]),
            "box": rng.pick(["tuple", "list", "object"]) if kind == "linear" else rng.pick(["F", "C"]), "has_shape": rng.chance(0.8), "nan": rng.chance(0.1)}


def gen(rng, tier, index):
    kind = rng.weighted([("linear", 9), ("gwcs", 1)])
    pair = [gen_wcs(rng, kind), gen_wcs(rng, kind)]
    if kind == "gwcs":  # few different objects, made once
        for p in pair:
            p.update(theta=rng.pick([0, 20]), ratio=1.0, shift=[0.0, 0.0])
    calls = []
    for _ in range(rng.randrange(1, 5)):
        f = None
        k = rng.weighted([("none", 2), ("wcs", 4), ("lib", 3), ("line", 4 if kind == "linear" else 0)])
        exc = rng.pick(["MemoryError", "KeyboardInterrupt", "ValueError", "RuntimeError", "InjectedFault", "SystemExit", "FloatingPointError"])
        if k == "wcs":
            f = {"kind": "wcs", "which": rng.randrange(2), "at": rng.pick([1, 1, 2]), "exc": exc}
        elif k == "lib":
            f = {"kind": "lib", "at": rng.randrange(1, 16), "exc": exc}
        elif k == "line":
            f = {"kind": "line", "at": rng.randrange(1, 60), "exc": exc}
        calls.append({"swap": rng.chance(0.2), "shape": rng.pick(["none", "none", "given", "other", "bad"]), "mode": rng.weighted(
            [("default", 2), ("to", 2), ("from", 3), ("both", 4), ("none", 1), ("nonsense", 0.5)]), "step": rng.pick([1, 2, 3, 5, 50]),
            "order": rng.pick([1, 3, 3, 2]), "fault": f})
    return {"pair": pair, "same": rng.chance(0.12), "calls": calls}


def bbox_of(s):
    ny, nx = s["shape"]
    return {"none": None, "full": ((-0.5, nx - 0.5), (-0.5, ny - 0.5)), "part": ((0.7, nx - 1.7), (0.2, ny - 2.1)),
            "odd": ((-3.0, nx + 2.0), (0.5, ny - 0.5)), "bad": (1.0, 2.0)}[s["bbox"]]


def make(s, number, log):
    b = bbox_of(s)
    mat = mo.matrix(s["theta"], s["ratio"])
    if s["kind"] == "gwcs":
        w = mo.gwcs_object(("c10", number, s["theta"]), s["shape"], mat, s["shift"], None)
        if b is not None:
            if s["box"] == "C":
                from astropy.modeling.bounding_box import ModelBoundingBox
                t = w.get_transform(*w.available_frames[:2])
                w.bounding_box = ModelBoundingBox.validate(t, b[::-1], order="C")
            else:
                w.bounding_box = b
        w.array_shape = tuple(s["shape"]) if s["has_shape"] else None
        return w
    if b is not None:
        b = {"tuple": b, "list": [list(x) if isinstance(x, tuple) else x for x in b], "object": Box(b) if s["bbox"] != "bad" else b}[s["box"]]
    w = W(s["shape"], mat, s["shift"], b, log)
    if not s["has_shape"]:
        w.array_shape = w.pixel_shape = None
    return w


def canon(b):
    if b is None:
        return None
    if hasattr(b, "bounding_box"):
        b = b.bounding_box(order="F")
    return [[float(v) for v in x] if isinstance(x, (tuple, list, np.ndarray)) else float(x) for x in b]


def state(w):
    if isinstance(w, W):
        d = {k: v for k, v in w.__dict__.items() if k not in ("bounding_box", "uses", "log", "fail_at", "error", "late", "output_frame")}
        d = {k: (v if not isinstance(v, tuple) else list(v)) for k, v in d.items()}
        return dict(d, bounding_box=canon(w.bounding_box), frame=list(w.output_frame.axes_type))
    x = np.array([0.0, 2.0, -1.0, 30.0])
    t = w.get_transform(*w.available_frames[:2])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sky = w(x, x[::-1])
        back = w.invert(*w(x, x[::-1], with_bounding_box=False), with_bounding_box=True)
    return {"bounding_box": canon(w.bounding_box), "shape": None if w.array_shape is None else list(w.array_shape),
            "pshape": None if w.pixel_shape is None else list(w.pixel_shape), "attrs": sorted(w.__dict__), "inputs": list(t.inputs),
            "ignored": [] if w.bounding_box is None else list(map(str, w.bounding_box.ignored)), "sky": list(sky), "back": list(back),
            "frames": list(w.available_frames), "has": w.bounding_box is None}


def run(plan, rec):
    import stcal.resample.utils as ut
    log = []
    ws = [make(s, k, log) for k, s in enumerate(plan["pair"])]
    specs = list(plan["pair"])
    if plan["same"]:
        ws[1], specs[1] = ws[0], specs[0]
        rec.probe("same_object")
    if specs[0]["kind"] == "gwcs":
        rec.probe("gwcs")
        if any(s["box"] == "C" and s["bbox"] != "none" for s in specs):
            rec.probe("c_order_box")
    for c in plan["calls"]:
        a, b = (1, 0) if c["swap"] else (0, 1)
        shape = {"none": None, "given": tuple(specs[a]["shape"]), "other": (specs[a]["shape"][0] + 2, specs[a]["shape"][1] + 1), "bad": (4,)}[c["shape"]]
        kw = {"stepsize": c["step"], "order": c["order"]}
        if c["mode"] != "default":
            kw["disable_bbox"] = c["mode"]
        f = c["fault"]
        before = [state(w) for w in ws]
        boxed = any(x["bounding_box"] is not None for x in before)
        limit = None
        if f and f["kind"] == "line":  # where does the call start putting boxes back?
            limit = restore_line(ut, ws[a], ws[b], shape, kw, log)
        outcome, fired, removed = one(ut, ws[a], ws[b], shape, kw, f, limit, log)
        after = [state(w) for w in ws]
        rec.steps += 1
        rec.event(c["mode"], c["step"], c["order"], c["shape"], f["kind"] if f else "-", "fired" if fired else "", outcome)
        if fired:
            rec.fault({"wcs": "coordinate-system", "lib": "library-call", "line": "interrupt-at-line"}[f["kind"]])
            rec.probe({"wcs": "wcs_failed", "lib": "library_failed", "line": "line_failed"}[f["kind"]])
            if f["exc"] == "KeyboardInterrupt":
                rec.probe("interrupted")
            if boxed:
                rec.probe("failed_with_box")
                rec.nontrivial = True
        elif outcome != "ok":
            rec.probe("bad_argument")
        if removed:
            rec.probe("box_removed")
        if c["step"] > 1 and outcome == "ok" and max(specs[a]["shape"]) > 10:
            rec.probe("spline")
        for k, w in enumerate(("first", "second")):
            if not core.same(before[k], after[k]):
                which = [q for q in before[k] if not core.same(before[k][q], after[k].get(q))]
                rec.violation(f"changed:{which[0] if which else 'attributes'}",
                              f"after a pixel map with disable_bbox={c['mode']!r}, step {c['step']} that ended with {outcome}, "
                              f"the {'from' if k == a else 'to'} coordinate system has {which} "
                              f"{[after[k].get(q) for q in which][:1]} instead of {[before[k].get(q) for q in which][:1]}")
                return
        rec.state(specs[a]["kind"], specs[a]["bbox"], specs[b]["bbox"], c["mode"], c["step"] > 1, c["order"], c["shape"], f and f["kind"], f and f["at"], outcome)


def restore_line(ut, a, b, shape, kw, log):
    """Count the lines a clean call runs before it first sets a bounding box that is not None."""
    box = {}
    t = LineFault(10 ** 9, None, only="resample")
    del log[:]
    orig = W.__setattr__

    def spy(self, k, v):
        if k == "bounding_box" and v is not None and "n" not in box:
            box["n"] = t.count
        orig(self, k, v)
    W.__setattr__ = spy
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sys.settrace(t.glob)
            try:
                ut.calc_pixmap(a, b, shape, **kw)
            except Exception:  # noqa: BLE001
                pass
            finally:
                sys.settrace(None)
    finally:
        W.__setattr__ = orig
    a.uses = b.uses = 0
    return box.get("n", t.count) - 2


def one(ut, a, b, shape, kw, f, limit, log):
    tracer, saved = None, {}
    counter = None
    del log[:]
    for w in {id(a): a, id(b): b}.values():
        if isinstance(w, W):
            w.uses, w.fail_at = 0, None
    target = None
    if f:
        err = make_exception(f["exc"])
        if f["kind"] == "wcs":
            target = (a, b)[f["which"]]
            if isinstance(target, W):
                target.error, target.fail_at = err, f["at"]
            else:
                left = [f["at"], False]
                for name in ("pixel_to_world_values", "world_to_pixel_values"):
                    def call(*args, _f=getattr(target, name)):
                        left[0] -= 1
                        if left[0] == 0:
                            left[1] = True
                            raise err
                        return _f(*args)
                    target.__dict__[name] = call
        elif f["kind"] == "lib":
            counter = [f["at"], err, False]
            for name in ("np", "interpolate", "math"):
                if hasattr(ut, name):
                    saved[name] = getattr(ut, name)
                    setattr(ut, name, Failing(saved[name], counter))
        elif limit is not None and f["at"] < limit:
            def action():
                raise err
            tracer = LineFault(f["at"], action, only="resample")
    outcome = "ok"
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if tracer:
                sys.settrace(tracer.glob)
            try:
                ut.calc_pixmap(a, b, shape, **kw)
            finally:
                sys.settrace(None)
    except (Exception, KeyboardInterrupt, SystemExit) as e:
        outcome = type(e).__name__
        e.__traceback__ = None
    finally:
        for name, lib in saved.items():
            setattr(ut, name, lib)
        if f and f["kind"] == "wcs" and not isinstance(target, W):
            for name in ("pixel_to_world_values", "world_to_pixel_values"):
                target.__dict__.pop(name, None)
    fired = bool((tracer and tracer.fired) or (counter and counter[2]))
    if f and f["kind"] == "wcs":
        fired = target.fail_at is not None and target.uses >= target.fail_at if isinstance(target, W) else left[1]
        if isinstance(target, W):
            target.fail_at = target.error = None
    return outcome, fired, any(not x for x in log)


def shrink(plan):
    calls = plan["calls"]
    if len(calls) > 1:
        for i in range(len(calls)):
            yield dict(plan, calls=calls[:i] + calls[i + 1:])
    for i, c in enumerate(calls):
        for k, v in {"swap": False, "shape": "none", "step": 1, "order": 1, "fault": None}.items():
            if c[k] != v:
                yield dict(plan, calls=calls[:i] + [dict(c, **{k: v})] + calls[i + 1:])
    if plan["same"]:
        yield dict(plan, same=False)
    for j, s in enumerate(plan["pair"]):
        for k, v in {"theta": 0, "ratio": 1.0, "shift": [0.0, 0.0], "bbox": "full", "has_shape": True, "shape": [4, 5]}.items():
            if s[k] != v:
                yield dict(plan, pair=plan["pair"][:j] + [dict(s, **{k: v})] + plan["pair"][j + 1:])
