"""Worker process of a check: runs a strided range of run indices, one JSON line each.

usage: python -m sim.shard PROP TIER SEED START STRIDE COUNT OUT DEADLINE_S
Also:  python -m sim.shard --plan PROP PLANFILE OUT      (execute one given plan)
       python -m sim.shard --minimise PROP PLANFILE CLASS OUT SECONDS
"""
import faulthandler
import json
import logging
import os
import signal
import sys
import time
import warnings

from . import core


def prepare(prop):
    faulthandler.enable()
    logging.disable(logging.CRITICAL)
    sys.stderr.reconfigure(line_buffering=True)
    check = core.load_check(prop)
    check.setup()
    core.assert_tree()
    return check


def result_line(index, plan, rec, err, want_plan):
    d = {"i": index, "digest": rec.digest(), "v": rec.violations, "f": rec.faults, "p": rec.probes,
         "s": sorted(rec.states), "t": rec.simtime, "n": rec.nontrivial, "err": err, "steps": rec.steps}
    if want_plan:
        d["plan"] = plan
    return json.dumps(d, default=core._jd)


def run_with_alarm(check, plan):
    limit = int(getattr(check, "RUN_LIMIT_S", 120))

    def on_alarm(_s, _f):
        raise core.HarnessError(f"run exceeded {limit} s of wall clock")

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    try:
        return core.execute(check, plan)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def main_range(a):
    prop, tier, seed, start, stride, count, out, deadline = a[:8]
    seed, start, stride, count, deadline = int(seed), int(start), int(stride), int(count), float(deadline)
    t0 = time.monotonic()
    check = prepare(prop)
    with open(out, "a", buffering=1) as f:
        for index in range(start, count, stride):
            if time.monotonic() - t0 > deadline:
                f.write(json.dumps({"stopped": index}) + "\n")
                break
            f.write(json.dumps({"b": index}) + "\n")
            rng = core.Rng(core.seed_for(seed, prop, index))
            plan = json.loads(json.dumps(check.gen(rng, tier, index), default=core._jd))
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                rec, err = run_with_alarm(check, plan)
            f.write(result_line(index, plan, rec, err, bool(rec.violations) or err or index < 3) + "\n")
        f.write(json.dumps({"done": True}) + "\n")


def main_plan(a):
    prop, planfile, out = a
    check = prepare(prop)
    with open(planfile) as f:
        plan = json.load(f)
    plan = plan.get("plan", plan)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rec, err = run_with_alarm(check, plan)
    with open(out, "w") as f:
        f.write(result_line(0, plan, rec, err, False) + "\n")
        f.write(json.dumps({"events": rec.events}) + "\n")


def forked(check, plan):
    """Run one candidate in a forked child; returns the set of violation classes."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                rec, err = run_with_alarm(check, plan)
            data = json.dumps([[v["sig"] for v in rec.violations], bool(err)]).encode()
            os.write(w, data[:60000])
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    while True:
        c = os.read(r, 65536)
        if not c:
            break
        buf += c
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return {"process-crash"}
    try:
        sigs, err = json.loads(buf)
    except ValueError:
        return set()
    return set() if err else set(sigs)


def main_minimise(a):
    prop, planfile, sig, out, seconds = a
    check = prepare(prop)
    with open(planfile) as f:
        plan = json.load(f)
    t0 = time.monotonic()
    tried = kept = 0
    progress = True
    while progress and time.monotonic() - t0 < float(seconds):
        progress = False
        for cand in check.shrink(plan):
            if time.monotonic() - t0 > float(seconds):
                break
            cand = json.loads(json.dumps(cand, default=core._jd))
            if cand == plan:
                continue
            tried += 1
            if sig in forked(check, cand):
                plan = cand
                kept += 1
                progress = True
                break
    core.jdump({"plan": plan, "tried": tried, "kept": kept}, out)


if __name__ == "__main__":
    argv = sys.argv[1:]
    if argv[0] == "--plan":
        main_plan(argv[1:])
    elif argv[0] == "--minimise":
        main_minimise(argv[1:])
    else:
        main_range(argv)
