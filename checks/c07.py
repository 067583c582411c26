"""C07: temporary storage of on-disk medians is always removed, and computers sharing a directory do not disturb each other or other files."""
import gc
import os

from checks.c06 import Lines
from sim import core, disk, mediangen as mg

ID = "C07"
TREE = "py"
SHIM = "disk"
LEVEL = "fault_enumeration"
QUICK_RUNS, THOROUGH_RUNS = 25000, 625000
QUICK_BUDGET_S = 200
TECHNIQUE = "seeded interleavings of several on-disk medians in one directory with foreign files, name collisions, disk errors, interrupts and changes of directory"
LEVEL_NOTE = ("seeded search over interleavings and fault points; the real median code and tempfile on a simulated disk; the directory is compared "
              "with its state before and every median with a sorting reference.")
RULE = ("one run = 1-4 computers whose creation, appends, evaluation and release are interleaved by the seed in one directory that holds foreign files, with 0-2 "
        "faults planned; non-trivial when two computers were alive together or a fault fired")
STATE_MEASURE = "distinct (sequence of operation kinds, outcome of each, faults fired) tuples"
COMPONENTS = {"real": ["stcal.outlier_detection.median", "numpy file I/O", "tempfile", "shutil", "garbage collector"], "stub": ["libc file calls", "temporary names"]}
ASSUMPTIONS = ["storage whose removal the operating system itself refused may stay behind"]
REQUIRED_PROBES = ["two_alive", "construct_failed", "released_unevaluated", "evaluated", "name_collision", "directory_changed", "append_failed", "evaluate_failed",
                   "interrupted", "released_in_cycle"]
KINDS = [("open", 5), ("write", 4), ("read", 3), ("close", 1), ("fdopen", 1), ("mkdir", 2), ("unlink", 1)]


def setup():
    disk.lib()
    import stcal.outlier_detection.median  # noqa: F401
    gc.collect()
    gc.freeze()


def gen(rng, tier, index):
    ncomp = rng.weighted([(1, 2), (2, 4), (3, 2), (4, 1)])
    stacks = []
    for _ in range(ncomp):
        p = mg.gen_stack(rng, small=True)
        p["dims"][0] = min(p["dims"][0], 5)
        if p["dtype"] == "int32":
            p["dtype"] = "float32"
        stacks.append(p)
    if ncomp > 1 and rng.chance(0.5):
        for p in stacks[1:]:
            p.update(dims=stacks[0]["dims"], dtype=stacks[0]["dtype"], buffer=stacks[0]["buffer"])
    queues = []
    for c, p in enumerate(stacks):
        q = [["new", c]] + [["append", c]] * rng.weighted([(p["dims"][0], 6), (rng.randrange(0, p["dims"][0] + 1), 2)])
        if rng.chance(0.75):
            q.append(["evaluate", c])
            if rng.chance(0.2):
                q.append(["evaluate", c])
            if rng.chance(0.15):
                q.append(["append", c])
        q.append([rng.pick(["release", "release", "cycle"]), c])
        if rng.chance(0.15):
            q += [["new", c]] + [["append", c]] * p["dims"][0] + [["evaluate", c], ["release", c]]
        queues.append(q)
    ops = []
    while any(queues):
        q = rng.pick([q for q in queues if q])
        ops.append(q.pop(0))
        if rng.chance(0.04):
            ops.append(["chdir", rng.randrange(3)])
    faults = [disk.gen_fault(rng, KINDS, maxnth=rng.pick([10, 60, 150])) for _ in range(rng.weighted([(0, 3), (1, 4), (2, 1)]))]
    line = [int(2 ** (rng.random() * 9)), rng.pick(["KeyboardInterrupt", "MemoryError"])] if rng.chance(0.3) else None
    return {"stacks": stacks, "ops": ops, "faults": faults, "line": line, "names": rng.ints(12), "repeat": rng.pick([0, 0, 2, 5]),
            "cwd": rng.chance(0.3), "foreign": rng.randrange(0, 4)}


class Cycle:
    pass


def run(plan, rec):
    from stcal.outlier_detection.median import MedianComputer
    home = os.getcwd()
    try:
        _run(plan, rec, MedianComputer)
    finally:
        os.chdir(home)
        gc.collect()


def snapshot(d):
    with d.aside():
        out = {}
        for r, ds, fs in os.walk(d.root):
            for x in ds:
                out[os.path.relpath(os.path.join(r, x), d.root)] = None
            for x in fs:
                with open(os.path.join(r, x), "rb") as f:
                    out[os.path.relpath(os.path.join(r, x), d.root)] = f.read()
    return out


def _run(plan, rec, MedianComputer):
    with disk.Disk(rec) as d, disk.names(plan["names"], plan["repeat"], [os.path.join(d.root, x) for x in ("work", "else0", "else1")]):
        with d.aside():
            work = os.path.join(d.root, "work")
            for sub in ("work", "else0", "else1"):
                os.mkdir(os.path.join(d.root, sub))
            for k in range(plan["foreign"]):
                # foreign files, also where the next temporary name would go and with the names of section files
                name = [f"tmpn{k + 1:05d}{plan['names'][(k + 1) % len(plan['names'])] % 997:03d}", "0.bin", "notes.txt", "tmpabc"][k]
                if k in (0, 3):
                    os.mkdir(os.path.join(work, name))
                    name = os.path.join(name, "0.bin")
                with open(os.path.join(work, name), "w") as f:
                    f.write("foreign" * k)
            os.chdir(work)
        before = snapshot(d)
        for f in plan["faults"]:
            d.plan(f)
        lines = Lines(plan["line"], rec)
        comps, accepted, hurt, evaluated = {}, {}, {}, set()
        trail = []
        for kind, c in plan["ops"]:
            if kind == "chdir":
                with d.aside():
                    os.chdir(os.path.join(d.root, ["work", "else0", "else1"][c]))
                rec.probe("directory_changed")
                continue
            p = plan["stacks"][c]
            n, rows, cols = p["dims"]
            if kind != "new" and c not in comps:
                continue
            fired0 = (d.fired(), lines.fired)
            got, failed = None, None
            try:
                if kind == "new":
                    where = "" if plan["cwd"] else work
                    comps[c] = lines.call(lambda p=p, w=where: MedianComputer(tuple(p["dims"]), False, p["buffer"], p["dtype"], w))
                    accepted[c], hurt[c] = [], False
                    evaluated.discard(c)
                elif kind == "append":
                    k = len(accepted[c]) + 100 * c
                    lines.call(comps[c].append, mg.image(p, k))
                    accepted[c].append(k)
                elif kind == "evaluate":
                    got = lines.call(comps[c].evaluate)
                elif kind == "cycle":
                    a, b = Cycle(), Cycle()
                    a.other, b.other, a.comp = b, a, comps.pop(c)
                    del a, b
                    gc.collect()
                    rec.probe("released_in_cycle")
                else:
                    del comps[c]
                    gc.collect()
            except core.HarnessError:
                raise
            except (Exception, KeyboardInterrupt) as e:
                failed = type(e).__name__
                text = core.exc_text(e).replace(d.root, "<disk>")
            fired = (d.fired(), lines.fired) != fired0
            trail.append((kind, failed, fired))
            rec.event(kind, c, failed or "ok", "fault" if fired else "")
            if len(comps) > 1:
                rec.probe("two_alive")
                rec.nontrivial = True
            if kind in ("release", "cycle"):
                if c not in evaluated:
                    rec.probe("released_unevaluated")
                continue
            if failed:
                rec.probe({"new": "construct_failed", "append": "append_failed", "evaluate": "evaluate_failed"}[kind])
                if not fired and not hurt.get(c) and c not in evaluated and not (kind == "append" and len(accepted[c]) >= n):
                    rec.violation("disturbed", f"{kind} of computer {c} raised {text} though no fault hit it ({len(comps)} alive, {trail[-8:]})")
                    break
            if kind != "new" or not failed:
                hurt[c] = hurt[c] or fired
            if kind == "evaluate" and not failed:
                rec.probe("evaluated")
                bad = mg.agree(got, mg.reference([mg.image(p, k) for k in accepted[c]], (rows, cols), p["dtype"]), p["dtype"])
                if bad:
                    rec.violation("wrong-median", f"computer {c} with {len(comps)} alive: {bad}")
                evaluated.add(c)
                if d.fired_kind("unlink") == 0 and not fired and len(comps) == 1:
                    left = sorted(set(snapshot(d)) - set(before))
                    if left:
                        rec.violation("left-after-median", f"{left[:4]} still on disk after the median was returned")
        del got
        comps.clear()
        gc.collect()
        d.tally()
        refused = d.fired_kind("unlink")
        after = snapshot(d)
        left = sorted(set(after) - set(before))
        if left and not refused:
            rec.violation("left-behind", f"{left[:4]} left in the temporary directory after every computer was released ({trail[-10:]})")
        gone = sorted(x for x in before if x not in after or after[x] != before[x])
        if gone:
            rec.violation("foreign-removed", f"{gone[:4]} removed or changed though it was not the computers' ({trail[-10:]})")
        if plan["repeat"]:
            rec.probe("name_collision")
        rec.nontrivial = rec.nontrivial or bool(d.fired() or lines.fired)
        rec.steps += d.ops()
        rec.state(trail)


def shrink(plan):
    for k in range(len(plan["faults"])):
        yield dict(plan, faults=plan["faults"][:k] + plan["faults"][k + 1:])
    if plan["line"]:
        yield dict(plan, line=None)
    for c in {o[1] for o in plan["ops"] if o[0] != "chdir"}:
        ops = [o for o in plan["ops"] if o[0] == "chdir" or o[1] != c]
        if ops and len(ops) < len(plan["ops"]):
            yield dict(plan, ops=ops)
    for k in range(len(plan["ops"])):
        if plan["ops"][k][0] in ("append", "chdir", "evaluate"):
            yield dict(plan, ops=plan["ops"][:k] + plan["ops"][k + 1:])
    for c, s in enumerate(plan["stacks"]):
        for p in mg.shrink_stack(s):
            yield dict(plan, stacks=plan["stacks"][:c] + [p] + plan["stacks"][c + 1:])
    if plan["foreign"]:
        yield dict(plan, foreign=0)
    if plan["repeat"]:
        yield dict(plan, repeat=0)
