#!/usr/bin/env python3
"""Run the check of one property.

usage: run_check.py PROP [--tier quick|thorough] [--runs N] [--shards K]

Exit 0: the property held on everything explored.
Exit 1: violated; prints "VIOLATION property=<id> replay=<path>".
Other:  the check itself failed.
"""
import argparse
import json
import os
import subprocess
import sys
import time
from collections import Counter
from pathlib import Path

VERIF = Path(__file__).resolve().parent
sys.path.insert(0, str(VERIF))
PY = "/opt/venv/bin/python"
if os.path.realpath(sys.executable) != os.path.realpath(PY) or os.environ.get("SIM_REEXEC") != "1":
    os.environ["SIM_REEXEC"] = "1"
    os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
    os.execv(PY, [PY, os.path.abspath(__file__), *sys.argv[1:]])

from sim import build  # noqa: E402


def shard_env(src, shim, hashseed="0"):
    env = build.base_env()
    env.update(PYTHONHASHSEED=hashseed, STCAL_SRC=str(src), PYTHONPATH=f"{src}:{VERIF}", SIM_NP=str(build.simnp()))
    if shim:
        env["LD_PRELOAD"] = str(shim)
        env["SIM_SHIM"] = str(shim)
        if "libasan" in str(shim):
            env.update(ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_odr_violation=0", PYTHONMALLOC="malloc")
    return env


def read_jsonl(path):
    if not path.exists():
        return
    for line in path.read_text().splitlines():
        try:
            yield json.loads(line)
        except ValueError:
            return


CRASH_SIGNALS = {-4: "SIGILL", -6: "SIGABRT", -7: "SIGBUS", -8: "SIGFPE", -11: "SIGSEGV"}


class Batch:
    def __init__(self, prop, tier, seed, env, workdir):
        self.prop, self.tier, self.seed, self.env, self.workdir = prop, tier, seed, env, workdir
        self.results = {}
        self.crashes = {}
        self.errors = []
        self.stopped = False

    def run(self, count, shards, deadline, tag="main"):
        procs = []
        for k in range(min(shards, count)):
            procs.append(self._start(k, shards, count, deadline, tag, k))
        t0 = time.monotonic()
        while procs:
            for item in list(procs):
                p, out, err, k = item
                rc = p.poll()
                if rc is None:
                    if time.monotonic() - t0 > deadline + 180:
                        p.kill()
                        p.wait()
                        procs.remove(item)
                        self.errors.append(f"shard {k}: wall clock limit; killed")
                    continue
                procs.remove(item)
                last, done = self._collect(out)
                if rc in CRASH_SIGNALS and last is not None and last not in self.results:
                    self.crashes[last] = CRASH_SIGNALS[rc]
                    nxt = last + shards
                    if nxt < count and len(self.crashes) < 24:
                        left = max(5.0, deadline - (time.monotonic() - t0))
                        procs.append(self._start(nxt, shards, count, left, tag, f"{k}r"))
                elif rc != 0 or not done:
                    tail = Path(err).read_text()[-3000:]
                    self.errors.append(f"shard {k} exited with {rc} at run {last}\n{tail}")
            time.sleep(0.05)

    def _start(self, start, stride, count, deadline, tag, name):
        out = self.workdir / f"{tag}-{name}.jsonl"
        n = 0
        while out.exists():
            n += 1
            out = self.workdir / f"{tag}-{name}.{n}.jsonl"
        err = self.workdir / (out.name + ".err")
        with open(err, "w") as e:
            p = subprocess.Popen(
                [PY, "-m", "sim.shard", self.prop, self.tier, str(self.seed), str(start), str(stride),
                 str(count), str(out), str(deadline)],
                cwd=self.workdir, env=self.env, stdout=e, stderr=e, stdin=subprocess.DEVNULL)
        return p, out, err, name

    def _collect(self, out):
        last, done = None, False
        for d in read_jsonl(out):
            if "b" in d:
                last = d["b"]
            elif "stopped" in d:
                self.stopped = True
            elif "done" in d:
                done = True
            else:
                self.results[d["i"]] = d
        return last, done


def gen_plan(prop, tier, seed, index, env, workdir):
    code = (
        "import json,sys;from sim import core\n"
        f"c=core.load_check({prop!r})\n"
        f"r=core.Rng(core.seed_for({seed},{prop!r},{index}))\n"
        f"print(json.dumps(c.gen(r,{tier!r},{index}),default=core._jd))\n"
    )
    r = subprocess.run([PY, "-c", code], cwd=workdir, env=env, capture_output=True, text=True)
    return json.loads(r.stdout.strip().splitlines()[-1])


def run_plan(prop, plan, env, workdir, name):
    """Fresh process; returns (set of sigs, digest, detail, events)."""
    pf = workdir / f"{name}.plan.json"
    of = workdir / f"{name}.out.json"
    pf.write_text(json.dumps(plan))
    if of.exists():
        of.unlink()
    r = subprocess.run([PY, "-m", "sim.shard", "--plan", prop, str(pf), str(of)], cwd=workdir, env=env,
                       capture_output=True, text=True, timeout=600)
    if r.returncode in CRASH_SIGNALS:
        return ({"process-crash"}, "crash", [{"class": "process-crash", "sig": "process-crash",
                                              "msg": CRASH_SIGNALS[r.returncode]}], r.stderr[-2000:].splitlines(), None)
    if r.returncode:
        return (set(), None, [], [], r.stderr[-3000:])
    lines = [json.loads(x) for x in of.read_text().splitlines()]
    d = lines[0]
    return {v["sig"] for v in d["v"]}, d["digest"], d["v"], lines[1]["events"], d["err"]


def load_known(prop):
    known = {}
    path = VERIF / "known_findings.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            if line.startswith("open:"):
                parts = dict(x.split("=", 1) for x in line.split()[1:3])
                if parts.get("property") == prop:
                    known[parts["sig"]] = line.split(None, 3)[3]
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--shards", type=int, default=int(os.environ.get("SIM_SHARDS", "8")))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    prop = a.prop.upper()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.monotonic()
    print(f"check {prop} tier={tier} VERIF_SEED={seed}", flush=True)

    import importlib
    os.environ.setdefault("STCAL_SRC", "")
    check = importlib.import_module(f"checks.{prop.lower()}")
    src = build.tree(getattr(check, "TREE", "py"))
    shim = build.shim(getattr(check, "SHIM", None))
    env = shard_env(src, shim)
    import shutil
    import tempfile
    workdir = Path(tempfile.mkdtemp(prefix=f"sim-{prop}-"))
    os.chmod(workdir, 0o755)
    code = 2
    try:
        code = _main(a, prop, tier, seed, t0, check, env, src, shim, workdir)
    finally:
        if not a.keep:
            shutil.rmtree(workdir, ignore_errors=True)
    return code


def _main(a, prop, tier, seed, t0, check, env, src, shim, workdir):
    runs = a.runs or (check.QUICK_RUNS if tier == "quick" else check.THOROUGH_RUNS)
    budget = a.budget or (getattr(check, "QUICK_BUDGET_S", 240) if tier == "quick"
                          else getattr(check, "THOROUGH_BUDGET_S", 1500))
    tb = time.monotonic()
    batch = Batch(prop, tier, seed, env, workdir)
    batch.run(runs, a.shards, budget)
    explore_s = time.monotonic() - tb
    results = [batch.results[i] for i in sorted(batch.results)]

    # violations by signature, lowest run index first
    found = {}
    for d in results:
        for v in d["v"]:
            found.setdefault(v["sig"], (d["i"], d.get("plan"), v))
    for i in sorted(batch.crashes):
        v = {"class": "process-crash", "sig": "process-crash", "msg": f"the process died of {batch.crashes[i]}"}
        found.setdefault("process-crash", (i, None, v))
    harness = [d["err"] for d in results if d["err"]] + batch.errors

    known = load_known(prop)
    new = {s: f for s, f in found.items() if s not in known}
    for s in sorted(known):
        if s in found:
            print(f"KNOWN-FINDING: property={prop} {known[s]}")
    # determinism: repeat a sample in fresh processes, other worker count, other PYTHONHASHSEED
    det = {"repeated": 0, "diverged": 0}
    diverged = []
    if not new and not harness:
        n = min(runs, getattr(check, "DET_SAMPLE_QUICK", 8) if tier == "quick" else 40)
        again = Batch(prop, tier, seed, shard_env(src, shim, hashseed="4242"), workdir)
        again.run(n, 3, budget, tag="det")
        for i, d in again.results.items():
            if i in batch.results:
                det["repeated"] += 1
                if d["digest"] != batch.results[i]["digest"]:
                    det["diverged"] += 1
                    diverged.append(i)
        harness += again.errors
        for d in again.results.values():
            for v in d["v"]:
                if v["sig"] not in known:
                    new.setdefault(v["sig"], (d["i"], d.get("plan"), v))

    replay_path = None
    if new:
        (VERIF / "replays").mkdir(exist_ok=True)
        order = sorted(new, key=lambda s: new[s][0])
        for k, sig in enumerate(order[:6]):
            index, plan, v = new[sig]
            if plan is None:
                plan = gen_plan(prop, tier, seed, index, env, workdir)
            path = VERIF / "replays" / f"{prop}-seed{seed}-run{index}-{k}.json"
            entry = {"property": prop, "seed": seed, "tier": tier, "run": index, "sig": sig,
                     "class": v["class"], "message": v["msg"], "minimised": False, "plan": plan}
            if k < 2:
                pf = workdir / f"min{k}.json"
                of = workdir / f"min{k}.out.json"
                pf.write_text(json.dumps(plan))
                try:
                    subprocess.run([PY, "-m", "sim.shard", "--minimise", prop, str(pf), sig, str(of), "45"],
                                   cwd=workdir, env=env, capture_output=True, text=True, timeout=400)
                    m = json.loads(of.read_text())
                    entry.update(plan=m["plan"], minimised=True, candidates_tried=m["tried"],
                                 candidates_kept=m["kept"])
                except Exception as e:
                    entry["minimise_error"] = str(e)[:500]
                sigs, digest, vs, events, _err = run_plan(prop, entry["plan"], env, workdir, f"rep{k}")
                if sig not in sigs and entry["plan"] != plan:
                    entry.update(plan=plan, minimised=False)
                    sigs, digest, vs, events, _err = run_plan(prop, plan, env, workdir, f"rep{k}b")
                entry.update(reproduced_in_fresh_process=sig in sigs, digest=digest, events=events[-400:])
                for x in vs:
                    if x["sig"] == sig:
                        entry["message"] = x["msg"]
            path.write_text(json.dumps(entry, indent=1, sort_keys=True))
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  run {index} of seed {seed}: [{sig}] {entry['message']}"[:1500], flush=True)
            replay_path = replay_path or path

    faults, probes, states = Counter(), Counter(), set()
    simtime = steps = 0
    digests = set()
    nontrivial = 0
    for d in results:
        faults.update(d["f"])
        probes.update(d["p"])
        states.update(d["s"])
        simtime += d["t"]
        steps += d["steps"]
        if d["n"] and d["digest"] not in digests:
            nontrivial += 1
        digests.add(d["digest"])
    samples = [{"run": d["i"], "plan": _clip(d["plan"])} for d in results if d.get("plan")][:3]
    wall = time.monotonic() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": check.LEVEL,
        "coverage": {
            "evaluations": len(results), "distinct_nontrivial": nontrivial, "rule": check.RULE,
            "samples": samples,
            "planned_runs": runs, "stopped_at_time_budget": batch.stopped,
            "runs_per_hour": round(len(results) / max(explore_s, 1e-9) * 3600),
            "shards": a.shards,
            "simulated_seconds": round(simtime, 3), "scheduler_steps": steps,
            "faults_fired": dict(sorted(faults.items())),
            "rare_condition_probes": dict(sorted(probes.items())),
            "distinct_states": len(states), "state_measure": check.STATE_MEASURE,
            "distinct_event_logs": len(digests),
            "determinism": det,
            "components": check.COMPONENTS,
            "known_findings_seen": sorted(s for s in known if s in found),
            "new_violation_signatures": sorted(new),
            "harness_errors": len(harness),
        },
        "assumptions": check.ASSUMPTIONS, "wall_s": round(wall, 1), "violations": len(new),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1, sort_keys=True) + "\n")
    print(f"{prop}: {len(results)} runs ({nontrivial} distinct non-trivial) in {wall:.1f} s, "
          f"faults {dict(faults)}, probes {dict(probes)}, states {len(states)}, "
          f"repeats {det}", flush=True)
    if new:
        return 1
    if harness:
        print(f"HARNESS ERROR ({len(harness)}): {harness[0][:4000]}")
        return 3
    if diverged:
        print(f"HARNESS ERROR: not deterministic, runs {diverged}")
        return 4
    if not results:
        print("HARNESS ERROR: no runs")
        return 5
    stuck = [p for p in getattr(check, "REQUIRED_PROBES", []) if not probes[p] and not faults[p]]
    if stuck and not batch.stopped and not a.runs:
        print(f"WARNING: never reached: {stuck}")
    return 0


def _clip(plan, limit=3000):
    s = json.dumps(plan)
    return plan if len(s) <= limit else {"clipped": s[:limit]}


if __name__ == "__main__":
    sys.exit(main())
