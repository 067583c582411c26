#!/usr/bin/env python3
"""Replay a violation file in a fresh process: exit 1 when it fails the same way.

usage: replay.py /verif/replays/FILE.json
"""
import json
import os
import sys
import tempfile
from pathlib import Path

VERIF = Path(__file__).resolve().parent
sys.path.insert(0, str(VERIF))
PY = "/opt/venv/bin/python"
if os.environ.get("SIM_REEXEC") != "1":
    os.environ["SIM_REEXEC"] = "1"
    os.execv(PY, [PY, os.path.abspath(__file__), *sys.argv[1:]])
import run_check  # noqa: E402
from sim import build, core  # noqa: E402


def main():
    entry = json.loads(Path(sys.argv[1]).read_text())
    check = core.load_check(entry["property"])
    src = build.tree(getattr(check, "TREE", "py"))
    shim = build.shim(getattr(check, "SHIM", None))
    with tempfile.TemporaryDirectory() as d:
        sigs, digest, vs, events, err = run_check.run_plan(
            entry["property"], entry["plan"], run_check.shard_env(src, shim), Path(d), "replay")
    for e in events:
        print("   ", e[:300])
    for v in vs:
        print(f"[{v['sig']}] {v['msg']}")
    if err:
        print("HARNESS ERROR", err)
        return 3
    if entry["sig"] in sigs:
        print("reproduced" + ("" if digest == entry.get("digest") else " (event log differs from the recorded one)"))
        return 1
    print("not reproduced")
    return 0


if __name__ == "__main__":
    sys.exit(main())
