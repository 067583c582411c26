"""Write properties.jsonl and MANIFEST.json from tools/properties.py and the checks present."""
import importlib
import json
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
from tools.properties import CLAIMED, NOT_APPLICABLE  # noqa: E402

TECH = "deterministic simulation with fault injection: "


def main():
    with open(ROOT / "properties.jsonl", "w") as f:
        for p in CLAIMED + [n for n, _ in NOT_APPLICABLE]:
            assert len(p["title"]) <= 80, p["title"]
            assert p["statement"].count(". ") <= 2, p["id"]
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in CLAIMED:
        mod = ROOT / "checks" / f"{p['id'].lower()}.py"
        if not mod.exists():
            na.append({"property": p["id"], "reason": "claim under construction: its simulator is not built yet"})
            continue
        m = importlib.import_module(f"checks.{p['id'].lower()}")
        checks.append({
            "property": p["id"], "quick_cmd": f"python3 run_check.py {p['id']}",
            "thorough_cmd": f"python3 run_check.py {p['id']} --tier thorough", "technique": TECH + m.TECHNIQUE,
            "level": m.LEVEL, "level_note": m.LEVEL_NOTE, "evidence_file": f"evidence/{p['id']}.json"})
    na += [{"property": n["id"], "reason": r} for n, r in NOT_APPLICABLE]
    man = {"version": 1, "setup_cmd": "python3 -m sim.build py ext shims", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. One seed is one execution; replay a failure with: python3 replay.py replays/<file>"}
    hooks = json.loads((ROOT / "tools" / "hooks.json").read_text()) if (ROOT / "tools" / "hooks.json").exists() else None
    if hooks:
        man["hooks"] = hooks
    (ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")


if __name__ == "__main__":
    main()
