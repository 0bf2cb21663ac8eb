"""Write properties.jsonl and MANIFEST.json from the PROPERTY records of the check modules.

Usage: /opt/venv/bin/python tools/gen.py      (run in /verif)
"""

import importlib
import json
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
sys.dont_write_bytecode = True

LEVEL_NOTE = (
    "Exploration by runtime monitoring: the oracle judged every execution of the generated workload "
    "(counts in the evidence file); executions not generated are not covered. Trusts SimPy, CPython "
    "and the monitor's own reference model. "
)

props, checks = [], []
for path in sorted((ROOT / "vf" / "checks").glob("c[0-9]*.py")):
    pid = path.stem.upper()
    mod = importlib.import_module(f"vf.checks.{path.stem}")
    p = dict(mod.PROPERTY)
    technique = p.pop("technique")
    note = p.pop("note", "")
    p = {"id": pid, **p}
    assert len(p["title"]) <= 80, (pid, len(p["title"]))
    for f in p["anchors"]["files"]:
        assert Path("/repo", f).exists(), (pid, f)
    props.append(p)
    checks.append({
        "property": pid,
        "quick_cmd": f"bin/check {pid} --quick",
        "thorough_cmd": f"bin/check {pid} --thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": technique,
        "level": "exploration",
        "level_note": LEVEL_NOTE + note,
    })

(ROOT / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in props))
manifest = {
    "version": 1,
    "setup_cmd": "bin/setup",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks were needed in /repo: every monitor attaches through the public interface. "
             "Repairs of genuine defects are the 'fix:' commits listed in known_findings.txt.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
print(len(props), "properties")
