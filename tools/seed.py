"""Make and try planted changes (development aid; no check reads this or /verif/seeded).

make(id, prop, edits, demo, needs, breaks): writes /verif/seeded/<id>/ from edits [(file, old, new)].
python tools/seed.py try ID...    confirm each in a scratch copy (tests pass, demo 0 / nonzero)
python tools/seed.py check ID...  apply to /repo, run the property's check, undo
"""

import json
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

SEEDED = Path("/verif/seeded")
SRC = "src/upstage_des/"
ENV = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH",)} | {"PYTHONDONTWRITEBYTECODE": "1"}
DEMO_SH = """#!/bin/bash
# run with cwd /repo: exit 0 when the property holds, nonzero otherwise
export PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH="$PWD/src"
exec timeout 200 /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, **kw)


def copy():
    d = tempfile.mkdtemp(prefix="seedwork.", dir="/tmp")
    sh(f"cp -a /repo {d}/repo")
    return d


def make(sid, prop, edits, demo, needs, breaks):
    d = copy()
    try:
        for rel, old, new in edits:
            p = Path(d, "repo", SRC, rel)
            s = p.read_text()
            assert s.count(old) == 1, (sid, rel, s.count(old))
            p.write_text(s.replace(old, new))
        diff = sh("git diff", cwd=f"{d}/repo").stdout
        assert diff
        out = SEEDED / sid
        out.mkdir(parents=True, exist_ok=True)
        (out / "patch.diff").write_text(diff)
        (out / "demo.py").write_text(demo)
        (out / "demo.sh").write_text(DEMO_SH)
        (out / "meta.json").write_text(
            json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    finally:
        shutil.rmtree(d)


def stable():
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def try_one(sid):
    import xml.etree.ElementTree as ET

    sd = SEEDED / sid
    if "src/upstage_des/test" in (sd / "patch.diff").read_text():
        return "touches tests"
    r = sh(f"bash {sd}/demo.sh", cwd="/repo")
    if r.returncode != 0:
        return f"demo fails on /repo: {(r.stdout + r.stderr)[-500:]}"
    d = copy()
    try:
        r = sh(f"git apply {sd}/patch.diff", cwd=f"{d}/repo")
        if r.returncode:
            return "does not apply: " + r.stderr
        r = sh(f"bash {sd}/demo.sh", cwd=f"{d}/repo")
        if r.returncode == 0:
            return "demo passes with the patch"
        demo = (r.stdout + r.stderr).strip().splitlines()[-1:]
        r = sh(f"PYTHONHASHSEED=0 PYTHONPATH={d}/repo/src /opt/venv/bin/python -m pytest src/upstage_des -q -o addopts= "
               f"-p no:cacheprovider --timeout=300 -o junit_family=xunit2 --junitxml={d}/j.xml", cwd=f"{d}/repo")
        ok = set()
        for tc in ET.parse(f"{d}/j.xml").iter("testcase"):
            if not list(tc.iter("failure")) and not list(tc.iter("error")):
                ok.add(f"{tc.get('classname')}::{tc.get('name')}")
        missing = stable() - ok
        if missing:
            return f"tests fail: {sorted(missing)[:5]}"
        return f"ok ({demo})"
    finally:
        shutil.rmtree(d)


def check_one(sid, tier="--quick"):
    sd = SEEDED / sid
    prop = json.loads((sd / "meta.json").read_text())["property"]
    assert not sh("git status --porcelain", cwd="/repo").stdout, "repo not clean"
    r = sh(f"git apply {sd}/patch.diff", cwd="/repo")
    assert r.returncode == 0, r.stderr
    try:
        r = sh(f"/verif/bin/check {prop} {tier}", cwd="/verif")
    finally:
        sh("git checkout -- .", cwd="/repo")
    out = r.stdout.strip().splitlines()
    keep = [x[:300] for x in out if "VIOLATION" in x or x.startswith("  ")][:2] or out[-3:]
    verdict = "CAUGHT" if r.returncode == 1 and any(f"VIOLATION property={prop}" in x for x in out) else f"MISSED rc={r.returncode}"
    return f"{verdict} {keep}"


if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(p.name for p in SEEDED.iterdir())
    for i in ids:
        print(i, (try_one if sys.argv[1] == "try" else check_one)(i), flush=True)
