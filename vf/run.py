"""Run one property's check: shard the cases, judge, write evidence, report."""

from __future__ import annotations

import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
import warnings
from collections import Counter
from pathlib import Path
from typing import Any

from . import core

ROOT = Path(__file__).resolve().parent.parent
SHARDS = 8


def load_known(prop: str) -> dict[str, str]:
    known: dict[str, str] = {}
    path = ROOT / "known_findings.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            line = line.strip()
            if not line.startswith("{"):
                continue
            d = json.loads(line)
            if d["property"] == prop and d.get("kind") == "finding":
                known[d["key"]] = d["what"]
    return known


def replay(prop: str, path: str) -> int:
    warnings.simplefilter("ignore")
    d = json.loads(Path(path).read_text())
    hs = d.get("hashseed", "0")
    if os.environ.get("PYTHONHASHSEED") != hs:
        env = dict(os.environ, PYTHONHASHSEED=hs)
        return subprocess.call([sys.executable, "-m", "vf.run", prop, "--replay", path], env=env)
    module = importlib.import_module(f"vf.checks.{prop.lower()}")
    scs = {s.name: s for s in list(module.SCENARIOS) + list(getattr(module, "PROBES", []))}
    mon, v, err = core.run_case(scs[d["scenario"]], d["spec"])
    if err:
        print(err)
        return 2
    if v:
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {v.key}: {v.msg}")
        return 1
    print("no violation on replay")
    return 0


def main() -> int:
    prop = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return replay(prop, sys.argv[3])
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if "--quick" in sys.argv:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    warnings.simplefilter("ignore")
    module = importlib.import_module(f"vf.checks.{prop.lower()}")

    results: list[dict] = []
    errors: list[Any] = []
    tmp = tempfile.mkdtemp(prefix=f"vf-{prop}-")
    procs = []
    for s in range(SHARDS):
        outf = os.path.join(tmp, f"{s}.json")
        env = dict(os.environ, PYTHONHASHSEED=str(s))
        procs.append((s, outf, subprocess.Popen(
            [sys.executable, "-m", "vf.core", prop, tier, str(seed), str(s), str(SHARDS), outf],
            env=env, cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    wall_cap = 840 if tier == "quick" else 6 * 3600
    for s, outf, p in procs:
        try:
            text, _ = p.communicate(timeout=max(1.0, wall_cap - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            text, _ = p.communicate()
            errors.append({"shard": s, "error": "wall-clock cap reached"})
        if os.path.exists(outf):
            results.append(json.loads(Path(outf).read_text()))
            os.unlink(outf)
        else:
            errors.append({"shard": s, "error": "worker died: " + (text or "")[-2000:]})
    os.rmdir(tmp)

    hits: Counter = Counter()
    per: Counter = Counter()
    evals = 0
    digests: dict[str, set] = {}
    violations: list[dict] = []
    samples: list[Any] = []
    for r in results:
        evals += r["evaluations"]
        hits.update(r["hits"])
        per.update(r["per"])
        for k, v in r["digests"].items():
            digests.setdefault(k, set()).update(v)
        violations += r["violations"]
        errors += r["errors"]
        samples += r["samples"]
    # Pinned inputs
    for sc in getattr(module, "PROBES", []):
        spec = core.jsonable(sc.gen(core.case_rng(seed, prop, sc.name, 0)))
        mon, v, err = core.run_case(sc, spec)
        evals += 1
        per[sc.name] += 1
        hits.update(mon.hits)
        if mon.nontrivial:
            digests.setdefault(sc.name, set()).add(mon.digest())
        if v:
            violations.append({"scenario": sc.name, "index": 0, "spec": spec, "key": v.key,
                               "msg": v.msg, "hashseed": "0"})
        if err:
            errors.append({"scenario": sc.name, "error": err})

    known = load_known(prop)
    known_seen = {}
    new = []
    for v in violations:
        # A finding is identified by the pinned probe it came from and its exact symptom.
        k = f"{v['scenario']}/{v['key']}"
        if k in known:
            known_seen[k] = known[k]
        else:
            new.append(v)
    for k, what in known_seen.items():
        print(f"KNOWN-FINDING: property={prop} {what}")

    rc = 0
    rep_dir = ROOT / "replays"
    new.sort(key=lambda v: (len(json.dumps(v["spec"])), v["scenario"], v["index"]))
    if new:
        rc = 1
        rep_dir.mkdir(exist_ok=True)
        seen_keys = set()
        for v in new:
            if v["key"] in seen_keys or len(seen_keys) >= 4:
                continue
            seen_keys.add(v["key"])
            safe = "".join(c if c.isalnum() or c in "-_" else "_" for c in v["key"])[:60]
            path = rep_dir / f"{prop}-{v['scenario']}-{safe}-s{seed}-{v['index']}.json"
            path.write_text(json.dumps(v, indent=1))
            print(f"VIOLATION property={prop} replay={path.relative_to(ROOT)}")
            print(f"  [{v['scenario']} #{v['index']}] {v['key']}: {v['msg']}")
        print(f"  {len(new)} violating cases in total")

    required = dict(getattr(module, "REQUIRED", {}))
    missing = {k: (hits.get(k, 0), n) for k, n in required.items() if hits.get(k, 0) < n}
    if errors and rc == 0:
        rc = 2
    for e in errors[:3]:
        print(f"CHECK-ERROR: {e}")
    if missing and rc == 0:
        rc = 2
        print(f"INCONCLUSIVE: monitors not reached (got, wanted): {missing}")

    nd = sum(len(v) for v in digests.values())
    coverage = {
        "evaluations": evals,
        "distinct_nontrivial": nd,
        "rule": module.RULE,
        "samples": samples[:6],
        "cases_per_scenario": dict(per),
        "distinct_per_scenario": {k: len(v) for k, v in digests.items()},
        "monitor_observations": dict(sorted(hits.items())),
        "hash_seeds": SHARDS,
        "known_findings_reproduced": sorted(known_seen),
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": coverage, "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
    }
    (ROOT / "evidence").mkdir(exist_ok=True)
    (ROOT / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=repr))
    print(f"{prop} {tier} seed={seed}: {evals} cases, {nd} distinct non-trivial, "
          f"{hits.get('assertions', 0)} assertions, {len(new)} violations, "
          f"{len(known_seen)} known, {ev['wall_s']} s")
    return rc


if __name__ == "__main__":
    sys.exit(main())
