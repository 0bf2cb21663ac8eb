"""C35: independent models in one simulation do not affect each other."""

from __future__ import annotations

import json
import random
import warnings
from typing import Any

import upstage_des.api as UP
from upstage_des.data_utils import create_location_table, create_table, get_recorded_data

from .. import det
from ..core import Discard, Mon, Scenario
from ..util import stage_units

PROPERTY = {
    "title": "Independent models in one simulation do not affect each other",
    "statement": (
        "Models that share an environment, its stage, actor classes, motion manager and even names, but no actors, "
        "resources, messages or space, each have exactly the history they have alone: the same steps, interrupts, "
        "messages, values, records, knowledge, logs, groups and table rows, in the same order, whatever the others do, "
        "fail, are interrupted in, or rehearse."
    ),
    "quantifier": {"over": ["histories", "schedules", "inputs"],
                   "text": "every pair of models over actors, task networks, nuclei, resources, comms, motion and rehearsals"},
    "why_tests_cant": "Tests have one model in an environment, with different names and few objects of a class; what is kept "
                      "by a class, a name, equality or the time by mistake has nothing to collide with.",
    "anchors": {
        "files": ["src/upstage_des/actor.py", "src/upstage_des/states.py", "src/upstage_des/base.py", "src/upstage_des/nucleus.py",
                  "src/upstage_des/task_network.py", "src/upstage_des/communications/comms.py",
                  "src/upstage_des/motion/motion.py", "src/upstage_des/motion/stepped_motion.py"],
        "mechanism": [{"name": "State descriptors (shared by the class), per-actor dictionaries", "where": "src/upstage_des/states.py"},
                      {"name": "CommsManagerBase, SensorMotionManager, SteppedMotionManager (shared by all)",
                       "where": "src/upstage_des/communications/comms.py"}],
        "observe_at": ["task steps", "interrupt causes", "callbacks", "histories", "get_log", "knowledge", "create_table", "groups"],
    },
    "technique": "runtime monitor: non-interference oracle comparing the recorded history of each model alone and with another",
}
RULE = (
    "A case is two generated models, run alone and together. Non-trivial: each has a log of 20 entries or more; distinct by the logs."
)
REQUIRED = {"twins": 100, "same_names": 200, "log_entries": 20000, "histories": 2000, "rows": 2000, "both_at_once": 2000, "groups": 500}
ASSUMPTIONS = ["The models use generators of their own, as draws of the stage's are shared.",
               "Where a step of the shared motion manager comes within its instant is left open.",
               "Models that fail on their own are left out."]


def gen(rng: random.Random) -> Any:
    specs = []
    twins = rng.random() < 0.3
    while len(specs) < 2:
        s = det.gen(rng)
        for o in s["ops"]:
            if o["what"] in ("random", "shuffle"):
                o["what"] = "set"
        for g in s["getters"]:
            g["events"] = ["wait" if e == "draw" else e for e in g["events"]]
        specs.append(s)
    if twins:
        specs[1] = json.loads(json.dumps(specs[0]))
    specs[1]["stepped"] = specs[0]["stepped"]
    for b in [b for s in specs for b in s["birds"]]:
        # the steps of the manager are no part of a model: nothing coincides with them
        b["at"] += 1 / 32
        b["hide"] = b["hide"] and b["hide"] + 3 / 64
    return {"parts": specs, "tags": rng.choice([["", ""], ["", ""], ["p", "q"], ["p", "q"]]), "order": rng.choice([[0, 1], [1, 0]])}


def play(spec: Any, which: list[int]) -> list[Any]:
    """What is seen of each of the models."""
    outs: dict[int, list[Any]] = {k: [] for k in which}
    error = None
    with warnings.catch_warnings(), UP.EnvironmentContext(random_seed=1) as env:
        warnings.simplefilter("ignore")
        stage_units()
        mm = det.motion_manager(spec["parts"][which[0]])
        parts = {k: det.Part(spec["parts"][k], env, mm, outs[k], spec["tags"][k], 512.0 * k) for k in which}
        try:
            env.run(until=14.0)
        except Exception as e:
            error = repr(e)
        base = UP.UpstageBase()
        apart = spec["tags"][0] != spec["tags"][1]
        rows = [det.plain(list(r)) for r in create_table()[0]] if apart else []
        rows += [det.plain(list(r)) for r in create_location_table()[0]] if apart else []
        for k, p in parts.items():
            out, tag = outs[k], spec["tags"][k]
            det.seen(p, out, base)
            if apart:
                out += [["row", *r] for r in rows if str(r[0]).startswith(tag)]
                out.append(["recorded", det.plain([r for r in get_recorded_data() if str(r).find(f"'{tag}u") >= 0])])
    if spec["parts"][0]["stepped"]:
        # its steps come before or after other things of their instant
        outs = {k: [e for e in o if e[1] in ("in", "out")] + [e for e in o if e[1] not in ("in", "out")] for k, o in outs.items()}
    return [error, *(json.loads(json.dumps(outs[k], default=repr)) for k in which)]


def run(spec: Any, mon: Mon) -> None:
    alone = [play(spec, [k]) for k in (0, 1)]
    if any(a[0] for a in alone):
        raise Discard()
    both = play(spec, spec["order"])
    mon.check(both[0] is None, "error", lambda: f"together: {both[0]}; neither of them alone")
    logs = []
    for k, log in zip(spec["order"], both[1:]):
        want = alone[k][1]
        for n in range(max(len(want), len(log))):
            a = want[n] if n < len(want) else None
            b = log[n] if n < len(log) else None
            mon.check(a == b, "interference", lambda: f"model {k}, entry {n}: {a!r} alone, {b!r} beside the other")
        mon.hit("log_entries", len(want))
        mon.hit("histories", sum(1 for e in want if e[0] == "histories"))
        mon.hit("rows", sum(1 for e in want if e[0] == "row"))
        mon.hit("groups", sum(1 for e in want if e[0] == "group"))
        logs.append(want)
        mon.see(want)
    mon.hit("twins", int(spec["parts"][0] == spec["parts"][1]))
    mon.hit("same_names", int(spec["tags"][0] == spec["tags"][1]))
    times = [{e[0] for e in x if not isinstance(e[0], str)} for x in logs]
    mon.hit("both_at_once", len(times[0] & times[1]))
    mon.nontrivial = all(len([e for e in x if not isinstance(e[0], str)]) >= 20 for x in logs)
    mon.sample = {"entries": [len(x) for x in logs], "first": logs[0][:4]}


SCENARIOS = [Scenario("pairs", gen, run, quick=1500, thorough=30000)]
