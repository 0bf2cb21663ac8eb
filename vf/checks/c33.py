"""C33: the same program has the same history."""

from __future__ import annotations

import atexit
import os
import random
from typing import Any

from vf import det
from vf.core import Mon, Scenario

PROPERTY = {
    "id": "C33",
    "title": "The same program with the same random seed has the same history",
    "statement": (
        "A simulation is a function of its program and its random seed: run again, in another process with another "
        "string hash seed, with another memory layout, or after other simulations in the same process, it gives the "
        "same events in the same order, also where many things happen at one instant, and the same random draws, "
        "recorded histories, interrupts, messages, sensor notifications, logs, entity groups and data tables."
    ),
    "quantifier": {"over": "histories", "text": "all programs over actors, task networks, nuclei, resources, comms, "
                   "motion, rehearsals and random draws, all hash seeds and all earlier programs in the process"},
    "why_tests_cant": "A test runs in one process with one hash seed; code that iterates over a set of names or keeps "
                      "something from an earlier simulation passes it, and differs only elsewhere.",
    "anchors": {
        "files": ["src/upstage_des/base.py", "src/upstage_des/nucleus.py", "src/upstage_des/actor.py",
                  "src/upstage_des/communications/routing.py", "src/upstage_des/motion/motion.py",
                  "src/upstage_des/data_utils/data_utils.py"],
        "mechanism": [{"name": "EnvironmentContext.__enter__ (random_seed), ordered registries of the context, "
                               "TaskNetworkNucleus._state_map, RoutingTableCommsManager routes, Task clean-up",
                       "role": "everything that decides an order or a draw"}],
        "observe_at": ["task steps", "interrupt causes", "callbacks", "stage.random", "create_table", "get_log",
                       "get_entity_group"],
    },
    "technique": "differential monitoring: generated whole-simulation programs, and the monitored cases of all other "
                 "checks, run again in this process, in a fresh fork and in a long-lived process with other hash "
                 "seeds; an oracle compares the complete ordered logs",
    "note": "The order of the keys of get_all_entity_groups() is not compared.",
}

RULE = ("One case is one program (a generated simulation, or a case of another check) run two to four times; its whole "
        "observed log is compared. It is non-trivial when the log has at least 20 entries; the signature is the log.")
ASSUMPTIONS = ["programs do not themselves iterate over sets or use the wall clock"]

OTHERS: dict[str, det.Other] = {}


def others() -> list[tuple[str, det.Other]]:
    if not OTHERS:
        mine = int(os.environ.get("PYTHONHASHSEED", "0") or 0)
        OTHERS["fresh"] = det.Other(100 + 7 * mine, True)
        OTHERS["other"] = det.Other(1000 + 13 * mine, False)
        atexit.register(lambda: [o.p.kill() for o in OTHERS.values()])
    return list(OTHERS.items())


def compare(mon: Mon, req: Any, again: bool) -> list[Any]:
    for _, o in others():
        o.ask(req)
    here = det.answer(req)
    runs = [(n, o.read()) for n, o in others()]
    if again:
        runs.append(("again", det.answer(req)))
    for name, log in runs:
        for n in range(max(len(here), len(log))):
            a = here[n] if n < len(here) else None
            b = log[n] if n < len(log) else None
            mon.check(a == b, f"differs:{name}", lambda: f"entry {n} of the log is {a!r}, but {b!r} in the run '{name}'")
        mon.hit(f"compared_{name}")
        mon.hit("log_entries", len(here))
    for e in here:
        mon.see(e)
    mon.nontrivial = len(here) >= 20
    return here


def run(spec: Any, mon: Mon) -> None:
    log = compare(mon, {"kind": "program", "spec": spec}, True)
    for e in log:
        if isinstance(e[0], str):
            mon.hit(f"end_{e[0]}")
        elif isinstance(e[1], str):
            k = e[2] if e[1][:3] in ("net", "get") else e[1]
            mon.hit(f"saw_{k}")
    # at one instant, several different things
    times = [e[0] for e in log if not isinstance(e[0], str)]
    mon.hit("ties", sum(a == b for a, b in zip(times, times[1:])))
    mon.sample = {"entries": len(log), "first": log[:5]}


REUSE = [f"C{i:02d}" for i in (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 18, 20, 21, 22, 23, 24, 25, 26, 27, 28, 31, 32)]


def gen_reuse(rng: random.Random) -> Any:
    import importlib

    prop = rng.choice(REUSE)
    mod = importlib.import_module(f"vf.checks.{prop.lower()}")
    return {"prop": prop, "scenario": rng.choice([s.name for s in mod.SCENARIOS]), "i": rng.randrange(10**6)}


def run_reuse(spec: Any, mon: Mon) -> None:
    log = compare(mon, {"kind": "case", "seed": 1, **spec}, False)
    mon.nontrivial = len(log) >= 8
    mon.hit("reused_" + spec["prop"])
    mon.hit("instants", sum(e[0] == "instant" for e in log))


SCENARIOS = [
    Scenario("program", det.gen, run, quick=500, thorough=12000, cpu_s=60),
    Scenario("reuse", gen_reuse, run_reuse, quick=800, thorough=20000, cpu_s=60),
]
REQUIRED = {"compared_fresh": 1000, "compared_other": 1000, "compared_again": 400, "ties": 2000, "saw_interrupt": 200, "saw_message": 100,
            "saw_in": 300, "saw_out": 100, "saw_random": 100, "saw_shuffle": 100, "saw_rehearsed": 100, "saw_multi": 300, "end_row": 10000,
            "instants": 3000}
