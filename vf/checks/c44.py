"""C44: different ways of saying the same thing mean the same."""

import random
from typing import Any

from ..core import Mon, Scenario
from . import c43
from .c40 import first, same

PROPERTY = {
    "title": "Different ways of saying the same thing mean the same",
    "statement": (
        "A model has the same history whichever of the documented ways is used to say a thing: states in one class, inherited or mixed in, entity groups given at once or "
        "along the line of classes; values given or left to equal defaults, containers and stores by keywords, by kind, or made beforehand; activation and deactivation "
        "of states by the general or the special calls, one by one or all of a task; knowledge set, read and cleared one by one or in bulk, by the actor or "
        "the task; knowledge events by the shortcuts or by hand; an Any of Anys and an All of Alls for a flat one, or for a single event; a network "
        "made by hand or by a factory, under its own or another name, started by a first task or by a queue; a nucleus told names or networks; "
        "sensors with any attribute names; comms connected at once or one by one, one way each or both ways; "
        "messages as data, contents or messages; a task rehearsed by itself or in a network; a put by the store or as an event; a run in one or in several pieces; and classes of the library "
        "or subclasses of them that add nothing."
    ),
    "quantifier": {"over": ["configurations", "inputs", "histories"],
                   "text": "every model over actors, states, networks, nuclei, events, resources, comms, motion and rehearsal; every such choice of ways"},
    "why_tests_cant": "Tests use one way for one purpose; two ways that drift apart, or a way that is right alone but not together with another "
                      "feature, show only when the same model is said in both.",
    "anchors": {
        "files": ["src/upstage_des/actor.py", "src/upstage_des/states.py", "src/upstage_des/task.py", "src/upstage_des/task_network.py", "src/upstage_des/nucleus.py",
                  "src/upstage_des/events.py", "src/upstage_des/base.py", "src/upstage_des/motion/motion.py", "src/upstage_des/motion/stepped_motion.py",
                  "src/upstage_des/communications/comms.py", "src/upstage_des/communications/routing.py"],
        "mechanism": [{"name": "Actor, Task, TaskNetworkFactory, TaskNetworkNucleus, MultiEvent", "where": "src/upstage_des/"}],
        "observe_at": ["task and callback steps", "states", "histories", "create_table", "create_location_table", "monitored quantities", "entity groups"],
    },
    "technique": "runtime monitor: metamorphic oracle comparing the recorded histories of one model said in different ways",
}
RULE = "A case is a generated model said in the plain ways and twice in others. Non-trivial: its history has 40 timed entries or more; distinct by the history."
WAYS = ["context", "class", "default", "bins", "values", "crate", "place", "filter", "event", "fly", "rate", "wait", "multi", "facts", "free", "network", "watch", "start",
        "eye", "edge", "entities", "put", "know", "rehearse", "message", "run", "recorder", "nest", "forget", "unwatch", "sub", "subclass"]
REQUIRED = {"said": 500, "entries": 50000, "interrupts": 300, "steps": 5000, "any": 500, "all": 500, "messages": 500, "crossings": 500, "rows": 10000, "flows": 500,
            "rehearsed": 200, "mimics": 200, "knowledge": 200, **{f"way:{w}": 50 for w in WAYS}}
ASSUMPTIONS = c43.ASSUMPTIONS


def gen(rng: random.Random) -> Any:
    return {**c43.gen(rng), "ways": [rng.randrange(1 << 30) for _ in range(2)]}


def run(spec: Any, mon: Mon) -> None:
    want = c43.play(spec, None, mon)
    for ways in spec["ways"]:
        got = c43.play(spec, None, mon, ways)
        for n in range(max(len(want), len(got))):
            a = want[n] if n < len(want) else None
            b = got[n] if n < len(got) else None
            mon.check(same(a, b), "ways", lambda: f"entry {n} {(a or b)[:4]}: {str(first(a, b)[0])[:300]} said plainly, {str(first(a, b)[1])[:300]} in another way")
        mon.hit("entries", len(want))
        mon.hit("said")
    mon.see(want)
    mon.nontrivial = sum(1 for e in want if not isinstance(e[0], str)) >= 40
    mon.sample = {"entries": len(want), "first": want[:4]}


SCENARIOS = [Scenario("models", gen, run, quick=1000, thorough=10000)]
