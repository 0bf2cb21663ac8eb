"""C39: observing a simulation changes nothing in it."""

import json
import random
import warnings
from typing import Any

import simpy as SIM

import upstage_des.api as UP
from upstage_des.data_utils import create_location_table, create_table, get_recorded_data

from . import c38
from .. import det
from ..core import Mon, Scenario
from ..util import dy, stage_units

PROPERTY = {
    "title": "Observing a simulation changes nothing in it",
    "statement": (
        "Turning recording, duplicate records, recording functions, debug logs and their time stamps, a manager's debug "
        "record, or a resource's monitoring on or off, and reading states, logs, tables, recorded data, groups, queues, "
        "running tasks, knowledge, resource levels and items or remaining waypoints, or cloning an actor, at any time, "
        "leaves the rest of the simulation as it was: the same steps, decisions, interrupts, messages, draws, final "
        "values, items and knowledge at the same times and in the same order. Excepted are active states that a network "
        "watches: reading one updates it."
    ),
    "quantifier": {"over": ["histories", "schedules", "inputs"],
                   "text": "every model over actors, states, task networks, nuclei, resources, comms, motion and rehearsals; every choice of records; every time of reading"},
    "why_tests_cant": "Tests look at one object at the end of a run, with the records they need; what a read or a record moves, "
                      "adds or wakes up in the middle shows elsewhere and later.",
    "anchors": {
        "files": ["src/upstage_des/states.py", "src/upstage_des/actor.py", "src/upstage_des/state_sharing.py",
                  "src/upstage_des/resources/monitoring.py", "src/upstage_des/resources/container.py",
                  "src/upstage_des/data_utils/data_utils.py", "src/upstage_des/data_utils/data_recorder.py",
                  "src/upstage_des/motion/motion.py", "src/upstage_des/motion/stepped_motion.py",
                  "src/upstage_des/communications/comms.py"],
        "mechanism": [{"name": "State.__get__, ActiveState, _do_record", "where": "src/upstage_des/states.py"},
                      {"name": "SelfMonitoring resources", "where": "src/upstage_des/resources/monitoring.py"},
                      {"name": "create_table, create_location_table", "where": "src/upstage_des/data_utils/data_utils.py"}],
        "observe_at": ["task steps", "interrupt causes", "callbacks", "messages", "states", "items", "knowledge", "draws"],
    },
    "technique": "runtime monitor: metamorphic oracle comparing the event history of one model run unobserved and under random observers",
}
RULE = ("A case is a generated model run with nothing recorded and nobody reading, and one to two times with random records and readers. "
        "Non-trivial: its history has 20 timed entries or more; distinct by the history and the observers.")
REQUIRED = {"entries": 20000, "observations": 20000, "reading": 300, "recording": 200, "duplicates": 100, "functions": 100, "logs": 200, "monitored": 200,
            "debug": 200, "while_active": 1000, "while_moving": 300, "clones": 500, "flights": 400, "flight_entries": 800}
ASSUMPTIONS = ["Values are compared to 1e-9, as a reading may split a sum."]
CATEGORIES = ["states", "values", "log", "tables", "recorded", "pretty", "groups", "queues", "running", "knowledge", "resources", "waypoints", "repr", "clone", "stage"]


class Note:
    """A recording function that keeps the number of records."""

    def __init__(self) -> None:
        self.n = 0

    def __call__(self, time: float, value: Any) -> int:
        self.n += 1
        return self.n


def gen(rng: random.Random) -> Any:
    watchers = []
    for _ in range(rng.randint(1, 2)):
        watchers.append({
            "rec": rng.choice(["off", "on", "duplicates", "functions"]), "birds": rng.random() < 0.5, "monitored": rng.random() < 0.5,
            "log": rng.random() < 0.5, "log_time": rng.choice([None, True, False]), "comms": rng.random() < 0.5, "debug": rng.random() < 0.5,
            "read": [] if rng.random() < 0.15 else sorted({dy(rng, 0, 13 * 64, 64) + rng.choice([0, 1 / 1024, 1 / 1024]) for _ in range(rng.randint(1, 40))}),
            "what": rng.sample(CATEGORIES, rng.randint(1, len(CATEGORIES))), "who": rng.random() < 0.5})
    return {"model": det.gen(rng), "watchers": watchers}


def look(part: det.Part, what: list[str], only: Any, mon: Mon) -> None:
    """Read what there is to read."""
    actors: list[Any] = [*part.units, *part.nodes, *part.birds]
    if only is not None:
        actors = [actors[only % len(actors)]]
    base = UP.UpstageBase()
    for a in actors:
        if "states" in what:
            for s in a.states:
                getattr(a, s)
        if "values" in what:
            a.state_values
        if "log" in what:
            a.get_log()
            a.log()
        if "queues" in what:
            a.get_all_task_queues()
            for name in a.get_all_task_queues():
                a.get_next_task(name)
                a.get_running_task(name)
                a.has_task_network(name)
        if "running" in what:
            a.get_running_tasks()
        if "knowledge" in what:
            for n in range(4):
                a.get_knowledge(f"getter{n} {n}")
            a.get_bulk_knowledge(["old", "busy fuel"])
            e = a.get_knowledge("getter0 0")
            if isinstance(e, UP.Event):
                e.is_complete()
        if "repr" in what:
            repr(a), str(a), a == a, hash(a)
        if "clone" in what and isinstance(a, part.style["unit"]):
            a.clone()
            mon.hit("clones")
    if "waypoints" in what:
        for b in part.birds:
            if b.get_active_state_data("location", without_update=True):
                b.get_remaining_waypoints("location")
                mon.hit("while_moving")
    if any(u.get_active_state_data("fuel", without_update=True) for u in part.units):
        mon.hit("while_active")
    if "tables" in what:
        create_table(), create_table(skip_locations=False), create_table(save_static=True), create_table(False, True)
        create_location_table()
    if "recorded" in what:
        get_recorded_data()
    if "pretty" in what:
        base.pretty_now
    if "groups" in what:
        base.get_entity_group("all"), base.get_actors(), base.get_all_entity_groups()
    if "stage" in what:
        base.stage.get("motion_manager"), base.stage.random.getstate()
    if "resources" in what:
        t, r = part.tank, part.reserve
        t.level, t.rate, t.capacity, r.available, r.remaining, r.queued, r.capacity
        part.shelf.items, part.bench.items, part.tools.count
        for u in part.units:
            u.box.items, u.crate.level, dict(u.bins)
            if t.level < t.capacity:
                t.time_until_level(t.capacity, 1.0), t.time_until_done(1.0)
    mon.hit("observations")


QUIET = {"rec": "off", "birds": False, "monitored": False, "log": False, "log_time": None, "comms": False, "debug": False, "read": [], "what": [], "who": False}


def play(spec: Any, w: Any, mon: Mon) -> list[Any]:
    out: list[Any] = []
    def rec(name: str) -> dict[str, Any]:
        return {"off": {}, "on": {"recording": True}, "duplicates": {"recording": True, "record_duplicates": True},
                "functions": {"recording": True, "recording_functions": [(Note, f"seen {name}")]}}[w["rec"]]

    store, container = (UP.SelfMonitoringStore, UP.SelfMonitoringContainer) if w["monitored"] else (SIM.Store, SIM.Container)

    class Quiet(UP.Actor, entity_groups=["movers", "all"]):
        location: UP.CartesianLocationChangingState = UP.CartesianLocationChangingState()
        detectable: UP.DetectabilityState = UP.DetectabilityState(default=True)

    style = {"unit": det.make_unit(rec, store, container), "bird": det.Bird if w["birds"] else Quiet, "log": w["log"], "log_time": w["log_time"], "comms_log": w["comms"]}
    if not w["monitored"]:
        style |= {"shelf": UP.SortedFilterStore, "bench": SIM.FilterStore, "tank": UP.ContinuousContainer, "reserve": UP.ReserveContainer}
    kw: dict[str, Any] = {"random_gen": random.Random(spec["seed"])} if spec["own_rng"] else {"random_seed": spec["seed"]}
    with warnings.catch_warnings(), UP.EnvironmentContext(**kw) as env:
        warnings.simplefilter("ignore")
        stage_units()
        part = det.Part(spec, env, det.motion_manager(spec, w["debug"]), out, style=style)

        def watch() -> Any:
            for n, t in enumerate(w["read"]):
                yield env.timeout(t - env.now)
                look(part, w["what"], n if w["who"] else None, mon)

        if w["read"]:
            env.process(watch())
        try:
            env.run(until=spec["until"])
        except Exception as e:
            out.append(["error", type(e).__name__, str(e)])
        base = UP.UpstageBase()
        det.seen(part, out, base, records=False)
        out.append(["recorded", det.plain(get_recorded_data())])
        out.append(["draw", base.stage.random.random()])
    return json.loads(json.dumps(out, default=repr).replace("Quiet b", "Bird b"))


def same(a: Any, b: Any) -> bool:
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, float | int) and isinstance(b, float | int) and abs(a - b) <= 1e-9 * max(1.0, abs(a))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def run(spec: Any, mon: Mon) -> None:
    m = spec["model"]
    want = play(m, QUIET, mon)
    for w in spec["watchers"]:
        got = play(m, w, mon)
        for n in range(max(len(want), len(got))):
            a = want[n] if n < len(want) else None
            b = got[n] if n < len(got) else None
            mon.check(same(a, b), "observed", lambda: f"entry {n}: {a!r} unobserved, {b!r} with {({k: v for k, v in w.items() if k != 'read'})} and {len(w['read'])} readings")
        mon.hit("entries", len(want))
        mon.hit("recording", int(w["rec"] != "off"))
        mon.hit("duplicates", int(w["rec"] == "duplicates"))
        mon.hit("functions", int(w["rec"] == "functions"))
        mon.hit("logs", int(w["log"]))
        mon.hit("monitored", int(w["monitored"]))
        mon.hit("debug", int(w["debug"]))
        mon.hit("reading", int(bool(w["read"])))
    mon.see([want, spec["watchers"]])
    mon.nontrivial = sum(1 for e in want if not isinstance(e[0], str)) >= 20
    mon.sample = {"watchers": spec["watchers"], "entries": len(want), "first": want[:4]}


def gen_flight(rng: random.Random) -> Any:
    spec = c38.gen_flight(rng)
    spec["reads"] = sorted({dy(rng, 0, 3 * 64, 64) + rng.choice([0, 1 / 1024]) for _ in range(rng.randint(1, 30))})
    spec["rec"], spec["debug"], spec["looks"] = rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.5
    return spec


def run_flight(spec: Any, mon: Mon) -> None:
    quiet = dict(spec, look=spec["look"] if spec["looks"] else [])
    want = c38.fly(quiet, 0.0, False, False, [])
    got = c38.fly(quiet, 0.0, spec["rec"], spec["debug"], spec["reads"])
    for n in range(max(len(want), len(got))):
        a = want[n] if n < len(want) else None
        b = got[n] if n < len(got) else None
        mon.check(same(a, b), "observed flight", lambda: f"entry {n}: {a!r} unobserved, {b!r} with {len(spec['reads'])} readings, recording {spec['rec']}, debug {spec['debug']}")
    mon.hit("flights")
    mon.hit("flight_entries", len(want))
    mon.see(want)
    mon.nontrivial = any(e[1] == "in" for e in want)
    mon.sample = {"reads": spec["reads"], "first": want[:4]}


SCENARIOS = [Scenario("models", gen, run, quick=3000, thorough=30000),
             Scenario("flights", gen_flight, run_flight, quick=600, thorough=12000)]
