"""C38: a simulation runs the same whenever its clock starts."""

from __future__ import annotations

import json
import random
import re
import warnings
from typing import Any

import upstage_des.api as UP
from upstage_des.data_utils import create_location_table, create_table, get_recorded_data
from upstage_des.geography import Spherical, get_intersection_locations
from upstage_des.motion.geodetic_model import analytical_intersection, subdivide_intersection
from upstage_des.type_help import TASK_GEN

from .. import det
from ..core import Mon, Scenario
from ..util import dy, stage_units

PROPERTY = {
    "title": "A simulation runs the same whenever its clock starts",
    "statement": (
        "A model's history does not depend on the initial_time of its environment: with a clock that starts earlier (also "
        "so that time zero or negative times fall inside the run) or later, the same steps, decisions, interrupts, messages, "
        "values, knowledge, records, log entries, table rows of recorded times and draws of an equal seed come in the same "
        "order, at times that all differ by the difference of the starts. The day and hour in debug-log texts are those of "
        "the clock; the rows of unrecorded states keep their fixed time of 0."
    ),
    "quantifier": {"over": ["histories", "schedules", "inputs"],
                   "text": "every model over actors, states, task networks, nuclei, resources, comms, motion and rehearsals; every start of the clock"},
    "why_tests_cant": "Tests start at zero, where an absolute time and a time since the start are the same, and where only the "
                      "first instant's time is false in a condition.",
    "anchors": {
        "files": ["src/upstage_des/base.py", "src/upstage_des/states.py", "src/upstage_des/actor.py", "src/upstage_des/events.py",
                  "src/upstage_des/resources/container.py", "src/upstage_des/resources/reserve.py",
                  "src/upstage_des/resources/monitoring.py", "src/upstage_des/motion/motion.py",
                  "src/upstage_des/motion/stepped_motion.py", "src/upstage_des/communications/comms.py"],
        "mechanism": [{"name": "EnvironmentContext(initial_time), MockEnvironment.mock", "where": "src/upstage_des/base.py"},
                      {"name": "active states' started_at and recorded times", "where": "src/upstage_des/states.py"}],
        "observe_at": ["env.now of steps and callbacks", "histories", "get_log", "create_table", "create_location_table", "get_recorded_data",
                       "monitored quantities", "Message.time_sent"],
    },
    "technique": "runtime monitor: metamorphic oracle comparing the recorded histories of one model under clocks that start at different times",
}
RULE = "A case is a generated model run from time 0 and from one to three other starts. Non-trivial: its history has 20 timed entries or more; distinct by the history."
REQUIRED = {"entries": 20000, "histories": 3000, "rows": 3000, "zero_inside": 300, "at_zero": 100, "later": 300, "log_times": 2000, "rehearsed": 50, "quantities": 3000,
            "flights": 100, "crossings": 200, "recorded": 100}
ASSUMPTIONS = ["Starts are dyadic and at most 2**16, so that the times of a model's own delays are exact; values are compared to 1e-6.",
               "A model's sensors and flights are placed so that crossings have instants of their own."]


def starts(rng: random.Random) -> list[float]:
    out = []
    for _ in range(rng.randint(1, 2)):
        out.append(rng.choice([
            # time zero is the instant of one of the model's steps, or lies between
            *([-rng.randint(0, 24) / 2] * 3), *([-rng.randint(0, 24) / 2 - 1 / 16] * 3), -dy(rng, 1, 200, 16), -20.0, -1024.0, -1.0,
            0.5, 24.0, dy(rng, 1, 4000, 16), 1024.0, 65536.0]))
    return out


def gen(rng: random.Random) -> Any:
    m = det.gen(rng)
    for k, b in enumerate(m["birds"]):
        b["start"] = [x + 0.0137 * (k + 1) for x in b["start"]]
        b["at"] += 1 / 32 + k / 512
        b["hide"] = b["hide"] and b["hide"] + 3 / 64 + k / 512
    for k, e in enumerate(m["eyes"]):
        e["at"] = [e["at"][0] + 0.00713 * (k + 1), e["at"][1] - 0.00931 * (k + 1)]
    if m["stepped"]:
        for b in m["birds"]:
            b["at"] += 1 / 256
    return {"model": m, "starts": starts(rng)}


def play(spec: Any, t0: float) -> list[Any]:
    out: list[Any] = []
    kw: dict[str, Any] = {"random_gen": random.Random(spec["seed"])} if spec["own_rng"] else {"random_seed": spec["seed"]}
    with warnings.catch_warnings(), UP.EnvironmentContext(initial_time=t0, **kw) as env:
        warnings.simplefilter("ignore")
        stage_units()
        out.append(["now", env.now])
        part = det.Part(spec, env, det.motion_manager(spec), out)
        try:
            env.run(until=t0 + spec["until"])
        except Exception as e:
            out.append(["error", type(e).__name__])
        out.append(["now", env.now])
        base = UP.UpstageBase()
        det.seen(part, out, base)
        for what, (rows, cols) in (("row", create_table()), ("location row", create_location_table())):
            out.append(["columns", *cols])
            where = cols.index("Time")
            for r in rows:
                time = [None] if r[-1] == "Last Seen" else [r[where]]
                out.append([what, *time, *det.plain([x for k, x in enumerate(r) if k != where or time == [None]])])
        out.append(["recorded", det.plain(get_recorded_data())])
        out.append(["draw", base.stage.random.random()])
    return json.loads(json.dumps(out, default=repr))


def back(log: list[Any], t0: float, mon: Mon) -> list[Any]:
    """The history on a clock that starts at zero."""
    def pairs(x: Any) -> Any:
        return [[p[0] - t0, *p[1:]] for p in x]

    def text(x: Any) -> Any:
        return re.sub(r"^\[[^]]*\] ", "", x) if isinstance(x, str) else x

    out: list[Any] = []
    for e in log:
        e = list(e)
        if not isinstance(e[0], str):
            e[0] -= t0
            if len(e) > 2 and e[1] == "rehearsed":
                e[2] -= t0
                mon.hit("rehearsed")
            mon.hit("at_zero", int(t0 != 0 and e[0] + t0 == 0))
        elif e[0] == "now":
            e[1] -= t0
        elif e[0] == "histories":
            e[2] = [[k, pairs(h)] for k, h in e[2]]
            mon.hit("histories", len(e[2]))
        elif e[0] == "log":
            e[2] = [[t - t0, text(m)] for t, m in e[2]]
            mon.hit("log_times", len(e[2]))
        elif e[0] in ("box", "crate", "shelf", "tank", "reserve"):
            e[-1] = pairs(e[-1])
            mon.hit("quantities", len(e[-1]))
        elif e[0] == "bins":
            e[2:] = [[*b[:-1], pairs(b[-1])] for b in e[2:]]
        elif e[0] in ("row", "location row"):
            e[1] = None if e[1] is None else e[1] - t0
            mon.hit("rows")
        elif e[0] == "recorded":
            e[1] = pairs(e[1])
            mon.hit("recorded", len(e[1]))
        out.append(e)
    return out


def same(a: Any, b: Any) -> bool:
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, float | int) and isinstance(b, float | int) and abs(a - b) <= 1e-6 * max(1.0, abs(a))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def first(a: Any, b: Any) -> Any:
    """The innermost difference."""
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for x, y in zip(a, b):
            if not same(x, y):
                return first(x, y)
    return a, b


def compare(want: list[Any], got: list[Any], t0: float, mon: Mon) -> None:
    for n in range(max(len(want), len(got))):
        a = want[n] if n < len(want) else None
        b = got[n] if n < len(got) else None
        mon.check(same(a, b), "clock", lambda: f"entry {n} {(a or b)[:2]}: {first(a, b)[0]!r} from time 0, {first(a, b)[1]!r} from time {t0}")
    mon.hit("entries", len(want))


def run(spec: Any, mon: Mon) -> None:
    m = spec["model"]
    want = back(play(m, 0.0), 0.0, mon)
    for t0 in spec["starts"]:
        compare(want, back(play(m, t0), t0, mon), t0, mon)
        mon.hit("zero_inside", int(-m["until"] <= t0 < 0))
        mon.hit("later", int(t0 > 0))
    mon.see(want)
    mon.nontrivial = sum(1 for e in want if not isinstance(e[0], str)) >= 20
    mon.sample = {"starts": spec["starts"], "entries": len(want), "first": want[:4]}


def gen_flight(rng: random.Random) -> Any:
    lat, lon = rng.uniform(-60, 60), rng.uniform(-180, 180)
    legs = [[max(-75.0, min(75.0, lat + rng.uniform(-1, 1))), lon + rng.uniform(-1, 1), rng.uniform(0, 3000)] for _ in range(rng.randint(1, 3))]
    return {"from": [lat, lon, rng.uniform(0, 3000)], "legs": legs, "speed": rng.uniform(60, 600), "stepped": rng.random() < 0.4, "analytical": rng.random() < 0.5, "wait": dy(rng, 1, 20, 16) + 1 / 64,
            "stop": rng.choice([None, dy(rng, 1, 20, 16) + 1 / 128]),
            "eyes": [[lat + rng.uniform(-0.7, 0.7), lon + rng.uniform(-0.7, 0.7), rng.uniform(5, 60)] for _ in range(rng.randint(1, 3))],
            "look": [dy(rng, 1, 40, 16) + 1 / 256 for _ in range(3)], "starts": starts(rng)}


def make_plane(rec: bool) -> Any:
    class Plane(UP.Actor, entity_groups=["planes"]):
        location: UP.GeodeticLocationChangingState = UP.GeodeticLocationChangingState(recording=rec)
        detectable: UP.DetectabilityState = UP.DetectabilityState(default=True, recording=rec)
        fuel: UP.LinearChangingState = UP.LinearChangingState(default=90.0, recording=rec)

    return Plane


Plane: Any = make_plane(True)


class Fly(UP.Task):
    spec: Any

    def task(self, *, actor: Plane) -> TASK_GEN:
        s = self.spec
        yield UP.Wait(s["wait"])
        way = [UP.GeodeticLocation(*p) for p in s["legs"]]
        actor.activate_state(state="location", task=self, speed=s["speed"], waypoints=way)
        actor.activate_linear_state(state="fuel", rate=-2.5, task=self)
        # the whole way, from where it starts
        full = sum(b - a for a, b in zip([UP.GeodeticLocation(*s["from"]), *way], way)) / s["speed"]
        yield UP.Wait(full if s["stop"] is None else min(full, s["stop"]))
        actor.deactivate_all_states(task=self)


def fly(spec: Any, t0: float, rec: bool = True, debug: bool = False, reads: Any = None) -> list[Any]:
    """A flight past sensors; `reads` are times at which everything is read, for nothing."""
    out: list[Any] = []

    with warnings.catch_warnings(), UP.EnvironmentContext(initial_time=t0, random_seed=1) as env:
        warnings.simplefilter("ignore")
        stage_units("nmi", "ft", stage_model=Spherical, intersection_model=get_intersection_locations)
        mm: Any = UP.SteppedMotionManager(timestep=1 / 8, debug=debug) if spec["stepped"] else UP.SensorMotionManager(
            analytical_intersection if spec["analytical"] else subdivide_intersection, debug=debug)
        UP.add_stage_variable("motion_manager", mm)
        for k, (la, lo, r) in enumerate(spec["eyes"]):
            mm.add_sensor(det.Eye(f"e{k}", UP.GeodeticLocation(la, lo, 0), r, lambda *a: out.append([env.now, *a])))
        plane = (Plane if rec else make_plane(False))(name="p", debug_log=debug, location=UP.GeodeticLocation(*spec["from"]))
        task = Fly()
        task.spec = spec
        task.run(actor=plane)
        if spec["stepped"]:
            mm.add_detectable(plane, "location")
            mm.run()

        def look() -> Any:
            for t in sorted(set(spec["look"])):
                yield env.timeout(t0 + t - env.now)
                here = plane.location
                out.append([env.now, here.lat, here.lon, here.alt, plane.fuel])

        def read() -> Any:
            for t in reads:
                yield env.timeout(t0 + t - env.now)
                plane.state_values, plane.location, plane.fuel, plane.get_log(), create_table(False, True), create_location_table()
                if plane.get_active_state_data("location", without_update=True):
                    plane.get_remaining_waypoints("location")

        env.process(look())
        if reads:
            env.process(read())
        env.run(until=t0 + 3.0)
        if reads is not None:
            return json.loads(json.dumps([*out, [plane.location.lat, plane.location.lon, plane.location.alt, plane.fuel]], default=repr))
        out.append(["histories", "p", [[k, [[t, [v.lat, v.lon, v.alt] if isinstance(v, UP.GeodeticLocation) else det.plain(v)] for t, v in h]]
                                       for k, h in sorted(plane._state_histories.items())]])
        for r in create_location_table()[0]:
            out.append(["location row", r[3], *det.plain([*r[:3], *r[4:]])])
    return json.loads(json.dumps(out, default=repr))


def run_flight(spec: Any, mon: Mon) -> None:
    want = back(fly(spec, 0.0), 0.0, mon)
    for t0 in spec["starts"]:
        compare(want, back(fly(spec, t0), t0, mon), t0, mon)
    mon.hit("flights")
    mon.see(want)
    mon.nontrivial = any(e[1] == "in" for e in want if not isinstance(e[0], str))
    mon.sample = {"starts": spec["starts"], "first": want[:4]}


def gen_line(rng: random.Random) -> Any:
    speed = rng.choice([0.5, 1.0, 2.0])
    way = [rng.randint(1, 24) / 4]
    for _ in range(rng.randint(0, 2)):
        way.append(way[-1] + rng.choice([-1, 1]) * rng.randint(1, 24) / 4)
    spec = {"speed": speed, "way": way, "at": rng.randint(0, 8) / 4, "eyes": [[rng.randint(-8, 24) / 4, rng.randint(1, 8) / 4 - 1 / 8]],
            "stepped": rng.random() < 0.3, "hide": rng.choice([None, [rng.randint(0, 24) / 4 + 1 / 32, rng.randint(1, 24) / 4]]), "sends": [rng.randint(0, 24) / 4 for _ in range(3)],
            "pick": [rng.random() for _ in range(4)], "speak": rng.choice([0.0, 0.25])}
    return spec


class Ship(UP.Actor):
    location: UP.CartesianLocationChangingState = UP.CartesianLocationChangingState(recording=True)
    detectable: UP.DetectabilityState = UP.DetectabilityState(default=True, recording=True)


class Sail(UP.Task):
    spec: Any

    def task(self, *, actor: Ship) -> TASK_GEN:
        s = self.spec
        yield UP.Wait(s["at"])
        actor.activate_state(state="location", task=self, speed=s["speed"], waypoints=[UP.CartesianLocation(x, 0, 0) for x in s["way"]])
        yield UP.Wait(sum(abs(b - a) for a, b in zip([0.0, *s["way"]], s["way"])) / s["speed"])
        actor.deactivate_all_states(task=self)


def sail(spec: Any, t0: float) -> list[Any]:
    """Crossings, arrivals and messages at exact times, of which one is time zero."""
    out: list[Any] = []
    got: list[Any] = []
    with warnings.catch_warnings(), UP.EnvironmentContext(initial_time=t0) as env:
        warnings.simplefilter("ignore")
        stage_units()
        mm = det.motion_manager(spec)
        for k, (x, r) in enumerate(spec["eyes"]):
            mm.add_sensor(det.Eye(f"e{k}", UP.CartesianLocation(x, 0, 0), r, lambda *a: out.append([env.now, *a])))
        ship = Ship(name="s", location=UP.CartesianLocation(0, 0, 0))
        task = Sail()
        task.spec = spec
        task.run(actor=ship)
        if spec["stepped"]:
            mm.add_detectable(ship, "location")
            mm.run()
        comms = UP.PointToPointCommsManager(name="cup", mode="cup", send_time=spec["speak"])
        comms.run()
        a, b = det.Node(name="a"), det.Node(name="b")

        def send(n: int, t: float) -> Any:
            yield env.timeout(t)
            yield comms.make_put({"n": n}, a, b).as_event()

        def read() -> Any:
            while True:
                m = yield b.inbox.get()
                got.append([env.now, m.content.data["n"], None if m.time_sent is None else m.time_sent - t0])

        def hide() -> Any:
            yield env.timeout(spec["hide"][0])
            ship.detectable = False
            yield env.timeout(spec["hide"][1])
            ship.detectable = True

        for n, t in enumerate(spec["sends"]):
            env.process(send(n, t))
        env.process(read())
        if spec["hide"]:
            env.process(hide())
        env.run(until=t0 + 40.0)
        out += got
        out.append(["histories", "s", [[k, det.plain(h)] for k, h in sorted(ship._state_histories.items())]])
    return json.loads(json.dumps(out, default=repr))


def run_line(spec: Any, mon: Mon) -> None:
    want = back(sail(spec, 0.0), 0.0, mon)
    times = sorted({e[0] for e in want if not isinstance(e[0], str)} | {t for _, h in want[-1][2] for t, _ in h})
    for p in spec["pick"]:
        t0 = -times[int(p * len(times))]
        compare(want, back(sail(spec, t0), t0, mon), t0, mon)
    mon.hit("crossings", sum(1 for e in want if e[1] in ("in", "out")))
    mon.see(want)
    mon.nontrivial = any(e[1] == "in" for e in want if not isinstance(e[0], str))
    mon.sample = {"first": want[:4]}


SCENARIOS = [Scenario("models", gen, run, quick=1200, thorough=18000), Scenario("flights", gen_flight, run_flight, quick=300, thorough=5000),
             Scenario("lines", gen_line, run_line, quick=600, thorough=12000)]
