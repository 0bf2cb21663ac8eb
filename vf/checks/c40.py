"""C40: the size of the units of time and distance does not matter."""

import json
import random
import re
import warnings
from typing import Any

import upstage_des.api as UP
from upstage_des.data_utils import create_location_table, create_table, get_recorded_data
from upstage_des.geography import WGS84, Spherical, get_intersection_locations
from upstage_des.motion.geodetic_model import analytical_intersection, subdivide_intersection
from upstage_des.type_help import TASK_GEN

from .. import det, geo
from ..core import Discard, Mon, Scenario
from ..util import dy, stage_units

PROPERTY = {
    "title": "The size of the units of time, distance and amount does not matter",
    "statement": (
        "A model whose times (delays, limits, expirations, rates, speeds, time steps), distances (locations, radii, speeds) or "
        "continuous amounts (levels, capacities, flows, reservations) are all given in a unit of another size has the same history: the same steps, decisions, interrupts, messages, "
        "flows, crossings, values, records, knowledge, draws and table rows in the same order, at times and places that "
        "differ by the ratio of the units. So has a geodetic model given in other distance, altitude and time units of the "
        "stage, or with delays in any timeout_unit."
    ),
    "quantifier": {"over": ["histories", "schedules", "inputs", "configurations"],
                   "text": "every model over actors, states, task networks, nuclei, resources, comms, motion and rehearsals; every scale and unit"},
    "why_tests_cant": "Tests use times, distances and amounts of a few units; a constant, a rounding or a tolerance that is right at that "
                      "size shows only in a model that is a thousand times finer or coarser.",
    "anchors": {
        "files": ["src/upstage_des/states.py", "src/upstage_des/state_sharing.py", "src/upstage_des/events.py",
                  "src/upstage_des/routines.py", "src/upstage_des/resources/container.py", "src/upstage_des/resources/reserve.py",
                  "src/upstage_des/motion/motion.py", "src/upstage_des/motion/stepped_motion.py",
                  "src/upstage_des/motion/cartesian_model.py", "src/upstage_des/motion/geodetic_model.py",
                  "src/upstage_des/communications/comms.py", "src/upstage_des/units/convert.py", "src/upstage_des/data_types.py"],
        "mechanism": [{"name": "LinearChangingState, CartesianLocationChangingState, GeodeticLocationChangingState",
                       "where": "src/upstage_des/states.py"},
                      {"name": "ContinuousContainer", "where": "src/upstage_des/resources/container.py"},
                      {"name": "unit_convert, Wait._convert_time", "where": "src/upstage_des/events.py"}],
        "observe_at": ["env.now of steps and callbacks", "histories", "states", "create_table", "create_location_table", "get_recorded_data",
                       "monitored quantities", "sensor callbacks"],
    },
    "technique": "runtime monitor: metamorphic oracle comparing the recorded histories of one model given in units of different sizes",
}
RULE = ("A case is a generated model run in one size of units and in one to two others, or a flight past sensors in two sets of units. "
        "Non-trivial: its history has 20 timed entries or more, or a crossing; distinct by the history.")
REQUIRED = {"entries": 20000, "histories": 3000, "rows": 3000, "finer": 300, "coarser": 300, "smaller": 300, "larger": 300, "log_times": 2000, "rehearsed": 50,
            "quantities": 3000, "flights": 200, "crossings": 400, "analytical": 100, "subdivide": 100, "stepped": 100, "other_time": 100, "timeout_units": 100, "amounts": 800, "turns": 200}
ASSUMPTIONS = ["Scales are powers of two between 2**-8 and 2**14 (2**-16 and 2**16 for amounts), for which times are exact; values are compared to 1e-6, flights to "
               "the accuracy of the table of conversion factors; flights whose crossings change by more than 1% when a radius changes by 1e-4 are left out."]


def scale(rng: random.Random) -> float:
    return float(rng.choice([2.0 ** rng.randint(-8, 14), 2.0 ** rng.randint(-8, 14), 1.0]))


def gen(rng: random.Random) -> Any:
    m = det.gen(rng)
    for k, b in enumerate(m["birds"]):
        b["start"] = [x + 0.0137 * (k + 1) for x in b["start"]]
        b["at"] += 1 / 32 + k / 512
        b["hide"] = b["hide"] and b["hide"] + 3 / 64 + k / 512
    for k, e in enumerate(m["eyes"]):
        e["at"] = [e["at"][0] + 0.00713 * (k + 1), e["at"][1] - 0.00931 * (k + 1)]
    scales = []
    while len(scales) < rng.randint(1, 2):
        s = [scale(rng), scale(rng), rng.choice([scale(rng), 2.0 ** rng.randint(-16, 16)])]
        if s != [1.0] * 3:
            scales.append(s)
    return {"model": m, "scales": scales}


def play(spec: Any, tu: float, du: float, qu: float) -> list[Any]:
    out: list[Any] = []
    kw: dict[str, Any] = {"random_gen": random.Random(spec["seed"])} if spec["own_rng"] else {"random_seed": spec["seed"]}
    with warnings.catch_warnings(), UP.EnvironmentContext(**kw) as env:
        warnings.simplefilter("ignore")
        stage_units()
        part = det.Part(spec, env, det.motion_manager(spec, time=tu), out, style={"time": tu, "space": du, "amount": qu})
        try:
            env.run(until=spec["until"] * tu)
        except Exception as e:
            out.append(["error", type(e).__name__])
        base = UP.UpstageBase()
        det.seen(part, out, base)
        for what, (rows, cols) in (("row", create_table()), ("location row", create_location_table())):
            where = cols.index("Time")
            for r in rows:
                out.append([what, r[where], *det.plain([x for k, x in enumerate(r) if k != where])])
        out.append(["recorded", det.plain(get_recorded_data())])
        out.append(["draw", base.stage.random.random()])
    return json.loads(json.dumps(out, default=repr))


def back(log: list[Any], tu: float, du: float, qu: float, mon: Mon) -> list[Any]:
    """The history in units of size one."""
    def pairs(x: Any, by: float = 1.0) -> Any:
        return [[p[0] / tu, [v / by for v in p[1]] if by != 1.0 and isinstance(p[1], list) else p[1], *p[2:]] for p in x]

    def text(x: Any) -> Any:
        return re.sub(r"^\[[^]]*\] ", "", x) if isinstance(x, str) else x

    out: list[Any] = []
    for e in log:
        e = list(e)
        if not isinstance(e[0], str):
            e[0] /= tu
            if e[1] == "rehearsed":
                e[2] /= tu
                mon.hit("rehearsed")
            if e[1] in ("flow", "reserve", "take"):
                e[2:] = [x / qu if isinstance(x, float) else x for x in e[2:]]
                mon.hit("amounts", int(qu != 1))
            if e[1] == "message" and e[5] is not None:
                e[5] /= tu
        elif e[0] == "histories":
            e[2] = [[k, pairs(h, du if k == "location" else 1.0)] for k, h in e[2]]
            mon.hit("histories", len(e[2]))
        elif e[0] == "states":
            e[2] = [[k, [x / du for x in v] if k == "location" else v] for k, v in e[2]]
        elif e[0] == "log":
            e[2] = [[t / tu, text(m)] for t, m in e[2]]
            mon.hit("log_times", len(e[2]))
        elif e[0] in ("box", "crate", "shelf", "tank", "reserve"):
            e[-1] = pairs(e[-1])
            if e[0] in ("tank", "reserve"):
                e[1] /= qu
                e[-1] = [[t, x / qu] for t, x in e[-1]]
            if e[0] == "tank":
                e[2] *= tu / qu
            mon.hit("quantities", len(e[-1]))
        elif e[0] == "bins":
            e[2:] = [[*b[:-1], pairs(b[-1])] for b in e[2:]]
        elif e[0] in ("row", "location row"):
            e[1] /= tu
            if e[0] == "location row":
                e[5:8] = [x / du for x in e[5:8]]
            elif e[3] in ("SelfMonitoringContinuousContainer", "SelfMonitoringReserveContainer"):
                e[5] /= qu
            mon.hit("rows")
        elif e[0] == "recorded":
            e[1] = pairs(e[1])
        out.append(e)
    return out


def same(a: Any, b: Any, tol: float = 1e-6) -> bool:
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, float | int) and isinstance(b, float | int) and abs(a - b) <= tol * max(1.0, abs(a))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    return a == b


def first(a: Any, b: Any, tol: float = 1e-6) -> Any:
    """The innermost difference."""
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for x, y in zip(a, b):
            if not same(x, y, tol):
                return first(x, y, tol)
    return a, b


def run(spec: Any, mon: Mon) -> None:
    m = spec["model"]
    want = back(play(m, 1.0, 1.0, 1.0), 1.0, 1.0, 1.0, mon)
    for tu, du, qu in spec["scales"]:
        got = back(play(m, tu, du, qu), tu, du, qu, mon)
        for n in range(max(len(want), len(got))):
            a = want[n] if n < len(want) else None
            b = got[n] if n < len(got) else None
            mon.check(same(a, b), "scale", lambda: f"entry {n} {(a or b)[:2]}: {first(a, b)[0]!r} in units of 1, {first(a, b)[1]!r} with times by {tu}, distances by {du}, amounts by {qu}")
        mon.hit("entries", len(want))
        mon.hit("finer", int(tu > 1))
        mon.hit("coarser", int(tu < 1))
        mon.hit("larger", int(du > 1))
        mon.hit("smaller", int(du < 1))
    mon.see(want)
    mon.nontrivial = sum(1 for e in want if not isinstance(e[0], str)) >= 20
    mon.sample = {"scales": spec["scales"], "entries": len(want), "first": want[:4]}


def gen_flight(rng: random.Random) -> Any:
    lat, lon = rng.uniform(-60, 60), rng.uniform(-180, 180)
    legs = [[max(-75.0, min(75.0, lat + rng.uniform(-1, 1))), lon + rng.uniform(-1, 1), rng.uniform(0, 3000)] for _ in range(rng.randint(1, 3))]
    return {"from": [lat, lon, rng.uniform(0, 3000)], "legs": legs, "speed": rng.uniform(60, 600), "how": rng.choice(["stepped", "analytical", "subdivide"]),
            "wgs": rng.random() < 0.3, "wait": dy(rng, 1, 20, 16) + 1 / 64, "stop": rng.choice([None, None, dy(rng, 1, 20, 16) + 1 / 128]),
            "eyes": [[lat + rng.uniform(-0.7, 0.7), lon + rng.uniform(-0.7, 0.7), rng.uniform(5, 60)] for _ in range(rng.randint(1, 3))],
            "look": sorted({dy(rng, 1, 40, 16) + 1 / 256 for _ in range(3)}), "cancel": rng.choice([None, rng.uniform(0.1, 2.0)]),
            "units": [rng.choice(list(geo.METERS)), rng.choice(list(geo.METERS)), rng.choice(["s", "min", "hr", "hr", "day"])],
            "waits": [rng.choice([None, None, "s", "min", "hr", "day"]) for _ in range(3)]}


class Plane(UP.Actor, entity_groups=["planes"]):
    location: UP.GeodeticLocationChangingState = UP.GeodeticLocationChangingState(recording=True)
    fuel: UP.LinearChangingState = UP.LinearChangingState(default=90.0, recording=True)
    stock: UP.SharedLinearChangingState = UP.SharedLinearChangingState(default=5.0, recording=True)
    detectable: UP.DetectabilityState = UP.DetectabilityState(default=True)


def fly(spec: Any, units: list[str], waits: list[Any], radius: float = 1.0) -> list[Any]:
    """The history in nautical miles, feet and hours of a flight given in some units."""
    out: list[Any] = []
    dist = geo.METERS["nmi"] / geo.METERS[units[0]]
    alt = geo.METERS["ft"] / geo.METERS[units[1]]
    time = geo.SECONDS["hr"] / geo.SECONDS[units[2]]

    def wait(t: float, k: int) -> UP.Wait:
        if waits[k] is None:
            return UP.Wait(t * time)
        return UP.Wait(t * geo.SECONDS["hr"] / geo.SECONDS[waits[k]], timeout_unit=waits[k])

    with warnings.catch_warnings(), UP.EnvironmentContext() as env:
        warnings.simplefilter("ignore")
        stage_units(units[0], units[1], stage_model=WGS84 if spec["wgs"] else Spherical, intersection_model=get_intersection_locations, time_unit=units[2])

        def place(la: float, lo: float, al: float) -> UP.GeodeticLocation:
            return UP.GeodeticLocation(la, lo, al * alt)

        def turns(plane: Any, times: list[float]) -> Any:
            # just after each waypoint
            for k, t in enumerate(times):
                yield env.timeout(t + (2e-4 if k == 0 else 0) * time)
                if plane.get_active_state_data("location", without_update=True):
                    here = plane.location
                    out.append([env.now / time, "turn", here.lat, here.lon, here.alt / alt / 1000, len(plane.get_remaining_waypoints("location"))])

        class Fly(UP.Task):
            def task(self, *, actor: Plane) -> TASK_GEN:
                yield wait(spec["wait"], 0)
                way = [place(*p) for p in spec["legs"]]
                speed = spec["speed"] * dist / time
                times = [(b - a) / speed for a, b in zip([actor.location, *way], way)]
                full = sum(b - a for a, b in zip([actor.location, *way], way)) / speed
                actor.activate_state(state="location", task=self, speed=speed, waypoints=way)
                env.process(turns(actor, times[:-1]))
                actor.activate_linear_state(state="fuel", rate=-2.5 / time, task=self)
                actor.activate_state(state="stock", rate=1.5 / time, task=self)
                if spec["stop"] is None:
                    yield UP.Wait(full)
                else:
                    yield UP.Any(UP.Wait(full), wait(spec["stop"], 1))
                actor.deactivate_all_states(task=self)
                out.append([env.now / time, "stopped"])

        mm: Any = (UP.SteppedMotionManager(timestep=time / 8) if spec["how"] == "stepped" else UP.SensorMotionManager(
            analytical_intersection if spec["how"] == "analytical" else subdivide_intersection))
        UP.add_stage_variable("motion_manager", mm)
        for k, (la, lo, r) in enumerate(spec["eyes"]):
            mm.add_sensor(det.Eye(f"e{k}", place(la, lo, 0), r * dist * radius, lambda *a: out.append([env.now / time, *a])))
        plane = Plane(name="p", location=place(*spec["from"]))
        proc = Fly().run(actor=plane)
        if spec["how"] == "stepped":
            mm.add_detectable(plane, "location")
            mm.run()

        def look() -> Any:
            for t in spec["look"]:
                yield env.timeout(t * time - env.now)
                here = plane.location
                out.append([env.now / time, "at", here.lat, here.lon, here.alt / alt / 1000, plane.fuel, plane.stock])

        def cancel() -> Any:
            yield wait(spec["cancel"], 2).as_event()
            if proc.is_alive:
                out.append([env.now / time, "cancelled"])
                proc.interrupt()

        env.process(look())
        if spec["cancel"] is not None:
            env.process(cancel())
        env.run(until=(3.0 + 1 / 32) * time)
        for r in create_location_table()[0]:
            out.append(["location row", *r[:3], r[3] / time, r[4], r[5], r[6] / alt / 1000, r[7]])
        for r in create_table()[0]:
            out.append(["row", *r[:3], r[3] / time, *r[4:]])
    return json.loads(json.dumps(out, default=repr))


def run_flight(spec: Any, mon: Mon) -> None:
    std, bare = ["nmi", "ft", "hr"], [None, None, None]
    want = fly(spec, std, bare)
    for near in (1 - 1e-4, 1 + 1e-4):
        if not same(want, fly(spec, std, bare, near), 0.01):
            raise Discard()
    got = fly(spec, spec["units"], spec["waits"])
    for n in range(max(len(want), len(got))):
        a = want[n] if n < len(want) else None
        b = got[n] if n < len(got) else None
        mon.check(same(a, b, 2e-5), "units", lambda: f"entry {n} {(a or b)[:2]}: {first(a, b, 2e-5)[0]!r} in nmi, ft, hr, {first(a, b, 2e-5)[1]!r} in {spec['units']}, waits in {spec['waits']}")
    mon.hit("flights")
    mon.hit("turns", sum(1 for e in want if e[1] == "turn"))
    crossings = sum(1 for e in want if e[1] in ("in", "out"))
    mon.hit("crossings", crossings)
    mon.hit(spec["how"], crossings)
    mon.hit("other_time", int(spec["units"][2] != "hr"))
    mon.hit("timeout_units", int(any(spec["waits"])))
    mon.see(want)
    mon.nontrivial = any(e[1] == "in" for e in want)
    mon.sample = {"units": spec["units"], "waits": spec["waits"], "first": want[:4]}


SCENARIOS = [Scenario("models", gen, run, quick=2000, thorough=20000), Scenario("flights", gen_flight, run_flight, quick=1200, thorough=12000)]
