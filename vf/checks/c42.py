"""C42: where a model lies does not matter."""

from __future__ import annotations

import itertools
import json
import random
import warnings
from typing import Any

import upstage_des.api as UP
from upstage_des.data_utils import create_location_table
from upstage_des.motion.cartesian_model import cartesian_linear_intersection
from upstage_des.type_help import TASK_GEN

from .. import det
from ..core import Discard, Mon, Scenario
from ..util import dy, stage_units
from .c40 import first, fly, same

PROPERTY = {
    "title": "It does not matter where in space a model lies",
    "statement": (
        "A model of moving and sensing actors behaves the same wherever it is put: in a Cartesian stage moved by any vector, turned or "
        "mirrored along the axes (so that coordinates are zero or change sign, order or size); on the earth "
        "moved along its parallels, also across the prime or the 180 degree meridian in either way of writing longitudes, or mirrored from north to south or "
        "from east to west. All times of sensing, arriving and recording are the same, and all places are the same places, moved."
    ),
    "quantifier": {"over": ["inputs", "histories"],
                   "text": "every path, speed, sensor, manager, earth model and intersection model; every such move"},
    "why_tests_cant": "Tests fly in one place, mostly with positive coordinates in one hemisphere; a sign, a wrap of longitude or a coordinate of "
                      "zero taken for nothing shows elsewhere.",
    "anchors": {
        "files": ["src/upstage_des/motion/cartesian_model.py", "src/upstage_des/motion/geodetic_model.py", "src/upstage_des/states.py",
                  "src/upstage_des/motion/motion.py", "src/upstage_des/motion/stepped_motion.py", "src/upstage_des/geography/spherical.py",
                  "src/upstage_des/geography/wgs84.py", "src/upstage_des/geography/intersections.py", "src/upstage_des/data_types.py"],
        "mechanism": [{"name": "location states and intersection models", "where": "src/upstage_des/states.py"}],
        "observe_at": ["sensor callbacks", "locations", "remaining waypoints", "histories", "create_location_table"],
    },
    "technique": "runtime monitor: metamorphic oracle comparing the recorded histories of one model at different places",
}
RULE = "A case is a generated model run in one place and in others. Non-trivial: something enters a range; distinct by the history."
REQUIRED = {"planes": 300, "turned": 200, "moved": 200, "crossings": 1000, "to_origin": 100, "flights": 300, "over_180": 100, "over_0": 50, "mirrored": 100, "places": 2000,
            "flight_crossings": 500, "wide": 50, "analytical": 100, "subdivide": 100, "stepped": 100}
ASSUMPTIONS = ["Paths whose crossings are sensitive (more than 1% when a radius changes by 1e-4) are left out; values are compared to 1e-6 (Cartesian), 2e-5 (geodetic).",
               "The poles are not crossed."]


def gen(rng: random.Random) -> Any:
    def place() -> list[float]:
        return [rng.randint(-16, 16) / 2, rng.randint(-16, 16) / 2, rng.choice([0, 0, 1, 2.5])]

    ships = [{"from": place(), "legs": [place() for _ in range(rng.randint(1, 4))], "speed": rng.choice([0.5, 1.0, 1.5, 3.0]), "at": dy(rng, 1, 32, 16) + k / 512,
              "stop": rng.choice([None, None, dy(rng, 1, 60, 4) + 1 / 128]), "hide": rng.choice([None, None, [dy(rng, 1, 60, 4) + 1 / 64, dy(rng, 1, 20, 4)]])}
             for k in range(rng.randint(1, 3))]
    eyes = [{"at": place(), "r": rng.choice([1.0137, 2.0211, 4.0173, 6.0319]), "new": rng.choice([None, None, dy(rng, 1, 60, 4) + 1 / 256])} for _ in range(rng.randint(1, 4))]
    moves = []
    for _ in range(2):
        # a place of the model becomes the origin, or shares some coordinates with it
        p = rng.choice([rng.choice(ships)["from"], rng.choice(rng.choice(ships)["legs"]), rng.choice(eyes)["at"]])
        how = rng.choice(["origin", "axis", "near", "far", "stay"])
        by = {"origin": [-x for x in p], "axis": [-x if rng.random() < 0.5 else dy(rng, 1, 64, 4) for x in p], "near": [rng.randint(-32, 32) / 4 for _ in p],
              "far": [rng.choice([-1, 1]) * rng.choice([64, 1024, 4096.5]) for _ in p], "stay": [0, 0, 0]}[how]
        turn = rng.choice([None, None, *itertools.permutations(range(3))])
        moves.append({"by": by, "turn": turn or [0, 1, 2], "sign": [rng.choice([1, 1, -1]) for _ in range(3)], "how": how})
    return {"ships": ships, "eyes": eyes, "stepped": rng.random() < 0.4, "look": sorted({dy(rng, 1, 80, 4) + 1 / 1024 for _ in range(4)}), "moves": moves}


class Ship(UP.Actor):
    location: UP.CartesianLocationChangingState = UP.CartesianLocationChangingState(recording=True)
    berth: UP.State = UP.State(recording=True)
    detectable: UP.DetectabilityState = UP.DetectabilityState(default=True, recording=True)


def sail(spec: Any, move: Any, radius: float = 1.0) -> list[Any]:
    """The history, its places moved back."""
    out: list[Any] = []

    def there(p: Any) -> UP.CartesianLocation:
        q = [(p[k] + b) * s for k, b, s in zip(range(3), move["by"], move["sign"])]
        return UP.CartesianLocation(*[q[k] for k in move["turn"]])

    def here(*xyz: float) -> list[float]:
        q = [0.0] * 3
        for k, v in zip(move["turn"], xyz):
            q[k] = v
        return [v * s - b for v, b, s in zip(q, move["by"], move["sign"])]

    def at(loc: Any) -> Any:
        return here(loc.x, loc.y, loc.z) if isinstance(loc, UP.CartesianLocation) else det.plain(loc)

    with warnings.catch_warnings(), UP.EnvironmentContext() as env:
        warnings.simplefilter("ignore")
        stage_units()
        mm: Any = UP.SteppedMotionManager(timestep=0.25) if spec["stepped"] else UP.SensorMotionManager(cartesian_linear_intersection)
        UP.add_stage_variable("motion_manager", mm)

        def look_out(k: int, e: Any) -> Any:
            if e["new"]:
                yield env.timeout(e["new"])
            mm.add_sensor(det.Eye(f"e{k}", there(e["at"]), e["r"] * radius, lambda *a: out.append([env.now, *a])))
            if not e["new"]:
                yield env.timeout(0)

        class Sail(UP.Task):
            spec: Any

            def task(self, *, actor: Ship) -> TASK_GEN:
                s = self.spec
                yield UP.Wait(s["at"])
                way = [there(p) for p in s["legs"]]
                full = sum(b - a for a, b in zip([actor.location, *way], way)) / s["speed"]
                actor.activate_state(state="location", task=self, speed=s["speed"], waypoints=way)
                yield UP.Wait(full if s["stop"] is None else min(full, s["stop"]))
                out.append([env.now, "stopped", actor.name, at(actor.location)])
                actor.deactivate_all_states(task=self)
                actor.berth = actor.location
                actor.location = way[0]

        for k, e in enumerate(spec["eyes"]):
            if e["new"]:
                env.process(look_out(k, e))
            else:
                for _ in look_out(k, e):
                    pass
        ships = []
        for k, s in enumerate(spec["ships"]):
            ship = Ship(name=f"s{k}", location=there(s["from"]), berth=there(s["legs"][-1]))
            ships.append(ship)
            task = Sail()
            task.spec = s
            task.run(actor=ship)
            if spec["stepped"]:
                mm.add_detectable(ship, "location")

            def hide(ship: Any = ship, h: Any = s["hide"]) -> Any:
                if h:
                    yield env.timeout(h[0])
                    ship.detectable = False
                    yield env.timeout(h[1])
                    ship.detectable = True
                else:
                    yield env.timeout(0)

            env.process(hide())
        if spec["stepped"]:
            mm.run()

        def look() -> Any:
            for t in spec["look"]:
                yield env.timeout(t - env.now)
                for s in ships:
                    left = s.get_remaining_waypoints("location") if s.get_active_state_data("location", without_update=True) else []
                    out.append([env.now, "at", s.name, at(s.location), [at(w) for w in left], at(s.berth), *[s.location - x.location for x in ships]])

        env.process(look())
        env.run(until=60.0)
        for r in create_location_table()[0]:
            out.append(["row", *r[:4], here(*r[4:7]), r[7]])
        for s in ships:
            out.append(["histories", s.name, sorted([k, [[t, at(v)] for t, v in h]] for k, h in s._state_histories.items())])
    return json.loads(json.dumps(out, default=repr))


def compare(want: list[Any], got: list[Any], tol: float, what: Any, mon: Mon, key: str) -> None:
    for n in range(max(len(want), len(got))):
        a = want[n] if n < len(want) else None
        b = got[n] if n < len(got) else None
        mon.check(same(a, b, tol), key, lambda: f"entry {n} {(a or b)[:3]}: {first(a, b, tol)[0]!r} in place, {first(a, b, tol)[1]!r} after {what}")
    mon.hit("places", len(want))


STAY = {"by": [0, 0, 0], "turn": [0, 1, 2], "sign": [1, 1, 1]}


def run(spec: Any, mon: Mon) -> None:
    want = sail(spec, STAY)
    if not spec["stepped"]:
        for near in (1 - 1e-4, 1 + 1e-4):
            if not same(want, sail(spec, STAY, near), 0.01):
                raise Discard()
    for move in spec["moves"]:
        # far away, positions are only so exact
        compare(want, sail(spec, move), 1e-6, move, mon, "plane")
        mon.hit("moved", int(any(move["by"])))
        mon.hit("turned", int(move["turn"] != [0, 1, 2] or -1 in move["sign"]))
        mon.hit("to_origin", int(move["how"] == "origin"))
    mon.hit("planes")
    mon.hit("crossings", sum(1 for e in want if e[1] in ("in", "out")))
    mon.see(want)
    mon.nontrivial = any(e[1] == "in" for e in want)
    mon.sample = {"moves": spec["moves"], "first": want[:4]}


def gen_flight(rng: random.Random) -> Any:
    lat, lon = rng.choice([rng.uniform(-60, 60), rng.uniform(-0.5, 0.5)]), rng.uniform(-60, 60)
    wide = rng.choice([1, 1, 1, 8])
    legs = [[max(-75.0, min(75.0, lat + wide * rng.uniform(-1, 1))), lon + wide * rng.uniform(-1, 1), rng.uniform(0, 3000)] for _ in range(rng.randint(1, 3))]
    spec = {"from": [lat, lon, rng.uniform(0, 3000)], "legs": legs, "speed": wide * rng.uniform(60, 600), "how": rng.choice(["stepped", "analytical", "subdivide"]),
            "wgs": rng.random() < 0.3, "wait": dy(rng, 1, 20, 16) + 1 / 64, "stop": rng.choice([None, None, dy(rng, 1, 20, 16) + 1 / 128]),
            "eyes": [[lat + wide * rng.uniform(-0.7, 0.7), lon + wide * rng.uniform(-0.7, 0.7), wide * rng.uniform(5, 60)] for _ in range(rng.randint(1, 3))],
            "look": sorted({dy(rng, 1, 40, 16) + 1 / 256 for _ in range(3)}), "cancel": rng.choice([None, rng.uniform(0.1, 2.0)])}
    moves = []
    for _ in range(2):
        p = rng.choice([spec["from"], *legs, *spec["eyes"]])
        # a place comes to lie near or on a meridian
        to = rng.choice([180.0, 180.0, 180.0, 0.0, rng.uniform(-180, 180)])
        moves.append({"by": to - p[1] + wide * rng.choice([0, 0, rng.uniform(-0.5, 0.5)]), "lat": rng.choice([1, 1, -1]), "lon": rng.choice([1, 1, -1]),
                      "write": rng.choice(["signed", "signed", "east"]), "to": to})
    return {"flight": spec, "moves": moves, "wide": wide > 1}


def go(spec: Any, move: Any) -> list[Any]:
    def there(p: Any) -> list[float]:
        lon = (p[1] + move["by"]) * move["lon"]
        lon = lon % 360 if move["write"] == "east" else (lon + 180) % 360 - 180
        return [p[0] * move["lat"], lon, p[2]]

    def back(la: float, lo: float) -> list[float]:
        return [la * move["lat"], (lo * move["lon"] - move["by"] + 180) % 360 - 180]

    m = {**spec, "from": there(spec["from"]), "legs": [there(p) for p in spec["legs"]], "eyes": [there(e) for e in spec["eyes"]]}
    out = []
    for e in fly(m, ["nmi", "ft", "hr"], [None] * 3):
        k = 2 if e[1] in ("turn", "at") else 5 if e[0] == "location row" else None
        out.append(e if k is None else [*e[:k], *back(e[k], e[k + 1]), *e[k + 2:]])
    return out


def run_flight(spec: Any, mon: Mon) -> None:
    f = spec["flight"]
    stay = {"by": 0.0, "lat": 1, "lon": 1, "write": "signed"}
    want = go(f, stay)
    if f["how"] != "stepped":
        for near in (1 - 1e-4, 1 + 1e-4):
            if not same(fly(f, ["nmi", "ft", "hr"], [None] * 3), fly(f, ["nmi", "ft", "hr"], [None] * 3, near), 0.01):
                raise Discard()
    for move in spec["moves"]:
        compare(want, go(f, move), 2e-5, move, mon, "earth")
        lons = [(p[1] + move["by"]) * move["lon"] for p in (f["from"], *f["legs"], *f["eyes"])]
        mon.hit("over_180", int(min(x % 360 for x in lons) < 180 < max(x % 360 for x in lons)))
        mon.hit("over_0", int(min((x + 180) % 360 for x in lons) < 180 < max((x + 180) % 360 for x in lons)))
        mon.hit("mirrored", int(move["lat"] < 0 or move["lon"] < 0))
    mon.hit("flights")
    mon.hit("wide", int(spec["wide"]))
    crossings = sum(1 for e in want if e[1] in ("in", "out"))
    mon.hit("flight_crossings", crossings)
    mon.hit(f["how"], crossings)
    mon.see(want)
    mon.nontrivial = any(e[1] == "in" for e in want)
    mon.sample = {"moves": spec["moves"], "first": want[:4]}


SCENARIOS = [Scenario("planes", gen, run, quick=2000, thorough=20000), Scenario("flights", gen_flight, run_flight, quick=1200, thorough=12000)]
