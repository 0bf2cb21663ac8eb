"""C34: location values."""

from __future__ import annotations

import math
import random
from dataclasses import FrozenInstanceError
from typing import Any

import upstage_des.api as UP
from upstage_des.geography import WGS84, Spherical
from upstage_des.utils import waypoint_time_and_dist
from vf.core import Mon, Scenario
from vf.geo import conv, sph_dist, sph_ecef, wgs_ecef

PROPERTY = {
    "id": "C34",
    "title": "Locations are unchangeable values with true distances in the stage's units",
    "statement": (
        "Attributes of a CartesianLocation or GeodeticLocation cannot be changed; copies, indexing, latlon, to_degrees "
        "and to_radians give the same place. Subtraction gives the straight-line (great-circle) distance in the "
        "stage's distance units, straight_line_distance and dist_with_altitude add the heights in their units, and "
        "waypoint_time_and_dist sums up a path. Equality is symmetric, whatever the angle units (cartesian: within "
        "1e-5 units of distance), equal geodetic locations hash alike, and location data objects make the same location."
    ),
    "quantifier": {"over": "inputs", "text": "all pairs of locations, with heights in distance or altitude units, angles "
                   "in degrees or radians, stage units and earth models"},
    "why_tests_cant": "Tests use a few points in one mix of units; conversions of heights, radians and their mixes "
                      "matter for every pair and every choice of stage units.",
    "anchors": {
        "files": ["src/upstage_des/data_types.py", "src/upstage_des/utils.py"],
        "mechanism": [{"name": "CartesianLocation, GeodeticLocation, *LocationData", "role": "location values"},
                      {"name": "waypoint_time_and_dist", "role": "length and duration of a path"}],
        "observe_at": ["attributes", "results of operators and methods"],
    },
    "technique": "runtime assertions on generated locations, pairs and paths against independent geometry "
                 "(vectors, ECEF, Vincenty) in all unit mixes, and algebraic monitors (symmetry, hash, round trips)",
}
RULE = ("One case is a pair (or path) of locations in a mix of units. It is non-trivial when the two differ; the signature "
        "is the units, kind and rounded distance.")
ASSUMPTIONS = ["locations are created inside an environment context, as documented",
               "the ground distance of WGS84 is taken from WGS84.distance in metres, which C29 decides"]
UNITS = ["m", "km", "mi", "nmi", "ft"]


def gen_cart(rng: random.Random) -> Any:
    def c() -> float:
        return rng.choice([0.0, float(rng.randint(-9, 9)), rng.uniform(-1000, 1000), rng.uniform(-1, 1)])

    a = [c(), c(), c(), rng.random() < 0.5]
    b = [c(), c(), c(), rng.random() < 0.5]
    how = rng.random()
    if how < 0.15:
        b = list(a)
    elif how < 0.3:
        b = [a[0] + rng.choice([4e-6, -4e-6, 3e-5, 1e-3]), a[1], a[2], a[3]]
    elif how < 0.4:
        b = [a[0], a[1], a[2], not a[3]]
    elif how < 0.5:
        b = list(a)
        b[rng.randrange(3)] += rng.choice([1.0, -3e-5, 1e-3])
    return {"a": a, "b": b, "units": [rng.choice(UNITS), rng.choice(UNITS)], "path": [[c(), c(), c(), rng.random() < 0.5] for _ in range(rng.randint(0, 4))],
            "speed": rng.uniform(0.1, 50)}


def frozen(mon: Mon, loc: Any, names: tuple[str, ...]) -> None:
    for n in names:
        old = getattr(loc, n)
        mon.raises(FrozenInstanceError, lambda: setattr(loc, n, 1.0 if not isinstance(old, bool) else not old), "frozen", f"setting {n}")
        mon.check(getattr(loc, n) == old and type(getattr(loc, n)) is type(old), "frozen-value", f"{n} changed")
    mon.hit("frozen")


def same(mon: Mon, loc: Any, new: Any, names: tuple[str, ...], what: str) -> None:
    mon.check(type(new) is type(loc), "type", f"{what} is a {type(new).__name__}")
    for n in names:
        mon.eq(getattr(new, n), getattr(loc, n), what, f"{n} of the {what}")
    mon.check(new == loc and loc == new and not (new != loc), what + "-eq", f"the {what} is not equal")
    mon.eq(hash(new), hash(loc), what + "-hash", f"hash of the {what}")
    mon.check({loc: 1}.get(new) == 1, what + "-key", f"the {what} is not the same dictionary key")


def run_cart(spec: Any, mon: Mon) -> None:
    du, au = spec["units"]
    names = ("x", "y", "z", "use_altitude_units")
    data = [UP.CartesianLocationData(*p[:3], use_altitude_units=p[3]) for p in (spec["a"], spec["b"])]
    mon.eq(data[0] == data[1], spec["a"] == spec["b"], "data-eq", f"{spec['a']} == {spec['b']} as data")
    mon.raises(ValueError, lambda: data[0] == 1, "data-compare", "comparing data with a number")
    with UP.EnvironmentContext():
        UP.add_stage_variable("distance_units", du)
        UP.add_stage_variable("altitude_units", au)

        class Named(UP.CartesianLocation):
            pass

        def make(p: Any) -> Any:
            kind = Named if int(abs(p[0]) * 8) % 5 == 1 else UP.CartesianLocation
            return kind(p[0], p[1], p[2], use_altitude_units=p[3])

        def place(p: Any) -> tuple[float, float, float]:
            return (p[0], p[1], conv(p[2], au, du) if p[3] else p[2])

        def gap(p: Any, q: Any) -> float:
            return math.dist(place(p), place(q))

        a, b = make(spec["a"]), make(spec["b"])
        for p, loc, d in zip((spec["a"], spec["b"]), (a, b), data):
            mon.eq([loc.x, loc.y, loc.z, loc.use_altitude_units], p, "attributes", "attributes")
            mon.eq([loc[0], loc[1], loc[2]], p[:3], "index", "values by index")
            for k in (3, -1, 7):
                mon.raises((ValueError, IndexError), lambda: loc[k], "bad-index", f"index {k}")
            frozen(mon, loc, names)
            new = loc.copy()
            same(mon, loc, new, names, "copy")
            mon.check(new is not loc, "copy-same", "copy() gave the location itself")
            one, two = d.make_location(), d.make_location()
            mon.check(one is not two, "data-shared", "make_location gave one object twice")
            if type(loc) is UP.CartesianLocation:
                same(mon, loc, one, names, "made")
            mon.eq([one.x, one.y, one.z, one.use_altitude_units], p, "data", "location from data")
            for bad in (1.0, None, (1.0, 2.0, 3.0), UP.GeodeticLocation(1, 2, 3)):
                mon.raises(ValueError, lambda: loc - bad, "bad-sub", f"subtracting {bad!r}")
                mon.raises(ValueError, lambda: loc == bad, "bad-eq", f"comparing with {bad!r}")
            text = repr(loc)
            mon.check(f"{p[0]:,}{du}" in text and f"{p[1]:,}{du}" in text and f"{p[2]:,}{au if p[3] else du}" in text and type(loc).__name__ in text,
                      "repr", lambda: f"repr {text} of {p} in {du}, {au}")
        want = gap(spec["a"], spec["b"])
        size = 1e-9 + 1e-5 * max(1.0, *map(abs, (*place(spec["a"]), *place(spec["b"]))))
        for got in (a - b, b - a, a.straight_line_distance(b), b.straight_line_distance(a)):
            mon.check(isinstance(got, float) and abs(got - want) <= size, "distance", lambda: f"distance {spec['a']} to {spec['b']}: {got!r} not {want!r}")
        mon.eq(a - b, b - a, "symmetric", "distance both ways")
        mon.eq(a - a, 0.0, "self", "distance to itself")
        if abs(want - 1e-5) > 2e-6 and (spec["a"][3] == spec["b"][3] or want > 10 * size or want == 0):
            mon.eq((a == b, b == a, a != b), (want <= 1e-5, want <= 1e-5, want > 1e-5), "equal", f"equality at a distance of {want}")
            mon.hit("near_equal", int(0 < want <= 1e-5))
        total, at = 0.0, spec["a"]
        for p in spec["path"]:
            total += gap(at, p)
            at = p
        time, dist = waypoint_time_and_dist(a, [make(p) for p in spec["path"]], spec["speed"])
        mon.close(dist, total, "path-length", "length of a path", 2e-5 + size)
        mon.close(time, total / spec["speed"], "path-time", "duration of a path", 2e-5 + size)
        mon.hit("mixed_heights", int(spec["a"][3] != spec["b"][3]))
        mon.hit("path_legs", len(spec["path"]))
        mon.nontrivial = spec["a"] != spec["b"]
        mon.see(du, au, round(want, 3), spec["a"][3], spec["b"][3], len(spec["path"]))
        mon.sample = {"distance": want}


def gen_geo(rng: random.Random) -> Any:
    def p() -> Any:
        lat = rng.choice([rng.uniform(-89, 89), rng.uniform(-89, 89), rng.uniform(-1, 1), float(rng.randint(-80, 80))])
        lon = rng.choice([rng.uniform(-180, 180), rng.uniform(-180, 180), 180.0, -180.0, 0.0, float(rng.randint(-179, 179))])
        return [lat, lon, rng.choice([0.0, rng.uniform(-100, 20000), rng.uniform(0, 50)]), rng.random() < 0.4]

    a, b = p(), p()
    how = rng.random()
    if how < 0.15:
        b = [*a[:3], rng.random() < 0.5]
    elif how < 0.3:
        b = [a[0] + rng.uniform(-1e-3, 1e-3), a[1], a[2] + rng.choice([0, 1]), b[3]]
    elif how < 0.42:  # only one of the coordinates differs
        k = rng.randrange(3)
        b = [*a[:3], rng.choice([a[3], b[3]])]
        b[k] = b[k] + rng.choice([1e-3, 1.0]) if b[k] < 80 else b[k] - 1.0
    return {"a": a, "b": b, "model": rng.choice(["Spherical", "WGS84"]), "units": [rng.choice(UNITS), rng.choice(UNITS)],
            "path": [p() for _ in range(rng.randint(0, 3))], "speed": rng.uniform(0.1, 900)}


def run_geo(spec: Any, mon: Mon) -> None:
    du, au = spec["units"]
    names = ("lat", "lon", "alt", "in_radians")
    sph = spec["model"] == "Spherical"

    def raw(p: Any) -> list[Any]:
        return [math.radians(p[0]), math.radians(p[1]), p[2], True] if p[3] else list(p)

    data = [UP.GeodeticLocationData(*raw(p)[:3], in_radians=p[3]) for p in (spec["a"], spec["b"])]
    equal = spec["a"][:3] == spec["b"][:3]
    if equal or max(abs(x - y) for x, y in zip(spec["a"], spec["b"])) > 1e-9:
        mon.eq((data[0] == data[1], data[1] == data[0]), (equal, equal), "data-eq", f"{spec['a']} == {spec['b']} as data")
    mon.raises(ValueError, lambda: data[0] == 1, "data-compare", "comparing data with a number")
    with UP.EnvironmentContext():
        UP.add_stage_variable("distance_units", du)
        UP.add_stage_variable("altitude_units", au)
        UP.add_stage_variable("stage_model", Spherical if sph else WGS84)

        def make(p: Any) -> Any:
            q = raw(p)
            return UP.GeodeticLocation(q[0], q[1], q[2], in_radians=q[3])

        def ground(p: Any, q: Any) -> float:
            if p[:2] == q[:2]:
                return 0.0
            return conv(sph_dist(p[:2], q[:2]) if sph else WGS84.distance(tuple(p[:2]), tuple(q[:2]), units="m"), "m", du)

        a, b = make(spec["a"]), make(spec["b"])
        for p, loc, d in zip((spec["a"], spec["b"]), (a, b), data):
            mon.eq([loc.lat, loc.lon, loc.alt, loc.in_radians], raw(p), "attributes", "attributes")
            mon.eq([loc[0], loc[1], loc[2]], raw(p)[:3], "index", "values by index")
            for k in (3, -1):
                mon.raises((ValueError, IndexError), lambda: loc[k], "bad-index", f"index {k}")
            frozen(mon, loc, names)
            new = loc.copy()
            same(mon, loc, new, names, "copy")
            mon.check(new is not loc, "copy-same", "copy() gave the location itself")
            one, two = d.make_location(), d.make_location()
            mon.check(one is not two, "data-shared", "make_location gave one object twice")
            same(mon, loc, one, names, "made")
            deg, rad = loc.to_degrees(), loc.to_radians()
            mon.eq((deg.in_radians, rad.in_radians), (False, True), "units", "units of to_degrees and to_radians")
            mon.eq((deg.alt, rad.alt), (p[2], p[2]), "converted-alt", "altitude after converting the angles")
            for k, (x, y) in enumerate(((deg.lat, deg.lon), loc.latlon(), d.latlon())):
                mon.close(x, p[0], "degrees", f"latitude in degrees ({k})", 1e-12)
                mon.close(y, p[1], "degrees", f"longitude in degrees ({k})", 1e-12)
            mon.close(rad.lat, math.radians(p[0]), "radians", "latitude in radians", 1e-12)
            mon.close(rad.lon, math.radians(p[1]), "radians", "longitude in radians", 1e-12)
            mon.eq([loc.lat, loc.lon, loc.alt, loc.in_radians], raw(p), "converted-self", "the location after converting it")
            if p[3]:
                same(mon, loc, rad, names, "same units")
            else:
                same(mon, loc, deg, names, "same units")
                mon.check(loc == rad and rad == loc, "units-eq", "a location is not equal to itself in radians")
                mon.eq(hash(loc), hash(rad), "units-hash", "hash of equal locations")
            bads = [1.0, None, (1.0, 2.0, 3.0), UP.CartesianLocation(1, 2, 3)]
            for bad in bads:
                mon.raises((ValueError, TypeError), lambda: loc - bad, "bad-sub", f"subtracting {bad!r}")
                mon.raises((ValueError, TypeError), lambda: loc == bad, "bad-eq", f"comparing with {bad!r}")
                mon.raises((ValueError, TypeError), lambda: loc.straight_line_distance(bad), "bad-straight", f"distance to {bad!r}")
            text = repr(loc)
            ang = "rad" if p[3] else "°"
            mon.check(f"{raw(p)[0]}{ang}" in text and f"{raw(p)[1]}{ang}" in text and f"{p[2]:,}{au}" in text, "repr", lambda: f"repr {text} of {p}")
        far = math.degrees(sph_dist(spec["a"][:2], spec["b"][:2]) / 6378137.0)
        if far < 179 or sph:
            want = ground(spec["a"], spec["b"])
            tol = 2e-6 * want + conv(0.02, "m", du)
            for got in (a - b, b - a):
                mon.check(abs(got - want) <= tol, "distance", lambda: f"distance {spec['a']} to {spec['b']}: {got!r} not {want!r} {du}")
            dh = conv(spec["a"][2] - spec["b"][2], au, du)
            both = math.hypot(want, dh)
            for got in (a.dist_with_altitude(b), b.dist_with_altitude(a)):
                mon.check(abs(got - both) <= tol + 2e-6 * both, "with-altitude", lambda: f"distance with altitude of {spec['a']} and {spec['b']}: {got!r} not {both!r} {du}")
            total, at, here = 0.0, spec["a"], a
            ok = True
            for p in spec["path"]:
                ok = ok and math.degrees(sph_dist(at[:2], p[:2]) / 6378137.0) < 179
                if ok:
                    total += ground(at, p)
                at = p
            if ok:
                time, dist = waypoint_time_and_dist(here, [make(p) for p in spec["path"]], spec["speed"])
                lim = 2e-6 * total + conv(0.1, "m", du)
                mon.check(abs(dist - total) <= lim, "path-length", lambda: f"length of a path: {dist!r} not {total!r}")
                mon.check(abs(time - total / spec["speed"]) <= lim / spec["speed"], "path-time", lambda: f"duration of a path: {time!r}")
                mon.hit("path_legs", len(spec["path"]))
        ecef = sph_ecef if sph else wgs_ecef
        pts = [ecef(p[0], p[1], conv(p[2], au, "m")) for p in (spec["a"], spec["b"])]
        line = conv(math.dist(*pts), "m", du)
        for got in (a.straight_line_distance(b), b.straight_line_distance(a)):
            mon.check(abs(got - line) <= 3e-6 * line + 3e-6 * conv(abs(spec["a"][2]) + abs(spec["b"][2]), au, du) + conv(0.01, "m", du), "straight",
                      lambda: f"straight line distance of {spec['a']} and {spec['b']}: {got!r} not {line!r} {du}")
        mon.eq(a - a, 0.0, "self", "distance to itself")
        if equal:
            mon.eq((a == b, b == a, a != b, hash(a) == hash(b)), (True, True, False, True), "equal", "equal locations")
            mon.hit("equal_mixed", int(spec["a"][3] != spec["b"][3]))
        elif max(abs(x - y) for x, y in zip(spec["a"], spec["b"])) > 1e-9:
            mon.eq((a == b, b == a, a != b), (False, False, True), "not-equal", "different locations")
        mon.hit("mixed_angles", int(spec["a"][3] != spec["b"][3]))
        mon.nontrivial = not equal
        mon.see(spec["model"], du, au, round(line, 3), spec["a"][3], spec["b"][3])
        mon.sample = {"straight": line}


SCENARIOS = [
    Scenario("cartesian", gen_cart, run_cart, quick=24000, thorough=804000),
    Scenario("geodetic", gen_geo, run_geo, quick=24000, thorough=402000),
]
REQUIRED = {"frozen": 8000, "near_equal": 20, "mixed_heights": 500, "path_legs": 3000, "equal_mixed": 50, "mixed_angles": 500}
