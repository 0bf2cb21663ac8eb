"""C29: distances, bearings, points, paths, circles and ECEF conversions of the two earth models."""

import random
from math import asin, cos, degrees, radians, sin
from typing import Any

import upstage_des.api as UP
from upstage_des.geography import WGS84, Spherical

from .. import geo
from ..core import Mon, Scenario

PROPERTY = {
    "title": "The earth models compute true distances, bearings, points and paths",
    "statement": (
        "For Spherical (radius 6378137 m) and WGS84, distance and bearing describe the shortest path between two points, "
        "point_from_bearing_dist ends where that path does, and geo_linspace, geo_circle and the ECEF spaced points give the "
        "evenly spaced points of the path, circle and altitudes asked for. lla2ecef and ecef2lla are inverse and give the "
        "points of the model's surface. Units, poles, the date line, equal points and GEO_POINT objects make no difference."
    ),
    "quantifier": {"over": ["inputs", "configurations"],
                   "text": "every pair of points, bearing, distance, altitude, unit, number of segments, and both earth models"},
    "why_tests_cant": "Tests compare a few fixed points; the formulas are singular or ill-conditioned at poles, date line, and equal points.",
    "anchors": {
        "files": ["src/upstage_des/geography/spherical.py", "src/upstage_des/geography/wgs84.py",
                  "src/upstage_des/geography/conversions.py", "src/upstage_des/units/convert.py"],
        "mechanism": [{"name": "Spherical", "where": "src/upstage_des/geography/spherical.py"},
                      {"name": "WGS84", "where": "src/upstage_des/geography/wgs84.py"},
                      {"name": "BaseConversions", "where": "src/upstage_des/geography/conversions.py"}],
        "observe_at": ["return values of the earth models' methods"],
    },
    "technique": "runtime monitor: results compared with vector geometry on the sphere and an integrated geodesic on the ellipsoid",
}
RULE = (
    "A case is an earth model, three points, a bearing, a distance, units, altitudes and a number of segments. "
    "Non-trivial: the points are apart; distinct by the inputs."
)
REQUIRED = {"sphere": 2000, "ellipsoid": 800, "pole": 300, "dateline": 300, "same": 100, "meridian": 200, "over_pole": 40, "far": 100,
            "object": 300, "close": 100, "units": 1000, "wrapped": 300, "ecef": 2000, "cross_track": 1500}
ASSUMPTIONS = ["WGS84 distance and bearing are only asked for where Vincenty's method converges (not near the antipodes).",
               "Conversion factors are good to about 1e-6, so results in units other than meters are compared to 2e-6."]

UNITS = ["m", "km", "mi", "nmi", "ft"]


class Spot:
    """A GEO_POINT."""

    def __init__(self, lat: float, lon: float):
        self.at = (lat, lon)

    def latlon(self) -> tuple[float, float]:
        return self.at


def gen(rng: random.Random) -> Any:
    def point(near: Any = None) -> list[float]:
        k = rng.random()
        if near is not None and k < 0.06:
            return [*near]
        if near is not None and k < 0.14:
            d = rng.choice([1e-9, 1e-7, 1e-5, 1e-3])
            return [max(-90.0, min(90.0, near[0] + rng.uniform(-d, d))), near[1] + rng.uniform(-d, d)]
        if near is not None and k < 0.2:
            return [rng.uniform(-90, 90), near[1]]  # along the meridian
        if near is not None and k < 0.24:
            return [near[0], rng.uniform(-180, 180)]
        if near is not None and k < 0.28 and abs(near[0]) > 5:
            return [near[0] + rng.choice([0.0, 0.0, 1e-9, rng.uniform(-4, 4)]) * (abs(near[0]) < 80), near[1] + rng.choice([180.0, -180.0])]
        if k < 0.3:
            return [rng.choice([90.0, -90.0, 89.9999, -89.999999]), rng.choice([0.0, rng.uniform(-180, 180)])]
        if k < 0.36:
            return [rng.uniform(-80, 80), rng.choice([180.0, -180.0, 179.9999, -179.99])]
        if k < 0.42:
            return [0.0, rng.choice([0.0, 90.0, -90.0, rng.uniform(-180, 180)])]
        if k < 0.5:
            return [rng.uniform(-80, 80), rng.uniform(-360, 540)]
        if k < 0.65:
            return [float(rng.randint(-8, 8) * 10), float(rng.randint(-18, 18) * 10)]
        return [degrees(asin(rng.uniform(-1, 1))), rng.uniform(-180, 180)]

    a = point()
    b = point(a)
    far = rng.random() < 0.05
    if far:
        d = rng.choice([1e-6, 1e-3, 0.1])
        b = [max(-90.0, min(90.0, -a[0] + rng.uniform(-d, d))), a[1] + 180 + rng.uniform(-d, d)]
    return {
        "model": "sphere" if far or rng.random() < 0.7 else "ellipsoid",
        "a": a, "b": b, "c": point(b), "far": far,
        "bearing": rng.choice([0.0, 90.0, 180.0, 270.0, 360.0, -45.0, rng.uniform(0, 360), rng.uniform(0, 360)]),
        "m": rng.choice([0.0, rng.uniform(0, 1), rng.uniform(0, 1e4), rng.uniform(0, 1e6), rng.uniform(0, 2e7),
                         radians(rng.choice([30.0, 60.0, 90.0, 45.0])) * geo.R]),
        "unit": rng.choice(UNITS), "obj": [rng.random() < 0.3 for _ in range(3)],
        "alts": [rng.choice([0.0, rng.uniform(-400, 1e4), rng.uniform(0, 4e7)]) for _ in range(2)],
        "n": rng.randint(2, 12) if rng.random() < 0.995 else rng.randint(1000, 1500), "circle": rng.choice([1, 2, 3, 4, 5, 10, 13]), "f": rng.choice([0.0, 1.0, 0.5, rng.random()]),
    }


def run(spec: Any, mon: Mon) -> None:
    sph = spec["model"] == "sphere"
    mon.hit(spec["model"])
    M: Any = Spherical if sph else WGS84
    a, b, c = (tuple(spec[k]) for k in "abc")
    A, B, C = (Spot(*p) if o else p for p, o in zip((a, b, c), spec["obj"]))
    u = spec["unit"]
    mon.hit("units", int(u != "m"))
    mon.hit("object", int(any(spec["obj"])))
    mon.hit("pole", int(any(abs(p[0]) > 89.999 for p in (a, b))))
    mon.hit("wrapped", int(any(abs(p[1]) > 180 for p in (a, b))))
    mon.hit("dateline", int(abs(a[1] - b[1]) > 180))
    mon.hit("meridian", int(a[1] == b[1] and a != b))
    mon.hit("same", int(a == b))
    mon.hit("over_pole", int(abs(a[1] - b[1]) == 180 and a[0] == b[0]))
    rel = 2e-6 if u != "m" else 1e-9

    surf = geo.sph_ecef if sph else geo.wgs_ecef

    def end(p: Any, bearing: float, dist: float) -> Any:
        return geo.sph_direct(p, bearing, dist) if sph else geo.wgs_geodesic(p, bearing, dist)

    def gap(p: Any, q: Any) -> float:
        return geo.chord(surf(p[0], p[1], 0.0), surf(q[0], q[1], 0.0))

    def meters(x: float) -> float:
        return geo.conv(x, u, "m")

    def at(got: Any, want: Any, tol: float, what: str) -> None:
        mon.check(len(got) == 2 and gap(got, want) <= tol, what, lambda: f"{got} rather than {want}, {gap(got, want)} m apart")

    # distance and bearing: the path they describe ends at the other point, and it is the shortest one
    chord = geo.sph_dist(a, b)
    far = chord > 3.1 * geo.R
    mon.hit("far", int(far))
    slack = 1.0 if far else 0.01
    mon.hit("close", int(0 < chord < 200))
    try:
        d_m = M.distance(A, B, units="m")
    except ValueError:
        if sph or chord < 0.98 * geo.R * 3.14159:
            raise
        d_m = None
    if d_m is not None:
        d = M.distance(A, B, units=u)
        mon.check(d_m >= 0 and (abs(d_m - chord) <= slack if sph else 0.993 * chord - slack <= d_m <= 1.007 * chord + slack),
                  "distance", lambda: f"{a} to {b} is {d_m} m, the sphere has {chord} m")
        mon.check(abs(meters(d) - d_m) <= rel * d_m + 1e-6, "distance-unit", lambda: f"{d} {u} and {d_m} m")
        br = M.bearing(A, B)
        d2, br2 = M.distance_and_bearing(A, B, units=u)
        mon.check(abs(d2 - d) <= 1e-12 * d and abs(br2 - br) <= 1e-9, "distance-and-bearing", lambda: f"{d2, br2} rather than {d, br}")
        mon.check(0 <= br <= 360, "bearing-range", str(br))
        at(end(a, br, d_m), b, slack, "bearing-leads-astray")
        back = M.distance(B, A, units="m")
        mon.check(abs(back - d_m) <= slack, "distance-asymmetric", lambda: f"{d_m} and {back}")
        default = M.distance(A, B)
        mon.check(abs(geo.conv(default, "nmi", "m") - d_m) <= 2e-6 * d_m + 1e-6, "distance-default", lambda: f"{default} nmi")
        if a != b:
            mon.see("pair", spec["model"], a, b)
            mon.nontrivial = True

        # evenly spaced points of the path
        if not far:
            n = spec["n"]
            pts = M.geo_linspace(A, B, num_segments=n)
            mon.eq(len(pts), n + 1, "linspace-number")
            ts = [i / n for i in range(n + 1)]
            few = [*range(n + 1)] if n <= 12 else [0, 1, n // 2, n - 1, n]
            pts, ts = [pts[i] for i in few], [ts[i] for i in few]
            want = [end(a, br, d_m * t) for t in ts]
            want[-1] = b
            for p, w in zip(pts, want):
                at(p, w, 0.05, "linspace")
            alt = spec["alts"]
            alts = [alt[0] + (alt[1] - alt[0]) * t for t in ts]
            true = [surf(*w, h) for w, h in zip(want, alts)]
            only = M.ecef_linspace(A, B, alt[0], alt[1], n)
            both, lla = M.ecef_and_geo_linspace(A, B, alt[0], alt[1], n)
            mon.check(len(only) == len(both) == len(lla) == n + 1, "ecef-linspace-number", lambda: f"{len(only)}, {len(both)}, {len(lla)}")
            only, both, lla = ([x[i] for i in few] for x in (only, both, lla))
            for p, q, g, h, w, e in zip(only, both, lla, alts, want, true):
                mon.check(geo.chord(p, e) <= 0.5 and geo.chord(q, e) <= 0.5, "ecef-linspace", lambda: f"{p} and {q} rather than {e}")
                at(g[:2], w, 0.05, "geo-linspace-lla")
                mon.close(g[2], h, "geo-linspace-alt")
            if sph:
                lats, lons, xyz = Spherical.geo_linspace_with_ecef(A, B, num_segments=n)
                mon.check(len(lats) == len(lons) == len(xyz) == n + 1, "with-ecef-number", lambda: f"{len(lats)}, {len(xyz)}")
                for la, lo, v, w in zip(*([x[i] for i in few] for x in (lats, lons, xyz)), want):
                    at((la, lo), w, 0.05, "with-ecef")
                    at((la, lo), (degrees(asin(max(-1.0, min(1.0, v[2] / geo.norm(v))))), degrees(geo.atan2(v[1], v[0]))), 0.5,
                       "with-ecef-direction")
                f = spec["f"]
                at(Spherical.point_along(A, B, f), end(a, br, d_m * f), 0.05, "point-along")

    # the end of a path
    dist = geo.conv(spec["m"], "m", u)
    tol = 0.3 + rel * spec["m"]
    got = M.point_from_bearing_dist(A, spec["bearing"], dist, distance_units=u)
    true_end = end(a, spec["bearing"], spec["m"])
    at(got, true_end, tol, "point-from-bearing")
    if u == "nmi":
        at(M.point_from_bearing_dist(A, spec["bearing"], dist), true_end, tol, "point-default-unit")

    # circles
    k = spec["circle"]
    ring = M.geo_circle(A, dist, radius_units=u, num_points=k)
    mon.eq(len(ring), k + 1, "circle-number")
    for i, p in enumerate(ring):
        at(p, end(a, 360 * i / k, spec["m"]), tol, "circle")

    # the nearest point of a great circle
    if sph and 1 < chord < 2e7:
        mon.hit("cross_track")
        pole = geo.cross(geo.unit(*a), geo.unit(*b))
        pole = geo.scale(pole, 1 / geo.norm(pole))
        s = geo.dot(pole, geo.unit(*c))
        slop = 0.5 + 1e-8 * geo.R**2 / chord * 1e-6
        if abs(s) < 1 - 1e-9:
            away = abs(asin(s)) * geo.R
            x = Spherical.cross_track_distance(A, B, C, units=u)
            mon.check(abs(meters(x) - away) <= slop + rel * away, "cross-track-distance", lambda: f"{x} {u} rather than {away} m")
            p = Spherical.cross_track_point(A, B, C)
            v = geo.sub(geo.unit(*c), geo.scale(pole, s))
            foot = geo.scale(v, 1 / geo.norm(v))
            if abs(s) < 0.9999:
                miss = geo.chord(geo.scale(geo.unit(*p), geo.R), geo.scale(foot, geo.R))
                mon.check(miss <= slop * 100, "cross-track-point", lambda: f"{p} is {miss} m off")

    # ECEF
    mon.hit("ecef")
    places = [(*a, spec["alts"][0]), (*c, spec["alts"][1]), (*b, 0.0)]
    xyz = M.lla2ecef(places)
    mon.eq(len(xyz), 3, "ecef-number")
    for p, e in zip(places, xyz):
        mon.check(geo.chord(e, surf(*p)) <= 1e-6 + 1e-12 * abs(p[2]), "lla2ecef", lambda: f"{p} gives {e} rather than {surf(*p)}")
    rad = M.lla2ecef([(radians(p[0]), radians(p[1]), p[2]) for p in places], input_in_radians=True)
    for e, r in zip(xyz, rad):
        mon.check(geo.chord(e, r) <= 1e-6, "lla2ecef-radians", lambda: f"{r} rather than {e}")
    back = M.ecef2lla(xyz)
    turn = M.ecef2lla(xyz, radians_out=True)
    for p, q, r in zip(places, back, turn):
        mon.check(abs(q[2] - p[2]) <= 0.01 + 1e-9 * abs(p[2]) and gap(p, q) <= 0.01, "ecef2lla", lambda: f"{q} rather than {p}")
        mon.check(abs(q[0]) <= 90 and abs(q[1]) <= 180, "ecef2lla-range", str(q))
        mon.check(abs(degrees(r[0]) - q[0]) < 1e-9 and abs(degrees(r[1]) - q[1]) < 1e-9 and r[2] == q[2], "ecef2lla-radians",
                  lambda: f"{r} rather than {q}")


def courses(spec: Any, mon: Mon) -> None:
    """The great circle helpers of motion take locations, and give radians."""
    from upstage_des.motion import great_circle_calcs as G

    a, b = tuple(spec["a"]), tuple(spec["b"])
    with UP.EnvironmentContext():
        UP.add_stage_variable("distance_units", "km")
        UP.add_stage_variable("altitude_units", "m")
        UP.add_stage_variable("stage_model", Spherical)
        A, B = UP.GeodeticLocation(*a), UP.GeodeticLocation(*b)
        if spec["obj"][0]:
            A = A.to_radians()
        d = geo.angle(a, b)
        got = G.get_dist_rad(A, B)
        mon.check(abs(got - d) <= (1e-6 if d > 3 else 1e-9), "radians-distance", lambda: f"{got} rather than {d}")
        if 1e-4 < d < 3.1 and abs(a[0]) < 89:
            x = spec["m"] / geo.R
            lat, lon = G.get_pos_from_points_and_distance(A, B, x)
            w = geo.sph_direct(a, geo.sph_bearing(a, b), spec["m"])
            miss = geo.sph_dist((degrees(lat), degrees(lon)), w)
            mon.check(miss < 200, "radians-position", lambda: f"{miss} m off")
            mon.see("course", a, b)
            mon.nontrivial = True


SCENARIOS = [Scenario("globe", gen, run, quick=12000, thorough=204000), Scenario("courses", gen, courses, quick=4000, thorough=76500)]
