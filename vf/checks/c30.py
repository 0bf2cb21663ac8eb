"""C30: intersections of paths with the ranges of sensors, in the models that motion managers use."""

import random
from math import cos, degrees, radians, sin, sqrt
from typing import Any

import upstage_des.api as UP
from upstage_des.geography import WGS84, Spherical, get_intersection_locations
from upstage_des.geography.intersections import find_crossing_points
from upstage_des.motion.cartesian_model import cartesian_linear_intersection, ray_intersection
from upstage_des.motion.geodetic_model import analytical_intersection, subdivide_intersection

from .. import geo
from ..core import Discard, Mon, Scenario

PROPERTY = {
    "title": "Intersections of a path with a range are where the true path crosses it",
    "statement": (
        "get_intersection_locations and find_crossing_points report, for a great circle (or geodesic) path with linearly "
        "changing altitude, whether it starts and ends inside a sphere around a point, and every crossing of it, in order and "
        "to the precision of the subdivision asked for, on the inside. The intersection models (subdividing, analytical, "
        "cartesian, and rays through ellipsoids) give these crossings as locations, times at the speed, kinds, and path time."
    ),
    "quantifier": {"over": ["inputs", "configurations"],
                   "text": "every path, altitude profile, center, radius, speed, unit, spacing, subdivision, and earth model"},
    "why_tests_cant": "Tests use a few fixed flights; errors depend on where a crossing falls within the subdivided path.",
    "anchors": {
        "files": ["src/upstage_des/geography/intersections.py", "src/upstage_des/motion/geodetic_model.py",
                  "src/upstage_des/motion/great_circle_calcs.py", "src/upstage_des/motion/cartesian_model.py"],
        "mechanism": [{"name": "find_crossing_points, get_intersection_locations", "where": "src/upstage_des/geography/intersections.py"},
                      {"name": "subdivide_intersection, analytical_intersection", "where": "src/upstage_des/motion/geodetic_model.py"},
                      {"name": "ray_intersection", "where": "src/upstage_des/motion/cartesian_model.py"}],
        "observe_at": ["return values"],
    },
    "technique": "runtime monitor: results compared with crossings of an independently integrated path, found by search",
}
RULE = (
    "A case is a path, a sphere, units and a subdivision. Non-trivial: the path crosses the sphere; distinct by the crossings."
)
REQUIRED = {"geodesic": 1200, "enter": 500, "exit": 500, "start_inside": 200, "end_inside": 200, "outside": 100, "both": 150,
            "climbing": 500, "wgs": 400, "model": 300, "analytical": 300, "ray": 1000, "straight": 500, "custom_split": 300, "short": 300, "level": 500,
            "edge": 2000, "edge_hits": 1000}
ASSUMPTIONS = ["Passes through the sphere that are shorter than dist_between can be missed, and are not generated.",
               "The analytical model treats chords as arcs, and altitude by its average: compared to 1% of the radius, with "
               "altitudes below 5% of it, or level flights."]


class Track:
    """A path on an earth model from a start, a bearing and a length; the altitude changes linearly."""

    def __init__(self, sph: bool, start: Any, bearing: float, length: float, alts: Any):
        self.sph, self.start, self.bearing, self.length, self.alts = sph, start, bearing, length, alts
        if not sph:
            self.h = length / max(2, int(length / 10000))
            self.nodes = self.integrate()

    def integrate(self) -> list[Any]:
        p, k = self.start, 1 / (1 - geo.E2)
        la, lo, az = radians(p[0]), radians(p[1]), radians(self.bearing)
        north = (-sin(la) * cos(lo), -sin(la) * sin(lo), cos(la))
        y = (*geo.wgs_ecef(p[0], p[1], 0.0), *geo.add(geo.scale(north, cos(az)), geo.scale((-sin(lo), cos(lo), 0.0), sin(az))))

        def f(s: Any) -> Any:
            lam = (s[3] ** 2 + s[4] ** 2 + k * s[5] ** 2) / (s[0] ** 2 + s[1] ** 2 + (k * s[2]) ** 2)
            return (s[3], s[4], s[5], -lam * s[0], -lam * s[1], -lam * k * s[2])

        h = self.h
        out = [y]
        for _ in range(round(self.length / h)):
            k1 = f(y)
            k2 = f([a + h / 2 * b for a, b in zip(y, k1)])
            k3 = f([a + h / 2 * b for a, b in zip(y, k2)])
            k4 = f([a + h * b for a, b in zip(y, k3)])
            y = tuple(a + h / 6 * (b + 2 * c + 2 * d + e) for a, b, c, d, e in zip(y, k1, k2, k3, k4))
            out.append(y)
        return out

    def ground(self, s: float) -> Any:
        """(unit normal, point on the surface) at a distance along the path."""
        if self.sph:
            n = geo.unit(*geo.sph_direct(self.start, self.bearing, s))
            return n, geo.scale(n, geo.R)
        i = min(len(self.nodes) - 2, max(0, int(s / self.h)))
        a, b, t, h = self.nodes[i], self.nodes[i + 1], s / self.h - i, self.h
        w = (2 * t**3 - 3 * t**2 + 1, (t**3 - 2 * t**2 + t) * h, -2 * t**3 + 3 * t**2, (t**3 - t**2) * h)
        x = tuple(w[0] * a[j] + w[1] * a[j + 3] + w[2] * b[j] + w[3] * b[j + 3] for j in range(3))
        n = (x[0], x[1], x[2] / (1 - geo.E2))
        return geo.scale(n, 1 / geo.norm(n)), x

    def ll(self, s: float) -> tuple[float, float]:
        n, _ = self.ground(s)
        return degrees(geo.atan2(n[2], geo.math.hypot(n[0], n[1]))), degrees(geo.atan2(n[1], n[0]))

    def alt(self, s: float) -> float:
        return self.alts[0] + (self.alts[1] - self.alts[0]) * s / self.length

    def xyz(self, s: float) -> Any:
        n, x = self.ground(s)
        return geo.add(x, geo.scale(n, self.alt(s)))

    def crossings(self, center: Any, r: float, margin: float, least: float) -> tuple[bool, list[Any], bool]:
        """(inside at the start, [(distance, kind, slope)], inside at the end); discards paths too close to call."""

        def gap(s: float) -> float:
            return geo.chord(self.xyz(s), center) - r

        n = max(8, int(self.length / 15000))
        pts = [self.length * i / n for i in range(n + 1)]
        g = [gap(s) for s in pts]
        more = []
        for i in range(n + 1):
            if i in (0, n) or (g[i] - g[i - 1]) * (g[i + 1] - g[i]) <= 0:
                sign = 1 if i in (0, n) or g[i] <= g[i - 1] else -1
                lo, hi = pts[max(0, i - 1)], pts[min(n, i + 1)]
                for _ in range(50):
                    m1, m2 = lo + (hi - lo) / 3, hi - (hi - lo) / 3
                    if sign * gap(m1) < sign * gap(m2):
                        hi = m2
                    else:
                        lo = m1
                more.append(((lo + hi) / 2, gap((lo + hi) / 2)))
        if any(abs(x) < margin for _, x in [*more, (0, g[0]), (0, g[-1])]):
            raise Discard()
        all_pts = sorted([*zip(pts, g), *more])
        out = []
        for (s0, g0), (s1, g1) in zip(all_pts, all_pts[1:]):
            if (g0 <= 0) != (g1 <= 0):
                lo, hi = s0, s1
                for _ in range(60):
                    mid = (lo + hi) / 2
                    if (gap(mid) <= 0) == (g0 <= 0):
                        lo = mid
                    else:
                        hi = mid
                slope = abs(gap(hi + 1) - gap(hi - 1)) / 2
                if slope < 0.05:
                    raise Discard()
                out.append((hi, "ENTER" if g1 <= 0 else "EXIT", slope))
        if any(b[0] - a[0] < least for a, b in zip(out, out[1:])):
            raise Discard()
        return g[0] <= 0, out, g[-1] <= 0


def gen(rng: random.Random) -> Any:
    long = rng.random() < 0.25
    d = rng.uniform(5e5, 6e6) if long else rng.choice([rng.uniform(1e3, 5e5), rng.uniform(1e3, 5e5), rng.uniform(100, 5000)])
    h = rng.choice([0.0, 0.0, 1e4, 3e4])
    climbing = rng.random() < 0.5
    low = rng.choice([0, 0, -0.2])
    alts = [rng.uniform(low * h, h), 0.0]
    alts[1] = rng.uniform(low * h, h) if climbing else alts[0]
    return {
        "sph": rng.random() < 0.6, "at": [rng.uniform(-88, 88), rng.choice([rng.uniform(-180, 180), 179.9])],
        "bearing": rng.choice([0.0, 90.0, 270.0, rng.uniform(0, 360), rng.uniform(0, 360), rng.uniform(0, 360)]), "length": d,
        "alts": alts, "side": [rng.uniform(-0.3, 1.3), rng.uniform(-1, 1)], "calt": rng.choice([0.0, rng.uniform(0, 2000), rng.uniform(-300, 0)]),
        "level": rng.choice([None, None, rng.uniform(-1.3, 1.3)]),
        "r": rng.uniform(0.1, 1.2) * min(d, 8e5), "unit": rng.choice(["m", "km", "nmi", "mi", "ft"]),
        "alt_unit": rng.choice(["m", "ft", "km"]), "speed": rng.uniform(1, 1000),
        "split": rng.choice([None, None, [rng.choice([9260.0, 2000.0, 5000.0, 20000.0]), rng.choice([[10, 20], [8], [8, 8], [20, 10], [10]])]]),
    }


def setup(spec: Any) -> Any:
    tr = Track(spec["sph"], tuple(spec["at"]), spec["bearing"], spec["length"], spec["alts"])
    r = spec["r"]
    # the center of the sphere: along the path, and to the side of it
    foot = tr.ll(min(max(spec["side"][0], 0.0), 1.0) * spec["length"])
    place = geo.sph_direct(foot, spec["bearing"] + 77, spec["side"][1] * 1.2 * r)
    return tr, (*place, spec["calt"])


def run(spec: Any, mon: Mon) -> None:
    mon.hit("geodesic")
    tr, center = setup(spec)
    sph, r, L = spec["sph"], spec["r"], spec["length"]
    mon.hit("wgs", int(not sph))
    mon.hit("short", int(L < 2000))
    mon.hit("climbing", int(tr.alts[0] != tr.alts[1]))
    M: Any = Spherical if sph else WGS84
    surf = geo.sph_ecef if sph else geo.wgs_ecef
    mid = surf(*center)
    split = spec["split"]
    db, levels = split or [9260.0, [10, 20]]
    margin = 0.1 + 3e-6 * r
    in0, cross, in1 = tr.crossings(mid, r, margin, db * 1.05)
    start, finish = (*spec["at"], tr.alts[0]), (*tr.ll(L), tr.alts[1])
    mon.hit("both", int(in0 and in1))
    mon.hit("outside", int(not (in0 or in1 or cross)))
    if cross:
        mon.nontrivial = True
        mon.see(sph, [c[:2] for c in cross])
    steep = abs(tr.alts[1] - tr.alts[0]) / L

    def near(lla: Any, s: float, ahead: float, what: str) -> None:
        off = geo.chord(surf(*lla), tr.xyz(s))
        mon.check(off <= ahead * (1.01 + steep) + 1, what, lambda: f"{lla} is {off} m from the true point, at {s} m of {L} m")

    # rough crossings
    rough = find_crossing_points(start, finish, center, M, r, db)
    kinds = [c.kind for c in rough]
    want = ["START_INSIDE" if in0 else "START_OUT", *[k for _, k, _ in cross], "END_INSIDE" if in1 else "END_OUT"]
    mon.eq(kinds, want, "rough-kinds")
    near(rough[0].begin, 0.0, 0.0, "rough-start")
    near(rough[-1].begin, L, 0.0, "rough-end")
    for c, (s, k, _) in zip(rough[1:-1], cross):
        near(c.begin, s, db + 2, "rough-begin")
        near(c.end, s, db + 2, "rough-end-of-step")
        a, b = geo.chord(surf(*c.begin), mid) <= r, geo.chord(surf(*c.end), mid) <= r
        mon.check((a, b) == ((False, True) if k == "ENTER" else (True, False)), "rough-sides", lambda: f"{k}: {c}")

    # subdivided
    if split:
        mon.hit("custom_split")
        got = get_intersection_locations(start, finish, center, geo.conv(r, "m", spec["unit"]), spec["unit"], M,
                                         dist_between=db, subdivide_levels=list(levels))
    else:
        got = get_intersection_locations(start, finish, center, geo.conv(r, "m", spec["unit"]), spec["unit"], M)
    step = db
    for n in levels:
        step /= n
    expect = [*([(0.0, "START_INSIDE", 1.0)] if in0 else []), *cross, *([(L, "END_INSIDE", 1.0)] if in1 else [])]
    mon.eq([c.kind for c in got], [k for _, k, _ in expect], "kinds")
    for c, (s, k, slope) in zip(got, expect):
        end = k in ("START_INSIDE", "END_INSIDE")
        mon.hit(k.lower())
        near(c.begin, s, 0.0 if end else step + (2e-6 * r) / slope, "crossing")
        if not end:
            gone = geo.chord(surf(*c.begin), mid) - r
            mon.check(gone <= 2e-6 * r + 1e-3, "crossing-outside", lambda: f"{k} at {c.begin} is {gone} m outside")


def run_model(spec: Any, mon: Mon) -> None:
    """subdivide_intersection in a stage."""
    spec["sph"] = spec["split"] is None
    tr, center = setup(spec)
    sph, r, L = spec["sph"], spec["r"], spec["length"]
    surf = geo.sph_ecef if sph else geo.wgs_ecef
    mid = surf(*center)
    in0, cross, in1 = tr.crossings(mid, r, 0.1 + 5e-6 * r, 9260 * 1.05)
    u, au = spec["unit"], spec["alt_unit"]
    mon.hit("model")
    with UP.EnvironmentContext():
        UP.add_stage_variable("distance_units", u)
        UP.add_stage_variable("altitude_units", au)
        UP.add_stage_variable("stage_model", Spherical if sph else WGS84)
        UP.add_stage_variable("intersection_model", get_intersection_locations)

        def loc(ll: Any, alt: float) -> Any:
            x = UP.GeodeticLocation(ll[0], ll[1], geo.conv(alt, "m", au))
            return x.to_radians() if spec["bearing"] > 300 else x

        speed = spec["speed"]
        got, times, types, total = subdivide_intersection(loc(spec["at"], tr.alts[0]), loc(tr.ll(L), tr.alts[1]), speed,
                                                          loc(center, center[2]), geo.conv(r, "m", u))
        expect = [*([(0.0, "START_INSIDE", 1.0)] if in0 else []), *cross, *([(L, "END_INSIDE", 1.0)] if in1 else [])]
        mon.close(total, geo.conv(L, "m", u) / speed, "path-time", tol=1e-5)
        if not expect:
            mon.check(not got and not times, "model-none", lambda: f"{got}, {times}")
            return
        mon.eq(list(types), [k for _, k, _ in expect], "model-kinds")
        mon.check(len(got) == len(times) == len(expect), "model-number", lambda: f"{got}, {times}")
        for p, t, (s, _, slope) in zip(got, times, expect):
            p = p.to_degrees()
            tol = 60 + 4e-6 * r / slope + 2e-6 * L
            off = geo.chord(surf(p.lat, p.lon, geo.conv(p.alt, au, "m")), tr.xyz(s))
            mon.check(off <= tol * (1.05 + abs(tr.alts[1] - tr.alts[0]) / L), "model-location", lambda: f"{p} is {off} m off")
            late = abs(t * speed - geo.conv(s, "m", u))
            mon.check(late <= geo.conv(tol, "m", u), "model-time", lambda: f"{t} at {speed} {u} is {late} {u} off")
        mon.nontrivial = True
        mon.see([c[:2] for c in expect])


def run_flat(spec: Any, mon: Mon) -> None:
    """analytical_intersection, with low altitudes."""
    spec["sph"], spec["calt"] = True, 0.0
    spec["r"] = r = max(spec["r"] if spec["r"] < 4e5 else spec["r"] / 8, 2000.0)
    spec["alts"] = [a * r / 3e4 * 0.05 for a in spec["alts"]]
    if spec["level"] is not None:
        # level flights can be high
        mon.hit("level")
        spec["r"] = r = min(r, 5e4)
        spec["alts"] = [spec["level"] * r] * 2
    tr, center = setup(spec)
    L = spec["length"]
    in0, cross, in1 = tr.crossings(geo.sph_ecef(*center), r, 0.02 * r, 0.2 * r)
    u, au = spec["unit"], spec["alt_unit"]
    mon.hit("analytical")
    with UP.EnvironmentContext():
        UP.add_stage_variable("distance_units", u)
        UP.add_stage_variable("altitude_units", au)
        UP.add_stage_variable("stage_model", Spherical)

        def loc(ll: Any, alt: float) -> Any:
            x = UP.GeodeticLocation(ll[0], ll[1], geo.conv(alt, "m", au))
            return x.to_radians() if spec["bearing"] > 300 else x

        speed = spec["speed"]
        got, times, types, total = analytical_intersection(loc(spec["at"], tr.alts[0]), loc(tr.ll(L), tr.alts[1]), speed,
                                                           loc(center, 0.0), geo.conv(r, "m", u))
        expect = [*([(0.0, "START_INSIDE", 1.0)] if in0 else []), *cross, *([(L, "END_INSIDE", 1.0)] if in1 else [])]
        mon.close(total, geo.conv(L, "m", u) / speed, "flat-path-time", tol=1e-5)
        if not expect:
            mon.check(not got and not times, "flat-none", lambda: f"{got}, {times}")
            return
        mon.eq(list(types), [k for _, k, _ in expect], "flat-kinds")
        mon.check(len(got) == len(times) == len(expect), "flat-number", lambda: f"{got}, {times}")
        for p, t, (s, _, slope) in zip(got, times, expect):
            p = p.to_degrees()
            tol = 0.01 * r / slope + 1e-4 * s
            off = geo.chord(geo.sph_ecef(p.lat, p.lon, geo.conv(p.alt, au, "m")), tr.xyz(s))
            mon.check(off <= tol, "flat-location", lambda: f"{p} is {off} m off")
            late = abs(t * speed - geo.conv(s, "m", u))
            mon.check(late <= geo.conv(tol + s * max(map(abs, tr.alts)) / geo.R, "m", u), "flat-time", lambda: f"{t} at {speed} {u} is {late} {u} off")
        mon.nontrivial = True
        mon.see([c[:2] for c in expect])


def gen_ray(rng: random.Random) -> Any:
    n = rng.choice([2, 3])
    return {"start": [rng.uniform(-50, 50) for _ in range(n)], "to": [rng.uniform(-50, 50) for _ in range(n)],
            "center": [rng.choice([0.0, rng.uniform(-40, 40)]) for _ in range(n)],
            "radii": rng.choice([rng.uniform(1, 60), [rng.uniform(1, 60) for _ in range(n)], [rng.uniform(1, 40)]]),
            "speed": rng.uniform(0.1, 30), "alt": [rng.random() < 0.3 for _ in range(3)],
            "units": rng.choice([["m", "m"], ["km", "ft"], ["nmi", "m"], ["ft", "km"]])}


def run_ray(spec: Any, mon: Mon) -> None:
    """Straight paths."""
    a, b, c, radii, speed = (spec[k] for k in ("start", "to", "center", "radii", "speed"))
    n = len(a)
    rr = [radii] * n if isinstance(radii, float) else radii * n if len(radii) == 1 else radii
    # |(a + t v - c) / r| = 1
    p = [(x - y) / r for x, y, r in zip(a, c, rr)]
    v = [(y - x) / r for x, y, r in zip(a, b, rr)]
    length = geo.norm(geo.sub(b, a))
    vv, pv, pp = geo.dot(v, v), geo.dot(p, v), geo.dot(p, p)
    near = -pv / vv
    low = sqrt(max(0.0, pp - pv * pv / vv))  # the least scaled distance to the center, on the line
    if abs(low - 1) < 1e-4 or abs(pp - 1) < 1e-4 or length < 0.1:
        raise Discard()
    mon.hit("ray")
    half = sqrt(1 - low * low) / sqrt(vv) if low < 1 else None
    want = [t for t in (near - half, near + half) if t >= 0] if half is not None else []
    got, times = ray_intersection(tuple(a), tuple(b), tuple(c), radii if isinstance(radii, float) else tuple(radii), speed)
    mon.eq(len(got), len(want), "ray-number")
    mon.eq(len(times), len(want), "ray-times")
    for q, t, w in zip(got, times, want):
        mon.close(t, w * length / speed, "ray-time", tol=1e-6)
        mon.check(geo.chord(q, [x + w * (y - x) for x, y in zip(a, b)]) < 1e-4 * (1 + abs(w) * length), "ray-point", lambda: f"{q}")
    if want:
        mon.nontrivial = True
        mon.see(want)
    if n == 3 and len(set(rr)) == 1:
        mon.hit("straight")
        r = rr[0]
        u, au = spec["units"]
        k = geo.conv(1, u, au)
        with UP.EnvironmentContext():
            UP.add_stage_variable("distance_units", u)
            UP.add_stage_variable("altitude_units", au)

            def loc(x: Any, i: int) -> Any:
                up = spec["alt"][i]
                return UP.CartesianLocation(x[0], x[1], x[2] * k if up else x[2], use_altitude_units=up)

            A, B, C = loc(a, 0), loc(b, 1), loc(c, 2)
            pts, ts, kinds, total = cartesian_linear_intersection(A, B, speed, C, r)
            mon.close(total, length / speed, "straight-path-time", tol=1e-5)
            ends = [geo.chord(a, c) <= r, geo.chord(b, c) <= r]
            if abs(geo.chord(b, c) - r) < 1e-3:
                raise Discard()
            exp = [(0.0, "START_INSIDE")] if ends[0] else []
            exp += [(t, "ENTER" if i + ends[0] == 0 else "EXIT") for i, t in enumerate(t for t in want if t <= 1)]
            exp += [(1.0, "END_INSIDE")] if ends[1] else []
            if not exp:
                mon.check(not pts and not ts, "straight-none", lambda: f"{pts}, {ts}")
                return
            mon.eq(list(kinds), [x for _, x in exp], "straight-kinds")
            mon.check(len(pts) == len(ts) == len(exp), "straight-number", lambda: f"{pts}, {ts}")
            for q, t, (w, _) in zip(pts, ts, exp):
                slack = 1e-4 * (1 + length) / max(1e-2, sqrt(max(0.0, 1 - low * low)))
                mon.check(abs(t * speed - w * length) <= slack, "straight-time", lambda: f"{t} rather than {w * length / speed}")
                z = q.z / k if q.use_altitude_units else q.z
                off = geo.chord((q.x, q.y, z), [x + w * (y - x) for x, y in zip(a, b)])
                mon.check(off <= slack, "straight-location", lambda: f"{q} is {off} off")


def gen_edge(rng: random.Random) -> Any:
    return {"center": [rng.choice([0.0, 1.0, rng.uniform(-40, 40)]) for _ in range(3)], "r": rng.choice([5.0, 3.7, rng.uniform(0.1, 60)]),
            "dirs": [[rng.choice([0.0, 3.0, 4.0, rng.gauss(0, 1)]) for _ in range(3)] for _ in range(2)],
            "before": rng.choice([0, 0, 1, rng.uniform(0, 2)]), "after": rng.choice([0, 0, 1, rng.uniform(0, 2)]),
            "half": rng.choice([None, None, "away", "short"]), "speed": rng.choice([1.0, 0.3, rng.uniform(0.1, 30)])}


def run_edge(spec: Any, mon: Mon) -> None:
    """Straight paths between points on the edge of the range, up to rounding."""
    c, r, speed = spec["center"], spec["r"], spec["speed"]
    u, w = spec["dirs"]
    if geo.norm(u) < 0.1 or geo.norm(w) < 0.1:
        raise Discard()
    p, q = ([x + r * y / geo.norm(d) for x, y in zip(c, d)] for d in (u, w))
    if geo.chord(p, q) < 0.1 * r:
        raise Discard()
    a = [x - spec["before"] * (y - x) for x, y in zip(p, q)]
    b = [y + spec["after"] * (y - x) for x, y in zip(p, q)]
    ends = (spec["before"] == 0, spec["after"] == 0)
    if spec["half"] == "away":
        # from the edge outwards
        a, b = q, [y + (0.5 + spec["after"]) * (y - x) for x, y in zip(p, q)]
    elif spec["half"] == "short":
        # up to the edge
        a, b = [x - (0.5 + spec["before"]) * (y - x) for x, y in zip(p, q)], p
    length = geo.chord(a, b)
    want = None
    if spec["half"] is None:
        want = [geo.chord(a, p), geo.chord(a, q)]
    with UP.EnvironmentContext():
        UP.add_stage_variable("distance_units", "km")
        UP.add_stage_variable("altitude_units", "km")
        A, B, C = (UP.CartesianLocation(*x) for x in (a, b, c))
        pts, ts, kinds, total = cartesian_linear_intersection(A, B, speed, C, r)
        mon.hit("edge")
        eps = 2e-6 * (1 + r + length + geo.norm(c))
        mon.close(total, length / speed, "edge-path-time", tol=1e-9)
        if not pts:
            mon.check(want is None, "edge-missed", lambda: f"from {a} to {b}, around {c} to {r}")
            mon.check(not ts, "edge-times", lambda: f"{ts}")
            return
        mon.hit("edge_hits")
        mon.check(len(pts) == len(ts) == len(kinds) == 2, "edge-number", lambda: f"{pts}, {ts}, {kinds}")
        mon.check(kinds[0] in ("START_INSIDE", "ENTER") and kinds[1] in ("END_INSIDE", "EXIT"), "edge-kinds", lambda: f"{kinds}")
        mon.check(0 <= ts[0] <= ts[1] <= total, "edge-order", lambda: f"{ts} of {total}")
        if want is None:
            want = [0.0, 0.0] if spec["half"] == "away" else [length, length]
        elif not all(ends):
            mon.check((kinds[0] == "ENTER" or ends[0]) and (kinds[1] == "EXIT" or ends[1]), "edge-side", lambda: f"{kinds}, {spec}")
        for t, s, x in zip(ts, want, pts):
            mon.check(abs(t * speed - s) <= eps, "edge-time", lambda: f"{t} rather than {s / speed}")
            at = [m + s / length * (n - m) for m, n in zip(a, b)]
            mon.check(geo.chord((x.x, x.y, x.z), at) <= eps, "edge-location", lambda: f"{x} rather than {at}")
        mon.nontrivial = True
        mon.see(a, b, c, r)


SCENARIOS = [Scenario("edge", gen_edge, run_edge, quick=3000, thorough=60000),
             Scenario("spheres", gen, run, quick=4000, thorough=50000), Scenario("model", gen, run_model, quick=1500, thorough=15000),
             Scenario("analytical", gen, run_flat, quick=3000, thorough=40000), Scenario("rays", gen_ray, run_ray, quick=4000, thorough=80000)]
