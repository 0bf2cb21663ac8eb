"""Reference geography used by the monitors: written from the definitions, not from the code.

* units: exact SI definitions (the code's factors are rounded to about 1e-6).
* sphere: vector formulas (atan2 of cross and dot product) on a sphere of 6378137 m.
* ellipsoid: the geodesic differential equation on WGS84, integrated with classical Runge-Kutta.
"""

from __future__ import annotations

import math
from math import atan2, cos, degrees, radians, sin, sqrt

METERS = {"m": 1.0, "km": 1000.0, "mi": 1609.344, "nmi": 1852.0, "ft": 0.3048}
SECONDS = {"s": 1.0, "min": 60.0, "hr": 3600.0, "day": 86400.0, "week": 604800.0}
R = 6378137.0
A = 6378137.0
F = 1 / 298.257223563
E2 = F * (2 - F)


def conv(v: float, a: str, b: str) -> float:
    t = METERS if a in METERS else SECONDS
    return v * t[a] / t[b]


def unit(lat: float, lon: float) -> tuple[float, float, float]:
    la, lo = radians(lat), radians(lon)
    return (cos(la) * cos(lo), cos(la) * sin(lo), sin(la))


def dot(a, b) -> float:
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def norm(a) -> float:
    return sqrt(dot(a, a))


def scale(a, k):
    return tuple(k * x for x in a)


def add(a, b):
    return tuple(x + y for x, y in zip(a, b))


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def angle(p, q) -> float:
    """Central angle between two lat/lon points (radians)."""
    a, b = unit(*p), unit(*q)
    return atan2(norm(cross(a, b)), dot(a, b))


def sph_dist(p, q) -> float:
    return R * angle(p, q)


def sph_bearing(p, q) -> float:
    """Initial course from p to q, degrees in [0, 360)."""
    a, b = unit(*p), unit(*q)
    la, lo = radians(p[0]), radians(p[1])
    north = (-sin(la) * cos(lo), -sin(la) * sin(lo), cos(la))
    east = (-sin(lo), cos(lo), 0.0)
    return degrees(atan2(dot(b, east), dot(b, north))) % 360


def sph_direct(p, bearing: float, dist: float):
    a = unit(*p)
    la, lo = radians(p[0]), radians(p[1])
    north = (-sin(la) * cos(lo), -sin(la) * sin(lo), cos(la))
    east = (-sin(lo), cos(lo), 0.0)
    az = radians(bearing)
    d = add(scale(north, cos(az)), scale(east, sin(az)))
    t = dist / R
    v = add(scale(a, cos(t)), scale(d, sin(t)))
    return degrees(atan2(v[2], sqrt(v[0] ** 2 + v[1] ** 2))), degrees(atan2(v[1], v[0]))


def wgs_direct(p, bearing: float, dist: float, steps: int = 0):
    """End of the geodesic that leaves p at the bearing: RK4 on (lat, lon, azimuth)."""
    y = [radians(p[0]), radians(p[1]), radians(bearing)]
    n = steps or max(16, int(abs(dist) / 8000))

    def f(s):
        la, _, az = s
        w = sqrt(1 - E2 * sin(la) ** 2)
        m = A * (1 - E2) / w**3
        nn = A / w
        return (cos(az) / m, sin(az) / (nn * cos(la)), sin(az) * math.tan(la) / nn)

    h = dist / n
    for _ in range(n):
        k1 = f(y)
        k2 = f([y[i] + h / 2 * k1[i] for i in range(3)])
        k3 = f([y[i] + h / 2 * k2[i] for i in range(3)])
        k4 = f([y[i] + h * k3[i] for i in range(3)])
        y = [y[i] + h / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]) for i in range(3)]
    return degrees(y[0]), degrees(y[1])


def _offset(p, q):
    """East and north displacement in meters from p to the nearby point q."""
    dlon = (q[1] - p[1] + 180) % 360 - 180
    la = radians(p[0])
    w = sqrt(1 - E2 * sin(la) ** 2)
    return (radians(dlon) * A / w * cos(la), radians(q[0] - p[0]) * A * (1 - E2) / w**3)


def wgs_inverse(p, q):
    """(distance, bearing) of the geodesic from p to q: Newton's method on wgs_direct."""
    d, b = sph_dist(p, q), sph_bearing(p, q)
    for _ in range(20):
        e, n = _offset(q, wgs_direct(p, b, d))
        if math.hypot(e, n) < 1e-4:
            break
        h, k = max(1.0, d * 1e-6), 1e-4
        e1, n1 = _offset(q, wgs_direct(p, b, d + h))
        e2, n2 = _offset(q, wgs_direct(p, b + k, d))
        a11, a21, a12, a22 = (e1 - e) / h, (n1 - n) / h, (e2 - e) / k, (n2 - n) / k
        det = a11 * a22 - a12 * a21
        d -= (a22 * e - a12 * n) / det
        b -= (a11 * n - a21 * e) / det
    return d, b % 360


def wgs_ecef(lat: float, lon: float, h: float):
    la, lo = radians(lat), radians(lon)
    n = A / sqrt(1 - E2 * sin(la) ** 2)
    return ((n + h) * cos(la) * cos(lo), (n + h) * cos(la) * sin(lo), (n * (1 - E2) + h) * sin(la))


def sph_ecef(lat: float, lon: float, h: float):
    return scale(unit(lat, lon), R + h)


def chord(p, q) -> float:
    return norm(sub(p, q))


def lonlat_gap(p, q) -> float:
    """Distance in meters between two nearby lat/lon points (any longitude wrap)."""
    return sph_dist(p[:2], q[:2])


def wgs_geodesic(p, bearing: float, dist: float):
    """End of the geodesic from p, by RK4 on the ellipsoid embedded in space (fine at the poles)."""
    la, lo, az = radians(p[0]), radians(p[1]), radians(bearing)
    x = wgs_ecef(p[0], p[1], 0.0)
    north = (-sin(la) * cos(lo), -sin(la) * sin(lo), cos(la))
    east = (-sin(lo), cos(lo), 0.0)
    v = add(scale(north, cos(az)), scale(east, sin(az)))
    k = 1 / (1 - E2)  # the surface is x^2 + y^2 + k z^2 = A^2
    n = max(8, int(abs(dist) / 40000))
    h = dist / n

    def f(s):
        x0, x1, x2, v0, v1, v2 = s
        lam = (v0 * v0 + v1 * v1 + k * v2 * v2) / (x0 * x0 + x1 * x1 + k * k * x2 * x2)
        return (v0, v1, v2, -lam * x0, -lam * x1, -lam * k * x2)

    y = (*x, *v)
    for _ in range(n):
        k1 = f(y)
        k2 = f([a + h / 2 * b for a, b in zip(y, k1)])
        k3 = f([a + h / 2 * b for a, b in zip(y, k2)])
        k4 = f([a + h * b for a, b in zip(y, k3)])
        y = tuple(a + h / 6 * (b + 2 * c + 2 * d + e) for a, b, c, d, e in zip(y, k1, k2, k3, k4))
    return degrees(atan2(k * y[2], math.hypot(y[0], y[1]))), degrees(atan2(y[1], y[0]))
