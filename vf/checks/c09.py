"""C09: location states move along their waypoints at the given speed."""

from __future__ import annotations

import math
import random
from typing import Any

import upstage_des.api as UP
from upstage_des.geography import WGS84, Spherical
from upstage_des.states import ActiveStatus

from .. import geo
from ..core import Mon, Scenario
from ..util import TASK_GEN, stage_units

PROPERTY = {
    "title": "Moving locations follow their waypoints at their speed",
    "statement": (
        "While a location state is active, every read gives the point that lies speed times elapsed time "
        "along the path through its waypoints (straight lines, or great circles with altitude changing "
        "linearly), however often and whenever it is read, stopped or interrupted. The remaining "
        "waypoints are those not yet reached, the location stands still when inactive, and reading "
        "beyond the end of the path is an error."
    ),
    "quantifier": {"over": ["inputs", "histories", "schedules"],
                   "text": "every path, speed, unit setting, earth model and read or interrupt schedule"},
    "why_tests_cant": "Tests sample a few points of a few paths.",
    "anchors": {
        "files": ["src/upstage_des/states.py", "src/upstage_des/actor.py", "src/upstage_des/data_types.py"],
        "mechanism": [{"name": "CartesianLocationChangingState, GeodeticLocationChangingState",
                       "where": "src/upstage_des/states.py"}],
        "observe_at": ["attribute reads", "actor.get_remaining_waypoints", "actor._state_histories"],
    },
    "technique": "trajectory monitor against independent straight-line, sphere and geodesic-ODE references",
}
RULE = (
    "A case is an actor that travels several generated paths (plane, sphere or WGS84; all units; radians "
    "or degrees) directly or in an interrupted task, read at arbitrary times. Non-trivial: a read while "
    "moving; distinct by the positions observed."
)
REQUIRED = {"moving_reads": 1500, "remaining": 300, "stopped_midway": 150, "beyond": 60,
            "geodetic_reads": 400, "interrupts": 60, "history_points": 500, "many_waypoints": 30}
ASSUMPTIONS = [
    "Consecutive geodetic waypoints are distinct; a geodetic path is read at most 1e-4 time units "
    "beyond a waypoint as if still on that leg, so positions are compared with that slack.",
    "Positions are compared within 5e-6 of the path's size (the unit factors are rounded).",
]


class Ref:
    """Where the mover should be."""

    def __init__(self, kind: str, dist: str, alt: str) -> None:
        self.kind, self.dist, self.alt = kind, dist, alt

    # every position is (a, b, c): x, y, z in distance units or lat, lon (degrees), alt
    def leg(self, p: Any, q: Any) -> Any:
        if self.kind == "cart":
            return geo.chord(p, q), None
        if self.kind == "sph":
            d, b = geo.sph_dist(p[:2], q[:2]), geo.sph_bearing(p[:2], q[:2])
        else:
            d, b = geo.wgs_inverse(p[:2], q[:2])
        return d / geo.METERS[self.dist], b

    def along(self, p: Any, q: Any, leg: Any, f: float) -> Any:
        if self.kind == "cart":
            return tuple(a + f * (b - a) for a, b in zip(p, q))
        d = leg[0] * f * geo.METERS[self.dist]
        fn = geo.sph_direct if self.kind == "sph" else geo.wgs_direct
        la, lo = fn(p[:2], leg[1], d)
        return (la, lo, p[2] + f * (q[2] - p[2]))

    def gap(self, p: Any, q: Any) -> float:
        """Distance (distance units) between positions."""
        if self.kind == "cart":
            return geo.chord(p, q)
        return geo.lonlat_gap(p, q) / geo.METERS[self.dist] + abs(p[2] - q[2])


class Path:
    def __init__(self, ref: Ref, t0: float, start: Any, wpts: list, speed: float) -> None:
        self.ref, self.t0, self.speed = ref, t0, speed
        self.pts = [start, *wpts]
        self.legs = [ref.leg(p, q) for p, q in zip(self.pts, wpts)]
        self.ends = []
        s = 0.0
        for d, _ in self.legs:
            s += d / speed
            self.ends.append(s)
        self.size = 1 + sum(d for d, _ in self.legs) + (
            max(abs(x) for p in self.pts for x in p) if ref.kind == "cart" else 0
        )

    @property
    def total(self) -> float:
        return self.ends[-1]

    def at(self, t: float) -> Any:
        el = min(t - self.t0, self.total)
        for i, e in enumerate(self.ends):
            if el <= e or i == len(self.ends) - 1:
                d = self.legs[i][0]
                s = self.ends[i - 1] if i else 0.0
                f = 1.0 if d == 0 else min(1.0, (el - s) * self.speed / d)
                return self.ref.along(self.pts[i], self.pts[i + 1], self.legs[i], f)

    def slack(self) -> float:
        s = 5e-6 * self.size
        # heights change with the time, which is as exact as the lengths
        return s if self.ref.kind == "cart" else s + 1e-6 + 5e-6 * self.total * self.alt_rate()

    def alt_rate(self) -> float:
        """The most that the height changes in a unit of time."""
        return max(abs(q[2] - p[2]) for p, q in zip(self.pts, self.pts[1:])) / max(
            1e-9, min(b - a for a, b in zip([0.0, *self.ends], self.ends))
        )

    def remaining_ok(self, t: float, got: int) -> bool:
        """Number of waypoints left; either answer is right on a boundary."""
        eps = 1e-9 + 4e-6 * self.total
        el = t - self.t0
        lo = sum(1 for e in self.ends if e > el + eps)
        hi = sum(1 for e in self.ends if e > el - eps)
        return lo <= got <= hi or (got == 1 and hi == 0)


def gen_point(rng: random.Random, kind: str, box: Any) -> Any:
    if kind == "cart":
        return [rng.choice([0.0, 10.0, rng.uniform(-50, 50)]), rng.uniform(-50, 50),
                rng.choice([0.0, rng.uniform(-20, 20)]), rng.random() < 0.5]
    lat = max(-78, min(78, box[0] + rng.uniform(-box[2], box[2])))
    lon = box[1] + rng.uniform(-box[2], box[2])
    lon = (lon + 180) % 360 - 180
    return [lat, lon, rng.choice([0.0, rng.uniform(0, 30), rng.uniform(0, 30), rng.uniform(-5, 5)]), rng.random() < 0.3]


def gen(rng: random.Random) -> Any:
    kind = rng.choice(["cart", "cart", "sph", "wgs"])
    box = [rng.uniform(-60, 60), rng.choice([0, 179.5, -120, 90, 33.3]), rng.choice([0.5, 2, 10])]
    trips = []
    for _ in range(rng.randint(1, 4)):
        trips.append({
            "wpts": [gen_point(rng, kind, box) for _ in range(rng.choice([1, 2, 3, 4, 5, 12, 24]))],
            "speed": 10 ** rng.choice([rng.uniform(-0.5, 2.5), rng.uniform(2, 5)]),
            "reads": sorted(rng.choice([rng.random(), 0.0, 1.0, rng.random() ** 3])
                            for _ in range(rng.randint(0, 6))),
            "stop": rng.choice([1.0, 1.0, rng.random(), 0.0, 1.5]),
            "rest": rng.choice([0, 1.25]),
            "near": [[rng.randrange(24), rng.choice([5e-4, -5e-4, 2e-3, 9e-5, 3e-5])] for _ in range(rng.randint(0, 3))],
            "remaining": rng.random() < 0.5,
        })
    return {"kind": kind, "dist": rng.choice(["m", "km", "nmi", "mi", "ft"]), "alt": rng.choice(["m", "ft", "km"]),
            "start": gen_point(rng, kind, box), "trips": trips, "rec": rng.random() < 0.5,
            "t0": rng.choice([0.0, 10 ** rng.uniform(0, 5)]), "short": rng.random() < 0.5}


def setup(spec: Any) -> Ref:
    stage_units(spec["dist"], spec["alt"])
    if spec["kind"] != "cart":
        UP.add_stage_variable("stage_model", Spherical if spec["kind"] == "sph" else WGS84)
    return Ref(spec["kind"], spec["dist"], spec["alt"])


def make(ref: Ref, p: Any) -> Any:
    if ref.kind == "cart":
        return UP.CartesianLocation(p[0], p[1], p[2], use_altitude_units=p[3])
    if p[3]:
        return UP.GeodeticLocation(math.radians(p[0]), math.radians(p[1]), p[2], in_radians=True)
    return UP.GeodeticLocation(p[0], p[1], p[2])


def coords(ref: Ref, p: Any) -> Any:
    """Reference coordinates of a generated point."""
    if ref.kind == "cart":
        return (p[0], p[1], geo.conv(p[2], ref.alt, ref.dist) if p[3] else p[2])
    return (p[0], p[1], p[2])


def pos(ref: Ref, loc: Any) -> Any:
    """Reference coordinates of an observed location."""
    if ref.kind == "cart":
        return (loc.x, loc.y, geo.conv(loc.z, ref.alt, ref.dist) if loc.use_altitude_units else loc.z)
    return (*loc.latlon(), loc.alt)


def make_class(spec: Any) -> Any:
    state = UP.CartesianLocationChangingState if spec["kind"] == "cart" else UP.GeodeticLocationChangingState

    class Mover(UP.Actor):
        loc = state(recording=spec["rec"])

    return Mover


def distinct(ref: Ref, a: Any, b: Any) -> bool:
    return ref.kind == "cart" or geo.lonlat_gap(a, b) > 100.0


def judge(mon: Mon, ref: Ref, path: Path, t: float, loc: Any, key: str) -> None:
    want = path.at(t)
    got = pos(ref, loc)
    g = ref.gap(got, want)
    mon.check(g <= path.slack(), key,
              lambda: f"at {t}: observed {got}, expected {want} (gap {g}, slack {path.slack()})")
    mon.hit("moving_reads")
    if ref.kind != "cart":
        mon.hit("geodetic_reads")
    mon.nontrivial = True


def run(spec: Any, mon: Mon) -> None:
    with UP.EnvironmentContext(initial_time=spec["t0"]) as env:
        ref = setup(spec)
        a = make_class(spec)(name="m", loc=make(ref, spec["start"]))
        here = coords(ref, spec["start"])
        paths: list[Path] = []
        marks: list[Any] = []
        seen = []
        # the code's unit factors are rounded, so its path can be slightly shorter
        margin = 1 - (2e-5 if spec["kind"] == "cart" and spec["alt"] != spec["dist"] else 1e-9)
        for trip in spec["trips"]:
            wpts = [coords(ref, w) for w in trip["wpts"]]
            if not all(distinct(ref, p, q) for p, q in zip([here, *wpts], wpts)):
                continue
            locs = [make(ref, w) for w in trip["wpts"]]
            path = Path(ref, env.now, here, wpts, trip["speed"])
            if ref.kind != "cart" and min(d for d, _ in path.legs) / trip["speed"] < 2e-4:
                continue
            if path.total < 1e-6:
                continue
            paths.append(path)
            task = UP.Task()
            if spec["short"]:
                a.activate_location_state(state="loc", speed=trip["speed"], waypoints=list(locs), task=task)
            else:
                a.activate_state(state="loc", speed=trip["speed"], waypoints=list(locs), task=task)
            marks.append((env.now, ActiveStatus.activating))
            stop = min(trip["stop"], 1.0)
            until = path.t0 + stop * path.total * margin
            times = [path.t0 + min(f, stop) * path.total * margin for f in trip["reads"]]
            # shortly before and after the waypoints
            times += [path.t0 + path.ends[i % len(path.ends)] + d for i, d in trip["near"]]
            for t in sorted(x for x in times if path.t0 <= x <= until):
                if t > env.now:
                    env.run(until=t)
                judge(mon, ref, path, env.now, a.loc, "position")
                seen.append([round(x, 3) for x in pos(ref, a.loc)])
                if trip["remaining"]:
                    left = a.get_remaining_waypoints(location_state="loc")
                    mon.check(path.remaining_ok(env.now, len(left)), "remaining-waypoints",
                              lambda: f"{len(left)} left at {env.now - path.t0}; legs end at {path.ends}")
                    mon.eq(left, locs[len(locs) - len(left):], "remaining-waypoints", "which")
                    mon.hit("remaining")
                    mon.hit("many_waypoints", int(len(locs) > 10 and len(locs) - len(left) > 10))
            if until > env.now:
                env.run(until=until)
            if trip["stop"] > 1:
                env.run(until=path.t0 + path.total * (1 + 2e-5) + 1e-3)
                mon.raises(UP.SimulationError, lambda: a.loc, "beyond-end", f"read at {env.now}")
                mon.hit("beyond")
                return
            where = a.loc
            judge(mon, ref, path, env.now, where, "position")
            c = a.clone()
            mon.check(ref.gap(pos(ref, c.loc), pos(ref, where)) == 0, "clone-location", f"{c.loc} {where}")
            a.deactivate_all_states(task=task)
            marks.append((env.now, ActiveStatus.deactivating))
            if stop < 1:
                mon.hit("stopped_midway")
            if trip["rest"]:
                env.run(until=env.now + trip["rest"])
            mon.check(ref.gap(pos(ref, a.loc), pos(ref, where)) == 0, "moved-while-inactive",
                      f"{a.loc} was {where}")
            here = pos(ref, where)
        h = a._state_histories.get("loc")
        if spec["rec"]:
            judge_history(mon, ref, paths, marks, h)
        else:
            mon.eq(h, None, "unrecorded", "")
        mon.see(seen, env.now)
        mon.sample = {"positions": seen[:5], "now": env.now}


def judge_history(mon: Mon, ref: Ref, paths: list[Path], marks: list[Any], h: Any) -> None:
    got = [e for e in h if isinstance(e[1], ActiveStatus)]
    mon.eq(got, marks, "markers", "loc")
    times = [e[0] for e in h]
    mon.check(times == sorted(times), "history-order", str(times))
    spans = [(m[0], n[0]) for m, n in zip(marks[::2], marks[1::2])]
    for t, v in h:
        if isinstance(v, ActiveStatus) or not paths:
            continue
        ok = [p for p, (lo, hi) in zip(paths, spans)
              if lo <= t <= hi and ref.gap(pos(ref, v), p.at(t)) <= p.slack()]
        if t in (h[0][0],):
            continue
        mon.check(bool(ok), "history-value", lambda: f"recorded {v} at {t}")
        mon.hit("history_points")


def gen_task(rng: random.Random) -> Any:
    kind = rng.choice(["cart", "cart", "sph", "wgs"])
    box = [rng.uniform(-60, 60), rng.choice([0, 179.5, -120]), rng.choice([0.5, 3])]
    return {"kind": kind, "dist": rng.choice(["m", "km", "nmi"]), "alt": rng.choice(["m", "ft"]),
            "start": gen_point(rng, kind, box), "rec": rng.random() < 0.5,
            "wpts": [gen_point(rng, kind, box) for _ in range(rng.randint(1, 5))],
            "speed": 10 ** rng.uniform(0, 2), "t0": rng.choice([0.0, 10 ** rng.uniform(0, 5)]),
            "ints": sorted(rng.random() for _ in range(rng.randint(1, 3))),
            "acts": [rng.choice(["RESTART", "RESTART", "IGNORE", "END"]) for _ in range(3)]}


def run_task(spec: Any, mon: Mon) -> None:
    """The documented pattern: travel, keep the remaining waypoints on interrupt, restart."""
    acts = list(spec["acts"])
    with UP.EnvironmentContext(initial_time=spec["t0"]) as env:
        ref = setup(spec)
        wpts = [coords(ref, w) for w in spec["wpts"]]
        start = coords(ref, spec["start"])
        path = Path(ref, env.now, start, wpts, spec["speed"])
        pts = [start, *wpts]
        if not all(distinct(ref, p, q) for p, q in zip(pts, wpts)) or path.total < 1e-3:
            return
        st: dict[str, Any] = {"path": path, "stopped": None, "done": False}

        class Fly(UP.Task):
            def task(self, *, actor: Any) -> TASK_GEN:
                w = self.get_actor_knowledge(actor, "plan", must_exist=True)
                d = 0.0
                at = actor.loc
                here = pos(ref, at)
                for x in w:
                    d += x - at
                    at = x
                st["path"] = Path(ref, env.now, here, [pos(ref, x) for x in w], spec["speed"])
                actor.activate_location_state(state="loc", speed=spec["speed"], waypoints=w, task=self)
                yield UP.Wait(d / spec["speed"])
                actor.deactivate_all_states(task=self)
                st["stopped"], st["done"] = env.now, True

            def on_interrupt(self, *, actor: Any, cause: Any) -> Any:
                mon.hit("interrupts")
                p = st["path"]
                judge(mon, ref, p, env.now, actor.loc, "position-in-interrupt")
                left = actor.get_remaining_waypoints(location_state="loc")
                mon.check(p.remaining_ok(env.now, len(left)), "remaining-waypoints", str(len(left)))
                act = acts.pop(0) if acts else "END"
                if act == "IGNORE":
                    return self.INTERRUPT.IGNORE
                st["stopped"] = env.now
                if act == "RESTART":
                    # a leg of (almost) no length is not a leg
                    gap = ref.gap(pos(ref, actor.loc), pos(ref, left[0]))
                    if gap < 1e-3 * p.size:
                        return self.INTERRUPT.END
                    self.set_actor_knowledge(actor, "plan", left, overwrite=True)
                    return self.INTERRUPT.RESTART
                return self.INTERRUPT.END

        a = make_class(spec)(name="m", loc=make(ref, spec["start"]))
        a.set_knowledge("plan", [make(ref, w) for w in spec["wpts"]])
        proc = Fly().run(actor=a)
        for f in spec["ints"]:
            t = path.t0 + f * path.total
            if t > env.now:
                env.run(until=t)
                if proc.is_alive:
                    proc.interrupt("poke")
        env.run()
        p = st["path"]
        if st["done"]:
            g = ref.gap(pos(ref, a.loc), wpts[-1])
            mon.check(g <= p.slack() + path.slack(), "arrival", lambda: f"{a.loc} instead of {wpts[-1]}")
            # interrupts cost no time: the whole journey takes the length of the path
            mon.close(st["stopped"] - path.t0, path.total, "arrival-time", "journey", 5e-6 + 1e-3 / path.total)
        else:
            judge(mon, ref, p, st["stopped"], a.loc, "position-after-end")
        mon.see([round(x, 4) for x in pos(ref, a.loc)], env.now)


SCENARIOS = [Scenario("paths", gen, run, quick=2400, thorough=40000),
             Scenario("tasks", gen_task, run_task, quick=1600, thorough=25000)]
