"""C27: sensors are told when movers enter and leave their range, at the right times, in order."""

import random
import warnings
from math import inf
from typing import Any

import upstage_des.api as UP
from upstage_des.geography import Spherical, get_intersection_locations
from upstage_des.motion.cartesian_model import cartesian_linear_intersection
from upstage_des.motion.geodetic_model import analytical_intersection, subdivide_intersection
from upstage_des.utils import waypoint_time_and_dist

from .. import geo, leave
from ..core import Discard, Mon, Scenario
from ..util import TASK_GEN

PROPERTY = {
    "title": "Sensors are told of every entry into and exit from their range",
    "statement": (
        "With a SensorMotionManager, each sensor is told that a mover entered when its motion starts in or crosses into the "
        "sensor's range (or when the sensor is added to find it there), and that it exited when the motion crosses out or the "
        "mover becomes undetectable, at the times of the true path and alternating for each mover and sensor. "
        "Motion while undetectable, or after a stop, is not reported, and no mover or sensor affects another."
    ),
    "quantifier": {"over": ["inputs", "histories", "schedules"],
                   "text": "every set of sensors, paths, speeds, stops, and times of adding sensors and changing detectability"},
    "why_tests_cant": "Tests fly a few fixed paths over fixed sensors, mostly from outside to outside of a range.",
    "anchors": {
        "files": ["src/upstage_des/motion/motion.py", "src/upstage_des/motion/cartesian_model.py",
                  "src/upstage_des/motion/geodetic_model.py", "src/upstage_des/states.py"],
        "mechanism": [{"name": "SensorMotionManager._find_intersections, _schedule, _notify, _stop_mover",
                       "where": "src/upstage_des/motion/motion.py"},
                      {"name": "cartesian_linear_intersection", "where": "src/upstage_des/motion/cartesian_model.py"},
                      {"name": "DetectabilityState, LocationChangingStates", "where": "src/upstage_des/states.py"}],
        "observe_at": ["calls of entity_entered_range and entity_exited_range", "location of the mover at them"],
    },
    "technique": "runtime monitor: recorded notifications compared with an event list from independent geometry",
}
RULE = (
    "A case is movers with several motions, sensors added over time, and changes of detectability. "
    "Non-trivial: a sensor was notified during a motion; distinct by the notifications."
)
REQUIRED = {"rehearsed": 1000, "leave_told": 3000, "hid_on_in": 300, "hid_on_out": 300, "entered": 4000, "exited": 2500, "start_inside": 300, "kept_in_view": 200, "lost": 300, "hidden_motion": 200,
            "late_sensor": 80, "halted": 50, "hid": 50, "stopped_midway": 300, "at_edge": 2000, "cartesian": 1000,
            "geodetic": 300, "units": 200, "edges": 500, "reappeared": 100, "debug": 200, "errors": 20}
ASSUMPTIONS = ["Paths that come within 1e-6 of a range's edge without crossing it may be reported or not (scenario edges: "
               "they still alternate and raise nothing).",
               "The subdividing geodetic model is accurate to about 100 m, and can miss passes shorter than its 9260 m steps."]


class Bird(UP.Actor):
    location = UP.CartesianLocationChangingState()
    detectable = UP.DetectabilityState(default=True)


class Plane(UP.Actor):
    location = UP.GeodeticLocationChangingState()
    detectable = UP.DetectabilityState(default=True)


class Watch:
    """What the sensors are told."""

    def __init__(self, n: int, where: Any, r: float, names: list[str], react: Any, log: list[Any], procs: dict[Any, Any]):
        # other attributes are of no concern
        self.location, self.radius = where, r / 3
        if names[0] != "location":
            self.location = None if n % 2 else self.location
        setattr(self, names[0], where)
        setattr(self, names[1], r)
        self.n, self.react, self.log, self.procs = n, react, log, procs
        # names are no identity
        self.name = "same"

    def told(self, kind: str, mover: Any) -> None:
        self.log.append((mover.env.now, mover.key, self.n, kind, mover.location))

    def entity_entered_range(self, entity: Any) -> None:
        self.told("in", entity)
        if self.react == "hide":
            entity.detectable = False
        elif self.react == "halt":
            self.procs[entity.key].interrupt()

    def entity_exited_range(self, entity: Any) -> None:
        self.told("out", entity)


class Space:
    """Cartesian geometry."""

    # conversion factors are good to about 1e-6
    tol_d, tol_t = 1e-5, 1e-5
    margin = 1e-4
    min_pass = 0.0

    def __init__(self, spec: Any):
        self.k = geo.conv(1, spec["units"][1], spec["units"][0])

    def place(self, p: Any) -> Any:
        return UP.CartesianLocation(p[0], p[1], p[2], use_altitude_units=p[3])

    def xyz(self, p: Any) -> tuple[float, ...]:
        return (p[0], p[1], p[2] * self.k if p[3] else p[2])

    def dist(self, a: Any, b: Any) -> float:
        return geo.chord(self.xyz(a), self.xyz(b))

    sees = dist

    def along(self, a: Any, b: Any, f: float) -> Any:
        a, b = self.xyz(a), self.xyz(b)
        return (*[x + f * (y - x) for x, y in zip(a, b)], False)


class Globe:
    """Great circles on the sphere."""

    tol_d, tol_t = 1e-5, 1e-5
    min_pass = 0.0

    def __init__(self, spec: Any):
        self.u = spec["units"][0]
        self.chord = spec["model"] == "subdivide"
        self.margin = geo.conv(20, "m", self.u)
        if self.chord:
            self.tol_d = self.tol_t = geo.conv(150, "m", self.u)
            self.margin = geo.conv(400, "m", self.u)
            self.min_pass = geo.conv(30000, "m", self.u)

    def place(self, p: Any) -> Any:
        return UP.GeodeticLocation(p[0], p[1], 0.0)

    def dist(self, a: Any, b: Any) -> float:
        return geo.conv(geo.sph_dist(a, b), "m", self.u)

    def sees(self, a: Any, b: Any) -> float:
        if self.chord:
            return geo.conv(geo.chord(geo.sph_ecef(*a[:2], 0), geo.sph_ecef(*b[:2], 0)), "m", self.u)
        return self.dist(a, b)

    def along(self, a: Any, b: Any, f: float) -> Any:
        d = geo.sph_dist(a, b)
        return geo.sph_direct(a, geo.sph_bearing(a, b), d * f) if d > 0 else tuple(a)


def trials(rng: random.Random, point: Any, ops: Any) -> Any:
    """Times and motions of rehearsals."""
    if not ops or rng.random() < 0.6:
        return []
    return sorted([rng.uniform(0.01, 20), [point() for _ in range(rng.choice([1, 2]))], rng.choice(ops)["speed"],
                   rng.choice([None, False, True])] for _ in range(rng.randint(1, 3)))


def rehearsals(space: Any, a: Any, todo: Any, mon: Mon) -> Any:
    """A process that rehearses motions of an actor."""
    for t, way, speed, vis in todo:
        yield a.env.timeout(t - a.env.now)
        last, way = way[-1], [space.place(p) for p in way]

        class Trial(UP.Task):
            def task(self, *, actor: UP.Actor) -> TASK_GEN:
                if vis is not None:
                    actor.detectable = vis
                time, _ = waypoint_time_and_dist(actor.location, way, speed)
                actor.activate_location_state(state="location", speed=speed, waypoints=way, task=self)
                yield UP.Wait(time)
                if vis is not None:
                    actor.detectable = not vis
                actor.deactivate_all_states(task=self)

        c = Trial().rehearse(actor=a)
        at = c.location
        off = space.dist([at.lat, at.lon] if len(last) == 2 else [at.x, at.y, at.z, at.use_altitude_units], last)
        mon.check(off < 1e-3, "rehearsed", lambda: f"rehearsing a flight to {way[-1]} ended at {at}")
        mon.hit("rehearsed")


def gen(rng: random.Random) -> Any:
    kind = rng.choice(["cartesian"] * 7 + ["analytical", "analytical", "subdivide"])
    cart = kind == "cartesian"
    units = [rng.choice(["km", "nmi", "mi"]), "m"] if not cart else rng.choice([["m", "m"], ["km", "ft"], ["nmi", "m"]])
    flat = rng.random() < 0.5
    per_m = geo.conv(1000, "m", units[0]) if not cart else 1.0

    base = [rng.uniform(-60, 60), rng.choice([rng.uniform(-180, 180), 179.5])]

    def point() -> Any:
        if cart:
            z = 0.0 if flat else rng.uniform(-10, 10)
            high = not flat and rng.random() < 0.3
            return [rng.uniform(-50, 50), rng.uniform(-50, 50), geo.conv(z, units[0], units[1]) if high else z, high]
        lon = base[1] + rng.uniform(-4, 4)
        return [base[0] + rng.uniform(-3, 3), (lon + 180) % 360 - 180]

    movers = []
    for _ in range(rng.randint(1, 3)):
        ops = []
        for _ in range(rng.randint(1, 4)):
            ops.append({"gap": rng.choice([0, 0, rng.uniform(0, 4)]), "way": [point() for _ in range(rng.choice([1, 1, 2, 3, 6]))],
                        "speed": rng.uniform(1, 20) * (1 if cart else 10 * per_m),
                        "part": rng.choice([1, 1, rng.random()])})
        togs = []
        if rng.random() < 0.5:
            t = 0.0
            v = False
            for _ in range(rng.randint(1, 4)):
                t += rng.uniform(0.01, 20)
                togs.append([t, v])
                v = not v if rng.random() < 0.9 else v
        movers.append({"start": point(), "ops": ops, "toggles": togs, "det": rng.random() < 0.9, "trials": trials(rng, point, ops)})
    sensors = []
    for _ in range(rng.randint(1, 5)):
        sensors.append({"at": point(), "r": rng.uniform(2, 40) if cart else rng.uniform(20, 300) * per_m,
                        "add": rng.choice([0, 0, 0, rng.uniform(0, 20)]),
                        "react": rng.choice([None] * 8 + ["hide", "halt"]),
                        "names": rng.choice([["location", "radius"], ["spot", "reach"]])})
    sensors.sort(key=lambda s: s["add"])
    return {"model": kind, "units": units, "movers": movers, "sensors": sensors, "debug": rng.random() < 0.3}


class Path:
    """Where a motion is, and when it crosses a range."""

    def __init__(self, space: Any, start: Any, op: Any, t0: float):
        self.space = space
        self.legs = []
        t = t0
        for p in op["way"]:
            d = space.dist(start, p)
            self.legs.append((start, p, t, t + d / op["speed"]))
            t += d / op["speed"]
            start = p
        self.t0, self.t1 = t0, t
        self.speed = op["speed"]

    def where(self, t: float) -> Any:
        for a, b, ta, tb in self.legs:
            if t <= tb:
                return self.space.along(a, b, (t - ta) / (tb - ta) if tb > ta else 1.0)
        return self.legs[-1][1]

    def crossings(self, s: Any) -> list[tuple[float, str]]:
        """(time, kind) of crossings of the sensor's edge; discards paths too close to call."""
        sp = self.space
        pts: list[float] = []

        def gap(t: float) -> float:
            return sp.sees(self.where(t), s["at"]) - s["r"]

        for _, _, ta, tb in self.legs:
            # the nearest point of the leg, by ternary search (the distance to it is unimodal)
            lo, hi = ta, tb
            for _ in range(70):
                m1, m2 = lo + (hi - lo) / 3, hi - (hi - lo) / 3
                if gap(m1) < gap(m2):
                    hi = m2
                else:
                    lo = m1
            pts += [ta, (lo + hi) / 2, tb]
        out: list[tuple[float, str]] = []
        prev = None
        for t in pts:
            g = gap(t)
            if abs(g) < sp.margin:
                raise Discard()
            if prev is not None and (g <= 0) != (prev[1] <= 0):
                lo, hi = prev[0], t
                for _ in range(80):
                    mid = (lo + hi) / 2
                    if (gap(mid) <= 0) == (prev[1] <= 0):
                        lo = mid
                    else:
                        hi = mid
                out.append((hi, "in" if g <= 0 else "out"))
            prev = (t, g)
        if sp.min_pass:
            ends = [self.t0, *[t for t, _ in out], self.t1]
            if any((b - a) * self.speed < sp.min_pass for a, b in zip(ends, ends[1:])):
                raise Discard()
        return out


def expect(spec: Any, space: Any, mon: Mon) -> tuple[dict[Any, list[Any]], list[Any]]:
    """Notifications per mover and sensor, and when each mover's motions start and end."""
    want: dict[Any, list[Any]] = {}
    moves = []
    for m, mv in enumerate(spec["movers"]):
        view: list[int] = []
        now, here = 0.0, mv["start"]
        det, togs = mv["det"], list(mv["toggles"])
        plan: list[Any] = []
        halted = False

        path: Any = None

        def tell(t: float, s: int, kind: str, how: str) -> None:
            want.setdefault((m, s), []).append((t, kind, how, path))

        def hide(t: float) -> None:
            for s in view:
                tell(t, s, "out", "lost")
                mon.hit("lost")
            view.clear()

        def toggles(until: float) -> None:
            nonlocal det
            while togs and togs[0][0] <= until:
                t, v = togs.pop(0)
                det = v
                if not v:
                    hide(t)

        for op in mv["ops"]:
            now += op["gap"]
            toggles(now)
            path = Path(space, here, op, now)
            stop = now + (path.t1 - now) * op["part"]
            mon.hit("stopped_midway", int(op["part"] < 1))
            plan.append((now, stop))
            if not det:
                mon.hit("hidden_motion")
                if any(t < stop and v for t, v in togs):
                    mon.hit("reappeared")
            else:
                # everything that happens to the mover, in order
                happen: list[Any] = []
                for t, v in togs:
                    if t < stop:
                        happen.append((t, -1, "toggle", v))
                        if not v:
                            break
                for n, s in enumerate(spec["sensors"]):
                    cross = path.crossings(s)
                    begin = max(now, s["add"])
                    if begin >= stop:
                        continue
                    inside = (cross[0][1] == "out") if cross else space.sees(path.where(begin), s["at"]) < s["r"]
                    for t, k in cross:
                        if t <= begin:
                            inside = k == "in"
                    if inside:
                        happen.append((begin, n, "in", "late" if s["add"] > now else "start"))
                    happen += [(t, n, k, "cross") for t, k in cross if begin < t < stop]
                happen.sort(key=lambda x: x[:2])
                tracked = True
                i = 0
                for t, n, k, how in happen:
                    if halted and t > stop:
                        break
                    if k == "toggle":
                        det = how
                        togs.pop(0)
                        if not how:
                            hide(t)
                            tracked = False
                        continue
                    if not tracked:
                        break
                    if k == "out":
                        tell(t, n, k, how)
                        view.remove(n)
                        continue
                    if n in view:
                        mon.hit("kept_in_view")
                        continue
                    view.append(n)
                    tell(t, n, k, how)
                    mon.hit("start_inside", int(how == "start"))
                    mon.hit("late_sensor", int(how == "late"))
                    react = spec["sensors"][n]["react"]
                    if react == "hide":
                        mon.hit("hid")
                        det = False
                        hide(t)
                        tracked = False
                    elif react == "halt" and not halted:
                        mon.hit("halted")
                        halted = True
                        stop = t
                        plan[-1] = (now, stop)
                toggles(stop)
            here = path.where(stop)
            now = stop
            if halted:
                break
        toggles(inf)
        moves.append(plan)
    return want, moves


def run(spec: Any, mon: Mon) -> None:
    cart = spec["model"] == "cartesian"
    log: list[Any] = []
    with warnings.catch_warnings(), UP.EnvironmentContext() as env:
        warnings.simplefilter("ignore")
        UP.add_stage_variable("distance_units", spec["units"][0])
        UP.add_stage_variable("altitude_units", spec["units"][1])
        if not cart:
            UP.add_stage_variable("stage_model", Spherical)
            UP.add_stage_variable("intersection_model", get_intersection_locations)
        space: Any = (Space if cart else Globe)(spec)
        # what is expected (and whether the case can be told) comes first
        pre = Mon()
        want, moves = expect(spec, space, pre)
        mon.hits.update(pre.hits)
        model = {"cartesian": cartesian_linear_intersection, "analytical": analytical_intersection,
                 "subdivide": subdivide_intersection}[spec["model"]]
        mgr = UP.SensorMotionManager(model, debug=spec["debug"])
        mon.hit("debug", int(spec["debug"]))
        UP.add_stage_variable("motion_manager", mgr)
        procs: dict[Any, Any] = {}

        def add(n: int, s: Any) -> None:
            w = Watch(n, space.place(s["at"]), s["r"], s["names"], s["react"], log, procs)
            if s["names"] == ["location", "radius"]:
                mgr.add_sensor(w)
            else:
                mgr.add_sensor(w, *s["names"]) if n % 2 else mgr.add_sensor(
                    w, radius_attr_name=s["names"][1], location_attr_name=s["names"][0])

        class Fly(UP.Task):
            ops: Any

            def task(self, *, actor: UP.Actor) -> TASK_GEN:
                for op in self.ops:
                    if op["gap"]:
                        yield UP.Wait(op["gap"])
                    way = [space.place(p) for p in op["way"]]
                    time, _ = waypoint_time_and_dist(actor.location, way, op["speed"])
                    actor.activate_location_state(state="location", speed=op["speed"], waypoints=way, task=self)
                    yield UP.Wait(time * op["part"])
                    actor.deactivate_all_states(task=self)

            def on_interrupt(self, *, actor: UP.Actor, cause: Any) -> Any:
                actor.deactivate_all_states(task=self)
                return self.INTERRUPT.END

        def toggler(a: Any, togs: Any) -> Any:
            for t, v in togs:
                yield env.timeout(t - env.now)
                a.detectable = v

        def adder() -> Any:
            for n, s in enumerate(spec["sensors"]):
                if s["add"]:
                    yield env.timeout(s["add"] - env.now)
                    add(n, s)

        for n, s in enumerate(spec["sensors"]):
            if not s["add"]:
                add(n, s)
        env.process(adder())
        for m, mv in enumerate(spec["movers"]):
            # names are no identity
            a = (Bird if cart else Plane)(name="same" if spec["debug"] else f"m{m}", location=space.place(mv["start"]), detectable=mv["det"])
            a.key = f"m{m}"
            t = Fly()
            t.ops = mv["ops"]
            procs[a.key] = t.run(actor=a)
            env.process(toggler(a, mv["toggles"]))
            env.process(rehearsals(space, a, mv["trials"], mon))
        env.run()

        got: dict[Any, list[Any]] = {}
        for t, name, n, kind, loc in log:
            got.setdefault((int(name[1:]), n), []).append((t, kind, loc))
        for key in sorted({*got, *want}):
            g, w = got.get(key, []), want.get(key, [])
            text = f"mover {key[0]}, sensor {key[1]}"
            mon.eq([x[1] for x in g], [x[1] for x in w], "notified",
                   f"{text}: told {[x[:2] for x in g]}, by geometry {[x[:3] for x in w]}; notifications")
            s = spec["sensors"][key[1]]
            reacts = any(x["react"] for x in spec["sensors"])
            slow = min(op["speed"] for op in spec["movers"][key[0]]["ops"])
            for (t, kind, loc), (tw, _, how, path) in zip(g, w):
                tol = space.tol_t / slow if space.min_pass and (how != "lost" or reacts) else 0
                # a shallow crossing is known by its place rather than its time
                ok = abs(t - tw) <= max(tol, 1e-5 * max(1, tw)) or (
                    how == "cross" and abs(space.sees(path.where(t), s["at"]) - s["r"]) <= space.tol_d * max(1, s["r"]))
                mon.check(ok, "time", lambda: f"{text}: {kind} at {t}, by geometry {tw}")
                mon.hit("entered" if kind == "in" else "exited")
                if how == "cross":
                    at = [loc.x, loc.y, loc.z, loc.use_altitude_units] if cart else [loc.lat, loc.lon]
                    off = abs(space.sees(at, s["at"]) - s["r"])
                    mon.check(off <= space.tol_d * max(1, s["r"]), "place",
                              lambda: f"{text}: {kind} when {off} from the edge")
                    mon.hit("at_edge")
                    mon.nontrivial = True
        mon.hit("cartesian" if cart else "geodetic")
        mon.hit("units", int(spec["units"][1] != spec["units"][0] and cart))
    mon.see([x[:4] for x in log])
    mon.sample = {"told": [x[:4] for x in log][:8]}


def gen_edges(rng: random.Random) -> Any:
    """Integer places, so that paths start, turn, touch and end exactly on an edge."""

    def p() -> Any:
        return [rng.choice([-10, -5, -4, -3, 0, 3, 4, 5, 10]), rng.choice([-5, -4, -3, 0, 0, 3, 4, 5])]

    moves = [[p() for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 4))]
    return {"start": p(), "moves": moves, "speed": rng.choice([1, 2, 3]), "r": rng.choice([5, 5, 5, 4, 3, 0, 10]),
            "add": rng.choice([0, 0, 2.03]), "hide": rng.choice([None, None, rng.uniform(0, 30)])}


def run_edges(spec: Any, mon: Mon) -> None:
    log: list[Any] = []
    trace: list[Any] = []
    with warnings.catch_warnings(), UP.EnvironmentContext() as env:
        warnings.simplefilter("ignore")
        UP.add_stage_variable("distance_units", "m")
        UP.add_stage_variable("altitude_units", "m")
        mgr = UP.SensorMotionManager(cartesian_linear_intersection)
        UP.add_stage_variable("motion_manager", mgr)
        w = Watch(0, UP.CartesianLocation(0, 0), spec["r"], ["location", "radius"], None, log, {})
        b = Bird(name="m0", location=UP.CartesianLocation(*spec["start"]))
        b.key = "m0"
        known = [False]

        class Fly(UP.Task):
            def task(self, *, actor: UP.Actor) -> TASK_GEN:
                for mv in spec["moves"]:
                    way = [UP.CartesianLocation(*p) for p in mv]
                    time, _ = waypoint_time_and_dist(actor.location, way, spec["speed"])
                    actor.activate_location_state(state="location", speed=spec["speed"], waypoints=way, task=self)
                    known[0] = bool(b.detectable)
                    yield UP.Wait(time)
                    actor.deactivate_all_states(task=self)
                    known[0] = False
                    yield UP.Wait(1.0)

        def watch() -> Any:
            yield env.timeout(1 / 97)
            while env.now < 150:
                d = geo.norm((b.location.x, b.location.y))
                inside = len(log) % 2 == 1
                if known[0] and env.now > spec["add"]:
                    trace.append(inside)
                    if d < spec["r"] - 1e-6:
                        mon.check(inside, "inside-untold", f"at {env.now}: {d} from a sensor of {spec['r']} that was not told")
                    elif d > spec["r"] + 1e-6:
                        mon.check(not inside, "outside-untold", f"at {env.now}: {d} from a sensor of {spec['r']}, still in view")
                yield env.timeout(1 / 7)

        def others() -> Any:
            if spec["add"]:
                yield env.timeout(spec["add"])
                mgr.add_sensor(w)
            if spec["hide"]:
                if spec["hide"] > env.now:
                    yield env.timeout(spec["hide"] - env.now)
                b.detectable = False
                known[0] = False
                mon.eq(len(log) % 2, 0, "hidden", "in view when hidden")
                yield env.timeout(2.0)
                b.detectable = True

        if not spec["add"]:
            mgr.add_sensor(w)
        env.process(others())
        Fly().run(actor=b)
        env.process(watch())
        env.run()
    for n, x in enumerate(log):
        mon.eq(x[3], "out" if n % 2 else "in", "alternate", f"notifications {[y[:4] for y in log]}; kind of {n}")
    mon.hit("edges")
    mon.nontrivial = bool(log)
    mon.see([x[0] for x in log], spec["moves"])


def gen_err(rng: random.Random) -> Any:
    return {"what": rng.choice(["method", "location", "radius", "twice", "none"])}


def run_err(spec: Any, mon: Mon) -> None:
    with UP.EnvironmentContext() as env:
        UP.add_stage_variable("distance_units", "m")
        UP.add_stage_variable("altitude_units", "m")
        mgr = UP.SensorMotionManager(cartesian_linear_intersection)
        UP.add_stage_variable("motion_manager", mgr)
        log: list[Any] = []
        w = Watch(0, UP.CartesianLocation(0, 0), 5.0, ["location", "radius"], None, log, {})
        what = spec["what"]
        if what == "method":
            mon.raises(NotImplementedError, lambda: mgr.add_sensor(object()), "no-method", "sensor without methods")
        elif what == "location":
            mon.raises(UP.SimulationError, lambda: mgr.add_sensor(w, "nowhere"), "no-location", "sensor without the location")
        elif what == "radius":
            mon.raises(UP.SimulationError, lambda: mgr.add_sensor(w, "location", "reach"), "no-radius", "sensor without radius")
        else:
            mgr.add_sensor(w)

            class Ghost(UP.Actor):
                location = UP.CartesianLocationChangingState()

            ghost = what == "none"
            b = (Ghost if ghost else Bird)(name="b", location=UP.CartesianLocation(1, 1))

            b.key = "b"

            def go() -> Any:
                t = UP.Task()
                way = [UP.CartesianLocation(9, 9)]
                b.activate_location_state(state="location", speed=1.0, waypoints=way, task=t)
                yield env.timeout(0)
                b.deactivate_all_states(task=t)

            env.process(go())
            env.run()
            # an actor without a DetectabilityState is not watched
            mon.eq(len(log), 0 if ghost else 1, "watched", f"notifications of a {type(b).__name__}")
        mon.eq(len(log) if what in ("method", "location", "radius") else 0, 0, "refused", "notifications")
        mon.hit("errors")
    mon.nontrivial = True
    mon.see(what)


SCENARIOS = [Scenario("fly", gen, run, quick=2400, thorough=40000),
             Scenario("edges", gen_edges, run_edges, quick=1500, thorough=30000),
             Scenario("leave", leave.gen, leave.run_sensor, quick=1500, thorough=30000),
             Scenario("errors", gen_err, run_err, quick=40, thorough=40)]
