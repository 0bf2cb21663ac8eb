"""C28: a stepped motion manager sees, at each of its steps, exactly what is in range then."""

import random
import warnings
from math import inf
from typing import Any

import upstage_des.api as UP
from upstage_des.geography import Spherical
from upstage_des.utils import waypoint_time_and_dist

from .. import leave
from ..core import Discard, Mon, Scenario
from ..util import TASK_GEN
from .c27 import Bird, Globe, Path, Plane, Space, rehearsals, trials

PROPERTY = {
    "title": "Stepped motion reports exactly what is in range at its steps",
    "statement": (
        "A SteppedMotionManager compares every sensor with every detectable thing at each step (in range up to and at its radius; and one thing at its own "
        "faster rate, and when it becomes detectable), and tells a sensor of each change of what it can see, moving sensors, "
        "changing radii, and custom checkers included. A thing that becomes undetectable is reported lost at once. "
        "Run without an end, it stops after max_empty_events steps with nothing else to happen, and starts again with new motion."
    ),
    "quantifier": {"over": ["inputs", "histories", "schedules"],
                   "text": "every set of moving sensors and things, steps, rates, and changes of detectability"},
    "why_tests_cant": "Tests follow one or two things along one path at one step size.",
    "anchors": {
        "files": ["src/upstage_des/motion/stepped_motion.py", "src/upstage_des/states.py", "src/upstage_des/data_types.py"],
        "mechanism": [{"name": "SteppedMotionManager.run, run_particular, _run_detectable, _update_awareness",
                       "where": "src/upstage_des/motion/stepped_motion.py"},
                      {"name": "DetectabilityState", "where": "src/upstage_des/states.py"}],
        "observe_at": ["calls of entity_entered_range and entity_exited_range", "env.now at the end"],
    },
    "technique": "runtime monitor: recorded notifications compared with a stepwise reference over independent geometry",
}
RULE = (
    "A case is sensors and things, moving or not, with changes of detectability, over some 100 steps. "
    "Non-trivial: a sensor was told of an entry and an exit; distinct by the notifications."
)
REQUIRED = {"same_place": 100, "rehearsed": 1000, "leave_told": 3000, "hid_on_in": 300, "hid_on_out": 300, "entered": 3000, "exited": 2000, "moving_sensor": 500, "growing": 300, "checker": 300, "things": 500,
            "lost": 200, "found": 150, "particular": 300, "hid": 60, "cartesian": 500, "geodetic": 200, "ended": 400,
            "restarted": 100, "self_skipped": 200, "errors": 30, "cut": 200,
            "nudged": 200, "at_edge": 300, "past_edge": 100}
ASSUMPTIONS = ["Things within a small margin of a range's edge at a step may be seen or not.",
               "A mover is compared while its motion is active, as documented."]


class Scout(UP.Actor):
    """Sees and is seen."""

    location = UP.CartesianLocationChangingState()
    detectable = UP.DetectabilityState(default=True)
    radius = UP.State(default=5.0)
    log: Any
    n: int

    def entity_entered_range(self, e: Any) -> None:
        self.log.append((self.env.now, self.n, e.key, "in"))

    def entity_exited_range(self, e: Any) -> None:
        self.log.append((self.env.now, self.n, e.key, "out"))


def gen(rng: random.Random) -> Any:
    cart = rng.random() < 0.7
    units = rng.choice([["m", "m"], ["km", "ft"]]) if cart else [rng.choice(["km", "nmi"]), "m"]
    base = [rng.uniform(-60, 60), rng.choice([rng.uniform(-180, 180), 179.5])]

    wide = 1 if cart or rng.random() < 0.5 else 15

    def point() -> Any:
        if cart:
            return [rng.uniform(-30, 30), rng.uniform(-30, 30), rng.choice([0.0, rng.uniform(-5, 5)]), False]
        return [base[0] + rng.uniform(-2, 2) * min(wide, 10), (base[1] + rng.uniform(-2, 2) * wide + 180) % 360 - 180]

    per = 1 if cart else 10 * wide

    def script(n: int) -> Any:
        return [{"gap": rng.uniform(0.01, 4), "way": [point() for _ in range(rng.choice([1, 1, 2]))],
                 "speed": rng.uniform(2, 12) * per, "part": rng.choice([1, 1, rng.random()])} for _ in range(n)]

    def toggles() -> Any:
        out, t, v = [], 0.0, False
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            t += rng.uniform(0.01, 9)
            out.append([t, v])
            v = not v
        return out

    movers = [{"start": point(), "ops": script(rng.randint(1, 3)), "toggles": toggles(), "det": rng.random() < 0.9}
              for _ in range(rng.randint(0, 3))]
    for m in movers:
        m["trials"] = trials(rng, point, m["ops"])
    things = [{"start": point(), "ops": script(rng.choice([0, 1, 2])), "add": rng.choice([0, 0, rng.uniform(0, 8)]),
               "attr": rng.choice(["location", "spot"]), "fast": rng.choice([None, None, 3 / 64, 1 / 16])}
              for _ in range(rng.randint(0 if movers else 1, 2))]
    sensors = [{"start": point(), "ops": script(rng.choice([0, 0, 2])), "r": rng.uniform(3, 25) * per,
                "grow": rng.choice([0, 0, rng.uniform(-0.5, 1) * per]), "checker": rng.choice([None, None, None, "west"]),
                "react": rng.choice([None] * 6 + ["hide"]), "add": rng.choice([0, 0, rng.uniform(0, 8)]),
                "names": rng.choice([["location", "radius"], ["spot", "reach"]])} for _ in range(rng.randint(1, 4))]
    sensors.sort(key=lambda s: s["add"])
    things.sort(key=lambda s: s["add"])
    return {"model": "cartesian" if cart else "subdivide", "units": units, "movers": movers, "things": things,
            "sensors": sensors, "step": rng.choice([1 / 16, 1 / 8, 0.25, 0.5, 1]), "run": rng.choice([0, 0, 1 / 32]),
            "until": 20.3}


class Track:
    """A place over time, from a script of motions."""

    def __init__(self, space: Any, it: Any):
        self.rest = [(0.0, tuple(it["start"]))]
        self.paths = []
        here, now = it["start"], 0.0
        for op in it["ops"]:
            now += op["gap"]
            p = Path(space, here, op, now)
            stop = now + (p.t1 - now) * op["part"]
            self.paths.append((now, stop, p))
            now, here = stop, p.where(stop)
            self.rest.append((stop, here))

    def __call__(self, t: float) -> Any:
        for a, b, p in self.paths:
            if a <= t <= b:
                return p.where(t)
        return [x for s, x in self.rest if s <= t][-1]


def reference(spec: Any, space: Any, mon: Mon, marks: list[Any]) -> dict[Any, list[Any]]:
    want: dict[Any, list[Any]] = {}
    sens, seen = [], []  # type: ignore[var-annotated]
    tracks = {f"m{i}": Track(space, m) for i, m in enumerate(spec["movers"])}
    tracks.update({f"t{i}": Track(space, m) for i, m in enumerate(spec["things"])})
    eyes = [Track(space, s) for s in spec["sensors"]]
    det = {k: True for k in tracks}
    det.update({f"m{i}": m["det"] for i, m in enumerate(spec["movers"])})
    listed: list[str] = []
    ev: list[Any] = []
    until = spec["until"]
    # starts of the stepping: by run() or by the first motion
    starts = [spec["run"]] if spec["run"] is not None else []
    starts += [a for k, tr in tracks.items() if k[0] == "m" for a, _, _ in tr.paths]
    start = min(starts, default=0.0)
    n = 1
    while start + n * spec["step"] < until:
        ev.append((start + n * spec["step"], 3, "step", None))
        n += 1
    for i, m in enumerate(spec["movers"]):
        for a, b, _ in tracks[f"m{i}"].paths:
            ev += [(a, 1, "start", f"m{i}"), (b, 2, "stop", f"m{i}")]
        ev += [(t, 0, "toggle", (f"m{i}", v)) for t, v in m["toggles"]]
    for i, m in enumerate(spec["things"]):
        ev.append((m["add"], 0, "start", f"t{i}"))
        if m["fast"]:
            k = 1
            t = m["add"] + m["fast"]
            while t < until:
                ev.append((t, 3, "fast", f"t{i}"))
                t += m["fast"]
    for i, m in enumerate(spec["sensors"]):
        ev.append((m["add"], 0, "sensor", i))

    def tell(t: float, s: int, d: str, kind: str) -> None:
        want.setdefault((s, d), []).append((t, kind))

    view: list[tuple[int, str]] = []

    def hide(t: float, d: str) -> None:
        for s, x in list(view):
            if x == d:
                view.remove((s, d))
                tell(t, s, d, "out")

    def look(t: float, which: list[str]) -> None:
        for s in sens:
            m = spec["sensors"][s]
            for d in [x for x in which if det[x]]:
                if not det[d]:
                    continue
                at = tracks[d](t)
                if m["checker"]:
                    gap = at[0] - m["start"][0] if len(at) == 2 else at[0] - m["start"][0]
                    small = 1e-6
                else:
                    gap = space.sees(at, eyes[s](t)) - max(0.0, m["r"] + m["grow"] * t)
                    small = (1e-5 if len(at) == 4 else space.margin / 20) * max(1.0, m["r"] * (len(at) == 4)) + 1e-5 * m["r"]
                if abs(gap) < small:
                    raise Discard()
                sees = gap <= 0
                if sees and (s, d) not in view:
                    view.append((s, d))
                    tell(t, s, d, "in")
                    if m["react"] == "hide" and d[0] == "m":
                        mon.hit("hid")
                        det[d] = False
                        hide(t, d)
                elif not sees and (s, d) in view:
                    view.remove((s, d))
                    tell(t, s, d, "out")

    for t, _, what, arg in sorted(ev, key=lambda e: (e[0], e[1], str(e[3]))):
        if t >= until:
            break
        if what == "sensor":
            sens.append(arg)
        elif what == "start":
            if arg not in listed:
                listed.append(arg)
        elif what == "stop":
            listed.remove(arg)
        elif what == "toggle":
            d, v = arg
            det[d] = v
            if not v:
                mon.hit("lost", sum(1 for x in view if x[1] == d))
                hide(t, d)
            elif d in listed:
                n = sum(map(len, want.values()))
                look(t, [d])
                mon.hit("found", sum(map(len, want.values())) - n)
        elif what == "step":
            look(t, list(listed))
        elif what == "fast":
            mon.hit("particular")
            look(t, [arg])
    return want


def run(spec: Any, mon: Mon) -> None:
    cart = spec["model"] == "cartesian"
    log: list[Any] = []
    with warnings.catch_warnings(), UP.EnvironmentContext() as env:
        warnings.simplefilter("ignore")
        UP.add_stage_variable("distance_units", spec["units"][0])
        UP.add_stage_variable("altitude_units", spec["units"][1])
        if not cart:
            UP.add_stage_variable("stage_model", Spherical)
        space: Any = (Space if cart else Globe)(spec)
        pre = Mon()
        want = reference(spec, space, pre, [])
        mon.hits.update(pre.hits)
        mgr = UP.SteppedMotionManager(timestep=spec["step"], max_empty_events=10**9)
        UP.add_stage_variable("motion_manager", mgr)

        class Thing:
            def __init__(self, key: str, track: Track):
                self.key, self.name, self.track = key, "same", track

            @property
            def location(self) -> Any:
                return space.place(self.track(env.now))

            spot = location

        class Eye:
            def __init__(self, n: int, m: Any):
                self.n, self.m, self.track, self.name = n, m, Track(space, m), "same"
                if m["checker"]:
                    self.detection_checker = self.check

            @property
            def location(self) -> Any:
                return space.place(self.track(env.now))

            @property
            def radius(self) -> float:
                return max(0.0, self.m["r"] + self.m["grow"] * env.now)

            spot, reach = location, radius

            def check(self, loc: Any) -> bool:
                return bool((loc.x <= self.m["start"][0]) if cart else (loc.lat <= self.m["start"][0]))

            def entity_entered_range(self, e: Any) -> None:
                log.append((env.now, self.n, e.key, "in"))
                if self.m["react"] == "hide" and e.key[0] == "m":
                    e.detectable = False

            def entity_exited_range(self, e: Any) -> None:
                log.append((env.now, self.n, e.key, "out"))

        class Go(UP.Task):
            ops: Any

            def task(self, *, actor: UP.Actor) -> TASK_GEN:
                for op in self.ops:
                    yield UP.Wait(op["gap"])
                    way = [space.place(p) for p in op["way"]]
                    time, _ = waypoint_time_and_dist(actor.location, way, op["speed"])
                    actor.activate_location_state(state="location", speed=op["speed"], waypoints=way, task=self)
                    yield UP.Wait(time * op["part"])
                    actor.deactivate_all_states(task=self)

        def toggler(a: Any, togs: Any) -> Any:
            for t, v in togs:
                yield env.timeout(t - env.now)
                a.detectable = v

        def later(t: float, what: Any) -> None:
            def proc() -> Any:
                yield env.timeout(t)
                what()

            if t:
                env.process(proc())
            else:
                what()

        for n, s in enumerate(spec["sensors"]):
            def add(n: int = n, s: Any = s) -> None:
                e = Eye(n, s)
                if s["names"][0] == "location":
                    mgr.add_sensor(e)
                else:
                    mgr.add_sensor(e, "reach", "spot")

            later(s["add"], add)
            mon.hit("moving_sensor", int(bool(s["ops"])))
            mon.hit("growing", int(bool(s["grow"])))
            mon.hit("checker", int(bool(s["checker"])))
        for n, s in enumerate(spec["things"]):
            def add_thing(n: int = n, s: Any = s) -> None:
                x = Thing(f"t{n}", Track(space, s))
                if s["attr"] == "location":
                    mgr.add_detectable(x)
                else:
                    mgr.add_detectable(x, location_attr_name=s["attr"])
                if s["fast"]:
                    mgr.run_particular(s["fast"], x)

            later(s["add"], add_thing)
            mon.hit("things")
        if spec["run"] is not None:
            later(spec["run"], mgr.run)
        for m, mv in enumerate(spec["movers"]):
            # names are no identity
            name = "same" if len(spec["sensors"]) % 2 else f"m{m}"
            a = (Bird if cart else Plane)(name=name, location=space.place(mv["start"]), detectable=mv["det"])
            a.key = f"m{m}"
            t = Go()
            t.ops = mv["ops"]
            t.run(actor=a)
            env.process(toggler(a, mv["toggles"]))
            env.process(rehearsals(space, a, mv["trials"], mon))
        env.run(until=spec["until"])

    got: dict[Any, list[Any]] = {}
    for t, n, name, kind in log:
        got.setdefault((n, name), []).append((t, kind))
    for k in sorted({*got, *want}):
        g, w = got.get(k, []), want.get(k, [])
        mon.check([x[1] for x in g] == [x[1] for x in w] and all(abs(a[0] - b[0]) < 1e-5 for a, b in zip(g, w)), "notified",
                  lambda: f"sensor {k[0]} of {k[1]}: told {g}, by geometry {w}")
        mon.hit("entered", sum(1 for x in w if x[1] == "in"))
        mon.hit("exited", sum(1 for x in w if x[1] == "out"))
        if len(w) > 1:
            mon.nontrivial = True
    mon.hit("cartesian" if cart else "geodetic")
    mon.see(log)
    mon.sample = {"told": log[:8]}


def gen_ends(rng: random.Random) -> Any:
    def p() -> Any:
        return [rng.uniform(-20, 20), rng.uniform(-20, 20), 0.0, False]

    n = rng.randint(1, 3)
    return {"step": rng.choice([1 / 8, 0.25, 0.5, 1]), "empty": rng.choice([None, 1, 2, 5]), "units": ["m", "m"],
            "run": rng.random() < 0.5, "rounds": [[{"ops": [{"gap": rng.uniform(0.01, 9), "way": [p()], "speed": rng.uniform(2, 9),
                                                            "part": 1} for _ in range(rng.randint(1, 2))]} for _ in range(n)]
                                                  for _ in range(rng.randint(1, 3))],
            "starts": [p() for _ in range(n)], "r": rng.uniform(2, 15), "cut": rng.choice([0, 0, 1, 2]), "same": rng.random() < 0.3,
            "nudge": [[rng.randint(1, 4), rng.randint(1, 3)] for _ in range(rng.choice([0, 0, 1, 2, 3]))]}


def run_ends(spec: Any, mon: Mon) -> None:
    """Without an end, the stepping stops by itself; actors are sensors of each other, not of themselves."""
    log: list[Any] = []
    with UP.EnvironmentContext() as env:
        UP.add_stage_variable("distance_units", "m")
        UP.add_stage_variable("altitude_units", "m")
        kw = {} if spec["empty"] is None else {"max_empty_events": spec["empty"]}
        empty = spec["empty"] or 3
        mgr = UP.SteppedMotionManager(spec["step"], **kw)
        UP.add_stage_variable("motion_manager", mgr)
        space = Space(spec)
        scouts = []
        for n, at in enumerate(spec["starts"]):
            a = Scout(name="same" if spec["same"] else f"s{n}", location=space.place(at), radius=spec["r"])
            a.log, a.n, a.key = log, n, f"s{n}"
            mgr.add_sensor(a)
            scouts.append(a)
        ends: list[float] = []
        begins: list[float] = []
        where = []

        class Go(UP.Task):
            ops: Any

            def task(self, *, actor: UP.Actor) -> TASK_GEN:
                for op in self.ops:
                    yield UP.Wait(op["gap"])
                    way = [space.place(p) for p in op["way"]]
                    time, _ = waypoint_time_and_dist(actor.location, way, op["speed"])
                    actor.activate_location_state(state="location", speed=op["speed"], waypoints=way, task=self)
                    begins.append(env.now)
                    yield UP.Wait(time)
                    actor.deactivate_all_states(task=self)
                ends.append(env.now)

        going = False
        for k, rnd in enumerate(spec["rounds"]):
            t0 = env.now
            ends.clear()
            begins.clear()
            procs: list[Any] = []
            if spec["run"]:
                mgr.run()
            for a, r in zip(scouts, rnd):
                t = Go()
                t.ops = r["ops"]
                procs.append(t.run(actor=a))
            cut = spec["cut"] if spec["cut"] < empty and k < len(spec["rounds"]) - 1 else 0
            if cut:
                # up to some of the empty steps: then there is more to do
                while any(p.is_alive for p in procs):
                    env.step()
                stop = env.now + cut * spec["step"]
                while env.peek() <= stop:
                    env.step()
                mon.hit("cut")
            nudged = 0.0
            if not cut and k == len(spec["rounds"]) - 1:
                # some empty steps, and then some with a thing to wait for
                for few, busy in spec["nudge"]:
                    if few >= empty:
                        continue
                    if not nudged:
                        while any(p.is_alive for p in procs):
                            env.step()
                        # any event of the ends themselves comes with them
                        nudged = env.now
                    stop = nudged + few * spec["step"]
                    while env.peek() <= stop + 1e-9:
                        env.step()
                    mon.check(env.peek() < inf, "nudge", "the stepping has stopped early")
                    nudged = env.now + (busy + 0.5) * spec["step"]
                    env.timeout(nudged - env.now)
                    while env.peek() <= nudged:
                        env.step()
                    mon.hit("nudged")
            if not cut:
                env.run()
            if not going:
                start = t0 if spec["run"] else min(begins)
            going = bool(cut)
            if cut:
                mon.check(env.peek() < inf, "cut", "the stepping has stopped early")
                continue
            last = max([*ends, nudged])
            n = 1
            while start + n * spec["step"] < last + 1e-9:
                n += 1
            want = start + (n + empty - 1) * spec["step"]
            mon.close(env.now, want, "end", f"round {k}: stepping by {spec['step']} from {start}, last motion ended {last}; end",
                      tol=1e-9)
            mon.hit("ended")
            mon.hit("restarted", int(k > 0))
            for t, s, name, kind in log:
                mon.check(name != f"s{s}", "self", f"{name} was told of itself")
            mon.hit("self_skipped")
            where.append(env.now)
        # told of others only at steps, alternating
        seen: dict[Any, str] = {}
        for t, s, name, kind in log:
            mon.check(seen.get((s, name), "out") != kind, "alternate", f"{kind} twice for {name} at {s}: {log}")
            seen[(s, name)] = kind
    mon.nontrivial = True
    mon.see(log, where)


def gen_err(rng: random.Random) -> Any:
    return {"what": rng.choice(["method", "location", "radius", "detectable"])}


def run_err(spec: Any, mon: Mon) -> None:
    class Half:
        radius = 1.0

        def entity_entered_range(self, e: Any) -> None: ...

        def entity_exited_range(self, e: Any) -> None: ...

    class Spot(Half):
        radius = None
        location = "here"

    with UP.EnvironmentContext():
        mgr = UP.SteppedMotionManager(1.0)
        w = spec["what"]
        if w == "method":
            mon.raises(NotImplementedError, lambda: mgr.add_sensor(object()), "no-method", "sensor without methods")
        elif w == "location":
            mon.raises(UP.SimulationError, lambda: mgr.add_sensor(Half()), "no-location", "sensor without location")
        elif w == "radius":
            mon.raises(UP.SimulationError, lambda: mgr.add_sensor(Spot(), "reach"), "no-radius", "sensor without the radius")
        else:
            mon.raises(UP.SimulationError, lambda: mgr.add_detectable(object()), "no-place", "thing without location")
        mon.hit("errors")
    mon.nontrivial = True
    mon.see(w)


def gen_edge(rng: random.Random) -> Any:
    trip = [[3, 4, 0, 5], [6, 8, 0, 10], [2, 3, 6, 7], [1, 2, 2, 3], [0, 5, 0, 5], [0, 0, 4, 4], [0, 0, 0, 0], [8, 9, 12, 17]]
    return {"step": rng.choice([0.25, 1.0]), "at": [rng.randint(-9, 9) for _ in range(3)], "things": [
        [*[x * rng.choice([1, -1]) for x in rng.choice(trip)[:3]]] for _ in range(rng.randint(1, 5))],
        "radii": [rng.choice([0, 3, 4, 5, 7, 10, 17]) for _ in range(rng.randint(1, 4))]}


def run_edge(spec: Any, mon: Mon) -> None:
    """Still things, at whole distances: what is as far as the radius is in range."""
    log: list[Any] = []
    with UP.EnvironmentContext() as env:
        UP.add_stage_variable("distance_units", "m")
        UP.add_stage_variable("altitude_units", "m")
        mgr = UP.SteppedMotionManager(spec["step"])

        class It:
            def __init__(self, n: int, at: Any, radius: float = 0.0):
                self.n, self.location, self.radius = n, UP.CartesianLocation(*at), radius

            def entity_entered_range(self, e: Any) -> None:
                log.append((self.n, e.n, env.now))

            def entity_exited_range(self, e: Any) -> None:
                log.append("exit")

        base = UP.CartesianLocation(*spec["at"])
        for n, r in enumerate(spec["radii"]):
            s = It(n, spec["at"], float(r))
            s.location = base
            mgr.add_sensor(s)
        for n, d in enumerate(spec["things"]):
            x = It(n, [a + b for a, b in zip(spec["at"], d)])
            if not any(d):
                # at the very place
                x.location = base
                mon.hit("same_place")
            mgr.add_detectable(x)
        mgr.run()
        env.run()
    want = []
    for n, r in enumerate(spec["radii"]):
        for k, d in enumerate(spec["things"]):
            far = sum(x * x for x in d)
            if far <= r * r:
                want.append((n, k, spec["step"]))
                mon.hit("at_edge", int(far == r * r))
            else:
                mon.hit("past_edge")
    mon.eq(sorted(log), want, "edge", f"radii {spec['radii']}, things off by {spec['things']}: (sensor, thing, time) told")
    mon.nontrivial = bool(want)
    mon.see(want)


SCENARIOS = [Scenario("steps", gen, run, quick=4000, thorough=60000),
             Scenario("edge", gen_edge, run_edge, quick=400, thorough=3000),
             Scenario("ends", gen_ends, run_ends, quick=1500, thorough=10000),
             Scenario("leave", leave.gen, leave.run_stepped, quick=1500, thorough=30000),
             Scenario("errors", gen_err, run_err, quick=40, thorough=40)]
