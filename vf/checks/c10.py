"""C10: a mimicking state shows the other actor's state."""

import random
from typing import Any

import upstage_des.api as UP
from upstage_des.base import UpstageError
from upstage_des.states import ActiveStatus

from .. import geo
from ..core import Mon, Scenario
from ..util import TASK_GEN, dy, stage_units

PROPERTY = {
    "title": "A mimicking state always shows the state it mimics",
    "statement": (
        "While a state mimics a state of another actor, every read gives the other state's current value "
        "and its history gains exactly the values the other state took or was read with, at their times. "
        "When mimicking ends, by deactivation or because its task was interrupted, the state keeps its "
        "last value and is independent again; other states and other mimics are never affected. "
    ).strip(),
    "quantifier": {"over": ["histories", "schedules", "inputs"],
                   "text": "every web of mimics, assignments, active states, reads and interrupts"},
    "why_tests_cant": "Tests use one mimic of one state and read it a few times.",
    "anchors": {
        "files": ["src/upstage_des/actor.py", "src/upstage_des/states.py", "src/upstage_des/task.py"],
        "mechanism": [{"name": "Actor.activate_mimic_state, State.__get__, State callbacks",
                       "where": "src/upstage_des/actor.py"}],
        "observe_at": ["attribute reads", "actor._state_histories"],
    },
    "technique": "reference-model monitor of mimic webs with exact histories",
}
RULE = (
    "A case is three actors with plain and linear states and a program of mimics (also chains and "
    "several mimics of one state), assignments, reads, clock runs, or riders mimicking a moving car in "
    "interrupted tasks. Non-trivial: a mimicking state was read; distinct by the values observed."
)
REQUIRED = {"mimic_reads": 1500, "mimics": 1000, "released": 300, "recorded_from_other": 300,
            "rides_interrupted": 60}
ASSUMPTIONS = ["A state does not mimic itself through a cycle, and is not active while it mimics."]

NAMES = ["p", "q", "lin"]


class Model:
    def __init__(self, mon: Mon) -> None:
        self.mon = mon
        self.now = 0.0
        self.val: dict = {}
        self.act: dict = {}  # key -> (rate, since)
        self.mim: dict = {}  # key -> other key (insertion = callback order)
        self.hist: dict = {}

    def record(self, k: Any, v: Any) -> None:
        if k[1] == "q":
            return
        h = self.hist.setdefault(k, [])
        if not h or h[-1] != (self.now, v):
            h.append((self.now, v))

    def assign(self, k: Any, v: Any) -> None:
        self.val[k] = v
        if k in self.act:
            self.act[k] = (self.act[k][0], self.now)
        self.record(k, v)
        for m, other in self.mim.items():
            if other == k and m[1] != "q":
                self.record(m, v)
                self.mon.hit("recorded_from_other")

    def read(self, k: Any) -> Any:
        if k in self.mim:
            self.mon.hit("mimic_reads")
            v = self.read(self.mim[k])
            self.assign(k, v)
            return v
        if k in self.act:
            rate, since = self.act[k]
            self.assign(k, self.val[k] + rate * (self.now - since))
        return self.val[k]

    def reaches(self, a: Any, b: Any) -> bool:
        while a in self.mim:
            if a == b:
                return True
            a = self.mim[a]
        return a == b


def gen(rng: random.Random) -> Any:
    ops = []
    for _ in range(rng.randint(6, 40)):
        ops.append([rng.choice(["mim", "mim", "mim", "unmim", "unall", "set", "set", "read", "read", "read",
                                "run", "act", "deact", "bad"]),
                    rng.randrange(3), rng.randrange(3), rng.randrange(3), rng.randrange(3),
                    dy(rng, -32, 32), dy(rng, 1, 16), rng.randrange(2)])
    return {"ops": ops, "t0": dy(rng, 0, 20), "names": rng.choice([1, 2, 3, 3])}


def run(spec: Any, mon: Mon) -> None:
    class Thing(UP.Actor):
        p = UP.State(default=1.0, valid_types=(int, float), recording=True)
        q = UP.State(default=2.0)
        lin = UP.LinearChangingState(default=3.0, recording=True)
        word = UP.State(default="word", valid_types=str)
        d = UP.DictionaryState(valid_types=int)

    m = Model(mon)
    with UP.EnvironmentContext(initial_time=spec["t0"]) as env:
        m.now = env.now
        # names need not be unique
        actors = [Thing(name=f"t{i % spec['names']}", d={"a": 1}) for i in range(3)]
        for i in range(3):
            for n, v in zip(NAMES, (1.0, 2.0, 3.0)):
                m.assign((i, n), v)
        tasks = [UP.Task(), UP.Task()]
        owner: dict = {}
        lin_owner: dict = {}
        for op, i, si, j, sj, num, dt, ti in spec["ops"]:
            a, k, o = actors[i], (i, NAMES[si]), (j, NAMES[sj])
            if op == "run":
                env.run(until=env.now + dt)
                m.now = env.now
            elif op == "mim":
                if k in m.mim:
                    mon.raises(UpstageError, lambda: a.activate_mimic_state(
                        self_state=k[1], mimic_state=o[1], mimic_actor=actors[j], task=tasks[ti]),
                        "double-mimic", str(k))
                    continue
                if m.reaches(o, k) or k in m.act:
                    continue
                a.activate_mimic_state(self_state=k[1], mimic_state=o[1], mimic_actor=actors[j],
                                       task=tasks[ti])
                m.read(o)
                m.mim[k] = o
                owner[k] = tasks[ti]
                mon.hit("mimics")
            elif op == "unmim" and k in m.mim:
                a.deactivate_mimic_state(self_state=k[1], task=owner[k])
                m.read(k)
                del m.mim[k], owner[k]
                mon.hit("released")
            elif op == "unall":
                a.deactivate_all_mimic_states(task=tasks[ti])
                for kk in [x for x in owner if x[0] == i and owner[x] is tasks[ti]]:
                    m.read(kk)
                    del m.mim[kk], owner[kk]
                    mon.hit("released")
            elif op == "set":
                setattr(a, k[1], num)
                m.assign(k, num)
            elif op == "read":
                mon.eq(getattr(a, k[1]), m.read(k), "value",
                       f"{k} mimicking {m.mim.get(k)} at {env.now}")
                if k in m.mim:
                    mon.nontrivial = True
                    mon.see(k, m.mim[k], m.val[k])
            elif op == "act" and (i, "lin") not in m.act and (i, "lin") not in m.mim:
                kk = (i, "lin")
                a.activate_linear_state(state="lin", rate=num, task=tasks[ti])
                m.act[kk] = (num, env.now)
                m.read(kk)
                m.record(kk, ActiveStatus.activating)
                lin_owner[kk] = tasks[ti]
            elif op == "deact" and (i, "lin") in m.act:
                kk = (i, "lin")
                a.deactivate_state(state="lin", task=lin_owner.pop(kk))
                m.read(kk)
                m.record(kk, ActiveStatus.deactivating)
                del m.act[kk]
            elif op == "bad":
                if (i, "p") not in m.mim:
                    mon.raises(UP.SimulationError, lambda: a.activate_mimic_state(
                        self_state="p", mimic_state="word", mimic_actor=actors[j], task=tasks[ti]),
                        "type-mismatch", "p mimics word")
                for x, y in (("d", "d"), ("q", "d"), ("d", "q")):
                    if (x, y) == ("q", "d") and (i, "q") in m.mim:
                        continue
                    mon.raises(UpstageError, lambda: a.activate_mimic_state(
                        self_state=x, mimic_state=y, mimic_actor=actors[(i + 1) % 3], task=tasks[ti]),
                        "key-value-mimic", f"{x} mimics {y}")
        for k in list(m.val):
            mon.eq(getattr(actors[k[0]], k[1]), m.read(k), "value", f"{k} at the end")
        for k in m.val:
            got = actors[k[0]]._state_histories.get(k[1])
            mon.eq(got, m.hist.get(k), "history", f"{k}")
        mon.sample = {"values": {str(k): v for k, v in m.val.items()}, "ops": len(spec["ops"])}


def gen_ride(rng: random.Random) -> Any:
    return {"legs": [[rng.uniform(-20, 20), rng.uniform(-20, 20), 2 ** rng.uniform(-1, 2)]
                     for _ in range(rng.randint(1, 4))],
            "riders": [{"on": dy(rng, 0, 40) + 1 / 32 + i / 512, "off": dy(rng, 1, 60), "rec": i % 2 == 0,
                        "how": rng.choice(["off", "int", "ignore", "restart"]), "idle": dy(rng, 0, 20),
                        "via": rng.random() < 0.3} for i in range(rng.randint(1, 3))],
            "reads": sorted(rng.uniform(0, 25) for _ in range(rng.randint(3, 10)))}


def run_ride(spec: Any, mon: Mon) -> None:
    """Riders mimic a moving car; a ride ends by itself or by an interrupt."""
    class Car(UP.Actor):
        location = UP.CartesianLocationChangingState(recording=True)

    class Rec(UP.Actor):
        location = UP.State[UP.CartesianLocation](valid_types=UP.CartesianLocation, recording=True)

    class NoRec(UP.Actor):
        location = UP.State[UP.CartesianLocation](valid_types=UP.CartesianLocation)

    class Drive(UP.Task):
        def task(self, *, actor: Car) -> TASK_GEN:
            for x, y, v in spec["legs"]:
                w = UP.CartesianLocation(x, y)
                t = (w - actor.location) / v
                actor.activate_location_state(state="location", speed=v, waypoints=[w], task=self)
                yield UP.Wait(t)
                actor.deactivate_all_states(task=self)

    rides: dict = {}  # name -> [[start, end or None], ...]

    class Ride(UP.Task):
        def task(self, *, actor: UP.Actor) -> TASK_GEN:
            r = actor.get_knowledge("ride")
            if actor.name in rides:
                yield UP.Wait(r["idle"])
            actor.activate_mimic_state(self_state="location", mimic_state="location",
                                       mimic_actor=actor.get_knowledge("vehicle"), task=self)
            rides.setdefault(actor.name, []).append([env.now, None])
            yield UP.Wait(r["off"])
            actor.deactivate_mimic_state(self_state="location", task=self)
            rides[actor.name][-1][1] = env.now

        def on_interrupt(self, *, actor: UP.Actor, cause: Any) -> Any:
            if cause == "ignore":
                return self.INTERRUPT.IGNORE
            rides[actor.name][-1][1] = env.now
            mon.hit("rides_interrupted")
            return self.INTERRUPT[cause]

    with UP.EnvironmentContext() as env:
        stage_units("m", "m")
        car = Car(name="car", location=UP.CartesianLocation(0, 0))
        # the drive as the monitor knows it
        t, at, track = 0.0, (0.0, 0.0), []
        for x, y, v in spec["legs"]:
            d = geo.chord(at, (x, y))
            track.append((t, t + d / v, at, (x, y)))
            t, at = t + d / v, (x, y)

        def car_at(now: float) -> Any:
            for t0, t1, p, q in track:
                if now <= t1:
                    f = (now - t0) / (t1 - t0)
                    return tuple(a + f * (b - a) for a, b in zip(p, q))
            return at

        riders = []
        for i, r in enumerate(spec["riders"]):
            w = (Rec if r["rec"] else NoRec)(name=f"r{i}", location=UP.CartesianLocation(i + 1, 1))
            w.set_knowledge("ride", r)
            w.set_knowledge("vehicle", riders[0] if r["via"] and riders else car)
            riders.append(w)
        Drive().run(actor=car)

        def want(w: Any, now: float) -> Any:
            """Where a rider is."""
            i = riders.index(w)
            ride = next((x for x in reversed(rides.get(w.name, [])) if x[0] <= now), None)
            if ride is None:
                return (i + 1.0, 1.0)
            when = now if ride[1] is None else min(now, ride[1])
            v = w.get_knowledge("vehicle")
            return car_at(when) if v is car else want(v, when)

        def board(w: Any, r: Any) -> Any:
            yield env.timeout(r["on"])
            if w.get_knowledge("vehicle") is not car and rides.get(riders[0].name) is None:
                w.set_knowledge("vehicle", car, overwrite=True)
            p = Ride().run(actor=w)
            if r["how"] != "off":
                yield env.timeout(r["off"] / 2)
                p.interrupt({"int": "END", "restart": "RESTART"}.get(r["how"], r["how"]))

        def look() -> Any:
            for t in spec["reads"]:
                yield env.timeout(max(0.0, t - env.now))
                for w in riders:
                    g = geo.chord((w.location.x, w.location.y), want(w, env.now))
                    mon.check(g < 1e-6, "ride-position",
                              lambda: f"{w.name} at {env.now}: {w.location}, expected {want(w, env.now)}")
                    if rides.get(w.name) and rides[w.name][-1][1] is None:
                        mon.nontrivial = True
                        mon.hit("mimic_reads")

        for w, r in zip(riders, spec["riders"]):
            env.process(board(w, r))
        env.process(look())
        env.run()
        env.run(until=env.now + 3)
        for w in riders:
            g = geo.chord((w.location.x, w.location.y), want(w, env.now))
            mon.check(g < 1e-6, "position-after-ride", f"{w.name}: {w.location}")
            h = w._state_histories.get("location")
            mon.check((h is not None) == isinstance(w, Rec), "recording", w.name)
            for t, v in h or []:
                if w.get_knowledge("vehicle") is car and any(x[0] < t <= x[1] for x in rides[w.name]):
                    mon.check(geo.chord((v.x, v.y), car_at(t)) < 1e-6, "ride-history",
                              lambda: f"{w.name} recorded {v} at {t}")
        mon.see({k: v for k, v in rides.items()}, [round(w.location.x, 6) for w in riders])


SCENARIOS = [Scenario("web", gen, run, quick=3000, thorough=90000),
             Scenario("rides", gen_ride, run_ride, quick=800, thorough=20000)]
