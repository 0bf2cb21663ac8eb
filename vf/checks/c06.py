"""C06: linearly changing states hold exactly base + rate * elapsed time."""

from __future__ import annotations

import random
import types
from typing import Any

import upstage_des.api as UP
from upstage_des.states import ActiveStatus

from ..core import Mon, Scenario
from ..util import TASK_GEN, dy

PROPERTY = {
    "title": "Linear states are exactly base plus rate times active time",
    "statement": (
        "Whenever it is read, a linearly changing state equals its value when last assigned or "
        "activated plus the rate times the time it has been active since; it changes in no other way, "
        "however often it is read, recorded, copied or interrupted, and stands still while inactive. "
        "Its history marks each activation and deactivation at its time and in between holds only "
        "values the state had at the recorded times."
    ),
    "quantifier": {"over": ["histories", "schedules", "inputs"],
                   "text": "every schedule of activations, reads, assignments, interrupts and rates"},
    "why_tests_cant": "Tests activate once and read at a few fixed times.",
    "anchors": {
        "files": ["src/upstage_des/states.py", "src/upstage_des/actor.py", "src/upstage_des/task.py"],
        "mechanism": [{"name": "LinearChangingState._active and Actor.activate_state/deactivate_state",
                       "where": "src/upstage_des/states.py"}],
        "observe_at": ["attribute reads", "actor._state_histories"],
    },
    "technique": "closed-form trajectory monitor over generated activation schedules",
}

RULE = (
    "A case is two actors with one to three linear states and a program of activations, deactivations, "
    "assignments, reads, forced records, clones and clock runs at dyadic times (exact arithmetic), or "
    "tasks that are interrupted. Non-trivial: a state was active over a positive time; distinct by the "
    "observed values."
)
REQUIRED = {"active_reads": 1000, "activations": 500, "assign_while_active": 100, "interrupts": 100,
            "markers": 300}
ASSUMPTIONS = ["Times and rates are dyadic so the closed form is exact."]


def gen(rng: random.Random) -> Any:
    n = rng.randint(1, 3)
    states = [{"name": f"x{i}", "rec": rng.random() < 0.6, "default": rng.choice([None, dy(rng, -8, 8)])}
              for i in range(n)]
    ops = []
    for _ in range(rng.randint(4, 30)):
        op = rng.choice(["act", "act", "deact", "all", "set", "aug", "read", "record", "run", "run",
                         "run", "clone", "data"])
        ops.append([op, rng.randrange(2), rng.randrange(n), dy(rng, -32, 32), dy(rng, 1, 24),
                    rng.randrange(2)])
    return {"states": states, "ops": ops, "t0": dy(rng, 0, 40)}


class Track:
    """The closed form of one state."""

    def __init__(self, mon: Mon, env: Any, base: float, rec: bool) -> None:
        self.mon, self.env, self.base, self.rec = mon, env, base, rec
        self.since: float | None = None
        self.rate = 0.0
        self.task: Any = None
        self.marks: list[Any] = []
        self.segments: list[Any] = []  # (t_from, value_at_from, rate)
        self.values: list[Any] = []
        self.push()

    def push(self) -> None:
        self.segments.append((self.env.now, self.base, self.rate if self.since is not None else 0.0))

    def value(self) -> float:
        if self.since is None:
            return self.base
        if self.env.now > self.since:
            self.mon.nontrivial = True
        self.mon.hit("active_reads")
        return self.base + self.rate * (self.env.now - self.since)

    def activate(self, rate: float, task: Any) -> None:
        self.rate, self.since, self.task = rate, self.env.now, task
        self.mon.hit("activations")
        self.marks.append((self.env.now, ActiveStatus.activating))
        self.push()

    def deactivate(self) -> None:
        self.base = self.value()
        self.since, self.task = None, None
        self.marks.append((self.env.now, ActiveStatus.deactivating))
        self.push()

    def assign(self, v: float) -> None:
        self.base = v
        if self.since is not None:
            self.since = self.env.now
            self.mon.hit("assign_while_active")
        self.push()

    def legal(self, t: float, v: float) -> bool:
        """Did the state have value v at time t?"""
        for i, (t0, b, r) in enumerate(self.segments):
            t1 = self.segments[i + 1][0] if i + 1 < len(self.segments) else self.env.now
            if t0 <= t <= t1 and b + r * (t - t0) == v:
                return True
        return False

    def judge_history(self, h: Any, who: str) -> None:
        mon = self.mon
        if not self.rec:
            mon.eq(h, None, "unrecorded", who)
            return
        marks = [e for e in h if isinstance(e[1], ActiveStatus)]
        mon.eq(marks, self.marks, "markers", who)
        mon.hit("markers", len(marks))
        times = [e[0] for e in h]
        mon.check(times == sorted(times), "history-order", who)
        for t, v in h:
            if not isinstance(v, ActiveStatus):
                mon.check(self.legal(t, v), "history-value",
                          lambda: f"{who}: recorded {v} at {t}; segments {self.segments}")
        nums = {e[0] for e in h if not isinstance(e[1], ActiveStatus)}
        mon.check(all(m[0] in nums for m in marks), "marker-value",
                  lambda: f"{who}: no value recorded at an activation or deactivation: {h}")


def run(spec: Any, mon: Mon) -> None:
    ns = {s["name"]: UP.LinearChangingState(recording=s["rec"], default=s["default"])
          for s in spec["states"]}
    Cls = types.new_class("Cls", (UP.Actor,), {}, lambda n: n.update(ns))
    with UP.EnvironmentContext(initial_time=spec["t0"]) as env:
        actors, tracks = [], []
        for i in range(2):
            init = {s["name"]: float(i) for s in spec["states"] if s["default"] is None}
            actors.append(Cls(name=f"a{i}", **init))
            tracks.append([Track(mon, env, s["default"] if s["default"] is not None else float(i),
                                 s["rec"]) for s in spec["states"]])
        tasks = [UP.Task(), UP.Task()]
        names = [s["name"] for s in spec["states"]]

        def judge_hist() -> None:
            for a, ts in zip(actors, tracks):
                for k, t in zip(names, ts):
                    t.judge_history(a._state_histories.get(k), f"{a.name}.{k}")

        for op, i, si, num, dt, ti in spec["ops"]:
            a, k, t = actors[i], names[si], tracks[i][si]
            if op == "run":
                env.run(until=env.now + dt)
                continue
            if op == "act" and t.since is None:
                if ti:
                    a.activate_linear_state(state=k, rate=num, task=tasks[ti])
                else:
                    a.activate_state(state=k, rate=num, task=tasks[ti])
                t.activate(num, tasks[ti])
            elif op == "deact" and t.since is not None:
                a.deactivate_state(state=k, task=t.task)
                t.deactivate()
            elif op == "all":
                a.deactivate_all_states(task=tasks[ti])
                for tt in tracks[i]:
                    if tt.task is tasks[ti]:
                        tt.deactivate()
            elif op == "set":
                setattr(a, k, num)
                t.assign(num)
            elif op == "aug":
                setattr(a, k, getattr(a, k) + num)
                t.assign(t.value() + num)
            elif op == "read":
                mon.eq(getattr(a, k), t.value(), "value", f"{a.name}.{k} at {env.now}")
            elif op == "record":
                a.record_state(k)
                if t.rec:
                    h = a._state_histories[k]
                    mon.eq(h[-1], (env.now, t.value()), "forced-record", k)
            elif op == "clone":
                c = a.clone()
                for kk, tt in zip(names, tracks[i]):
                    mon.eq(getattr(c, kk), tt.value(), "clone-value", kk)
            elif op == "data":
                d = a.get_active_state_data(k)
                if t.since is None:
                    mon.eq(d, {}, "inactive-data", k)
                else:
                    mon.eq(d.get("rate"), t.rate, "active-rate", k)
            if num == dt:
                judge_hist()
        for a, ts in zip(actors, tracks):
            for k, t in zip(names, ts):
                mon.eq(getattr(a, k), t.value(), "value", f"{a.name}.{k} at the end")
        judge_hist()
        mon.see([[getattr(a, k) for k in names] for a in actors], len(spec["ops"]))
        mon.sample = {"values": [[getattr(a, k) for k in names] for a in actors], "now": env.now}


def gen_task(rng: random.Random) -> Any:
    return {
        "legs": [[dy(rng, 1, 32), dy(rng, -16, 16)] for _ in range(rng.randint(1, 5))],
        "ints": sorted(dy(rng, 1, 120) + 1 / 16 for _ in range(rng.randint(0, 4))),
        "acts": [rng.choice(["END", "IGNORE", "RESTART", "restart_once"]) for _ in range(4)],
        "reads": sorted(dy(rng, 0, 160) + 1 / 32 for _ in range(rng.randint(0, 8))),
        "leave": rng.random() < 0.3,
    }


def run_task(spec: Any, mon: Mon) -> None:
    """A task drives a state over legs; interrupts end, restart or leave it alone."""
    acts = list(spec["acts"])

    class Tank(UP.Actor):
        fuel = UP.LinearChangingState(default=100.0, recording=True)
        idle = UP.LinearChangingState(default=7.0, recording=True)

    class Burn(UP.Task):
        def task(self, *, actor: Tank) -> TASK_GEN:
            for dt, rate in spec["legs"]:
                actor.activate_linear_state(state="fuel", rate=rate, task=self)
                tr.activate(rate, self)
                yield UP.Wait(dt)
                if spec["leave"] and dt > 2:
                    actor.deactivate_all_states(task=self)
                else:
                    actor.deactivate_state(state="fuel", task=self)
                tr.deactivate()

        def on_interrupt(self, *, actor: Tank, cause: Any) -> Any:
            mon.hit("interrupts")
            mon.eq(actor.fuel, tr.value(), "value-in-interrupt", "fuel")
            a = acts.pop(0) if acts else "END"
            if a == "IGNORE":
                return self.INTERRUPT.IGNORE
            tr.deactivate()
            return self.INTERRUPT.RESTART if a != "END" else self.INTERRUPT.END

    with UP.EnvironmentContext() as env:
        tank = Tank(name="t")
        tr = Track(mon, env, 100.0, True)
        p = Burn().run(actor=tank)

        def poke() -> Any:
            for t in spec["ints"]:
                if t > env.now:
                    yield env.timeout(t - env.now)
                if p.is_alive:
                    p.interrupt("poke")

        def watch() -> Any:
            for t in spec["reads"]:
                yield env.timeout(max(0, t - env.now))
                mon.eq(tank.fuel, tr.value(), "value", f"fuel at {env.now}")
                mon.eq(tank.idle, 7.0, "idle-changed", f"at {env.now}")

        env.process(poke())
        env.process(watch())
        env.run()
        mon.eq(tank.fuel, tr.value(), "value", "fuel at the end")
        end = tank.fuel
        env.run(until=env.now + 5)
        mon.eq(tank.fuel, end, "moved-after-end", "the task is over")
        tr.judge_history(tank._state_histories["fuel"], "fuel")
        mon.see(end, env.now)


SCENARIOS = [Scenario("direct", gen, run, quick=20000, thorough=676000),
             Scenario("tasks", gen_task, run_task, quick=12000, thorough=338000)]
