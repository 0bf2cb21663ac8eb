"""C07: a shared linear state changes by the sum of the rates of the tasks using it."""

from __future__ import annotations

import random
import types
from typing import Any

import upstage_des.api as UP
from upstage_des.state_sharing import SharedLinearChangingState
from upstage_des.states import ActiveStatus

from ..core import Mon, Scenario
from ..util import TASK_GEN, dy

PROPERTY = {
    "title": "Shared linear states follow the sum of all active users' rates",
    "statement": (
        "At every time, a shared linear state equals its last assigned value plus, for every task that "
        "activated it, that task's rate times the time it has been active since, with any number of "
        "overlapping users starting, stopping, being interrupted or restarting in any order. A task "
        "cannot be counted twice or stop a rate it never started: both raise and change nothing."
    ),
    "quantifier": {"over": ["schedules", "histories"],
                   "text": "every overlap of activations by any number of tasks, with interrupts"},
    "why_tests_cant": "Tests overlap two or three tasks in fixed schedules.",
    "anchors": {
        "files": ["src/upstage_des/state_sharing.py", "src/upstage_des/actor.py",
                  "src/upstage_des/task.py"],
        "mechanism": [{"name": "SharedLinearChangingState._active/deactivate and the actor's task locks",
                       "where": "src/upstage_des/state_sharing.py"}],
        "observe_at": ["attribute reads", "actor._state_histories"],
    },
    "technique": "sum-of-rates reference monitor over generated overlaps and interrupt schedules",
}

RULE = (
    "A case is one or two actors with shared linear states and a program of activations by up to four "
    "tasks (or real interrupted task processes), assignments and reads at dyadic times. Non-trivial: "
    "two tasks were active at once over a positive time; distinct by observed values."
)
REQUIRED = {"overlap": 500, "double": 50, "not_active": 50, "interrupts": 100, "reads": 2000, "no_rate": 200}
ASSUMPTIONS = ["Times and rates are dyadic so the sum is exact."]


class Sum:
    def __init__(self, mon: Mon, env: Any, base: float) -> None:
        self.mon, self.env, self.v, self.t = mon, env, base, env.now
        self.rates: dict[int, float] = {}
        self.seen: set[Any] = {(env.now, base)}
        self.act: list[float] = []

    def value(self) -> float:
        dt = self.env.now - self.t
        if dt > 0 and len(self.rates) > 1:
            self.mon.nontrivial = True
            self.mon.hit("overlap")
        self.v += dt * sum(self.rates.values())
        self.t = self.env.now
        self.seen.add((self.t, self.v))
        return self.v

    def start(self, k: int, rate: float) -> None:
        self.value()
        self.rates[k] = rate
        self.act.append(self.env.now)

    def stop(self, k: int) -> None:
        self.value()
        del self.rates[k]

    def assign(self, v: float) -> None:
        self.value()
        self.v = v
        self.seen.add((self.t, v))

    def judge_history(self, h: Any, who: str) -> None:
        ts = [e[0] for e in h]
        self.mon.check(ts == sorted(ts), "history-order", who)
        for e in h:
            if e[1] is ActiveStatus.activating:
                self.mon.check(e[0] in self.act, "marker", who)
            elif not isinstance(e[1], ActiveStatus):
                self.mon.check(e in self.seen, "history-value", lambda: f"{who}: recorded {e}")


def gen(rng: random.Random) -> Any:
    n = rng.randint(1, 2)
    ops = []
    for _ in range(rng.randint(5, 30)):
        op = rng.choice(["act", "act", "act", "deact", "deact", "all", "set", "aug", "read", "run",
                         "run", "run", "clone"])
        ops.append([op, rng.randrange(2), rng.randrange(n), dy(rng, -32, 32), dy(rng, 1, 24),
                    rng.randrange(4)])
    return {"n": n, "ops": ops, "rec": rng.random() < 0.7}


def run(spec: Any, mon: Mon) -> None:
    names = [f"x{i}" for i in range(spec["n"])]
    ns = {k: SharedLinearChangingState(recording=spec["rec"]) for k in names}
    Cls = types.new_class("Cls", (UP.Actor,), {}, lambda n: n.update(ns))
    with UP.EnvironmentContext() as env:
        actors = [Cls(name=f"a{i}", **{k: 10.0 * i for k in names}) for i in range(2)]
        sums = [[Sum(mon, env, 10.0 * i) for _ in names] for i in range(2)]
        tasks = [UP.Task() for _ in range(4)]
        for op, i, si, num, dt, ti in spec["ops"]:
            a, k, s = actors[i], names[si], sums[i][si]
            if op == "run":
                env.run(until=env.now + dt)
                if num < 0:
                    for aa, ss in zip(actors, sums):
                        for kk, x in zip(names, ss):
                            mon.eq(getattr(aa, kk), x.value(), "value", f"{aa.name}.{kk} at {env.now}")
                            mon.hit("reads")
            elif op == "act":
                if ti in s.rates:
                    mon.raises(UP.UpstageError, lambda: a.activate_state(
                        state=k, task=tasks[ti], rate=num), "double-activation", k)
                    mon.hit("double")
                else:
                    if ti == i:
                        # refused for having no rate; what others do with it goes on
                        mon.raises(Exception, lambda: a.activate_state(state=k, task=tasks[ti]), "no-rate", k)
                        mon.hit("no_rate", int(bool(s.rates)))
                    if ti != i or num > 0:
                        a.activate_state(state=k, task=tasks[ti], rate=num)
                        s.start(ti, num)
            elif op == "deact":
                if ti in s.rates:
                    a.deactivate_state(state=k, task=tasks[ti])
                    s.stop(ti)
                else:
                    mon.raises(UP.UpstageError, lambda: a.deactivate_state(state=k, task=tasks[ti]),
                               "bad-deactivation", k)
                    mon.hit("not_active")
            elif op == "all":
                a.deactivate_all_states(task=tasks[ti])
                for x in sums[i]:
                    if ti in x.rates:
                        x.stop(ti)
            elif op == "set":
                setattr(a, k, num)
                s.assign(num)
            elif op == "aug":
                setattr(a, k, getattr(a, k) + num)
                s.assign(s.value() + num)
            elif op == "clone":
                c = a.clone()
                for kk, x in zip(names, sums[i]):
                    mon.eq(getattr(c, kk), x.value(), "clone-value", kk)
            if op in ("read", "act", "deact", "all"):
                mon.eq(getattr(a, k), s.value(), "value", f"{a.name}.{k} at {env.now} after {op}")
                mon.hit("reads")
        env.run(until=env.now + 1)
        for a, ss in zip(actors, sums):
            for k, s in zip(names, ss):
                mon.eq(getattr(a, k), s.value(), "value", f"{a.name}.{k} at the end")
                if spec["rec"]:
                    s.judge_history(a._state_histories[k], k)
        mon.see([[getattr(a, k) for k in names] for a in actors])
        mon.sample = {"values": [[getattr(a, k) for k in names] for a in actors], "now": env.now}


def gen_task(rng: random.Random) -> Any:
    return {
        "users": [{"start": dy(rng, 0, 40),
                   "legs": [[dy(rng, 1, 32), dy(rng, -16, 16)] for _ in range(rng.randint(1, 4))],
                   "ints": [[dy(rng, 1, 100) + 1 / 16, rng.choice(["END", "IGNORE", "RESTART"])]
                            for _ in range(rng.randint(0, 3))],
                   "explicit": rng.random() < 0.5}
                  for _ in range(rng.randint(2, 4))],
        "reads": sorted(dy(rng, 0, 160) for _ in range(rng.randint(0, 6))),
    }


def run_task(spec: Any, mon: Mon) -> None:
    class Tank(UP.Actor):
        fuel = SharedLinearChangingState(default=50.0, recording=True)

    with UP.EnvironmentContext() as env:
        tank = Tank(name="t")
        s = Sum(mon, env, 50.0)

        class Use(UP.Task):
            k: int
            u: Any

            def task(self, *, actor: Tank) -> TASK_GEN:
                for dt, rate in self.u["legs"]:
                    actor.activate_state(state="fuel", task=self, rate=rate)
                    s.start(self.k, rate)
                    yield UP.Wait(dt)
                    if self.u["explicit"]:
                        actor.deactivate_state(state="fuel", task=self)
                    else:
                        actor.deactivate_all_states(task=self)
                    s.stop(self.k)

            def on_interrupt(self, *, actor: Tank, cause: Any) -> Any:
                mon.hit("interrupts")
                if cause == "IGNORE":
                    return self.INTERRUPT.IGNORE
                if self.k in s.rates:
                    s.stop(self.k)
                return self.INTERRUPT.RESTART if cause == "RESTART" else self.INTERRUPT.END

        def user(k: int, u: Any) -> Any:
            yield env.timeout(u["start"])
            t = Use()
            t.k, t.u = k, u
            p = t.run(actor=tank)
            for at, how in sorted(u["ints"]):
                if at + u["start"] > env.now:
                    yield env.timeout(at + u["start"] - env.now)
                if p.is_alive:
                    p.interrupt(how)
            if p.is_alive:
                yield p

        def watch() -> Any:
            for t in spec["reads"]:
                yield env.timeout(max(0.0, t + 1 / 64 - env.now))
                mon.eq(tank.fuel, s.value(), "value", f"fuel at {env.now}")
                mon.hit("reads")

        for k, u in enumerate(spec["users"]):
            env.process(user(k, u))
        env.process(watch())
        env.run()
        mon.check(not s.rates, "still-active", "a finished or ended task is still counted")
        end = s.value()
        env.run(until=env.now + 4)
        mon.eq(tank.fuel, end, "value", "fuel after every task is over")
        s.judge_history(tank._state_histories["fuel"], "fuel")
        mon.see(end, env.now)


SCENARIOS = [Scenario("direct", gen, run, quick=20000, thorough=560000),
             Scenario("tasks", gen_task, run_task, quick=12000, thorough=280000)]
