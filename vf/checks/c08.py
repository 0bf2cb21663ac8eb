"""C08: an active state belongs to the task that activated it, until that task lets it go."""

from __future__ import annotations

import random
from typing import Any

import upstage_des.api as UP
from upstage_des.state_sharing import SharedLinearChangingState

from ..core import Mon, Scenario
from ..util import TASK_GEN, dy, stage_units

PROPERTY = {
    "title": "An active state is owned by exactly the task that activated it",
    "statement": (
        "While a task holds a non-shared active state, activating it again or stopping it from another "
        "task raises and leaves its motion and owner unchanged. Stopping a task's states, explicitly, "
        "all at once, or because an interrupt ended or restarted it, releases every state that task "
        "holds on that actor and no other, after which any task can activate them."
    ),
    "quantifier": {"over": ["schedules", "histories", "fault_sequences"],
                   "text": "every interleaving of tasks acquiring, releasing and being interrupted"},
    "why_tests_cant": "Tests try one conflicting activation between two tasks.",
    "anchors": {
        "files": ["src/upstage_des/actor.py", "src/upstage_des/task.py"],
        "state": [{"name": "locks", "meaning": "which task holds which active state",
                   "where": "src/upstage_des/actor.py"}],
        "mechanism": [{"name": "Actor._lock_state/_unlock_state, Task._handle_interruption",
                       "where": "src/upstage_des/actor.py"}],
        "observe_at": ["activate_state/deactivate_* errors", "get_active_state_data", "state values"],
    },
    "technique": "ownership-model monitor (lock table) over generated task interleavings",
}

RULE = (
    "A case is two actors with four active states (linear, shared linear, two locations) and a program "
    "of activations and releases by four tasks, or real task processes with interrupts. Non-trivial: "
    "at least one conflicting request was judged; distinct by the sequence of outcomes."
)
REQUIRED = {"conflict": 500, "foreign_release": 300, "released": 500, "interrupt_release": 200,
            "kept": 200}
ASSUMPTIONS = ["Location states are stopped before their path ends."]

STATES = ["lin", "oth", "shr", "loc"]


class Guy(UP.Actor):
    lin = UP.LinearChangingState(default=1.0, recording=True)
    oth = UP.LinearChangingState(default=2.0)
    shr = SharedLinearChangingState(default=3.0)
    loc = UP.CartesianLocationChangingState()
    plain = UP.State[float](default=9.0)


def start_value(s: str) -> Any:
    return {"lin": 1.0, "oth": 2.0, "shr": 3.0, "loc": 0.0}[s]


class Book:
    """Who holds what, and where everything must be."""

    def __init__(self, mon: Mon, env: Any, actors: list[Any]) -> None:
        self.mon, self.env, self.actors = mon, env, actors
        self.own: dict[tuple[int, str], dict[Any, float]] = {}
        self.val: dict[tuple[int, str], tuple[float, float]] = {}
        for i in range(len(actors)):
            for s in STATES:
                self.own[i, s] = {}
                self.val[i, s] = (env.now, start_value(s))

    def now(self, i: int, s: str) -> float:
        t, v = self.val[i, s]
        v += (self.env.now - t) * sum(self.own[i, s].values())
        self.val[i, s] = (self.env.now, v)
        return v

    def read(self, i: int, s: str) -> float:
        v = getattr(self.actors[i], s)
        return v.x if s == "loc" else v

    def judge(self, when: str) -> None:
        for i, a in enumerate(self.actors):
            for s in STATES:
                got, want = self.read(i, s), self.now(i, s)
                self.mon.check(abs(got - want) < 1e-9, "value",
                               lambda: f"{when}: {a.name}.{s} is {got}, expected {want}")
                active = bool(a.get_active_state_data(s))
                self.mon.check(active == bool(self.own[i, s]), "active-flag",
                               lambda: f"{when}: {a.name}.{s} active={active}, owners {self.own[i, s]}")

    def can(self, i: int, s: str, t: Any) -> bool:
        return t not in self.own[i, s] if s == "shr" else not self.own[i, s]

    def activate(self, i: int, s: str, t: Any, rate: float) -> None:
        a = self.actors[i]
        kw: dict[str, Any] = {"rate": rate}
        if s == "loc":
            p = a.loc
            kw = {"speed": rate, "waypoints": [UP.CartesianLocation(p.x + 1e6, 0, 0)]}
        if self.can(i, s, t):
            a.activate_state(state=s, task=t, **kw)
            self.now(i, s)
            self.own[i, s][t] = rate
            self.mon.see(i, s, "got")
        else:
            self.mon.raises(UP.UpstageError, lambda: a.activate_state(state=s, task=t, **kw),
                            "stolen", f"{s} held by {self.own[i, s]}")
            self.mon.hit("conflict")
            self.mon.nontrivial = True
            self.mon.see(i, s, "refused")

    def release(self, i: int, s: str, t: Any) -> None:
        a = self.actors[i]
        if t in self.own[i, s]:
            a.deactivate_state(state=s, task=t)
            self.now(i, s)
            del self.own[i, s][t]
            self.mon.hit("released")
        else:
            self.mon.raises(UP.UpstageError, lambda: a.deactivate_state(state=s, task=t),
                            "foreign-release", f"{s} not held by {t}")
            self.mon.hit("foreign_release")

    def drop_all(self, i: int, t: Any) -> None:
        for s in STATES:
            self.now(i, s)
            self.own[i, s].pop(t, None)

    def held(self, i: int, t: Any) -> list[str]:
        return [s for s in STATES if t in self.own[i, s]]


def gen(rng: random.Random) -> Any:
    ops = []
    for _ in range(rng.randint(5, 30)):
        op = rng.choice(["act"] * 5 + ["rel"] * 3 + ["all", "many", "run", "run", "none"])
        ops.append([op, rng.randrange(2), rng.choice(STATES), rng.randrange(4), dy(rng, 1, 24),
                    rng.sample(STATES, rng.randint(1, 3))])
    return ops


def run(spec: Any, mon: Mon) -> None:
    with UP.EnvironmentContext() as env:
        stage_units()
        actors = [Guy(name=f"g{i}", loc=UP.CartesianLocation(0, 0, 0)) for i in range(2)]
        book = Book(mon, env, actors)
        tasks = [UP.Task() for _ in range(4)]
        for op, i, s, ti, num, many in spec:
            t = tasks[ti]
            if op == "act":
                book.activate(i, s, t, num)
            elif op == "rel":
                book.release(i, s, t)
            elif op == "all":
                actors[i].deactivate_all_states(task=t)
                book.drop_all(i, t)
            elif op == "many":
                mine = [x for x in many if x in book.held(i, t)]
                actors[i].deactivate_states(states=mine[0] if len(mine) == 1 else mine, task=t)
                for x in mine:
                    book.now(i, x)
                    del book.own[i, x][t]
            elif op == "run":
                env.run(until=env.now + num)
            elif op == "none":
                mon.raises(UP.SimulationError, lambda: actors[i].activate_state(
                    state="nothing", task=t, rate=1.0), "unknown-state", "no such state")
            book.judge(f"after {op} {s} by {ti}")
    mon.sample = {"ops": len(spec)}


def gen_task(rng: random.Random) -> Any:
    return [{"start": dy(rng, 0, 24), "who": rng.randrange(2), "other": rng.random() < 0.3,
             "legs": [[dy(rng, 1, 24), rng.sample(STATES, rng.randint(1, 3)), dy(rng, 1, 16),
                       rng.choice(["all", "one", "keep"])] for _ in range(rng.randint(1, 4))],
             "ints": [[dy(rng, 1, 80) + 1 / 16, rng.choice(["END", "IGNORE", "RESTART"])]
                      for _ in range(rng.randint(0, 3))]}
            for _ in range(rng.randint(2, 5))]


def run_task(spec: Any, mon: Mon) -> None:
    with UP.EnvironmentContext() as env:
        stage_units()
        actors = [Guy(name=f"g{i}", loc=UP.CartesianLocation(0, 0, 0)) for i in range(2)]
        book = Book(mon, env, actors)

        class Use(UP.Task):
            u: Any
            i: int

            def task(self, *, actor: Guy) -> TASK_GEN:
                for dt, want, rate, how in self.u["legs"]:
                    for s in want:
                        book.activate(self.i, s, self, rate)
                    if self.u["other"]:
                        # a task may use another actor's states as well
                        book.activate(1 - self.i, want[0], self, rate)
                    yield UP.Wait(dt)
                    book.judge("in task")
                    if how == "one":
                        for s in want:
                            book.release(self.i, s, self)
                    elif how == "all":
                        actor.deactivate_all_states(task=self)
                        book.drop_all(self.i, self)
                    if self.u["other"] and self in book.own[1 - self.i, want[0]]:
                        book.release(1 - self.i, want[0], self)
                actor.deactivate_all_states(task=self)
                book.drop_all(self.i, self)

            def on_interrupt(self, *, actor: Guy, cause: Any) -> Any:
                mine = book.held(self.i, self)
                if self.u["other"]:
                    for s in book.held(1 - self.i, self):
                        book.release(1 - self.i, s, self)
                if cause == "IGNORE":
                    if mine:
                        mon.hit("kept")
                    return self.INTERRUPT.IGNORE
                if mine:
                    mon.hit("interrupt_release")
                book.drop_all(self.i, self)
                return self.INTERRUPT.RESTART if cause == "RESTART" else self.INTERRUPT.END

        def user(u: Any) -> Any:
            yield env.timeout(u["start"])
            t = Use()
            t.u, t.i = u, u["who"]
            p = t.run(actor=actors[t.i])
            for at, how in sorted(u["ints"]):
                if at + u["start"] > env.now:
                    yield env.timeout(at + u["start"] - env.now)
                if p.is_alive:
                    p.interrupt(how)
                    yield env.timeout(1 / 64)
                    book.judge(f"after {how}")
            if p.is_alive:
                yield p
            mon.check(not book.held(t.i, t), "held-after-end", "a task ended holding states")

        for u in spec:
            env.process(user(u))
        env.run()
        book.judge("end")
        mon.sample = {"end": env.now}


SCENARIOS = [Scenario("direct", gen, run, quick=10000, thorough=236000),
             Scenario("tasks", gen_task, run_task, quick=6000, thorough=118000)]
