"""C01: environment contexts are isolated, nest, and are restored on every way out."""

from __future__ import annotations

import random
import threading
from typing import Any

import upstage_des.api as UP
from upstage_des.base import clear_top_context, create_top_context
from upstage_des.data_utils import record_data

from ..core import Mon, Scenario
from ..util import dy

PROPERTY = {
    "title": "Environment contexts isolate their simulation state and always restore",
    "statement": (
        "Everything created, recorded or set while an environment context is entered (clock, actors, "
        "entity groups, monitored resources, stage variables, recorded data) is visible only through "
        "that context, and stage variables are write-once within it. Leaving a context, normally or "
        "by an exception, makes exactly the enclosing context current again, and outside of every "
        "context access raises instead of returning stale data. Contexts of different threads never "
        "see each other, whatever the interleaving of their steps."
    ),
    "quantifier": {"over": ["programs", "schedules", "fault_sequences"],
                   "text": "every nesting of contexts, way of leaving them, thread and interleaving"},
    "why_tests_cant": "Tests enter one context, or two in sequence, in one thread, and leave normally.",
    "anchors": {
        "files": ["src/upstage_des/base.py", "src/upstage_des/data_utils/data_recorder.py"],
        "mechanism": [{"name": "EnvironmentContext.__enter__/__exit__ and the context variables",
                       "where": "src/upstage_des/base.py"}],
        "observe_at": ["UpstageBase.env/.stage/get_actors/get_entity_group/get_monitored/get_recorded"],
    },
    "technique": "online reference-model monitor over generated context programs and thread schedules",
}

RULE = (
    "A case is a program of context entries, exits (normal, by exception, through "
    "create_top_context/clear_top_context), stage variable writes, actor/entity creation, recorded "
    "data and clock runs, in one thread or in several threads advanced in a generated order. "
    "Non-trivial: at least two contexts existed; distinct by the observed sequence of depths, ops "
    "and outcomes."
)
REQUIRED = {"nested": 50, "exit_by_exception": 20, "threads_checked": 20, "no_context": 20}
ASSUMPTIONS = ["Contexts are left in the order opposite to entry, as `with` statements do."]

OPS = ["actor", "entity", "var", "dup", "badget", "run", "record", "rand", "monitored"]


class Thing(UP.NamedUpstageEntity, entity_groups=["things"]):
    def __init__(self, name: str) -> None:
        super().__init__()
        self.name = name


class Guy(UP.Actor, entity_groups=["guys", "things"]):
    n = UP.State[int](default=0, recording=True)


ERRORS = [KeyError, UP.SimulationError, KeyboardInterrupt, SystemExit, UP.UpstageError, GeneratorExit, ValueError,
          StopIteration]


class Probe(UP.UpstageBase):
    pass


def gen_ops(rng: random.Random, n: int) -> list[Any]:
    ops: list[Any] = []
    depth = 0
    for _ in range(n):
        r = rng.random()
        if depth == 0 or (r < 0.18 and depth < 4):
            how = rng.choice(["with", "with", "top"])
            seed = rng.choice([None, 0, rng.randint(0, 999), rng.randint(0, 999)])
            own = rng.random() < 0.2
            ops.append(["enter", how, dy(rng, 0, 80), seed, own])
            depth += 1
        elif r < 0.32:
            ops.append(["exit", rng.choice(["normal", "exception"])])
            depth -= 1
        else:
            op = rng.choice(OPS)
            ops.append([op, rng.choice("abcd"), rng.randint(0, 9), dy(rng, 1, 24)])
    ops += [["exit", "normal"]] * depth
    return ops


class Model:
    def __init__(self, t0: float, seed: Any, gen: Any, env: Any) -> None:
        self.now = t0
        self.env = env
        self.rand = random.Random(seed) if seed is not None else None
        self.gen = gen
        self.vars: dict[str, Any] = {}
        self.actors: list[Any] = []
        self.things: list[Any] = []
        self.guys: list[Any] = []
        self.thing_cls: list[Any] = []
        self.mon: list[Any] = []
        self.rec: list[Any] = []


class OddRandom(random.Random):
    """A generator of the user's, false as a truth value."""

    def __bool__(self) -> bool:
        return False


class Program:
    """Interprets the ops against the real library with a model stack beside it."""

    def __init__(self, ops: list[Any], mon: Mon, tag: str) -> None:
        self.ops, self.mon, self.tag = ops, mon, tag
        self.stack: list[tuple[Any, Model]] = []
        self.envs: list[Any] = []
        self.n = 0
        self.reuse: Any = None

    def same(self, got: list[Any], want: list[Any], key: str) -> None:
        ok = len(got) == len(want) and all(a is b for a, b in zip(got, want))
        self.mon.check(ok, key, lambda: f"{self.tag}: observed {got}, expected {want}")

    def observe(self) -> None:
        mon = self.mon
        if not self.stack:
            mon.hit("no_context")
            p = Probe.__new__(Probe)
            mon.raises(UP.UpstageError, lambda: p.env, "env-outside", "env outside any context")
            mon.raises(UP.UpstageError, lambda: p.stage, "stage-outside", "stage outside")
            mon.raises(UP.UpstageError, p.get_actors, "actors-outside", "get_actors outside")
            mon.raises(UP.UpstageError, p.get_monitored, "monitored-outside", "get_monitored")
            mon.raises(UP.UpstageError, p.get_recorded, "recorded-outside", "get_recorded")
            mon.raises(UP.UpstageError, lambda: p.get_entity_group("things"), "group-outside")
            mon.raises(ValueError, UP.get_stage, "get_stage-outside", "get_stage outside")
            mon.raises(ValueError, lambda: UP.get_stage_variable("a"), "get-outside", "")
            mon.raises(ValueError, lambda: UP.add_stage_variable("a", 1), "add-outside", "")
            return
        m = self.stack[-1][1]
        p = Probe()
        mon.check(p.env is m.env, "env-identity", lambda: f"{self.tag}: wrong environment")
        mon.eq(p.env.now, m.now, "clock", f"{self.tag} clock")
        self.same(p.get_actors(), m.actors, "actors")
        self.same(p.get_entity_group("things"), m.things, "group-things")
        self.same(p.get_entity_group("guys"), m.guys, "group-guys")
        self.same(p.get_entity_group("Thing"), m.thing_cls, "group-Thing")
        self.same(p.get_entity_group("nobody"), [], "group-unknown")
        self.same(p.get_monitored(), m.mon, "monitored")
        mon.eq(p.get_recorded(), m.rec, "recorded", self.tag)
        st = UP.get_stage()
        mon.check(st is p.stage, "stage-identity", "get_stage() and .stage differ")
        got = {k: v for k, v in st.items() if k != "random"}
        mon.eq(got, m.vars, "stage-vars", self.tag)
        if m.gen is not None:
            mon.check(st.random is m.gen, "stage-rng", "the given generator is not the stage's")
        if len(self.stack) > 1:
            mon.hit("nested")

    def step(self) -> None:
        op = self.ops[self.n]
        self.n += 1
        mon = self.mon
        kind = op[0]
        if kind == "enter":
            _, how, t0, seed, own = op
            gen = (random.Random if seed else OddRandom)(5) if own else None
            kw: dict[str, Any] = dict(initial_time=t0, random_seed=seed)
            if own:
                kw["random_gen"] = gen
            if how == "top":
                ctx = create_top_context(**kw)
                env = Probe().env
            else:
                ctx = UP.EnvironmentContext(**kw)
                env = ctx.__enter__()
            mon.check(all(env is not e for e in self.envs), "env-fresh", "environment reused")
            self.envs.append(env)
            self.stack.append(((how, ctx), Model(t0, None if own else seed, gen, env)))
            mon.see("enter", how, len(self.stack))
            if len(self.envs) > 1:
                mon.nontrivial = True
        elif kind == "exit":
            (how, ctx), m = self.stack.pop()
            if how == "top":
                clear_top_context(ctx)
            elif op[1] == "exception":
                mon.hit("exit_by_exception")
                cls = ERRORS[len(self.stack) + self.n & 7]
                err = cls("planned")
                swallowed = ctx.__exit__(cls, err, None)
                mon.check(not swallowed, "exception-swallowed", "the context ate an exception")
            else:
                ctx.__exit__(None, None, None)
            mon.see("exit", op[1], len(self.stack))
        else:
            m = self.stack[-1][1]
            _, name, val, dt = op
            tag = f"{self.tag}{self.n}"
            if kind == "actor":
                g = Guy(name=tag)
                m.actors.append(g)
                m.guys.append(g)
                m.things.append(g)
                mon.check(g.env is m.env, "actor-env", "actor sees another environment")
                mon.eq(g._state_histories["n"], [(m.now, 0)], "actor-history", "first record")
            elif kind == "entity":
                t = Thing(tag)
                m.things.append(t)
                m.thing_cls.append(t)
            elif kind == "var" or kind == "dup":
                if name in m.vars:
                    mon.raises(UP.UpstageError, lambda: UP.add_stage_variable(name, val),
                               "stage-rewrite", f"adding {name} again")
                    mon.raises(AttributeError, lambda: setattr(UP.get_stage(), name, val),
                               "stage-reassign", f"assigning {name} again")
                    mon.see("dup", name)
                else:
                    UP.add_stage_variable(name, val)
                    m.vars[name] = val
                    mon.eq(UP.get_stage_variable(name), val, "stage-read", name)
                    mon.eq(getattr(Probe().stage, name), val, "stage-attr", name)
            elif kind == "badget":
                if name not in m.vars:
                    mon.raises(UP.UpstageError, lambda: UP.get_stage_variable(name),
                               "stage-missing", name)
                    mon.raises(AttributeError, lambda: getattr(UP.get_stage(), name),
                               "stage-missing-attr", name)
            elif kind == "run":
                m.env.run(until=m.env.now + dt)
                m.now += dt
            elif kind == "record":
                record_data((tag, val))
                m.rec.append((m.now, (tag, val)))
            elif kind == "rand":
                if m.rand is not None:
                    mon.hit("seeded_draws")
                    mon.eq(UP.get_stage().random.random(), m.rand.random(), "seeded-rng", "draw")
            elif kind == "monitored":
                m.mon.append(UP.SelfMonitoringStore(m.env, name=tag))
            mon.see(kind, len(self.stack))
        self.observe()


def gen_single(rng: random.Random) -> Any:
    return gen_ops(rng, rng.randint(6, 40))


def run_single(spec: Any, mon: Mon) -> None:
    p = Program(spec, mon, "t")
    p.observe()
    while p.n < len(p.ops):
        p.step()
    mon.sample = {"contexts": len(p.envs)}


def gen_threads(rng: random.Random) -> Any:
    k = rng.randint(2, 4)
    progs = [gen_ops(rng, rng.randint(5, 18)) for _ in range(k)]
    order = [i for i, p in enumerate(progs) for _ in p]
    rng.shuffle(order)
    return {"progs": progs, "order": order, "outer": rng.random() < 0.5}


def run_threads(spec: Any, mon: Mon) -> None:
    progs = [Program(p, mon, f"th{i}-") for i, p in enumerate(spec["progs"])]
    turn = threading.Condition()
    state: dict[str, Any] = {"cur": None, "done": False, "err": None}

    def body(i: int) -> None:
        while True:
            with turn:
                turn.wait_for(lambda: state["cur"] == i or state["done"])
                if state["done"]:
                    return
                try:
                    progs[i].step()
                except BaseException as e:  # handed to the main thread
                    state["err"] = e
                state["cur"] = None
                turn.notify_all()

    def drive() -> None:
        ths = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(progs))]
        for t in ths:
            t.start()
        try:
            for i in spec["order"]:
                with turn:
                    state["cur"] = i
                    turn.notify_all()
                    turn.wait_for(lambda: state["cur"] is None)
                if state["err"] is not None:
                    raise state["err"]
                mon.hit("threads_checked")
        finally:
            with turn:
                state["done"] = True
                turn.notify_all()
            for t in ths:
                t.join()

    if spec["outer"]:
        # a context of the main thread is not seen by, and not changed by, the others
        with UP.EnvironmentContext(initial_time=3.0) as env:
            UP.add_stage_variable("a", "outer")
            g = Guy(name="outer")
            drive()
            p = Probe()
            mon.check(p.env is env and env.now == 3.0, "outer-env", "outer context changed")
            mon.check(p.get_actors() == [g], "outer-actors", "outer actors changed")
            mon.eq(UP.get_stage_variable("a"), "outer", "outer-stage", "")
    else:
        drive()
    mon.nontrivial = True


def gen_with(rng: random.Random) -> Any:
    return {"depth": rng.randint(1, 5), "fail_at": rng.randint(0, 5),
            "where": rng.choice(["body", "process", "task"]), "t": dy(rng), "error": rng.randrange(5)}


class Boom(Exception):
    pass


class BoomSim(UP.SimulationError):
    pass


class BoomKey(KeyboardInterrupt):
    pass


class BoomExit(SystemExit):
    pass


class BoomBase(BaseException):
    pass


BOOMS = (Boom, BoomSim, BoomKey, BoomExit, BoomBase)


def run_with(spec: Any, mon: Mon) -> None:
    """Real `with` statements left by exceptions raised in code, processes and tasks."""
    seen: list[Any] = []
    kind = BOOMS[spec["error"]]

    class Fail(UP.Task):
        def task(self, *, actor: UP.Actor) -> Any:
            yield UP.Wait(spec["t"])
            raise kind("task")

    def nest(d: int) -> None:
        before = Probe().env if d else None
        try:
            with UP.EnvironmentContext(initial_time=float(d)) as env:
                UP.add_stage_variable("level", d)
                a = Guy(name=f"g{d}")
                if d == spec["fail_at"]:
                    if spec["where"] == "body":
                        raise kind("body")
                    if spec["where"] == "task":
                        Fail().run(actor=a)
                    else:
                        def proc() -> Any:
                            yield env.timeout(spec["t"])
                            raise kind("proc")
                        env.process(proc())
                    env.run()
                    mon.fail("exception-lost", "the failure of a process did not reach run()")
                if d < spec["depth"]:
                    nest(d + 1)
                    mon.check(Probe().env is env, "restored", "outer environment not restored")
                    mon.eq(UP.get_stage_variable("level"), d, "restored-stage", "level")
                    mon.eq(Probe().get_actors(), [a], "restored-actors", "actors")
        except BOOMS:
            seen.append(d)
            mon.hit("exit_by_exception")
            if d:
                mon.check(Probe().env is before, "restored-after-exception",
                          "outer environment not restored after an exception")
                mon.eq(UP.get_stage_variable("level"), d - 1, "restored-stage", "level")
                mon.hit("nested")

    nest(0)
    p = Probe.__new__(Probe)
    mon.raises(UP.UpstageError, lambda: p.env, "env-outside", "env after the outermost exit")
    mon.see(spec["depth"], spec["fail_at"], spec["where"], seen)
    mon.nontrivial = bool(seen) and spec["depth"] > 0
    mon.eq(seen, [spec["fail_at"]] if spec["fail_at"] <= spec["depth"] else [], "where-caught", "")


SCENARIOS = [
    Scenario("single", gen_single, run_single, quick=4800, thorough=300000),
    Scenario("threads", gen_threads, run_threads, quick=960, thorough=40000),
    Scenario("with", gen_with, run_with, quick=960, thorough=20000),
]
