"""C13: interrupting a task ends, restarts or ignores, and leaves nothing behind."""

import random
import warnings
from typing import Any

import simpy as SIM
import upstage_des.api as UP

from ..core import Mon, Scenario
from ..util import TASK_GEN, dy

PROPERTY = {
    "title": "Interrupts end, restart or are ignored, and leave nothing behind",
    "statement": (
        "An interrupted task asks on_interrupt, with the cause (without one the marker's action, or END, decides), "
        "and then ends, starts over, or goes on waiting as if nothing happened. On END and RESTART all it waited "
        "for is cancelled: no queued request remains, its knowledge event is cleared, its active states stop at "
        "that instant, its routine's cancel() runs and a process it waited for gets the same interrupt. No item is "
        "lost or duplicated by an interrupt."
    ),
    "quantifier": {"over": ["schedules", "histories", "inputs"],
                   "text": "every set of concurrent tasks, every awaited event, and every time and number of interrupts"},
    "why_tests_cant": "An interrupt can hit any wait at any time, in any combination with the other tasks' requests.",
    "anchors": {
        "files": ["src/upstage_des/task.py", "src/upstage_des/events.py", "src/upstage_des/routines.py"],
        "mechanism": [{"name": "Task.run, Task._handle_interruption, BaseEvent.cancel, Routine._run_cancel",
                       "where": "src/upstage_des/task.py"}],
        "observe_at": ["event logs of the tasks", "store contents and queues", "states and knowledge"],
    },
    "technique": "differential event-log monitor with injected interrupts, against raw SimPy processes with explicit clean-up; item conservation",
}
RULE = (
    "A case is one to four concurrent task programs (waits, gets, puts, holds, events, knowledge events, Any/All, "
    "routines, processes, linear states) with one to ten interrupts at times between other events, decided END, "
    "RESTART or IGNORE; run as tasks and as raw SimPy. Non-trivial: an interrupt was delivered; distinct by log."
)
REQUIRED = {"END": 1500, "RESTART": 1500, "IGNORE": 1500, "by_marker": 500, "routine_cancel": 300,
            "proc_interrupted": 100, "knowledge_cleared": 100, "state_stopped": 200, "in_get": 300, "in_any": 300,
            "in_all": 100, "in_hold": 50, "conserved": 300, "bad_action": 50,
            "aliases": 500, "instant_holds": 300}
ASSUMPTIONS = [
    "SimPy is the reference for scheduling.",
    "Interrupts never fall on the instant at which an awaited request was granted, see the known finding.",
]

KINDS = ["wait", "put", "get", "get", "fget", "cget", "cput", "hold", "event", "kev", "any", "any", "all",
         "routine", "routine", "proc", "lin", "mark", "clear"]
SIMPLE = ["wait", "get", "fget", "event", "cget", "get"]
ACTS = ["END", "RESTART", "IGNORE"]


def gen_sub(rng: random.Random) -> Any:
    return [rng.choice(SIMPLE), dy(rng, 0, 24, 4), rng.randint(0, 5)]


def gen_op(rng: random.Random, depth: int) -> Any:
    k = rng.choice(KINDS)
    if k == "proc" and depth:
        k = "lin"  # routines take no processes
    if k in ("any", "all"):
        subs = [gen_sub(rng) for _ in range(rng.randint(1, 3))]
        subs.append(["wait", dy(rng, 1, 24, 4)])
        if rng.random() < 0.25:
            subs.append([rng.choice(["any", "all"]), [gen_sub(rng), ["wait", dy(rng, 1, 24, 4)]]])
        return [k, subs]
    if k == "routine":
        if depth:
            return ["wait", dy(rng, 1, 8, 4)]
        return [k, [gen_op(rng, 1) for _ in range(rng.randint(1, 4))], rng.randint(0, 2)]
    if k == "mark":
        return [k, rng.choice(["m", "n"]), rng.choice(ACTS)]
    return [k, dy(rng, 1, 20, 4), rng.randint(0, 5)]


def gen(rng: random.Random) -> Any:
    n = rng.randint(1, 4)
    ints = []
    used: dict[int, int] = {}
    for j in range(rng.randint(1, 10)):
        # time: a quarter grid plus an offset of its own, so that it meets no other event's time
        at = rng.randint(0, 60) / 4 + (j + 1) / 64
        ints.append([at, rng.randrange(n), rng.choice(ACTS + ["IGNORE"]), rng.choice([None, 0, "why", {"a": 1}])])
    ints.sort(key=lambda x: x[0])
    return {"progs": [[gen_op(rng, 0) for _ in range(rng.randint(1, 7))] for _ in range(n)],
            "own": [rng.random() < 0.7 for _ in range(n)],
            "cap": [rng.randint(1, 3), rng.choice([4, 20]), rng.randint(1, 2)],
            "fill": [rng.randint(0, 5) for _ in range(rng.randint(0, 3))],
            "help": [[dy(rng, 1, 8, 4), rng.choice(["put", "put", "fput", "take", "cput", "fire", "fire", "kfire"]),
                      rng.randint(0, 5)] for _ in range(rng.randint(0, 14))],
            "ints": ints, "t0": dy(rng, 0, 16, 4)}


class World:
    def __init__(self, env: Any, spec: Any) -> None:
        self.env = env
        self.log: list[Any] = []
        self.store = SIM.Store(env, capacity=spec["cap"][0])
        self.fstore = SIM.FilterStore(env)
        self.fstore.items.extend((x, "fill", i) for i, x in enumerate(spec["fill"]))
        self.back = SIM.Store(env)
        self.cont = SIM.Container(env, capacity=spec["cap"][1], init=2)
        self.res = SIM.Resource(env, capacity=spec["cap"][2])
        self.made = [*self.fstore.items]
        self.put_events: list[Any] = []
        self.got: list[Any] = []
        self.count = 0
        n = len(spec["progs"])
        self.waiting: list[list[Any]] = [[] for _ in range(n)]  # events the helper can fire
        self.decision: list[str] = ["END"] * n

    def token(self, kind: int) -> Any:
        self.count += 1
        t = (kind, "token", self.count)
        self.made.append(t)
        return t

    def note(self, who: Any, *what: Any) -> None:
        self.log.append((self.env.now, who, *what))

    def summary(self) -> Any:
        return [list(self.store.items), list(self.fstore.items), list(self.back.items), self.cont.level,
                self.res.count, len(self.res.queue), len(self.store.get_queue), len(self.store.put_queue),
                len(self.cont.get_queue), len(self.cont.put_queue), len(self.fstore.get_queue)]


def inner(w: World, who: int, dt: float) -> Any:
    try:
        yield w.env.timeout(dt)
        w.note(who, "inner-done")
        return dt + 1
    except SIM.Interrupt as e:
        w.note(who, "inner-interrupted", e.cause)
        return -1


def helper(w: World, spec: Any, fire: Any, kfire: Any) -> Any:
    for dt, k, n in spec["help"]:
        yield w.env.timeout(dt)
        if k == "put" and len(w.store.items) < w.store.capacity and not w.store.put_queue:
            w.store.put(w.token(n))
        elif k == "fput":
            w.fstore.put(w.token(n))
        elif k == "take" and w.store.items and not w.store.get_queue:
            got = yield w.store.get()
            w.note("helper", got)
            w.got.append(got)
        elif k == "cput":
            w.cont.put(1 + n / 4)
        elif k == "fire":
            who = n % len(w.waiting)
            if w.waiting[who]:
                fire(w.waiting[who].pop(0), dt)
        elif k == "kfire":
            kfire(n % len(w.waiting), dt)


def interrupter(w: World, spec: Any, procs: Any, mon: Mon | None) -> Any:
    for at, who, act, cause in spec["ints"]:
        yield w.env.timeout(spec["t0"] + at - w.env.now)
        if procs[who].is_alive:
            w.decision[who] = act
            procs[who].interrupt(cause=cause)


def par(n: int) -> Any:
    return lambda x: x[0] % 2 == n % 2


# ---- UPSTAGE side -----------------------------------------------------------------------------


def up_event(w: World, who: int, op: Any) -> Any:
    k = op[0]
    if k == "wait":
        return UP.Wait(op[1])
    if k == "get":
        return UP.Get(w.store)
    if k == "fget":
        return UP.FilterGet(w.fstore, par(op[2]))
    if k == "put":
        return UP.Put(w.store if op[1] < 2.5 else w.fstore, w.token(op[2]))
    if k == "cget":
        return UP.Get(w.cont, op[1] + 0.25)
    if k == "cput":
        return UP.Put(w.cont, op[1] + 0.25)
    if k == "event":
        e = UP.Event()
        w.waiting[who].append(e)
        return e
    return (UP.Any if k == "any" else UP.All)(*[up_event(w, who, o) for o in op[1]])


def up_settle(w: World, who: int, subs: Any, events: Any) -> None:
    for o, e in zip(subs, events):
        if o[0] in ("any", "all"):
            up_settle(w, who, o[1], e.events)
            continue
        done = e.is_complete()
        w.note(who, o[0], done)
        if done and o[0] in ("get", "fget"):
            w.got.append(e.get_value())
            w.note(who, "value", e.get_value())
        if not done and o[0] in ("get", "fget", "cget"):
            e.cancel()


def up_prog(w: World, who: int, prog: Any, actor: Any, task: Any, mon: Mon, at: list) -> Any:
    for op in prog:
        k = op[0]
        at[0] = k
        if k in ("any", "all"):
            e = up_event(w, who, op)
            yield e
            w.note(who, k)
            up_settle(w, who, op[1], e.events)
        elif k == "hold":
            h = UP.ResourceHold(w.res)
            yield h
            w.note(who, "held", w.res.count)
            at[0] = "held"
            yield UP.Wait(op[1])
            yield h
            w.note(who, "released", w.res.count)
        elif k == "routine":
            class Sub(UP.Routine):
                def run(self) -> Any:
                    yield from up_prog(w, who, op[1], actor, task, mon, at)
                    return op[2]

                def cancel(self) -> Any:
                    w.note(who, "cancel")
                    mon.hit("routine_cancel")
                    for i in range(op[2]):
                        yield UP.Put(w.back, (who, "back", i))
                        w.note(who, "cancel-put")

            got = yield Sub()
            w.note(who, "routine", got)
        elif k == "proc":
            got = yield w.env.process(inner(w, who, op[1]))
            w.note(who, k, got)
        elif k == "lin":
            actor.activate_linear_state(state="fuel", rate=op[2] / 4, task=task)
            yield UP.Wait(op[1])
            actor.deactivate_state(state="fuel", task=task)
            w.note(who, k, actor.fuel)
        elif k == "kev":
            e = actor.create_knowledge_event(name="k")
            yield e
            w.note(who, k, e.get_payload())
        elif k == "mark":
            task.set_marker(op[1], getattr(UP.InterruptStates, op[2]))
        elif k == "clear":
            task.clear_marker()
        else:
            e = up_event(w, who, op)
            got = yield e
            if k == "event":
                got = e.get_payload()
            elif k in ("get", "fget"):
                w.got.append(got)
            w.note(who, k, got)


# ---- raw side -----------------------------------------------------------------------------


class Raw:
    """One raw SimPy process and what it has to remember to clean up after an interrupt."""

    def __init__(self, w: World, who: int, spec: Any) -> None:
        self.w, self.who = w, who
        self.prog = spec["progs"][who]
        self.own = spec["own"][who]
        self.marker: Any = (None, None, "END")
        self.fuel = 0.0
        self.lin: Any = None
        self.routines: list[Any] = []
        self.kev: Any = None

    def event(self, op: Any) -> Any:
        w, k = self.w, op[0]
        if k == "wait":
            return w.env.timeout(op[1])
        if k == "get":
            return w.store.get()
        if k == "fget":
            return w.fstore.get(par(op[2]))
        if k == "put":
            return (w.store if op[1] < 2.5 else w.fstore).put(w.token(op[2]))
        if k == "cget":
            return w.cont.get(op[1] + 0.25)
        if k == "cput":
            return w.cont.put(op[1] + 0.25)
        if k == "event":
            e = w.env.event()
            w.waiting[self.who].append(e)
            return e
        subs = [self.event(o) for o in op[1]]
        cond = (SIM.AnyOf if k == "any" else SIM.AllOf)(w.env, subs)
        cond.subs = subs
        return cond

    def cancel(self, e: Any) -> None:
        if hasattr(e, "subs"):
            for s in e.subs:
                self.cancel(s)
        elif isinstance(e, SIM.Process):
            pass
        elif hasattr(e, "cancel") and not e.triggered:
            e.cancel()

    def settle(self, subs: Any, events: Any) -> None:
        for o, e in zip(subs, events):
            if o[0] in ("any", "all"):
                self.settle(o[1], e.subs)
                continue
            self.w.note(self.who, o[0], e.processed)
            if e.processed and o[0] in ("get", "fget"):
                self.w.got.append(e.value)
                self.w.note(self.who, "value", e.value)
            if not e.processed and o[0] in ("get", "fget", "cget"):
                e.cancel()

    def run(self, prog: Any) -> Any:
        w, who, env = self.w, self.who, self.w.env
        for op in prog:
            k = op[0]
            if k in ("any", "all"):
                e = self.event(op)
                yield e
                w.note(who, k)
                self.settle(op[1], e.subs)
            elif k == "hold":
                req = w.res.request()
                yield req
                w.note(who, "held", w.res.count)
                yield env.timeout(op[1])
                yield w.res.release(req)
                w.note(who, "released", w.res.count)
            elif k == "routine":
                self.routines.append(op)
                yield from self.run(op[1])
                self.routines.pop()
                w.note(who, "routine", op[2])
            elif k == "proc":
                got = yield env.process(inner(w, who, op[1]))
                w.note(who, k, got)
            elif k == "lin":
                self.lin = (env.now, op[2] / 4)
                yield env.timeout(op[1])
                self.stop_lin()
                w.note(who, k, self.fuel)
            elif k == "kev":
                self.kev = e = env.event()
                got = yield e
                w.note(who, k, got)
            elif k == "mark":
                self.marker = (op[1], env.now, op[2])
            elif k == "clear":
                self.marker = (None, None, "END")
            else:
                got = yield self.event(op)
                if k in ("get", "fget"):
                    w.got.append(got)
                w.note(who, k, got)

    def stop_lin(self) -> None:
        if self.lin is not None:
            self.fuel += (self.w.env.now - self.lin[0]) * self.lin[1]
            self.lin = None

    def main(self) -> Any:
        w, who = self.w, self.who
        while True:
            w.note(who, "start")
            gen = self.run(self.prog)
            val: Any = None
            action = "DONE"
            ev: Any = None
            ignoring = False
            while True:
                if not ignoring:
                    try:
                        ev = gen.send(val)
                    except StopIteration:
                        break
                ignoring = False
                try:
                    val = yield ev
                except SIM.Interrupt as i:
                    action = w.decision[who] if self.own else self.marker[2]
                    if self.own:
                        w.note(who, "interrupt", i.cause, *self.marker[:2], self.kev is not None)
                    if action == "IGNORE":
                        ignoring = True
                        continue
                    self.stop_lin()
                    self.kev = None
                    if isinstance(ev, SIM.Process):
                        ev.interrupt(cause=i.cause)
                    else:
                        self.cancel(ev)
                    while self.routines:
                        op = self.routines.pop()
                        w.note(who, "cancel")
                        for n in range(op[2]):
                            yield w.back.put((who, "back", n))
                            w.note(who, "cancel-put")
                    break
            if action == "DONE" or action == "END" or action == "IGNORE":
                break
        w.note(who, "end")


def run(spec: Any, mon: Mon) -> None:
    renv = SIM.Environment(initial_time=spec["t0"])
    raw = World(renv, spec)
    workers = [Raw(raw, i, spec) for i in range(len(spec["progs"]))]

    def rfire(e: Any, x: float) -> None:
        if not e.triggered:
            e.succeed({"x": x})

    def rkfire(i: int, x: float) -> None:
        e = workers[i].kev
        if e is not None:
            workers[i].kev = None
            e.succeed({"y": x})

    rprocs = [renv.process(k.main()) for k in workers]
    renv.process(helper(raw, spec, rfire, rkfire))
    renv.process(interrupter(raw, spec, rprocs, None))
    renv.run()

    with warnings.catch_warnings(), UP.EnvironmentContext(initial_time=spec["t0"]) as env:
        warnings.simplefilter("ignore")
        w = World(env, spec)

        class Worker(UP.Actor):
            fuel = UP.LinearChangingState(default=0.0)

        class Base(UP.Task):
            def task(self, *, actor: Worker) -> TASK_GEN:
                i = int(actor.name)
                w.note(i, "start")
                yield from up_prog(w, i, spec["progs"][i], actor, self, mon, at[i])

        class Own(Base):
            def on_interrupt(self, *, actor: Worker, cause: Any) -> UP.InterruptStates:
                i = int(actor.name)
                know = actor.get_knowledge("k") is not None
                w.note(i, "interrupt", cause, self.get_marker(), self.get_marker_time(), know)
                act = w.decision[i]
                mon.hit(act)
                mon.hit(f"in_{at[i][0]}")
                if act != "IGNORE":
                    mon.hit("knowledge_cleared", int(at[i][0] == "kev" and know))
                    mon.hit("state_stopped", int(at[i][0] == "lin"))
                    mon.hit("proc_interrupted", int(at[i][0] == "proc"))
                return getattr(self.INTERRUPT, act)

        at: list[list[Any]] = [[None] for _ in spec["progs"]]
        actors, procs = [], []

        def top(i: int, p: Any) -> Any:
            yield p
            w.note(i, "end")

        for i, own in enumerate(spec["own"]):
            actors.append(Worker(name=str(i)))
            procs.append((Own if own else Base)().run(actor=actors[-1]))
            procs[-1].callbacks.append(lambda e, i=i: w.note(i, "end"))

        def fire(e: Any, x: float) -> None:
            if not e.as_event().triggered:
                e.succeed(x=x)

        def kfire(i: int, x: float) -> None:
            if actors[i].get_knowledge("k") is not None:
                actors[i].succeed_knowledge_event(name="k", y=x)

        env.process(helper(w, spec, fire, kfire))
        env.process(interrupter(w, spec, procs, mon))
        env.run()
        rlog = [x for x in raw.log if x[2] != "end"]
        ulog = [x for x in w.log if x[2] != "end"]
        for n, (a, b) in enumerate(zip(ulog, rlog)):
            mon.check(a == b, "log", lambda: f"entry {n}: observed {a}, expected {b}; before {ulog[max(0, n - 3):n]}")
        mon.eq(len(ulog), len(rlog), "log-length", f"{ulog[-2:]} vs {rlog[-2:]}")
        mon.eq(sorted(x for x in w.log if x[2] == "end"), sorted(x for x in raw.log if x[2] == "end"),
               "ends", "when the tasks ended")
        mon.eq(w.summary(), raw.summary(), "resources", "contents, levels and queues")
        for i, a in enumerate(actors):
            mon.eq(a.fuel, workers[i].fuel, "active-state", f"fuel of task {i}")
            mon.eq(a.get_knowledge("k") is not None, workers[i].kev is not None, "knowledge-event", f"task {i}")
        mon.hit("by_marker", sum(1 for i, k in enumerate(spec["own"]) if not k))
        kinds = {o[0] for p in spec["progs"] for o in p}
        kinds |= {o[0] for p in spec["progs"] for q in p if q[0] == "routine" for o in q[1]}
        if not kinds & {"any", "all"}:
            # every token is in exactly one place: a store, a getter's hands, or a put that never happened
            places = [*w.store.items, *w.fstore.items, *w.got]
            mon.eq(len(set(places)), len(places), "duplicated", f"{sorted(map(str, places))}")
            if "put" not in kinds:
                mon.eq(sorted(map(str, places)), sorted(map(str, w.made)), "conservation", "items")
                mon.hit("conserved")
        mon.nontrivial = any(x[2] in ("interrupt", "inner-interrupted", "cancel") for x in w.log)
        mon.see(w.log)
        mon.sample = {"log": [list(x) for x in w.log[:8]], "end": env.now}


def gen_bad(rng: random.Random) -> Any:
    return {"ret": rng.choice([None, 3, 7, "x"]), "at": dy(rng, 0, 16) + 1 / 64, "how": rng.choice(["wait", "get"])}


def run_bad(spec: Any, mon: Mon) -> None:
    """An on_interrupt that does not say what to do is an error, whatever the task waits for."""
    with UP.EnvironmentContext() as env:
        store = SIM.Store(env)

        class T(UP.Task):
            def task(self, *, actor: UP.Actor) -> TASK_GEN:
                yield UP.Wait(100.0) if spec["how"] == "wait" else UP.Get(store)

            def on_interrupt(self, *, actor: UP.Actor, cause: Any) -> Any:
                return spec["ret"]

        p = T().run(actor=UP.Actor(name="a"))
        env.run(until=spec["at"])
        p.interrupt()
        mon.raises(UP.SimulationError, env.run, "bad-action", f"on_interrupt returned {spec['ret']!r}")
        mon.hit("bad_action")
        mon.nontrivial = True
        mon.see(spec)

        class End(UP.TerminalTask):
            pass

        p = End().run(actor=UP.Actor(name="b"))
        env.run(until=env.now + 1)
        p.interrupt(cause="x")
        mon.raises(UP.SimulationError, env.run, "terminal", "interrupting a terminal task")


def gen_left(rng: random.Random) -> Any:
    return {"names": rng.sample(["e", "f", "g", "h"], rng.randint(1, 4)), "facts": rng.randint(0, 3),
            "act": rng.choice(["END", "RESTART"]), "wrap": rng.choice(["", "", "any", "all", "any-any"]),
            "others": rng.randint(0, 2), "cap": rng.randint(1, 3), "late": dy(rng, 0, 4, 4),
            "kind": rng.choice(["res", "prio", "pre"]), "times": rng.randint(1, 3)}


def run_left(spec: Any, mon: Mon) -> None:
    """Knowledge events with several names, and holds granted at the instant of the interrupt."""
    with UP.EnvironmentContext() as env:
        class Keep(UP.Task):
            def task(self, *, actor: UP.Actor) -> TASK_GEN:
                if spec["act"] == "RESTART" and actor.get_knowledge("again"):
                    return
                actor.set_knowledge("again", True)
                evt = actor.create_knowledge_event(name="main")
                for n in spec["names"]:
                    actor.set_knowledge(n, evt)
                yield evt

            def on_interrupt(self, *, actor: UP.Actor, cause: Any) -> Any:
                return self.INTERRUPT[spec["act"]]

        a = UP.Actor(name="a", initial_knowledge={f"fact{i}": i for i in range(spec["facts"])})
        a.set_knowledge("other", UP.Event())
        p = Keep().run(actor=a)
        env.run(until=1 + spec["late"])
        for n in ["main", *spec["names"]]:
            mon.check(a.get_knowledge(n) is not None, "named", n)
        p.interrupt()
        env.run(until=env.now + 1)
        for n in ["main", *spec["names"]]:
            mon.eq(a.get_knowledge(n), None, "event-left-in-knowledge", n)
        for i in range(spec["facts"]):
            mon.eq(a.get_knowledge(f"fact{i}"), i, "fact-gone", str(i))
        mon.check(a.get_knowledge("other") is not None, "other-event-gone", "an event nobody waited for")
        mon.hit("aliases", len(spec["names"]))

    with UP.EnvironmentContext() as env:
        class Pump(UP.Actor):
            level = UP.LinearChangingState(default=0.0)
            heat = UP.LinearChangingState(default=0.0, recording=True)
            copied = UP.State[float](default=0.0)

        class Feed(UP.Task):
            def task(self, *, actor: Pump) -> TASK_GEN:
                if spec["act"] == "RESTART" and actor.get_knowledge("again"):
                    starts.append(env.now)
                    yield UP.Wait(1.0)
                    if spec["facts"] % 2:  # nothing is active any more, so all may be activated again
                        switch_on(actor, self)
                        yield UP.Wait(1.0)
                        actor.deactivate_all_states(task=self)
                        actor.deactivate_all_mimic_states(task=self)
                    return
                actor.set_knowledge("again", True)
                switch_on(actor, self)
                yield UP.Any(UP.Wait(40.0), UP.Event()) if spec["wrap"] else UP.Wait(40.0)

            def on_interrupt(self, *, actor: UP.Actor, cause: Any) -> Any:
                return self.INTERRUPT[spec["act"]]

        def switch_on(actor: Pump, task: UP.Task) -> None:
            actor.activate_linear_state(state="level", rate=2.0, task=task)
            actor.activate_linear_state(state="heat", rate=1.0, task=task)
            actor.activate_mimic_state(self_state="copied", mimic_state="level", mimic_actor=src, task=task)

        class Fill(UP.Task):
            def task(self, *, actor: Pump) -> TASK_GEN:
                actor.activate_linear_state(state="level", rate=0.5, task=self)
                yield UP.Wait(60.0)

        starts: list[float] = []
        src, a = Pump(name="src"), Pump(name="a")
        Fill().run(actor=src)
        p = Feed().run(actor=a)
        stop = 1 + spec["late"]
        env.run(until=stop)
        p.interrupt()
        more = 1.0 if spec["act"] == "RESTART" and spec["facts"] % 2 else 0.0
        env.run(until=stop + 0.5)
        mon.eq((a.level, a.heat, a.copied), (2 * stop, stop, stop / 2), "active-after-interrupt", "")
        env.run(until=stop + 5)
        at = stop + 1 + more if more else stop
        mon.eq((a.level, a.heat, a.copied), (2 * (stop + more), stop + more, at / 2), "active-later", "")
        mon.eq(starts, [stop] if spec["act"] == "RESTART" else [], "starts", "")

    with UP.EnvironmentContext() as env:
        make = {"res": SIM.Resource, "prio": SIM.PriorityResource, "pre": SIM.PreemptiveResource}[spec["kind"]]
        res = make(env, capacity=spec["cap"])
        held: list[Any] = []
        left = {"n": spec["times"]}

        class Grab(UP.Task):
            def task(self, *, actor: UP.Actor) -> TASK_GEN:
                yield UP.Wait(1.0)
                h = UP.ResourceHold(res)
                e = UP.Any(UP.Any(h, UP.Wait(50.0))) if spec["wrap"] == "any-any" else \
                    UP.Any(h, UP.Wait(50.0)) if spec["wrap"] == "any" else \
                    UP.All(h, UP.Wait(50.0)) if spec["wrap"] == "all" else h
                go.succeed()
                yield e
                held.append(actor.name)
                yield UP.Wait(0.5)
                yield h

            def on_interrupt(self, *, actor: UP.Actor, cause: Any) -> Any:
                return self.INTERRUPT[spec["act"]]

        go = env.event()

        def poke() -> Any:
            nonlocal go
            yield env.timeout(0.5)
            while left["n"]:
                yield go  # the hold is asked for at this very instant
                go = env.event()
                left["n"] -= 1
                p.interrupt()
                if spec["act"] == "END":
                    return

        class Wish(UP.Task):
            def task(self, *, actor: UP.Actor) -> TASK_GEN:
                yield UP.Wait(2.0)
                h = UP.ResourceHold(res)
                yield h
                held.append(actor.name)
                yield UP.Wait(0.25)
                yield h

        p = Grab().run(actor=UP.Actor(name="g"))
        for i in range(spec["others"]):
            Wish().run(actor=UP.Actor(name=f"w{i}"))
        env.process(poke())
        env.run()
        mon.eq(res.count, 0, "hold-not-given-back", f"{spec['wrap'] or 'hold'} interrupted when it was granted")
        mon.eq(len(res.queue), 0, "hold-still-queued", "")
        mon.eq(sorted(held), sorted([f"w{i}" for i in range(spec["others"])]
                                    + ["g"] * (spec["act"] == "RESTART")), "holders", "who had the resource")
        mon.hit("instant_holds")
    mon.nontrivial = True
    mon.see(spec["names"], spec["act"], spec["wrap"], spec["kind"], spec["others"], spec["late"])


SCENARIOS = [Scenario("programs", gen, run, quick=24000, thorough=480000),
             Scenario("leftovers", gen_left, run_left, quick=3200, thorough=32000),
             Scenario("bad-action", gen_bad, run_bad, quick=80, thorough=300)]


def run_same_instant(spec: Any, mon: Mon) -> None:
    """A getter interrupted at the very instant its request was granted: the item must be somewhere."""
    with UP.EnvironmentContext() as env:
        store = SIM.Store(env)
        got: list[Any] = []

        class T(UP.Task):
            def task(self, *, actor: UP.Actor) -> TASK_GEN:
                if spec["how"] == "get":
                    got.append((yield UP.Get(store)))
                else:
                    g = UP.Get(store)
                    yield UP.Any(g, UP.Wait(100.0))
                    got.append(g.get_value())

        p = T().run(actor=UP.Actor(name="a"))

        def other() -> Any:
            yield env.timeout(1.0)
            store.put("item")
            yield env.timeout(0.0)  # the put happens, and grants the get
            p.interrupt()

        env.process(other())
        env.run()
        mon.check("item" in store.items or "item" in got, f"item-lost-{spec['how']}",
                  "the task was interrupted at the instant its Get was granted; the item is in nobody's hands")
        mon.nontrivial = True
        mon.see(spec)


PROBES = [Scenario("same-instant", lambda rng: {"how": "get"}, run_same_instant),
          Scenario("same-instant-any", lambda rng: {"how": "any"}, run_same_instant)]
