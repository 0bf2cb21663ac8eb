"""C12: tasks and routines run UPSTAGE events exactly as SimPy runs its own."""

import random
import warnings
from typing import Any

import simpy as SIM
import upstage_des.api as UP

from ..core import Mon, Scenario
from ..util import TASK_GEN, dy

PROPERTY = {
    "title": "Tasks run their events exactly as SimPy would",
    "statement": (
        "A task resumes at the time, in the order and with the value that the same SimPy process would: "
        "waits last their duration in the stage's time unit, gets deliver the item, Any and All end with "
        "the first and the last of their events, is_complete tells which of them did, and cancelled "
        "requests take nothing. A routine's events run inside the task the same way, and its return value "
        "is what the task receives."
    ),
    "quantifier": {"over": ["inputs", "schedules", "histories"],
                   "text": "every set of concurrent task programs over shared resources, and every nesting"},
    "why_tests_cant": "Tests run one event kind at a time; interleavings of several tasks are not covered.",
    "anchors": {
        "files": ["src/upstage_des/events.py", "src/upstage_des/task.py", "src/upstage_des/routines.py"],
        "mechanism": [{"name": "Task.run, BaseEvent.as_event, MultiEvent, ResourceHold, Routine._run",
                       "where": "src/upstage_des/task.py"}],
        "observe_at": ["event logs of the task bodies (time, order, values)", "resource levels"],
    },
    "technique": "differential event-log monitor: generated task programs against the same programs in raw SimPy",
}
RULE = (
    "A case is one to five concurrent programs of waits, gets, puts, holds, events, Any/All, cancels and "
    "routines over shared stores, containers and resources, run as tasks and as raw SimPy processes. "
    "Non-trivial: at least five log entries; distinct by the log."
)
REQUIRED = {"log_entries": 20000, "any": 1000, "all": 500, "routines": 1000, "holds": 500, "cancelled": 400,
            "event_waits": 300, "random_waits": 300, "pooled": 1000}
ASSUMPTIONS = ["SimPy itself is the reference for scheduling and for its stores, containers and resources."]

KINDS = ["wait", "wait", "wait", "unit", "rand", "put", "put", "get", "fget", "cput", "cget", "hold",
         "any", "any", "all", "routine", "again", "event", "fire", "proc", "prio", "pool"]
UNITS = {"hr": 60.0, "hour": 60.0, "s": 1 / 60.0, "seconds": 1 / 60.0, "min": 1.0, "day": 24 * 60.0, "week": 7 * 24 * 60.0}
SIMPLE = ["wait", "get", "fget", "event", "put", "cget"]


def gen_op(rng: random.Random, depth: int) -> Any:
    k = rng.choice(KINDS)
    if k in ("any", "all"):
        subs = [gen_sub(rng) for _ in range(rng.randint(1, 3))]
        if k == "any" or rng.random() < 0.7:
            subs.append(["wait", dy(rng, 0, 24, 4)])
        if rng.random() < 0.25:
            subs.append([rng.choice(["any", "all"]), [gen_sub(rng), ["wait", dy(rng, 0, 24, 4)]]])
        return [k, subs]
    if k == "routine" or k == "again":
        if depth > 0:
            return ["wait", dy(rng, 0, 8, 4)]
        return [k, gen_prog(rng, 1, rng.randint(0, 4)), rng.choice([None, 0, 7, "r", [1]])]
    if k == "pool":  # a few event objects, waited for in any order, some of them again
        pool = [[rng.choice(["wait", "wait", "get", "put"]), dy(rng, 0, 16, 4), rng.randint(0, 5)]
                for _ in range(rng.randint(1, 3))] + [["wait", dy(rng, 0, 8, 4)]]
        n = len(pool)
        return [k, pool, [rng.sample(range(n), rng.randint(1, n)) for _ in range(rng.randint(1, 4))],
                rng.random() < 0.5]
    if k == "rand":
        lo = dy(rng, 0, 8)
        return [k, lo, lo + dy(rng, 0, 16)]
    if k == "unit":
        name = rng.choice(list(UNITS))
        return [k, (dy(rng, 0, 8, 64) + rng.random() / 64) / UNITS[name], name]  # off the grid of the rest
    if k == "prio":
        return [k, dy(rng, 0, 8, 4), rng.randint(0, 2)]
    return [k, dy(rng, 0, 16, 4), rng.randint(0, 5)]


def gen_sub(rng: random.Random) -> Any:
    return [rng.choice(SIMPLE), dy(rng, 0, 16, 4), rng.randint(0, 5)]


def gen_prog(rng: random.Random, depth: int, n: int) -> Any:
    return [gen_op(rng, depth) for _ in range(n)]


def gen(rng: random.Random) -> Any:
    return {"progs": [gen_prog(rng, 0, rng.randint(2, 10)) for _ in range(rng.randint(1, 5))],
            "cap": [rng.randint(1, 3), rng.choice([4, 20]), rng.randint(1, 2)],
            "fill": [rng.randint(0, 5) for _ in range(rng.randint(0, 3))],
            "help": [[dy(rng, 0, 8, 4), rng.choice(["put", "fput", "take", "cput", "fire", "fire"]),
                      rng.randint(0, 5)] for _ in range(rng.randint(0, 14))],
            "t0": dy(rng, 0, 16), "seed": rng.randrange(10**6)}


class World:
    def __init__(self, env: Any, spec: Any) -> None:
        self.env = env
        self.log: list[Any] = []
        self.store = SIM.Store(env, capacity=spec["cap"][0])
        self.fstore = SIM.FilterStore(env)
        self.fstore.items.extend(spec["fill"])
        self.cont = SIM.Container(env, capacity=spec["cap"][1], init=2)
        self.res = SIM.Resource(env, capacity=spec["cap"][2])
        self.prio = SIM.PriorityResource(env, capacity=1)

    def note(self, who: int, *what: Any) -> None:
        self.log.append((round(self.env.now, 8), who, *what))

    def summary(self) -> Any:
        return [list(self.store.items), list(self.fstore.items), self.cont.level, self.res.count,
                len(self.res.queue), len(self.store.get_queue), len(self.store.put_queue),
                len(self.cont.get_queue), len(self.fstore.get_queue), self.prio.count]


def payload(x: float) -> dict:
    """What an event is succeeded with: sometimes nothing at all."""
    return {"x": x} if x % 1 < 0.5 else {}


def side(env: Any, dt: float) -> Any:
    yield env.timeout(dt)
    return dt + 1


def helper(w: World, spec: Any, fire: Any) -> Any:
    """The rest of the world, which keeps the programs going (the same on both sides)."""
    for dt, k, n in spec["help"]:
        yield w.env.timeout(dt)
        if k == "put" and len(w.store.items) < w.store.capacity:
            w.store.put(n)
        elif k == "fput":
            w.fstore.put(n)
        elif k == "take" and w.store.items:
            w.store.get()
        elif k == "cput":
            w.cont.put(1 + n / 4)
        elif k == "fire":
            fire(n % 3, dt)


# ---- the UPSTAGE side -------------------------------------------------------------------------


def up_event(w: World, op: Any, evts: Any) -> Any:
    k = op[0]
    if k == "wait":
        return UP.Wait(op[1])
    if k == "get":
        return UP.Get(w.store)
    if k == "fget":
        return UP.FilterGet(w.fstore, lambda x: x % 2 == op[2] % 2)
    if k == "put":
        return UP.Put(w.store, op[2]) if op[1] < 2 else UP.Put(w.fstore, op[2])
    if k == "cget":
        return UP.Get(w.cont, op[1] + 0.25)
    if k == "event":
        return evts[op[2] % 3]
    if k == "pool":
        k = "any"
    return (UP.Any if k == "any" else UP.All)(*[up_event(w, o, evts) for o in op[1]])


def up_settle(w: World, who: int, subs: Any, events: Any, mon: Mon) -> None:
    """Look at which parts completed, and cancel the rest."""
    for o, e in zip(subs, events):
        if o[0] in ("any", "all"):
            up_settle(w, who, o[1], e.events, mon)
            continue
        done = e.is_complete()
        w.note(who, o[0], done)
        if done and o[0] in ("get", "fget"):
            w.note(who, "value", e.get_value())
        if not done and o[0] in ("get", "fget", "put", "cget"):
            e.cancel()
            mon.hit("cancelled")


def up_prog(w: World, who: int, prog: Any, evts: Any, mon: Mon) -> Any:
    for op in prog:
        k = op[0]
        if k in ("any", "all"):
            e = up_event(w, op, evts)
            got = yield e
            w.note(who, k, list(got.todict().values()))
            mon.hit(k)
            up_settle(w, who, op[1], e.events, mon)
        elif k == "pool":
            pool = [up_event(w, o, evts) for o in op[1]]
            last = len(pool) - 1  # there is a wait in every group, so that the program goes on
            whole = UP.Any(*pool)
            for group in op[2]:
                if op[3]:
                    got = yield whole
                elif group == [last]:
                    got = yield pool[last]
                    w.note(who, k, got)
                    mon.hit("pooled")
                    continue
                else:
                    got = yield UP.Any(*[pool[i] for i in group], pool[last])
                w.note(who, k, list(got.todict().values()))
                mon.hit("pooled")
            for o, e in zip(op[1], pool):
                if o[0] != "wait":
                    e.cancel()
        elif k == "unit":
            yield UP.Wait(op[1], timeout_unit=op[2])
            w.note(who, k)
        elif k == "rand":
            e = UP.Wait.from_random_uniform(op[1], op[2])
            got = yield e
            mon.hit("random_waits")
            w.note(who, k, got)
        elif k == "cput":
            yield UP.Put(w.cont, op[1] + 0.25)
            w.note(who, k, w.cont.level)
        elif k == "hold":
            h = UP.ResourceHold(w.res)
            yield h
            w.note(who, "held", w.res.count)
            yield UP.Wait(op[1])
            yield h
            w.note(who, "released", w.res.count)
            mon.raises(UP.UpstageError, h.as_event, "hold-after-release", "waiting for a returned hold")
            mon.hit("holds")
        elif k == "prio":
            h = UP.ResourceHold(w.prio, priority=op[2])
            yield h
            w.note(who, "prio")
            yield UP.Wait(op[1])
            yield h
            w.note(who, "unprio")
            mon.hit("holds")
        elif k in ("routine", "again"):
            class Sub(UP.Routine):
                def run(self) -> Any:
                    yield from up_prog(w, who, op[1], evts, mon)
                    return op[2]

                def cancel(self) -> Any:
                    yield from ()

            r = Sub()
            for _ in range(2 if k == "again" else 1):
                got = yield r
                w.note(who, "routine", got)
                mon.hit("routines")
        elif k == "fire":
            e = evts[op[2] % 3]
            if not e.as_event().triggered:
                e.succeed(**payload(op[1]))
                w.note(who, k)
        elif k == "proc":
            got = yield (UP.Any(w.env.process(side(w.env, op[1]))))
            w.note(who, k, list(got.todict().values()))
        else:
            got = yield up_event(w, op, evts)
            if k == "event":
                mon.hit("event_waits")
                w.note(who, got)
                got = evts[op[2] % 3].get_payload()
            w.note(who, k, got)
    return None


# ---- the raw SimPy side -------------------------------------------------------------------------


class RawEvent:
    """What UP.Event promises: an event that is renewed when it is waited for after it happened."""

    def __init__(self, env: Any) -> None:
        self.env = env
        self.ev = env.event()
        self.payload: dict = {}

    def get(self) -> Any:
        if self.ev.processed:
            self.ev = self.env.event()
        return self.ev


def raw_event(w: World, op: Any, evts: Any) -> Any:
    k = op[0]
    if k == "wait":
        return w.env.timeout(op[1])
    if k == "get":
        return w.store.get()
    if k == "fget":
        return w.fstore.get(lambda x: x % 2 == op[2] % 2)
    if k == "put":
        return w.store.put(op[2]) if op[1] < 2 else w.fstore.put(op[2])
    if k == "cget":
        return w.cont.get(op[1] + 0.25)
    if k == "event":
        return evts[op[2] % 3].get()
    subs = [raw_event(w, o, evts) for o in op[1]]
    cond = (SIM.AnyOf if k == "any" else SIM.AllOf)(w.env, subs)
    cond.subs = subs
    return cond


def raw_settle(w: World, who: int, subs: Any, events: Any, evts: Any) -> None:
    for o, e in zip(subs, events):
        if o[0] in ("any", "all"):
            raw_settle(w, who, o[1], e.subs, evts)
            continue
        if o[0] == "event":  # it may have been renewed by another waiter
            e = evts[o[2] % 3].ev
        w.note(who, o[0], e.processed)
        if e.processed and o[0] in ("get", "fget"):
            w.note(who, "value", e.value)
        if not e.processed and o[0] in ("get", "fget", "put", "cget"):
            e.cancel()


def raw_prog(w: World, who: int, prog: Any, evts: Any, rng: random.Random) -> Any:
    env = w.env
    for op in prog:
        k = op[0]
        if k in ("any", "all"):
            e = raw_event(w, op, evts)
            got = yield e
            w.note(who, k, list(got.todict().values()))
            raw_settle(w, who, op[1], e.subs, evts)
        elif k == "pool":
            made: dict[int, Any] = {}  # an event is made when it is first waited for
            last = len(op[1]) - 1
            for group in op[2]:
                if op[3]:
                    group = list(range(last + 1))
                for i in dict.fromkeys([*group, last]):
                    made.setdefault(i, None)
                    if made[i] is None:
                        made[i] = raw_event(w, op[1][i], evts)
                if not op[3] and group == [last]:
                    got = yield made[last]
                    w.note(who, k, got)
                    continue
                seq = group if op[3] else [*group, last]
                got = yield SIM.AnyOf(env, [made[i] for i in seq])
                w.note(who, k, list(got.todict().values()))
            for i, e in made.items():
                if op[1][i][0] != "wait" and not e.processed:
                    e.cancel()
        elif k == "unit":
            yield env.timeout(op[1] * UNITS[op[2]])
            w.note(who, k)
        elif k == "rand":
            got = yield env.timeout(rng.uniform(op[1], op[2]))
            w.note(who, k, got)
        elif k == "cput":
            yield w.cont.put(op[1] + 0.25)
            w.note(who, k, w.cont.level)
        elif k in ("hold", "prio"):
            req = w.res.request() if k == "hold" else w.prio.request(priority=op[2])
            yield req
            w.note(who, *(["held", w.res.count] if k == "hold" else ["prio"]))
            yield env.timeout(op[1])
            yield (w.res if k == "hold" else w.prio).release(req)
            w.note(who, *(["released", w.res.count] if k == "hold" else ["unprio"]))
        elif k in ("routine", "again"):
            for _ in range(2 if k == "again" else 1):
                yield from raw_prog(w, who, op[1], evts, rng)
                w.note(who, "routine", op[2])
        elif k == "fire":
            r = evts[op[2] % 3]
            e = r.get()
            if not e.triggered:
                e.succeed()
                r.payload = payload(op[1])
                w.note(who, k)
        elif k == "proc":
            got = yield SIM.AnyOf(env, [env.process(side(env, op[1]))])
            w.note(who, k, list(got.todict().values()))
        else:
            got = yield raw_event(w, op, evts)
            if k == "event":
                w.note(who, got)
                got = evts[op[2] % 3].payload
            w.note(who, k, got)


def revts_done(e: Any) -> bool:
    return e.is_complete() or e.as_event().triggered


def run(spec: Any, mon: Mon) -> None:
    renv = SIM.Environment(initial_time=spec["t0"])
    raw = World(renv, spec)
    revts = [RawEvent(renv) for _ in range(3)]
    rng = random.Random(spec["seed"])

    def top(i: int, p: Any) -> Any:
        yield from raw_prog(raw, i, p, revts, rng)
        raw.note(i, "end")

    def raw_fire(i: int, x: float) -> None:
        if not revts[i].ev.triggered:
            revts[i].ev.succeed()
            revts[i].payload = payload(x)

    for i, p in enumerate(spec["progs"]):
        renv.process(top(i, p))
    renv.process(helper(raw, spec, raw_fire))
    renv.run()

    with warnings.catch_warnings(), UP.EnvironmentContext(
        initial_time=spec["t0"], random_seed=spec["seed"]
    ) as env:
        warnings.simplefilter("ignore")
        UP.add_stage_variable("time_unit", "min")
        w = World(env, spec)
        evts = [UP.Event() for _ in range(3)]

        class Go(UP.Task):
            def task(self, *, actor: UP.Actor) -> TASK_GEN:
                i = int(actor.name)
                yield from up_prog(w, i, spec["progs"][i], evts, mon)
                w.note(i, "end")

        for i in range(len(spec["progs"])):
            Go().run(actor=UP.Actor(name=str(i)))

        def fire(i: int, x: float) -> None:
            if not revts_done(evts[i]):
                evts[i].succeed(**payload(x))

        env.process(helper(w, spec, fire))
        env.run()
        for n, (a, b) in enumerate(zip(w.log, raw.log)):
            mon.check(a == b, "log", lambda: f"entry {n}: observed {a}, SimPy {b}; before {w.log[max(0, n - 3):n]}")
        mon.eq(len(w.log), len(raw.log), "log-length", f"{w.log[-2:]} vs {raw.log[-2:]}")
        mon.eq(w.summary(), raw.summary(), "resources", "contents, levels and queues")
        mon.close(env.now, renv.now, "end-time", "clock", tol=1e-8)
        mon.hit("log_entries", len(w.log))
        mon.nontrivial = len(w.log) >= 5
        mon.see(w.log)
        mon.sample = {"log": w.log[:8], "end": env.now}


SCENARIOS = [Scenario("programs", gen, run, quick=40000, thorough=575000)]
