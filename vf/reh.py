"""Task programs that can be both rehearsed and run, shared by the rehearsal checks (C15, C16)."""

import random
from dataclasses import dataclass
from typing import Any

import simpy as SIM
import upstage_des.api as UP
from upstage_des.utils import waypoint_time_and_dist

from .util import TASK_GEN, dy

KNOW = ["k0", "k1", "k2"]


@dataclass
class Rec:
    x: int = 0
    y: float = 0.0


class Craft(UP.Actor, entity_groups=["craft"]):
    n = UP.State[int](default=0, recording=True)
    fuel = UP.LinearChangingState(default=100.0, recording=True)
    load = UP.LinearChangingState(default=0.0)
    loc = UP.CartesianLocationChangingState(recording=True)
    far = UP.CartesianLocationChangingState(recording=True)
    d = UP.DictionaryState(valid_types=int, recording=True)
    rec = UP.DataclassState(valid_types=Rec, recording=True)
    items = UP.State[list](default_factory=list)
    bag = UP.State[set](default_factory=set)
    table = UP.State[dict](default_factory=dict, recording=True)
    toolbox = UP.State[list](default_factory=list, no_init=True)
    store = UP.ResourceState(default=SIM.FilterStore)
    tank = UP.ResourceState(default=SIM.Container, default_kwargs={"capacity": 1000.0, "init": 500.0})
    shelves = UP.MultiStoreState(default=SIM.Store, valid_types=(SIM.Store, SIM.Container))
    radio = UP.CommunicationStore(modes=None)
    horn = UP.CommunicationStore(modes=["loud"])
    seen = UP.LinearChangingState(default=0.0)
    late = UP.State[int](default=0, no_init=True)


def make_craft(name: str, **kw: Any) -> Craft:
    c = Craft(name=name, loc=UP.CartesianLocation(0.0, 0.0), far=UP.CartesianLocation(8.0, 0.0),
              d={"a": 1}, rec=Rec(), radio={"modes": "uhf"},
              shelves={"s": {"capacity": 9}, "t": {"kind": SIM.Container, "init": 30.0, "capacity": 50.0}}, **kw)
    c.shelves["s"].items.append("first")
    return c


def view(a: Craft) -> Any:
    """Everything a user can see of the actor's own data, now."""
    return {
        "n": a.n, "fuel": a.fuel, "load": a.load, "loc": xyz(a.loc), "far": xyz(a.far),
        "d": {k: a.d[k] for k in sorted(a.d)}, "rec": (a.rec.x, a.rec.y), "items": list(a.items),
        "bag": sorted(a.bag), "table": dict(a.table), "toolbox": list(a.toolbox),
        "know": {k: show(a.get_knowledge(k)) for k in KNOW},
        "queues": {k: list(v) for k, v in a.get_all_task_queues().items()},
        "late": a.late, "seen": a.seen,
        "shelves": (list(a.shelves["s"].items), a.shelves["t"].level, a.shelves["s"].capacity),
        "stores": (list(a.store.items), a.tank.level, list(a.radio.items), list(a.horn.items)),
    }


def resources(a: Craft) -> Any:
    return [list(a.store.items), len(a.store.get_queue), len(a.store.put_queue), a.tank.level, a.stage.crew.count,
            len(a.stage.crew.queue), len(a.tank.get_queue)]


def xyz(p: Any) -> Any:
    return (p.x, p.y, p.z)


def show(v: Any) -> Any:
    if isinstance(v, UP.Event):
        return "an event"
    if isinstance(v, list | dict):
        return v.copy()
    return v if isinstance(v, int | float | str | tuple | type(None)) else "thing"


# ---- generation -------------------------------------------------------------------------------


def gen_times(rng: random.Random, n: int) -> list[float]:
    """Different durations, so that nothing in an Any or All ties."""
    return [x / 16 for x in rng.sample(range(1, 160), n)]


def gen_multi(rng: random.Random, depth: int, times: list[float]) -> Any:
    subs: list[Any] = []
    for _ in range(rng.randint(1, 3)):
        subs.append([rng.choice(["wait", "event", "get", "fget"]), times.pop()])
    if depth and rng.random() < 0.5:
        subs.append(gen_multi(rng, depth - 1, times))
    rng.shuffle(subs)
    return [rng.choice(["any", "all"]), subs]


def gen_op(rng: random.Random, depth: int = 1, names: list[str] | None = None) -> Any:
    k = rng.choice(["set", "add", "dset", "rec", "list", "lin", "span", "move", "wait", "wait", "get", "fget",
                    "put", "event", "kev", "multi", "multi", "know", "unknow", "readk", "routine", "hold", "cget",
                    "late", "queue", "look", "bulk", "bag", "table", "tool", "more"])
    if k in ("set", "add", "late", "bag", "table", "tool"):
        return [k, rng.randint(0, 9)]
    if k == "dset":
        return [k, rng.choice("abc"), rng.randint(0, 9)]
    if k == "rec":
        return [k, rng.choice("xy"), rng.randint(0, 9)]
    if k == "list":
        return [k, rng.randint(0, 9)]
    if k == "lin":
        return [k, rng.choice(["fuel", "load"]), rng.randint(-8, 8) / 4, dy(rng, 0, 32)]
    if k == "span":
        if not depth:
            return ["look"]
        return [k, rng.randint(-8, 8) / 4, [gen_op(rng, 0, names) for _ in range(rng.randint(1, 3))]]
    if k == "move":
        pts = [[3 * rng.randint(-4, 4), 4 * rng.randint(-4, 4)] for _ in range(rng.randint(1, 3))]
        return [k, pts, rng.choice([0.5, 1.0, 2.0, 4.0])]
    if k == "multi":
        return gen_multi(rng, 1, gen_times(rng, 8))
    if k in ("wait", "get", "fget", "event", "kev"):
        return [k, dy(rng, 1, 32)]
    if k == "know":
        return [k, rng.choice(KNOW), rng.choice([1, 2.5, "s", [1, 2]])]
    if k in ("unknow", "readk", "more"):
        return [k, rng.choice(KNOW)]
    if k == "routine":
        return [k, [[rng.choice(["wait", "event", "get"]), dy(rng, 1, 16)] for _ in range(rng.randint(1, 3))]]
    if k in ("hold", "cget"):
        return [k, dy(rng, 1, 16)]
    if k == "queue":
        return [k, [rng.choice(names) for _ in range(rng.randint(0, 2))]] if names else ["look"]
    if k == "bulk":
        return [k, rng.randint(0, 9), rng.random() < 0.5]
    return [k]


# ---- the program, rehearsed or run ----------------------------------------------------------------


class Driver:
    """Makes events happen in the real run after the time the rehearsal plans for."""

    def __init__(self, env: Any) -> None:
        self.env = env

    def later(self, dt: float, fn: Any) -> None:
        def go() -> Any:
            yield self.env.timeout(dt)
            fn()

        self.env.process(go())


def sub_event(actor: Craft, o: Any, drv: Driver | None, tag: list[int]) -> Any:
    k = o[0]
    if k == "wait":
        return UP.Wait(o[1])
    if k == "event":
        e = UP.Event(rehearsal_time_to_complete=o[1])
        if drv is not None:
            drv.later(o[1], lambda: None if e.is_complete() else e.succeed(p=1))
        return e
    if k in ("get", "fget"):
        tag[0] += 1
        t = (actor.name, tag[0])
        if drv is not None:
            drv.later(o[1], lambda: actor.store.put(t))
        if k == "get":
            return UP.Get(actor.store, lambda x, t=t: x == t, rehearsal_time_to_complete=o[1])
        return UP.FilterGet(actor.store, lambda x, t=t: x == t, rehearsal_time_to_complete=o[1])
    return (UP.Any if k == "any" else UP.All)(*[sub_event(actor, s, drv, tag) for s in o[1]])


def settle(subs: Any, events: Any, log: Any, rehearsing: bool) -> None:
    for o, e in zip(subs, events):
        done = e.is_complete()
        log("sub", o[0], done)
        if o[0] in ("get", "fget"):
            if done:
                ok = e.get_value() is UP.PLANNING_FACTOR_OBJECT
                log("sub-value", ok == rehearsing)
            else:
                e.cancel()
        if o[0] in ("any", "all"):
            settle(o[1], e.events, log, rehearsing)


def program(task: UP.Task, actor: Craft, ops: Any, out: list[Any], drv: Driver | None, tag: list[int],
            where: str, can_queue: bool = True) -> TASK_GEN:
    """Run the ops; `drv` is None when the task is being rehearsed."""
    reh = drv is None

    def log(*what: Any) -> None:
        out.append((actor.env.now, where, *what))

    for op in ops:
        k = op[0]
        if task.env.now != actor.env.now:
            log("task-and-actor-time-differ", task.env.now)
        if k == "fail":
            if reh and op[1] == "raise":
                raise ValueError("planned failure")
            if reh and op[1] == "bad":
                yield 3  # type: ignore[misc]
        elif k == "set":
            actor.n = op[1]
        elif k == "add":
            actor.n += op[1]
        elif k == "late":
            actor.late = op[1]
        elif k == "bag":  # changes in place
            actor.bag.add(op[1])
        elif k == "table":
            actor.table[op[1] % 3] = op[1]
        elif k == "tool":
            actor.toolbox.append(op[1])
        elif k == "more":
            v = task.get_actor_knowledge(actor, op[1])
            if isinstance(v, list):
                v.append(len(v))
        elif k == "dset":
            actor.d[op[1]] = op[2]
        elif k == "rec":
            setattr(actor.rec, op[1], op[2] if op[1] == "x" else float(op[2]))
        elif k == "list":
            actor.items = actor.items + [op[1]]
        elif k == "lin":
            actor.activate_linear_state(state=op[1], rate=op[2], task=task)
            yield UP.Wait(op[3])
            actor.deactivate_state(state=op[1], task=task)
            log("lin", actor.fuel, actor.load)
        elif k == "span":
            actor.activate_state(state="load", task=task, rate=op[1])
            inner = [o for o in op[2] if o[:2] != ["lin", "load"]]
            yield from program(task, actor, inner, out, drv, tag, where, can_queue)
            actor.deactivate_all_states(task=task)
            log("span", actor.load)
        elif k == "move":
            pts = [UP.CartesianLocation(*p) for p in op[1]]
            time, dist = waypoint_time_and_dist(actor.loc, pts, op[2])
            actor.activate_location_state(state="loc", speed=op[2], waypoints=pts, task=task)
            yield UP.Wait(time)
            actor.deactivate_state(state="loc", task=task)
            log("move", xyz(actor.loc), time, dist)
        elif k == "wait":
            got = yield UP.Wait(op[1])
            log("wait")
        elif k in ("get", "fget"):
            e = sub_event(actor, op, drv, tag)
            got = yield e
            log("get", (got is UP.PLANNING_FACTOR_OBJECT) == reh, e.is_complete())
        elif k == "put":
            # rehearsal leaves real stores alone
            yield UP.Put(actor.store, (actor.name, "put"))
            log("put")
        elif k == "cget":
            yield UP.Get(actor.tank, op[1])
            log("cget")
        elif k == "event":
            e = sub_event(actor, op, drv, tag)
            yield e
            log("event", e.is_complete())
        elif k == "kev":
            e = actor.create_knowledge_event(name=f"kev{where}", rehearsal_time_to_complete=op[1])
            if drv is not None:
                drv.later(op[1], lambda: actor.succeed_knowledge_event(name=f"kev{where}"))
            yield e
            log("kev")
        elif k in ("any", "all"):
            e = sub_event(actor, op, drv, tag)
            yield e
            log(k, e.is_complete())
            settle(op[1], e.events, log, reh)
        elif k == "know":
            v = list(op[2]) if isinstance(op[2], list) else op[2]
            task.set_actor_knowledge(actor, op[1], v, overwrite=True)
        elif k == "unknow":
            if actor.get_knowledge(op[1]) is not None:
                task.clear_actor_knowledge(actor, op[1])
        elif k == "readk":
            log("readk", show(task.get_actor_knowledge(actor, op[1])))
        elif k == "bulk":
            task.set_actor_bulk_knowledge(actor, {"k0": op[1], "k1": op[1] + 1}, overwrite=True)
            if op[2]:
                log("bulk", task.get_and_clear_actor_bulk_knowledge(actor, ["k0", "k1"]))
        elif k == "routine":
            class Sub(UP.Routine):
                def run(self) -> Any:
                    for o in op[1]:
                        yield sub_event(actor, o, drv, tag)

                def cancel(self) -> Any:
                    yield from ()

            yield Sub()
            log("routine")
        elif k == "hold":
            h = UP.ResourceHold(actor.stage.crew)
            yield h
            yield UP.Wait(op[1])
            yield h
            log("hold")
        elif k == "queue":
            if not can_queue:
                continue
            task.clear_actor_task_queue(actor)
            task.set_actor_task_queue(actor, list(op[1]))
            log("queue", task.get_actor_next_task(actor))
        else:
            v = view(actor)
            for what in ("queues", "stores", "shelves"):  # rehearsals leave real stores alone
                v.pop(what)
            log("look", v)
