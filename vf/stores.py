"""Random programs on stores and containers, run on a given resource and on a SimPy reference."""

import random
from collections.abc import Callable
from typing import Any

import simpy as SIM

import upstage_des.api as UP

from .core import Mon
from .util import TASK_GEN, dy

FILTERS: dict[str, Callable[[Any], bool]] = {
    "all": lambda x: True, "odd": lambda x: x[0] % 2 == 1, "big": lambda x: x[0] >= 3, "a": lambda x: x[1] == "a",
    "none": lambda x: False,
}
SORTERS: dict[str, Any] = {
    "num": lambda x: x[0], "text": lambda x: x[1], "pair": lambda x: (x[1], -x[0]), "mod": lambda x: (x[0] % 2,),
    "neg": lambda x: -x[0], "same": lambda x: 0, "list": lambda x: [x[1], x[0]], "none": None,
}
ITEM_FUNCS: dict[str, Any] = {
    "len": None, "sum": lambda items: sum(i[0] for i in items), "names": lambda items: [i[1] for i in items],
    "any": lambda items: bool(items), "last": lambda items: items[-1] if items else None,
}


class RefSorted(SIM.Store):
    """The sorted store by its definition: the first of the best matching items."""

    def get(self, filter: Any = lambda x: True, sorter: Any = None, reverse: bool = False) -> Any:
        return _RefGet(self, filter, sorter, reverse)

    def _do_get(self, event: Any) -> bool:
        match = [i for i in self.items if event.filter(i)]
        if match:
            if event.sorter is not None:
                match = sorted(match, key=event.sorter, reverse=event.reverse)
            # the very object, by identity
            n = next(n for n, i in enumerate(self.items) if i is match[0])
            event.succeed(self.items.pop(n))
        return True


class _RefGet(SIM.resources.base.Get):
    def __init__(self, store: Any, filter: Any, sorter: Any, reverse: bool) -> None:
        self.filter, self.sorter, self.reverse = filter, sorter, reverse
        super().__init__(store)


def logging_kind(base: type, values: list[Any], content: Callable[[Any], Any]) -> type:
    """A SimPy resource that notes its content after every grant."""

    class Logged(base):  # type: ignore
        def _do_put(self, event: Any) -> Any:
            ans = super()._do_put(event)
            if event.triggered:
                values.append((self._env.now, content(self)))
            return ans

        def _do_get(self, event: Any) -> Any:
            ans = super()._do_get(event)
            if event.triggered:
                values.append((self._env.now, content(self)))
            return ans

    return Logged


def gen_program(rng: random.Random, kind: str) -> Any:
    procs = []
    for _ in range(rng.randint(1, 5)):
        ops = []
        for _ in range(rng.randint(2, 9)):
            t = rng.choice([0, 0, dy(rng, 1, 32)])
            k = rng.choice(["put", "put", "get", "get", "tryget", "tryput", "multi", "burst"])
            ops.append([t, k, [rng.randrange(6), rng.choice("abc")], rng.choice(list(FILTERS)[:4] * 3 + ["none"]),
                        rng.choice(list(SORTERS)), rng.random() < 0.4, dy(rng, 1, 24), rng.choice([0.5, 1, 2, 3])])
        procs.append({"how": rng.choice(["simpy", "task", "task"]), "ops": ops, "int": rng.choice([None, None, dy(rng, 1, 80)])})
    cap = rng.choice([None, None, 1, 2, 4])
    return {"kind": kind, "cap": cap, "procs": procs, "t0": dy(rng, 0, 20), "pre": rng.choice([0, 0, 1, 2]),
            "func": rng.choice(list(ITEM_FUNCS))}


def execute(spec: Any, make: Callable[[Any], Any], mon: Mon | None) -> tuple[list[Any], Any]:
    """Run the program on the resource that make(env) gives; returns the log and the resource."""
    kind = spec["kind"]
    log: list[Any] = []
    boxed: dict[int, Any] = {}

    with UP.EnvironmentContext(initial_time=spec["t0"]) as env:
        res = make(env)
        serial = [0]

        def item(v: Any) -> Any:
            # equal items are different objects
            serial[0] += 1
            x = [*v]
            boxed[id(x)] = (serial[0], x)
            return x

        def put_ev(op: Any, wrap: bool) -> Any:
            x = op[7] if kind == "container" else item(op[2])
            return UP.Put(res, x) if wrap else res.put(x)

        def get_ev(op: Any, wrap: bool) -> Any:
            if kind == "container":
                return UP.Get(res, op[7]) if wrap else res.get(op[7])
            if kind == "store":
                return UP.Get(res) if wrap else res.get()
            if kind == "filter":
                return UP.FilterGet(res, FILTERS[op[3]]) if wrap else res.get(FILTERS[op[3]])
            kw = {"filter": FILTERS[op[3]], "sorter": SORTERS[op[4]], "reverse": op[5]}
            if op[3] == "all" and op[4] == "none":
                kw = {}
            if wrap and isinstance(res, UP.SortedFilterStore):
                return UP.SortedFilterGet(res, **kw)
            return UP.Get(res, **kw) if wrap else res.get(**kw)

        def show(v: Any) -> Any:
            return (boxed[id(v)][0], list(v)) if id(v) in boxed else v if isinstance(v, int | float) else None

        def state() -> Any:
            c = res.level if kind == "container" else [show(i) for i in res.items]
            return (c, len(res.put_queue), len(res.get_queue))

        def program(p: int, ops: Any, wrap: bool) -> Any:
            def note(*what: Any) -> None:
                log.append((env.now, p, *what, state()))

            for op in ops:
                if op[0]:
                    yield UP.Wait(op[0]) if wrap else env.timeout(op[0])
                k = op[1]
                if k == "put":
                    yield put_ev(op, wrap)
                    note("put")
                elif k == "burst":
                    # several requests in one step, not waited for one by one
                    evs = [res.put(item(op[2]) if kind != "container" else op[7]) for _ in range(2)]
                    note("burst", [e.triggered for e in evs])
                elif k == "get":
                    v = yield get_ev(op, wrap)
                    note("got", show(v))
                elif k in ("tryget", "tryput"):
                    e = get_ev(op, wrap) if k == "tryget" else put_ev(op, wrap)
                    if wrap:
                        w = UP.Wait(op[6])
                        a = UP.Any(e, w)
                        yield a
                        done = e.is_complete()
                        v = show(e.get_value()) if done and k == "tryget" and kind != "container" else None
                        a_cancel = e
                        if not done:
                            a_cancel.cancel()
                    else:
                        yield e | env.timeout(op[6])
                        done = e.processed
                        v = show(e.value) if done and k == "tryget" and kind != "container" else None
                        if not done:
                            e.cancel()
                    note(k, done, v)
                elif k == "multi":
                    evs = [get_ev(op, wrap), put_ev(op, wrap)]
                    if wrap:
                        yield UP.All(*evs)
                    else:
                        yield SIM.AllOf(env, evs)
                    note("both")

        class Run(UP.Task):
            p: int
            ops: Any

            def task(self, *, actor: UP.Actor) -> TASK_GEN:
                yield from program(self.p, self.ops, True)

            def on_interrupt(self, *, actor: UP.Actor, cause: Any) -> Any:
                log.append((env.now, self.p, "interrupted", state()))
                return self.INTERRUPT.END

        for n in range(spec["pre"]):
            res.put(item([n, "a"]) if kind != "container" else 1)
        actor = UP.Actor(name="a")
        for p, pr in enumerate(spec["procs"]):
            if pr["how"] == "simpy":
                env.process(program(p, pr["ops"], False))
            else:
                t = Run()
                t.p, t.ops = p, pr["ops"]
                proc = t.run(actor=actor)
                if pr["int"] is not None:
                    def stop(proc: Any = proc, at: float = pr["int"] + 1 / 64) -> Any:
                        yield env.timeout(at)
                        if proc.is_alive:
                            proc.interrupt("stop")
                    env.process(stop())
        env.run(until=spec["t0"] + 60)
        log.append(("end", state()))
        return log, res
