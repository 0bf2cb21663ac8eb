"""C23: a sorted filter store hands out exactly the best matching item."""

import random
from typing import Any

import upstage_des.api as UP

from ..core import Mon, Scenario
from ..stores import FILTERS, SORTERS, RefSorted, execute, gen_program
from ..util import TASK_GEN, dy

PROPERTY = {
    "title": "A sorted filter store hands out exactly the best matching item",
    "statement": (
        "A get on a sorted filter store is granted as soon as an item matches its filter, in the order of the "
        "requests as in a SimPy filter store, and receives the very item that the sorter ranks first (last when "
        "reversed) among the matching ones, the earliest put among equals. Exactly that item leaves the store; the "
        "others keep their order, and a request that is cancelled or never matches takes nothing."
    ),
    "quantifier": {"over": ["inputs", "histories", "schedules"],
                   "text": "every content, filter, sorter and interleaving of waiting requests"},
    "why_tests_cant": "Ties, equal items, reversed tuples and queued requests combine; tests pick from one fixed shelf.",
    "anchors": {
        "files": ["src/upstage_des/resources/sorted.py"],
        "mechanism": [{"name": "SortedFilterStore._do_get, SortedFilterGet", "where": "src/upstage_des/resources/sorted.py"}],
        "observe_at": ["item received", "items left"],
    },
    "technique": "runtime monitor: selection checked against the definition, and differential execution against a reference store",
}
RULE = (
    "A case is a shelf with up to twelve items, equal ones among them, emptied by a list of gets; or a program of "
    "processes run on the store and on the reference. Non-trivial: a get chose among two or more matches."
)
REQUIRED = {"gets": 5000, "ties": 1000, "reversed": 1000, "equal_items": 1000, "waited": 500, "unmatched": 200,
            "via_task": 1000, "alike": 500, "entries": 20000}
ASSUMPTIONS: list[str] = []


def gen(rng: random.Random) -> Any:
    items = [[rng.randrange(5), rng.choice("abc")] for _ in range(rng.randint(0, 12))]
    gets = [[rng.choice(list(FILTERS)), rng.choice(list(SORTERS)), rng.random() < 0.5, rng.random() < 0.6,
             rng.random() < 0.1] for _ in range(rng.randint(1, 8))]
    return {"items": items, "gets": gets, "more": [[rng.randrange(5), rng.choice("abc")] for _ in range(rng.randint(0, 6))],
            "t0": dy(rng, 0, 16), "mon": rng.random() < 0.3, "alike": rng.random() < 0.3}


class Alike(list):
    """An item equal to every other of its letter (or to none, or to all): equality is up to the user."""

    def __eq__(self, other: Any) -> bool:
        return isinstance(other, list) and self[1] == other[1]

    __hash__ = None  # type: ignore[assignment]


def best(items: list[Any], f: Any, s: Any, reverse: bool) -> tuple[Any, int]:
    match = [i for i in items if f(i)]
    if not match:
        return None, 0
    if s is None:
        return match[0], len(match)
    top = match[0]
    for i in match[1:]:
        if (s(i) > s(top)) if reverse else (s(i) < s(top)):
            top = i
    return top, len(match)


def run(spec: Any, mon: Mon) -> None:
    with UP.EnvironmentContext(initial_time=spec["t0"]) as env:
        shelf = (UP.SelfMonitoringSortedFilterStore if spec["mon"] else UP.SortedFilterStore)(env)
        new = Alike if spec["alike"] else list
        stock: list[Any] = [new(i) for i in spec["items"]]
        mon.hit("alike", int(spec["alike"]))
        for i in stock:
            shelf.put(i)
        env.run(until=env.now + 1)
        actor = UP.Actor(name="a")
        got: list[Any] = []
        waiting: list[Any] = []

        class Take(UP.Task):
            req: Any

            def task(self, *, actor: UP.Actor) -> TASK_GEN:
                n, f, s, r = self.req
                g = UP.SortedFilterGet(shelf, FILTERS[f], SORTERS[s], **({"reverse": True} if r else {}))
                v = yield g
                mon.check(v is g.get_value(), "get-value", "value of the get")
                got.append((n, v))

        def take(n: int, f: str, s: str, r: bool) -> Any:
            v = yield shelf.get(filter=FILTERS[f], sorter=SORTERS[s], **({"reverse": True} if r else {}))
            got.append((n, v))

        def left(what: str) -> None:
            mon.check(len(shelf.items) == len(stock) and all(a is b for a, b in zip(shelf.items, stock)), "left",
                      lambda: f"{what}: left {shelf.items}, expected {stock}")

        for n, (f, s, r, task, drop) in enumerate(spec["gets"]):
            item, k = best(stock, FILTERS[f], SORTERS[s], r)
            if task:
                mon.hit("via_task")
                t = Take()
                t.req = (n, f, s, r)
                t.run(actor=actor)
            else:
                env.process(take(n, f, s, r))
            env.run(until=env.now + 1)
            if item is None:
                mon.hit("unmatched")
                mon.check(not got, "took", lambda: f"get {f} received {got}")
                waiting.append((n, f, s, r))
                continue
            mon.hit("gets")
            mon.hit("reversed", int(r))
            if k > 1:
                mon.nontrivial = True
                key = SORTERS[s]
                mon.hit("ties", sum(1 for i in stock if i is not item and FILTERS[f](i) and (not key or key(i) == key(item))))
                mon.hit("equal_items", sum(1 for i in stock if i is not item and i == item))
            mon.check(len(got) == 1 and got[0][0] == n and got[0][1] is item, "item",
                      lambda: f"get {f}/{s}/reverse={r} of {stock} received {got}, expected {item}")
            got.clear()
            stock = [i for i in stock if i is not item]
            left("after a get")
            mon.see(f, s, r, item)
        for m in spec["more"]:
            x = new(m)
            shelf.put(x)
            env.run(until=env.now + 1)
            takers = [w for w in waiting if FILTERS[w[1]](x)]
            if takers:
                mon.hit("waited")
                mon.check(len(got) == 1 and got[0] == (takers[0][0], x) and got[0][1] is x, "waiting-item",
                          lambda: f"{x} went to {got}, expected request {takers[0]}")
                waiting.remove(takers[0])
                got.clear()
            else:
                mon.check(not got, "took", lambda: f"{x} went to {got}")
                stock.append(x)
            left("after a put")
        mon.eq(len(shelf.get_queue), len(waiting), "waiting", "requests waiting")
        mon.sample = {"items": spec["items"], "gets": spec["gets"][:3], "left": stock}


def gen_prog(rng: random.Random) -> Any:
    return gen_program(rng, "sorted")


def run_prog(spec: Any, mon: Mon) -> None:
    kw = {} if spec["cap"] is None else {"capacity": spec["cap"]}
    want, _ = execute(spec, lambda env: RefSorted(env, **kw), None)
    got, _ = execute(spec, lambda env: UP.SortedFilterStore(env, **kw), mon)
    for n, (a, b) in enumerate(zip(got, want)):
        mon.check(a == b, "program", lambda: f"entry {n}: {a}, reference {b}")
    mon.eq(len(got), len(want), "program-length", f"{got[-2:]} / {want[-2:]}")
    mon.hit("entries", len(got))
    mon.nontrivial = len(got) > 3
    mon.see(got)


SCENARIOS = [Scenario("shelf", gen, run, quick=20000, thorough=596000),
             Scenario("programs", gen_prog, run_prog, quick=16000, thorough=447000)]
