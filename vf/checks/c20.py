"""C20: a windowed get returns all it could get in its window, and gives back on interrupt."""

import random
from typing import Any

import simpy as SIM

import upstage_des.api as UP

from ..core import Mon, Scenario
from ..stores import FILTERS
from ..util import TASK_GEN, dy

PROPERTY = {
    "title": "A windowed get returns what it got in its window, or gives it back",
    "statement": (
        "A windowed get waits for a first item, then collects every item it is granted until its window has passed "
        "since the first item (since the latest one, if the window is reset), and returns them in order at that "
        "instant. When its task is interrupted to end or restart, all collected items are put back and no request "
        "remains; at all times each item is in exactly one place."
    ),
    "quantifier": {"over": ["inputs", "histories", "schedules"],
                   "text": "every arrival pattern, window, filter, competing request and time of interrupt"},
    "why_tests_cant": "Tests have one arrival pattern and no competitor or interrupt at other points of the window.",
    "anchors": {
        "files": ["src/upstage_des/routines.py", "src/upstage_des/task.py"],
        "mechanism": [{"name": "WindowedGet.run, cancel; Task.run's routine handling", "where": "src/upstage_des/routines.py"}],
        "observe_at": ["returned list", "time of return", "store items and queue"],
    },
    "technique": "runtime monitor: differential execution against a raw SimPy process, and conservation of items at every instant",
}
RULE = (
    "A case is a store with arrivals, one to three tasks with windowed gets, competing plain gets and interrupts. "
    "Non-trivial: a window collected an item; distinct by the log."
)
REQUIRED = {"windows": 5000, "collected": 8000, "reset": 1000, "interrupted_END": 200, "interrupted_RESTART": 200,
            "interrupted_IGNORE": 200, "given_back": 300, "competed": 500, "conserved": 10000, "alone": 500,
            "ties": 200, "units": 300, "alike": 1000}
ASSUMPTIONS = [
    "Which of several waiting requests gets an item that is given back is not specified (conservation still is).",
    "An item that arrives at exactly the end of a window may be collected or stay, but is never lost."]


def gen(rng: random.Random) -> Any:
    tie = rng.random() < 0.15

    def at(n: int) -> float:
        """A time on the quarters, off them by a little of its own unless ties are wanted."""
        return rng.randint(0, n) / 4 + (0 if tie else rng.randrange(1, 2**22) / 2**30)

    tasks = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ints = sorted({at(200) for _ in range(rng.choice([0, 0, 0, 1, 2]))})
        tasks.append({"start": at(40), "window": at(40) + 0.25,
                      "reset": rng.random() < 0.4,
                      "filter": rng.choice([None, None, "odd", "a", "big"]), "kw": rng.random() < 0.5,
                      "repeat": rng.randint(1, 3),
                      "ints": [[t + 1 / 64, rng.choice(["END", "RESTART", "IGNORE"])] for t in ints]})
    # (with filters, a SimPy store itself takes out the first equal item)
    alike = rng.random() < 0.3
    for t in tasks:
        t["filter"] = None if alike else t["filter"]
    arr = sorted(at(240) for _ in range(rng.randint(0, 16)))
    comp = sorted(at(240) for _ in range(rng.choice([0, 0, 1, 3])))
    return {"tasks": tasks, "arrive": [[t, rng.randrange(6), rng.choice("ab")] for t in arr], "compete": comp,
            "unit": rng.choice([None, None, "s", "hr"]), "pre": rng.randint(0, 3), "tie": tie,
            "alike": alike}


class Alike(tuple):
    """An item equal to every other one: equality is up to the user."""

    def __eq__(self, other: Any) -> bool:
        return isinstance(other, Alike)

    def __hash__(self) -> int:
        return 1


class Falsy(tuple):
    """An item that is false: a valid item all the same."""

    def __bool__(self) -> bool:
        return False


def plain(items: Any) -> list[Any]:
    return [tuple(x) for x in items]


def simulate(spec: Any, mon: Mon, real: bool) -> list[Any]:
    log: list[Any] = []
    scale = {None: 1.0, "s": 60.0, "hr": 1 / 60}[spec["unit"]]
    total = [0]
    with UP.EnvironmentContext() as env:
        if spec["unit"]:
            UP.add_stage_variable("time_unit", "min")
        store = SIM.FilterStore(env)
        taken: list[Any] = []
        open_gets: dict[int, Any] = {}

        def new(v: Any) -> Any:
            total[0] += 1
            kind = Alike if spec["alike"] else Falsy if v[0] % 3 == 0 else tuple
            return kind((v[0], v[1], total[0]))

        def note(*what: Any) -> None:
            log.append((round(env.now, 6), *what))

        class Collect(UP.Task):
            me: int
            plan: Any
            left: int

            def task(self, *, actor: UP.Actor) -> TASK_GEN:
                p = self.plan
                if env.now < p["start"]:
                    yield UP.Wait(p["start"] - env.now)
                while self.left:
                    kw: dict[str, Any] = {}
                    if p["filter"]:
                        f = FILTERS[p["filter"]]
                        kw = {"get_kwargs": {"filter": f}} if p["kw"] else {"get_args": (f,)}
                    if spec["unit"]:
                        kw["timeout_unit"] = spec["unit"]
                    if p["reset"] or p["kw"]:
                        kw["reset_window"] = p["reset"]
                    w = UP.WindowedGet(store, timeout=p["window"] * scale, **kw)
                    open_gets[self.me] = w
                    res = yield w
                    open_gets.pop(self.me)
                    self.left -= 1
                    taken.extend(plain(res))
                    mon.hit("windows")
                    mon.hit("collected", len(res))
                    mon.hit("reset", int(p["reset"]))
                    note(self.me, "result", plain(res))

            def on_interrupt(self, *, actor: UP.Actor, cause: Any) -> Any:
                mon.hit(f"interrupted_{cause}")
                note(self.me, "interrupt", cause)
                return self.INTERRUPT[cause]

        def reference(me: int, p: Any) -> Any:
            """The same in plain SimPy."""
            left = p["repeat"]
            flt = FILTERS[p["filter"] or "all"]
            if env.now < p["start"]:
                yield from held(me, env.timeout(p["start"] - env.now), lambda: None)
            while left:
                left -= 1
                result: list[Any] = []
                window = None
                try:
                    while True:
                        get = store.get(flt)
                        evt = get if window is None else get | window
                        yield from held(me, evt, get.cancel)
                        if not get.triggered:
                            get.cancel()
                            break
                        result.append(get.value)
                        if window is None or p["reset"]:
                            window = env.timeout(p["window"])
                except Again:
                    for x in result:
                        yield store.put(x)
                    left += 1
                    continue
                except Stop:
                    for x in result:
                        yield store.put(x)
                    return
                taken.extend(plain(result))
                note(me, "result", plain(result))

        class Again(Exception):
            pass

        class Stop(Exception):
            pass

        def held(me: int, evt: Any, undo: Any) -> Any:
            while True:
                try:
                    yield evt
                    return
                except SIM.Interrupt as i:
                    note(me, "interrupt", i.cause)
                    if i.cause == "IGNORE":
                        continue
                    undo()
                    raise Again() if i.cause == "RESTART" else Stop()

        def restart_wrapper(me: int, p: Any) -> Any:
            # an interrupt while waiting for the start
            while True:
                try:
                    yield from reference(me, p)
                    return
                except Again:
                    continue
                except Stop:
                    return

        def arrivals() -> Any:
            for t, n, c in spec["arrive"]:
                if t > env.now:
                    yield env.timeout(t - env.now)
                store.put(new((n, c)))

        def competitor() -> Any:
            for t in spec["compete"]:
                if t > env.now:
                    yield env.timeout(t - env.now)
                x = yield store.get()
                taken.append(tuple(x))
                mon.hit("competed")
                note("competitor", tuple(x))

        for i in range(spec["pre"]):
            store.put(new((i, "a")))
        actor = UP.Actor(name="a")
        for n, p in enumerate(spec["tasks"]):
            if real:
                t = Collect()
                t.me, t.plan, t.left = n, p, p["repeat"]
                proc = t.run(actor=actor)
            else:
                proc = env.process(restart_wrapper(n, p))

            def stopper(proc: Any = proc, ints: Any = p["ints"]) -> Any:
                for at, cause in ints:
                    yield env.timeout(at - env.now)
                    if proc.is_alive:
                        proc.interrupt(cause)

            env.process(stopper())
        env.process(arrivals())
        env.process(competitor())

        def audit() -> Any:
            while True:
                yield env.timeout(1 if env.now else 1 + 1 / 8192)
                held_now = sum(len(w.result) for w in open_gets.values())
                if real:
                    mon.hit("conserved")
                    seen = [*plain(store.items), *taken, *plain(x for w in open_gets.values() for x in w.result)]
                    mon.eq(sorted(seen), sorted(set(seen)), "duplicated", f"items at {env.now}")
                    # an item is in the store, handed out, or in an open window's list
                    mon.eq(len(seen), total[0], "lost", f"items at {env.now}, {held_now} in open windows")

        if real:
            env.process(audit())
        env.run(until=90.0)
        note("end", sorted(taken), plain(store.items), len(store.get_queue))
    # of one instant, what one task sees is in order
    return sorted(log, key=lambda x: (x[0], str(x[1])))


def run(spec: Any, mon: Mon) -> None:
    got = simulate(spec, mon, True)
    gives_back = any(x[2] == "interrupt" and x[3] != "IGNORE" for x in got if len(x) > 3)
    if not spec["tie"] and not (gives_back and len(spec["tasks"]) + len(spec["compete"]) > 1):
        want = simulate(spec, Mon(), False)
        for n, (a, b) in enumerate(zip(got, want)):
            mon.check(a == b, "log", lambda: f"entry {n}: {a}, reference {b}")
        mon.eq(len(got), len(want), "log-length", f"{got[-2:]} / {want[-2:]}")
    mon.hit("alike", int(spec["alike"]))
    mon.hit("ties", int(spec["tie"]))
    mon.hit("units", int(bool(spec["unit"])))
    mon.hit("given_back", sum(1 for x in got if "interrupt" in x[2:3] and x[3] != "IGNORE"))
    mon.nontrivial = any("result" in x[2:3] for x in got)
    mon.see(got)
    mon.sample = {"log": [repr(x)[:100] for x in got[:6]]}


def gen_alone(rng: random.Random) -> Any:
    arr = sorted({rng.randint(0, 160) / 4 for _ in range(rng.randint(1, 14))})
    return {"arrive": arr, "window": dy(rng, 1, 40, 4) + 1 / 64, "reset": rng.random() < 0.5, "start": rng.randint(0, 80) / 4 + 1 / 32}


def run_alone(spec: Any, mon: Mon) -> None:
    """By the definition: one consumer, numbered arrivals."""
    out: list[Any] = []

    class One(UP.Task):
        def task(self, *, actor: UP.Actor) -> TASK_GEN:
            yield UP.Wait(spec["start"])
            r = yield UP.WindowedGet(store, timeout=spec["window"], reset_window=spec["reset"])
            out.append((env.now, list(r)))

    with UP.EnvironmentContext() as env:
        store = SIM.Store(env)

        def arrivals() -> Any:
            for n, t in enumerate(spec["arrive"]):
                yield env.timeout(t - env.now)
                store.put(n)

        env.process(arrivals())
        t = One()
        mon.eq(t.rehearse(actor=UP.Actor(name="r")).env.now, spec["start"], "rehearsed", "rehearsed time")
        mon.eq(out.pop()[1], [UP.PLANNING_FACTOR_OBJECT], "rehearsed-value", "rehearsed result")
        One().run(actor=UP.Actor(name="a"))
        env.run(until=200)
        got: list[int] = []
        at = [max(t, spec["start"]) for t in spec["arrive"]]
        first = at[0]
        last = first
        for n, t in enumerate(at):
            if t < (last if spec["reset"] else first) + spec["window"]:
                got.append(n)
                last = t
            else:
                break
        end = (last if spec["reset"] else first) + spec["window"]
        mon.eq(out, [(end, got)], "definition", f"window {spec['window']} reset {spec['reset']} arrivals {at}")
        mon.eq(list(store.items), list(range(len(got), len(at))), "definition-left", "items left")
        mon.eq(len(store.get_queue), 0, "definition-queue", "requests left")
    mon.hit("alone")
    mon.nontrivial = len(got) > 1
    mon.see(spec["reset"], got, end)


SCENARIOS = [Scenario("windows", gen, run, quick=24000, thorough=450000),
             Scenario("alone", gen_alone, run_alone, quick=8000, thorough=90000)]
