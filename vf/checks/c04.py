"""C04: recorded histories are complete, ordered, timed snapshots of what the states were."""

from __future__ import annotations

import copy
import dataclasses
import random
import types
from typing import Any

import upstage_des.api as UP
from upstage_des.data_utils import record_data

from ..core import Mon, Scenario
from ..util import TASK_GEN, dy

PROPERTY = {
    "title": "Recorded state histories are complete, ordered, timed snapshots",
    "statement": (
        "For a recording state, the history holds one (simulation time, value) entry for every update "
        "in the order they happened, starting with the initial value, except that an update equal in "
        "time and value to the last entry is recorded only when duplicates are asked for; recording "
        "functions follow the same rule with what they returned for that update. Entries are "
        "snapshots that later changes of the state's value never alter, and states that do not record "
        "leave no history. Objects given to the general data recorder are kept the same way, in order."
    ),
    "quantifier": {"over": ["histories", "programs", "schedules"],
                   "text": "every sequence of writes, in-place changes and times, by any processes"},
    "why_tests_cant": "Tests record a few writes of immutable values from one process.",
    "anchors": {
        "files": ["src/upstage_des/states.py", "src/upstage_des/actor.py",
                  "src/upstage_des/data_utils/data_recorder.py"],
        "state": [{"name": "_state_histories", "meaning": "documented list of (time, value) per state",
                   "where": "src/upstage_des/actor.py"}],
        "mechanism": [{"name": "State._do_record/_do_record_funcs", "where": "src/upstage_des/states.py"}],
        "observe_at": ["actor._state_histories", "get_recorded()"],
    },
    "technique": "online recorder monitor comparing every history with a shadow log after each update",
}

RULE = (
    "A case is one or two actors with generated recording options and two or three processes that "
    "write, rewrite, mutate in place, force records and advance time in an interleaved schedule. "
    "Non-trivial: at least 5 updates were recorded; distinct by the observed history shapes."
)
REQUIRED = {"updates": 2000, "dup_suppressed": 200, "dup_recorded": 200, "mutations": 200,
            "func_results": 500, "uncomparable": 50}
ASSUMPTIONS = ["Recording functions do not change the value they are given."]


class Odd:
    """A value whose comparison fails, like an array's truth value."""

    def __init__(self, k: int) -> None:
        self.k = k

    def __eq__(self, o: object) -> Any:
        raise ValueError("ambiguous")

    def __deepcopy__(self, memo: Any) -> "Odd":
        return Odd(self.k)

    def __repr__(self) -> str:
        return f"Odd({self.k})"


class Thing:
    """An ordinary object with a mutable attribute."""

    def __init__(self, items: list[Any]) -> None:
        self.items = items

    def __eq__(self, o: object) -> bool:
        return isinstance(o, Thing) and o.items == self.items

    def __repr__(self) -> str:
        return f"Thing({self.items})"


@dataclasses.dataclass(frozen=True)
class Fixed:
    """An immutable object with mutable contents."""

    name: str
    items: list[Any]


class Tally:
    """A stateful recording class: how often each value has been seen."""

    def __init__(self) -> None:
        self.seen: dict[str, int] = {}

    def __call__(self, time: float, value: Any) -> Any:
        k = repr(value)
        self.seen[k] = self.seen.get(k, 0) + 1
        return max(self.seen.values())


def f_time(time: float, value: Any) -> Any:
    return time * 2


def f_size(time: float, value: Any) -> Any:
    return len(value) if hasattr(value, "__len__") else repr(value)[:1]


def f_const(time: float, value: Any) -> Any:
    return None


def f_self(time: float, value: Any) -> Any:
    return value


FUNCS: dict[str, Any] = {"time": f_time, "size": f_size, "const": f_const, "self": f_self, "tally": Tally}


def gen(rng: random.Random) -> Any:
    n_act = rng.choice([1, 1, 2])
    states = []
    for i in range(rng.randint(1, 4)):
        kinds = ["scalar", "scalar", "list", "dict", "odd", "nested", "tuple", "set", "object", "frozen", "plain"]
        fs = [f for f in FUNCS if rng.random() < 0.3 and not (f == "tally" and n_act > 1)]
        states.append({"name": f"s{i}", "kind": rng.choice(kinds), "rec": rng.random() < 0.85,
                       "dup": rng.random() < 0.4, "funcs": fs})
    procs = []
    for _ in range(rng.randint(1, 3)):
        ops = []
        for _ in range(rng.randint(2, 10)):
            op = rng.choice(["write", "write", "write", "same", "mutate", "record", "data"])
            ops.append([rng.choice([0, 0, dy(rng, 1, 16)]), op, rng.randrange(n_act),
                        rng.randrange(len(states)), rng.randint(0, 2)])
        procs.append({"task": rng.random() < 0.5, "ops": ops})
    return {"n": n_act, "states": states, "procs": procs, "t0": dy(rng, 0, 80)}


def value(kind: str, k: int) -> Any:
    if kind == "scalar":
        return [0, 1, "word"][k]
    if kind == "list":
        return list(range(k))
    if kind == "dict":
        return {f"k{i}": i for i in range(k)}
    if kind == "nested":
        return {"a": [k], "b": {"c": []}}
    if kind == "tuple":
        return ("leg", [k], (k, {"d": [k]}))
    if kind == "set":
        return set(range(k))
    if kind == "object":
        return Thing([k])
    if kind == "frozen":
        return Fixed("f", [k])
    if kind == "plain":
        return [None, True, 2.5][k]
    return Odd(k)


def mutate(kind: str, v: Any) -> bool:
    if kind == "list":
        v.append(9)
    elif kind == "dict":
        v[f"m{len(v)}"] = 1
    elif kind == "nested":
        v["b"]["c"].append(len(v["a"]))
    elif kind == "odd":
        v.k += 10
    elif kind == "tuple":
        v[1].append(7)
        v[2][1]["d"].append(len(v[1]))
    elif kind == "set":
        v.add(50 + len(v))
    elif kind in ("object", "frozen"):
        v.items.append(8)
    else:
        return False
    return True


def same(a: Any, b: Any) -> bool:
    try:
        return bool(a == b)
    except Exception:
        return False


def run(spec: Any, mon: Mon) -> None:
    ns: dict[str, Any] = {}
    for s in spec["states"]:
        fl = [(FUNCS[f], f"{s['name']}_{f}") for f in s["funcs"]]
        ns[s["name"]] = UP.State(recording=s["rec"], record_duplicates=s["dup"],
                                 recording_functions=fl or None)
    Cls = types.new_class("Cls", (UP.Actor,), {}, lambda n: n.update(ns))
    shadow: list[dict[str, list[Any]]] = []
    tallies = {s["name"]: Tally() for s in spec["states"]}
    data: list[Any] = []

    def log(i: int, name: str, t: float, v: Any, dup: bool) -> None:
        h = shadow[i].setdefault(name, [])
        if h and same(h[-1], (t, v)):
            mon.hit("dup_recorded" if dup else "dup_suppressed")
            if not dup:
                return
        h.append((t, v))

    def update(i: int, s: Any, t: float, v: Any) -> None:
        if not s["rec"]:
            return
        mon.hit("updates")
        if s["kind"] == "odd":
            mon.hit("uncomparable")
        log(i, s["name"], t, copy.deepcopy(v), s["dup"])
        for f in s["funcs"]:
            fn = tallies[s["name"]] if f == "tally" else FUNCS[f]
            mon.hit("func_results")
            log(i, f"{s['name']}_{f}", t, copy.deepcopy(fn(t, v)), s["dup"])

    def judge(when: str) -> None:
        for i, a in enumerate(actors):
            got = a._state_histories
            mon.eq(sorted(got), sorted(shadow[i]), "history-names", when)
            for k, h in shadow[i].items():
                mon.check(repr(got[k]) == repr(h), "history",
                          lambda: f"{when}: {a.name}.{k} is {got[k]}, expected {h}")
                ts = [e[0] for e in got[k]]
                mon.check(ts == sorted(ts) and all(type(t) is float for t in ts), "history-times", k)

    def step(op: Any) -> None:
        _, kind, i, si, k = op
        s = spec["states"][si]
        a = actors[i]
        now = env.now
        if kind == "data":
            obj = {"k": [k]}
            record_data(obj, copy=True)
            data.append((now, copy.deepcopy(obj)))
            obj["k"].append("later")
            mon.eq(a.get_recorded(), data, "data-recorder", "general data recorder")
            return
        if kind == "write":
            v = value(s["kind"], k)
            setattr(a, s["name"], v)
            update(i, s, now, v)
        elif kind == "same":
            v = getattr(a, s["name"])
            setattr(a, s["name"], v)
            update(i, s, now, v)
        elif kind == "record":
            a.record_state(s["name"])
            update(i, s, now, getattr(a, s["name"]))
        elif mutate(s["kind"], getattr(a, s["name"])):
            mon.hit("mutations")
        judge(f"after {kind} of {s['name']} at {now}")

    class T(UP.Task):
        ops: list[Any]

        def task(self, *, actor: Any) -> TASK_GEN:
            for op in self.ops:
                if op[0]:
                    yield UP.Wait(op[0])
                step(op)
            yield UP.Wait(1.0)

    with UP.EnvironmentContext(initial_time=spec["t0"]) as env:
        actors: list[Any] = []
        for i in range(spec["n"]):
            init = {s["name"]: value(s["kind"], i) for s in spec["states"]}
            shadow.append({})
            a = Cls(name=f"a{i}", **init)
            actors.append(a)
            for s in spec["states"]:
                update(i, s, env.now, init[s["name"]])
        judge("initial")

        def proc(ops: list[Any]) -> Any:
            for op in ops:
                if op[0]:
                    yield env.timeout(op[0])
                step(op)
            yield env.timeout(1.0)

        for p in spec["procs"]:
            if p["task"]:
                t = T()
                t.ops = p["ops"]
                t.run(actor=actors[0])
            else:
                env.process(proc(p["ops"]))
        env.run()
        judge("end")
    mon.nontrivial = mon.hits["updates"] >= 5
    mon.see([[(k, len(h)) for k, h in s.items()] for s in shadow], spec["procs"])
    mon.sample = {"histories": {k: repr(v)[:80] for k, v in shadow[0].items()}}


SCENARIOS = [Scenario("record", gen, run, quick=16000, thorough=548000)]
