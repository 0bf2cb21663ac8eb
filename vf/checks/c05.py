"""C05: dictionary and dataclass states behave as their typed, self-recording data."""


import dataclasses
import random
import types
from typing import Any

import upstage_des.api as UP

from ..core import Mon, Scenario
from ..util import TASK_GEN, dy

PROPERTY = {
    "title": "Dictionary and dataclass states act as typed, recorded data of one actor",
    "statement": (
        "A dictionary or dataclass state reads, iterates, compares and sizes exactly like the data "
        "last accepted into it, per actor; a value of a wrong type, or replacing the whole state, "
        "raises and changes nothing. When recording, each accepted change of a key or field adds "
        "(time, value) to that key's own history (and the recording functions' results on the whole "
        "object to theirs) under the state's rule for duplicates, and to no other history."
    ),
    "quantifier": {"over": ["histories", "inputs"],
                   "text": "every sequence of reads, legal and illegal writes on every state and actor"},
    "why_tests_cant": "Tests perform a few writes on one actor with one type.",
    "anchors": {
        "files": ["src/upstage_des/states.py", "src/upstage_des/state_proxies.py"],
        "mechanism": [{"name": "DictionaryState/DataclassState and their proxies",
                       "where": "src/upstage_des/state_proxies.py"}],
        "observe_at": ["actor.<state>[key], fields, len, iteration, ==", "actor._state_histories"],
    },
    "technique": "shadow-dictionary monitor over generated read/write programs",
}

RULE = (
    "A case is two actors with generated dictionary and dataclass states and an interleaved program of "
    "reads and writes. Non-trivial: at least 3 accepted writes; distinct by final data and histories."
)
REQUIRED = {"accepted": 1000, "rejected": 300, "reassign": 100, "recorded": 1000,
            "setdefault_old": 30, "setdefault_new": 30, "raw": 50}
ASSUMPTIONS = ["Values stored in recording key/value states are not changed in place."]


@dataclasses.dataclass
class Base:
    a: int
    b: float = 0.5


@dataclasses.dataclass
class Sub(Base):
    c: str = "c"
    d: list = dataclasses.field(default_factory=list)


def total(time: float, value: Any) -> Any:
    if isinstance(value, dict):
        return sum(v for v in value.values() if isinstance(v, int | float))
    return value.a + value.b


def count(time: float, value: Any) -> Any:
    return len(value) if isinstance(value, dict) else value.a


KEYS = ["x", "y", "X", "a b", "w"]
DVALS: list[Any] = [0, 1, 2, -4, 1.5, "s", None, True]
FIELD = {"a": int, "b": float, "c": str, "d": list}
FVALS: dict[str, Any] = {"a": [0, 1, 2, 5], "b": [0.5, 1.5], "c": ["c", "q"], "d": [[], [1]]}


def gen(rng: random.Random) -> Any:
    states = []
    for i in range(rng.randint(1, 3)):
        d = rng.random() < 0.6
        states.append({"name": f"s{i}", "dict": d, "rec": rng.random() < 0.8,
                       "dup": rng.random() < 0.4, "typed": rng.random() < 0.6,
                       "sub": rng.random() < 0.5, "funcs": rng.sample(["total", "count"], rng.randint(0, 2)),
                       "init": [{k: rng.randint(0, 3) for k in rng.sample(KEYS, rng.randint(0, 3))}
                                for _ in range(2)]})
    ops = []
    for _ in range(rng.randint(4, 24)):
        op = rng.choice(["set", "set", "set", "set", "setdefault", "aug", "raw", "reassign", "bad",
                         "missing", "eq"])
        ops.append([op, rng.randrange(2), rng.randrange(len(states)), rng.choice(KEYS),
                    rng.choice(DVALS), rng.choice("abcd"), rng.randint(0, 3),
                    rng.choice([0, 0, dy(rng, 1, 8)])])
    return {"states": states, "ops": ops}


def run(spec: Any, mon: Mon) -> None:
    ns: dict[str, Any] = {}
    for s in spec["states"]:
        fl = [({"total": total, "count": count}[f], f"{s['name']}_{f}") for f in s["funcs"]]
        kw: dict[str, Any] = dict(recording=s["rec"], record_duplicates=s["dup"],
                                  recording_functions=fl or None)
        if s["typed"]:
            kw["valid_types"] = (int, float) if s["dict"] else Base
        ns[s["name"]] = (UP.DictionaryState if s["dict"] else UP.DataclassState)(**kw)
    Cls = types.new_class("Cls", (UP.Actor,), {}, lambda n: n.update(ns))

    with UP.EnvironmentContext() as env:
        shadow: list[dict[str, dict[str, Any]]] = []
        hist: list[dict[str, list[Any]]] = []
        actors: list[Any] = []

        def log(i: int, name: str, v: Any, dup: bool) -> None:
            h = hist[i].setdefault(name, [])
            if not h or dup or h[-1] != (env.now, v):
                h.append((env.now, v))

        def funcs(i: int, s: Any) -> None:
            m = shadow[i][s["name"]]
            for f in s["funcs"]:
                if s["dict"]:
                    v = total(0, m) if f == "total" else len(m)
                else:
                    v = m["a"] + m["b"] if f == "total" else m["a"]
                log(i, f"{s['name']}_{f}", v, s["dup"])

        def accept(i: int, s: Any, k: str, v: Any) -> None:
            shadow[i][s["name"]][k] = v
            mon.hit("accepted")
            if s["rec"]:
                mon.hit("recorded")
                log(i, f"{s['name']}.{k}", v, s["dup"])
                funcs(i, s)

        inputs: list[Any] = []
        for i in range(2):
            init: dict[str, Any] = {}
            shadow.append({})
            hist.append({})
            for s in spec["states"]:
                d = s["init"][i]
                if s["dict"]:
                    init[s["name"]] = dict(d)
                    shadow[i][s["name"]] = dict(d)
                else:
                    cls = Sub if s["sub"] else Base
                    obj = cls(d.get("x", 0), float(d.get("y", 2)))
                    init[s["name"]] = obj
                    shadow[i][s["name"]] = {f.name: getattr(obj, f.name)
                                            for f in dataclasses.fields(obj)}
                if s["rec"]:
                    for k, v in shadow[i][s["name"]].items():
                        log(i, f"{s['name']}.{k}", v, s["dup"])
                    funcs(i, s)
            inputs.append(init)
            actors.append(Cls(name=f"a{i}", **init))
        # the input dictionary is not the state
        for i in range(2):
            for s in spec["states"]:
                if s["dict"]:
                    inputs[i][s["name"]]["alien"] = 5

        def judge(when: str) -> None:
            for i, a in enumerate(actors):
                for s in spec["states"]:
                    m = shadow[i][s["name"]]
                    st = getattr(a, s["name"])
                    w = f"{when}: a{i}.{s['name']}"
                    if s["dict"]:
                        mon.eq(list(st.items()), list(m.items()), "items", w)
                        mon.eq(list(st), list(m), "iter", w)
                        mon.eq((list(st.keys()), list(st.values())), (list(m.keys()), list(m.values())),
                               "keys-values", w)
                        mon.eq(len(st), len(m), "len", w)
                        mon.eq([k in st for k in KEYS], [k in m for k in KEYS], "contains", w)
                        mon.check(st == m, "equal", w)
                        mon.eq(repr(st), repr(m), "repr", w)
                    else:
                        mon.eq({f.name: getattr(st, f.name) for f in dataclasses.fields(st)}, m,
                               "fields", w)
                        mon.check(st == st.raw_object(), "equal", w)
                mon.eq({k: v for k, v in a._state_histories.items()}, hist[i], "history", when)

        judge("initial")
        for op, i, si, key, dv, fld, fk, dt in spec["ops"]:
            s = spec["states"][si]
            a = actors[i]
            name = s["name"]
            m = shadow[i][name]
            st = getattr(a, name)
            if dt:
                env.run(until=env.now + dt)
            if op == "reassign":
                new: Any = {"q": 1} if s["dict"] else Base(9, 9.0)
                mon.raises(UP.SimulationError, lambda: setattr(a, name, new), "reassigned", name)
                mon.hit("reassign")
            elif s["dict"]:
                good = not s["typed"] or isinstance(dv, int | float)
                if op == "set" or op == "bad":
                    if good:
                        st[key] = dv
                        accept(i, s, key, dv)
                    else:
                        mon.raises(TypeError, lambda: st.__setitem__(key, dv), "bad-type-set", repr(dv))
                        mon.hit("rejected")
                elif op == "setdefault":
                    if key in m:
                        mon.eq(st.setdefault(key, dv), m[key], "setdefault-value", key)
                        mon.hit("setdefault_old")
                    elif good:
                        mon.eq(st.setdefault(key, dv), dv, "setdefault-value", key)
                        accept(i, s, key, dv)
                        mon.hit("setdefault_new")
                    else:
                        mon.raises(TypeError, lambda: st.setdefault(key, dv), "bad-type-set", repr(dv))
                        mon.hit("rejected")
                elif op == "aug":
                    if isinstance(m.get(key), int | float):
                        getattr(a, name)[key] += 2
                        accept(i, s, key, m[key] + 2)
                elif op == "raw":
                    st.raw_object()[key] = 3
                    m[key] = 3
                    mon.hit("raw")
                elif op == "missing" and key not in m:
                    mon.raises(KeyError, lambda: st[key], "missing-key", key)
                elif op == "eq":
                    for j, b in enumerate(actors):
                        alike = shadow[j][s["name"]] == m
                        other = getattr(b, s["name"])
                        mon.eq((st == other, st != other), (alike, not alike), "equal-states", f"a{i}.{s['name']} and a{j}'s")
                    mon.check(not st == {**m, "other": 1}, "not-equal", "compared to other data")
                    for x in (5, None, "a", [], list(m), list(m.items())):
                        mon.check(not st == x and st != x, "not-equal", f"compared to {x!r}")
            else:
                fld = fld if fld in m else "a"
                if op in ("set", "setdefault"):
                    v = FVALS[fld][fk % len(FVALS[fld])]
                    v = list(v) if isinstance(v, list) else v
                    setattr(st, fld, v)
                    accept(i, s, fld, v)
                elif op == "aug":
                    st.b += 0.25
                    accept(i, s, "b", m["b"] + 0.25)
                elif op in ("bad", "missing"):
                    bad: Any = None if fk == 2 else {"a": "no", "b": "no", "c": 4, "d": "no"}[fld]
                    mon.raises(TypeError, lambda: setattr(st, fld, bad), "bad-type-set", fld)
                    mon.hit("rejected")
                elif op == "raw":
                    st.raw_object().a = 7
                    m["a"] = 7
                    mon.hit("raw")
                elif op == "eq":
                    for j, b in enumerate(actors):
                        alike = shadow[j][s["name"]] == m
                        other = getattr(b, s["name"])
                        mon.eq((st == other, st != other), (alike, not alike), "equal-states", f"a{i}.{s['name']} and a{j}'s")
                    mon.check(not st == Base(99, 1.0), "not-equal", "compared to other data")
                    for x in (5, None, "a", [], {}, Base):
                        mon.check(not st == x and st != x, "not-equal", f"compared to {x!r}")
            judge(f"after {op}")
        # a mistyped construction is refused
        for s in spec["states"]:
            if s["typed"]:
                kw2: dict[str, Any] = {x["name"]: ({} if x["dict"] else Base(1)) for x in spec["states"]}
                good2 = [(k, 1) for k in KEYS[1:1 + len(spec["ops"]) % 4]]
                good2.insert(len(spec["ops"]) % (len(good2) + 1), ("x", "no"))
                kw2[s["name"]] = dict(good2) if s["dict"] else {"a": 1}
                mon.raises(TypeError, lambda: Cls(name="bad", **kw2), "bad-type-init", s["name"])
                mon.hit("rejected")
        judge("end")
    mon.nontrivial = mon.hits["accepted"] >= 3
    mon.see(shadow, hist)
    mon.sample = {"data": repr(shadow)[:200]}


def gen_task(rng: random.Random) -> Any:
    return {"waits": [[dy(rng, 1, 8), rng.choice(KEYS)] for _ in range(rng.randint(1, 10))],
            "n": rng.randint(1, 4)}


def run_task(spec: Any, mon: Mon) -> None:
    """Parallel tasks count into one dictionary: no update is lost, and each is timed."""

    class Usher(UP.Actor):
        seen = UP.DictionaryState[int](valid_types=(int,), recording=True)

    class Count(UP.Task):
        def task(self, *, actor: Usher) -> TASK_GEN:
            for w, k in spec["waits"]:
                yield UP.Wait(w)
                actor.seen.setdefault(k, 0)
                actor.seen[k] += 1
                mon.hit("accepted")

    with UP.EnvironmentContext() as env:
        u = Usher(name="u", seen={})
        for _ in range(spec["n"]):
            Count().run(actor=u)
        env.run()
        want: dict[str, int] = {}
        for _, k in spec["waits"]:
            want[k] = want.get(k, 0) + spec["n"]
        mon.eq(dict(u.seen.items()), want, "lost-update", "counts")
        t = 0.0
        first: dict[str, float] = {}
        for w, k in spec["waits"]:
            t += w
            h = [v for tt, v in u._state_histories[f"seen.{k}"] if tt == t]
            n0 = sum(1 for ww, kk in spec["waits"][:spec["waits"].index([w, k])] if kk == k)
            del n0
            mon.check(len(h) >= spec["n"], "lost-record", lambda: f"{k} at {t}: {h}")
            first.setdefault(k, t)
        for k, tt in first.items():
            mon.eq(u._state_histories[f"seen.{k}"][0], (tt, 0), "first-record", k)
            vals = [v for _, v in u._state_histories[f"seen.{k}"]]
            mon.eq(vals, list(range(want[k] + 1)), "record-order", k)
        mon.nontrivial = True
        mon.see(want)


SCENARIOS = [Scenario("kv", gen, run, quick=16000, thorough=452000),
             Scenario("parallel", gen_task, run_task, quick=2400, thorough=28250)]
