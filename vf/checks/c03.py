"""C03: actor states keep their declared contract (types, frozen, defaults, init rules)."""

from __future__ import annotations

import random
import types
from typing import Any

import simpy

import upstage_des.api as UP

from ..core import Mon, Scenario
from ..util import dy

PROPERTY = {
    "title": "Actor states honor their declared types, frozenness and defaults",
    "statement": (
        "An actor is constructed exactly when every state gets a legal value (given, or from its "
        "default, factories being called once per instance) and no state or recording name clashes or "
        "is the reserved `log`, and otherwise fails with the documented error. A state always reads back the last accepted value of that one actor; a write that "
        "breaks the declared types, a frozen state or a set resource raises and changes nothing, "
        "neither the value, the recorded history nor any other state or actor."
    ),
    "quantifier": {"over": ["inputs", "programs", "histories"],
                   "text": "every set of state declarations, constructor input and write sequence"},
    "why_tests_cant": "Tests use a few hand-written actors with one option at a time.",
    "anchors": {
        "files": ["src/upstage_des/states.py", "src/upstage_des/actor.py"],
        "state": [{"name": "state values", "meaning": "per-actor value of each state",
                   "where": "src/upstage_des/states.py"}],
        "mechanism": [{"name": "State.__set__/__get__/_set_default, ResourceState.__set__",
                       "where": "src/upstage_des/states.py"},
                      {"name": "Actor.__init_states", "where": "src/upstage_des/actor.py"}],
        "observe_at": ["attribute reads and writes on actors", "constructor errors"],
    },
    "technique": "reference-model monitor over generated state declarations and write programs",
}

RULE = (
    "A case is a set of generated state declarations (on a parent and a child class), two or three "
    "constructions with legal, missing, unknown, mistyped or forbidden inputs, and a program of legal "
    "and illegal writes. Non-trivial: an actor was built and at least one write was judged; distinct "
    "by declarations and observed outcomes."
)
REQUIRED = {"rejected_type": 40, "rejected_frozen": 40, "bad_construction": 100, "accepted": 400,
            "unset_read": 20, "resource_reset": 20, "bad_names": 50}
ASSUMPTIONS = ["State names on a class hierarchy are unique."]

TYPES: dict[str, Any] = {"int": int, "str": str, "float": float, "num": (int, float), "list": list,
                         "none": (int, type(None))}
VALUES: list[Any] = [0, 1, -3, 7, "", "x", "word", 0.0, 2.5, -1.25, True, False, [], [1], ["a", 2],
                     None, {}, {"k": 1}]
GOOD = {"int": [0, 1, -3, 7, True], "str": ["", "x", "word"], "float": [0.0, 2.5],
        "num": [0, 2.5, -1.25], "list": [[], [1]], "none": [None, 3]}


def gen_state(rng: random.Random, i: int) -> Any:
    ty = rng.choice([None, None, "int", "str", "float", "num", "list", "none"])
    pool = GOOD[ty] if ty and rng.random() < 0.9 else VALUES
    d = {"name": f"s{i}", "types": ty, "default": None, "factory": False, "frozen": False,
         "no_init": False, "none_ok": False, "rec": rng.random() < 0.4}
    r = rng.random()
    if r < 0.35:
        d["default"] = rng.choice([v for v in pool if not isinstance(v, list | dict)] or [None])
    elif r < 0.6:
        d["factory"] = True
        d["default"] = rng.choice(pool)
    elif r < 0.72:
        d["none_ok"] = True
    d["frozen"] = rng.random() < 0.3
    d["no_init"] = rng.random() < (0.25 if d["default"] is not None or d["factory"] else 0.02)
    return d


def pick(rng: random.Random, s: Any) -> Any:
    if s["types"] and rng.random() < 0.75:
        return rng.choice(GOOD[s["types"]])
    return rng.choice(VALUES)


def gen(rng: random.Random) -> Any:
    n = rng.randint(1, 5)
    states = [gen_state(rng, i) for i in range(n)]
    split = rng.randint(0, n)
    builds = []
    for _ in range(rng.randint(2, 4)):
        kw = []
        for s in states:
            need = s["default"] is None and not s["factory"] and not s["none_ok"]
            p = 0.02 if s["no_init"] else (0.95 if need else 0.5)
            if rng.random() < p:
                v = rng.choice(GOOD[s["types"]]) if s["types"] and rng.random() < 0.93 else pick(rng, s)
                kw.append([s["name"], v])
        if rng.random() < 0.06:
            kw.append(["zz", 1])
        rng.shuffle(kw)
        builds.append({"cls": rng.random() < 0.75, "kw": kw})
    ops = []
    for _ in range(rng.randint(3, 16)):
        s = rng.choice(states)
        ops.append([rng.randint(0, 3), s["name"], pick(rng, s), rng.random() < 0.3, dy(rng, 1, 8)])
    return {"states": states, "split": split, "builds": builds, "ops": ops}


UNSET = ("<unset>",)


def fits(s: Any, v: Any) -> bool:
    return s["types"] is None or isinstance(v, TYPES[s["types"]])


def run(spec: Any, mon: Mon) -> None:
    calls: dict[str, int] = {}

    def make(s: Any) -> Any:
        kw: dict[str, Any] = {}
        if s["types"]:
            kw["valid_types"] = TYPES[s["types"]]
        if s["factory"]:
            def fac() -> Any:
                calls[s["name"]] = calls.get(s["name"], 0) + 1
                v = s["default"]
                return list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v
            kw["default_factory"] = fac
        elif s["default"] is not None:
            kw["default"] = s["default"]
        for a, b in (("frozen", "frozen"), ("no_init", "no_init"), ("rec", "recording"),
                     ("none_ok", "allow_none_default")):
            if s[a]:
                kw[b] = True
        if s["no_init"] and not s["factory"] and s["default"] is None:
            mon.raises(UP.SimulationError, lambda: UP.State(**kw), "noinit-nodefault", "definition")
            mon.hit("bad_definition")
            return None
        if s["factory"] and s["default"] is not None:
            mon.raises(UP.UpstageError, lambda: UP.State(default=s["default"], **kw),
                       "both-defaults", "definition with default and factory")
        return UP.State(**kw)

    made = [(s, make(s)) for s in spec["states"]]
    made = [(s, st) for s, st in made if st is not None]
    sp = spec["split"]
    Parent = types.new_class("Parent", (UP.Actor,), {},
                             lambda ns: ns.update({s["name"]: st for s, st in made[:sp]}))
    Child = types.new_class("Child", (Parent,), {},
                            lambda ns: ns.update({s["name"]: st for s, st in made[sp:]}))
    defs = {s["name"]: s for s, _ in made}
    built: list[tuple[Any, dict[str, Any], list[str]]] = []
    with UP.EnvironmentContext() as env:
        for bi, b in enumerate(spec["builds"]):
            cls = Child if b["cls"] else Parent
            mine = [s for s, _ in (made if b["cls"] else made[:sp])]
            names = {s["name"] for s in mine}
            kw = {k: v for k, v in b["kw"]}
            kw = {k: v for k, v in kw.items() if k in names or k == "zz" or b["cls"]}
            errs: set[Any] = set()
            model: dict[str, Any] = {}
            for k, v in kw.items():
                if k not in names:
                    errs.add(UP.UpstageError)
                elif defs[k]["no_init"]:
                    errs.add(UP.SimulationError)
                elif not fits(defs[k], v):
                    errs.add(TypeError)
                else:
                    model[k] = v
            before = dict(calls)
            want_calls = dict(calls)
            for s in mine:
                k = s["name"]
                if k in kw:
                    continue
                if s["factory"] or s["default"] is not None:
                    if s["factory"]:
                        want_calls[k] = want_calls.get(k, 0) + 1
                    if not fits(s, s["default"]):
                        errs.add(TypeError)
                    model[k] = s["default"]
                elif s["none_ok"]:
                    model[k] = UNSET
                else:
                    errs.add(UP.UpstageError)
            if errs:
                e = mon.raises(Exception, lambda: cls(name=f"a{bi}", **kw), "accepted-bad-init",
                               f"constructing with {kw}")
                mon.check(any(type(e) is t or (t is UP.UpstageError and isinstance(e, t))
                              for t in errs), "wrong-init-error",
                          lambda: f"{type(e).__name__}: {e}; expected one of {errs} for {kw}")
                mon.hit("bad_construction")
                mon.see("bad", sorted(t.__name__ for t in errs))
                calls.clear()
                calls.update(before)
                continue
            a = cls(name=f"a{bi}", **kw)
            mon.eq(calls, want_calls, "factory-calls", "calls of default factories")
            mon.eq(set(a.states), names, "state-names", "names of the states")
            for k, v in kw.items():
                mon.check(getattr(a, k) is v, "given-identity", lambda: f"{k} is not the given object")
            built.append((a, model, sorted(names)))
            mon.see("built", len(names))
            mon.hit("built")
        if not built:
            return

        def observe(when: str) -> None:
            for a, model, names in built:
                for k in names:
                    if model[k] is UNSET:
                        mon.raises(UP.SimulationError, lambda: getattr(a, k), "unset-read", k)
                        mon.hit("unset_read")
                        continue
                    got = getattr(a, k)
                    mon.check(type(got) is type(model[k]) and got == model[k], "value",
                              lambda: f"{when}: {a.name}.{k} is {got!r}, expected {model[k]!r}")
                if all(v is not UNSET for v in model.values()):
                    mon.eq(a.state_values, model, "state_values", when)

        def hist() -> Any:
            return [{k: list(v) for k, v in a._state_histories.items()} for a, _, _ in built]

        observe("start")
        # values made by a factory are not shared between actors
        for k, s in defs.items():
            if s["factory"] and isinstance(s["default"], list | dict):
                objs = [getattr(a, k) for a, m, names in built if k in names]
                objs = [o for o in objs if isinstance(o, list | dict)]
                mon.check(len({id(o) for o in objs}) == len(objs), "factory-shared", lambda: f"{k} shares one factory value")
        for who, k, v, adv, dt in spec["ops"]:
            a, model, names = built[who % len(built)]
            if adv:
                env.run(until=env.now + dt)
            if k not in names:
                continue
            s = defs[k]
            frozen = s["frozen"] and model[k] is not UNSET
            h0 = hist()
            mon.nontrivial = True
            if frozen:
                mon.raises(UP.SimulationError, lambda: setattr(a, k, v), "frozen-written",
                           f"writing {v!r} to frozen {k}={model[k]!r}")
                mon.hit("rejected_frozen")
                mon.eq(hist(), h0, "rejected-recorded", "history after a rejected write")
                mon.see(k, "frozen")
            elif not fits(s, v):
                mon.raises(TypeError, lambda: setattr(a, k, v), "type-written",
                           f"writing {v!r} to {k} of {s['types']}")
                mon.hit("rejected_type")
                mon.eq(hist(), h0, "rejected-recorded", "history after a rejected write")
                mon.see(k, "type")
            else:
                setattr(a, k, v)
                model[k] = v
                mon.check(getattr(a, k) is v, "identity", lambda: f"{k} is not the object written")
                mon.hit("accepted")
                mon.see(k, "ok", repr(v))
                h1 = hist()
                for i, (o, _, _) in enumerate(built):
                    for key in h1[i]:
                        if (o is not a or key != k) and h1[i][key] != h0[i].get(key):
                            mon.fail("cross-recorded", f"writing {a.name}.{k} changed {o.name}.{key}")
            observe("after write")
    mon.sample = {"actors": len(built)}


class SubStore(UP.SelfMonitoringStore):
    pass


KINDS: dict[str, Any] = {
    "Store": simpy.Store, "Container": simpy.Container, "FilterStore": simpy.FilterStore,
    "SMStore": UP.SelfMonitoringStore, "SMContainer": UP.SelfMonitoringContainer, "Sub": SubStore,
    "SMFilter": UP.SelfMonitoringFilterStore, "Reserve": UP.ReserveContainer,
    "int": int,
}
CONTAINERS = {"Container", "SMContainer"}


def gen_res(rng: random.Random) -> Any:
    def kind() -> str:
        return rng.choice(["Store", "Container", "FilterStore", "SMStore", "SMContainer", "Sub"])

    n = rng.randint(1, 3)
    states = []
    for i in range(n):
        d = kind() if rng.random() < 0.7 else None
        valid = rng.choice([None, None, [d] if d else None, ["Store"], ["Container"],
                            ["Store", "SMContainer"]])
        dk: dict[str, Any] = {}
        if rng.random() < 0.4:
            dk["capacity"] = rng.randint(5, 9)
        states.append({"name": f"r{i}", "default": d, "valid": valid, "dk": dk,
                       "multi": rng.random() < 0.3})
    builds = []
    for _ in range(rng.randint(1, 3)):
        kw = {}
        for s in states:
            if s["multi"]:
                kw[s["name"]] = {f"k{j}": gen_value(rng, kind) for j in range(rng.randint(0, 3))}
            elif rng.random() < 0.75:
                kw[s["name"]] = gen_value(rng, kind)
        builds.append(kw)
    return {"states": states, "builds": builds}


def gen_value(rng: random.Random, kind: Any) -> Any:
    r = rng.random()
    if r < 0.15:
        return {"obj": kind(), "capacity": rng.randint(1, 20)}
    v: dict[str, Any] = {}
    if rng.random() < 0.5:
        v["kind"] = kind()
    if rng.random() < 0.4:
        v["capacity"] = rng.randint(1, 20)
    if rng.random() < 0.2:
        v["init"] = rng.randint(0, 5)
    if rng.random() < 0.05:
        v["nonsense"] = 1
    return v


def run_res(spec: Any, mon: Mon) -> None:
    ns: dict[str, Any] = {}
    for s in spec["states"]:
        valid = None if s["valid"] is None else tuple(KINDS[k] for k in s["valid"])
        kw: dict[str, Any] = {"valid_types": valid, "default_kwargs": dict(s["dk"])}
        if s["default"]:
            kw["default"] = KINDS[s["default"]]
        ns[s["name"]] = UP.MultiStoreState(**kw) if s["multi"] else UP.ResourceState(**kw)
    mon.raises(UP.UpstageError, lambda: UP.ResourceState(default=int), "bad-default", "int default")
    mon.raises(UP.UpstageError, lambda: UP.ResourceState(valid_types=(int,)), "bad-valid", "int type")
    Cls = types.new_class("Cls", (UP.Actor,), {}, lambda n: n.update(ns))
    with UP.EnvironmentContext() as env:
        made: list[Any] = []
        for bi, kw in enumerate(spec["builds"]):
            bad = False
            given: dict[str, Any] = {}
            want: dict[str, Any] = {}

            def one(s: Any, v: Any) -> tuple[Any, Any]:
                """(input, expectation) for one resource; expectation None when it must fail."""
                valid = tuple(KINDS[k] for k in s["valid"]) if s["valid"] else None
                if valid is None and not s["multi"]:
                    valid = (simpy.Store, simpy.Container)
                if v is not None and "obj" in v:
                    obj = KINDS[v["obj"]](env, capacity=v["capacity"])
                    ok = valid is None or isinstance(obj, valid)
                    return obj, (("same", obj) if ok else None)
                inp = {} if v is None else {k: (KINDS[x] if k == "kind" else x) for k, x in v.items()}
                kind = (v or {}).get("kind", s["default"])
                if kind is None:
                    return inp, None
                args = dict(s["dk"])
                args.update({k: x for k, x in (v or {}).items() if k != "kind"})
                if valid is not None and not issubclass(KINDS[kind], valid):
                    return inp, None
                cont = kind in CONTAINERS
                if "nonsense" in args or ("init" in args and not cont):
                    return inp, None
                cap = args.get("capacity", float("inf"))
                if args.get("init", 0) > cap:
                    return inp, None
                return inp, ("new", KINDS[kind], cap, args.get("init", 0) if cont else None)

            for s in spec["states"]:
                k = s["name"]
                if s["multi"]:
                    pairs = {kk: one(s, v) for kk, v in kw[k].items()}
                    given[k] = {kk: p[0] for kk, p in pairs.items()}
                    want[k] = {kk: p[1] for kk, p in pairs.items()}
                    bad |= any(x is None for x in want[k].values())
                else:
                    inp, w = one(s, kw.get(k))
                    if k in kw:
                        given[k] = inp
                    elif s["default"] is None:
                        w = None
                    want[k] = w
                    bad |= w is None
            frozen_input = repr(given)
            if bad:
                mon.raises((UP.UpstageError, TypeError), lambda: Cls(name=f"c{bi}", **given), "bad-resource",
                           f"constructing with {given}")
                mon.hit("bad_construction")
                mon.see("bad")
                continue
            a = Cls(name=f"c{bi}", **given)
            mon.eq(repr(given), frozen_input, "input-mutated", "the constructor's input")
            made.append(a)
            mon.nontrivial = True

            def judge(res: Any, w: Any, k: str) -> None:
                if w[0] == "same":
                    mon.check(res is w[1], "given-resource", f"{k} is not the given resource")
                    return
                mon.check(type(res) is w[1], "resource-kind", lambda: f"{k}: {type(res)} not {w[1]}")
                mon.eq(res.capacity, w[2], "resource-capacity", k)
                if w[3] is not None:
                    mon.eq(res.level, w[3], "resource-level", k)
                else:
                    mon.eq(list(res.items), [], "resource-items", k)
                for o in made[:-1]:
                    for st in spec["states"]:
                        vals = getattr(o, st["name"])
                        vals = list(vals.values()) if st["multi"] else [vals]
                        mon.check(all(res is not x for x in vals), "resource-shared",
                                  f"{k} is shared by two actors")
                mon.see(w[1].__name__, w[2])

            for s in spec["states"]:
                k = s["name"]
                if s["multi"]:
                    mon.eq(list(getattr(a, k).keys()), list(want[k]), "multi-keys", k)
                    for kk, w in want[k].items():
                        judge(getattr(a, k)[kk], w, f"{k}[{kk}]")
                        mon.check(getattr(a, k)[kk] is getattr(a, k)[kk], "multi-identity", k)
                    mon.raises(UP.UpstageError, lambda: setattr(a, k, {}), "resource-reset", k)
                else:
                    res = getattr(a, k)
                    judge(res, want[k], k)
                    for v in ({}, {"kind": simpy.Store}, simpy.Store(env)):
                        mon.raises(UP.UpstageError, lambda: setattr(a, k, v), "resource-reset", k)
                    mon.check(getattr(a, k) is res, "resource-replaced", f"{k} changed by a rejected write")
                mon.hit("resource_reset")


NAMES = ["log", "logs", "a", "b", "a_sum", "b_sum", "name2"]


def gen_names(rng: random.Random) -> Any:
    states = []
    for n in rng.sample(NAMES, rng.randint(1, 4)):
        states.append({"name": n, "default": rng.choice([None, 1, 2]), "given": rng.random() < 0.6,
                       "none_ok": rng.random() < 0.2,
                       "funcs": [rng.choice([n + "_sum", "a_sum", n + "_max", "log"] if rng.random() < 0.3
                                            else [f"{n}_f{j}"]) for j in range(rng.choice([0, 0, 1, 2]))]})
    return {"states": states, "split": rng.randint(0, len(states))}


def rec_one(time: float, value: Any) -> Any:
    return value


def run_names(spec: Any, mon: Mon) -> None:
    """Reserved and clashing names are refused at construction, whatever the rest looks like."""
    sts = spec["states"]

    def ns(part: Any) -> Any:
        out: dict[str, Any] = {}
        for s in part:
            kw: dict[str, Any] = {"allow_none_default": True} if s["none_ok"] else {}
            if s["default"] is not None:
                kw["default"] = s["default"]
            out[s["name"]] = UP.State(recording=True, recording_functions=[(rec_one, f) for f in s["funcs"]],
                                      **kw)
        return out

    Parent = types.new_class("Parent", (UP.Actor,), {}, lambda n: n.update(ns(sts[:spec["split"]])))
    Cls = types.new_class("Cls", (Parent,), {}, lambda n: n.update(ns(sts[spec["split"]:])))
    with UP.EnvironmentContext() as env:
        kw = {s["name"]: 5 for s in sts if s["given"]}
        missing = any(not s["given"] and s["default"] is None and not s["none_ok"] for s in sts)
        names = [s["name"] for s in sts] + [f for s in sts for f in s["funcs"]]
        reserved = any(s["name"] == "log" for s in sts)
        clash = len(set(names)) != len(names)
        mon.see(reserved, clash, missing, len(names))
        mon.nontrivial = True
        if reserved or clash or missing:
            mon.raises(UP.UpstageError, lambda: Cls(name="n", **kw), "bad-names",
                       f"{names}: reserved {reserved} clash {clash} missing {missing}")
            mon.hit("bad_construction")
            if reserved or clash:
                mon.hit("bad_names")
            return
        a = Cls(name="n", **kw)
        for s in sts:
            if s["given"] or s["default"] is not None:
                v = 5 if s["given"] else s["default"]
                for n in (s["name"], *s["funcs"]):
                    mon.eq(a._state_histories[n], [(env.now, v)], "recorded-name", n)


SCENARIOS = [
    Scenario("names", gen_names, run_names, quick=2400, thorough=60000),
    Scenario("states", gen, run, quick=12000, thorough=600000),
    Scenario("resources", gen_res, run_res, quick=4000, thorough=200000),
]
