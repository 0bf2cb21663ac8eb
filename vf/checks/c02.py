"""C02: every entity is registered exactly once in each of its groups, in creation order."""

from __future__ import annotations

import random
import types
from typing import Any

import upstage_des.api as UP

from ..core import Mon, Scenario

PROPERTY = {
    "title": "Every entity is listed exactly once in exactly its own entity groups",
    "statement": (
        "In the context where it is created, every actor and named entity appears exactly once, in "
        "creation order, in each entity group its class declares or inherits and in its class-name "
        "group (unless opted out), and in no other group. Every actor appears exactly once in the "
        "list of actors, and every self-monitoring resource exactly once in the list of monitored ones. What is "
        "refused when it is made, and what is made for it, is in none."
    ),
    "quantifier": {"over": ["programs", "inputs"],
                   "text": "every class hierarchy, group declaration and order of creation"},
    "why_tests_cant": "Tests look at a handful of fixed single-inheritance classes.",
    "anchors": {
        "files": ["src/upstage_des/base.py", "src/upstage_des/actor.py"],
        "mechanism": [{"name": "NamedUpstageEntity.__init_subclass__ and group registration",
                       "where": "src/upstage_des/base.py"}],
        "observe_at": ["UpstageBase.get_entity_group", "UpstageBase.get_actors", "UpstageBase.get_monitored"],
    },
    "technique": "reference-model monitor of the registry over generated class hierarchies",
}

RULE = (
    "A case is a generated class hierarchy (multiple inheritance, entity_groups as none/string/list, "
    "skip_classname, add_to_entity_groups, actors and plain entities) and a creation order of "
    "instances in one or two contexts. Non-trivial: at least two classes related by inheritance were "
    "instantiated; distinct by hierarchy and order."
)
REQUIRED = {"multiple_inheritance": 50, "instances": 500, "second_context": 50, "equal_things": 50, "same_names": 50, "depots": 200, "refused": 200, "loose": 200}
ASSUMPTIONS = ["Group names do not use the reserved names (Actor, Task, Location, ...)."]


def gen(rng: random.Random) -> Any:
    n = rng.randint(2, 7)
    classes = []
    for i in range(n):
        nb = rng.choice([0, 1, 1, 2])
        bases = sorted(rng.sample(range(i), min(nb, i)), reverse=True)
        kind = rng.choice(["actor", "plain"])
        grp: Any = rng.choice([None, "str", "list"])
        if grp == "str":
            grp = rng.choice("pqrs")
        elif grp == "list":
            grp = rng.choices("pqrs", k=rng.randint(0, 3))
        classes.append({"bases": bases, "kind": kind, "groups": grp,
                        "skip": rng.random() < 0.2, "add": rng.random() > 0.12})
    order = [[rng.randrange(n), rng.random() < 0.3] for _ in range(rng.randint(2, 14))]
    return {"classes": classes, "order": order, "names": rng.choice([1, 2, 99]), "eq": rng.random() < 0.3,
            "clash": rng.random() < 0.2, "depots": [rng.choice(["depot", "refused", "refused first", "loose", "clone"]) for _ in range(rng.choice([0, 0, 2, 6]))]}


class Depot(UP.Actor, entity_groups=["p", "depots"]):
    one = UP.ResourceState(default=UP.SelfMonitoringStore)
    many = UP.MultiStoreState(default=UP.SelfMonitoringContainer)
    need = UP.State(valid_types=int)
    last = UP.ResourceState(default=UP.SelfMonitoringSortedFilterStore)


def build(spec: Any, mon: Mon) -> list[Any]:
    out: list[Any] = []
    for i, c in enumerate(spec["classes"]):
        bases = tuple(out[b][0] for b in c["bases"])
        if not bases:
            bases = (UP.Actor,) if c["kind"] == "actor" else (UP.NamedUpstageEntity,)
        kw: dict[str, Any] = {}
        if c["groups"] is not None:
            kw["entity_groups"] = c["groups"]
        if c["skip"]:
            kw["skip_classname"] = True
        if not c["add"]:
            kw["add_to_entity_groups"] = False
        cname = f"Cls{i // 2 if spec['clash'] else i}"  # two classes may have one name

        def fill(ns: dict) -> None:
            if spec["eq"]:  # things of a kind are all equal
                ns["__eq__"] = lambda self, other: type(self) is type(other)
                ns["__hash__"] = lambda self: hash(type(self))

        try:
            cls = types.new_class(cname, bases, kw, fill)
        except TypeError:
            bases = bases[:1]
            cls = types.new_class(cname, bases, kw, fill)
        if not c["add"]:
            groups: set[str] = set()
        else:
            g = c["groups"]
            groups = set() if g is None else ({g} if isinstance(g, str) else set(g))
            if not c["skip"]:
                groups.add(cname)
            for b in cls.__mro__[1:]:
                for k, gr in out:
                    if k is b:
                        groups |= gr
        if len(bases) > 1:
            mon.hit("multiple_inheritance")
        out.append((cls, groups))
    return out


def run(spec: Any, mon: Mon) -> None:
    classes = build(spec, mon)
    names = [f"Cls{i}" for i in range(len(classes))] + list("pqrs") + ["absent", "depots", "Depot"]
    used = set()

    def check(base: UP.UpstageBase, made: list[Any]) -> None:
        for nme in names:
            want = [o for o, g in made if nme in g]
            got = base.get_entity_group(nme)
            mon.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)),
                      "group-members", lambda: f"group {nme}: {got}, expected {want}")
        allg = base.get_all_entity_groups()
        for nme in names:
            want = [o for o, g in made if nme in g]
            got = allg.get(nme, [])
            mon.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)),
                      "all-groups", lambda: f"group {nme}: {got}, expected {want}")
        acts = [o for o, _ in made if isinstance(o, UP.Actor)]
        got = base.get_actors()
        mon.check(len(got) == len(acts) and all(a is b for a, b in zip(got, acts)),
                  "actors", lambda: f"get_actors: {got}, expected {acts}")
        got_m, want_m = base.get_monitored(), monitored if base is here else []
        mon.check(sorted(map(id, got_m)) == sorted(map(id, want_m)), "monitored", lambda: f"get_monitored: {got_m}, expected {want_m}")

    here: Any = None
    monitored: list[Any] = []

    def depot(what: str, n: int) -> Any:
        mon.hit({"depot": "depots", "clone": "depots"}.get(what, what.split()[0]))
        kw: dict[str, Any] = {"many": ["x", "y"] if n % 2 else {"x": {}, "y": {"capacity": 3}}, "need": 1}
        if what == "loose":
            monitored.append([UP.SelfMonitoringStore, UP.SelfMonitoringSortedFilterStore][n % 2](here.env))
        elif what == "refused":
            bad = [{"need": "none"}, {"other": 1}, {"last": {"odd": 1}}, {"last": 5}][n % 4]
            if n % 2:
                kw = {k: v for k, v in reversed(kw.items())}
            mon.raises(Exception, lambda: Depot(name="d", **{**kw, **bad}), "refused", str(bad))
        elif what == "refused first":
            mon.raises(Exception, lambda: Depot(**{**kw, "name": "d", "one": 7}), "refused", "")
        else:
            d = Depot(name="d", **kw)
            monitored.extend([d.one, *d.many.values(), d.last])
            if what == "clone":
                d.clone()
            return d

    with UP.EnvironmentContext():
        here = base = UP.UpstageBase()
        made: list[Any] = []
        second: list[Any] = []
        for j, (i, other) in enumerate(spec["order"]):
            cls, groups = classes[i]

            def make() -> Any:
                return cls(name=f"o{j % spec['names']}") if issubclass(cls, UP.Actor) else cls()

            if other:
                # the same classes in another context leave this one alone
                with UP.EnvironmentContext():
                    o = make()
                    second.append(o)
                    check(UP.UpstageBase(), [(o, groups)])
                    mon.hit("second_context")
            else:
                made.append((make(), groups))
                used.add(i)
                mon.hit("instances")
            check(base, made)
            mon.see(i, other)
            if j < len(spec["depots"]):
                d = depot(spec["depots"][j], j)
                if d is not None:
                    made.append((d, {"p", "depots", "Depot"}))
                check(base, made)
    mon.see([(c["bases"], c["groups"], c["skip"], c["add"], c["kind"]) for c in spec["classes"]])
    mon.nontrivial = any(set(spec["classes"][i]["bases"]) & used for i in used)
    mon.hit("equal_things", int(spec["eq"] and len(used) < len(made)))
    mon.hit("same_names", int(spec["names"] < 3))
    mon.sample = {"groups": [sorted(g) for _, g in classes]}


SCENARIOS = [Scenario("hierarchy", gen, run, quick=9600, thorough=400000)]
