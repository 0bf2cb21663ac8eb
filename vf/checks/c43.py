"""C43: the order in which independent things are made, listed and set up does not matter."""

import dataclasses
import enum
import json
import random
import warnings
from typing import Any

import upstage_des.api
import upstage_des.api as UP
from upstage_des.data_utils import create_location_table, create_table
from upstage_des.motion.cartesian_model import cartesian_linear_intersection
from upstage_des.type_help import TASK_GEN

from .. import det
from ..core import Mon, Scenario
from .c40 import first, same

PROPERTY = {
    "title": "The order in which independent things are made and listed does not matter",
    "statement": (
        "When no two events that depend on each other fall on the same instant, a model has the same history in whatever order its parts are made, "
        "listed and set up: the declaration of states, the values given to an actor or task, the making of actors, managers and "
        "sensors, the adding and starting of task networks, the names a nucleus watches, the links, connections and blocks of a comms manager, "
        "stage variables, entity groups, recording functions, the events of an Any or an All, and at one instant the states that are "
        "activated, mimicked, changed or deactivated, the flows into a container and the knowledge that is set. Every one of them "
        "counts, and none of them counts twice."
    ),
    "quantifier": {"over": ["configurations", "histories", "inputs"],
                   "text": "every model over actors, states, networks, nuclei, events, resources, comms, motion and rehearsal; every such order"},
    "why_tests_cant": "Tests list things in one order, mostly one or two of a kind; code for which only the first or the last of several "
                      "counts, or where one takes the place of another, agrees with them.",
    "anchors": {
        "files": ["src/upstage_des/actor.py", "src/upstage_des/states.py", "src/upstage_des/state_sharing.py", "src/upstage_des/task_network.py", "src/upstage_des/nucleus.py",
                  "src/upstage_des/events.py", "src/upstage_des/base.py", "src/upstage_des/resources/container.py",
                  "src/upstage_des/resources/monitoring.py", "src/upstage_des/motion/motion.py", "src/upstage_des/motion/stepped_motion.py",
                  "src/upstage_des/communications/comms.py", "src/upstage_des/communications/routing.py", "src/upstage_des/data_utils/data_utils.py"],
        "mechanism": [{"name": "Actor, TaskNetworkNucleus, MultiEvent, SteppedMotionManager, RoutingTableCommsManager", "where": "src/upstage_des/"}],
        "observe_at": ["task and callback steps", "states", "histories", "create_table", "create_location_table", "monitored quantities", "entity groups"],
    },
    "technique": "runtime monitor: metamorphic oracle comparing the recorded histories of one model whose parts are made and listed in different orders",
}
RULE = "A case is a generated model run in its own and in two other orders. Non-trivial: its history has 40 timed entries or more; distinct by the history."
REQUIRED = {"orders": 500, "entries": 50000, "interrupts": 300, "steps": 5000, "any": 500, "all": 500, "messages": 500, "crossings": 500, "rows": 10000, "flows": 500,
            "rehearsed": 200, "mimics": 200, "knowledge": 200, "lists": 50000}
ASSUMPTIONS = ["Times are drawn so that independent parts do not meet on one instant; entries of one instant are compared as a set, values to 1e-6."]


@dataclasses.dataclass
class Gear:
    ammo: int = 0
    fuel: float = 0.0


HOLD = ["fuel", "heat", "load", "location", "shown"]
FLOWS = [[("put", 1.0, 1.25), ("get", 0.5, 2.0), ("put", 0.25, 0.75), ("get", 2.0, 0.5)], [("put", 0.5, 3.0), ("put", 2.0, 5.5), ("put", 0.25, 6.0), ("put", 1.0, 2.25), ("get", 0.125, 8.0)],
         [("get", 1.0, 4.0), ("get", 0.5, 2.75), ("get", 0.25, 7.0), ("get", 2.0, 6.0), ("put", 0.125, 7.5)]]
EVENTS = ["wait", "bin", "shelf", "know", "tool", "crate", "sorted"]


def gen(rng: random.Random) -> Any:
    def t(lo: float, hi: float) -> float:
        return rng.uniform(lo, hi)

    n = rng.randint(1, 4)
    units = []
    for _ in range(n):
        holds = HOLD[:]
        rng.shuffle(holds)
        nets = []
        for _ in range(rng.randint(0, 3)):
            # a state is held by one network; the shared one by any
            mine = [holds.pop() for _ in range(min(len(holds), rng.randint(0, 2)))]
            mine += ["load"] if "load" not in mine and "load" not in holds and rng.random() < 0.5 else []
            tasks = [{"hold": mine if rng.random() < 0.8 else mine[:1], "wait": t(0.5, 4), "how": rng.choice(["wait", "any", "all"]),
                      "events": [["wait", t(0.5, 5)], *rng.sample([["bin", 0], ["know", 0]], rng.randint(0, 2))], "set": rng.random() < 0.5}
                     for _ in range(rng.randint(1, 3))]
            nets.append({"tasks": tasks, "watch": rng.sample(["level", "mode", "other"], rng.randint(0, 3)), "on": rng.choice(["restart", "end", "ignore"]), "at": t(0, 1)})
        units.append({"nets": nets, "start": [t(-8, 8), t(-8, 8)], "way": [[t(-8, 8), t(-8, 8)] for _ in range(rng.randint(1, 3))], "speed": t(0.5, 3), "load": t(0, 5)})
    getters = [{"unit": rng.randrange(n), "at": t(0, 6), "how": rng.choice(["any", "all", "any"]), "events": [[k, t(0.5, 6)] for k in rng.sample(EVENTS, rng.randint(2, 4))],
                "again": rng.randint(0, 2), "pause": t(0.01, 0.5), "nest": rng.random() < 0.3} for _ in range(rng.randint(0, 4))]
    ops = []
    for _ in range(rng.randint(5, 30)):
        ops.append({"at": t(0.01, 12), "unit": rng.randrange(n), "k": rng.randrange(6), "j": rng.randrange(6),
                    "what": rng.choice(["level", "mode", "other", "many", "bin", "bin", "shelf", "shelf", "know", "know", "crate", "message", "message", "message", "flows", "flows", "hide",
                                        "interrupt", "rehearse", "key", "gear", "net", "forget", "unwatch", "block", "reserve", "facts"])})
    nodes = rng.randint(2, 7)
    near = rng.choice([1, 3, 9])  # a star, or a chain
    return {"units": units, "getters": getters, "ops": sorted(ops, key=lambda o: o["at"]), "stepped": rng.random() < 0.5, "until": 14.013,
            "eyes": [{"at": [t(-8, 8), t(-8, 8)], "r": t(1, 6)} for _ in range(rng.randint(0, 4))],
            "nodes": nodes, "tree": [rng.randrange(max(0, k - near), k) if near < 9 else rng.choice([0, 0, 0, rng.randrange(k)]) for k in range(1, nodes)], "comms": rng.choice(["table", "point"]), "ignore": rng.random() < 0.5,
            "block": rng.sample(range(nodes), rng.randint(0, nodes // 2)) if rng.random() < 0.3 else [],
            "cut": [rng.sample(range(nodes), 2) for _ in range(rng.randint(0, 3))] if rng.random() < 0.4 else [],
            "amount": rng.choice([4, 64]), "orders": [rng.randrange(1 << 30) for _ in range(2)]}


class Sub:
    """The api with some of its classes replaced by subclasses that add nothing."""

    def __init__(self, way: Any):
        self._way = way

    def __getattr__(self, name: str) -> Any:
        real = getattr(upstage_des.api, name)
        # an actor's classes are groups; what the library makes itself is of its own classes
        if isinstance(real, type) and name not in ("Actor", "NucleusInterrupt") and not issubclass(real, enum.Enum) and self._way(f"sub {name}", 2):
            real = type(real.__name__, (real,), {})
        setattr(self, name, real)
        return real


class Odd:
    def __call__(self, t: float, v: int) -> int:
        return v % 2


class Eye(UP.NamedUpstageEntity):
    def __init__(self, name: str, location: Any, radius: float, log: Any):
        super().__init__()
        self.name, self.location, self.radius, self.log = name, location, radius, log

    def entity_entered_range(self, entity: Any) -> None:
        self.log(self.name, "in", entity.name)

    def entity_exited_range(self, entity: Any) -> None:
        self.log(self.name, "out", entity.name)


def play(spec: Any, order: int | None, mon: Mon, ways: int | None = None) -> list[Any]:
    """The history of a model, in an order of its lists (C43), said in some ways (C44)."""
    out: list[Any] = []

    def way(what: str, n: int) -> int:
        """Which of n ways to say it; the first one, unless others are asked for."""
        k = 0 if ways is None else random.Random(f"{ways} {what}").randrange(n)
        if k:
            mon.hit(f"way:{what.split()[0]}")
        return k

    UP: Any = Sub(way) if way("subclass", 2) else upstage_des.api  # noqa: N806

    def o(what: Any, items: Any) -> list[Any]:
        items = list(items)
        mon.hit("lists", int(len(items) > 1))
        if order is not None:
            random.Random(f"{order} {what}").shuffle(items)
        return items

    def d(what: Any, items: dict[str, Any]) -> dict[str, Any]:
        return dict(o(what, items.items()))

    with warnings.catch_warnings(), UP.EnvironmentContext(**[{}, {"initial_time": 0.0}, {"random_seed": 3}, {"random_gen": random.Random(3)}][way("context", 4)]) as env:
        warnings.simplefilter("ignore")

        def log(*a: Any) -> None:
            out.append([env.now, *det.plain(list(a))])

        mm: Any = UP.SteppedMotionManager(timestep=0.25) if spec["stepped"] else UP.SensorMotionManager(cartesian_linear_intersection)
        for k, v in o("stage", [("distance_units", "m"), ("altitude_units", "m"), ("motion_manager", mm), ("note", 1)]):
            UP.add_stage_variable(k, v)

        states: dict[str, Any] = {
            "fuel": UP.LinearChangingState(default=1.0, recording=True, recording_functions=o("rf fuel", [(lambda t, v: v > 2, "full"), (lambda t, v: round(v), "whole")])),
            "heat": UP.LinearChangingState(default=0.0, recording=True),
            "load": UP.SharedLinearChangingState(recording=True),
            "location": UP.CartesianLocationChangingState(recording=True),
            "detectable": UP.DetectabilityState(default=True, recording=True),
            "shown": UP.State(default=0.0, recording=True), "echo": UP.State(default=0.0, recording=True), "sum": UP.State(default=0, recording=True),
            "level": UP.State(default=0, recording=True), "mode": UP.State(default="", recording=True),
            "other": UP.State(default=0, recording=True, recording_functions=o("rf other", [([lambda t, v: v % 2, Odd, Odd()][way("recorder", 3)], "odd"), (lambda t, v: -v, "minus"), (lambda t, v: t, "when")])),
            "a": UP.State(default=0, recording=True), "b": UP.State(default=0, recording=True), "c": UP.State(default=0, recording=True),
            "keys": UP.DictionaryState(valid_types=int, recording=True), "gear": UP.DataclassState(valid_types=Gear, recording=True),
            "crate": UP.ResourceState(default=UP.SelfMonitoringContainer, default_kwargs={"capacity": 50.0}),
            "bins": UP.MultiStoreState(default=UP.SelfMonitoringStore, default_kwargs={"capacity": 100}),
        }
        if way("default", 2):
            states["a"] = UP.State(default_factory=lambda: 0, recording=True)
        groups: Any = o("groups", ["units", "all", "things"])
        how = way("class", 5)
        declared = d("declared", states)
        some = {k: v for n, (k, v) in enumerate(declared.items()) if n % 3}
        rest = {k: v for k, v in declared.items() if k not in some}
        Unit: Any
        if how in (0, 1):
            Unit = type("Unit", (UP.Actor,), declared, entity_groups=groups if how == 0 else tuple(groups))
        elif how == 2:
            # inherited
            Unit = type("Unit", (type("Base", (UP.Actor,), some, entity_groups=groups[:2]),), rest, entity_groups=groups[2])
        elif how == 3:
            Unit = type("Unit", (UP.Actor, type("Mixin", (), some)), rest, entity_groups=groups)
        else:
            Unit = type("Unit", (type("Base", (type("Base0", (UP.Actor,), rest),), some, entity_groups=groups),), {})
        Node: Any = type("Node", (UP.Actor,), d("node states", {
            "inbox": UP.CommunicationStore(modes=o("modes", ["cup", "wire", "tin"])), "spare": UP.CommunicationStore(modes=["radio"]), "kind": UP.State(default=1)}))

        made: dict[str, Any] = {}

        def make_unit(k: int) -> None:
            u = spec["units"][k]
            bins: Any = o(f"bins {k}", [f"bin{i}" for i in range(len(u["nets"]))] + ["spare"])
            form = way(f"bins {k}", 4)
            if form:
                bins = {b: [{}, {"capacity": 100}, {"kind": UP.SelfMonitoringStore}, lambda: UP.SelfMonitoringStore(env, capacity=100)][n % 4 if form == 3 else form] for n, b in enumerate(bins)}
                bins = {b: x() if callable(x) else x for b, x in bins.items()}
            more = [{}, {"fuel": 1.0, "b": 0}, {"mode": "", "detectable": True, "heat": 0.0}][way(f"values {k}", 3)]
            crate: Any = [{"init": 1.0}, {"init": 1.0, "capacity": 50.0}, {"init": 1.0, "kind": UP.SelfMonitoringContainer}][way(f"crate {k}", 3)]
            there = UP.CartesianLocation(*u["start"]) if way(f"place {k}", 2) == 0 else UP.CartesianLocation(y=u["start"][1], x=u["start"][0], z=0.0)
            made[f"u{k}"] = Unit(**d(f"values {k}", {"name": f"u{k}", "location": there, **more, "load": u["load"], "keys": d(f"keys {k}", {"one": 1, "two": 2}),
                                                     "gear": Gear(1, 2.0), "bins": bins, "crate": crate, "level": 5}))

        def make_store(name: str) -> None:
            made[name] = {"shelf": UP.SelfMonitoringFilterStore, "sorted": UP.SelfMonitoringSortedFilterStore}[name](env)

        things = [lambda k=k: make_unit(k) for k in range(len(spec["units"]))]
        things += [lambda k=k: made.__setitem__(f"n{k}", Node(**d("node", {"name": f"n{k}", "kind": k}))) for k in range(spec["nodes"])]
        things += [lambda k=k: made.__setitem__(f"e{k}", Eye(f"e{k}", UP.CartesianLocation(*e["at"]), e["r"], log)) for k, e in enumerate(spec["eyes"])]
        things += [lambda name=name: make_store(name) for name in ("shelf", "sorted")]
        things += [lambda k=k: made.__setitem__(f"tool{k}", UP.SelfMonitoringStore(env)) for k in range(2)]
        things.append(lambda: made.__setitem__("tank", UP.SelfMonitoringContinuousContainer(env, capacity=float(spec["amount"]), init=spec["amount"] / 2, error_empty=False, error_full=False)))
        things.append(lambda: made.__setitem__("reserve", UP.SelfMonitoringReserveContainer(env, capacity=10.0, init=8.0)))
        for thing in o("things", things):
            thing()
        units = [made[f"u{k}"] for k in range(len(spec["units"]))]
        nodes = [made[f"n{k}"] for k in range(spec["nodes"])]

        def events(label: str, specs: Any, actor: Any, n: int, net: str) -> dict[str, Any]:
            """The events by their names; in whatever order, those that are the same are asked for at once."""
            evs = {}
            for kind, x in o(f"events {label} {n}", specs):
                if kind == "wait":
                    evs[kind] = UP.Wait(x)
                elif kind == "bin":
                    evs[kind] = UP.Get(actor.bins[net])
                elif kind == "shelf":
                    evs[kind] = UP.FilterGet(made["shelf"], lambda i: i % 2 == 0) if way("filter", 2) == 0 else UP.FilterGet(get_location=made["shelf"], filter=lambda i: not i % 2)
                elif kind == "sorted":
                    evs[kind] = UP.SortedFilterGet(made["sorted"], lambda i: True, lambda i: -i)
                elif kind == "know":
                    name = f"{label} {n}"
                    if actor.get_knowledge(name) is not None:
                        actor.clear_knowledge(name)
                    evs[kind] = actor.create_knowledge_event(name=name)
                    if way(f"event {label}", 2):
                        # what it does
                        actor.clear_knowledge(name)
                        evs[kind] = UP.Event()
                        actor.set_knowledge(name, evs[kind])
                elif kind == "tool":
                    evs[kind] = UP.Get(made["tool0"])
                elif kind == "crate":
                    evs[kind] = UP.Get(actor.crate, 1.0)
            return evs

        def cancel(label: str, evs: dict[str, Any], done: dict[str, bool], actor: Any) -> None:
            for k, e in o(f"cancel {label}", evs.items()):
                if not done[k]:
                    e.cancel()

        class Work(UP.Task):
            spec: Any
            net: str
            label: str
            on: str

            def task(self, *, actor: Any) -> TASK_GEN:
                s = self.spec
                log(self.label, "start", actor)
                if self.wait_first:
                    yield UP.Wait(self.wait_first)
                u, last = spec["units"][int(actor.name[1:])], 1e9
                way_out = [UP.CartesianLocation(*p) for p in u["way"]]
                if "location" in s["hold"]:
                    # short of the end of the way
                    last = 0.97 * sum(b - a for a, b in zip([actor.location, *way_out], way_out)) / u["speed"]
                for h in o(f"hold {self.label}", s["hold"]):
                    if h == "location":
                        (actor.activate_location_state if way(f"fly {self.label}", 2) == 0 else actor.activate_state)(state=h, task=self, speed=u["speed"], waypoints=way_out)
                    elif h == "shown":
                        whom = units[(int(actor.name[1:]) + 1) % len(units)]
                        for mine, theirs in o(f"mimic {self.label}", [("shown", "fuel"), ("echo", "heat"), ("sum", "a")]) if whom is not actor else []:
                            actor.activate_mimic_state(self_state=mine, mimic_state=theirs, mimic_actor=whom, task=self)
                    else:
                        (actor.activate_state if way(f"rate {self.label}", 2) == 0 else actor.activate_linear_state)(state=h, task=self, rate={"fuel": 0.25, "heat": -1.5, "load": 0.75 + s["wait"] / 8}[h])
                if s["how"] == "wait":
                    for_ = min(last, s["wait"])
                    form = way(f"wait {self.label}", 6)
                    if form in (0, 1):
                        yield UP.Wait(for_) if form == 0 else UP.Wait(timeout=for_)
                    elif form == 2:
                        yield UP.Any(UP.Wait(for_))
                    elif form == 3:
                        yield UP.All(UP.Wait(for_))
                    elif form == 4:
                        yield UP.Any(UP.Wait(for_), UP.Wait(for_ + 2.0), UP.Event())
                    else:
                        yield UP.All(UP.Wait(for_), UP.Wait(for_ / 2))
                else:
                    evs = events(self.label, [[k, min(x, last)] for k, x in s["events"]][: 1 if s["how"] == "all" and last < 1e9 else 3], actor, 0, self.net)
                    kind, listed = (UP.Any if s["how"] == "any" else UP.All), o(f"multi {self.label}", evs.values())
                    form = way(f"multi {self.label}", 4)
                    if form == 1:
                        listed = [kind(x) for x in listed]
                    elif form == 2:
                        listed = [kind(*listed[:2]), *listed[2:]]
                    elif form == 3:
                        listed = [kind(*listed)]
                    yield kind(*listed)
                    done = {k: e.is_complete() for k, e in evs.items()}
                    log(self.label, s["how"], sorted(done.items()))
                    mon.hit(s["how"])
                    cancel(self.label, evs, done, actor)
                self.free(actor)
                if last < 1e9:
                    yield UP.Wait(0.371)
                if s["set"]:
                    for name in o(f"set {self.label}", ["a", "b", "c"]):
                        setattr(actor, name, getattr(actor, name) + 1)
                    old = [x for x in o(f"old {self.label}", [f"x {self.net}", f"y {self.net}", f"z {self.net}"]) if actor.get_knowledge(x) is not None]
                    form = way(f"forget {self.label}", 4)
                    if form == 0:
                        for name in old:
                            self.clear_actor_knowledge(actor, name)
                    elif form == 1:
                        self.clear_actor_bulk_knowledge(actor, old)
                    elif form == 2:
                        for name in old:
                            self.get_and_clear_actor_knowledge(actor, name)
                    else:
                        self.get_and_clear_actor_bulk_knowledge(actor, old)
                    facts = {f"{name} {self.net}": self.label for name in o(f"facts {self.label}", ["x", "y", "z"])}
                    form = way(f"facts {self.label}", 4)
                    if form == 1:
                        actor.set_bulk_knowledge(facts)
                    elif form == 2:
                        self.set_actor_bulk_knowledge(actor, facts)
                    else:
                        for name, told in facts.items():
                            if form == 0:
                                actor.set_knowledge(name, told)
                            else:
                                self.set_actor_knowledge(actor, name, told)
                log(self.label, "end", actor, actor.load)

            def free(self, actor: Any) -> None:
                held = [h for h in o(f"free {self.label}", self.spec["hold"]) if h != "shown"]
                form = (way(f"free {self.label}", 3) + bool(self.spec["set"])) % 3
                if form == 1:
                    actor.deactivate_all_states(task=self)
                elif form == 2:
                    actor.deactivate_states(states=held, task=self)
                else:
                    for h in held:
                        actor.deactivate_state(state=h, task=self)
                if way(f"free mimic {self.label}", 2) == 0:
                    actor.deactivate_all_mimic_states(task=self)
                elif "shown" in self.spec["hold"] and len(units) > 1:
                    for h in ("shown", "echo", "sum"):
                        actor.deactivate_mimic_state(self_state=h, task=self)

            def on_interrupt(self, *, actor: Any, cause: Any) -> Any:
                log(self.label, "interrupt", actor, [cause.state_name, cause.value] if isinstance(cause, UP.NucleusInterrupt) else repr(cause))
                mon.hit("interrupts")
                if self.on != "ignore":
                    actor.deactivate_all_states(task=self)
                    actor.deactivate_all_mimic_states(task=self)
                return {"restart": self.INTERRUPT.RESTART, "end": self.INTERRUPT.END, "ignore": self.INTERRUPT.IGNORE}[self.on]

            wait_first = 0.0

        class First(UP.Task):
            wait: float

            def task(self, *, actor: Any) -> TASK_GEN:
                yield UP.Wait(self.wait)

            def on_interrupt(self, *, actor: Any, cause: Any) -> Any:
                return self.INTERRUPT.IGNORE

        networks: dict[Any, Any] = {}

        def add(k: int, i: int) -> None:
            net = spec["units"][k]["nets"][i]
            name = f"u{k} net{i}"
            classes: dict[str, Any] = {"First": type("First", (First,), {"wait": net["at"]})}
            for j, s in enumerate(net["tasks"]):
                classes[f"T{j}"] = type(f"T{j}", (Work,), {"spec": s, "net": f"bin{i}", "label": f"{name} T{j}", "on": net["on"]})
            names = [f"T{j}" for j in range(len(net["tasks"]))]
            links = {"First": UP.TaskLinks(default="T0", allowed=o(f"allowed {name}", names))}
            for j, t in enumerate(names):
                links[t] = UP.TaskLinks(default=names[(j + 1) % len(names)], allowed=o(f"allowed {name} {j}", names))
            form = way(f"network {name}", 4)
            if form == 0:
                network = UP.TaskNetworkFactory(name=f"net{i}", task_classes=d(f"classes {name}", classes), task_links=d(f"links {name}", links)).make_network()
            elif form == 1:
                network = UP.TaskNetwork(name=f"net{i}", task_classes=d(f"classes {name}", classes), task_links=d(f"links {name}", links))
            elif form == 2:
                network = UP.TaskNetworkFactory(name="other", task_classes=d(f"classes {name}", classes), task_links=d(f"links {name}", links)).make_network(other_name=f"net{i}")
            else:
                network = UP.TaskNetworkFactory.from_ordered_loop(f"net{i}", [classes[t] for t in names]).make_network()
                network.task_classes["First"] = classes["First"]
                network.task_links["First"] = links["First"]
            units[k].add_task_network(network)
            networks[k, i] = network

        all_nets = [(k, i) for k, u in enumerate(spec["units"]) for i in range(len(u["nets"]))]
        for k, i in o("networks", all_nets):
            add(k, i)
        nuclei: dict[int, Any] = {}
        unwatched: set[Any] = set()

        def watch(k: int, i: int) -> None:
            w = spec["units"][k]["nets"][i]["watch"]
            if w:
                if k not in nuclei:
                    nuclei[k] = UP.TaskNetworkNucleus(actor=units[k])
                form = way(f"watch {k} {i}", 3)
                if form < 2:
                    nuclei[k].add_network([f"net{i}", networks[k, i]][form], o(f"watch {k} {i}", w))
                else:
                    for x in o(f"watch {k} {i}", w):
                        nuclei[k].add_network(f"net{i}", [x])

        for k, i in o("watchers", all_nets):
            watch(k, i)
        for k, i in o("starts", all_nets):
            form = way(f"start {k} {i}", 4)
            if form == 0:
                units[k].start_network_loop(f"net{i}", "First")
            elif form == 1:
                units[k].set_task_queue(f"net{i}", ["First"])
                units[k].start_network_loop(f"net{i}")
            elif form == 2:
                units[k].start_network_loop(network_name=f"net{i}", init_task_name="First")
            else:
                # what it does by default
                names = [f"T{j}" for j in range(len(spec["units"][k]["nets"][i]["tasks"]))]
                units[k].set_task_queue(f"net{i}", ["First", *names, *names, *names[:1]])
                units[k].start_network_loop(f"net{i}")

        class Getter(UP.Task):
            spec: Any
            label: str

            def task(self, *, actor: Any) -> TASK_GEN:
                s = self.spec
                yield UP.Wait(s["at"])
                for n in range(s["again"] + 1):
                    evs = events(self.label, s["events"], actor, n, "spare")
                    listed = o(f"multi {self.label} {n}", evs.values())
                    kind = UP.Any if s["how"] == "any" else UP.All
                    if s["nest"]:
                        listed = o(f"nest {self.label} {n}", [*listed[2:], kind(*listed[:2])])
                    form = way(f"nest {self.label} {n}", 4)
                    if form == 1:
                        listed = [kind(*listed[:3]), *listed[3:]]
                    elif form == 2:
                        listed = [listed[0], kind(*listed[1:])] if listed[1:] else listed
                    elif form == 3:
                        listed = [kind(kind(*listed))]
                    yield kind(*listed)
                    done = {k: e.is_complete() for k, e in evs.items()}
                    log(self.label, s["how"], sorted(done.items()), sorted(repr(det.plain(e.get_value())) for k, e in evs.items() if done[k] and k in ("bin", "shelf", "sorted", "tool")))
                    mon.hit(s["how"])
                    cancel(f"{self.label} {n}", evs, done, actor)
                    yield UP.Wait(s["pause"])

            def on_interrupt(self, *, actor: Any, cause: Any) -> Any:
                log(self.label, "interrupt", actor, cause)
                mon.hit("interrupts")
                return self.INTERRUPT.IGNORE if cause else self.INTERRUPT.END

        procs: dict[int, Any] = {}

        def start(k: int) -> None:
            task = Getter()
            task.spec, task.label = spec["getters"][k], f"g{k}"
            procs[k] = task.run(actor=units[spec["getters"][k]["unit"]])

        for k in o("getters", range(len(spec["getters"]))):
            start(k)

        for step in o("sensors", [*[("eye", k) for k in range(len(spec["eyes"]))], *[("unit", k) for k in range(len(units)) if spec["stepped"]]]):
            if step[0] == "eye":
                eye = made[f"e{step[1]}"]
                if way(f"eye {step[1]}", 2):
                    eye.where, eye.reach = eye.location, eye.radius
                    del eye.location, eye.radius
                    mm.add_sensor(eye, location_attr_name="where", radius_attr_name="reach")
                else:
                    mm.add_sensor(eye, location_attr_name="location", radius_attr_name="radius")
            else:
                mm.add_detectable(units[step[1]], "location")
        if spec["stepped"]:
            env.process(later(env, 0.013, mm.run))

        ends = [(nodes[a], nodes[k + 1]) for k, a in enumerate(spec["tree"])]
        if spec["comms"] == "table":
            mgr: Any = UP.RoutingTableCommsManager(name="cup", mode="cup", send_time=0.251, retry_max_time=0.7, retry_rate=0.13, global_ignore=spec["ignore"])
            for k, (u, v) in o("edges", enumerate(ends)):
                if (order or 0) >> (k % 8) & 1:
                    u, v = v, u
                if (k + way(f"edge {k}", 2)) % 2:
                    mgr.connect_nodes(u, v, two_way=True)
                else:
                    for x, y in o(f"ways {k}", [(u, v), (v, u)]):
                        mgr.connect_nodes(x, y)
        else:
            first = 1 + way("entities", 2) * len(nodes)
            ends_ = [(x, "inbox" if k % 2 else "spare") for k, x in enumerate([*nodes[1:], nodes[0]])]
            mgr = UP.PointToPointCommsManager(name="cup", send_time=0.251, retry_max_time=0.7, retry_rate=0.13, init_entities=o("entities", ends_[first - 1:-1]) or None)
            for x, store in ends_[: first - 1] + ends_[-1:]:
                mgr.connect(x, store)
        mgr.blocked_nodes += o("blocked", [nodes[k] for k in spec["block"]])
        mgr.blocked_links += o("cut", [(nodes[a], nodes[b]) for a, b in spec["cut"]])
        mgr.run()

        def reader(node: Any, which: str) -> Any:
            while True:
                m = yield getattr(node, which).get()
                log("message", node, which, m.content.data, m.sender)
                mon.hit("messages")

        for x, w in o("readers", [(x, w) for x in nodes for w in ("inbox", "spare")]):
            env.process(reader(x, w))

        class Plan(UP.Task):
            def task(self, *, actor: Any) -> TASK_GEN:
                for h in o("plan", ["fuel", "heat", "load"]):
                    actor.activate_state(state=h, rate=0.5, task=self)
                yield UP.All(*o("plan all", [UP.Wait(1.5), UP.Wait(2.25), UP.Get(actor.bins["spare"], rehearsal_time_to_complete=3.0)]))
                for h in o("unplan", ["fuel", "heat", "load"]):
                    actor.deactivate_state(state=h, task=self)

        def ops() -> Any:
            for n, op in enumerate(spec["ops"]):
                yield env.timeout(op["at"] - env.now)
                act(n, op)

        def act(n: int, op: Any) -> None:
            what, a, k, j = op["what"], units[op["unit"]], op["k"], op["j"]
            if what in ("level", "other"):
                setattr(a, what, n)
            elif what == "mode":
                a.mode = f"m{n}"
            elif what == "many":
                for name in o(f"many {n}", ["a", "b", "c"]):
                    setattr(a, name, getattr(a, name) * 2 + n)
                for u in o(f"each {n}", units):
                    u.heat = u.heat if u.get_active_state_data("heat", without_update=True) else float(n)
            elif what == "bin":
                for name in o(f"bins {n}", list(a.bins)):
                    (a.bins[name].put(f"{name} {n}") if way("put", 2) == 0 else UP.Put(a.bins[name], f"{name} {n}").as_event())
            elif what == "shelf":
                made["shelf"].put(n)
                made["sorted"].put(n)
                made["tool0"].put(n)
            elif what == "know":
                for label in o(f"know {n}", [f"g{g} {i}" for g in range(len(spec["getters"])) for i in range(3)] + [f"u{op['unit']} net{i} T{i2} 0" for i in range(3) for i2 in range(3)]):
                    if isinstance(a.get_knowledge(label), upstage_des.api.Event) and not a.get_knowledge(label).is_complete():
                        mon.hit("knowledge")
                        if way(f"know {label}", 2) == 0:
                            a.succeed_knowledge_event(name=label, n=n)
                        else:
                            a.get_and_clear_knowledge(label).succeed(n=n)
            elif what == "crate":
                a.crate.put(1.5)
            elif what == "message":
                u, v = k % len(nodes), j % len(nodes)
                if u != v:
                    env.process(send(n, nodes[u], nodes[v]))
            elif what == "flows" and 0.1 < made["tank"].level < spec["amount"] - 0.1:
                for side, rate, time in o(f"flows {n}", FLOWS[j % 3][: 3 + k // 2]):
                    getattr(made["tank"], side)(rate, time, custom_callbacks=o("callbacks", [lambda n=n: log("flow", n, made["tank"].level), lambda n=n: log("flow too", n)]))
                    mon.hit("flows")
            elif what == "hide":
                a.detectable = not a.detectable if not a.get_active_state_data("location", without_update=True) or a.detectable else a.detectable
            elif what == "interrupt" and procs:
                p = procs[k % len(procs)]
                if p.is_alive:
                    p.interrupt(cause=j % 3)
            elif what == "forget":
                form = way(f"forget {n}", 4)
                names = [x for x in o(f"forget {n}", ["fact 0", "fact 1", "fact 2", "x bin0", "y bin0", "z bin1"]) if a.get_knowledge(x) is not None]
                if form == 0:
                    for name in names:
                        a.clear_knowledge(name)
                elif form == 1:
                    a.clear_bulk_knowledge(names)
                elif form == 2:
                    a.get_and_clear_bulk_knowledge(names)
                else:
                    for name in names:
                        a.get_and_clear_knowledge(name)
            elif what == "unwatch":
                if op["unit"] in nuclei:
                    # for a while
                    for i in [i for i, net in enumerate(spec["units"][op["unit"]]["nets"]) if net["watch"]][:1 + k % 2]:
                        if (op["unit"], i) in unwatched:
                            unwatched.discard((op["unit"], i))
                            watch(op["unit"], i)
                        else:
                            unwatched.add((op["unit"], i))
                            nuclei[op["unit"]].remove_network([f"net{i}", networks[op["unit"], i]][way(f"unwatch {n}", 2)])
            elif what == "net":
                nets = spec["units"][op["unit"]]["nets"]
                if nets:
                    a.interrupt_network(f"net{k % len(nets)}", cause=f"op {n}")
            elif what == "rehearse":
                if not any(a.get_active_state_data(h, without_update=True) for h in ("fuel", "heat", "load")):
                    if way(f"rehearse {n}", 2) == 0:
                        c = Plan().rehearse(actor=a)
                    else:
                        a.add_task_network(UP.TaskNetworkFactory.from_single_looping("plans", Plan).make_network(other_name=f"plans {n}"))
                        c = a.rehearse_network(f"plans {n}", ["Plan"])
                        a.delete_task_network(f"plans {n}")
                    log("rehearsed", c.env.now, c.fuel, c.heat, c.load)
                    mon.hit("rehearsed")
            elif what == "key":
                for name in o(f"keyed {n}", ["one", "two", f"new {n}"]):
                    a.keys[name] = n
            elif what == "gear":
                for name in o(f"gear {n}", ["ammo", "fuel"]):
                    setattr(a.gear, name, n if name == "ammo" else float(n))
            elif what == "block":
                x = nodes[k % len(nodes)]
                if x in mgr.blocked_nodes:
                    mgr.blocked_nodes.remove(x)
                else:
                    mgr.blocked_nodes.insert(random.Random(f"{order}").randint(0, len(mgr.blocked_nodes)), x)
            elif what == "reserve":
                for who in o(f"reserve {n}", ["p", "q", "r"]):
                    made["reserve"].reserve(f"{who} {n}", 0.5, None if k % 2 else 1.3)
                log("reserve", made["reserve"].available)
            elif what == "facts":
                names = [f"fact {i}" for i in range(3)]
                if way(f"facts {n}", 2):
                    for u in units:
                        u.set_bulk_knowledge({k: fact(n, k, x) for k, x in u.get_bulk_knowledge(names).items()}, overwrite=True)
                else:
                    for name in o(f"facts {n}", names):
                        for u in o(f"know {name}", units):
                            u.set_knowledge(name, fact(n, name, u.get_knowledge(name)), overwrite=True)

        def send(n: int, u: Any, v: Any) -> Any:
            what: Any = {"text": n, "more": 1}
            form = way(f"message {n}", 3)
            if form:
                what = UP.MessageContent(data=what)
            if form == 2:
                what = UP.Message(u, what, v)
            yield mgr.make_put(what, source=u, destination=v).as_event()

        env.process(ops())
        for part in range(1, 1 + 5 * way("run", 2)):
            env.run(until=spec["until"] * part / 7 + 0.0017)
        env.run(until=spec["until"])
        for u in units:
            names = [s for s in u.states if s not in ("crate", "bins")]
            out.append(["states", u.name, sorted([s, det.plain(getattr(u, s))] for s in names)])
            out.append(["histories", u.name, sorted([k, once(det.plain(h), k)] for k, h in u._state_histories.items())])
            out.append(["bins", u.name, sorted([k, det.plain(v.items), det.plain(v._quantities)] for k, v in u.bins.items()), u.crate.level, det.plain(u.crate._quantities)])
            out.append(["running", u.name, sorted([k, v.name] for k, v in u.get_running_tasks().items())])
            out.append(["knows", u.name, [det.plain(u.get_knowledge(x)) for x in ("x bin0", "y bin0", "z bin1", "fact 0", "fact 1", "fact 2")]])
            mon.hit("mimics", sum(1 for t, _ in u._state_histories.get("shown", [])))
        for name in ("shelf", "sorted", "tool0"):
            out.append([name, det.plain(made[name].items), det.plain(made[name]._quantities)])
        out.append(["tank", made["tank"].level, made["tank"].rate, sorted(det.plain(made["tank"]._quantities))])
        out.append(["reserve", made["reserve"].available, sorted(det.plain(made["reserve"].queued), key=repr), sorted(det.plain(made["reserve"]._quantities))])
        base = UP.UpstageBase()
        # those of a subclass are a group of their own
        for g in sorted(g for g in base.get_all_entity_groups() if not g.startswith("Base") and not hasattr(upstage_des.api, g)):
            out.append(["group", g, sorted(x.name for x in base.get_entity_group(g))])
        rows = [list(r) for r in create_table()[0]] + [list(r) for r in create_location_table()[0]]
        mon.hit("rows", len(rows))
        out += [["row", *r] for r in merged([det.plain(r) for r in rows])]
    out = json.loads(json.dumps(out, default=repr))
    mon.hit("crossings", sum(1 for e in out if e[1] in ("in", "out") or len(e) > 2 and e[2] in ("in", "out")))
    mon.hit("steps", sum(1 for e in out if not isinstance(e[0], str)))
    # what happens at one instant is compared as a set
    return sorted(([round(e[0], 6), *e[1:]] for e in out if not isinstance(e[0], str)), key=repr_of) + sorted((e for e in out if isinstance(e[0], str)), key=repr_of)


def once(entries: Any, state: str) -> Any:
    """A shared state's value at one instant may be recorded again when it is off by the rounding of the sum of its rates."""
    if state == "load":
        entries = list({repr(short(e)): e for e in entries}.values())
    return sorted(entries, key=repr)


def merged(rows: list[Any]) -> list[Any]:
    loads: dict[str, Any] = {}
    for r in rows:
        if r[2] == "load":
            key = repr(short(r[:-1]))
            if key not in loads or loads[key][-1] == "active":
                loads[key] = r
    return [*loads.values(), *(r for r in rows if r[2] != "load")]


def short(x: Any) -> Any:
    return round(x, 4) if isinstance(x, float) else [short(y) for y in x] if isinstance(x, list | tuple) else x


def repr_of(e: Any) -> Any:
    return [f"{e[0]:016.6f}" if not isinstance(e[0], str) else e[0], repr(short(e[1:]))]


def fact(n: int, name: str, was: Any) -> Any:
    """Some of the facts are false ones."""
    return [0, "", False, []][n % 4] if (n + ord(name[-1])) % 3 == 0 else [n, was if isinstance(was, int) else None]


def later(env: Any, t: float, what: Any) -> Any:
    yield env.timeout(t)
    what()


def run(spec: Any, mon: Mon) -> None:
    want = play(spec, None, mon)
    for order in spec["orders"]:
        got = play(spec, order, mon)
        for n in range(max(len(want), len(got))):
            a = want[n] if n < len(want) else None
            b = got[n] if n < len(got) else None
            mon.check(same(a, b), "order", lambda: f"entry {n} {(a or b)[:4]}: {str(first(a, b)[0])[:300]} in one order, {str(first(a, b)[1])[:300]} in another")
        mon.hit("entries", len(want))
        mon.hit("orders")
    mon.see(want)
    mon.nontrivial = sum(1 for e in want if not isinstance(e[0], str)) >= 40
    mon.sample = {"entries": len(want), "first": want[:4]}


SCENARIOS = [Scenario("models", gen, run, quick=1000, thorough=10000)]
