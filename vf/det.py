"""Whole-simulation programs and the processes that run them again (used by C33).

`program(spec)` builds a simulation from many parts of UPSTAGE and returns everything its user can
see: an ordered log, recorded histories, data tables, entity groups and actors' logs.  The server
(`python -m vf.det`) runs programs, and the cases of the other checks, in another process (other
hash seed, other memory layout, other earlier programs).
"""

import copy
import dataclasses
import importlib
import json
import os
import random
import re
import subprocess
import sys
import warnings
from collections import Counter
from typing import Any

import simpy as SIM

import upstage_des.api as UP
from upstage_des.data_utils import create_location_table, create_table, get_recorded_data, record_data
from upstage_des.motion.cartesian_model import cartesian_linear_intersection
from vf import core
from vf.util import dy, stage_units


@dataclasses.dataclass
class Kit:
    ammo: int = 0
    fuel: float = 0.0


def make_unit(rec: Any, store: Any = UP.SelfMonitoringStore, container: Any = UP.SelfMonitoringContainer) -> Any:
    """The class of the units, with or without records."""
    def opts(name: str) -> dict[str, Any]:
        return rec(name) if callable(rec) else {"recording": rec}

    class Unit(UP.Actor, entity_groups=["units", "all"]):
        fuel: UP.LinearChangingState = UP.LinearChangingState(default=0.0, **opts("fuel"))
        heat: UP.LinearChangingState = UP.LinearChangingState(default=0.0, **opts("heat"))
        load: UP.SharedLinearChangingState = UP.SharedLinearChangingState(default=0.0, recording=opts("load").get("recording", False))
        level: UP.State = UP.State(default=0, **opts("level"))
        mood: UP.State = UP.State(default="", **opts("mood"))
        shown: UP.State = UP.State(default=0.0, **opts("shown"))
        other: UP.State = UP.State(default=0, **opts("other"))
        count: UP.State = UP.State(default=1, valid_types=int, **opts("count"))
        fixed: UP.State = UP.State(default=3, frozen=True, **opts("fixed"))
        parts: UP.DictionaryState = UP.DictionaryState(valid_types=int, **opts("parts"))
        kit: UP.DataclassState = UP.DataclassState(valid_types=Kit, **opts("kit"))
        box: UP.ResourceState = UP.ResourceState(default=store)
        crate: UP.ResourceState = UP.ResourceState(default=container, default_kwargs={"capacity": 5.0})
        bins: UP.MultiStoreState = UP.MultiStoreState(default=store, default_kwargs={"capacity": 2})
        notes: UP.State = UP.State(default_factory=list)

    return Unit


Unit: Any = make_unit(True)


class Bird(UP.Actor, entity_groups=["movers", "all"]):
    location: UP.CartesianLocationChangingState = UP.CartesianLocationChangingState(recording=True)
    detectable: UP.DetectabilityState = UP.DetectabilityState(default=True, recording=True)


class Eye(UP.NamedUpstageEntity, entity_groups=["eyes", "all"]):
    def __init__(self, name: str, location: Any, radius: float, log: Any):
        super().__init__()
        self.name, self.location, self.radius, self.log = name, location, radius, log

    def entity_entered_range(self, entity: Any) -> None:
        self.log("in", self.name, entity.name)

    def entity_exited_range(self, entity: Any) -> None:
        self.log("out", self.name, entity.name)


class Node(UP.Actor, entity_groups=["nodes", "all"]):
    spare: UP.CommunicationStore = UP.CommunicationStore(modes=["tin"])
    inbox: UP.CommunicationStore = UP.CommunicationStore(modes=["cup", "wire"])


def gen(rng: random.Random) -> Any:
    def t() -> float:
        # coarse, so that many things happen at the same time
        return rng.randint(0, 12) / 2

    n = rng.randint(1, 4)
    nets = []
    for _ in range(rng.randint(0, 6)):
        nets.append({"actor": rng.randrange(n), "watch": rng.sample(["level", "mood", "other"], rng.randint(1, 3)),
                     "action": rng.choice(["END", "RESTART", "IGNORE"]), "hold": rng.sample(["fuel", "heat", "load", "shown"], rng.randint(0, 4)),
                     "queue": rng.randint(0, 3), "wait": dy(rng, 1, 24, 4)})
    ops = []
    for _ in range(rng.randint(3, 24)):
        what = rng.choice(["set", "set", "set", "put", "put", "interrupt", "message", "message", "know", "key", "kit", "rehearse", "random", "mimic", "record",
                           "message", "message", "shuffle", "crate", "crate", "bin", "bin", "note",
                           "flow", "flow", "reserve", "reserve", "take", "bench", "bench"])
        ops.append({"at": t(), "what": what, "actor": rng.randrange(n), "state": rng.choice(["level", "mood", "other", "fuel"]),
                    "k": rng.randrange(6), "k2": rng.randrange(6)})
    getters = [{"at": t(), "actor": rng.randrange(n), "events": [rng.choice(["wait", "get", "get", "know", "res", "sorted", "draw"])
                                                                    for _ in range(rng.randint(1, 4))],
                "how": rng.choice(["any", "any", "all", "each"]), "again": rng.randint(0, 2), "wait": dy(rng, 1, 12, 2)}
               for _ in range(rng.randint(0, 6))]
    nn = rng.choice([0, 3, 5, 7, 9])
    edges = [[i, j] for i in range(nn) for j in range(nn) if i < j and rng.random() < 0.5]
    rng.shuffle(edges)
    birds = [{"start": [rng.randint(-3, 3), rng.randint(-3, 3)], "at": t(), "to": [[rng.randint(-9, 9), rng.randint(-9, 9)] for _ in range(2)],
              "speed": rng.choice([0.5, 1.0, 2.0]), "hide": rng.choice([None, None, t()])} for _ in range(rng.randint(0, 4))]
    eyes = [{"at": [rng.choice([0, 0, 4]), rng.choice([0, 0, 4])], "r": rng.choice([2.0, 3.5, 6.0])} for _ in range(rng.randint(0, 5))]
    made = [{"crate": rng.choice([None, None, {"capacity": 3.0}, {"init": 2.0}, {"init": 1.0, "capacity": 4.0}]),
             "bins": {k: rng.choice([{}, {}, {"capacity": 1}, {"capacity": 4}]) for k in rng.sample(["one", "two", "three"], 2)},
             "notes": rng.choice([None, None, ["first"]]), "level": rng.choice([None, None, 7]), "fixed": rng.choice([None, None, 4]),
             "parts": rng.choice([{}, {}, {"key0": -1}]), "knows": rng.choice([None, None, {"old": 1}])} for _ in range(n)]
    windows = [{"at": t(), "actor": rng.randrange(n), "for": dy(rng, 1, 12, 4), "reset": rng.random() < 0.5} for _ in range(rng.choice([0, 0, 1, 2]))]
    tank = {"capacity": rng.choice([4.0, 8.0, 20.0]), "init": rng.choice([0.0, 1.0, 4.0])}
    return {"windows": windows, "tank": tank, "made": made, "n": n, "nets": nets, "ops": sorted(ops, key=lambda o: o["at"]), "getters": getters, "nodes": nn, "edges": edges, "birds": birds,
            "eyes": eyes, "stepped": rng.random() < 0.4, "seed": rng.choice([0, rng.randrange(1000), rng.randrange(1000)]), "own_rng": rng.random() < 0.2, "until": 14.0,
            "block": [rng.randrange(7) for _ in range(rng.choice([0, 0, 1, 2]))], "global_ignore": rng.random() < 0.4}


def plain(x: Any) -> Any:
    """A value by what it shows, without identities."""
    if isinstance(x, UP.Actor | Eye):
        return f"<{type(x).__name__} {x.name}>"
    if isinstance(x, UP.CartesianLocation):
        return [x.x, x.y, x.z]
    if isinstance(x, dict):
        return [[plain(k), plain(v)] for k, v in x.items()]
    if isinstance(x, list | tuple):
        return [plain(v) for v in x]
    if isinstance(x, str):
        return re.sub("0x[0-9a-f]+", "0x", x).replace("<__main__.", "<vf.det.")
    if isinstance(x, int | float | bool | None):
        return x
    if dataclasses.is_dataclass(x):
        return [type(x).__name__, plain(vars(x))]
    return type(x).__name__


def motion_manager(spec: Any, debug: bool = False, time: float = 1.0) -> Any:
    mm: Any = (UP.SteppedMotionManager(timestep=0.5 * time, debug=debug) if spec["stepped"]
               else UP.SensorMotionManager(cartesian_linear_intersection, debug=debug))
    UP.add_stage_variable("motion_manager", mm)
    return mm


class Part:
    """One model of a program: its units, nodes, resources, birds and what is seen of them."""

    def __init__(self, spec: Any, env: Any, mm: Any, out: list[Any], tag: str = "", off: float = 0.0, style: Any = None):
        style = {"unit": Unit, "bird": Bird, "shelf": UP.SelfMonitoringSortedFilterStore, "bench": UP.SelfMonitoringFilterStore,
                 "tank": UP.SelfMonitoringContinuousContainer, "reserve": UP.SelfMonitoringReserveContainer,
                 "log": True, "log_time": None, "comms_log": False, "time": 1.0, "space": 1.0, "amount": 1.0, **(style or {})}
        # what a unit of time, of distance and of continuous amounts is in others
        tu, du, qu = style["time"], style["space"], style["amount"]

        def log(*what: Any) -> None:
            out.append([env.now, *plain(list(what))])

        start = env.now
        self.style = style
        shelf = style["shelf"](env)
        bench = style["bench"](env)
        tank = style["tank"](env, spec["tank"]["capacity"] * qu, init=spec["tank"]["init"] * qu, error_empty=False, error_full=False)
        reserve = style["reserve"](env, init=6.0 * qu, capacity=8.0 * qu)
        tools = SIM.Resource(env, capacity=1)
        units = []
        for i, m in enumerate(spec["made"]):
            given = {k: copy.deepcopy(m[k]) for k in ("crate", "notes", "level", "fixed") if m[k] is not None}
            if m["knows"]:
                given["initial_knowledge"] = dict(m["knows"])
            units.append(style["unit"](name=f"{tag}u{i}", parts=dict(m["parts"]), kit=Kit(), bins=copy.deepcopy(m["bins"]), debug_log=style["log"],
                                       debug_log_time=style["log_time"], **given))

        class Watch(UP.Task):
            wait: float
            hold: list[str]
            action: str
            label: str

            def task(self, *, actor: Unit) -> Any:
                log(self.label, "start", actor)
                for s in self.hold:
                    if actor.get_knowledge(f"busy {s}") == self.label:
                        continue
                    if s == "shown":
                        if actor.get_knowledge("busy shown") is None:
                            actor.set_knowledge("busy shown", self.label)
                            actor.activate_mimic_state(self_state="shown", mimic_state="fuel",
                                                       mimic_actor=units[1 % len(units) if actor is units[0] else 0], task=self)
                    elif s == "load":
                        actor.activate_linear_state(state="load", rate=1.5 / tu, task=self)
                    elif actor.get_knowledge(f"busy {s}") is None:
                        actor.set_knowledge(f"busy {s}", self.label)
                        actor.activate_linear_state(state=s, rate=0.5 / tu, task=self)
                yield UP.Wait(self.wait * tu)
                self.free(actor)
                log(self.label, "end", actor, actor.fuel, actor.load)

            def free(self, actor: Unit) -> None:
                actor.deactivate_all_states(task=self)
                actor.deactivate_all_mimic_states(task=self)
                for s in ("fuel", "heat", "shown"):
                    if actor.get_knowledge(f"busy {s}") == self.label:
                        actor.clear_knowledge(f"busy {s}")

            def on_interrupt(self, *, actor: Unit, cause: Any) -> Any:
                what = (cause.state_name, cause.value) if isinstance(cause, UP.NucleusInterrupt) else cause
                log(self.label, "interrupt", actor, what)
                if self.action != "IGNORE":
                    self.free(actor)
                return self.INTERRUPT[self.action]

        nuclei: dict[int, Any] = {}
        nets = []
        for i, net in enumerate(spec["nets"]):
            a = units[net["actor"]]
            tasks = []
            for k in range(2):
                tasks.append(type(f"Watch{k}", (Watch,), {"wait": net["wait"] + k, "hold": net["hold"], "action": net["action"],
                                                          "label": f"net{i}.{k}"}))
            fac = UP.TaskNetworkFactory(name=f"net{i}", task_classes={c.__name__: c for c in tasks}, task_links={
                "Watch0": UP.TaskLinks(default="Watch1", allowed=["Watch0", "Watch1"]),
                "Watch1": UP.TaskLinks(default="Watch0", allowed=["Watch0", "Watch1"])})
            a.add_task_network(fac.make_network())
            if net["actor"] not in nuclei:
                nuclei[net["actor"]] = UP.TaskNetworkNucleus(actor=a)
            nuclei[net["actor"]].add_network(f"net{i}", net["watch"])
            a.set_task_queue(f"net{i}", [f"Watch{q % 2}" for q in range(net["queue"])])
            nets.append((a, f"net{i}"))

        class Getter(UP.Task):
            spec: Any
            label: str

            def event(self, kind: str, actor: Unit, n: int) -> Any:
                if kind == "get":
                    return UP.Get(actor.box)
                if kind == "sorted":
                    return UP.FilterGet(shelf, lambda x: x % 2 == 0)
                if kind == "know":
                    actor.clear_knowledge(f"{self.label} {n}") if actor.get_knowledge(f"{self.label} {n}") else None
                    return actor.create_knowledge_event(name=f"{self.label} {n}")
                if kind == "res":
                    return UP.ResourceHold(tools)
                if kind == "draw":
                    return UP.Wait.from_random_uniform(0.5 * tu, 3.0 * tu)
                return UP.Wait(self.spec["wait"] * tu)

            def task(self, *, actor: Unit) -> Any:
                if self.spec["at"]:
                    yield UP.Wait(self.spec["at"] * tu)
                for r in range(self.spec["again"] + 1):
                    evs = [self.event(k, actor, 10 * r + n) for n, k in enumerate(self.spec["events"])]
                    if self.spec["how"] == "each":
                        for k, e in zip(self.spec["events"], evs):
                            got = yield e
                            log(self.label, k, got if not isinstance(got, SIM.Event) else "ev")
                            if k == "res":
                                yield e
                        continue
                    both = (UP.Any if self.spec["how"] == "any" else UP.All)(*evs)
                    got = yield both
                    done = [e.is_complete() for e in evs]
                    log(self.label, "multi", done, [type(k).__name__ for k in got])
                    if self.spec["how"] == "any":
                        for d, e in zip(done, evs):
                            if not d:
                                e.cancel()
                    for k, d, e in zip(self.spec["events"], done, evs):
                        if d and k == "res":
                            yield e
                        elif d and k in ("get", "sorted"):
                            log(self.label, "got", e.get_value())
                        elif not d and k == "know" and actor.get_knowledge(f"{self.label} {evs.index(e)}") is e:
                            actor.clear_knowledge(f"{self.label} {evs.index(e)}")

            def on_interrupt(self, *, actor: Unit, cause: Any) -> Any:
                log(self.label, "interrupt", actor, cause)
                return self.INTERRUPT.IGNORE

        class Plan(UP.Task):
            def task(self, *, actor: Unit) -> Any:
                actor.activate_linear_state(state="load", rate=2.0 / tu, task=self)
                first = UP.Any(UP.Wait(2.0 * tu), UP.Get(actor.box), UP.Wait(2.0 * tu))
                yield first
                actor.deactivate_all_states(task=self)
                actor.mood = "planned"

        procs = []
        for i, g in enumerate(spec["getters"]):
            task = Getter()
            task.spec, task.label = g, f"getter{i}"
            procs.append(task.run(actor=units[g["actor"]]))

        class Window(UP.Task):
            spec: Any
            label: str

            def task(self, *, actor: Unit) -> Any:
                yield UP.Wait(self.spec["at"] * tu)
                got = yield UP.WindowedGet(bench, self.spec["for"] * tu, reset_window=self.spec["reset"], get_args=(lambda x: x % 3 < 2,))
                log(self.label, "got", got)

        for i, w in enumerate(spec["windows"]):
            win = Window()
            win.spec, win.label = w, f"window{i}"
            procs.append(win.run(actor=units[w["actor"]]))

        # messages
        nodes = [Node(name=f"{tag}n{i}") for i in range(spec["nodes"])]
        mgr = UP.RoutingTableCommsManager(name="cup", mode="cup", send_time=0.25 * tu, retry_max_time=0.5 * tu, retry_rate=0.25 * tu,
                                          global_ignore=spec["global_ignore"], debug_logging=style["comms_log"])
        for u, v in spec["edges"]:
            mgr.connect_nodes(nodes[u], nodes[v], two_way=True)
        mgr.blocked_nodes += [nodes[k] for k in dict.fromkeys(spec["block"]) if k < len(nodes)]
        mgr.run()

        def reader(node: Any) -> Any:
            while True:
                m = yield node.inbox.get()
                log("message", node, m.content.data["text"], m.sender, None if m.time_sent is None else m.time_sent - start)

        for nd in nodes:
            env.process(reader(nd))

        def place(p: Any) -> Any:
            return UP.CartesianLocation(*[(x + off) * du for x in p], 0)

        class Fly(UP.Task):
            spec: Any

            def task(self, *, actor: Bird) -> Any:
                yield UP.Wait(self.spec["at"] * tu)
                speed = self.spec["speed"] * du / tu
                way = [place(p) for p in self.spec["to"]]
                actor.activate_location_state(state="location", speed=speed, waypoints=way, task=self)
                dist = sum(a - b for a, b in zip(way[1:], way)) + (way[0] - place(self.spec["start"]))
                yield UP.Wait(min(2.5 * tu, dist / speed))
                actor.deactivate_all_states(task=self)

        for i, e in enumerate(spec["eyes"]):
            mm.add_sensor(Eye(f"{tag}e{i}", place(e["at"]), e["r"] * du, log), location_attr_name="location", radius_attr_name="radius")
        birds = []
        for i, b in enumerate(spec["birds"]):
            bird = style["bird"](name=f"{tag}b{i}", location=place(b["start"]))
            birds.append(bird)
            fly = Fly()
            fly.spec = b
            fly.run(actor=bird)
            if spec["stepped"]:
                mm.add_detectable(bird, "location")

            def hide(bird: Any = bird, at: Any = b["hide"]) -> Any:
                if at is not None:
                    yield env.timeout(at * tu)
                    bird.detectable = False
                else:
                    yield env.timeout(0)

            env.process(hide())
        if spec["stepped"]:
            mm.run()
        self.birds = birds
        self.units, self.nodes, self.shelf = units, nodes, shelf
        self.bench, self.tank, self.reserve = bench, tank, reserve
        self.nuclei, self.nets, self.mgr, self.tools = nuclei, nets, mgr, tools
        for a, name in nets:
            a.start_network_loop(name, "Watch0")

        def ops() -> Any:
            yield env.timeout(tu / 16)
            for n, o in enumerate(spec["ops"]):
                due = start + (o["at"] + 1 / 16) * tu
                if due > env.now:
                    yield env.timeout(due - env.now)
                a = units[o["actor"]]
                what = o["what"]
                if what == "set":
                    setattr(a, o["state"], {"mood": f"m{n}", "fuel": float(n)}.get(o["state"], n))
                elif what == "put":
                    yield a.box.put(n)
                    yield shelf.put(n)
                elif what == "interrupt" and procs:
                    p = procs[o["k"] % len(procs)]
                    if p.is_alive:
                        p.interrupt(cause=n)
                elif what == "know":
                    for i in range(len(spec["getters"])):
                        for k in range(4):
                            if a.get_knowledge(f"getter{i} {k}") is not None:
                                a.succeed_knowledge_event(name=f"getter{i} {k}", n=n)
                elif what == "key":
                    a.parts[f"key{o['k']}"] = n
                elif what == "crate":
                    (a.crate.put if o["k"] < 3 else a.crate.get)(1.0)
                elif what == "bin":
                    names = list(a.bins)
                    (a.bins[names[o["k"] % 2]].put(n) if o["k2"] < 4 else a.bins[names[o["k"] % 2]].get())
                elif what == "note":
                    a.notes.append(n)
                    a.set_knowledge("old", [n, a.get_knowledge("old")], overwrite=True)
                elif what == "flow":
                    (tank.put if o["k"] < 3 else tank.get)([1.0, 0.5, 2.0][o["k"] % 3] * qu / tu, [1.25, 3.0, 6.5][o["k2"] % 3] * tu,
                                                           custom_callbacks=[lambda n=n: log("flow", n, tank.level)])
                elif what == "reserve":
                    log("reserve", reserve.reserve(f"r{o['k']}", float(1 + o["k2"] % 3) * qu, [None, 1.5 * tu][o["k2"] // 3]), reserve.available)
                elif what == "take":
                    if f"r{o['k']}" in reserve.queued:
                        log("take", reserve.take(f"r{o['k']}"), reserve.available)
                    elif reserve.available < 5 * qu:
                        reserve.put(1.0 * qu)
                elif what == "bench":
                    bench.put(n)
                elif what == "kit":
                    a.kit.ammo = n
                elif what == "rehearse":
                    c = Plan().rehearse(actor=a)
                    log("rehearsed", c.env.now, c.load, c.mood)
                elif what == "random":
                    log("random", a.stage.random.random(), a.stage.random.randint(0, 9))
                elif what == "shuffle":
                    everyone = list(a.get_entity_group("all"))
                    a.stage.random.shuffle(everyone)
                    log("shuffle", everyone)
                elif what == "record":
                    record_data({"n": n, "who": a.name}, copy=True)
                elif what == "message" and len(nodes) > 1:
                    u, v = o["k"] % len(nodes), o["k2"] % len(nodes)
                    if u != v:
                        put = mgr.make_put({"text": n}, source=nodes[u], destination=nodes[v])
                        yield put.as_event()

        env.process(ops())


def seen(part: Part, out: list[Any], base: Any, records: bool = True) -> None:
    """What a user can see of a model at the end of the run, with or without records."""
    def log_of(x: Any) -> Any:
        return plain(x._quantities) if records else None

    mine = [*part.units, *part.nodes, *part.birds]
    for a in mine:
        out.append(["states", a.name, plain({s: getattr(a, s) for s in a.states if s not in ("box", "inbox", "spare", "crate", "bins")})])
        if records:
            out.append(["histories", a.name, plain(a._state_histories)])
            out.append(["log", a.name, plain(a.get_log())])
        out.append(["running", a.name, plain({n: t.name for n, t in a.get_running_tasks().items()})])
        for n in range(6):
            out.append(["know", a.name, plain(a.get_knowledge(f"getter{n} {n}"))])
    for u in part.units:
        out.append(["box", u.name, plain(u.box.items), log_of(u.box)])
        out.append(["crate", u.name, u.crate.level, u.crate.capacity, log_of(u.crate)])
        out.append(["bins", u.name, *([k, v.capacity, plain(v.items), log_of(v)] for k, v in u.bins.items())])
        out.append(["old", u.name, plain(u.get_knowledge("old"))])
    for g in ("units", "movers", "nodes", "all"):
        out.append(["group", g, plain([x for x in base.get_entity_group(g) if any(x is a for a in mine)])])
    for what in (part.shelf, part.bench):
        out.append(["shelf", plain(what.items), log_of(what)])
    out.append(["tank", part.tank.level, part.tank.rate, log_of(part.tank)])
    out.append(["reserve", part.reserve.available, plain(part.reserve.queued), log_of(part.reserve)])


def program(spec: Any) -> list[Any]:
    out: list[Any] = []
    junk = [object() for _ in range(random.Random(os.urandom(4)).randrange(50))]
    kw: dict[str, Any] = {"random_gen": random.Random(spec["seed"])} if spec["own_rng"] else {"random_seed": spec["seed"]}
    with warnings.catch_warnings(), UP.EnvironmentContext(**kw) as env:
        warnings.simplefilter("ignore")
        stage_units()
        part = Part(spec, env, motion_manager(spec), out)
        units, shelf = part.units, part.shelf
        try:
            env.run(until=spec["until"])
        except Exception as e:  # an error is part of the history
            out.append(["error", type(e).__name__])
        base = UP.UpstageBase()
        for u in [*units, *base.get_actors()]:
            out.append(["states", u.name, plain({s: getattr(u, s) for s in u.states if s not in ("box", "inbox", "spare", "crate", "bins")})])
            out.append(["histories", u.name, plain(u._state_histories)])
        for u in units:
            out.append(["log", u.name, plain(u.get_log())])
            out.append(["running", plain({k: v.name for k, v in u.get_running_tasks().items()})])
        for g in ("units", "movers", "eyes", "nodes", "all"):
            out.append(["group", g, plain(list(base.get_entity_group(g)))])
        rows, cols = create_table()
        out.append(["columns", plain(cols)])
        out += [["row", *plain(list(r))] for r in rows]
        rows, cols = create_location_table()
        out += [["location row", *plain(list(r))] for r in rows]
        out.append(["shelf", plain(shelf.items), plain(shelf._quantities)])
        out.append(["recorded", plain(get_recorded_data()), base.stage.random.random()])
    del junk
    return json.loads(json.dumps(out, default=repr))


def case(prop: str, scenario: str, seed: int, i: int) -> list[Any]:
    """What a case of another check observes: its monitors' record and the events of each instant."""
    mod = importlib.import_module(f"vf.checks.{prop.lower()}")
    sc = next(s for s in mod.SCENARIOS if s.name == scenario)
    spec = core.jsonable(sc.gen(core.case_rng(seed, "C33", f"{prop}/{scenario}", i)))
    inst: dict[float, Counter] = {}
    step = SIM.Environment.step

    def tapped(self: Any) -> None:
        if self._queue:
            t, _, _, ev = self._queue[0]
            inst.setdefault(t, Counter())[type(ev).__name__] += 1
        step(self)

    SIM.Environment.step = tapped  # type: ignore[method-assign]
    try:
        mon, v, err = core.run_case(sc, spec)
    finally:
        SIM.Environment.step = step  # type: ignore[method-assign]
    return json.loads(json.dumps([["violation", v.key if v else None], *[["sig", re.sub(r"0x[0-9a-f]+", "0x", repr(s))] for s in mon.sig], ["hits", sorted(mon.hits.items())],
                                  *[["instant", t, sorted(c.items())] for t, c in inst.items()]]))


def answer(req: Any) -> Any:
    try:
        if req["kind"] == "program":
            return program(req["spec"])
        return case(req["prop"], req["scenario"], req["seed"], req["i"])
    except Exception as e:
        return [["error", type(e).__name__, str(e)]]


class Other:
    """A server process with another hash seed."""

    def __init__(self, hashseed: int, fork: bool):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        self.p = subprocess.Popen([sys.executable, "-m", "vf.det", "fork" if fork else "stay"], env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, text=True, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

    def ask(self, req: Any) -> None:
        self.p.stdin.write(json.dumps(req) + "\n")  # type: ignore[union-attr]
        self.p.stdin.flush()  # type: ignore[union-attr]

    def read(self) -> Any:
        line = self.p.stdout.readline()  # type: ignore[union-attr]
        if not line:
            raise RuntimeError("server died")
        return json.loads(line)


def main() -> None:
    warnings.simplefilter("ignore")
    real = os.dup(1)
    os.dup2(2, 1)
    out = os.fdopen(real, "w")
    fork = sys.argv[1] == "fork"
    for line in sys.stdin:
        req = json.loads(line)
        if not fork:
            out.write(json.dumps(answer(req)) + "\n")
            out.flush()
            continue
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                data = json.dumps(answer(req))
            except BaseException as e:
                data = json.dumps([["server error", f"{type(e).__name__}: {e}"]])
            with os.fdopen(w, "w") as f:
                f.write(data)
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            data = f.read()
        os.waitpid(pid, 0)
        out.write(data + "\n")
        out.flush()


if __name__ == "__main__":
    main()
