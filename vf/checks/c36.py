"""C36: what is not allowed is refused, and nothing has changed."""

import json
import random
import warnings
from collections.abc import Callable
from types import FunctionType
from typing import Any

import simpy as SIM

import upstage_des.api as UP
from upstage_des.data_utils import create_location_table, create_table

from .. import det
from ..core import Mon, Scenario
from ..util import stage_units

PROPERTY = {
    "title": "What is not allowed is refused with an error and changes nothing",
    "statement": (
        "A call that is not allowed (a value of a wrong type, a frozen or unknown state, a state or knowledge that is taken "
        "or missing, an actor that lacks states, an unknown or doubled network, nucleus, stage variable, store or sensor, a "
        "negative time, something that cannot be yielded, cancelled, rehearsed or interrupted) raises an error where it is "
        "made, and a simulation that handles the error goes on exactly as if the call had not been made. (Calls for several "
        "names act name by name up to the one that is refused.)"
    ),
    "quantifier": {"over": ["histories", "inputs"],
                   "text": "every simulation and every place, time and order of refused calls in it"},
    "why_tests_cant": "Tests check that errors are raised, one at a time in new environments, and end there; what a refused call "
                      "leaves behind (a lock, a half-made actor, an entry of a table) shows when the simulation goes on.",
    "anchors": {
        "files": ["src/upstage_des/actor.py", "src/upstage_des/states.py", "src/upstage_des/base.py", "src/upstage_des/task.py",
                  "src/upstage_des/task_network.py", "src/upstage_des/nucleus.py", "src/upstage_des/events.py",
                  "src/upstage_des/state_proxies.py", "src/upstage_des/state_sharing.py", "src/upstage_des/motion/motion.py",
                  "src/upstage_des/motion/stepped_motion.py", "src/upstage_des/communications/routing.py"],
        "mechanism": [{"name": "Actor.activate_state, __init__, knowledge and network guards", "where": "src/upstage_des/actor.py"},
                      {"name": "State.__set__ and subclasses", "where": "src/upstage_des/states.py"},
                      {"name": "Task.run, Task._handle_interruption, Task.rehearse", "where": "src/upstage_des/task.py"}],
        "observe_at": ["raised errors", "task steps", "histories", "get_log", "knowledge", "groups", "create_table"],
    },
    "technique": "runtime monitor: differential oracle comparing the recorded history with and without injected refused calls",
}
RULE = ("A case is a generated simulation, run with and without up to 16 refused calls at random times. Non-trivial: 3 or more "
        "refused calls and 20 or more logged steps; distinct by the log and the calls.")
KINDS = ["type", "frozen", "resource", "keyed", "key", "activate", "activate_args", "taken", "deactivate", "mimic", "knowledge",
         "knowledge_taken", "network", "queue", "nucleus", "wait", "put_get", "events", "stage", "sensor", "location", "actor",
         "record", "comms", "rehearse", "run", "interrupt", "convert", "containers"]
REQUIRED = {"log_entries": 20000, "histories": 2000, "refused": 5000, "rows": 2000, **{f"refused_{k}": 30 for k in KINDS}}
ASSUMPTIONS = ["Log entries that a refused call writes are left out of the comparison.", "Errors of user code are not refused calls."]


def gen(rng: random.Random) -> Any:
    s = det.gen(rng)
    s["refused"] = sorted([rng.randint(0, 26) / 2 + rng.choice([0, 5 / 128, 37 / 128]), rng.choice(KINDS), rng.randrange(8), rng.randrange(64)]
                          for _ in range(rng.randint(1, 16)))
    return s


class Odd(UP.Task):
    """A task that does what is not allowed."""

    what: Any = None
    make = False
    said: Any = None

    def task(self, *, actor: Any) -> Any:
        yield UP.Wait(0.25)
        yield self.what() if self.make else self.what

    def on_interrupt(self, *, actor: Any, cause: Any) -> Any:
        return self.said


class Nothing(UP.Task):
    pass


class Decide(UP.DecisionTask):
    pass


SE, E = UP.SimulationError, UP.UpstageError


def calls(kind: str, p: det.Part, a: Any, k: int, x: dict[str, Any]) -> list[tuple[str, Callable[[], Any], Any]]:
    """Calls of a kind that are not allowed now: what they are, the call, and its errors."""
    t = UP.Task()
    busy = [s for s in ("fuel", "heat") if a.get_knowledge(f"busy {s}") is not None]
    free = [s for s in ("fuel", "heat") if s not in busy]
    know = [n for n in ("busy fuel", "busy heat", "busy shown") if a.get_knowledge(n) is not None]
    nets = [n for b, n in p.nets if b is a]
    nucleus = next((p.nuclei[n] for n in p.nuclei if p.units[n] is a), None)
    loc = UP.CartesianLocation(1, 2, 3)
    far = UP.CartesianLocation(5e5, 1, 1)
    out: list[tuple[str, Callable[[], Any], Any]] = []

    def add(what: str, fn: Callable[[], Any], errs: Any = SE) -> None:
        out.append((what, fn, errs))

    def use(*path: str, v: Any) -> Callable[[], Any]:
        def fn() -> None:
            o = a
            for q in path[:-1]:
                o = getattr(o, q)
            setattr(o, path[-1], v)
        return fn

    if kind == "type":
        for v in ("x", None, 2.5, [1]):
            add(f"count={v!r}", use("count", v=v), TypeError)
    elif kind == "frozen":
        add("fixed=4", use("fixed", v=4))
        add("fixed=3", use("fixed", v=3))
    elif kind == "resource":
        add("box={}", use("box", v={}), E)
        add("box=store", use("box", v=x["tank"]), E)
    elif kind == "keyed":
        add("parts={}", use("parts", v={"key0": 1}))
        add("kit=Kit", use("kit", v=det.Kit()))
    elif kind == "key":
        add("parts[]", lambda: a.parts.__setitem__(f"key{k}", "x"), TypeError)
        add("parts.setdefault", lambda: a.parts.setdefault("fresh", "x"), TypeError)
        add("kit.ammo", use("kit", "ammo", v="x"), TypeError)
        add("kit.fuel", use("kit", "fuel", v=None), TypeError)
        add("parts[missing]", lambda: a.parts["fresh"], KeyError)
    elif kind == "activate":
        add("activate unknown", lambda: a.activate_state(state="nothing", task=t))
        for s in ("level", "mood", "parts", "kit", "box", "fixed"):
            add(f"activate {s}", lambda s=s: a.activate_linear_state(state=s, rate=1.0, task=t), E)
    elif kind == "activate_args":
        for s in [*free, "load"]:
            add(f"activate {s} without a rate", lambda s=s: a.activate_state(state=s, task=t), Exception)
        for s in free:
            add(f"activate {s} with a text", lambda s=s: a.activate_linear_state(state=s, rate="x", task=t), Exception)
        if p.birds:
            b = p.birds[k % len(p.birds)]
            if not b.get_active_state_data("location", without_update=True):
                add("fly without waypoints", lambda: b.activate_state(state="location", speed=1.0, task=t), Exception)
                add("fly at no speed", lambda: b.activate_location_state(state="location", speed=0, waypoints=[far], task=t), Exception)
                add("fly to nowhere", lambda: b.activate_location_state(state="location", speed=1.0, waypoints=[far, "x"], task=t), Exception)
    elif kind == "taken":
        for s in busy:
            add(f"activate {s} again", lambda s=s: a.activate_linear_state(state=s, rate=9.0, task=t))
            add(f"activate {s} with nothing", lambda s=s: a.activate_state(state=s, task=t))
        if p.birds:
            b = p.birds[k % len(p.birds)]
            if b.get_active_state_data("location", without_update=True):
                add("fly again", lambda: b.activate_location_state(state="location", speed=1.0, waypoints=[far], task=t))
    elif kind == "deactivate":
        for s in ("fuel", "heat", "load"):
            add(f"deactivate {s}", lambda s=s: a.deactivate_state(state=s, task=t), E)
            add(f"deactivate [{s}]", lambda s=s: a.deactivate_states(states=[s], task=t), E)
        if p.birds:
            add("deactivate location", lambda: p.birds[k % len(p.birds)].deactivate_state(state="location", task=t), E)
    elif kind == "mimic":
        o = p.units[k % len(p.units)]

        def mimic(s: str, m: str) -> Callable[[], Any]:
            return lambda: a.activate_mimic_state(self_state=s, mimic_state=m, mimic_actor=o, task=t)

        add("mimic by parts", mimic("parts", "level"), E)
        add("mimic by kit", mimic("kit", "level"), E)
        add("mimic of parts", mimic("other", "parts"), E)
        add("mimic of kit", mimic("other", "kit"), E)
        add("mimic of a text", mimic("count", "mood"), E)
        if a.get_knowledge("busy shown") is not None:
            add("mimic twice", mimic("shown", "level"), E)
            add("mimic twice the same", mimic("shown", "fuel"), E)
    elif kind == "knowledge":
        add("get", lambda: a.get_knowledge("nope", must_exist=True))
        add("clear", lambda: a.clear_knowledge("nope"))
        add("get and clear", lambda: a.get_and_clear_knowledge("nope"))
        add("bulk get", lambda: a.get_bulk_knowledge(["nope"], must_exist=True))
        add("bulk clear", lambda: a.clear_bulk_knowledge(["nope"]))
        add("task get", lambda: t.get_actor_knowledge(a, "nope", must_exist=True))
        add("task clear", lambda: t.clear_actor_knowledge(a, "nope"))
        add("task get and clear", lambda: t.get_and_clear_actor_knowledge(a, "nope"))
        add("succeed", lambda: a.succeed_knowledge_event(name="nope"))
    elif kind == "knowledge_taken":
        for n in know:
            add(f"set {n}", lambda n=n: a.set_knowledge(n, "mine"))
            add(f"bulk set {n}", lambda n=n: a.set_bulk_knowledge({n: "mine"}))
            add(f"task set {n}", lambda n=n: t.set_actor_knowledge(a, n, "mine"))
            add(f"event {n}", lambda n=n: a.create_knowledge_event(name=n))
            add(f"succeed {n}", lambda n=n: a.succeed_knowledge_event(name=n))
    elif kind == "network":
        add("delete", lambda: a.delete_task_network("nope"))
        add("running", lambda: a.get_running_task("nope"))
        add("interrupt", lambda: a.interrupt_network("nope", cause="x"))
        for n in nets:
            add(f"add {n}", lambda n=n: a.add_task_network(UP.TaskNetwork(n, {}, {})))
    elif kind == "queue":
        for n in nets:
            if a.get_task_queue(n):
                add(f"queue of {n}", lambda n=n: a.set_task_queue(n, ["Watch0", "Watch0"]))
                add(f"task queue of {n}", lambda n=n: a.set_task_queue(n, []))
    elif kind == "nucleus":
        if nucleus is not None:
            add("second nucleus", lambda: UP.TaskNetworkNucleus(actor=a), E)
            add("unknown network", lambda: nucleus.add_network("nope", ["level"]), E)
            add("remove unknown", lambda: nucleus.remove_network("nope"), E)
    elif kind == "wait":
        for v in (-1, -0.5, "x", None, [1, 2]):
            add(f"wait {v!r}", lambda v=v: UP.Wait(v))
        add("random wait", lambda: UP.Wait(-2.0, "s"))
    elif kind == "put_get":
        for v in (3, "x", None, [], x["tools"], a):
            add(f"put in {v!r:.20}", lambda v=v: UP.Put(v, 1))
            add(f"get from {v!r:.20}", lambda v=v: UP.Get(v))
        add("value of a get not made", lambda: UP.Get(a.box).get_value())
        add("value of a container's", lambda: UP.Get(x["tank"], 1).get_value())
    elif kind == "events":
        def twice() -> None:
            ev = UP.Event()
            ev.as_event()
            ev.succeed()
            ev.succeed()

        add("succeed twice", twice, (SE, RuntimeError))
        add("cancel any", lambda: UP.Any(UP.Wait(1.0)).cancel(), E)
        add("cancel all", lambda: UP.All(UP.Event()).cancel(), E)
        add("complete wait", lambda: UP.Wait(1.0).is_complete(), E)
        add("complete any", lambda: UP.Any(UP.Wait(1.0)).is_complete(), E)
        add("rehearse process", lambda: UP.Any(x["env"].process(iter_nothing(x["env"]))).rehearse())
    elif kind == "stage":
        add("add again", lambda: UP.add_stage_variable("motion_manager", 1), E)
        add("add random", lambda: UP.add_stage_variable("random", 1), E)
        add("get unknown", lambda: UP.get_stage_variable("nope"), E)
        add("attribute", lambda: a.stage.nope, AttributeError)
        add("set again", lambda: setattr(a.stage, "motion_manager", None), AttributeError)
        add("set random", lambda: setattr(a.stage, "random", None), AttributeError)
    elif kind == "sensor":
        class Deaf:
            location, radius = UP.CartesianLocation(0, 0, 0), 1e6

        class Half(Deaf):
            def entity_entered_range(self, entity: Any) -> None: ...

        class Lost(Half):
            location = None

            def entity_exited_range(self, entity: Any) -> None: ...

        class Sized(Half):
            def entity_exited_range(self, entity: Any) -> None: ...

        mm = a.stage.motion_manager
        for c in (Deaf, Half):
            add(f"sensor {c.__name__}", lambda c=c: mm.add_sensor(c()), NotImplementedError)
        add("sensor without location", lambda: mm.add_sensor(Sized(), location_attr_name="spot"))
        add("sensor without radius", lambda: mm.add_sensor(Sized(), radius_attr_name="reach"))
        if isinstance(mm, UP.SteppedMotionManager):
            add("detect what is nowhere", lambda: mm.add_detectable(a))
        else:
            add("sensor at no location", lambda: mm.add_sensor(Lost()))
    elif kind == "location":
        add("set x", lambda: setattr(loc, "x", 5), AttributeError)
        add("minus 3", lambda: loc - 3, (ValueError, TypeError))
        add("third", lambda: loc[7], (ValueError, IndexError))
        add("vector", lambda: loc == 3 or loc - UP.GeodeticLocation(1, 2, 3), (ValueError, TypeError))
    elif kind == "actor":
        kw: dict[str, Any] = {"parts": {"key0": 1}, "kit": det.Kit(), "bins": {"one": {}}}
        for what, more in {"unknown": {"nothing": 1}, "typed": {"count": "x"}, "part": {"parts": {"a": "x"}}, "box": {"box": 3},
                           "kind": {"box": {"kind": int}}, "args": {"box": {"size": 3}}}.items():
            add(f"actor {what}", lambda more=more: det.Unit(name=a.name, **{**kw, **more}), (E, TypeError))
        add("actor without", lambda: det.Unit(name=a.name, kit=det.Kit(), bins={}), E)
        add("node without mode", lambda: Mute(name="mute"), E)
        add("bird nowhere", lambda: det.Bird(name="nowhere"), E)
        add("bird in a text", lambda: det.Bird(name="text", location="here"), (E, TypeError))
        add("bird and knowledge", lambda: det.Bird(name="knows", location=loc, initial_knowledge=3), Exception)
    elif kind == "record":
        add("record", lambda: a.record_state("nope"))
    elif kind == "comms":
        add("connect", lambda: p.mgr.connect_nodes(a, p.units[0], two_way=True))
        if p.nodes:
            add("connect from", lambda: p.mgr.connect_nodes(p.nodes[0], a, two_way=True))
            add("connect to", lambda: p.mgr.connect_nodes(a, p.nodes[0], two_way=True))
        add("store", lambda: p.mgr.store_from_actor(a))
    elif kind == "rehearse":
        s = x["spare"]
        for what in (5, None, "x", SIM.Event, lambda: x["env"].process(iter_nothing(x["env"])), lambda: x["env"].timeout(0.5)):
            o = Odd()
            o.what, o.make = what, isinstance(what, FunctionType)
            add(f"rehearse {what!r:.20}", lambda o=o: o.rehearse(actor=s), SE)
        add("rehearse nothing", lambda: Nothing().rehearse(actor=s), NotImplementedError)
        add("rehearse no decision", lambda: Decide().rehearse(actor=s), NotImplementedError)
        add("rehearse no clone", lambda: Odd().rehearse(actor=s, cloned_actor=True), SE)
        add("rehearse in the wrong order", lambda: x["net"].rehearse_network(actor=s, task_name_list=["One", "One"]), SE)
        add("rehearse network", lambda: s.rehearse_network("line", ["Two", "Two", "One"]), SE)
    elif kind == "convert":
        add("unknown unit", lambda: UP.unit_convert(1.0, "m", "nope"), Exception)
        add("length to time", lambda: UP.unit_convert(1.0, "m", "s"), Exception)
    elif kind == "containers":
        add("take", lambda: x["reserve"].take("nobody"), ValueError)
        add("give back", lambda: x["reserve"].put(1e9), ValueError)
        for v in (-1, -2.5):
            add(f"capacity {v}", lambda v=v: UP.ContinuousContainer(x["env"], capacity=v), ValueError)
            add(f"start {v}", lambda v=v: UP.ContinuousContainer(x["env"], capacity=5, init=v), ValueError)
    return out


def iter_nothing(env: Any) -> Any:
    yield env.timeout(0)


class Mute(UP.Actor):
    inbox: UP.CommunicationStore = UP.CommunicationStore(modes=None)


class One(UP.Task):
    def task(self, *, actor: Any) -> Any:
        actor.level += 1
        yield UP.Wait(0.5)


class Two(UP.Task):
    def task(self, *, actor: Any) -> Any:
        actor.activate_linear_state(state="fuel", rate=1.0, task=self)
        yield UP.Wait(0.5)
        actor.deactivate_all_states(task=self)


def play(spec: Any, refuse: bool, mon: Mon) -> list[Any]:
    out: list[Any] = []
    wrong: list[Any] = []
    logged: dict[str, list[int]] = {}
    with warnings.catch_warnings(), UP.EnvironmentContext(random_seed=spec["seed"]) as env:
        warnings.simplefilter("ignore")
        stage_units()
        mm = det.motion_manager(spec)
        p = det.Part(spec, env, mm, out)
        links = {"One": UP.TaskLinks(default="Two", allowed=["Two"]), "Two": UP.TaskLinks(default="One", allowed=["One"])}
        x: dict[str, Any] = {"env": env, "spare": det.Unit(name="spare", parts={}, kit=det.Kit(), bins={}, debug_log=True),
                             "tank": UP.SelfMonitoringContainer(env, capacity=9), "tools": p.tools, "net": UP.TaskNetwork("line", {"One": One, "Two": Two}, links),
                             "reserve": UP.ReserveContainer(env, 10, 5)}
        x["spare"].add_task_network(x["net"])
        everyone = [*p.units, *p.nodes, *p.birds, x["spare"]]

        def tried(kind: str, what: str, fn: Callable[[], Any], errs: Any) -> None:
            before = [len(a.get_log()) for a in everyone]
            try:
                got = fn()
            except Exception as e:
                if isinstance(errs, type) and errs is Exception or isinstance(e, errs):
                    mon.hit("refused")
                    mon.hit(f"refused_{kind}")
                else:
                    wrong.append(f"{what}: {e!r}, expected {errs}")
            else:
                wrong.append(f"{what}: no error, {got!r}")
            for a, n in zip(everyone, before):
                logged.setdefault(a.name, []).extend(range(n, len(a.get_log())))

        def bad_process(kind: str, what: str, task: Any, cause: Any, errs: Any) -> Any:
            before = len(x["spare"].get_log())
            proc = task.run(actor=x["spare"])
            if cause:
                yield env.timeout(0.125)
                proc.interrupt(cause=cause)
            try:
                yield proc
            except errs:
                mon.hit("refused")
                mon.hit(f"refused_{kind}")
            except Exception as e:
                wrong.append(f"{what}: {e!r}, expected {errs}")
            else:
                wrong.append(f"{what}: no error")
            logged.setdefault("spare", []).extend(range(before, len(x["spare"].get_log())))

        def odd(**kw: Any) -> Odd:
            o = Odd()
            vars(o).update(kw)
            return o

        def mischief() -> Any:
            for at, kind, who, k in spec["refused"]:
                if at > env.now:
                    yield env.timeout(at - env.now)
                if not refuse:
                    continue
                a = p.units[who % len(p.units)]
                if kind == "run":
                    what = [5, "x", SIM.Event, object(), env.timeout(0.1)][k % 5]
                    env.process(bad_process(kind, f"yield {what!r:.20}", odd(what=what), None, SE))
                    task = [Nothing(), Decide()][k % 2]
                    env.process(bad_process(kind, f"run {task}", task, None, (SE, NotImplementedError)))
                elif kind == "interrupt":
                    said = [None, "x", 5, UP.Task][k % 4]
                    env.process(bad_process(kind, f"on_interrupt {said!r:.20}", odd(what=UP.Event, make=True, said=said), "go", SE))
                    env.process(bad_process(kind, "interrupt the last", UP.TerminalTask(), "go", SE))
                else:
                    some = calls(kind, p, a, k, x)
                    if some:
                        tried(kind, *some[k % len(some)])

        env.process(mischief())
        try:
            env.run(until=14.0)
        except Exception as e:  # an error is part of the history
            out.append(["error", repr(e)])
        if refuse:
            mon.check(not wrong, "refuse", lambda: "; ".join(wrong[:3]))
        base = UP.UpstageBase()
        out.append(["all", [a.name for a in base.get_actors()], sorted(base.get_all_entity_groups())])
        out.append(["everyone", [det.plain(list(g)) for _, g in sorted(base.get_all_entity_groups().items())]])
        rows, cols = create_table()
        out += [["row", *det.plain(list(r))] for r in [cols, *rows]]
        rows, cols = create_location_table()
        out += [["row", *det.plain(list(r))] for r in [cols, *rows]]
        p.units.append(x["spare"])
        for a in everyone:
            skip = set(logged.get(a.name, []))
            a._debug_log = [e for n, e in enumerate(a._debug_log) if n not in skip]
        det.seen(p, out, base)
        for s in ("fuel", "heat", "load"):
            x["spare"].activate_linear_state(state=s, rate=1.0, task=UP.Task())
        out.append(["stage", sorted(k for k in base.stage), base.stage.random.random()])
        out.append(["reserve", x["reserve"].available, x["tank"].level])
    return json.loads(json.dumps(out, default=repr))


def run(spec: Any, mon: Mon) -> None:
    want = play(spec, False, mon)
    got = play(spec, True, mon)
    for n in range(max(len(want), len(got))):
        a = want[n] if n < len(want) else None
        b = got[n] if n < len(got) else None
        mon.check(a == b, "changed", lambda: f"entry {n}: {a!r} without and {b!r} with refused calls {spec['refused']}")
    mon.hit("log_entries", len(want))
    mon.hit("histories", sum(1 for e in want if e[0] == "histories"))
    mon.hit("rows", sum(1 for e in want if e[0] == "row"))
    mon.nontrivial = mon.hits["refused"] >= 3 and len([e for e in want if not isinstance(e[0], str)]) >= 20
    mon.see(want, spec["refused"])
    mon.sample = {"entries": len(want), "refused": spec["refused"][:4]}


SCENARIOS = [Scenario("refused", gen, run, quick=1500, thorough=30000)]
