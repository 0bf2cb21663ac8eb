"""C37: arguments left out, given by name and given by position mean the same."""

import json
import random
import warnings
from collections.abc import Callable
from typing import Any

import simpy as SIM

import upstage_des.api as UP
from upstage_des.base import clear_top_context, create_top_context
from upstage_des.communications.routing import RoutingCommsManagerBase
from upstage_des.data_utils import create_table, get_recorded_data, record_data
from upstage_des.data_utils.data_recorder import DataRecorder
from upstage_des.geography import Spherical, WGS84, get_intersection_locations
from upstage_des.geography.intersections import find_crossing_points
from upstage_des.motion.cartesian_model import cartesian_linear_intersection
from upstage_des.routines import WindowedGet

from .. import det
from ..core import Mon, Scenario
from ..util import dy, stage_units

PROPERTY = {
    "title": "Arguments that are left out act as their documented defaults",
    "statement": (
        "Every optional argument of the public interface (actors, states, knowledge, events, stores and containers, "
        "networks and rehearsals, communications, motion, geography, data recording, environments) that is left out acts as "
        "the default its documentation gives, however the other arguments are given, and an argument means the same by name "
        "and by position."
    ),
    "quantifier": {"over": ["inputs", "configurations"], "text": "every public call, every choice of the arguments given and left out"},
    "why_tests_cant": "Tests give most of the arguments or none; a changed default, or one that depends on the other arguments, shows in neither.",
    "anchors": {
        "files": ["src/upstage_des/actor.py", "src/upstage_des/states.py", "src/upstage_des/events.py", "src/upstage_des/routines.py",
                  "src/upstage_des/base.py", "src/upstage_des/task.py", "src/upstage_des/task_network.py",
                  "src/upstage_des/communications/comms.py", "src/upstage_des/communications/routing.py",
                  "src/upstage_des/motion/motion.py", "src/upstage_des/motion/stepped_motion.py", "src/upstage_des/data_types.py",
                  "src/upstage_des/data_utils", "src/upstage_des/geography", "src/upstage_des/resources"],
        "mechanism": [{"name": "default values and argument forwarding", "where": "src/upstage_des"}],
        "observe_at": ["results", "event times", "histories", "logs", "tables"],
    },
    "technique": "runtime monitor: differential oracle comparing runs that leave arguments out, name them, and give them by position",
}
RULE = ("A case is one part of the interface used with random inputs and a random choice of its optional arguments, each at its "
        "default or at another value, in three runs: defaults left out, all named, as many as possible by position. Non-trivial: "
        "at least one argument was left out; distinct by part, arguments and what was observed. An option is felt when another "
        "value of it changes what is observed.")
ASSUMPTIONS = ["Defaults are those of the docstrings and the user documentation."]

LEFT_OUT, NAMED, PLACED = "left out", "named", "placed"


class Caller:
    """Calls functions in one of three ways of giving the optional arguments."""

    def __init__(self, way: str, opts: dict[str, "Opt"], picks: dict[str, int], rng: random.Random):
        self.way, self.opts, self.picks, self.rng = way, opts, picks, rng

    def value(self, name: str) -> Any:
        o = self.opts[name]
        n = self.picks[name]
        if n < 0:
            return o.same[(-n - 1) % len(o.same)]
        return o.other[n % len(o.other)]

    def kw(self, *names: str) -> dict[str, Any]:
        """Options that can only be given by name."""
        return {n.split(":")[-1]: self.value(n) for n in names if self.way != LEFT_OUT or self.picks[n] >= 0}

    def __call__(self, fn: Callable[..., Any], req: Any, place: str = "", named: str = "", **fixed: Any) -> Any:
        names = place.split()
        if self.way == PLACED:
            args = [*req, *[self.value(n) for n in names]]
            return fn(*args, **self.kw(*named.split()), **fixed)
        return fn(*req, **self.kw(*names, *named.split()), **fixed)


class Opt:
    """An option: values that are its default, and other values that are not."""

    def __init__(self, same: Any, other: Any, unfelt: bool = False):
        self.same = same if isinstance(same, tuple) else (same,)
        self.other = other if isinstance(other, list) else [other]
        self.unfelt = unfelt


PARTS: dict[str, tuple[dict[str, Opt], Callable[[Caller, Any, Any], Any]]] = {}


def part(**opts: Opt) -> Any:
    def keep(fn: Any) -> Any:
        PARTS[fn.__name__] = (opts, fn)
        return fn

    return keep


def attempt(fn: Callable[[], Any]) -> Any:
    try:
        return fn()
    except Exception as e:
        return f"error {type(e).__name__}"


def histories(a: Any) -> Any:
    return [[k, list(v)] for k, v in sorted(a._state_histories.items())]


class Man(UP.Actor):
    level: UP.LinearChangingState = UP.LinearChangingState(default=0.0, recording=True)
    n: UP.State = UP.State(default=0, recording=True)


class Mover(UP.Actor):
    location: UP.CartesianLocationChangingState = UP.CartesianLocationChangingState(recording=True)
    spot: UP.State = UP.State(default_factory=lambda: UP.CartesianLocation(2, 2))
    here: UP.DetectabilityState = UP.DetectabilityState(default=True)


def rehearsed(*events: Any) -> Any:
    """How long rehearsed events take."""
    class Trial(UP.Task):
        def task(self, *, actor: Any) -> Any:
            for e in events:
                yield e()
                actor.n += 1

    c = Trial().rehearse(actor=Man(name="trial"))
    return [c.env.now, c.n]


# ---- actors and knowledge


@part(debug_log=Opt(True, False), debug_log_time=Opt(None, [True, False]), initial_knowledge=Opt((None, {}), [{"a": 1}, {"b": 2}]))
def actor(c: Caller, env: Any, x: Any) -> Any:
    env.run(until=x[0] + 1)
    UP.add_stage_variable("debug_log_time", True) if x[1] > 4 else None
    a = c(Man, (), "", "debug_log debug_log_time initial_knowledge", name="man", level=x[0])
    a.log("said")
    env.run(until=x[0] + 2)
    a.set_knowledge("c", 3)
    return [a.get_log(), a.get_knowledge("a"), a.get_knowledge("b"), a.level, str(a)]


@part(debug_log=Opt(True, False), debug_log_time=Opt(None, [True, False]), initial_knowledge=Opt((None, {}), [{"a": 1}, {"b": 2}]))
def plain_actor(c: Caller, env: Any, x: Any) -> Any:
    env.run(until=x[0] + 1)
    a = c(UP.Actor, (), "", "debug_log debug_log_time initial_knowledge", name="man")
    a.log("said")
    return [a.get_log(), a.get_knowledge("a"), a.get_knowledge("b"), str(a)]


@part(initial_knowledge=Opt((None, {}), {"a": 1}), n=Opt(0, 4), level=Opt(0.0, 2.5))
def actor_states(c: Caller, env: Any, x: Any) -> Any:
    a = c(Man, (), "", "initial_knowledge n level", name="man")
    return [a.n, a.level, a.get_knowledge("a"), histories(a)]


@part(without_update=Opt(False, True))
def active_data(c: Caller, env: Any, x: Any) -> Any:
    a = Man(name="man")
    a.activate_linear_state(state="level", rate=x[0] + 1, task=UP.Task())
    env.run(until=x[1] + 1)
    d = c(a.get_active_state_data, ("level",), "without_update")
    return [d.get("value"), d.get("rate"), histories(a)]


@part(must_exist=Opt(False, True), overwrite=Opt(False, True), caller=Opt(None, ["me", "you"]))
def knowledge(c: Caller, env: Any, x: Any) -> Any:
    a = Man(name="man")
    env.run(until=1)
    out = [attempt(lambda: c(a.get_knowledge, ("k",), "must_exist"))]
    for n in range(2):
        out.append(attempt(lambda: c(a.set_knowledge, ("k", x[n]), "overwrite caller")))
        out.append(attempt(lambda: c(a.get_knowledge, ("k",), "must_exist")))
    out.append(attempt(lambda: c(a.clear_knowledge, ("k",), "caller")))
    out.append(attempt(lambda: c(a.get_and_clear_knowledge, ("k",), "caller")))
    a.set_knowledge("k", 5)
    out.append(attempt(lambda: c(a.get_and_clear_knowledge, ("k",), "caller")))
    return [out, a.get_log()]


@part(must_exist=Opt(False, True), overwrite=Opt(False, True), caller=Opt(None, ["me", "you"]))
def bulk_knowledge(c: Caller, env: Any, x: Any) -> Any:
    a = Man(name="man")
    out = [attempt(lambda: c(a.get_bulk_knowledge, (["k", "m"],), "must_exist"))]
    for n in range(2):
        out.append(attempt(lambda: c(a.set_bulk_knowledge, ({"k": x[n], "l": n},), "overwrite caller")))
        out.append(attempt(lambda: c(a.get_bulk_knowledge, (["k", "m"],), "must_exist")))
    out.append(attempt(lambda: c(a.clear_bulk_knowledge, (["k"],), "caller")))
    out.append(attempt(lambda: c(a.get_and_clear_bulk_knowledge, (["l"],), "caller")))
    return [out, a.get_log()]


@part(must_exist=Opt(False, True), overwrite=Opt(False, True))
def task_knowledge(c: Caller, env: Any, x: Any) -> Any:
    a, t = Man(name="man"), UP.Task()
    out = []
    for n in range(2):
        out.append(attempt(lambda: c(t.get_actor_knowledge, (a, "k"), "must_exist")))
        out.append(attempt(lambda: c(t.set_actor_knowledge, (a, "k", x[n]), "overwrite")))
        out.append(attempt(lambda: c(t.set_actor_bulk_knowledge, (a, {"l": n}), "overwrite")))
        out.append(attempt(lambda: c(t.get_actor_bulk_knowledge, (a, ["l", "m"]), "must_exist")))
        out.append([a.get_knowledge("k"), a.get_knowledge("l")])
    return [out, a.get_log()]


@part(time=Opt(0.0, [2.5, 1]))
def knowledge_event(c: Caller, env: Any, x: Any) -> Any:
    class Trial(UP.Task):
        def task(self, *, actor: Any) -> Any:
            kw = c.kw("time")
            yield actor.create_knowledge_event(name="go", **{"rehearsal_time_to_complete": v for v in kw.values()})

    return Trial().rehearse(actor=Man(name="trial")).env.now


@part(msg=Opt(None, "what"))
def log(c: Caller, env: Any, x: Any) -> Any:
    a = Man(name="man")
    env.run(until=1)
    a.log("first")
    return [c(a.log, (), "msg"), a.get_log()]


@part(knowledge=Opt((None, {}), [{"k": 1}, {"k": 2}]), n=Opt(7, 8))
def clone(c: Caller, env: Any, x: Any) -> Any:
    a = Man(name="man", n=7)
    a.set_knowledge("j", 4)
    b = c(a.clone, (), "", "knowledge n")
    return [b.n, b.get_knowledge("k"), b.get_knowledge("j"), b.env.now, a.n]


# ---- tasks and networks


def line() -> Any:
    def make(n: int) -> Any:
        def task(self: Any, *, actor: Any) -> Any:
            actor.n = 10 * actor.n + n
            yield UP.Wait(float(n))
            if actor.env.now >= 8:
                actor.set_task_queue("line", ["END"]) if not actor.get_task_queue("line") else None

        return type(f"T{n}", (UP.Task,), {"task": task})

    return UP.TaskNetworkFactory("line", {f"T{n}": make(n) for n in (1, 2, 3)}, {
        f"T{n}": UP.TaskLinks(default=f"T{n % 3 + 1}", allowed=["T1", "T2", "T3"]) for n in (1, 2, 3)})


@part(init_task_name=Opt(None, ["T1", "T2"]))
def start(c: Caller, env: Any, x: Any) -> Any:
    a = Man(name="man")
    a.add_task_network(line().make_network())
    if x[0] > 3:
        a.set_task_queue("line", ["T3", "T1"])
    out = attempt(lambda: c(a.start_network_loop, ("line",), "init_task_name"))
    out = [out, attempt(lambda: env.run(until=7))]
    return [out, a.n, histories(a)]


@part(init_task_name=Opt(None, ["T1", "T2"]))
def loop(c: Caller, env: Any, x: Any) -> Any:
    a = Man(name="man")
    net = line().make_network()
    a.add_task_network(net)
    if x[0] > 3:
        a.set_task_queue("line", ["T3", "T1"])
    out = attempt(lambda: env.process(c(net.loop, (), "", "init_task_name", actor=a)) and None)
    out2 = attempt(lambda: env.run(until=7))
    return [out, out2, a.n]


@part(knowledge=Opt((None, {}), {"k": 1}), end_task=Opt(None, ["T1", "T2", "END"]))
def rehearse_network(c: Caller, env: Any, x: Any) -> Any:
    a = Man(name="man")
    net = line().make_network()
    a.add_task_network(net)
    if x[1] > 4:
        a.set_task_queue("line", ["T3", "T1"])
    names = ["T2", "T3", "T1", "T1"][: 1 + int(x[0] / 2) % 4]

    def one() -> Any:
        b = c(a.rehearse_network, ("line", names), "knowledge end_task")
        return [b.env.now, b.n, b.get_knowledge("k"), b.get_task_queue("line")]

    def two() -> Any:
        b = c(net.rehearse_network, (), "", "knowledge end_task", actor=a, task_name_list=names)
        return [b.env.now, b.n, b.get_knowledge("k"), b.get_task_queue("line")]

    return [attempt(one), attempt(two)]


@part(knowledge=Opt((None, {}), {"k": 1}), cloned_actor=Opt(False, True))
def rehearse(c: Caller, env: Any, x: Any) -> Any:
    class Work(UP.Task):
        def task(self, *, actor: Any) -> Any:
            actor.n += 1
            yield UP.Wait(2.0)

    class Decide(UP.DecisionTask):
        def rehearse_decision(self, *, actor: Any) -> None:
            actor.n += 5

    a = Man(name="man")
    b = a.clone()
    out = []
    for t in (Work, Decide):
        for who in (a, b):
            def one() -> Any:
                r = c(t().rehearse, (), "", "knowledge cloned_actor", actor=who)
                return [r is who, r.n, r.env.now, r.get_knowledge("k")]

            out.append(attempt(one))
    return [out, a.n, b.n]


@part(other_name=Opt(None, "b"))
def make_network(c: Caller, env: Any, x: Any) -> Any:
    net = c(line().make_network, (), "other_name")
    return net.name


@part(interrupt_action=Opt(UP.InterruptStates.END, [UP.InterruptStates.RESTART, UP.InterruptStates.IGNORE]))
def marker(c: Caller, env: Any, x: Any) -> Any:
    out = []

    class Work(UP.Task):
        def task(self, *, actor: Any) -> Any:
            out.append(("start", env.now))
            c(self.set_marker, ("mark",), "interrupt_action")
            yield UP.Wait(x[0] + 3)
            out.append(("end", env.now))

    p = Work().run(actor=Man(name="man"))
    env.run(until=x[0] + 1)
    p.interrupt("go")
    env.run(until=30)
    return out


# ---- states


@part(default=Opt((None,), [5, 2.5]), frozen=Opt(False, True), valid_types=Opt(None, [int, (int, str)]), recording=Opt(False, True),
      record_duplicates=Opt(False, True), default_factory=Opt(None, lambda: 6), allow_none_default=Opt(False, True), no_init=Opt(False, True),
      recording_functions=Opt((None, []), [[(lambda t, v: [t, v], "both")]]))
def state(c: Caller, env: Any, x: Any) -> Any:
    def one() -> Any:
        class Has(UP.Actor):
            s: UP.State = c(UP.State, (), "", "default frozen valid_types recording record_duplicates default_factory allow_none_default "
                                              "no_init recording_functions")

        out = []
        for kw in ({}, {"s": 3}, {"s": "text"}):
            def made() -> Any:
                a = Has(name="has", **kw)
                res = [attempt(lambda: a.s)]
                for n, v in enumerate((4, 4, "x", 4.5, 4.5)):
                    env.run(until=env.now + 1) if n != 1 else None
                    res.append(attempt(lambda: setattr(a, "s", v)))
                    res.append(attempt(lambda: a.s))
                return [res, histories(a), attempt(lambda: a.clone().s)]

            out.append(attempt(made))
        return out

    return [attempt(one), attempt(lambda: det.plain(create_table()))]


@part(default=Opt(None, 2.0), recording=Opt(False, True), record_duplicates=Opt(False, True), frozen=Opt(False, True, True),
      default_factory=Opt(None, lambda: 3.0))
def linear(c: Caller, env: Any, x: Any) -> Any:
    def one() -> Any:
        class Has(UP.Actor):
            s: UP.LinearChangingState = c(UP.LinearChangingState, (), "", "default recording record_duplicates frozen default_factory")

        a = Has(name="has", **({"s": x[0]} if x[1] > 4 else {}))
        t = UP.Task()
        a.activate_linear_state(state="s", rate=x[2], task=t)
        env.run(until=2)
        a.deactivate_all_states(task=t)
        a.s = 9.0
        a.s = 9.0
        return [a.s, histories(a)]

    return attempt(one)


@part(default=Opt(None, 2.0), recording=Opt(False, True))
def shared(c: Caller, env: Any, x: Any) -> Any:
    class Has(UP.Actor):
        s: UP.SharedLinearChangingState = c(UP.SharedLinearChangingState, (), "", "default recording")

    def one() -> Any:
        a = Has(name="has", **({"s": x[0]} if x[1] > 4 else {}))
        t = UP.Task()
        a.activate_linear_state(state="s", rate=x[2] + 1, task=t)
        env.run(until=2)
        a.deactivate_all_states(task=t)
        return [a.s, histories(a)]

    return attempt(one)


@part(default=Opt(False, True), recording=Opt(False, True), loc_recording=Opt(False, True), geo_recording=Opt(False, True))
def detectability(c: Caller, env: Any, x: Any) -> Any:
    where = {"recording": v for v in c.kw("loc_recording").values()}
    geo = {"recording": v for v in c.kw("geo_recording").values()}

    class Has(UP.Actor):
        s: UP.DetectabilityState = c(UP.DetectabilityState, (), "", "default recording")
        l: UP.CartesianLocationChangingState = UP.CartesianLocationChangingState(**where)  # noqa: E741
        g: UP.GeodeticLocationChangingState = UP.GeodeticLocationChangingState(**geo)

    a = Has(name="has", l=UP.CartesianLocation(1, 2), g=UP.GeodeticLocation(3, 4))
    t = UP.Task()
    out = [a.s]
    a.activate_location_state(state="l", speed=1.0, waypoints=[UP.CartesianLocation(9, 9)], task=t)
    a.activate_location_state(state="g", speed=1.0, waypoints=[UP.GeodeticLocation(9, 9)], task=t)
    env.run(until=2)
    a.deactivate_all_states(task=t)
    a.s = x[0] > 4
    return [out, a.s, [[k, len(v)] for k, v in histories(a)]]


@part(default=Opt(None, [UP.SelfMonitoringStore, SIM.Container]), default_kwargs=Opt((None, {}), [{"capacity": 2}, {"capacity": 1}]),
      valid_types=Opt(None, [SIM.Container, (SIM.Store, SIM.Container)]))
def resource(c: Caller, env: Any, x: Any) -> Any:
    def one() -> Any:
        class Has(UP.Actor):
            s: UP.ResourceState = c(UP.ResourceState, (), "", "default valid_types default_kwargs")

        out = []
        for kw in ({}, {"s": {"kind": SIM.Store}}, {"s": {"kind": SIM.Container, "init": 1}}, {"s": {"capacity": 4}}):
            def made() -> Any:
                a = Has(name="has", **kw)
                return [type(a.s).__name__, a.s.capacity, getattr(a.s, "level", None)]

            out.append(attempt(made))
        return out

    return attempt(one)


@part(default=Opt(None, [UP.SelfMonitoringStore, SIM.Container]), default_kwargs=Opt((None, {}), [{"capacity": 2}, {"capacity": 1}]),
      valid_types=Opt(None, [SIM.Container, (SIM.Store, SIM.Container)]))
def multi(c: Caller, env: Any, x: Any) -> Any:
    def one() -> Any:
        class Has(UP.Actor):
            s: UP.MultiStoreState = c(UP.MultiStoreState, (), "", "default valid_types default_kwargs")

        out = []
        for v in (["a", "b"], [{"name": "a", "kind": SIM.Store}, "b"], [{"name": "a", "kind": SIM.Container, "init": 1}], [{"name": "a", "capacity": 4}]):
            def made() -> Any:
                a = Has(name="has", s=v)
                return [[k, type(r).__name__, r.capacity, getattr(r, "level", None)] for k, r in a.s.items()]

            out.append(attempt(made))
        return out

    return attempt(one)


@part(valid_types=Opt(None, [int, (int, str)]), recording=Opt(False, True), record_duplicates=Opt(False, True),
      recording_functions=Opt((None, []), [[(lambda t, v: [t, len(v)], "both")]]))
def dictionary(c: Caller, env: Any, x: Any) -> Any:
    class Has(UP.Actor):
        s: UP.DictionaryState = c(UP.DictionaryState, (), "", "valid_types recording record_duplicates recording_functions")

    def one() -> Any:
        a = Has(name="has", s={"a": 1})
        out = []
        for n, (k, v) in enumerate((("a", 1), ("a", 2), ("a", 2), ("b", 3), ("a", 2), ("c", "x"), ("d", 2.5))):
            env.run(until=env.now + 1) if n != 2 else None
            out.append(attempt(lambda: a.s.__setitem__(k, v)))
        return [out, dict(a.s.items()), histories(a)]

    return attempt(one)


@part(valid_types=Opt(det.Kit, (det.Kit, int), True), recording=Opt(False, True), record_duplicates=Opt(False, True),
      recording_functions=Opt((None, []), [[(lambda t, v: [t, v.ammo], "both")]]))
def data(c: Caller, env: Any, x: Any) -> Any:
    class Has(UP.Actor):
        s: UP.DataclassState = UP.DataclassState(valid_types=det.Kit, **c.kw("recording", "record_duplicates", "recording_functions"))

    a = Has(name="has", s=det.Kit(1, 2.0))
    for n, v in enumerate((1, 2, 2, 2, 3)):
        env.run(until=env.now + 1) if n != 2 else None
        a.s.ammo = v
    return [vars(a.s) and a.s.ammo, det.plain(histories(a))]


@part(default=Opt(None, UP.SelfMonitoringFilterStore), valid_types=Opt(None, [SIM.FilterStore, (SIM.FilterStore, SIM.Store)]))
def comm_store(c: Caller, env: Any, x: Any) -> Any:
    def one() -> Any:
        class Has(UP.Actor):
            s: UP.CommunicationStore = c(UP.CommunicationStore, (), "", "default valid_types", modes=["a"])

        out = []
        for kw in ({}, {"s": {"kind": SIM.Store}}, {"s": {"kind": SIM.FilterStore}}):
            def made() -> Any:
                a = Has(name="has", **kw)
                return [type(a.s).__name__, a.s.capacity]

            out.append(attempt(made))
        return out

    return attempt(one)


# ---- events


@part(timeout_unit=Opt(None, ["min", "hr", "s"]), time=Opt(None, [0.5, 3.0, 0.0]))
def wait(c: Caller, env: Any, x: Any) -> Any:
    UP.add_stage_variable("time_unit", "min")
    ran: list[Any] = []

    def kw() -> Any:
        return {"rehearsal_time_to_complete": v for v in c.kw("time").values()}

    def make() -> Any:
        return c(UP.Wait, (x[0],), "timeout_unit", **kw())

    def draw() -> Any:
        return c(UP.Wait.from_random_uniform, (x[0], x[0] + x[1]), "timeout_unit", **kw())

    class Work(UP.Task):
        def task(self, *, actor: Any) -> Any:
            yield make()
            ran.append(env.now)
            yield draw()
            ran.append(env.now)

    out = [rehearsed(make), rehearsed(draw)]
    Work().run(actor=Man(name="man"))
    env.run()
    return [out, ran]


@part(rehearsal_time_to_complete=Opt(0.0, [0.5, 3.0]), auto_reset=Opt(True, False))
def event(c: Caller, env: Any, x: Any) -> Any:
    evs: list[Any] = []
    out: list[Any] = []

    class Work(UP.Task):
        def task(self, *, actor: Any) -> Any:
            ev = c(UP.Event, (), "rehearsal_time_to_complete auto_reset")
            evs.append(ev)
            for _ in range(2):
                yield ev
                out.append((env.now, ev.is_complete()))

    reh = rehearsed(lambda: c(UP.Event, (), "rehearsal_time_to_complete auto_reset"))
    Work().run(actor=Man(name="man"))
    for t in (1, 3):
        out.append(attempt(lambda: env.run(until=t)))
        attempt(lambda: evs[0].succeed(n=t))
    out.append(attempt(lambda: env.run(until=5)))
    return [reh, out]


@part(rehearsal_time_to_complete=Opt(0.0, [0.5, 3.0]))
def requests(c: Caller, env: Any, x: Any) -> Any:
    st = SIM.FilterStore(env)
    o = "rehearsal_time_to_complete"
    return [rehearsed(lambda: c(UP.Put, (st, 1), o)), rehearsed(lambda: c(UP.Get, (st,), "", o)),
            rehearsed(lambda: c(UP.FilterGet, (st, lambda v: True), o)),
            rehearsed(lambda: c(UP.ResourceHold, (SIM.Resource(env),), "", o))]


@part(filter=Opt((lambda v: True,), [lambda v: v % 2 == 0, lambda v: v > 20]), sorter=Opt(None, [lambda v: (v % 5, v), lambda v: (-v,)]),
      reverse=Opt(False, True), rehearsal_time_to_complete=Opt(0.0, [0.5, 3.0]))
def sorted_get(c: Caller, env: Any, x: Any) -> Any:
    st = UP.SortedFilterStore(env)
    o = "filter sorter reverse rehearsal_time_to_complete"
    out: list[Any] = []

    class Work(UP.Task):
        def task(self, *, actor: Any) -> Any:
            for v in x:
                yield UP.Put(st, int(v * 8))
            for _ in x:
                got = yield c(UP.SortedFilterGet, (st,), o)
                out.append(got)

    Work().run(actor=Man(name="man"))
    env.run(until=10)
    return [out, rehearsed(lambda: c(UP.SortedFilterGet, (st,), o))]


@part(filter=Opt((lambda v: True,), [lambda v: v % 2 == 0, lambda v: v > 20]), sorter=Opt(None, [lambda v: (v % 5, v), lambda v: (-v,)]),
      reverse=Opt(False, True))
def sorted_store(c: Caller, env: Any, x: Any) -> Any:
    st = UP.SortedFilterStore(env)
    out: list[Any] = []

    def work() -> Any:
        for v in x:
            yield st.put(int(v * 8))
        for _ in x:
            got = yield c(st.get, (), "filter sorter reverse")
            out.append(got)

    env.process(work())
    env.run(until=10)
    return out


@part(timeout_unit=Opt(None, ["s", "hr"]), reset_window=Opt(False, True), get_args=Opt((None, (), []), [(lambda v: v != 2,)]))
def windowed(c: Caller, env: Any, x: Any) -> Any:
    UP.add_stage_variable("time_unit", "min")
    st = UP.SelfMonitoringFilterStore(env)
    out: list[Any] = []

    class Work(UP.Task):
        def task(self, *, actor: Any) -> Any:
            while True:
                got = yield c(WindowedGet, (st, x[0] / 4 + 1), "timeout_unit reset_window get_args")
                out.append((env.now, list(got)))

    def fill() -> Any:
        for n, v in enumerate(x):
            yield env.timeout(v / 4)
            yield st.put(n)

    Work().run(actor=Man(name="man"))
    env.process(fill())
    env.run(until=40)
    return [out, st.items]


# ---- resources


@part(capacity=Opt(float("inf"), [2, 1]), item_func=Opt(None, lambda items: 10 * len(items)), name=Opt(None, "shop"))
def stores(c: Caller, env: Any, x: Any) -> Any:
    out = []
    for cls in (UP.SelfMonitoringStore, UP.SelfMonitoringFilterStore, UP.SelfMonitoringSortedFilterStore):
        st = c(cls, (env,), "capacity item_func name")
        for v in x[:3]:
            st.put(v)
        env.run(until=env.now + 1)
        st.get()
        env.run(until=env.now + 1)
        out.append([st.capacity, st.items, st._quantities])
    return [out, sorted(create_table()[0], key=repr) if c.value("name") else None]


@part(capacity=Opt(float("inf"), [5.0, 9.0]), init=Opt(0.0, [2.0, 4.5]), name=Opt(None, "tank"))
def containers(c: Caller, env: Any, x: Any) -> Any:
    out = []
    for cls in (UP.SelfMonitoringContainer, UP.SelfMonitoringReserveContainer):
        st = c(cls, (env,), "capacity init name")
        out.append(attempt(lambda: st.put(3.0) and None))
        env.run(until=env.now + 1)
        out.append([st.capacity if cls is UP.SelfMonitoringContainer else st.remaining, getattr(st, "level", None) if cls is UP.SelfMonitoringContainer
                    else st.available, st._quantities])
    return [out, sorted(create_table()[0], key=repr) if c.value("name") else None]


@part(init=Opt(0.0, [2.0, 4.5]), capacity=Opt(float("inf"), [5.0, 9.0]), capacity_increase=Opt(False, True), expiration=Opt(None, [1.5, 0.5]))
def reserve(c: Caller, env: Any, x: Any) -> Any:
    out: list[Any] = []
    for cls in (UP.ReserveContainer, UP.SelfMonitoringReserveContainer):
        r = c(cls, (env,), "init capacity" if cls is UP.ReserveContainer else "capacity init")
        for amount in (x[0], x[1] + 1):
            out.append(attempt(lambda: c(r.put, (amount,), "capacity_increase")))
            out.append([r.available, r.remaining, r.queued if hasattr(r, "queued") else None])
        out.append(attempt(lambda: c(r.reserve, ("me", 1.0), "expiration")))
        for _ in range(4):
            env.run(until=env.now + 0.4)
            out.append([r.available, r.remaining])
        out.append(attempt(lambda: r.take("me")))
    return out


@part(init=Opt((0.0, 0), [2.0, 4]), error_empty=Opt(True, False), error_full=Opt(True, False), rate=Opt(0.0, [1.0, -2.0]),
      custom_callbacks=Opt((None, []), [[lambda: None]], True))
def continuous(c: Caller, env: Any, x: Any) -> Any:
    out: list[Any] = []
    for cls in (UP.ContinuousContainer, UP.SelfMonitoringContinuousContainer):
        r = c(cls, (env, 8.0), "init error_empty error_full")
        out.append([r.level, attempt(lambda: c(r.time_until_level, (3.0,), "rate")), attempt(lambda: c(r.time_until_done, (), "rate"))])
        put = c(r.put, (x[0] + 0.5, x[1]), "custom_callbacks")
        env.run(until=env.now + 0.25)
        out.append([r.level, attempt(lambda: c(r.time_until_level, (3.0,), "rate")), attempt(lambda: c(r.time_until_done, (), "rate"))])
        out.append(attempt(lambda: env.run(until=env.now + 9)))
        out.append([r.level, put.triggered])
        get = c(r.get, (x[2] + 0.5, x[3]), "custom_callbacks")
        out.append(attempt(lambda: env.run(until=env.now + 9)))
        out.append([r.level, get.triggered])
    return out


# ---- communications


class Post(UP.Actor):
    inbox: UP.CommunicationStore = UP.CommunicationStore(modes=["net", "cup"])
    box: UP.CommunicationStore = UP.CommunicationStore(modes=["other"])
    third: UP.ResourceState = UP.ResourceState(default=SIM.Store)


OPTS = "send_time retry_max_time retry_rate debug_logging mode"
comm_opts = dict(send_time=Opt(0.0, [0.5, 2.0]), retry_max_time=Opt(1.0, [0.25, 3.0]), retry_rate=Opt(0.166667, [0.5, 0.25]),
                 debug_logging=Opt(False, True), mode=Opt(None, "other"), time=Opt(0.0, [1.5, 2.0]))


def traffic(c: Caller, env: Any, mgr: Any, nodes: list[Any], cut: Callable[[int], None]) -> Any:
    out: list[Any] = []

    def read(n: Any, box: Any) -> Any:
        while True:
            m = yield getattr(n, box).get()
            out.append([env.now, n.name, box, m if isinstance(m, str) else m.content.data["n"]])

    def send() -> Any:
        for n in range(4):
            cut(n)
            kw = {"rehearsal_time_to_complete": v for v in c.kw("time").values()}
            ev = mgr.make_put({"n": n}, nodes[n % 2], nodes[-1], **kw)
            yield ev.as_event()
            out.append([env.now, "sent", n])
            yield env.timeout(1.25)

    for n in nodes:
        for b in ("inbox", "box", "third"):
            env.process(read(n, b))
    mgr.run()
    env.process(send())
    out.append(attempt(lambda: env.run(until=12)))
    kw = {"rehearsal_time_to_complete": v for v in c.kw("time").values()}
    return [out, len(mgr.debug_log), mgr.mode, rehearsed(lambda: mgr.make_put("x", nodes[0], nodes[1], **kw))]


@part(**comm_opts, init_entities=Opt((None, []), "third"))
def comms(c: Caller, env: Any, x: Any) -> Any:
    nodes = [Post(name=f"p{n}") for n in range(3)]
    init = c.kw("init_entities")
    if init.get("init_entities") == "third":
        init["init_entities"] = [(n, "third") for n in nodes]
    mgr = c(UP.PointToPointCommsManager, (), "", OPTS, name="net", **init)

    def cut(n: int) -> None:
        mgr.comms_degraded = x[n] > 4

    def back() -> Any:
        while True:
            yield env.timeout(0.625 + x[3] / 16)
            mgr.comms_degraded = False

    env.process(back())
    return attempt(lambda: traffic(c, env, mgr, nodes, cut))


@part(**{k: v for k, v in comm_opts.items() if k != "mode"}, global_ignore=Opt(False, True), two_way=Opt(False, True))
def routing(c: Caller, env: Any, x: Any) -> Any:
    nodes = [Post(name=f"p{n}") for n in range(6)]
    mgr = c(UP.RoutingTableCommsManager, (), "", OPTS.removesuffix(" mode") + " global_ignore", name="cup", mode="cup")
    for a, b in ((0, 1), (1, 5), (0, 2), (2, 1), (2, 3), (3, 4), (4, 5)):
        c(mgr.connect_nodes, (nodes[a], nodes[b]), "two_way")
    hop = attempt(lambda: str(mgr.select_hop(nodes[3], nodes[0])))

    def cut(n: int) -> None:
        mgr.blocked_links = [(nodes[0], nodes[1]), (nodes[3], nodes[4])] if x[n] > 3 else [(nodes[3], nodes[4])]

    def back() -> Any:
        while True:
            yield env.timeout(0.625 + x[3] / 4)
            mgr.blocked_links = [(nodes[3], nodes[4])]

    env.process(back())
    return [hop, attempt(lambda: traffic(c, env, mgr, nodes, cut))]


class Chain(RoutingCommsManagerBase):
    """A user's own routing: around the nodes that failed."""

    nodes: list[Any] = []

    def select_hop(self, source: Any, dest: Any, ignore_nodes: Any = None) -> Any:
        ways = {0: [1, 2], 1: [3], 2: [1, 3]}[self.nodes.index(source)]
        return next((self.nodes[n] for n in ways if self.nodes[n] not in (ignore_nodes or [])), None)


@part(**{k: v for k, v in comm_opts.items() if k != "mode"}, global_ignore=Opt(False, True))
def own_routing(c: Caller, env: Any, x: Any) -> Any:
    nodes = [Post(name=f"p{n}") for n in range(4)]
    mgr = c(Chain, (), "", OPTS.removesuffix(" mode") + " global_ignore", name="cup", mode="cup")
    mgr.nodes = nodes
    mgr.blocked_links = [(nodes[2], nodes[3])]

    def cut(n: int) -> None:
        mgr.blocked_links = [(nodes[0], nodes[1]), (nodes[2], nodes[3])] if x[n] > 3 else []

    def back() -> Any:
        while True:
            yield env.timeout(0.625 + x[3] / 4)
            mgr.blocked_links = [(nodes[2], nodes[3])]

    env.process(back())
    return attempt(lambda: traffic(c, env, mgr, nodes, cut))


@part(ignore_nodes=Opt((None, []), "mid"))
def hop(c: Caller, env: Any, x: Any) -> Any:
    nodes = [Post(name=f"p{n}") for n in range(4)]
    mgr = UP.RoutingTableCommsManager(name="cup", mode="cup")
    for a, b in ((0, 1), (1, 3), (0, 2), (2, 3)):
        mgr.connect_nodes(nodes[a], nodes[b])
    opt = c.opts["ignore_nodes"]
    opt.other = [[nodes[1]]]
    return attempt(lambda: str(c(mgr.select_hop, (nodes[0], nodes[3]), "ignore_nodes")))


# ---- motion


class Eye:
    def __init__(self, env: Any, out: list[Any]):
        self.env, self.out = env, out
        self.location, self.radius = UP.CartesianLocation(0, 0), 3.0
        self.post, self.reach = UP.CartesianLocation(4, 0), 5.0

    def entity_entered_range(self, entity: Any) -> None:
        self.out.append([self.env.now, "in", entity.name])

    def entity_exited_range(self, entity: Any) -> None:
        self.out.append([self.env.now, "out", entity.name])


def fly(env: Any, x: Any, name: str = "m") -> Any:
    m = Mover(name=name, location=UP.CartesianLocation(-8 - x[0], x[1] / 4))

    class Go(UP.Task):
        def task(self, *, actor: Any) -> Any:
            actor.activate_location_state(state="location", speed=2.0, waypoints=[UP.CartesianLocation(12, 0)], task=self)
            yield UP.Wait((actor.location - UP.CartesianLocation(12, 0)) / 2.0)
            actor.deactivate_all_states(task=self)

    Go().run(actor=m)
    return m


@part(location_attr_name=Opt("location", "post"), radius_attr_name=Opt("radius", "reach"), debug=Opt(False, True, True))
def sensor(c: Caller, env: Any, x: Any) -> Any:
    out: list[Any] = []
    mm = c(UP.SensorMotionManager, (cartesian_linear_intersection,), "debug")
    UP.add_stage_variable("motion_manager", mm)
    c(mm.add_sensor, (Eye(env, out),), "location_attr_name radius_attr_name")
    fly(env, x)
    env.run()
    return out


@part(location_attr_name=Opt("location", "post"), radius_attr_name=Opt("radius", "reach"), debug=Opt(False, True, True),
      max_empty_events=Opt(3, [1, 5]), det_location=Opt("location", "spot"), new_rate=Opt(None, 0.25, True))
def stepped(c: Caller, env: Any, x: Any) -> Any:
    out: list[Any] = []
    mm = c(UP.SteppedMotionManager, (0.5,), "max_empty_events debug")
    UP.add_stage_variable("motion_manager", mm)
    c(mm.add_sensor, (Eye(env, out),), "radius_attr_name location_attr_name")
    m = fly(env, x)
    kw = {"location_attr_name": v for v in c.kw("det_location").values()}
    if c.way == PLACED:
        mm.add_detectable(m, c.value("det_location"))
    else:
        mm.add_detectable(m, **kw)
    mm.run()
    env.run(until=60)
    idle = Mover(name="idle", location=UP.CartesianLocation(1, 1))
    mm.add_detectable(idle)
    mm.run()
    env.run()
    return [out, env.now]


# ---- locations and geography


@part(z=Opt((0.0, 0), [3.0, -2.5]), use_altitude_units=Opt(False, True))
def cartesian(c: Caller, env: Any, x: Any) -> Any:
    a = c(UP.CartesianLocation, (x[0], x[1]), "z", "use_altitude_units")
    b = UP.CartesianLocation(0, 0, 1.0, use_altitude_units=True)
    return [a.x, a.y, a.z, a.use_altitude_units, a - b, b - a, a == b, [a[n] for n in range(3)], a.straight_line_distance(b)]


@part(alt=Opt((0.0, 0), [3.0, 25]), in_radians=Opt(False, True))
def geodetic(c: Caller, env: Any, x: Any) -> Any:
    a = c(UP.GeodeticLocation, (x[0] / 8, x[1] / 8), "alt", "in_radians")
    b = UP.GeodeticLocation(0.5, 0.25)
    return [a.lat, a.lon, a.alt, a - b, [a[n] for n in range(3)], a.straight_line_distance(b), a.to_degrees().lat, a.to_radians().lat]


@part(z=Opt((0.0, 0), [3.0, -2.5]), use_altitude_units=Opt(True, False), alt=Opt((0.0, 0), [4.0, 9]), in_radians=Opt(False, True))
def location_data(c: Caller, env: Any, x: Any) -> Any:
    a = c(UP.CartesianLocationData, (x[0], x[1]), "z", "use_altitude_units")
    b = c(UP.GeodeticLocationData, (x[0] / 8, x[1] / 8), "alt", "in_radians")
    p, q = a.make_location(), b.make_location()
    return [a.x, a.y, a.z, p.x, p.y, p.z, p.use_altitude_units, b.lat, b.lon, b.alt, q.lat, q.lon, q.alt, q.in_radians,
            a == UP.CartesianLocationData(x[0], x[1], 3.0), b == UP.GeodeticLocationData(x[0] / 8, x[1] / 8)]


def spot(x: Any, n: int) -> Any:
    return (x[n] * 4 - 16, x[n + 1] * 8 - 40)


@part(units=Opt("nmi", ["km", "m", "ft"]), num_segments=Opt(10, [3, 12]), num_points=Opt(10, [5, 8]))
def spherical(c: Caller, env: Any, x: Any) -> Any:
    return earth(c, Spherical, x, False)


@part(units=Opt("nmi", ["km", "m", "ft"]), num_segments=Opt(10, [3, 12]), num_points=Opt(10, [5, 8]), tol=Opt(1e-12, [1e-2, 1e-3]),
      max_iter=Opt(200, [1, 2]))
def wgs84(c: Caller, env: Any, x: Any) -> Any:
    return earth(c, WGS84, x, True)


def earth(c: Caller, e: Any, x: Any, iters: bool) -> Any:
    a, b, p = spot(x, 0), spot(x, 2), spot(x, 1)
    it = " tol max_iter" if iters else ""

    def units(name: str, fn: Any, req: Any, more: str = "") -> Any:
        """A call whose unit argument has its own name."""
        c.opts[name], c.picks[name] = c.opts["units"], c.picks["units"]
        return attempt(lambda: c(fn, req, (name + more).strip()))

    out = [units("units", e.distance, (a, b), it), units("units", e.distance_and_bearing, (a, b), it),
           units("distance_units", e.point_from_bearing_dist, (a, x[4] * 40, x[5] * 20 + 1), it),
           attempt(lambda: c(e.geo_linspace, (a, b), "num_segments")),
           units("radius_units", e.geo_circle, (a, x[5] * 10 + 1), " num_points")]
    if iters:
        out.append(attempt(lambda: c(e.bearing, (a, b), it.strip())))
    else:
        out.append(units("units", e.cross_track_distance, (a, b, p)))
        out.append(attempt(lambda: c(e.geo_linspace_with_ecef, (a, b), "num_segments")))
    return out


@part(input_in_radians=Opt(False, True), radians_out=Opt(False, True))
def conversions(c: Caller, env: Any, x: Any) -> Any:
    out = []
    for e in (Spherical, WGS84):
        p = [(x[0] / 8, x[1] / 8, x[2] * 100), (x[3] / 8, -x[4] / 8, 0.0)]
        ecef = c(e.lla2ecef, (p,), "input_in_radians")
        out.append([ecef, c(e.ecef2lla, (ecef,), "radians_out")])
    return out


@part(dist_between=Opt((None, 9260.0), [40000.0, 2000.0]), subdivide_levels=Opt((None, [10, 20]), [[5], [3, 3]]), close=Opt(9260.0, [40000.0, 2000.0]))
def intersections(c: Caller, env: Any, x: Any) -> Any:
    e = Spherical if x[5] > 4 else WGS84
    a, b, p = (x[0], x[1], 0.0), (x[0] + 1 + x[2] / 8, x[1] + x[3] / 8, 100.0), (x[0] + 0.5, x[1] + 0.1, 50.0)
    out = attempt(lambda: [[k.kind, k.begin, k.end] for k in c(get_intersection_locations, (a, b, p, 30.0 + x[4], "km", e), "dist_between subdivide_levels")])
    kw = {"dist_between": v for v in c.kw("close").values()}
    return [out, attempt(lambda: [[k.kind, k.begin, k.end] for k in find_crossing_points(a, b, p, e, 30e3 + x[4], **kw)])]


# ---- data and environments


@part(copy=Opt(False, True))
def recorder(c: Caller, env: Any, x: Any) -> Any:
    d = {"n": [1]}
    c(record_data, (d,), "copy")
    env.run(until=x[0] + 1)
    d["n"].append(2)
    c(record_data, (d,), "copy")
    return get_recorded_data()


@part(skip_locations=Opt(True, False), save_static=Opt(False, True))
def table(c: Caller, env: Any, x: Any) -> Any:
    class Has(Mover):
        n: UP.State = UP.State(default=1)
        r: UP.State = UP.State(default=1, recording=True)
        home: UP.State = UP.State(default_factory=lambda: UP.CartesianLocation(1, 2), recording=True)

    a = Has(name="has", location=UP.CartesianLocation(1, 2))
    env.run(until=1 + x[0])
    a.n, a.r = 4, 5
    rows, cols = c(create_table, (), "skip_locations save_static")
    return [[[repr(v) for v in r] for r in rows], cols]


@part(copy=Opt(False, True))
def own_recorder(c: Caller, env: Any, x: Any) -> Any:
    rec = DataRecorder()
    d = {"n": [1]}
    c(rec.record_data, (d,), "copy")
    env.run(until=x[0] + 1)
    d["n"].append(2)
    c(rec.record_data, (d,), "copy")
    return get_recorded_data()


@part(initial_time=Opt((0.0, 0), [4.0, 7]), random_seed=Opt(None, [3, 9]), random_gen=Opt(None, "own"))
def top_context(c: Caller, env: Any, x: Any) -> Any:
    c.opts["random_gen"].other = [source()]
    ctx = c(create_top_context, (), "initial_time random_seed random_gen")
    try:
        base = UP.UpstageBase()
        seeded = c.value("random_seed") is not None or c.value("random_gen") is not None
        return [base.env.now, base.stage.random.random() if seeded else None]
    finally:
        clear_top_context(ctx)


def source() -> Any:
    return random.Random(77)


@part(initial_time=Opt((0.0, 0), [4.0, 7]), random_seed=Opt(None, [3, 9]), random_gen=Opt(None, "own"))
def context(c: Caller, env: Any, x: Any) -> Any:
    out = []
    c.opts["random_gen"].other = [source()]
    with c(UP.EnvironmentContext, (), "initial_time random_seed random_gen") as e:
        out.append(e.now)
        r = UP.UpstageBase().stage.random
        seeded = c.value("random_seed") is not None or c.value("random_gen") is not None
        out.append(r.random() if seeded else None)
    return out


def play(name: str, way: str, picks: dict[str, int], x: Any) -> Any:
    opts, fn = PARTS[name]
    with warnings.catch_warnings(), UP.EnvironmentContext(random_seed=int(x[0] * 8)) as env:
        warnings.simplefilter("ignore")
        stage_units(stage_model=Spherical, intersection_model=get_intersection_locations)
        out = fn(Caller(way, dict(opts), dict(picks), random.Random(1)), env, x)
    return json.loads(json.dumps(det.plain(out), default=repr))


def gen(rng: random.Random) -> Any:
    name = rng.choice([*sorted(PARTS), "state", "state", "state", "linear", "linear", "routing", "routing", "multi"])
    opts = PARTS[name][0]
    plain = rng.choice([0.35, 0.6, 0.85])
    picks = {o: (-1 - rng.randrange(4) if rng.random() < plain else rng.randrange(4)) for o in opts}
    toggled = rng.choice(sorted(opts))
    return {"part": name, "picks": picks, "toggle": [toggled, rng.randrange(4)], "x": [dy(rng, 0, 64) for _ in range(6)]}


def run(spec: Any, mon: Mon) -> None:
    name, picks, x = spec["part"], spec["picks"], spec["x"]
    want = play(name, NAMED, picks, x)
    for way in (LEFT_OUT, PLACED):
        got = play(name, way, picks, x)
        mon.check(got == want, name, lambda: f"{name} with {picks} and {x}: {got!r:.400} when {way}, {want!r:.400} when named")
    # spelled in another way
    again = {k: v - 1 if v < 0 else v for k, v in picks.items()}
    got = play(name, NAMED, again, x)
    mon.check(got == want, f"{name}-spelling", lambda: f"{name} with {again} and {x}: {got!r:.400}, {want!r:.400} with {picks}")
    o, n = spec["toggle"]
    changed = play(name, NAMED, {**picks, o: n if picks[o] < 0 else -1}, x)
    if changed != want:
        mon.hit(f"felt_{name}.{o}")
    mon.hit("left_out", sum(1 for v in picks.values() if v < 0))
    mon.hit(f"part_{name}")
    mon.nontrivial = any(v < 0 for v in picks.values())
    mon.see(name, sorted(picks.items()), want)
    mon.sample = {"part": name, "picks": picks, "observed": repr(want)[:300]}


REQUIRED = {"left_out": 3000, **{f"felt_{n}.{o}": 3 for n, (opts, _) in PARTS.items() for o, v in opts.items() if not v.unfelt}}
SCENARIOS = [Scenario("arguments", gen, run, quick=20000, thorough=200000)]
