"""C46: an error in a user's code surfaces where it happened, once, and hurts nothing else."""

import json
import random
import warnings
from collections.abc import Callable
from typing import Any

import simpy as SIM
import upstage_des.api as UP
from upstage_des.communications.processes import generate_comms_wait
from upstage_des.communications.routing import RoutingCommsManagerBase
from upstage_des.task import process
from upstage_des.type_help import TASK_GEN

from .. import det
from ..core import Discard, Mon, Scenario
from ..util import stage_units

PROPERTY = {
    "title": "An error in a user's code surfaces once and hurts nothing else",
    "statement": (
        "An error that a user's code raises, in a task, a routine or its cancellation, a decision, a reaction to an interrupt, a recording function, a filter or sorter, "
        "a callback of a flow, a sensor's notification, a choice of a hop, a receiver of messages or a process, alone or in a network, running or in a rehearsal, is never "
        "lost, replaced or repeated: it stops the simulation's run at the instant it was raised, once, or reaches the user's own handler around the call that led to it. When the run is "
        "taken up again, everything that does not depend on what failed, other networks of the same actor, other sensors of the same mover and other "
        "models, goes on as if it had not failed."
    ),
    "quantifier": {"over": ["faults", "histories", "schedules"], "text": "every user's function that the library calls, every time and combination of failures, beside every model"},
    "why_tests_cant": "Tests hardly ever raise errors in user code, and never go on afterwards; a swallowed error leaves nothing to see.",
    "anchors": {
        "files": ["src/upstage_des/task.py", "src/upstage_des/task_network.py", "src/upstage_des/actor.py", "src/upstage_des/routines.py", "src/upstage_des/nucleus.py",
                  "src/upstage_des/states.py", "src/upstage_des/events.py", "src/upstage_des/resources/container.py", "src/upstage_des/resources/sorted.py",
                  "src/upstage_des/motion/motion.py", "src/upstage_des/communications/routing.py", "src/upstage_des/communications/processes.py"],
        "mechanism": [{"name": "Task.run, Task.rehearse, TaskNetwork.loop, recording functions, custom callbacks, sensor notifications", "where": "src/upstage_des"}],
        "observe_at": ["errors out of env.run and of calls", "time of the run's stop", "steps of what does not depend on it"],
    },
    "technique": "fault injection: errors are raised in user code; a monitor matches raised to surfaced ones and compares all else with a run without faults",
}
RULE = (
    "A case is a generated model and one to five users' functions that raise, run with and without raising. Non-trivial: every error was raised; distinct by the "
    "kinds, the errors' times and the model's history."
)
ASSUMPTIONS = ["Errors are compared by identity along __cause__, as SimPy raises copies of a process's error.",
               "Times of errors do not coincide with other events, and a stepped manager's sensors do not fail (its loop is one process)."]


class Boom(Exception):
    """An error of a user's code, of any kind."""


BOOMS = [Boom] + [
    type(f"Boom{k.__name__}", (Boom, k), {})
    for k in (KeyError, IndexError, ValueError, TypeError, AttributeError, RuntimeError, ZeroDivisionError, OSError, AssertionError, NotImplementedError, UP.SimulationError)
]


class World:
    def __init__(self, env: Any, live: bool, salt: int):
        self.env, self.live, self.salt, self.raised, self.handled, self.seen = env, live, salt, [], [], []

    def bang(self, token: Any) -> Any:
        """What a user's function does at its worst; the number of times is what it is."""
        if not self.live:
            self.raised.append((self.env.now, None))
            return None
        e = BOOMS[(int(token) + len(self.raised) + self.salt) % len(BOOMS)](str(token))
        self.raised.append((self.env.now, e))
        raise e

    def log(self, *a: Any) -> None:
        self.seen.append([self.env.now, *det.plain(list(a))])


KINDS: dict[str, Callable[..., Any]] = {}


def kind(f: Any) -> Any:
    KINDS[f.__name__] = f
    return f


class Host(UP.Actor):
    fuel = UP.LinearChangingState(default=0.0)
    n = UP.State(default=0)
    seen = UP.State(default=0)
    location = UP.CartesianLocationChangingState()
    detectable = UP.DetectabilityState(default=True)
    box = UP.ResourceState(default=SIM.Store)


def after(w: World, at: float, f: Any, *a: Any, **kw: Any) -> None:
    def proc() -> Any:
        yield w.env.timeout(at - w.env.now)
        f(*a, **kw)

    w.env.process(proc())


def tasked(w: World, at: float, a: Any, body: Any, name: str = "Work") -> Any:
    """A task of a body, which holds a state meanwhile."""

    class Work(UP.Task):
        def task(self, *, actor: Any) -> TASK_GEN:
            yield UP.Wait(at)
            yield from body(self, actor)

    Work.__name__ = name
    return Work


@kind
def task(w: World, at: float, a: Any, t: Any) -> None:
    def body(task: Any, actor: Any) -> TASK_GEN:
        actor.activate_linear_state(state="fuel", rate=1.0, task=task)
        w.bang(t)
        yield UP.Wait(0.125)

    tasked(w, at, a, body)().run(actor=a)


@kind
def task_first(w: World, at: float, a: Any, t: Any) -> None:
    class Work(UP.Task):
        def task(self, *, actor: Any) -> TASK_GEN:
            w.bang(t)
            yield UP.Wait(0.125)

    after(w, at, lambda: Work().run(actor=a))


@kind
def task_end(w: World, at: float, a: Any, t: Any) -> None:
    def body(task: Any, actor: Any) -> TASK_GEN:
        yield UP.Any(UP.Wait(0.125), UP.Get(actor.box))
        w.bang(t)

    tasked(w, at, a, body)().run(actor=a)


@kind
def network(w: World, at: float, a: Any, t: Any) -> None:
    def body(task: Any, actor: Any) -> TASK_GEN:
        w.bang(t)
        yield UP.Wait(500.0)

    work = tasked(w, at, a, body)
    a.add_task_network(UP.TaskNetworkFactory.from_single_looping("bad", work).make_network())
    a.start_network_loop("bad", "Work")


@kind
def second(w: World, at: float, a: Any, t: Any) -> None:
    class One(UP.Task):
        def task(self, *, actor: Any) -> TASK_GEN:
            yield UP.Wait(at)

    class Two(UP.Task):
        def task(self, *, actor: Any) -> TASK_GEN:
            w.bang(t)
            yield UP.Wait(500.0)

    a.add_task_network(UP.TaskNetworkFactory.from_ordered_loop("bad", [One, Two]).make_network())
    a.start_network_loop("bad", "One")


def choosing(w: World, at: float, a: Any, t: Any, skip: bool) -> None:
    class One(UP.Task):
        def task(self, *, actor: Any) -> TASK_GEN:
            yield UP.Wait(at)

    class Choose(UP.DecisionTask):
        DO_NOT_HOLD = skip

        def make_decision(self, *, actor: Any) -> None:
            w.bang(t)
            actor.set_task_queue("bad", ["Rest"])

    class Rest(UP.Task):
        def task(self, *, actor: Any) -> TASK_GEN:
            yield UP.Wait(500.0)

    links = {"One": UP.TaskLinks(default="Choose", allowed=["Choose"]), "Choose": UP.TaskLinks(default=None, allowed=["Rest"]), "Rest": UP.TaskLinks(default=None, allowed=[])}
    a.add_task_network(UP.TaskNetworkFactory("bad", {"One": One, "Choose": Choose, "Rest": Rest}, links).make_network())
    a.start_network_loop("bad", "One")


@kind
def decision(w: World, at: float, a: Any, t: Any) -> None:
    choosing(w, at, a, t, False)


@kind
def decision_skipped(w: World, at: float, a: Any, t: Any) -> None:
    choosing(w, at, a, t, True)


@kind
def terminal(w: World, at: float, a: Any, t: Any) -> None:
    class One(UP.Task):
        def task(self, *, actor: Any) -> TASK_GEN:
            yield UP.Wait(at)

    class Last(UP.TerminalTask):
        def log_message(self, *, actor: Any) -> str:
            w.bang(t)
            return "end"

    links = {"One": UP.TaskLinks(default="Last", allowed=["Last"]), "Last": UP.TaskLinks(default=None, allowed=[])}
    a.add_task_network(UP.TaskNetworkFactory("bad", {"One": One, "Last": Last}, links).make_network())
    a.start_network_loop("bad", "One")


class Patient(UP.Task):
    w: World
    t: Any
    what = "on"
    event: Any = None

    def task(self, *, actor: Any) -> TASK_GEN:
        yield self.event() if self.event else UP.Any(UP.Wait(500.0), UP.Get(actor.box))

    def on_interrupt(self, *, actor: Any, cause: Any) -> Any:
        if self.what == "on":
            self.w.bang(self.t)
        return self.INTERRUPT.END


def patient(w: World, t: Any, **kw: Any) -> Any:
    return type("Patient", (Patient,), {"w": w, "t": t, **kw})


@kind
def interrupt(w: World, at: float, a: Any, t: Any) -> None:
    p = patient(w, t)().run(actor=a)
    after(w, at, lambda: p.interrupt(cause="why"))


@kind
def network_interrupt(w: World, at: float, a: Any, t: Any) -> None:
    a.add_task_network(UP.TaskNetworkFactory.from_single_looping("bad", patient(w, t)).make_network())
    a.start_network_loop("bad", "Patient")
    after(w, at, a.interrupt_network, "bad", cause="why")


@kind
def nucleus(w: World, at: float, a: Any, t: Any) -> None:
    a.add_task_network(UP.TaskNetworkFactory.from_single_looping("bad", patient(w, t)).make_network())
    nuc = UP.TaskNetworkNucleus(actor=a)
    nuc.add_network("bad", ["n"])
    a.start_network_loop("bad", "Patient")

    def change() -> None:
        a.n += 1
        w.log("changed", a.n)

    after(w, at, change)


class Sub(UP.Routine):
    def __init__(self, w: World, t: Any, when: str):
        super().__init__()
        self.w, self.t, self.when = w, t, when

    def run(self) -> Any:
        yield UP.Wait(0.125 if self.when == "run" else 500.0)
        if self.when == "run":
            self.w.bang(self.t)

    def cancel(self) -> Any:
        if self.when == "cancel":
            self.w.bang(self.t)
        yield UP.Wait(0.125)


@kind
def routine(w: World, at: float, a: Any, t: Any) -> None:
    def body(task: Any, actor: Any) -> TASK_GEN:
        yield Sub(w, t, "run")

    tasked(w, at, a, body)().run(actor=a)


@kind
def routine_cancel(w: World, at: float, a: Any, t: Any) -> None:
    p = patient(w, t, what="end", event=lambda self: Sub(w, t, "cancel"))().run(actor=a)
    after(w, at, lambda: p.interrupt(cause="why"))


def recorder(w: World, t: Any, state: str = "n") -> Any:
    """An actor one of whose states is recorded by a function that fails at the second value."""
    calls = []

    def rec(time: float, value: Any) -> Any:
        calls.append(value)
        return w.bang(t) if len(calls) == 2 else 0

    states = {"n": UP.State(default=0, recording=True, recording_functions=[(rec, "rec")])} if state == "n" else {
        "fuel": UP.LinearChangingState(default=0.0, recording=True, recording_functions=[(rec, "rec")])}
    return type("Recorder", (UP.Actor,), states)(name=f"recorder {t}")


@kind
def recording(w: World, at: float, a: Any, t: Any) -> None:
    r = recorder(w, t)
    after(w, at, setattr, r, "n", 2)


@kind
def recording_in_task(w: World, at: float, a: Any, t: Any) -> None:
    r = recorder(w, t)

    def body(task: Any, actor: Any) -> TASK_GEN:
        r.n = 3
        yield UP.Wait(0.125)

    tasked(w, at, a, body)().run(actor=a)


@kind
def recording_linear(w: World, at: float, a: Any, t: Any) -> None:
    r = recorder(w, t, "fuel")

    class Work(UP.Task):
        def task(self, *, actor: Any) -> TASK_GEN:
            yield UP.Wait(at)
            actor.activate_linear_state(state="fuel", rate=1.0, task=self)
            yield UP.Wait(0.125)
            actor.deactivate_all_states(task=self)

    Work().run(actor=r)


@kind
def handled(w: World, at: float, a: Any, t: Any) -> None:
    r = recorder(w, t)

    def body(task: Any, actor: Any) -> TASK_GEN:
        try:
            r.n = 3
        except Boom as e:
            w.handled.append((w.env.now, e))
        w.log("after", t)
        yield UP.Wait(0.125)
        w.log("on", t)

    tasked(w, at, a, body)().run(actor=a)


@kind
def filters(w: World, at: float, a: Any, t: Any) -> None:
    store = SIM.FilterStore(w.env)

    def body(task: Any, actor: Any) -> TASK_GEN:
        yield UP.FilterGet(store, lambda x: w.bang(t) or True)

    if sum(map(ord, str(t))) % 2:
        store.put(1)
        tasked(w, at, a, body)().run(actor=a)
    else:
        tasked(w, 0.0, a, body)().run(actor=a)
        after(w, at, store.put, 1)


@kind
def sorter(w: World, at: float, a: Any, t: Any) -> None:
    store = UP.SortedFilterStore(w.env)
    store.put(1)

    def body(task: Any, actor: Any) -> TASK_GEN:
        yield UP.SortedFilterGet(store, lambda x: True, lambda x: w.bang(t) or 0)

    tasked(w, at, a, body)().run(actor=a)


@kind
def flow(w: World, at: float, a: Any, t: Any) -> None:
    tank = UP.ContinuousContainer(w.env, 100.0, init=1.0, error_empty=False, error_full=False)
    # it runs empty before the time is over
    tank.get(1.0 / at, 500.0, custom_callbacks=[lambda: w.bang(t)])


@kind
def notified(w: World, at: float, a: Any, t: Any) -> None:
    """Another sensor of the same mover is told all the same."""
    mm = UP.UpstageBase().stage.motion_manager
    if not isinstance(mm, UP.SensorMotionManager):
        raise Discard()
    y = 4096.0 + 64.0 * t

    class Eye:
        def __init__(self, bad: str, radius: float):
            self.at, self.radius, self.bad = UP.CartesianLocation(at, y), radius, bad

        def entity_entered_range(self, e: Any) -> None:
            if self.bad == "in":
                w.bang(t)
            elif not self.bad:
                w.log("in", e.name)

        def entity_exited_range(self, e: Any) -> None:
            if self.bad == "out":
                w.bang(t)
            elif not self.bad:
                w.log("out", e.name)

    order = [("in" if t % 2 else "out", 0.5), ("", 0.75), ("", 0.375)]
    for bad, r in order[t % 3:] + order[: t % 3]:
        mm.add_sensor(Eye(bad, r), location_attr_name="at", radius_attr_name="radius")
    inside = int(at * 1000) % 2
    a.location = UP.CartesianLocation(at if inside else 0.0, y)

    class Go(UP.Task):
        def task(self, *, actor: Any) -> TASK_GEN:
            if inside:
                yield UP.Wait(at)
            for x in (at + 2.0, 0.0):
                actor.activate_location_state(state="location", speed=1.0, waypoints=[UP.CartesianLocation(x, y)], task=self)
                yield UP.Wait(2.0 if inside and x else at + 2.0)
                actor.deactivate_all_states(task=self)

    Go().run(actor=a)


@kind
def hidden(w: World, at: float, a: Any, t: Any) -> None:
    """All sensors are told of a mover that hides at once, whichever of them fails."""
    mm = UP.UpstageBase().stage.motion_manager
    if not isinstance(mm, UP.SensorMotionManager):
        raise Discard()
    y = 4096.0 + 64.0 * t

    class Eye:
        def __init__(self, name: int, bad: bool):
            self.at, self.radius, self.name, self.bad = UP.CartesianLocation(0.0, y), 40.0 + name, name, bad

        def entity_entered_range(self, e: Any) -> None:
            w.log("in", e.name, self.name)

        def entity_exited_range(self, e: Any) -> None:
            if self.bad:
                w.bang(t)
            else:
                w.log("out", e.name, self.name)

    for k in range(3):
        mm.add_sensor(Eye(k, k == int(at * 1000) % 3), location_attr_name="at", radius_attr_name="radius")
    a.location = UP.CartesianLocation(0.0, y)

    class Go(UP.Task):
        def task(self, *, actor: Any) -> TASK_GEN:
            actor.activate_location_state(state="location", speed=1.0, waypoints=[UP.CartesianLocation(15.0, y)], task=self)
            yield UP.Wait(at)
            try:
                actor.detectable = False
            except Boom as e:
                w.handled.append((w.env.now, e))
            yield UP.Wait(0.75)
            actor.deactivate_all_states(task=self)
            actor.detectable = True
            yield UP.Wait(0.125)
            # it is seen again
            actor.activate_location_state(state="location", speed=1.0, waypoints=[UP.CartesianLocation(30.0, y)], task=self)
            yield UP.Wait(20.0)

    Go().run(actor=a)


class Node(UP.Actor):
    inbox = UP.CommunicationStore(modes="cup")


def sent(w: World, at: float, mgr: Any, nodes: Any, bad: Any) -> None:
    """Messages before, with and after the bad one."""
    mgr.run()

    def send(wait: float, content: Any, dest: Any) -> Any:
        yield w.env.timeout(wait)
        yield mgr.make_put(content, nodes[0], nodes[dest]).as_event()

    for n, (dt, dest) in enumerate([(-0.3, 1), (-0.0625, 2), (0.01, 1), (0.3, 2)]):
        w.env.process(send(at + dt, {"n": n, "bad": 0}, dest))
    w.env.process(send(at, {"n": 9, "bad": 1}, bad))


def told(w: World, node: Any) -> None:
    def listen() -> Any:
        while True:
            m = yield node.inbox.get()
            w.log("got", node.name, m.content.data["n"])

    w.env.process(listen())


@kind
def hop(w: World, at: float, a: Any, t: Any) -> None:
    class Router(RoutingCommsManagerBase):
        def select_hop(self, source: Any, dest: Any, ignore_nodes: Any = None) -> Any:
            if dest is nodes[3]:
                w.bang(t)
                return None
            return dest

    nodes = [Node(name=f"node{t}-{n}") for n in range(4)]
    for n in nodes[1:]:
        told(w, n)
    sent(w, at, Router(name=f"net{t}", mode="cup", send_time=0.125), nodes, 3)


@kind
def received(w: World, at: float, a: Any, t: Any) -> None:
    nodes = [Node(name=f"node{t}-{n}") for n in range(4)]
    mgr = UP.PointToPointCommsManager(name=f"net{t}", mode="cup", send_time=0.125 if t % 2 else 0.0)
    for n in nodes:
        mgr.connect(n, "inbox")
    told(w, nodes[1])
    generate_comms_wait(nodes[3].inbox, lambda m: w.bang(t))()
    generate_comms_wait(nodes[2].inbox, lambda m: w.log("called", m.data["n"]))()
    sent(w, at, mgr, nodes, 3)


@kind
def processes(w: World, at: float, a: Any, t: Any) -> None:
    @process
    def go(wait: float) -> Any:
        yield w.env.timeout(wait)
        w.bang(t)

    if t % 2:
        go(at)
    else:
        def body(task: Any, actor: Any) -> TASK_GEN:
            yield go(0.125)

        tasked(w, at, a, body)().run(actor=a)


def plan(w: World, t: Any) -> Any:
    class Plan(UP.Task):
        def task(self, *, actor: Any) -> TASK_GEN:
            actor.activate_linear_state(state="fuel", rate=1.0, task=self)
            yield UP.Wait(0.5)
            if not self.calm:
                w.bang(t)
            w.log("done", self.env.now, actor.fuel) if self.calm else None
            actor.deactivate_all_states(task=self)

        calm = False

    return Plan


@kind
def rehearsal(w: World, at: float, a: Any, t: Any) -> None:
    def go() -> None:
        plan(w, t)().rehearse(actor=a)

    after(w, at, go)


@kind
def rehearsed_network(w: World, at: float, a: Any, t: Any) -> None:
    a.add_task_network(UP.TaskNetworkFactory.from_single_looping("plan", plan(w, t)).make_network())
    after(w, at, a.rehearse_network, "plan", ["Plan"])


@kind
def handled_rehearsal(w: World, at: float, a: Any, t: Any) -> None:
    def body(task: Any, actor: Any) -> TASK_GEN:
        p = plan(w, t)()
        try:
            p.rehearse(actor=actor)
        except Boom as e:
            w.handled.append((w.env.now, e))
        yield UP.Wait(0.125)
        # the real thing goes well
        p.calm = True
        p.run(actor=actor)
        yield UP.Wait(0.75)
        w.log("fuel", actor.fuel, actor.name)

    tasked(w, at, a, body)().run(actor=a)


class Tick(UP.Task):
    w: World
    every: float

    def task(self, *, actor: Any) -> TASK_GEN:
        yield UP.Wait(self.every)
        actor.seen += 1
        self.w.log("tick", actor.name, actor.seen)


def gen(rng: random.Random) -> Any:
    part = det.gen(rng)
    names = list(KINDS) + ["notified"] * 2
    return {"part": part, "faults": [[rng.choice(names), round(rng.uniform(0.5, 11.0), 4) + 1e-5 * k, rng.choice([0.7, 1.1, 2.3]) + k / 100] for k in range(rng.choice([1, 1, 2, 3, 5]))],
            "late": rng.random() < 0.5}


def play(spec: Any, live: bool) -> Any:
    out: list[Any] = []
    caught: list[Any] = []
    with warnings.catch_warnings(), UP.EnvironmentContext(random_seed=1) as env:
        warnings.simplefilter("ignore")
        stage_units()
        mm = det.motion_manager(spec["part"])
        w = World(env, live, int(spec["faults"][0][1] * 1000))
        # before or after the model that has nothing to do with it
        part = None if spec["late"] else det.Part(spec["part"], env, mm, out, "", 0.0)
        for k, (what, at, every) in enumerate(spec["faults"]):
            host = Host(name=f"host{k}", location=UP.CartesianLocation(0.0, 2048.0 + k))
            tick = type("Tick", (Tick,), {"w": w, "every": every})
            host.add_task_network(UP.TaskNetworkFactory.from_single_looping("tick", tick).make_network())
            host.start_network_loop("tick", "Tick")
            KINDS[what](w, at, host, k)
        part = part or det.Part(spec["part"], env, mm, out, "", 0.0)
        error = None
        while True:
            try:
                env.run(until=14.0)
                break
            except Exception as e:
                chain: Any = e
                while chain is not None and not any(chain is r for _, r in w.raised):
                    chain = chain.__cause__
                if chain is None or type(chain) is not type(e):
                    error = repr(e)
                    break
                caught.append((env.now, chain))
        base = UP.UpstageBase()
        det.seen(part, out, base)
        end = env.now
    out = [e for e in json.loads(json.dumps(out, default=repr)) if e[0] != "group"]
    if spec["part"]["stepped"]:
        out = [e for e in out if e[1] in ("in", "out")] + [e for e in out if e[1] not in ("in", "out")]
    return w, caught, out, error, end


def run(spec: Any, mon: Mon) -> None:
    dud, none, want, error, _ = play(spec, False)
    if error:
        raise Discard()
    live, caught, got, error, end = play(spec, True)
    kinds = [f[0] for f in spec["faults"]]
    mon.check(error is None, "other", lambda: f"{kinds}: {error}, which the user's code did not raise")
    mon.eq(end, 14.0, "end", "the end of the run")
    mon.check(len(live.raised) >= len(kinds), "called", lambda: f"{kinds}: only {live.raised} were called")
    # each is seen once, when it was raised
    seen = sorted(((t, id(e)) for t, e in [*caught, *live.handled]))
    mon.check(seen == sorted((t, id(e)) for t, e in live.raised), "lost",
              lambda: f"{kinds}: raised {live.raised}; surfaced {caught}, handled {live.handled}")
    for a, b, what in ((dud.seen, live.seen, "the same actors' other work"), (want, got, "the other model")):
        for n in range(max(len(a), len(b))):
            x = a[n] if n < len(a) else None
            y = b[n] if n < len(b) else None
            mon.check(x == y, "hurt", lambda: f"{kinds}: {what}: entry {n} {x!r} without, {y!r} with the error")
    for k in kinds:
        mon.hit("kind:" + k)
    for _, r in live.raised:
        mon.hit("class:" + type(r).__name__)
    mon.hit("raised", len(live.raised))
    mon.hit("handled", len(live.handled))
    mon.hit("entries", len(want) + len(dud.seen))
    mon.see(spec["faults"], want)
    mon.nontrivial = True
    mon.sample = {"kinds": kinds, "entries": len(want), "seen": dud.seen[:4]}


REQUIRED = {"raised": 2000, "handled": 100, "entries": 20000, **{"kind:" + k: 30 for k in KINDS}, **{"class:" + k.__name__: 30 for k in BOOMS}}
SCENARIOS = [Scenario("faults", gen, run, quick=2400, thorough=20000)]
