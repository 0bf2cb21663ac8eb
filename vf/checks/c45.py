"""C45: what has ended leaves nothing behind."""

import collections
import dataclasses
import gc
import random
import sys
import warnings
import weakref
from collections.abc import Callable
from typing import Any

import simpy as SIM
import upstage_des.api as UP
from upstage_des.geography import Spherical, get_intersection_locations
from upstage_des.motion.cartesian_model import cartesian_linear_intersection

from ..core import Mon, Scenario
from ..util import TASK_GEN

PROPERTY = {
    "title": "What has ended leaves nothing behind",
    "statement": (
        "A simulation that does the same work over and over, and records nothing of it, holds no more memory "
        "the longer it runs: events that were granted, lost or cancelled, tasks and networks that ended, "
        "restarted or were interrupted, activations and mimics, knowledge and its events, rehearsals and clones, "
        "flows and reservations, resources held or given up, messages that arrived or were dropped, and motions that sensors saw "
        "or that hid from them, are all forgotten when they are over. And when a simulation's context is left and its "
        "objects are let go of, none of its actors and stores is kept alive."
    ),
    "quantifier": {"over": ["histories", "schedules"], "text": "every kind and combination of work, every number of repetitions"},
    "why_tests_cant": "Tests run for a few events; a leak of a few bytes per event shows only over many repetitions.",
    "anchors": {
        "files": ["src/upstage_des/actor.py", "src/upstage_des/events.py", "src/upstage_des/task.py", "src/upstage_des/task_network.py",
                  "src/upstage_des/nucleus.py", "src/upstage_des/states.py", "src/upstage_des/state_sharing.py", "src/upstage_des/base.py",
                  "src/upstage_des/resources/container.py", "src/upstage_des/resources/reserve.py", "src/upstage_des/resources/sorted.py",
                  "src/upstage_des/communications/comms.py", "src/upstage_des/communications/routing.py",
                  "src/upstage_des/motion/motion.py", "src/upstage_des/motion/stepped_motion.py"],
        "mechanism": [{"name": "whatever registers work: queues, active states, knowledge, callbacks, views, clones",
                       "where": "src/upstage_des"}],
        "observe_at": ["allocated blocks of the interpreter at the same point of many cycles", "weak references after a context is left"],
    },
    "technique": "leak sanitizer: allocated memory blocks at the same point of hundreds of equal cycles must not grow",
}
RULE = (
    "A case is one to six kinds of work on some actors, repeated some 300 times; the number of memory blocks that the interpreter "
    "holds is read, after a garbage collection, at the same point of several of the cycles. Non-trivial: every kind was done in each cycle; "
    "distinct by the kinds, their order and their numbers."
)
WARM, CYCLES, ROUNDS, MORE = 80, 40, 4, 10
ASSUMPTIONS = ["Growth of less than one block in two cycles is taken for noise of the interpreter's own tables.",
               "Memory is that of the interpreter's allocator (sys.getallocatedblocks), objects of up to 512 bytes."]


@dataclasses.dataclass
class Kit:
    a: int = 0
    b: float = 0.0


class Unit(UP.Actor, entity_groups="units"):
    n = UP.State(default=0)
    items = UP.State(default_factory=list)
    fuel = UP.LinearChangingState(default=0.0)
    heat = UP.LinearChangingState(default=0.0)
    load = UP.SharedLinearChangingState(default=0.0)
    shown = UP.State(default=0.0)
    place = UP.CartesianLocationChangingState()
    d: UP.DictionaryState = UP.DictionaryState(valid_types=int)
    kit: UP.DataclassState = UP.DataclassState(valid_types=Kit)
    seen = UP.DetectabilityState(default=True)
    box = UP.ResourceState(default=SIM.Store)
    bins = UP.MultiStoreState(default=SIM.Store, default_kwargs={"capacity": 4})
    inbox = UP.CommunicationStore(modes=["cup", "tin"])


class Plane(UP.Actor):
    place = UP.GeodeticLocationChangingState()
    seen = UP.DetectabilityState(default=True)


OPS: dict[str, Callable[..., Any]] = {}


def op(f: Any) -> Any:
    OPS[f.__name__] = f
    return f


@op
def waits(w: Any, t: Any, a: Any, k: int) -> Any:
    yield UP.Wait(0.5)
    yield UP.Wait.from_random_uniform(0.1, 0.2)
    yield UP.Any(UP.Wait(0.25), UP.Wait(1.0))
    yield UP.All(UP.Wait(0.25), UP.Wait(0.5))


@op
def putget(w: Any, t: Any, a: Any, k: int) -> Any:
    yield UP.Put(a.box, k)
    g = UP.Get(a.box)
    yield g
    w.mon.eq(g.get_value(), k, "got")


@op
def loses(w: Any, t: Any, a: Any, k: int) -> Any:
    g = UP.Get(a.box)
    f = UP.FilterGet(w.fstore, lambda x: x == k)
    yield UP.Any(g, f, UP.Wait(0.25))
    g.cancel()
    if k % 2:
        f.cancel()
    else:
        yield UP.Put(w.fstore, k)
        yield UP.Any(f, UP.Wait(3.0))


@op
def drops(w: Any, t: Any, a: Any, k: int) -> Any:
    """What loses in an Any, and what is put when there is no room."""
    for n in range(4):
        yield UP.Put(a.bins["one"], n)
    p = UP.Put(a.bins["one"], 9)
    yield UP.Any(p, UP.Wait(0.25))
    p.cancel()
    for n in range(4):
        yield UP.Get(a.bins["one"])


@op
def events(w: Any, t: Any, a: Any, k: int) -> Any:
    e, f = UP.Event(), UP.Event(rehearsal_time_to_complete=1.0)

    def later() -> Any:
        yield a.env.timeout(0.125)
        e.succeed(data=k)

    a.env.process(later())
    yield UP.Any(e, f)
    e.get_payload()
    if k % 2:
        e.reset()
        f.cancel()


@op
def nested(w: Any, t: Any, a: Any, k: int) -> Any:
    yield UP.Any(UP.All(UP.Wait(0.25), UP.Event()), UP.Any(UP.Wait(0.5), UP.Event()))


@op
def sorts(w: Any, t: Any, a: Any, k: int) -> Any:
    for n in (3, 1, 2):
        yield UP.Put(w.sstore, n)
    for n in range(3):
        yield UP.Get(w.sstore, lambda x: True, lambda x: x, k % 2 == 0)
    g = UP.Get(w.sstore, lambda x: x > 9)
    yield UP.Any(g, UP.Wait(0.25))
    g.cancel()


@op
def window(w: Any, t: Any, a: Any, k: int) -> Any:
    yield UP.Put(w.sstore, 5)
    yield UP.Put(w.sstore, 4)
    yield UP.WindowedGet(w.sstore, 0.25)


class Sub(UP.Routine):
    def __init__(self, get: Any):
        super().__init__()
        self.get = get

    def run(self) -> Any:
        yield UP.Wait(0.25)
        yield UP.Any(UP.Wait(0.25), self.get)

    def cancel(self) -> Any:
        yield from ()


@op
def routine(w: Any, t: Any, a: Any, k: int) -> Any:
    g = UP.Get(a.box)
    yield Sub(g)
    g.cancel()


@op
def holds(w: Any, t: Any, a: Any, k: int) -> Any:
    h = UP.ResourceHold(w.res)
    yield h
    other = UP.ResourceHold(w.res)
    yield UP.Any(other, UP.Wait(0.25))
    other.cancel()
    yield h


@op
def amounts(w: Any, t: Any, a: Any, k: int) -> Any:
    yield UP.Put(w.cont, 2.0)
    g = UP.Get(w.cont, 9.0)
    yield UP.Any(g, UP.Wait(0.25))
    g.cancel()
    yield UP.Get(w.cont, 2.0)


@op
def flows(w: Any, t: Any, a: Any, k: int) -> Any:
    w.tank.put(1.0, 2.0, custom_callbacks=[lambda: None])
    yield UP.Wait(0.5)
    g = w.tank.get(2.0, 0.75)
    yield UP.Wait(0.25)
    w.tank.get(0.25, 2.0)
    yield UP.Wait(3.0)


@op
def reserves(w: Any, t: Any, a: Any, k: int) -> Any:
    pool = w.pool
    pool.reserve(a, 2.0)
    pool.put(pool.take(a))
    x, y, z = w.name("x"), w.name("y"), w.name("z")
    pool.reserve(x, 1.0, 0.25)
    pool.reserve(y, 1.0, 3.0)
    pool.reserve(z, 90.0)
    pool.cancel_request(y)
    yield UP.Wait(0.5)
    pool.cancel_request(x)


@op
def facts(w: Any, t: Any, a: Any, k: int) -> Any:
    f, g, h = w.name("f"), w.name("g"), w.name("h")
    a.set_knowledge(f, [k])
    t.set_actor_knowledge(a, g, k)
    a.set_bulk_knowledge({h: 1, "i": 2})
    a.get_knowledge(w.name("none"))
    yield UP.Wait(0.125)
    a.get_and_clear_knowledge(f)
    t.clear_actor_knowledge(a, g)
    a.clear_bulk_knowledge([h, "i"])


@op
def fact_events(w: Any, t: Any, a: Any, k: int) -> Any:
    ready, never = w.name("ready"), w.name("never")
    e = a.create_knowledge_event(name=ready)

    def later() -> Any:
        yield a.env.timeout(0.125)
        a.succeed_knowledge_event(name=ready, with_what=k)

    a.env.process(later())
    yield e
    e = a.create_knowledge_event(name=never)
    yield UP.Any(e, UP.Wait(0.125))
    e.cancel()
    a.clear_knowledge(never)


@op
def linear(w: Any, t: Any, a: Any, k: int) -> Any:
    a.activate_linear_state(state="fuel", rate=1.0, task=t)
    a.activate_state(state="heat", rate=-1.0, task=t)
    yield UP.Wait(0.25)
    if k % 3 == 0:
        a.fuel = 3.0
    yield UP.Wait(0.25)
    a.deactivate_state(state="fuel", task=t)
    a.deactivate_all_states(task=t)


class More(UP.Task):
    def task(self, *, actor: Unit) -> TASK_GEN:
        actor.activate_linear_state(state="load", rate=-1.0, task=self)
        yield UP.Wait(0.25)
        actor.deactivate_all_states(task=self)


@op
def shared(w: Any, t: Any, a: Any, k: int) -> Any:
    a.activate_linear_state(state="load", rate=1.0, task=t)

    More().run(actor=a)
    yield UP.Wait(0.5)
    a.deactivate_all_states(task=t)
    a.load = 0.0


@op
def mimics(w: Any, t: Any, a: Any, k: int) -> Any:
    a.activate_mimic_state(self_state="shown", mimic_state="fuel", mimic_actor=w.mate, task=t)
    w.mate.activate_linear_state(state="fuel", rate=1.0, task=t)
    yield UP.Wait(0.25)
    a.shown
    w.mate.deactivate_all_states(task=t)
    if k % 2:
        a.deactivate_mimic_state(self_state="shown", task=t)
    else:
        a.deactivate_all_mimic_states(task=t)


@op
def keys(w: Any, t: Any, a: Any, k: int) -> Any:
    a.d["x"] = k
    a.d["y"] = 1
    a.kit.a = k
    for key in list(a.d):
        a.d[key]
    yield UP.Wait(0.125)
    a.kit.b = 0.5


@op
def moves(w: Any, t: Any, a: Any, k: int) -> Any:
    # by a sensor, with stops, and hidden at times
    for x, part in ((8.0, 0.5), (8.0, 1.0), (0.0, 1.0)):
        if k % 4 == 1 and part == 0.5:
            a.seen = False
        way = [UP.CartesianLocation(x, 1.0), UP.CartesianLocation(x, 0.0)]
        time = ((a.place - way[0]) + (way[0] - way[1])) / 4.0
        a.activate_location_state(state="place", speed=4.0, waypoints=way, task=t)
        yield UP.Wait(time * part)
        if k % 4 == 2 and part == 0.5:
            a.seen = False
        a.deactivate_all_states(task=t)
    a.seen = True


class Plan(UP.Task):
    def task(self, *, actor: Unit, w: Any, k: int) -> TASK_GEN:
        actor.activate_linear_state(state="fuel", rate=1.0, task=self)
        yield UP.Any(UP.Wait(0.5), UP.Get(actor.box))
        h = UP.ResourceHold(w.res)
        yield h
        yield h
        yield UP.Put(actor.box, 1)
        actor.create_knowledge_event(name="plan", rehearsal_time_to_complete=1.0)
        actor.deactivate_all_states(task=self)
        if k % 3 == 0:
            raise ValueError("a failure")


@op
def rehearses(w: Any, t: Any, a: Any, k: int) -> Any:
    try:
        Plan().rehearse(actor=a, knowledge={"p": 1}, w=w, k=k)
    except ValueError:
        pass
    yield UP.Wait(0.125)


@op
def clones(w: Any, t: Any, a: Any, k: int) -> Any:
    c = a.clone(knowledge={"x": 1})
    c.n = 5
    c.clone()
    yield UP.Wait(0.125)


class Often(UP.Task):
    tries = 0

    w: Any
    k: int

    def task(self, *, actor: Unit) -> TASK_GEN:
        w, k = self.w, self.k
        actor.activate_linear_state(state="fuel", rate=1.0, task=self)
        h = UP.ResourceHold(w.res)
        yield UP.Any(UP.Get(actor.box), UP.Put(w.full, 1), UP.Get(w.cont, 9.0), UP.Event(), h) if k % 3 else UP.Get(actor.box)

    def on_interrupt(self, *, actor: Unit, cause: Any) -> UP.InterruptStates:
        if cause == "ignore":
            return self.INTERRUPT.IGNORE
        actor.deactivate_all_states(task=self)
        self.tries += 1
        return self.INTERRUPT.RESTART if self.tries < 3 else self.INTERRUPT.END


@op
def interrupts(w: Any, t: Any, a: Any, k: int) -> Any:
    hold = UP.ResourceHold(w.res)
    yield hold
    task = Often()
    task.w, task.k = w, k
    p = task.run(actor=a)
    while p.is_alive:
        yield UP.Wait(0.0625)
        if p.is_alive:
            p.interrupt(cause="ignore" if k % 5 == 0 and a.n == 0 else "go")
            a.n += 1
        yield UP.Wait(0.0625)
    a.n = 0
    yield hold


class Once(UP.Task):
    w: Any
    k: int

    def task(self, *, actor: Unit) -> TASK_GEN:
        w, k = self.w, self.k
        actor.activate_linear_state(state="fuel", rate=1.0, task=self)
        yield [UP.Get(actor.box), UP.WindowedGet(w.sstore, 9.0, get_args=(lambda x: False,)), UP.Event()][k % 3]

    def on_interrupt(self, *, actor: Unit, cause: Any) -> UP.InterruptStates:
        actor.deactivate_all_states(task=self)
        return self.INTERRUPT.END


@op
def stops(w: Any, t: Any, a: Any, k: int) -> Any:
    task = Once()
    task.w, task.k = w, k
    p = task.run(actor=a)
    yield UP.Wait(0.125)
    p.interrupt(cause=k)
    yield UP.Wait(0.125)


class Step(UP.Task):
    def task(self, *, actor: Unit) -> TASK_GEN:
        yield UP.Wait(0.125)


class Choose(UP.DecisionTask):
    def make_decision(self, *, actor: Unit) -> None:
        actor.set_task_queue("net", ["Step", "Last"])

    def rehearse_decision(self, *, actor: Unit) -> None:
        pass


class Last(UP.TerminalTask):
    def log_message(self, *, actor: Unit) -> str:
        return "the end"

    def on_interrupt(self, *, actor: Unit, cause: Any) -> Any:
        actor.set_task_queue("net", ["Step"])
        return self.INTERRUPT.END


class Listen(UP.Task):
    def task(self, *, actor: Unit) -> TASK_GEN:
        actor.activate_linear_state(state="heat", rate=1.0, task=self)
        yield UP.Event()

    def on_interrupt(self, *, actor: Unit, cause: Any) -> UP.InterruptStates:
        actor.deactivate_all_states(task=self)
        return self.INTERRUPT.RESTART


@op
def networks(w: Any, t: Any, a: Any, k: int) -> Any:
    links = {"Choose": UP.TaskLinks(default=None, allowed=["Step"]), "Step": UP.TaskLinks(default="Last", allowed=["Last"]),
             "Last": UP.TaskLinks(default=None, allowed=[])}
    fac = UP.TaskNetworkFactory("net", {"Choose": Choose, "Step": Step, "Last": Last}, links)
    a.add_task_network(fac.make_network())
    a.start_network_loop("net", "Choose")
    yield UP.Wait(0.5)
    a.interrupt_network("net", cause="enough")
    yield UP.Wait(0.125)
    a.delete_task_network("net")
    a.add_task_network(fac.make_network())
    a.rehearse_network("net", ["Choose", "Step"])
    a.delete_task_network("net")


@op
def watched(w: Any, t: Any, a: Any, k: int) -> Any:
    b = w.mate
    b.n = k
    yield UP.Wait(0.125)
    w.nucleus.remove_network("watch")
    w.nucleus.add_network("watch", ["n", "items"])
    b.items = []
    yield UP.Wait(0.125)


@op
def messages(w: Any, t: Any, a: Any, k: int) -> Any:
    m = w.comms.make_put({"text": k}, a, w.mate)
    yield m
    yield UP.Get(w.mate.inbox)
    w.comms.blocked_nodes.append(w.mate)
    yield w.comms.make_put("lost", a, w.mate)
    yield UP.Wait(0.75)
    w.comms.blocked_nodes.remove(w.mate)
    yield UP.Wait(0.5)


@op
def routed(w: Any, t: Any, a: Any, k: int) -> Any:
    yield w.routes.make_put({"text": k}, a, w.far)
    yield UP.Wait(0.75)
    yield UP.Get(w.far.inbox)
    w.routes.blocked_links.append((w.mid, w.far))
    yield w.routes.make_put({"text": k}, a, w.far)
    yield UP.Wait(2.0)
    w.routes.blocked_links.remove((w.mid, w.far))
    yield UP.Wait(0.25)


@op
def flies(w: Any, t: Any, a: Any, k: int) -> Any:
    p = w.plane
    for lat, part in ((1.0, 0.5), (1.0, 1.0), (0.0, 1.0)):
        to = UP.GeodeticLocation(lat, 0.0)
        time = (p.place - to) / 60.0
        p.activate_location_state(state="place", speed=60.0, waypoints=[to], task=t)
        yield UP.Wait(time * part)
        p.deactivate_all_states(task=t)


class Eye:
    def __init__(self, at: Any, radius: float, hides: bool):
        self.at, self.radius, self.hides, self.told = at, radius, hides, 0

    def entity_entered_range(self, e: Any) -> None:
        self.told = (self.told + 1) % 100
        if self.hides:
            e.seen = False

    def entity_exited_range(self, e: Any) -> None:
        pass


def gen(rng: random.Random) -> Any:
    kinds = [[rng.choice(list(OPS)), rng.randrange(12)] for _ in range(rng.choice([1, 1, 2, 3, 6]))]
    motion, globe = rng.choice([None, "sensor", "stepped"]), rng.random() < 0.5
    if rng.random() < 0.2:
        kinds.insert(rng.randrange(len(kinds)), ["moves", rng.randrange(12)])
    if motion:
        # a manager of motions knows one kind of place only
        names = ["moves", "flies"] if globe else ["flies", "moves"]
        kinds = [[names[1] if kind == names[0] else kind, k] for kind, k in kinds]
    return {"kinds": kinds, "workers": rng.choice([1, 1, 2]), "motion": motion, "hides": rng.random() < 0.3, "globe": globe, "alternate": rng.random() < 0.5, "debug": False}


class World:
    def __init__(self, spec: Any, env: Any, mon: Mon):
        self.mon, self.env, self.serial = mon, env, 0
        self.fstore, self.sstore = SIM.FilterStore(env), UP.SortedFilterStore(env)
        self.full = SIM.Store(env, capacity=1)
        self.full.put(0)
        self.res, self.cont = SIM.Resource(env, capacity=1), SIM.Container(env, capacity=10.0, init=1.0)
        self.tank = UP.ContinuousContainer(env, 100.0, init=50.0)
        self.pool = UP.ReserveContainer(env, init=8.0, capacity=10.0)
        if spec["motion"]:
            if spec["motion"] == "sensor":
                inter = UP.SensorMotionManager(cartesian_linear_intersection if not spec["globe"] else subdivide)
            else:
                inter = UP.SteppedMotionManager(0.3, max_empty_events=10**9)
            UP.add_stage_variable("motion_manager", inter)
            at = UP.GeodeticLocation(0.5, 0.0) if spec["globe"] else UP.CartesianLocation(5.0, 0.0)
            for n in range(2):
                inter.add_sensor(Eye(at, (10.0 if spec["globe"] else 2.0) + n, spec["hides"] and n == 0), location_attr_name="at", radius_attr_name="radius")
        self.actors = [self.unit(f"a{n}") for n in range(spec["workers"])]
        self.mate, self.mid, self.far = (self.unit(n) for n in ("mate", "mid", "far"))
        self.plane = Plane(name="plane", debug_log=False, place=UP.GeodeticLocation(0.0, 0.0))
        self.mate.add_task_network(UP.TaskNetworkFactory.from_single_looping("watch", Listen).make_network())
        self.nucleus = UP.TaskNetworkNucleus(actor=self.mate)
        self.nucleus.add_network("watch", ["n", "items"])
        self.mate.start_network_loop("watch", "Listen")
        self.comms = UP.PointToPointCommsManager(name="cup", mode="cup", send_time=0.125, retry_max_time=0.5, retry_rate=0.125)
        self.comms.run()
        self.routes = UP.RoutingTableCommsManager(name="tin", mode="tin", send_time=0.125, retry_max_time=0.5, retry_rate=0.125)
        for a in self.actors:
            self.routes.connect_nodes(a, self.mid, two_way=True)
        self.routes.connect_nodes(self.mid, self.far, two_way=True)
        self.routes.run()

    def name(self, stem: str) -> str:
        self.serial += 1
        return f"{stem}{self.serial}"

    def unit(self, name: str) -> Unit:
        return Unit(name=name, place=UP.CartesianLocation(0.0, 0.0), bins={"one": {}}, d={}, kit=Kit(), inbox=SIM.Store(self.env), debug_log=False)


def subdivide(*a: Any) -> Any:
    from upstage_des.motion.geodetic_model import subdivide_intersection

    return subdivide_intersection(*a)


def held() -> list[Any]:
    return [o for o in gc.get_objects() if isinstance(o, (list, dict, set, collections.deque))]


def play(spec: Any, mon: Mon, old: list[Any]) -> list[Any]:
    refs: list[Any] = []
    with warnings.catch_warnings(), UP.EnvironmentContext(random_seed=3) as env:
        warnings.simplefilter("ignore")
        UP.add_stage_variable("distance_units", "nmi")
        UP.add_stage_variable("altitude_units", "ft")
        UP.add_stage_variable("stage_model", Spherical)
        UP.add_stage_variable("intersection_model", get_intersection_locations)
        w = World(spec, env, mon)
        done = [0] * spec["workers"]

        class Work(UP.Task):
            n: int

            def task(self, *, actor: Unit) -> TASK_GEN:
                # the workers take turns
                yield UP.Wait(1.0 + 50.0 * self.n)
                while True:
                    t0 = self.env.now
                    for kind, k in spec["kinds"]:
                        yield from OPS[kind](w, self, actor, k + (done[self.n] % 12 if spec["alternate"] else 0))
                    mon.check(self.env.now - t0 < 99, "long", "a cycle took too long")
                    yield UP.Wait(100.0 + t0 - self.env.now)
                    done[self.n] += 1

        for n, a in enumerate(w.actors):
            task = Work()
            task.n = n
            task.run(actor=a)
        t = WARM * 100.0
        env.run(until=t)
        blocks: list[int] = []
        counts: list[int] = []
        rates: list[float] = []
        more: list[float] = []
        # what seems to grow is watched for longer
        while len(blocks) < ROUNDS or (max(min(rates), min(more)) >= 0.5 and len(blocks) < ROUNDS + MORE):
            t += CYCLES * 100.0
            env.run(until=t)
            gc.collect()
            blocks.append(sys.getallocatedblocks())
            # a list grows by what it lists, even if that is no new object
            counts.append(sum(map(len, old)) + sum(map(len, held())))
            rates = [(y - x) / CYCLES for x, y in zip(blocks, blocks[1:])]
            more = [(y - x) / CYCLES for x, y in zip(counts, counts[1:])]
        if len(blocks) > ROUNDS:
            mon.hit("watched longer")
        # every worker has done its cycles
        mon.eq(done, [WARM + len(blocks) * CYCLES - 1] * len(done), "cycles", "cycles done")
        for x in (*w.actors, w.mate, w.plane, w.fstore, w.pool, w.tank, w.comms, w.nucleus, task):
            refs.append((type(x).__name__, weakref.ref(x)))
    mon.check(min(rates) < 0.5, "leak", lambda: f"{min(rates):.2f} blocks of memory are kept per cycle of {spec['kinds']}: {blocks}")
    mon.check(min(more) < 0.5, "entries", lambda: f"{min(more):.2f} entries of lists and tables are kept per cycle of {spec['kinds']}: {counts}")
    mon.hit("cycles", sum(done))
    mon.hit("entries", counts[-1])
    for kind, _ in spec["kinds"]:
        mon.hit("op:" + kind)
    return refs


def run(spec: Any, mon: Mon) -> None:
    gc.collect()
    old = held()
    gc.freeze()
    try:
        refs = play(spec, mon, old)
        gc.collect()
        kept = [n for n, r in refs if r() is not None]
        mon.check(not kept, "kept", lambda: f"kept alive after the simulation: {kept}")
        mon.hit("freed", len(refs))
    finally:
        gc.unfreeze()
    mon.nontrivial = True
    mon.see(spec["kinds"], spec["motion"], spec["workers"], spec["alternate"], spec["globe"])


REQUIRED = {"cycles": 50000, "freed": 3000, **{"op:" + k: 10 for k in OPS}}
SCENARIOS = [Scenario("cycles", gen, run, quick=400, thorough=8000, cpu_s=60.0)]
