"""C15: rehearsing or cloning changes nothing in the real simulation."""

import random
import re
import types
import warnings
from typing import Any

import simpy as SIM
import upstage_des.api as UP
from upstage_des.data_utils import create_location_table, create_table

from .. import reh
from ..core import Mon, Scenario
from ..util import TASK_GEN, dy

PROPERTY = {
    "title": "Rehearsals and clones leave the real simulation untouched",
    "statement": (
        "Rehearsing a task, a decision or a path through a network, or cloning an actor, at any time and also "
        "when it fails midway, has no effect on the simulation: the clock, the actor's states and their "
        "histories, active states, knowledge, task queues, running tasks, debug log, nucleus watchers and the "
        "stores, containers and resources it names go on exactly as without it. The clone starts with the "
        "actor's present values, knowledge and queues, and afterwards neither follows the other. Clones and their "
        "resources are in none of the simulation's lists of actors, entity groups, monitored resources and data tables."
    ),
    "quantifier": {"over": ["histories", "schedules", "inputs"],
                   "text": "every simulation, every moment of it, every task or network rehearsed, every failure"},
    "why_tests_cant": "Tests rehearse in idle simulations and look at the clone, not at all the rest.",
    "anchors": {
        "files": ["src/upstage_des/actor.py", "src/upstage_des/task.py", "src/upstage_des/task_network.py",
                  "src/upstage_des/states.py", "src/upstage_des/base.py"],
        "mechanism": [{"name": "Actor.clone, Task.rehearse, DecisionTask.rehearse, TaskNetwork.rehearse_network",
                       "where": "src/upstage_des/actor.py"}],
        "observe_at": ["the whole observable simulation", "the clone"],
    },
    "technique": "differential monitor: the same simulation with and without rehearsals must produce the same event log",
}
RULE = (
    "A case is a simulation of an actor with a running network, a background network, a nucleus and active "
    "states, run once with one to six rehearsals or clonings at random times and once without. Non-trivial: "
    "the simulation had at least eight log entries and one rehearsal; distinct by log."
)
NETS = ["main", "bg", "watch", "extra"]
REQUIRED = {"at_start": 300, "rehearsals": 3000, "renet": 1000, "failed": 300, "end_task": 100, "on_to_end": 100, "network_rehearsals": 500, "clones": 500, "second_hand": 200,
            "while_active": 800, "entries": 30000, "nucleus": 300, "rows": 3000, "clone_compared": 3000, "wares": 10000,
            "used": 2000, "replaced": 500}
ASSUMPTIONS = ["Rehearsed tasks act through the actor and the yielded events only, as the documentation asks."]


def gen_prog(rng: random.Random, names: list[str]) -> Any:
    return [reh.gen_op(rng, 1, names) for _ in range(rng.randint(1, 6))]


def gen(rng: random.Random) -> Any:
    names = [f"T{i}" for i in range(rng.randint(1, 4))]
    tasks = {}
    for a in names:
        ops = gen_prog(rng, names) + [["wait", dy(rng, 1, 16)]]
        tasks[a] = {"ops": ops, "default": rng.choice(names)}
    plans = []
    for j in range(rng.randint(1, 6)):
        kind = rng.choice(["single", "single", "network", "network", "clone", "fail", "netfail", "decision", "second"])
        prog = gen_prog(rng, names)
        if kind == "fail":
            prog.insert(rng.randint(0, len(prog)), ["fail", rng.choice(["raise", "bad"])])
        plans.append([rng.randint(0, 160) / 8 + (j + 1) / 128, kind, prog,
                      [rng.choice(names) for _ in range(rng.randint(1, 3))],
                      rng.choice([{}, {"k0": 5}, {"k1": [1], "k2": "x"}])])
    if rng.random() < 0.2:
        # at the very start
        plans[0][0] = 0.0
    plans.sort(key=lambda x: x[0])
    return {"tasks": tasks, "init": rng.choice(names), "plans": plans, "bg": [dy(rng, 1, 24) for _ in range(3)],
            "bgrate": rng.randint(-8, 8) / 4, "speed": rng.choice([0.5, 1.0, 2.0]), "nucleus": rng.random() < 0.5,
            "know": rng.choice([{}, {"k0": [1, 2]}, {"k2": "z"}])}


def simulate(spec: Any, mon: Mon, with_reh: bool) -> dict:
    with warnings.catch_warnings(), UP.EnvironmentContext() as env:
        warnings.simplefilter("ignore")
        UP.add_stage_variable("distance_units", "m")
        UP.add_stage_variable("crew", SIM.Resource(env, capacity=2))
        base = UP.UpstageBase()
        log: list[Any] = []
        drv = reh.Driver(env)
        actor = reh.make_craft("craft")
        actor2 = reh.make_craft("other")
        logged = reh.make_craft("logged", debug_log=True)
        subject = logged if len(spec["plans"]) % 2 else actor
        for k, v in spec["know"].items():
            subject.set_knowledge(k, list(v) if isinstance(v, list) else v)

        steps = [-1]  # tasks to rehearse until the end is queued

        def make(name: str, ops: Any) -> Any:
            class Work(UP.Task):
                def task(self, *, actor: reh.Craft) -> TASK_GEN:
                    real = actor.env is env
                    out = log if real else []
                    out.append((self.env.now, "start", name))
                    yield from reh.program(self, actor, ops, out, drv if real else None, [0], name)
                    if not real:
                        steps[0] -= 1
                        if steps[0] == 0:
                            actor.clear_task_queue("main")
                            actor.set_task_queue("main", ["END"])

            return Work

        class Background(UP.Task):
            def task(self, *, actor: reh.Craft) -> TASK_GEN:
                actor.activate_location_state(
                    state="far", speed=spec["speed"], task=self,
                    waypoints=[UP.CartesianLocation(40.0, 30.0), UP.CartesianLocation(0.0, 0.0)])
                actor.activate_mimic_state(self_state="seen", mimic_state="fuel", mimic_actor=actor2, task=self)
                actor2.fuel += spec["bgrate"]
                yield UP.Wait(spec["bg"][0])
                log.append((env.now, "bg", reh.xyz(actor.far)))
                actor.deactivate_all_states(task=self)
                actor.deactivate_all_mimic_states(task=self)
                yield UP.Put(actor.shelves["s"], "more") if len(actor.shelves["s"].items) < 5 else UP.Wait(0.0)
                yield UP.Any(UP.Get(actor.store, lambda x: False), UP.Wait(spec["bg"][1]))
                h = UP.ResourceHold(actor.stage.crew)
                yield h
                yield UP.Wait(spec["bg"][2])
                yield h
                log.append((env.now, "bg-end", reh.resources(actor)))

        class Watch(UP.Task):
            def task(self, *, actor: reh.Craft) -> TASK_GEN:
                yield UP.Event()

            def on_interrupt(self, *, actor: reh.Craft, cause: Any) -> UP.InterruptStates:
                log.append((env.now, "nucleus", cause.state_name, reh.show(cause.value)))
                return self.INTERRUPT.IGNORE

        classes = {k: make(k, t["ops"]) for k, t in spec["tasks"].items()}
        links = {k: UP.TaskLinks(default=t["default"], allowed=list(spec["tasks"])) for k, t in spec["tasks"].items()}
        net = UP.TaskNetworkFactory("main", classes, links).make_network()
        subject.add_task_network(net)
        subject.add_task_network(UP.TaskNetworkFactory.from_single_looping("bg", Background).make_network())
        subject.add_task_network(UP.TaskNetworkFactory.from_single_looping("watch", Watch).make_network())
        if spec["nucleus"]:
            nuc = UP.TaskNetworkNucleus(actor=subject)
            nuc.add_network("watch", ["n", "late", "items"])
        for nm, init in (("main", spec["init"]), ("bg", "Background"), ("watch", "Watch")):
            subject.start_network_loop(nm, init)

        class Decide(UP.DecisionTask):
            ops: Any = None

            def make_decision(self, *, actor: reh.Craft) -> None:
                raise ValueError("not a rehearsal")

            def rehearse_decision(self, *, actor: reh.Craft) -> None:
                actor.n += 5
                actor.items = [*actor.items, 9]
                self.set_actor_knowledge(actor, "k0", 77, overwrite=True)
                actor.clear_task_queue("main")
                actor.set_task_queue("main", ["T0", "T0"])

        def renet(clone: Any) -> None:
            """Networks and watchers of a clone are its own."""
            mon.raises(UP.SimulationError, clone.get_nucleus, "clone-nucleus", "a clone has no nucleus")
            clone.delete_task_network("bg")
            clone.add_task_network(UP.TaskNetworkFactory.from_single_looping("extra", Background).make_network())
            mon.eq([x for x in NETS if clone.has_task_network(x)], ["main", "watch", "extra"], "clone-networks",
                   "networks of a clone")
            mon.eq([x for x in NETS if subject.has_task_network(x)], ["main", "bg", "watch"], "networks",
                   "networks of the actor")
            mon.hit("renet")

        def compare_new(clone: Any, before: Any, extra: Any) -> None:
            """The clone, as made."""
            want = {**before, "know": {**before["know"], **{k: reh.show(v) for k, v in extra.items()}}}
            got = reh.view(clone)
            for k in want:
                mon.eq(got[k], want[k], f"clone-{k}", "value in a new clone")
            mon.hit("clone_compared")

        def rehearse(kind: str, prog: Any, path: Any, know: Any) -> None:
            mon.hit("rehearsals")
            before = reh.view(subject)
            mine = {k: list(v) if isinstance(v, list) else v for k, v in know.items()}

            class Trial(UP.Task):
                def task(self, *, actor: reh.Craft) -> TASK_GEN:
                    mon.check(actor is not subject and actor.env is not env, "not-a-clone", "the task got the real actor")
                    mon.eq(actor.env.now, env.now, "clone-time", "time of the clone")
                    compare_new(actor, before, mine)
                    ops = prog
                    yield from reh.program(self, actor, ops, [], None, [0], "t", can_queue=False)
                    actor.n += 1
                    actor.items.append(4)
                    actor.d["b"] = 44
                    actor.bag.add(44)
                    actor.table["t"] = 44
                    actor.toolbox.append(44)
                    if isinstance(actor.get_knowledge("k1"), list):
                        actor.get_knowledge("k1").append(44)
                    actor.rec.x += 7
                    actor.clear_task_queue("main")
                    actor.set_task_queue("main", ["T0"])
                    renet(actor)

            if kind == "single":
                t = Trial()
                c = t.rehearse(actor=subject, knowledge=mine)
                mon.check(t.env is env, "task-env", "the task stays in the rehearsal's time")
                # what is done to the clone afterwards stays with the clone too
                c.n, c.fuel = 99, 99.0
                c.set_knowledge("k1", "late", overwrite=True)
                c.record_state("n")
            elif kind == "fail":
                mon.hit("failed")
                t = Trial()
                mon.raises((ValueError, UP.SimulationError), lambda: t.rehearse(actor=subject, knowledge=mine),
                           "failure-hidden", "a failing rehearsal")
                mon.check(t.env is env, "task-env", "the task stays in the rehearsal's time")
            elif kind == "second":
                mon.hit("second_hand")
                c = Trial().rehearse(actor=subject, knowledge=mine)
                now, n, f = c.env.now, c.n, c.fuel
                c2 = Last().rehearse(actor=c)
                mon.check(c2 is not c, "second-hand", "rehearsing a clone used the clone itself")
                mon.eq((c.env.now, c.n, c.fuel), (now, n, f), "second-hand-state", "the clone that was cloned")
                mon.eq(c2.env.now, now + 2.0, "second-hand-time", "time of the second clone")
            elif kind == "decision":
                d = Decide()
                c = d.rehearse(actor=subject, knowledge=mine)
                mon.eq((c.n, c.env.now), (before["n"] + 5, env.now), "decision", "the rehearsed decision")
                mon.check(d.env is env, "task-env", "the decision stays in the rehearsal's time")
            elif kind == "clone":
                mon.hit("clones")
                c = subject.clone(knowledge=mine)
                c3 = subject.clone()
                mon.check(len({c.name, c3.name, subject.name}) == 3, "clone-name", f"{c.name}, {c3.name}")
                compare_new(c, before, mine)
                hist = dict(c._state_histories)
                mon.eq({k: list(v) for k, v in hist.items()}, {k: list(v) for k, v in subject._state_histories.items()},
                       "clone-history", "histories of a new clone")
                c.n, c.fuel, c.load = 50, -1.0, 3.0
                c.items.append(5)
                c.bag.add(55)
                c.table["c"] = 5
                c.toolbox.append(5)
                fresh = UP.Actor(name="fresh", debug_log=True)
                quiet = list(fresh.get_log())
                fresh.clone().log("said by the clone")
                mon.eq(fresh.get_log(), quiet, "clone-log", "log of an actor that was cloned")
                c.d["a"] = 1000
                c.rec.x, c.rec.y = 1000, 5.0
                c.late = 12
                c.seen = 55.0
                c.store.put("mine"), c.tank.get(3.0), c.radio.put("mine"), c.horn.put("m")
                c.shelves["s"].put("mine"), c.shelves["t"].put(5.0)
                c.loc = UP.CartesianLocation(1.0, 1.0)
                c.activate_linear_state(state="load", rate=3.0, task=Last())
                c.clear_task_queue("main")
                c.set_task_queue("main", ["T0"])
                for k in list(mine) + ["k2"]:
                    c.set_knowledge(k, "changed", overwrite=True)
                renet(c)
                mon.eq(reh.view(c3), {**before}, "clone-of-clone", "another clone of the same actor")
            else:
                mon.hit("network_rehearsals")
                run_task = subject.get_running_task("main")
                kw = {"task_name_list": path, "knowledge": mine}
                if kind == "network":
                    if len(path) % 2:
                        # ends on arrival at a task, which may be among those given
                        kw["end_task"] = path[-1]
                        mon.hit("end_task")
                    elif len(prog) % 2:
                        # goes on through the queue and the default links
                        kw["end_task"] = "END"
                        steps[0] = len(path) + len(prog)
                        mon.hit("on_to_end")
                    c = subject.rehearse_network("main", **kw)
                    mon.check(c is not subject and c.env.now >= env.now, "network-clone", "rehearsed actor")
                else:
                    mon.hit("failed")
                    kw["task_name_list"] = [*path, "none such"]
                    mon.raises((KeyError, UP.SimulationError), lambda: subject.rehearse_network("main", **kw),
                               "failure-hidden", "a path that does not exist")
                after = subject.get_running_task("main")
                mon.check((run_task and (run_task.name, run_task.process)) == (after and (after.name, after.process)),
                          "running-task", f"{run_task} became {after}")
            mon.eq(mine, know, "knowledge-argument", "the knowledge given to the rehearsal")
            mon.eq(reh.view(subject), before, "actor-changed", f"actor after a {kind} rehearsal")

        class Last(UP.Task):
            def task(self, *, actor: reh.Craft) -> TASK_GEN:
                actor.n += 3
                actor.activate_linear_state(state="fuel", rate=1.0, task=self)
                yield UP.Wait(2.0)
                actor.deactivate_all_states(task=self)

        def planner() -> Any:
            for at, kind, prog, path, know in spec["plans"]:
                yield env.timeout(at - env.now)
                reh.view(subject)
                if with_reh:
                    mon.hit("at_start", int(at == 0))
                    rehearse(kind, prog, path, know)
                    mon.hit("while_active")
                mon.eq(env.now, at, "clock", "the real clock after a rehearsal")
                log.append((env.now, "view", reh.view(subject), reh.resources(subject),
                            {k: v.name for k, v in subject.get_running_tasks().items()}))
                log.append((env.now, "other", reh.view(actor2)))
                log.append((env.now, "listed", [a.name for a in base.get_actors() if a.name != "fresh"], sorted(base.get_all_entity_groups()),
                            [a.name for a in base.get_entity_group("craft")], len(base.get_monitored())))

        env.process(planner())
        env.run(until=24.0)
        table = sorted({repr(tuple(reh.show(x) for x in r)) for f in (create_table, create_location_table) for r in f()[0] if r[0] != "fresh"})
        mon.hit("rows", len(table))
        hist = {}
        for k, v in subject._state_histories.items():
            rows = [(t, reh.xyz(x) if isinstance(x, UP.CartesianLocation) else reh.show(x)) for t, x in v]
            hist[k] = [r for i, r in enumerate(rows) if not i or rows[i - 1] != r]
        return {"log": log, "view": reh.view(subject), "resources": reh.resources(subject), "history": hist,
                "debug": [(t, re.sub("0x[0-9a-f]+", "", m)) for t, m in subject.get_log()], "now": env.now, "table": table,
                "nucleus": sum(1 for x in log if x[1] == "nucleus")}


def run(spec: Any, mon: Mon) -> None:
    plain = simulate(spec, mon, False)
    with_reh = simulate(spec, mon, True)
    a, b = with_reh["log"], plain["log"]
    for n, (x, y) in enumerate(zip(a, b)):
        mon.check(x == y, "log", lambda: f"entry {n}: with rehearsals {x}, without {y}")
    mon.eq(len(a), len(b), "log-length", f"{a[-1:]} vs {b[-1:]}")
    for k in ("view", "resources", "history", "debug", "now", "table"):
        mon.eq(with_reh[k], plain[k], k, "with rehearsals / without")
    mon.hit("entries", len(a))
    mon.hit("nucleus", with_reh["nucleus"])
    mon.nontrivial = len(a) >= 8
    mon.see(a)
    mon.sample = {"log": [list(map(str, x)) for x in a[:6]], "plans": [p[:2] for p in spec["plans"]]}


WARES = [SIM.Store, SIM.FilterStore, SIM.Container, UP.SelfMonitoringStore, UP.SelfMonitoringFilterStore, UP.SelfMonitoringContainer,
         UP.SortedFilterStore]


def is_store(k: Any) -> bool:
    return issubclass(k, SIM.Store)


def gen_wares(rng: random.Random) -> Any:
    def inputs(k: int) -> Any:
        d: dict[str, Any] = {}
        if rng.random() < 0.7:
            d["capacity"] = rng.randint(5, 60)
        if not is_store(WARES[k]) and rng.random() < 0.7:
            d["init"] = rng.randint(0, 5)
        return d

    def ware() -> Any:
        k = rng.randrange(len(WARES))
        return {"kind": k, "default": rng.random() < 0.5, "common": inputs(k), "own": inputs(k), "given": rng.random() < 0.25}

    multi = {"kind": rng.randrange(len(WARES)), "keys": []}
    multi["common"] = inputs(multi["kind"])
    for k in range(rng.randint(0, 3)):
        multi["keys"].append([f"k{k}", inputs(multi["kind"]), rng.random() < 0.25])
    return {"states": [ware() for _ in range(rng.randint(1, 3))], "multi": multi, "modes": rng.choice([None, "a", ["a", "b", "c"]]),
            "own_modes": rng.choice(["d", ["b", "e", "f"], ["z", "f", "a", "c"]]), "use_modes": rng.random() < 0.5,
            "ops": [[rng.choice(["put", "put", "put", "get", "new", "replace"]), rng.randrange(6), rng.randint(1, 4), rng.randint(5, 60)]
                    for _ in range(rng.randint(0, 10))],
            "after": rng.random() < 0.5}


def run_wares(spec: Any, mon: Mon) -> None:
    """Stores and containers of clones are as those of the actor, and their own."""
    ns: dict[str, Any] = {}
    for i, w in enumerate(spec["states"]):
        k = WARES[w["kind"]]
        ns[f"r{i}"] = UP.ResourceState(default=k if w["default"] else None, default_kwargs=w["common"] if w["default"] else None)
    m = spec["multi"]
    K = WARES[m["kind"]]
    ns["many"] = UP.MultiStoreState(default=K, valid_types=(SIM.Store, SIM.Container), default_kwargs=m["common"])
    ns["radio"] = UP.CommunicationStore(modes=spec["modes"])
    Cls: Any = types.new_class("Cls", (UP.Actor,), {}, lambda n: n.update(ns))
    with UP.EnvironmentContext() as env:
        kw: dict[str, Any] = {}
        for i, w in enumerate(spec["states"]):
            k = WARES[w["kind"]]
            if w["given"]:
                kw[f"r{i}"] = k(env, **w["own"])
            elif not w["default"]:
                kw[f"r{i}"] = {"kind": k, **w["own"]}
            elif w["own"]:
                kw[f"r{i}"] = w["own"]
        kw["many"] = {name: K(env, **d) if given else d for name, d, given in m["keys"]}
        modes = spec["modes"]
        if modes is None or spec["use_modes"]:
            modes = spec["own_modes"]
            kw["radio"] = {"modes": modes}
        a = Cls(name="a", **kw)
        b = Cls(name="b", **{k: v for k, v in kw.items() if k == "radio"},
                **{f"r{i}": {"kind": WARES[w["kind"]]} for i, w in enumerate(spec["states"]) if not w["default"]}, many={})

        def wares(x: Any) -> dict[str, Any]:
            d = {f"r{i}": getattr(x, f"r{i}") for i in range(len(spec["states"]))}
            d.update({f"many.{k}": x.many[k] for k in x.many})
            return {**d, "radio": x.radio}

        def look(x: Any) -> dict[str, Any]:
            return {n: (type(r), r.capacity, list(r.items) if isinstance(r, SIM.Store) else r.level) for n, r in wares(x).items()}

        def use(x: Any, op: Any) -> None:
            what, n, amount, cap = op
            if what in ("new", "replace"):
                key = "fresh" if what == "new" else next(iter(x.many), "fresh")
                x.many[key] = K(env, capacity=cap)
                mon.hit("replaced")
                return
            d = wares(x)
            r = d[sorted(d)[n % len(d)]]
            if isinstance(r, SIM.Store):
                if what == "put" and len(r.items) < r.capacity:
                    r.put((amount, cap))
                elif what == "get" and r.items:
                    r.get()
            elif what == "put" and r.level + amount <= r.capacity:
                r.put(amount)
            elif what == "get" and r.level >= amount:
                r.get(amount)
            env.run(until=env.now + 1.5)
            mon.hit("used")

        for op in spec["ops"]:
            use(a, op)
        seen, other, monitored = look(a), look(b), len(UP.UpstageBase().get_monitored())
        c = a.clone()
        c2 = c.clone()
        for x in (c, c2):
            mon.eq(look(x), seen, "clone-resources", "resources of a clone")
            mon.hit("wares", len(seen))
            mon.check(not any(p is q for n, p in wares(a).items() for q in [wares(x)[n]]), "clone-shares-resource", "a resource of the actor itself")
        mon.eq(len(UP.UpstageBase().get_monitored()), monitored, "clone-monitored", "number of monitored resources")
        # what happens to the one does not happen to the other
        one, two = (a, c) if spec["after"] else (c, a)
        for r in wares(one).values():
            if isinstance(r, SIM.Store):
                r.items.append("late")
            elif r.level < r.capacity:
                r.put(r.capacity - r.level if r.capacity < 1e9 else 5)
        env.run(until=env.now + 1)
        mon.eq(look(two), seen, "clone-follows", "after changing the other's resources")
        mon.eq(look(b), other, "other-changed", "another actor")
        # a clone is reached by the same modes
        for mode in "abcdefz":
            man = UP.PointToPointCommsManager(name="man", mode=mode)
            known = mode in modes
            for x in (a, c2):
                try:
                    found = man.store_from_actor(x) is x.radio
                except UP.SimulationError:
                    found = False
                mon.check(found == known, "clone-modes", lambda: f"mode {mode} of {modes}: {found}")
        mon.nontrivial = True
        mon.see(seen)


SCENARIOS = [Scenario("with-without", gen, run, quick=2500, thorough=60000),
             Scenario("wares", gen_wares, run_wares, quick=2000, thorough=40000)]
