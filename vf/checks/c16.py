"""C16: a rehearsal predicts what the task does."""

import math
import random
import warnings
from typing import Any

import simpy as SIM
import upstage_des.api as UP

from .. import reh
from ..core import Mon, Scenario
from ..util import TASK_GEN, dy

PROPERTY = {
    "title": "A rehearsal predicts the time, states and course of the real run",
    "statement": (
        "If everything a task waits for takes the time planned for it, the rehearsed clone ends at the time and "
        "with the states, histories, knowledge, queue and choices (which event of an Any came first) that the "
        "actor then really has, for single tasks and for paths through a network. Planned times combine as the "
        "events do: their own planning time, the least of an Any, the greatest of an All, the sum in a routine; "
        "gets and events answer with the planning object; paths the links do not allow are refused."
    ),
    "quantifier": {"over": ["inputs", "histories"],
                   "text": "every task and network program, every nesting of events, every start state and time"},
    "why_tests_cant": "Agreement must hold for any program; tests compare a few durations by hand.",
    "anchors": {
        "files": ["src/upstage_des/task.py", "src/upstage_des/events.py", "src/upstage_des/routines.py",
                  "src/upstage_des/task_network.py"],
        "mechanism": [{"name": "Task.rehearse, BaseEvent.rehearse, MultiEvent.rehearse, TaskNetwork.rehearse_network",
                       "where": "src/upstage_des/task.py"}],
        "observe_at": ["clone after the rehearsal", "actor after the run"],
    },
    "technique": "differential monitor: the rehearsed clone and log against the same task really run; planning-time model",
}
RULE = (
    "A case is a task or a path through a network, rehearsed and then run with every event happening at its "
    "planned time; or a program with planning times only, judged by a model. Non-trivial: at least two log "
    "entries; distinct by log."
)
REQUIRED = {"single": 1000, "network": 800, "entries": 10000, "multi": 1000, "end_task": 200, "end_inside": 100, "refused": 50,
            "planned": 500, "planning_object": 500, "custom_routine": 100, "decisions": 200, "moved": 300}
ASSUMPTIONS = ["No two events of an Any or All are planned for the same time."]


def same(a: Any, b: Any) -> bool:
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, int | float) and isinstance(b, int | float) and math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9)
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list | tuple):
        return isinstance(b, list | tuple) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def history(a: Any) -> Any:
    out = {}
    for k, v in a._state_histories.items():
        rows = []
        for t, x in v:
            r = (t, reh.xyz(x) if isinstance(x, UP.CartesianLocation) else x if isinstance(x, int | float) else str(x))
            if not rows or not same(rows[-1], r):
                rows.append(r)
        out[k] = rows
    return out


def final(a: Any) -> Any:
    v = reh.view(a)
    # rehearsals do not touch stores, and the driver of the real run fills one
    for k in ("stores", "shelves", "queues"):
        v.pop(k)
    return v


def diff(x: Any, y: Any) -> str:
    return str({k: (x[k], y.get(k)) for k in x if not same(x[k], y.get(k))})


# ---- single tasks ---------------------------------------------------------------------------


def gen(rng: random.Random) -> Any:
    return {"ops": [reh.gen_op(rng, 1) for _ in range(rng.randint(1, 9))], "t0": dy(rng, 0, 40),
            "pre": [reh.gen_op(rng, 0) for _ in range(rng.randint(0, 3))],
            "know": rng.choice([{}, {"k0": 3}, {"k1": "q", "k2": [1]}])}


def stage(env: Any) -> None:
    UP.add_stage_variable("distance_units", "m")
    UP.add_stage_variable("crew", SIM.Resource(env, capacity=50))


def run(spec: Any, mon: Mon) -> None:
    with warnings.catch_warnings(), UP.EnvironmentContext(initial_time=spec["t0"]) as env:
        warnings.simplefilter("ignore")
        stage(env)
        drv = reh.Driver(env)
        actor = reh.make_craft("craft")
        logs: dict[bool, list[Any]] = {True: [], False: []}
        ended: list[float] = []

        def make(ops: Any, real_log: list[Any], base: int) -> Any:
            class Work(UP.Task):
                def task(self, *, actor: reh.Craft) -> TASK_GEN:
                    real = actor.env is env
                    out = real_log if real else logs[False]
                    yield from reh.program(self, actor, ops, out, drv if real else None, [base], "w", can_queue=False)
                    if real:
                        ended.append(env.now)

            return Work

        env.run(until=env.process(wait_for(make(spec["pre"], [], 0)().run(actor=actor))))
        ended.clear()
        work = make(spec["ops"], logs[True], 1000)()
        clone = work.rehearse(actor=actor, knowledge=dict(spec["know"]))
        for k, v in spec["know"].items():
            actor.set_knowledge(k, v, overwrite=True)
        env.run(until=env.process(wait_for(work.run(actor=actor))))
        compare(mon, clone, actor, ended[-1], logs)
        mon.hit("single")
        note(mon, spec["ops"])
        mon.nontrivial = len(logs[True]) >= 2
        mon.see(spec["ops"])
        mon.sample = {"log": [list(map(str, x)) for x in logs[True][:5]], "end": ended[-1]}


def wait_for(p: Any) -> Any:
    yield p


def note(mon: Mon, ops: Any) -> None:
    for o in ops:
        if o[0] in ("any", "all"):
            mon.hit("multi")
        if o[0] == "move":
            mon.hit("moved")


def compare(mon: Mon, clone: Any, actor: Any, end: float, logs: Any) -> None:
    mon.check(same(clone.env.now, end), "time", f"rehearsed until {clone.env.now}, ran until {end}")
    a, b = logs[False], logs[True]
    for n, (x, y) in enumerate(zip(a, b)):
        mon.check(same(x, y), "course", lambda: f"entry {n}: rehearsed {x}, ran {y}")
    mon.eq(len(a), len(b), "course-length", f"{a[-1:]} vs {b[-1:]}")
    x, y = final(clone), final(actor)
    mon.check(same(x, y), "states", lambda: f"rehearsed/ran: {diff(x, y)}")
    x, y = history(clone), history(actor)
    mon.check(same(x, y), "histories", lambda: f"rehearsed/ran: {diff(x, y)}")
    mon.hit("entries", len(b))


# ---- paths through networks -------------------------------------------------------------------


def gen_net(rng: random.Random) -> Any:
    names = [f"T{i}" for i in range(rng.randint(1, 4))]
    tasks = {}
    for a in names:
        tasks[a] = {"ops": [reh.gen_op(rng, 1, [*names, "END"]) for _ in range(rng.randint(0, 4))],
                    "default": rng.choice([*names, "END"]), "decide": rng.random() < 0.25,
                    "allowed": sorted(set(rng.choice(names) for _ in range(4))) + ["END"]}
    full = rng.random() < 0.8
    path = [rng.choice(names) for _ in range(rng.randint(1, 4))]
    end = rng.random() < 0.6
    if end and rng.random() < 0.25:
        # the task to end on can be among those given
        path.insert(rng.randint(0, len(path)), "END")
    return {"tasks": tasks, "path": path, "end": end, "full": full, "limit": rng.randint(1, 8), "t0": dy(rng, 0, 40),
            "know": rng.choice([{}, {"k0": 3}])}


def run_net(spec: Any, mon: Mon) -> None:
    with warnings.catch_warnings(), UP.EnvironmentContext(initial_time=spec["t0"]) as env:
        warnings.simplefilter("ignore")
        stage(env)
        drv = reh.Driver(env)
        actor = reh.make_craft("craft")
        logs: dict[bool, list[Any]] = {True: [], False: []}
        count = {True: 0, False: 0}
        state: dict[str, Any] = {}
        path = spec["path"]
        done = env.event()

        def begin(a: Any, real: bool, name: str) -> bool:
            """Whether the queue may be changed: not while the given path is still being followed."""
            logs[real].append((a.env.now, "start", name))
            count[real] += 1
            return count[real] >= len(path)

        def finish(task: Any, a: Any, real: bool) -> None:
            if count[real] >= len(path) + spec["limit"]:
                task.clear_actor_task_queue(a)
                task.set_actor_task_queue(a, ["END"])
            if real and not spec["end"] and count[real] == len(path):
                done.succeed()

        def make(name: str, t: Any) -> Any:
            if t["decide"]:
                ops = [o for o in t["ops"] if o[0] in ("set", "add", "dset", "rec", "list", "know", "readk", "queue")]

                class Decide(UP.DecisionTask):
                    def make_decision(self, *, actor: reh.Craft) -> None:
                        real = actor.env is env
                        free = begin(actor, real, name)
                        for _ in reh.program(self, actor, ops, logs[real], drv if real else None, [0], name, free):
                            raise AssertionError("decisions do not wait")
                        finish(self, actor, real)
                        mon.hit("decisions")

                    def rehearse_decision(self, *, actor: reh.Craft) -> None:
                        self.make_decision(actor=actor)

                return Decide

            class Work(UP.Task):
                def task(self, *, actor: reh.Craft) -> TASK_GEN:
                    real = actor.env is env
                    free = begin(actor, real, name)
                    tag = [100 * count[real]]
                    yield from reh.program(self, actor, t["ops"], logs[real], drv if real else None, tag, name, free)
                    finish(self, actor, real)

            return Work

        class End(UP.TerminalTask):
            def log_message(self, *, actor: reh.Craft) -> str:
                if spec["end"]:
                    done.succeed()
                return "end"

        classes = {k: make(k, t) for k, t in spec["tasks"].items()}
        allowed = [*spec["tasks"], "END"]
        links = {k: UP.TaskLinks(default=t["default"], allowed=allowed if spec["full"] else t["allowed"])
                 for k, t in spec["tasks"].items()}
        classes["END"] = End
        links["END"] = UP.TaskLinks(default=None, allowed=[])
        net = UP.TaskNetworkFactory("main", classes, links).make_network()
        actor.add_task_network(net)
        kw = {"task_name_list": list(path), "knowledge": dict(spec["know"]), "end_task": "END" if spec["end"] else None}
        steps = list(zip(path, path[1:]))[:path.index("END") if "END" in path else None]
        if "END" in path:
            mon.hit("end_inside")
        bad = [1 for a, b in steps if not spec["full"] and b not in spec["tasks"][a]["allowed"]]
        for a, b in steps:
            mon.eq(net.is_feasible(a, b), spec["full"] or b in spec["tasks"][a]["allowed"], "feasible", f"{a} to {b}")
        if bad:
            mon.raises(UP.SimulationError, lambda: actor.rehearse_network("main", **kw), "not-refused",
                       f"the path {path} is not allowed")
            mon.hit("refused")
            mon.see(spec)
            mon.nontrivial = True
            return
        clone = actor.rehearse_network("main", **kw)
        mon.eq(path, spec["path"], "path-changed", "the list given")
        if spec["end"]:
            mon.hit("end_task")
        for k, v in spec["know"].items():
            actor.set_knowledge(k, v, overwrite=True)
        actor.set_task_queue("main", path)
        actor.start_network_loop("main")
        env.run(until=done)
        state["end"] = env.now
        mon.eq([x[2] for x in logs[False] if x[1] == "start"], [x[2] for x in logs[True] if x[1] == "start"],
               "tasks", "tasks rehearsed / run")
        compare(mon, clone, actor, state["end"], logs)
        if not spec["end"]:
            mon.eq(clone.get_task_queue("main"), actor.get_task_queue("main"), "queue", "queue at the end")
        mon.hit("network")
        for t in spec["tasks"].values():
            note(mon, t["ops"])
        mon.nontrivial = len(logs[True]) >= 2
        mon.see(logs[True])


# ---- planning times -----------------------------------------------------------------------


def gen_plan_event(rng: random.Random, depth: int) -> Any:
    k = rng.choice(["wait", "waitr", "event", "get", "fget", "sget", "cget", "put", "uniform", "unit"] + ["any", "all"] * (2 if depth else 0))
    if k in ("any", "all"):
        return [k, [gen_plan_event(rng, depth - 1) for _ in range(rng.randint(1, 4))]]
    if k == "uniform":
        return [k, dy(rng, 0, 8), dy(rng, 8, 32), rng.choice([None, dy(rng, 0, 32)])]
    return [k, dy(rng, 0, 40) * (rng.random() < 0.8), dy(rng, 0, 40)]


def gen_plan(rng: random.Random) -> Any:
    evts: list[Any] = []
    for _ in range(rng.randint(1, 8)):
        r = rng.random()
        if r < 0.15:
            evts.append(["routine", [gen_plan_event(rng, 1) for _ in range(rng.randint(0, 4))]])
        elif r < 0.3:
            evts.append(["custom", dy(rng, 0, 40), rng.choice([None, 0, "v", [2]])])
        elif r < 0.4:
            evts.append(["hold", dy(rng, 0, 16) * (rng.random() < 0.8), dy(rng, 0, 16)])
        elif r < 0.5:
            evts.append(["window", dy(rng, 0, 16), dy(rng, 0, 16)])
        else:
            evts.append(gen_plan_event(rng, 2))
    return {"evts": evts, "t0": dy(rng, 0, 40), "seed": rng.randrange(10**6), "unit": rng.choice(["s", "min", "hr"])}


TO_S = {"s": 1.0, "min": 60.0, "hr": 3600.0}


def run_plan(spec: Any, mon: Mon) -> None:
    """Planned durations only: a model of how they combine."""
    with warnings.catch_warnings(), UP.EnvironmentContext(initial_time=spec["t0"], random_seed=spec["seed"]) as env:
        warnings.simplefilter("ignore")
        UP.add_stage_variable("time_unit", spec["unit"])
        rng = random.Random(spec["seed"])
        store = SIM.Store(env)
        fstore = SIM.FilterStore(env)
        sstore = UP.SortedFilterStore(env)
        tank = SIM.Container(env)
        res = SIM.Resource(env)
        want = {"now": spec["t0"]}

        def plan(t: float) -> Any:
            # no planned time means none is needed
            return {"rehearsal_time_to_complete": t} if t else {}

        def make(e: Any) -> tuple[Any, Any]:
            """The event, and its planned duration (with those of its parts)."""
            k = e[0]
            if k == "wait":
                return UP.Wait(e[1]), e[1]
            if k == "waitr":
                return UP.Wait(e[1], rehearsal_time_to_complete=e[2]), e[2]
            if k == "unit":
                # whole minutes, in the unit of the stage
                m = int(e[1])
                return UP.Wait(m, timeout_unit="min"), m * 60.0 / TO_S[spec["unit"]]
            if k == "uniform":
                v = rng.uniform(e[1], e[2])
                return (UP.Wait.from_random_uniform(e[1], e[2], rehearsal_time_to_complete=e[3]),
                        v if e[3] is None else e[3])
            if k == "event":
                return UP.Event(**plan(e[1])), e[1]
            if k == "get":
                return UP.Get(store, **plan(e[1])), e[1]
            if k == "fget":
                return UP.FilterGet(fstore, lambda x: False, **plan(e[1])), e[1]
            if k == "sget":
                return UP.SortedFilterGet(sstore, lambda x: False, **plan(e[1])), e[1]
            if k == "cget":
                return UP.Get(tank, e[2] + 1, **plan(e[1])), e[1]
            if k == "put":
                return UP.Put(store, e[2], **plan(e[1])), e[1]
            subs = [make(s) for s in e[1]]
            t = (min if k == "any" else max)(dur(s[1]) for s in subs)
            return (UP.Any if k == "any" else UP.All)(*[s[0] for s in subs]), (t, [s[1] for s in subs])

        def dur(t: Any) -> float:
            return t[0] if isinstance(t, tuple) else t

        def parts(ev: Any, t: Any, limit: float) -> None:
            """Which parts are complete when the whole is."""
            for s, st in zip(ev.events, t[1]):
                mon.eq(s.is_complete(), dur(st) <= limit, "part-complete", f"a part of {dur(st)} at {limit}")
                if isinstance(st, tuple):
                    parts(s, st, limit)
                if isinstance(s, UP.Get) and s.get_location in (store, fstore, sstore) and dur(st) <= limit:
                    mon.check(s.get_value() is UP.PLANNING_FACTOR_OBJECT, "get-value", "value of a rehearsed get")

        class Plan(UP.Task):
            def task(self, *, actor: UP.Actor) -> TASK_GEN:
                for e in spec["evts"]:
                    k = e[0]
                    mon.check(math.isclose(self.env.now, want["now"], abs_tol=1e-9), "planned-time",
                              lambda: f"at {self.env.now}, planned {want['now']} before {e}")
                    mon.eq(self.env.now, actor.env.now, "clocks", "task and actor")
                    mon.hit("planned")
                    if k == "routine":
                        made = [make(s) for s in e[1]]

                        class R(UP.Routine):
                            def run(self) -> Any:
                                for ev, _ in made:
                                    yield ev

                            def cancel(self) -> Any:
                                yield from ()

                        got = yield R()
                        mon.eq(got, None, "routine-value", "of a routine that plans no value")
                        want["now"] += sum(dur(t) for _, t in made)
                    elif k == "custom":
                        class C(UP.Routine):
                            def run(self) -> Any:
                                yield UP.Wait(1000.0)

                            def rehearse(self) -> Any:
                                return e[1], e[2]

                        got = yield C()
                        mon.eq(got, e[2], "custom-value", "planned by the routine")
                        want["now"] += e[1]
                        mon.hit("custom_routine")
                    elif k == "hold":
                        h = UP.ResourceHold(res, **plan(e[1]))
                        yield h
                        want["now"] += e[1]
                        mon.close(self.env.now, want["now"], "hold-time", "planned for the resource", 1e-9)
                        yield UP.Wait(e[2])
                        yield h
                        want["now"] += e[2]
                    elif k == "window":
                        got = yield UP.WindowedGet(store, e[1], get_kwargs={"rehearsal_time_to_complete": e[2]})
                        mon.check(got == [UP.PLANNING_FACTOR_OBJECT], "window-value", f"{got}")
                        want["now"] += e[2]
                    else:
                        ev, t = make(e)
                        got = yield ev
                        mon.check(ev.is_complete(), "complete", f"{k} is not complete")
                        if k in ("get", "fget", "sget", "event"):
                            mon.check(got is UP.PLANNING_FACTOR_OBJECT, "planning-object", f"{k} gave {got!r}")
                            mon.hit("planning_object")
                        if k in ("any", "all"):
                            parts(ev, t, t[0])
                        want["now"] += dur(t)

        clone = Plan().rehearse(actor=UP.Actor(name="a"))
        mon.close(clone.env.now, want["now"], "planned-end", "end of the rehearsal", 1e-9)
        mon.eq(env.now, spec["t0"], "clock", "the real clock")
        mon.eq((store.items, len(store.get_queue), tank.level, res.count), ([], 0, 0, 0), "resources", "touched")
        mon.nontrivial = len(spec["evts"]) >= 2
        mon.see(spec["evts"], clone.env.now)

        class End(UP.TerminalTask):
            pass

        mon.check(End().rehearse(actor=UP.Actor(name="b")).env.now >= 1e20, "terminal", "a terminal task ended")


SCENARIOS = [Scenario("single", gen, run, quick=10000, thorough=207000),
             Scenario("network", gen_net, run_net, quick=10000, thorough=207000),
             Scenario("planned", gen_plan, run_plan, quick=6000, thorough=103500)]
