"""C14: task networks run the queue first, then the defaults."""

import random
import warnings
from typing import Any

import upstage_des.api as UP

from ..core import Mon, Scenario
from ..util import TASK_GEN, dy

PROPERTY = {
    "title": "A task network runs its queue in order, then its default links",
    "statement": (
        "A network loop always runs exactly one task: when it ends, by itself or by an interrupt, the next task "
        "starts at that instant, the first of the actor's queue for that network or else the default link; with "
        "neither, or a task that is unknown or that the links do not allow, the simulation stops with an error. "
        "Queues, running tasks and names reported by the actor are those of that network at that time; networks of an actor do not disturb each other, decisions take no "
        "time, and a terminal task never ends."
    ),
    "quantifier": {"over": ["inputs", "histories", "schedules"],
                   "text": "every network, sequence of queue changes, interrupts and parallel networks"},
    "why_tests_cant": "Tests walk a few fixed networks; queue edits and interrupts can come at any point of any path.",
    "anchors": {
        "files": ["src/upstage_des/task_network.py", "src/upstage_des/actor.py", "src/upstage_des/task.py"],
        "mechanism": [{"name": "TaskNetwork.loop, _next_task_name, Actor._begin_next_task, TaskNetworkFactory",
                       "where": "src/upstage_des/task_network.py"}],
        "observe_at": ["log of task starts and ends", "task queues", "running tasks"],
    },
    "technique": "runtime monitor comparing the log of task starts, ends, queues and running tasks with a sequencing model",
}
RULE = (
    "A case is one or two actors with one to three networks of two to six tasks (timed, decision, immediate "
    "decision, terminal), queue edits from inside and outside, and interrupts. Non-trivial: at least three "
    "tasks were started; distinct by log."
)
REQUIRED = {"starts": 20000, "from_queue": 3000, "from_default": 3000, "interrupt_END": 300, "interrupt_RESTART": 300,
            "interrupt_IGNORE": 300, "no_default": 100, "skip_decisions": 500, "decisions": 500, "terminal": 100,
            "queue_kept": 200, "factory": 100, "polls": 5000, "parallel": 500, "init_from_queue": 200,
            "unknown": 200, "named": 1000}
ASSUMPTIONS = ["Whether the loop enforces the allowed links is a known finding; random networks respect them."]

HORIZON = 40.0


def gen_acts(rng: random.Random, names: list[str], waits: list[str], decision: bool) -> Any:
    acts: list[Any] = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        k = rng.choice(["set", "set", "clear", "read", "clearset"])
        pool = waits if decision else names
        acts.append([k, [rng.choice(pool) for _ in range(rng.randint(1, 3))]])
    return acts


def gen_net(rng: random.Random) -> Any:
    n = rng.randint(2, 6)
    names = [f"T{i}" for i in range(n)]
    kinds = ["wait"] + [rng.choice(["wait", "wait", "decision", "skip", "terminal" if rng.random() < 0.4 else "wait"])
                        for _ in range(n - 1)]
    waits = [a for a, k in zip(names, kinds) if k == "wait"]
    tasks = {}
    for a, k in zip(names, kinds):
        default = rng.choice(waits) if k in ("decision", "skip") else rng.choice(names)
        if k == "wait" and rng.random() < 0.06:
            default = None
        tasks[a] = {"kind": k, "dur": dy(rng, 1, 24, 4), "default": default,
                    "start": gen_acts(rng, names, waits, k != "wait") if k != "terminal" else [],
                    "end": gen_acts(rng, names, waits, False) if k == "wait" else []}
    q = [rng.choice(names) for _ in range(rng.randint(1, 3))] if rng.random() < 0.4 else []
    init = rng.choice(names) if not q or rng.random() < 0.4 else None
    if not q and rng.random() < 0.03:
        init = None
    return {"tasks": tasks, "queue": q, "init": init, "at": dy(rng, 0, 8, 4)}


def gen(rng: random.Random) -> Any:
    actors = [[gen_net(rng) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(rng.choice([1, 1, 2]))]
    ext = []
    for j in range(rng.randint(0, 12)):
        a = rng.randrange(len(actors))
        n = rng.randrange(len(actors[a]))
        names = list(actors[a][n]["tasks"])
        k = rng.choice(["interrupt", "interrupt", "set", "clear", "poll", "poll"])
        ext.append([rng.randint(0, 120) / 4 + (j + 1) / 64, a, n, k,
                    rng.choice(["END", "RESTART", "IGNORE"]) if k == "interrupt"
                    else [rng.choice(names) for _ in range(rng.randint(1, 3))]])
    ext.sort(key=lambda x: x[0])
    return {"actors": actors, "ext": ext}


# ---- the model ------------------------------------------------------------------------------


class Net:
    """The documented sequencing of one network."""

    def __init__(self, spec: Any, ext: Any, mon: Mon) -> None:
        self.s, self.ext, self.mon = spec, ext, mon
        self.q = list(spec["queue"])
        self.log: list[Any] = []
        self.error: float | None = None

    def acts(self, t: float, acts: Any) -> None:
        for k, names in acts:
            if k == "set" or k == "clearset":
                if k == "clearset":
                    self.q = []
                if self.q:
                    self.log.append((t, "set-refused"))
                else:
                    self.q = list(names)
            elif k == "clear":
                self.q = []
            else:
                self.log.append((t, "read", list(self.q), self.q[0] if self.q else None))

    def outside(self, t: float, k: str, arg: Any, cur: str | None, running: bool) -> str | None:
        """An action from outside; returns the decision if the task was interrupted."""
        if k == "poll":
            self.log.append((t, "poll", list(self.q), cur if running else None))
        elif k == "set":
            if self.q:
                self.log.append((t, "set-refused"))
            else:
                self.q = list(arg)
        elif k == "clear":
            self.q = []
        elif running:
            return arg
        return None

    def run(self) -> None:
        ext = list(self.ext)
        t = self.s["at"]
        while ext and ext[0][0] < t:
            self.outside(ext[0][0], ext[0][3], ext[0][4], None, False)
            ext.pop(0)
        if self.q:
            self.mon.hit("init_from_queue")
        cur = self.q[0] if self.q else self.s["init"]
        if cur is None:
            self.error = t
            return
        while True:
            # the task starts, and leaves the queue
            if self.q:
                self.q.pop(0)
            task = self.s["tasks"][cur]
            kind = task["kind"]
            again = True
            while again:
                again = False
                self.log.append((t, "start", cur))
                self.acts(t, task["start"])
                if kind == "terminal":
                    end = float("inf")
                elif kind == "wait":
                    end = t + task["dur"]
                else:
                    end = t
                cut = False
                while ext and ext[0][0] < end:
                    at, _, _, k, arg = ext.pop(0)
                    if at > HORIZON:
                        return
                    act = self.outside(at, k, arg, cur, True)
                    if act is None:
                        continue
                    if kind == "terminal":
                        self.error = at
                        return
                    self.log.append((at, "interrupted", cur, act))
                    if act == "END":
                        end, cut = at, True
                        break
                    if act == "RESTART":
                        t, again, cut = at, True, True
                        break
                if again:
                    continue
                if end > HORIZON:
                    return
                t = end
                if not cut:
                    if kind == "wait":
                        self.acts(t, task["end"])
                    self.log.append((t, "end", cur))
            if self.q:
                cur = self.q[0]
                self.mon.hit("from_queue")
            else:
                cur = task["default"]
                if cur is None:
                    self.error = t
                    return
                self.mon.hit("from_default")


def run(spec: Any, mon: Mon) -> None:
    # Where two networks fail, the first failure stops the run, so look at each time up to it only.
    models = {}
    for a, nets in enumerate(spec["actors"]):
        for n, s in enumerate(nets):
            m = Net(s, [e for e in spec["ext"] if e[1] == a and e[2] == n], mon)
            m.run()
            models[a, n] = m
    stop = min((m.error for m in models.values() if m.error is not None), default=None)

    with warnings.catch_warnings(), UP.EnvironmentContext() as env:
        warnings.simplefilter("ignore")
        logs: dict[Any, list[Any]] = {k: [] for k in models}
        decision: dict[Any, str] = {}

        def make(a: int, n: int, name: str, t: Any) -> Any:
            log = logs[a, n]

            def acts(task: UP.Task, actor: UP.Actor, todo: Any) -> None:
                for k, names in todo:
                    if k in ("set", "clearset"):
                        if k == "clearset":
                            task.clear_actor_task_queue(actor)
                        before = list(task.get_actor_task_queue(actor))
                        try:
                            given = list(names)
                            task.set_actor_task_queue(actor, given)
                            given.clear()
                            mon.check(not before, "set-on-queue", "a queue was set over another")
                        except UP.SimulationError:
                            log.append((env.now, "set-refused"))
                            mon.eq(list(task.get_actor_task_queue(actor)), before, "refused-queue", "queue")
                            mon.hit("queue_kept")
                    elif k == "clear":
                        task.clear_actor_task_queue(actor)
                    else:
                        log.append((env.now, "read", list(task.get_actor_task_queue(actor)),
                                    task.get_actor_next_task(actor)))

            if t["kind"] in ("decision", "skip"):
                class Decide(UP.DecisionTask):
                    DO_NOT_HOLD = t["kind"] == "skip"

                    def make_decision(self, *, actor: UP.Actor) -> None:
                        log.append((env.now, "start", name))
                        mon.hit("skip_decisions" if self.DO_NOT_HOLD else "decisions")
                        acts(self, actor, t["start"])
                        log.append((env.now, "end", name))

                return Decide
            if t["kind"] == "terminal":
                class End(UP.TerminalTask):
                    def log_message(self, *, actor: UP.Actor) -> str:
                        log.append((env.now, "start", name))
                        mon.hit("terminal")
                        return "the end"

                return End

            class Work(UP.Task):
                def task(self, *, actor: UP.Actor) -> TASK_GEN:
                    log.append((env.now, "start", name))
                    mon.check(getattr(self, "result", None) is None, "instance-reused", "task keeps old attributes")
                    acts(self, actor, t["start"])
                    yield UP.Wait(t["dur"])
                    self.result = name
                    acts(self, actor, t["end"])
                    log.append((env.now, "end", name))

                def on_interrupt(self, *, actor: UP.Actor, cause: Any) -> UP.InterruptStates:
                    log.append((env.now, "interrupted", name, cause))
                    mon.hit(f"interrupt_{cause}")
                    return getattr(self.INTERRUPT, cause)

            return Work

        actors = []
        names: dict[Any, str] = {}
        for a, nets in enumerate(spec["actors"]):
            actor = UP.Actor(name=f"A{a}")
            actors.append(actor)
            for n, s in enumerate(nets):
                classes = {k: make(a, n, k, t) for k, t in s["tasks"].items()}
                links = {k: UP.TaskLinks(default=t["default"], allowed=list(s["tasks"])) for k, t in s["tasks"].items()}
                fac = UP.TaskNetworkFactory("net", classes, links)
                nm = actor.suggest_network_name(fac)
                mon.check(not actor.has_task_network(nm), "suggested-name", f"{nm} is taken")
                actor.add_task_network(fac.make_network(other_name=nm))
                mon.check(actor.has_task_network(nm), "has-network", nm)
                names[a, n] = nm
                mon.raises(UP.SimulationError, lambda: actor.add_task_network(fac.make_network(other_name=nm)),
                           "duplicate-network", "adding a second network of the same name")
                if s["queue"]:
                    actor.set_task_queue(nm, s["queue"])
            mon.hit("parallel", int(len(nets) > 1))
            mon.eq({k: list(v) for k, v in actor.get_all_task_queues().items()},
                   {names[a, n]: s["queue"] for n, s in enumerate(nets)}, "all-queues", "queues")

        def starter() -> Any:
            for at, a, n in sorted((s["at"], a, n) for a, nets in enumerate(spec["actors"]) for n, s in enumerate(nets)):
                yield env.timeout(at - env.now)
                if spec["actors"][a][n]["init"] is None:
                    actors[a].start_network_loop(names[a, n])
                else:
                    actors[a].start_network_loop(names[a, n], spec["actors"][a][n]["init"])

        def outside() -> Any:
            for at, a, n, k, arg in spec["ext"]:
                yield env.timeout(at - env.now)
                log, actor, nm = logs[a, n], actors[a], names[a, n]
                started = at > spec["actors"][a][n]["at"]
                cur = actor.get_running_task(nm)
                mon.eq(cur is not None, started, "running", f"{nm} at {at}")
                if k == "poll":
                    mon.hit("polls")
                    log.append((env.now, "poll", list(actor.get_task_queue(nm)), cur.name if cur else None))
                    run_all = actor.get_running_tasks()
                    for m in range(len(spec["actors"][a])):
                        one = actor.get_running_task(names[a, m])
                        two = run_all.get(names[a, m])
                        mon.eq(one and one.name, two and two.name, "running-tasks", names[a, m])
                        mon.eq(one and one.process, two and two.process, "running-process", names[a, m])
                        if one:
                            mon.check(one.process.is_alive, "running-dead", f"process of {one.name} has ended")
                    mon.eq(actor.get_next_task(nm), (actor.get_task_queue(nm) or [None])[0], "next-task", nm)
                    mon.eq(list(actor.get_all_task_queues()[nm]), list(actor.get_task_queue(nm)), "all-queues", nm)
                elif k == "set":
                    try:
                        actor.set_task_queue(nm, arg)
                    except UP.SimulationError:
                        log.append((env.now, "set-refused"))
                elif k == "clear":
                    actor.clear_task_queue(nm)
                elif started:
                    actor.interrupt_network(nm, cause=arg)
                else:
                    mon.raises(UP.UpstageError, lambda: actor.interrupt_network(nm, cause=arg),
                               "interrupt-idle", "interrupting a network that does not run")

        env.process(starter())
        env.process(outside())
        if stop is None or stop > HORIZON:
            env.run(until=HORIZON + 1 / 128)
            end = HORIZON
        else:
            mon.raises(UP.SimulationError, lambda: env.run(until=HORIZON + 1), "no-error",
                       f"no next task (or a terminal interrupt) at {stop}")
            mon.hit("no_default")
            mon.eq(env.now, stop, "error-time", "time of the error")
            end = stop
        total = 0
        for k, m in models.items():
            # at the instant of a failure the other networks may or may not have had their turn
            cut = end + 1 if stop is None or m.error == stop else end
            want = [x for x in m.log if (x[0] < cut if stop is not None else x[0] <= HORIZON)]
            got = [x for x in logs[k] if (x[0] < cut if stop is not None else x[0] <= HORIZON)]
            for i, (g, x) in enumerate(zip(got, want)):
                mon.check(g == x, "sequence", lambda: f"entry {i}: observed {g}, expected {x}; before {got[max(0, i - 3):i]}")
            if stop is not None and m.error == stop and sum(1 for o in models.values() if o.error == stop) > 1:
                mon.check(len(got) <= len(want), "sequence-length", f"{got[-2:]} vs {want[-2:]}")
            else:
                mon.eq(len(got), len(want), "sequence-length", f"{got[-3:]} vs {want[-3:]}")
            total += sum(1 for x in got if x[1] == "start")
        mon.hit("starts", total)
        mon.nontrivial = total >= 3
        mon.see(sorted(logs.items()))
        mon.sample = {"log": [list(x) for x in logs[0, 0][:8]], "error_at": stop}


# ---- the ready-made factories -----------------------------------------------------------------


def gen_factory(rng: random.Random) -> Any:
    return {"how": rng.choice(["loop1", "end1", "order_end", "order_loop"]),
            "durs": [dy(rng, 1, 24, 4) for _ in range(rng.randint(1, 5))], "until": dy(rng, 1, 200),
            "n": rng.randint(1, 3)}


def run_factory(spec: Any, mon: Mon) -> None:
    with UP.EnvironmentContext() as env:
        log: list[Any] = []

        def make(i: int, d: float) -> Any:
            class Work(UP.Task):
                def task(self, *, actor: UP.Actor) -> TASK_GEN:
                    log.append((env.now, actor.name, i))
                    yield UP.Wait(d)

            Work.__name__ = f"Work{i}"
            return Work

        cls = [make(i, d) for i, d in enumerate(spec["durs"])]
        durs = list(spec["durs"])
        F = UP.TaskNetworkFactory
        if spec["how"] == "loop1":
            fac, durs, loops = F.from_single_looping("f", cls[0]), durs[:1], True
        elif spec["how"] == "end1":
            fac, durs, loops = F.from_single_terminating("f", cls[0]), durs[:1], False
        elif spec["how"] == "order_end":
            fac, loops = F.from_ordered_terminating("f", cls), False
        else:
            fac, loops = F.from_ordered_loop("f", cls), True
        actors = [UP.Actor(name=f"a{i}", debug_log=True) for i in range(spec["n"])]
        for a in actors:
            a.add_task_network(fac.make_network())
            a.start_network_loop("f", "Work0")
        env.run(until=spec["until"])
        want: list[Any] = []
        t, i = 0.0, 0
        while t < spec["until"]:
            want += [(t, a.name, i) for a in actors]
            t += durs[i]
            i += 1
            if i == len(durs):
                if not loops:
                    break
                i = 0
        mon.eq(log, want, "factory-sequence", spec["how"])
        if not loops and t < spec["until"]:
            for a in actors:
                data = a.get_running_task("f")
                mon.check(data is not None and data.process.is_alive, "terminal-alive", "terminal task has ended")
                mon.check(data.name not in {c.__name__ for c in cls}, "terminal-name", data.name)
                mon.raises(UP.SimulationError, lambda: (a.interrupt_network("f"), env.run(until=env.now + 1)),
                           "terminal-interrupt", "a terminal task cannot be interrupted")
                break
        # another network with another name, and a deleted one
        a = actors[0]
        mon.eq(a.suggest_network_name(fac), "f_1", "suggest", "name for a second network")
        a.add_task_network(fac.make_network(other_name="f_1"))
        mon.eq(a.suggest_network_name(fac), "f_2", "suggest", "name for a third network")
        a.delete_task_network("f")
        mon.check(not a.has_task_network("f") and a.has_task_network("f_1"), "delete", "networks after a delete")
        mon.eq(list(a.get_all_task_queues()), ["f_1"], "delete-queues", "queues after a delete")
        mon.raises(UP.SimulationError, lambda: a.delete_task_network("f"), "delete-again", "deleting twice")
        mon.raises(UP.SimulationError, lambda: a.get_running_task("f"), "deleted-running", "asking a deleted network")
        mon.hit("factory")
        mon.nontrivial = len(log) >= 3
        mon.see(log)


# ---- names that are not there -----------------------------------------------------------------


def gen_unknown(rng: random.Random) -> Any:
    names = [f"T{i}" for i in range(rng.randint(1, 4))]
    path = [rng.choice(names) for _ in range(rng.randint(0, 4))]
    return {"names": names, "path": path, "how": rng.choice(["queue", "task", "outside", "init"] if path else ["queue", "init"]),
            "after": [rng.choice(names) for _ in range(rng.randint(0, 2))],
            "default": {a: rng.choice([*names, None]) for a in names}, "dur": dy(rng, 1, 16, 4)}


def run_unknown(spec: Any, mon: Mon) -> None:
    """A queue (or a start) naming no task of the network stops the simulation when its turn comes."""
    with UP.EnvironmentContext() as env:
        log: list[Any] = []
        path = list(spec["path"])
        tail = ["nope", *spec["after"]]
        d = spec["dur"]

        def make(name: str) -> Any:
            class Work(UP.Task):
                def task(self, *, actor: UP.Actor) -> TASK_GEN:
                    log.append((env.now, name))
                    yield UP.Wait(d)
                    if spec["how"] == "task" and len(log) == len(path):
                        self.clear_actor_task_queue(actor)
                        self.set_actor_task_queue(actor, tail)

            return Work

        links = {k: UP.TaskLinks(default=spec["default"][k], allowed=spec["names"]) for k in spec["names"]}
        a = UP.Actor(name="a")
        a.add_task_network(UP.TaskNetworkFactory("n", {k: make(k) for k in spec["names"]}, links).make_network())
        if spec["how"] == "init":
            path, at = [], 0.0
        else:
            at = d * len(path)
        if spec["how"] == "queue":
            a.set_task_queue("n", [*path, *tail])
        elif spec["how"] in ("task", "outside"):
            a.set_task_queue("n", path)

        def outside() -> Any:
            yield env.timeout(at - d / 2)
            a.clear_task_queue("n")
            a.set_task_queue("n", tail)

        if spec["how"] == "outside":
            env.process(outside())

        def go() -> None:
            if spec["how"] == "init":
                a.start_network_loop("n", "nope")
            else:
                a.start_network_loop("n")
            env.run(until=at + 3 * d + 1)

        mon.raises(Exception, go, "unknown-task", f"a task that is not there ({spec['how']})")
        mon.eq(env.now, at, "unknown-time", "time of the error")
        mon.eq(log, [(i * d, k) for i, k in enumerate(path)], "unknown-course", "tasks run")
        mon.hit("unknown")
        mon.nontrivial = True
        mon.see(spec["how"], log)


def gen_names(rng: random.Random) -> Any:
    return [[rng.choice(["add", "add", "add", "delete", "other", "taken"]), rng.choice(["f", "g", "f_1", "f_2"]),
             rng.randrange(100)] for _ in range(rng.randint(3, 14))]


def run_names(spec: Any, mon: Mon) -> None:
    """A suggested name is free, whatever networks come and go."""
    with UP.EnvironmentContext() as env:
        class Work(UP.Task):
            def task(self, *, actor: UP.Actor) -> TASK_GEN:
                yield UP.Wait(1.0)

        a = UP.Actor(name="a")
        have: dict[str, list[str]] = {}
        facs = {k: UP.TaskNetworkFactory.from_single_looping(k, Work) for k in ("f", "g", "f_1", "f_2")}
        for i, (k, base, r) in enumerate(spec):
            fac = facs[base]
            if k == "delete":
                if have:
                    nm = sorted(have)[r % len(have)]
                    a.delete_task_network(nm)
                    del have[nm]
                else:
                    mon.raises(UP.SimulationError, lambda: a.delete_task_network(base), "delete-none", base)
            else:
                nm = a.suggest_network_name(fac)
                mon.check(nm not in have, "suggested-name", f"{nm} is taken; there are {sorted(have)}")
                mon.check(nm.startswith(base), "suggested-base", f"{nm} for {base}")
                if base not in have:
                    mon.eq(nm, base, "suggested-free", "the factory's own name is free")
                if k == "other":
                    nm = f"{base}_{r % 5}"
                if k == "taken" and have:
                    nm = sorted(have)[r % len(have)]
                if nm in have:
                    mon.raises(UP.SimulationError, lambda: a.add_task_network(fac.make_network(other_name=nm)),
                               "duplicate-network", nm)
                else:
                    a.add_task_network(fac.make_network(other_name=nm))
                    have[nm] = ["Work"] * (r % 3)
                    a.set_task_queue(nm, list(have[nm]))
            for nm in ("f", "g", "f_1", "f_2", "f_3", "g_1"):
                mon.eq(a.has_task_network(nm), nm in have, "has-network", nm)
            mon.eq({x: list(y) for x, y in a.get_all_task_queues().items()}, have, "all-queues", "queues")
            mon.eq({x: a.get_next_task(x) for x in have}, {x: (y or [None])[0] for x, y in have.items()},
                   "next-task", "next tasks")
            mon.hit("named")
        for i, nm in enumerate(sorted(have)):
            a.start_network_loop(nm, "Work")
        env.run(until=2.5)
        mon.eq({k: v.name for k, v in a.get_running_tasks().items()}, {k: "Work" for k in have}, "running", "running tasks")
        mon.nontrivial = len(have) > 1
        mon.see(sorted(have), spec)


def run_allowed(spec: Any, mon: Mon) -> None:
    """The documentation says a queue that breaks the allowed links is an error."""
    with UP.EnvironmentContext() as env:
        class Work(UP.Task):
            def task(self, *, actor: UP.Actor) -> TASK_GEN:
                yield UP.Wait(1.0)

        links = {"A": UP.TaskLinks(default="B", allowed=["B"]), "B": UP.TaskLinks(default="A", allowed=["A"]),
                 "C": UP.TaskLinks(default="A", allowed=["A"])}
        a = UP.Actor(name="a")
        a.add_task_network(UP.TaskNetworkFactory("n", {k: Work for k in links}, links).make_network())
        a.set_task_queue("n", ["A", "C"])
        a.start_network_loop("n")
        mon.nontrivial = True
        mon.see("allowed")
        mon.raises(UP.SimulationError, lambda: env.run(until=5), "allowed-ignored", "C is not allowed after A")


SCENARIOS = [Scenario("networks", gen, run, quick=16000, thorough=275000),
             Scenario("factories", gen_factory, run_factory, quick=400, thorough=11000),
             Scenario("unknown", gen_unknown, run_unknown, quick=600, thorough=16500),
             Scenario("names", gen_names, run_names, quick=600, thorough=16500)]
PROBES = [Scenario("allowed", lambda rng: {}, run_allowed)]
