"""C11: knowledge is a guarded private dictionary, and knowledge events release exactly their holder."""

import random
from typing import Any

import upstage_des.api as UP

from ..core import Mon, Scenario
from ..util import TASK_GEN, dy

PROPERTY = {
    "title": "Knowledge is guarded and private; knowledge events free their holder",
    "statement": (
        "An actor's knowledge holds exactly what was set and not cleared on that actor, one by one or in "
        "bulk, from actor or task; setting existing knowledge without overwrite, or clearing or requiring "
        "missing knowledge, is an error that changes no existing entry. Succeeding a knowledge event "
        "releases the task holding on it at that moment with the payload, no other, and removes it from "
        "knowledge; an interrupted hold is removed too, unless the interrupt is ignored."
    ),
    "quantifier": {"over": ["histories", "schedules", "inputs"],
                   "text": "every program of knowledge operations and every schedule of successes and interrupts"},
    "why_tests_cant": "Tests make a handful of single calls on one actor.",
    "anchors": {
        "files": ["src/upstage_des/actor.py", "src/upstage_des/task.py", "src/upstage_des/events.py"],
        "mechanism": [{"name": "Actor knowledge methods, create_knowledge_event, succeed_knowledge_event, "
                               "Task._handle_interruption", "where": "src/upstage_des/actor.py"}],
        "observe_at": ["get_knowledge and its relatives", "resumption of tasks"],
    },
    "technique": "reference-dictionary monitor and wake-up monitor over generated schedules",
}
RULE = (
    "A case is a program of knowledge calls on three actors, or workers that hold on knowledge events "
    "while a driver succeeds and interrupts them (also at the same instant). Non-trivial: a value was "
    "read back or a worker was released; distinct by calls and releases."
)
REQUIRED = {"reads": 3000, "done_events": 50, "guard_errors": 1000, "releases": 800, "interrupted_holds": 300,
            "ignored_interrupts": 100, "wrong_succeeds": 200, "bulk": 500}
ASSUMPTIONS = ["A bulk call that raises may have handled some of its entries; only entries it did not "
               "name and entries that existed before are then judged."]

NAMES = ["a", "b", "c", "d"]


def gen(rng: random.Random) -> Any:
    ops = []
    for _ in range(rng.randint(8, 40)):
        ops.append([rng.choice(["set", "set", "over", "get", "must", "clear", "pop", "bset", "bset", "bget",
                                "bclear", "bpop", "bover", "bmust", "clone", "event"]),
                    rng.randrange(3), rng.choice(NAMES), rng.choice([None, 0, 1, "x", [1], {"k": 2}, 7.5]),
                    rng.sample(NAMES, rng.randint(0, 3)), rng.randrange(2)])
    return {"init": [rng.sample(NAMES, rng.randint(0, 2)) for _ in range(3)], "ops": ops,
            "log": rng.random() < 0.3, "shared": rng.random() < 0.4}


def run(spec: Any, mon: Mon) -> None:
    E = UP.SimulationError
    with UP.EnvironmentContext() as env:
        given = [{n: f"init{n}" for n in names} for names in spec["init"]]
        if spec["shared"]:
            given = [given[0]] * 3
        model = [dict(g) for g in given]
        actors = [UP.Actor(name=f"k{i}", initial_knowledge=given[i] if given[i] else None,
                           debug_log=spec["log"]) for i in range(3)]
        for g in given:
            if g:
                g["d"] = "changed afterwards by the caller"
                g.pop("a", None)
        task = UP.Task()
        over_with: dict[int, Any] = {}
        for op, i, n, v, names, via in spec["ops"]:
            a, m = actors[i], model[i]
            # without is left out or said
            over: dict[str, Any] = {"overwrite": op in ("over", "bover")} if op in ("over", "bover") or len(names) % 2 else {}
            must: dict[str, Any] = {"must_exist": op in ("must", "bmust")} if op in ("must", "bmust") or len(names) % 2 else {}
            if op in ("set", "over"):
                def call() -> None:
                    if via:
                        task.set_actor_knowledge(a, n, v, **over)
                    else:
                        a.set_knowledge(n, v, **over)
                if n in m and op == "set" and len(names) == 3:
                    v = m[n]  # the same again is no exception
                if n in m and op == "set":
                    mon.raises(E, call, "overwrite-guard", f"set {n} again")
                    mon.hit("guard_errors")
                else:
                    call()
                    m[n] = v
            elif op in ("get", "must"):
                def get() -> Any:
                    f = (lambda *x, **k: task.get_actor_knowledge(a, *x, **k)) if via else a.get_knowledge
                    return f(n, **must)
                if op == "must" and n not in m:
                    mon.raises(E, get, "must-exist-guard", f"get {n}")
                    mon.hit("guard_errors")
                else:
                    got = get()
                    mon.eq(got, m.get(n), "value", n)
                    mon.hit("reads")
                    mon.nontrivial = True
                    mon.see(n, "event" if isinstance(got, UP.Event) else repr(got))
            elif op in ("clear", "pop"):
                def drop() -> Any:
                    if op == "clear":
                        return task.clear_actor_knowledge(a, n) if via else a.clear_knowledge(n)
                    return task.get_and_clear_actor_knowledge(a, n) if via else a.get_and_clear_knowledge(n)
                if n not in m:
                    mon.raises(E, drop, "clear-guard", f"{op} {n}")
                    mon.hit("guard_errors")
                else:
                    got = drop()
                    if op == "pop":
                        mon.eq(got, m[n], "popped-value", n)
                    del m[n]
            elif op == "event":
                if isinstance(m.get(n), UP.Event) and id(m[n]) not in over_with and via:
                    # over and done with, but still known
                    over_with[id(m[n])] = m[n]
                    m[n].succeed()
                    env.run(until=env.now + 0.5)
                    mon.hit("done_events", int(m[n].is_complete()))
                if n in m:
                    mon.raises(E, lambda: a.create_knowledge_event(name=n), "event-overwrite-guard", n)
                    mon.hit("guard_errors")
                else:
                    m[n] = a.create_knowledge_event(name=n)
            elif op in ("bset", "bover"):
                know = {x: m[x] if x in m and v in (None, 0) else [v, x] for x in names}
                def bset() -> None:
                    if via:
                        task.set_actor_bulk_knowledge(a, know, **over)
                    else:
                        a.set_bulk_knowledge(know, **over)
                mon.hit("bulk")
                if op == "bset" and any(x in m for x in names):
                    mon.raises(E, bset, "bulk-overwrite-guard", str(names))
                    mon.hit("guard_errors")
                    for x in names:  # what was set before the error is unspecified
                        if x not in m and a.get_knowledge(x) is not None:
                            mon.eq(a.get_knowledge(x), know[x], "bulk-partial", x)
                            m[x] = know[x]
                else:
                    bset()
                    m.update(know)
            elif op in ("bget", "bmust"):
                def bget() -> Any:
                    if via:
                        return task.get_actor_bulk_knowledge(a, names, **must)
                    return a.get_bulk_knowledge(names, **must)
                mon.hit("bulk")
                if op == "bmust" and any(x not in m for x in names):
                    mon.raises(E, bget, "bulk-must-exist-guard", str(names))
                    mon.hit("guard_errors")
                else:
                    mon.eq(bget(), {x: m.get(x) for x in names}, "bulk-values", str(names))
                    mon.hit("reads")
            elif op in ("bclear", "bpop"):
                def bdrop() -> Any:
                    if op == "bclear":
                        return (task.clear_actor_bulk_knowledge(a, names) if via
                                else a.clear_bulk_knowledge(names))
                    return (task.get_and_clear_actor_bulk_knowledge(a, names) if via
                            else a.get_and_clear_bulk_knowledge(names))
                mon.hit("bulk")
                if any(x not in m for x in names):
                    mon.raises(E, bdrop, "bulk-clear-guard", str(names))
                    mon.hit("guard_errors")
                    for x in names:
                        if x in m and m[x] is not None and a.get_knowledge(x) is None:
                            del m[x]
                        elif x in m and m[x] is None:
                            # cannot be told apart by get: settle it
                            a.set_knowledge(x, None, overwrite=True)
                else:
                    got = bdrop()
                    if op == "bpop":
                        mon.eq(got, {x: m[x] for x in names}, "bulk-popped", str(names))
                    for x in names:
                        del m[x]
            elif op == "clone":
                c = a.clone(knowledge={"extra": 1})
                def plain(v: Any) -> Any:
                    return "event" if isinstance(v, UP.Event) else v
                mon.eq({x: plain(c.get_knowledge(x)) for x in NAMES}, {x: plain(m.get(x)) for x in NAMES}, "clone", "")
                mon.eq(c.get_knowledge("extra"), 1, "clone-extra", "")
                c.set_knowledge(n, "clone only", overwrite=True)
            for j in range(3):
                for x in [*NAMES, "extra"]:
                    mon.eq(actors[j].get_knowledge(x), model[j].get(x), "state", f"{actors[j].name} {x}")
                    if x in model[j]:
                        actors[j].get_knowledge(x, must_exist=True)
        for j in range(3):
            for x in NAMES:
                if x not in model[j]:
                    mon.raises(E, lambda: actors[j].get_knowledge(x, must_exist=True), "must-exist-guard", x)


def gen_ev(rng: random.Random) -> Any:
    n = rng.randint(1, 4)
    acts = []
    t = 0.0
    for _ in range(rng.randint(4, 24)):
        t += rng.choice([0, 0, 0.5, 1, 2])
        acts.append([t, rng.choice(["ok", "ok", "ok", "wrong", "plain", "int", "int"]), rng.randrange(n),
                     rng.randint(0, 99), rng.choice(["END", "RESTART", "RESTART", "IGNORE", "IGNORE"])])
    return {"plans": [[rng.choice(NAMES) for _ in range(rng.randint(1, 5))] for _ in range(n)],
            "pause": [dy(rng, 1, 8) if rng.random() < 0.4 else 0 for _ in range(n)], "acts": acts}


def run_ev(spec: Any, mon: Mon) -> None:
    waiting: dict[int, Any] = {}  # worker -> name it holds on
    pending: dict[int, Any] = {}  # worker -> (name, payload, time) already succeeded
    answer = {"act": "END"}
    ended: set[int] = set()

    class Hold(UP.Task):
        def task(self, *, actor: UP.Actor) -> TASK_GEN:
            i = int(actor.name)
            for name in spec["plans"][i]:
                evt = actor.create_knowledge_event(name=name)
                mon.check(actor.get_knowledge(name) is evt, "event-not-in-knowledge", name)
                waiting[i] = name
                yield evt
                got = pending.pop(i, None)
                mon.check(got is not None, "woken-without-success", f"worker {i} on {name} at {env.now}")
                mon.eq((name, evt.get_payload(), env.now), got, "released", f"worker {i}")
                mon.hit("releases")
                mon.nontrivial = True
                mon.see(i, name, env.now)
                waiting.pop(i)
                if spec["pause"][i]:
                    yield UP.Wait(spec["pause"][i])
            ended.add(i)

        def on_interrupt(self, *, actor: UP.Actor, cause: Any) -> Any:
            i = int(actor.name)
            if answer["act"] == "IGNORE":
                mon.hit("ignored_interrupts")
                return self.INTERRUPT.IGNORE
            if i in waiting:
                mon.hit("interrupted_holds")
            seen.append((i, waiting.pop(i, None), pending.pop(i, None)))
            if answer["act"] == "RESTART":
                return self.INTERRUPT.RESTART
            ended.add(i)
            return self.INTERRUPT.END

    seen: list[Any] = []
    with UP.EnvironmentContext() as env:
        workers = [UP.Actor(name=str(i)) for i in range(len(spec["plans"]))]
        procs = [Hold().run(actor=w) for w in workers]

        def drive() -> Any:
            yield env.timeout(0.25)
            for t, kind, i, num, act in spec["acts"]:
                if t + 0.25 > env.now:
                    yield env.timeout(t + 0.25 - env.now)
                    mon.eq(pending, {}, "not-released", f"succeeded before {env.now}")
                w = workers[i]
                if kind == "ok" and i in waiting and i not in pending:
                    name = waiting[i]
                    pending[i] = (name, {"num": num}, env.now)
                    w.succeed_knowledge_event(name=name, num=num)
                    mon.eq(w.get_knowledge(name), None, "succeeded-event-in-knowledge", name)
                elif kind == "wrong":
                    for n in NAMES:
                        if i not in waiting or waiting[i] != n or i in pending:
                            mon.raises(UP.SimulationError, lambda: w.succeed_knowledge_event(name=n),
                                       "succeed-missing", n)
                            mon.hit("wrong_succeeds")
                elif kind == "plain":
                    w.set_knowledge("fact", num, overwrite=True)
                    mon.raises(UP.SimulationError, lambda: w.succeed_knowledge_event(name="fact"),
                               "succeed-not-an-event", "fact")
                elif kind == "int" and procs[i].is_alive:
                    answer["act"] = act
                    held = waiting.get(i)
                    was_pending = i in pending
                    procs[i].interrupt("poke")
                    # let the interrupt happen before anything else is judged
                    yield env.timeout(0)
                    if held is not None and not was_pending:
                        k = w.get_knowledge(held)
                        if act == "IGNORE":
                            mon.check(k is not None, "ignored-interrupt-lost-event", held)
                        elif act == "END":
                            mon.eq(k, None, "interrupted-event-in-knowledge", held)

        env.process(drive())
        env.run()
        mon.eq(pending, {}, "not-released", "at the end")
        for i, w in enumerate(workers):
            mon.eq(procs[i].is_alive, i not in ended, "worker-alive", str(i))
            for n in NAMES:
                mon.eq(w.get_knowledge(n) is not None, waiting.get(i) == n, "leftover", f"{i} {n}")
        mon.sample = {"ended": sorted(ended), "still_waiting": waiting}


SCENARIOS = [Scenario("values", gen, run, quick=12000, thorough=294000),
             Scenario("events", gen_ev, run_ev, quick=20000, thorough=588000)]
