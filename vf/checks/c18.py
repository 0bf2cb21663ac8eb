"""C18: a nucleus interrupts exactly the watching networks on every change of a watched state."""

import random
from typing import Any

import upstage_des.api as UP

from ..core import Mon, Scenario
from ..util import TASK_GEN, dy

PROPERTY = {
    "title": "A nucleus interrupts exactly the watching networks at each state change",
    "statement": (
        "Each time a state of an actor with a nucleus is changed, the running task of every network that watches "
        "that state then gets one interrupt at that instant, in the order the networks were added, whose cause "
        "names the state and carries the new value; rejected changes, other states, other actors and networks that "
        "were removed or are not running cause none. A second nucleus on an actor, or a network the actor does not "
        "have, is refused."
    ),
    "quantifier": {"over": ["inputs", "histories", "schedules"],
                   "text": "every set of networks, watch lists that change over time, and sequence of state changes"},
    "why_tests_cant": "The tests see one change of one state with one watching network.",
    "anchors": {
        "files": ["src/upstage_des/nucleus.py", "src/upstage_des/states.py", "src/upstage_des/actor.py"],
        "mechanism": [{"name": "TaskNetworkNucleus.send_change, State._broadcast_change",
                       "where": "src/upstage_des/nucleus.py"}],
        "observe_at": ["log of on_interrupt calls with cause"],
    },
    "technique": "runtime monitor comparing the log of nucleus interrupts with a watch-list model",
}
RULE = (
    "A case is one or two actors with two to five networks, watch lists edited over time, and a history of state "
    "changes from processes and other networks' tasks, some passed on by the interrupted tasks. Non-trivial: at "
    "least two interrupts; distinct by log."
)
REQUIRED = {"changes": 3000, "notified": 5000, "unwatched": 300, "removed": 300, "rejected": 200, "chained": 200,
            "bursts": 300, "ended_twice": 20, "mimic": 100, "linear": 200, "from_task": 300, "refused": 300,
            "twice_added": 100, "not_running": 50,
            "falsy": 1000, "clash": 500, "fired": 1000, "wait_timer": 500, "wait_any": 500}
ASSUMPTIONS = [
    "A task does not change a state its own network watches (SimPy forbids self-interrupts; documented).",
    "Values change at every assignment; whether assigning an equal value notifies is not judged.",
]

PLAIN = ["n", "word", "items"]


def gen(rng: random.Random) -> Any:
    nets = []
    for i in range(rng.randint(2, 5)):
        nets.append({"action": rng.choice(["RESTART", "RESTART", "IGNORE", "END"]), "actor": rng.choice([0, 0, 0, 1]),
                     "start": rng.random() < 0.92, "wait": rng.choice(["event", "event", "timer", "any"]),
                     "chain": rng.choice([None, None, None, "c0", "c1"])})
    ops = []
    t = 1.0
    for j in range(rng.randint(5, 30)):
        t += rng.choice([1, 1, 2, 5]) / 4
        k = rng.choice(["set", "set", "set", "set", "burst", "add", "add", "remove", "reject", "lin", "mimic",
                        "second", "unknown", "task", "fire"])
        ops.append([t, k, rng.choice([0, 0, 0, 1]), rng.choice([*PLAIN, "n", "lin"]), rng.randrange(len(nets)),
                    [rng.choice([*PLAIN, "lin", "copy", "other"]) for _ in range(rng.randint(1, 3))],
                    rng.randint(2, 3), rng.random() < 0.5])
    return {"nets": nets, "ops": ops, "rate": rng.choice([1.0, -0.5, 2.0]), "clash": rng.random() < 0.3}


FALSY = [None, 0, "", False, [], 0.0, {}]


def run(spec: Any, mon: Mon) -> None:
    log: list[Any] = []
    want: list[Any] = []
    count = [0]
    falsy = [0]
    waiting: dict[int, Any] = {}
    # a network may be called like a state
    names = ["n", "word", "lin", "items", "other"] if spec["clash"] else [f"net{i}" for i in range(5)]
    mon.hit("clash", int(spec["clash"]))

    class Base(UP.Actor):
        n = UP.State(default=0, valid_types=int, recording=True)
        word = UP.State(default="w0")
        items = UP.State(default=0)

    class Unit(Base):
        other = UP.State(default=0)
        lin = UP.LinearChangingState(default=0.0)
        copy = UP.State(default=0)
        fixed = UP.State(default=1, frozen=True)
        c0 = UP.State(default=0)
        c1 = UP.State(default=0)

    def fresh(state: str) -> Any:
        count[0] += 1
        if state == "other":
            # no value is less of a value; on one actor or the other, never the same twice in a row
            falsy[0] += 1
            mon.hit("falsy")
            return FALSY[falsy[0] % 7] if falsy[0] % 2 else f"o{falsy[0]}"
        return {"word": f"w{count[0]}", "items": [count[0]], "lin": float(count[0])}.get(state, count[0])

    def make(i: int, net: Any) -> type[UP.Task]:
        class Watch(UP.Task):
            def task(self, *, actor: Unit) -> TASK_GEN:
                waiting[i] = UP.Event()
                mon.hit(f"wait_{net['wait']}")
                if net["wait"] == "event":
                    yield waiting[i]
                elif net["wait"] == "timer":
                    yield UP.Wait(1e6)
                else:
                    yield UP.Any(waiting[i], UP.Wait(1e6))

            def on_interrupt(self, *, actor: Unit, cause: Any) -> Any:
                mon.check(isinstance(cause, UP.NucleusInterrupt), "cause-type", lambda: f"cause {cause!r}")
                log.append((env.now, i, cause.state_name, cause.value))
                if net["chain"] and actor is actors[net["actor"]]:
                    v = chain_value(len(log))
                    setattr(actor, net["chain"], v)
                return self.INTERRUPT[net["action"]]

        return Watch

    def chain_value(n: int) -> int:
        return 10_000 + n

    class Setter(UP.Task):
        """Changes states from within a network of its own."""

        def task(self, *, actor: Unit) -> TASK_GEN:
            ev = actor.create_knowledge_event(name="go")
            yield ev
            for s, v in ev.get_payload()["what"]:
                setattr(actor, s, v)

    with UP.EnvironmentContext() as env:
        actors = [Unit(name="a0"), Unit(name="a1")]
        source = Base(name="source")
        nuclei = [UP.TaskNetworkNucleus(actor=a) for a in actors]
        for a, nuc in zip(actors, nuclei):
            mon.check(a.get_nucleus() is nuc, "get-nucleus", "the nucleus of an actor")
        objs = []
        for i, net in enumerate(spec["nets"]):
            obj = UP.TaskNetworkFactory.from_single_looping(names[i], make(i, net)).make_network()
            actors[net["actor"]].add_task_network(obj)
            objs.append(obj)
            if net["start"]:
                actors[net["actor"]].start_network_loop(names[i], "Watch")
        for a in actors:
            a.add_task_network(UP.TaskNetworkFactory.from_single_looping("setter", Setter).make_network())
            a.start_network_loop("setter", "Setter")

        # the model: per actor and state, the watching networks in the order they were added
        watch: list[dict[str, list[int]]] = [{}, {}]
        queue: list[Any] = []
        ended: set[int] = set()

        def expect(ai: int, state: str, v: Any) -> None:
            for i in watch[ai].get(state, []):
                if not spec["nets"][i]["start"]:
                    mon.hit("not_running")
                    continue
                queue.append((i, ai, state, v))
            if not watch[ai].get(state):
                mon.hit("unwatched")

        def drain(now: float) -> None:
            while queue:
                i, ai, state, v = queue.pop(0)
                if i in ended:
                    # its task has ended at this instant
                    mon.hit("ended_twice")
                    continue
                want.append((now, i, state, v))
                mon.hit("notified")
                net = spec["nets"][i]
                if net["action"] == "END":
                    ended.add(i)
                if net["chain"]:
                    mon.hit("chained")
                    expect(ai, net["chain"], chain_value(len(want)))
            ended.clear()

        def change(ai: int, state: str, v: Any) -> None:
            mon.hit("changes")
            setattr(actors[ai], state, v)
            expect(ai, state, v)

        def add(ai: int, i: int, states: list[str], by_name: bool) -> None:
            nuclei[ai].add_network(names[i] if by_name else objs[i], states)
            for s in states:
                w = watch[ai].setdefault(s, [])
                if i in w:
                    mon.hit("twice_added")
                else:
                    w.append(i)

        def driver() -> Any:
            user = UP.Task()
            yield env.timeout(0.5)
            for i, net in enumerate(spec["nets"]):
                # a network may watch what it does not chain to
                extra = [c for c in ("c0", "c1") if net["chain"] is None]
                add(net["actor"], i, [*spec["ops"][i % len(spec["ops"])][5], *extra], i % 2 == 0)
            for at, k, ai, state, i, states, reps, flag in spec["ops"]:
                yield env.timeout(at - env.now)
                net = spec["nets"][i]
                a = actors[ai]
                if k == "set":
                    change(ai, state, fresh(state))
                elif k == "fire":
                    # what its task waits for happens, and the change comes at the same instant
                    mon.hit("fired")
                    if i in waiting and net["wait"] != "timer":
                        waiting.pop(i).succeed()
                    change(ai, state, fresh(state))
                elif k == "burst":
                    mon.hit("bursts")
                    for s in (states * reps)[:4]:
                        if s != "copy":
                            change(ai, s, fresh(s))
                elif k == "add":
                    add(net["actor"], i, states, flag)
                elif k == "remove":
                    mon.hit("removed")
                    if any(i in w for w in watch[net["actor"]].values()):
                        nuclei[net["actor"]].remove_network(names[i] if flag else objs[i])
                        for w in watch[net["actor"]].values():
                            if i in w:
                                w.remove(i)
                elif k == "reject":
                    mon.hit("rejected")
                    mon.raises(TypeError, lambda: setattr(a, "n", "text"), "accepted", "text for an int state")
                    mon.raises(UP.SimulationError, lambda: setattr(a, "fixed", 5), "accepted", "a frozen state")
                elif k == "lin":
                    mon.hit("linear")
                    # reading an active state at a later time changes it
                    old = a.lin
                    saved = {s: list(w) for s, w in watch[ai].items()}
                    for j in saved.get("lin", []):
                        nuclei[ai].remove_network(objs[j])
                    a.activate_linear_state(state="lin", rate=spec["rate"], task=user)
                    for s, w in saved.items():
                        watch[ai][s] = [x for x in w if x not in saved.get("lin", [])]
                    for j in saved.get("lin", []):
                        add(ai, j, [s for s, w in saved.items() if j in w], True)
                    yield env.timeout(1 / 16)
                    v = a.lin
                    mon.eq(v, old + spec["rate"] / 16, "linear", "value of the active state")
                    expect(ai, "lin", v)
                    drain(env.now)
                    yield env.timeout(1 / 64)
                    got = len(log)
                    mon.eq(log, want, "interrupts", f"at {env.now}")
                    a.deactivate_all_states(task=user)
                    yield env.timeout(1 / 64)
                    v = old + spec["rate"] * (5 / 64)
                    for e in log[got:]:
                        # once or twice is not judged, the value is
                        if e[2] == "lin":
                            mon.eq((e[0], e[3]), (env.now - 1 / 64, v), "linear-value", "deactivation")
                    seen = {e[1] for e in log[got:] if e[2] == "lin"}
                    mon.eq(seen, {j for j in watch[ai].get("lin", []) if spec["nets"][j]["start"]},
                           "linear-notified", "networks told of the deactivation")
                    want[:] = list(log)
                    continue
                elif k == "mimic":
                    mon.hit("mimic")
                    source.n += 1
                    user2 = UP.Task()
                    if source.n == a.copy:
                        source.n += 1
                    a.activate_mimic_state(self_state="copy", mimic_state="n", mimic_actor=source, task=user2)
                    v = a.copy
                    expect(ai, "copy", v)
                    drain(env.now)
                    yield env.timeout(1 / 64)
                    mon.eq(log, want, "interrupts", f"at {env.now}")
                    got = len(log)
                    a.deactivate_mimic_state(self_state="copy", task=user2)
                    yield env.timeout(1 / 64)
                    for e in log[got:]:
                        # told again of the same value, or not, is not judged
                        if e[2] == "copy":
                            mon.eq(e[3], v, "mimic-value", "end of mimicking")
                    want[:] = list(log)
                    continue
                elif k == "second":
                    mon.hit("refused")
                    mon.raises(UP.UpstageError, lambda: UP.TaskNetworkNucleus(actor=a), "second-nucleus", "a second nucleus")
                    mon.check(a.get_nucleus() is nuclei[ai], "get-nucleus", "the nucleus after a refused one")
                elif k == "unknown":
                    mon.hit("refused")
                    other = nuclei[1 - net["actor"]]
                    mon.raises(UP.UpstageError, lambda: other.add_network(names[i], states), "unknown-network",
                               "a network of another actor")
                    mon.raises(UP.UpstageError, lambda: other.remove_network("none such"), "unknown-network",
                               "removing an unknown network")
                elif k == "task":
                    mon.hit("from_task")
                    what = [(s, fresh(s)) for s in states if s != "copy"]
                    a.succeed_knowledge_event(name="go", what=what)
                    for s, v in what:
                        mon.hit("changes")
                        expect(ai, s, v)
                drain(env.now)
                yield env.timeout(1 / 64)
                mon.eq(log, want, "interrupts", f"at {env.now} after {k} of {state}/{states} on a{ai}")

        env.process(driver())
        env.run(until=1000)
        mon.eq(log, want, "interrupts", "all interrupts of the run")
    mon.nontrivial = len(log) >= 2
    mon.see(log)
    mon.sample = {"log": [list(map(str, x)) for x in log[:6]]}


SCENARIOS = [Scenario("watch", gen, run, quick=12000, thorough=200000)]
