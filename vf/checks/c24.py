"""C24: self-monitoring resources behave like SimPy's and record every change."""

import random
from typing import Any

import simpy as SIM

import upstage_des.api as UP

from ..core import Mon, Scenario
from ..stores import ITEM_FUNCS, RefSorted, execute, gen_program, logging_kind
from ..util import dy

PROPERTY = {
    "title": "Self-monitoring resources act as SimPy's and record every change",
    "statement": (
        "A self-monitoring store, filter store, sorted filter store, container, continuous container or reserve "
        "container grants the same requests, with the "
        "same items, at the same times and in the same order as the resource without monitoring, for any capacity and "
        "any mix of waiting, cancelled and interrupted requests. Its record holds the initial value and one timed "
        "entry for every later change of the recorded value (level, count of items, or result of the item function), "
        "in order, and no value it never had."
    ),
    "quantifier": {"over": ["inputs", "histories", "schedules"],
                   "text": "every program of requests on the resource, every capacity and item function"},
    "why_tests_cant": "Tests check the record of one or two puts; queued, cancelled and same-instant grants are not sampled.",
    "anchors": {
        "files": ["src/upstage_des/resources/monitoring.py"],
        "mechanism": [{"name": "SelfMonitoringStore, SelfMonitoringFilterStore, SelfMonitoringContainer, "
                               "SelfMonitoringSortedFilterStore, SelfMonitoringContinuousContainer, SelfMonitoringReserveContainer", "where": "src/upstage_des/resources/monitoring.py"}],
        "observe_at": ["results of requests", "items", "level", "queues", "_quantities"],
    },
    "technique": "runtime monitor: differential execution against the unmonitored resource, with its grants as the expected record",
}
RULE = (
    "A case is a program of one to five processes and tasks on one resource, run on the monitored and on the plain "
    "kind. Non-trivial: at least two grants (flows, reservations); distinct by the log."
)
REQUIRED = {"grants": 10000, "records": 10000, "let_through": 100, "store": 300, "filter": 300, "sorted": 300, "container": 300,
            "interrupted": 200, "cancelled": 500, "tank": 500, "reserve": 500, "tank_polls": 3000, "reserve_records": 1000,
            "limits": 200, "limit_errors": 50}
ASSUMPTIONS = ["Item functions return values that do not change later."]


def gen(rng: random.Random) -> Any:
    return gen_program(rng, rng.choice(["store", "filter", "sorted", "container"]))


def run(spec: Any, mon: Mon) -> None:
    kind = spec["kind"]
    fn = ITEM_FUNCS[spec["func"]]
    kw: dict[str, Any] = {} if spec["cap"] is None else {"capacity": spec["cap"]}
    if kind == "container":
        if spec["pre"] and spec["cap"]:
            kw["init"] = 0.5
        content = lambda r: r.level  # noqa: E731
        init = kw.get("init", 0.0)
    else:
        use = fn if fn is not None else len
        content = lambda r: use(r.items)  # noqa: E731
        init = use([])
    plain = {"store": SIM.Store, "filter": SIM.FilterStore, "sorted": RefSorted, "container": SIM.Container}[kind]
    mine = {"store": UP.SelfMonitoringStore, "filter": UP.SelfMonitoringFilterStore,
            "sorted": UP.SelfMonitoringSortedFilterStore, "container": UP.SelfMonitoringContainer}[kind]
    values: list[Any] = []
    want_log, _ = execute(spec, lambda env: logging_kind(plain, values, content)(env, **kw), None)
    mkw = dict(kw)
    if kind != "container" and fn is not None:
        mkw["item_func"] = fn
    log, res = execute(spec, lambda env: mine(env, **mkw), mon)
    for n, (a, b) in enumerate(zip(log, want_log)):
        mon.check(a == b, "behavior", lambda: f"entry {n}: monitored {a}, plain {b}")
    mon.eq(len(log), len(want_log), "behavior-length", f"{log[-2:]} / {want_log[-2:]}")
    mon.hit(kind)
    mon.hit("grants", len(values))
    mon.hit("interrupted", sum(1 for x in log if "interrupted" in x[2:3]))
    mon.hit("cancelled", sum(1 for x in log if x[2:3] in (("tryget",), ("tryput",)) and x[3] is False))

    def changes(q: list[Any]) -> list[Any]:
        out: list[Any] = []
        for t, v in q:
            if not out or out[-1][1] != v:
                out.append((t, v))
        return out

    want = changes([(spec["t0"], init), *values])
    got = list(res._quantities)
    mon.eq([t for t, _ in got], sorted(t for t, _ in got), "record-order", "times of the record")
    mon.eq(changes(got), want, "record", f"record of the {kind}")
    mon.hit("records", len(want))
    mon.nontrivial = len(values) >= 2
    mon.see(log)
    mon.sample = {"record": [list(x) for x in want[:6]], "log": [repr(x)[:80] for x in log[:5]]}


def gen_gate(rng: random.Random) -> Any:
    return {"kind": rng.choice(["filter", "sorted"]), "items": [rng.randint(0, 3) for _ in range(rng.randint(0, 5))],
            "gets": [rng.randint(0, 3) for _ in range(rng.randint(1, 5))], "func": rng.choice(list(ITEM_FUNCS)),
            "steps": [[dy(rng, 1, 16), rng.choice(["open", "open", "put"]), rng.randint(0, 4)] for _ in range(rng.randint(1, 5))]}


def run_gate(spec: Any, mon: Mon) -> None:
    """Filters of what changes outside: one put lets several waiting requests through."""
    kind = spec["kind"]
    fn = ITEM_FUNCS[spec["func"]]
    use = fn if fn is not None else len
    plain = {"filter": SIM.FilterStore, "sorted": RefSorted}[kind]
    mine = {"filter": UP.SelfMonitoringFilterStore, "sorted": UP.SelfMonitoringSortedFilterStore}[kind]

    def play(make: Any) -> tuple[Any, Any]:
        log: list[Any] = []
        with UP.EnvironmentContext() as env:
            store = make(env)
            level = [0]

            def put() -> Any:
                for n, i in enumerate(spec["items"]):
                    yield store.put((i, n))
                for gap, what, v in spec["steps"]:
                    yield env.timeout(gap)
                    if what == "open":
                        level[0] = v
                    yield store.put((v, "s"))

            def get(n: int, g: int) -> Any:
                x = yield store.get(lambda i: g < level[0])
                log.append((env.now, n, x))

            env.process(put())
            for n, g in enumerate(spec["gets"]):
                env.process(get(n, g))
            env.run(until=30)
        return log, store

    values: list[Any] = []
    want_log, _ = play(logging_kind(plain, values, lambda r: use(r.items)))
    log, res = play(lambda env: mine(env, **({} if fn is None else {"item_func": fn})))
    mon.eq(log, want_log, "gate-behavior", f"granted by {mine.__name__}")
    want = [(0, use([]))]
    for t, v in values:
        if want[-1][1] != v:
            want.append((t, v))
    got: list[Any] = []
    for t, v in res._quantities:
        if not got or got[-1][1] != v:
            got.append((t, v))
    mon.eq(got, want, "gate-record", f"record of the {kind}")
    many = max((sum(1 for x in log if x[0] == t) for t, *_ in log), default=0)
    mon.hit("let_through", int(many > 1))
    mon.nontrivial = many > 1
    mon.see(log)


def gen_pools(rng: random.Random) -> Any:
    kind = rng.choice(["tank", "reserve"])
    ops: list[Any] = []
    if kind == "tank":
        t = 0.0
        for n in range(rng.randint(2, 10)):
            # nothing starts, ends or is asked in the same instant as anything else
            t += dy(rng, 1, 24) + 1 / 64
            what = rng.choice(["put", "put", "get", "get", "cancel"])
            ops.append([t, what, rng.choice([0.5, 1, 2, 3]), rng.choice([None, dy(rng, 1, 96) + 1 / 256]), rng.randrange(n + 1)])
        return {"kind": kind, "cap": rng.choice([4, 8, 10, 50]), "init": rng.choice([0, 1, 4, 2.5]), "ops": ops,
                "err": [rng.random() < 0.15, rng.random() < 0.15], "t0": dy(rng, 0, 16),
                "polls": sorted(rng.randint(0, 300) / 8 + 1 / 128 for _ in range(10))}
    for _ in range(rng.randint(3, 25)):
        ops.append([dy(rng, 0, 12), rng.choice(["reserve", "reserve", "reserve", "take", "take", "cancel", "put", "put"]), rng.randrange(3),
                    rng.choice([1, 2, 3, 0.5]), rng.choice([None, None, dy(rng, 1, 40) + 1 / 64]), rng.random() < 0.2])
    cap = rng.choice([5, 8, None])
    return {"kind": kind, "cap": cap, "init": rng.choice([0, 3, 5]), "ops": ops, "t0": dy(rng, 0, 16)}


def play_tank(spec: Any, cls: Any) -> tuple[list[Any], list[Any], Any]:
    log: list[Any] = []
    polls: list[Any] = []
    with UP.EnvironmentContext(initial_time=spec["t0"]) as env:
        tank = cls(env, capacity=spec["cap"], init=spec["init"], error_empty=spec["err"][0], error_full=spec["err"][1])
        flows: list[Any] = []

        def drive() -> Any:
            for t, what, rate, time, who in spec["ops"]:
                yield env.timeout(spec["t0"] + t - env.now)
                if what == "cancel":
                    if flows:
                        flows[who % len(flows)].cancel()
                else:
                    k = len(flows)
                    flows.append((tank.put if what == "put" else tank.get)(
                        rate=rate, time=time, custom_callbacks=[lambda k=k: log.append((env.now, "stopped", k))]))
                log.append((env.now, what, tank.level, tank.rate))

        def ask() -> Any:
            for t in spec["polls"]:
                if spec["t0"] + t > env.now:
                    yield env.timeout(spec["t0"] + t - env.now)
                polls.append((env.now, tank.level, tank.rate))
                log.append(("poll", env.now, tank.level, tank.rate, tank.time_until_done(), tank.time_until_level(1.75)))

        env.process(drive())
        env.process(ask())
        try:
            env.run(until=spec["t0"] + 60)
        except Exception as e:
            log.append((env.now, type(e).__name__, str(e)))
        log.append((env.now, tank.level, tank.rate, tank.capacity))
    return log, polls, tank


def play_reserve(spec: Any, cls: Any) -> tuple[list[Any], list[Any], Any]:
    log: list[Any] = []
    record: list[Any] = [(spec["t0"], spec["init"])]
    with UP.EnvironmentContext(initial_time=spec["t0"]) as env:
        pool = cls(env, init=spec["init"], **({} if spec["cap"] is None else {"capacity": spec["cap"]}))
        content = spec["init"]
        for dt, what, who, amount, exp, grow in spec["ops"]:
            if dt:
                env.run(until=env.now + dt)
            try:
                if what == "reserve":
                    got = pool.reserve(who, amount, exp)
                elif what == "take":
                    got = pool.take(who)
                    content -= got
                elif what == "cancel":
                    got = pool.cancel_request(who)
                else:
                    got = pool.put(amount, capacity_increase=grow)
                    content += amount
            except ValueError as e:
                got = ("ValueError", str(e))
            if content != record[-1][1]:
                record.append((env.now, content))
            log.append((env.now, what, got, pool.available, pool.queued, pool.capacity))
        env.run(until=env.now + 60)
        log.append((env.now, pool.available, pool.queued, pool.capacity))
    return log, record, pool


def run_pools(spec: Any, mon: Mon) -> None:
    """The continuous and the reserve container, monitored and plain."""
    mon.hit(spec["kind"])
    if spec["kind"] == "reserve":
        want_log, want, _ = play_reserve(spec, UP.ReserveContainer)
        log, _, res = play_reserve(spec, UP.SelfMonitoringReserveContainer)
        mon.eq(log, want_log, "pool-behavior", "answers of the reserve container")
        got: list[Any] = []
        for t, v in res._quantities:
            if not got or got[-1][1] != v:
                got.append((t, v))
        mon.eq(got, want, "pool-record", "record of the reserve container")
        mon.hit("reserve_records", len(want))
        mon.nontrivial = len(want) > 2
    else:
        want_log, want_polls, _ = play_tank(spec, UP.ContinuousContainer)
        log, polls, res = play_tank(spec, UP.SelfMonitoringContinuousContainer)
        mon.eq(log, want_log, "pool-behavior", "history of the continuous container")
        q = list(res._quantities)
        ts = [t for t, _ in q]
        mon.eq(q[0], (spec["t0"], spec["init"]), "pool-record-start", "first entry")
        mon.eq(ts, sorted(ts), "pool-record-order", "times of the record")
        for t, level, rate in want_polls:
            i = max(i for i, x in enumerate(ts) if x <= t)
            if i + 1 < len(q):
                (ta, va), (tb, vb) = q[i], q[i + 1]
                v = va + (vb - va) * (t - ta) / (tb - ta)
            elif rate == 0:
                v = q[i][1]
            else:
                continue
            mon.hit("tank_polls")
            mon.close(v, level, "pool-record", f"level at {t} from the record {q}", tol=1e-6)
        mon.hit("limits", sum(1 for x in log if x[1] == "stopped"))
        mon.hit("limit_errors", sum(1 for x in log if str(x[1]).endswith("Error")))
        mon.nontrivial = len(q) > 2
    mon.see(log)


SCENARIOS = [Scenario("pools", gen_pools, run_pools, quick=12000, thorough=208000),
             Scenario("gate", gen_gate, run_gate, quick=2000, thorough=26000),
             Scenario("programs", gen, run, quick=20000, thorough=520000)]
