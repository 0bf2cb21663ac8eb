"""C22: a reserve container's reservations and amounts always balance."""

import random
from typing import Any

import upstage_des.api as UP

from ..core import Mon, Scenario
from ..util import dy

PROPERTY = {
    "title": "Reserve containers never promise, hand out or accept too much",
    "statement": (
        "What a reserve container has available is always its content minus the standing reservations: a "
        "reservation is granted exactly when the requester has none and enough is available, and it stands until "
        "taken, cancelled or expired at its own expiration, when exactly its amount is handed out or available "
        "again. Taking without a reservation, or putting more than the capacity holds, raises and changes nothing; "
        "capacity grows only when asked for, and the self-monitoring kind records every change of content."
    ),
    "quantifier": {"over": ["inputs", "histories", "schedules"],
                   "text": "every sequence of reservations, expirations, cancellations, takes and puts"},
    "why_tests_cant": "Tests use two requesters once each; reuse of a requester and races with expirations need histories.",
    "anchors": {
        "files": ["src/upstage_des/resources/reserve.py", "src/upstage_des/resources/monitoring.py"],
        "mechanism": [{"name": "ReserveContainer.reserve, cancel_request, take, put, _expire_request",
                       "where": "src/upstage_des/resources/reserve.py"}],
        "observe_at": ["available", "remaining", "queued", "capacity", "_quantities"],
    },
    "technique": "runtime monitor comparing each operation and the balance with a reservation ledger model",
}
RULE = (
    "A case is a container and a history of operations by up to four requesters. Non-trivial: a reservation was "
    "granted; distinct by the sequence of results."
)
REQUIRED = {"granted": 5000, "refused_amount": 1000, "refused_double": 500, "taken": 1000, "cancelled": 500,
            "expired": 1000, "outlived": 300, "overfull": 300, "grown": 200, "no_reservation": 500, "recorded": 2000,
            "re-reserved": 500, "expired_now": 200}
ASSUMPTIONS = ["Amounts are positive; nothing is done at exactly the instant of an expiration."]


class Ship:
    """A requester known by identity."""


def gen(rng: random.Random) -> Any:
    ops: list[Any] = []
    for _ in range(rng.randint(5, 40)):
        if rng.random() < 0.15:
            # given up and asked for again at the same instant, for the same amount or not
            i, a = rng.randrange(4), rng.choice([1, 2])
            ops += [[dy(rng, 1, 8), "reserve", i, a, rng.choice([1 + 1 / 64, 2 + 1 / 64, None]), False],
                    [0, rng.choice(["take", "cancel"]), i, a, None, False],
                    [0, "reserve", i, rng.choice([a, a, 3]), rng.choice([None, 5 + 1 / 64, 30 + 1 / 64]), False]]
        ops.append([dy(rng, 0, 16), rng.choice(["reserve", "reserve", "reserve", "take", "take", "cancel", "put", "put"]),
                    rng.randrange(4), rng.choice([1, 1, 2, 3, 0.5, 5, 0]),
                    rng.choice([None, None, dy(rng, 1, 40) + 1 / 64, 0]), rng.random() < 0.2])
    cap = rng.choice([5, 8, 8, 20, None])
    init = rng.choice([0, 3, 5]) if cap is None else rng.choice([0, cap, cap, cap / 2])
    return {"cap": cap, "init": init, "ops": ops, "mon": rng.random() < 0.5, "t0": dy(rng, 0, 16),
            "kind": rng.choice(["object", "actor", "text", "number"])}


def run(spec: Any, mon: Mon) -> None:
    t0 = spec["t0"]
    results: list[Any] = []
    with UP.EnvironmentContext(initial_time=t0) as env:
        kw = {"init": spec["init"]} if spec["init"] or spec["kind"] == "text" else {}
        if spec["cap"] is not None:
            kw["capacity"] = spec["cap"]
        pool = (UP.SelfMonitoringReserveContainer if spec["mon"] else UP.ReserveContainer)(env, **kw)
        cap = float("inf") if spec["cap"] is None else spec["cap"]
        who: list[Any] = {"object": [Ship() for _ in range(4)], "actor": [UP.Actor(name="same") for _ in range(4)],
                          "text": ["a", "b", "c", "d"], "number": [0, 1, 2, 3]}[spec["kind"]]
        content = spec["init"]
        held: dict[int, tuple[float, float | None]] = {}  # who -> amount, end
        want_rec = [(t0, content)]
        past: set[int] = set()

        def free() -> float:
            return content - sum(a for a, _ in held.values())

        def judge(when: str) -> None:
            mon.eq(pool.available, free(), "available", when)
            mon.eq(pool.remaining, free(), "available", when)
            mon.eq(pool.queued, [who[i] for i in held], "queued", when)
            mon.eq(pool.capacity, cap, "capacity", when)
            mon.check(0 <= pool.available <= pool.capacity, "bounds", lambda: f"{when}: {pool.available}")

        judge("start")
        for dt, k, i, amount, exp, flag in spec["ops"]:
            if dt:
                until = env.now + dt
                env.run(until=until)
                for j in [j for j, (_, e) in held.items() if e is not None and e < until]:
                    del held[j]
                    mon.hit("expired")
                judge(f"after waiting to {until}")
            when = f"{k} {i} {amount} {exp} at {env.now}"
            if k == "reserve":
                ok = i not in held and free() >= amount
                mon.hit("granted" if ok else "refused_double" if i in held else "refused_amount")
                got = pool.reserve(who[i], amount, exp) if exp is not None else pool.reserve(who[i], amount)
                mon.check(got is ok, "granted", f"{when}: {got}, free {free()}, held {held}")
                if ok and exp == 0:
                    # expires at this very instant
                    env.run(until=env.now + 1 / 4096)
                    mon.hit("expired_now")
                    mon.hit("expired")
                elif ok:
                    if i in past:
                        mon.hit("re-reserved")
                    past.add(i)
                    held[i] = (amount, None if exp is None else env.now + exp)
            elif k == "take":
                if i in held:
                    a, e = held.pop(i)
                    mon.hit("outlived" if e is not None else "taken")
                    mon.hit("taken")
                    mon.eq(pool.take(who[i]), a, "taken", when)
                    content -= a
                    want_rec.append((env.now, content))
                else:
                    mon.hit("no_reservation")
                    mon.raises(ValueError, lambda: pool.take(who[i]), "took", when)
            elif k == "cancel":
                got = pool.cancel_request(who[i])
                mon.check(got is (i in held), "cancel", f"{when}: {got}")
                if held.pop(i, None):
                    mon.hit("cancelled")
            else:
                if content + amount > cap and not flag:
                    mon.hit("overfull")
                    mon.raises(ValueError, lambda: pool.put(amount), "overfull", when)
                else:
                    pool.put(amount, capacity_increase=flag)
                    content += amount
                    if content > cap:
                        mon.hit("grown")
                        cap = content
                    want_rec.append((env.now, content))
            judge(when)
            results.append((env.now, k, free(), content))
        env.run(until=env.now + 60)
        for j in [j for j, (_, e) in held.items() if e is not None]:
            del held[j]
        judge("the end")
        if spec["mon"]:
            mon.hit("recorded", len(want_rec))
            mon.eq([q for n, q in enumerate(pool._quantities) if n == 0 or q != pool._quantities[n - 1]],
                   [q for n, q in enumerate(want_rec) if n == 0 or q != want_rec[n - 1]], "record", "recorded content")
            mon.check(pool in UP.UpstageBase().get_monitored(), "monitored", "listed as monitored")
    mon.nontrivial = mon.hits["granted"] > 0
    mon.see(results)
    mon.sample = {"results": results[:6]}


SCENARIOS = [Scenario("ledger", gen, run, quick=32000, thorough=775000)]
