"""C21: continuous containers hold exactly what their gets and puts leave, and stop at their limits."""

import bisect
import random
from fractions import Fraction as F
from typing import Any

import upstage_des.api as UP
from upstage_des.resources.container import ContainerEmptyError, ContainerFullError

from ..core import Discard, Mon, Scenario
from ..util import dy

PROPERTY = {
    "title": "A continuous container's level is the sum of its flows, within limits",
    "statement": (
        "At every time the level is the initial amount plus every put's and minus every get's rate times the time it "
        "has run, for any overlap of flows ending by time or by cancelling. It never leaves [0, capacity]: on "
        "reaching full (empty) exactly the running puts (gets) stop at that instant, calling their callbacks once, "
        "and an error is raised if asked for. Predicted times to a level or limit are exact for the present rates, "
        "and the self-monitoring kind's record gives the level at all times by interpolation."
    ),
    "quantifier": {"over": ["inputs", "histories", "schedules"],
                   "text": "every capacity, set of overlapping gets and puts, cancellation and time of asking"},
    "why_tests_cant": "Level depends on all overlaps and limit crossings of the history; tests use two flows.",
    "anchors": {
        "files": ["src/upstage_des/resources/container.py", "src/upstage_des/resources/monitoring.py"],
        "mechanism": [{"name": "ContinuousContainer._add_rate, _check, _set_level; _ContinuousEvent._run",
                       "where": "src/upstage_des/resources/container.py"}],
        "observe_at": ["level", "rate", "time_until_level", "time_until_done", "_quantities", "callbacks"],
    },
    "technique": "runtime monitor comparing level, callbacks, errors and record with an exact rational flow model",
}
RULE = (
    "A case is a container with overlapping gets, puts, cancellations and polls. Non-trivial: at least two flows "
    "overlapped or a limit was reached; distinct by the model's breakpoints."
)
REQUIRED = {"polls": 10000, "full": 500, "empty": 500, "cancelled": 300, "brief": 2000, "errors": 150, "overlap": 2000,
            "predicted": 5000, "interpolated": 2000, "at_limit_start": 100, "kept_other": 100}
ASSUMPTIONS = [
    "A limit reached at exactly the instant at which a flow starts or ends, and several flows starting or ending in one instant at a limit, are not judged (any order is legal).",
    "Flows that are cancelled in the instant in which they are started are not judged at a limit.",
]


def gen(rng: random.Random) -> Any:
    cap = rng.choice([4, 8, 10, 10, 25, 100])
    ops = []
    n = 0
    for _ in range(rng.randint(2, 14)):
        t = rng.randint(1, 160) / 8
        k = rng.choice(["put", "put", "get", "get", "cancel", "poll", "brief"])
        if k in ("put", "get"):
            ops.append([t, k, n, rng.choice([0.5, 1, 1, 2, 3, 5, 1 / 1024]),
                        None if rng.random() < 0.08 else dy(rng, 1, 96), rng.choice([0, 1, 1, 2])])
            n += 1
        elif k == "cancel":
            ops.append([t + 1 / 32, k, rng.randrange(max(n, 1)), 0, 0, 0])
        elif k == "brief":
            ops.append([t + 1 / 128, k, rng.randrange(2), rng.choice([1, 3]), rng.choice([None, 1.0, 8.0]), 1])
    for _ in range(rng.randint(4, 12)):
        ops.append([rng.randint(0, 200) / 8 + 1 / 64, "poll", 0, rng.choice([-3, -1, 0, 0, 0, 1, 4]),
                    rng.choice([0, cap, cap / 2, cap / 4]), 0])
    ops.sort(key=lambda o: o[0])
    return {"cap": cap, "init": rng.choice([0, cap, cap / 2, cap * 0.75]), "ops": ops,
            "err": [rng.random() < 0.15, rng.random() < 0.15], "mon": rng.random() < 0.5, "t0": dy(rng, 0, 40)}


class Model:
    """Exact level over time."""

    def __init__(self, spec: Any) -> None:
        self.cap = F(spec["cap"])
        self.level = F(spec["init"])
        self.t = F(0)
        self.users: dict[int, tuple[F, F | None]] = {}
        self.calls: list[tuple[F, int]] = []
        self.points: list[tuple[F, F]] = [(self.t, self.level)]
        self.segs: list[tuple[F, F, F]] = [(self.t, self.level, F(0))]
        self.err = spec["err"]
        self.error: tuple[F, str] | None = None
        self.full = self.empty = self.kept = self.at_limit = 0
        self.overlap = 0
        self.started: set[int] = set()
        self.cancelled = 0

    @property
    def net(self) -> F:
        return sum((r for r, _ in self.users.values()), F(0))

    def crossing(self) -> F | None:
        n = self.net
        if n > 0:
            return self.t + (self.cap - self.level) / n
        if n < 0:
            return self.t + self.level / -n
        return None

    def move(self, t: F) -> None:
        self.level += self.net * (t - self.t)
        self.t = t

    def mark(self) -> None:
        self.segs.append((self.t, self.level, self.net))

    def limit(self) -> None:
        """At a limit and moving into it."""
        n = self.net
        if n > 0:
            self.full += 1
            stop = [u for u, (r, _) in self.users.items() if r > 0]
            err = "full" if self.err[1] else None
        else:
            self.empty += 1
            stop = [u for u, (r, _) in self.users.items() if r < 0]
            err = "empty" if self.err[0] else None
        if len(stop) < len(self.users):
            self.kept += 1
        for u in stop:
            del self.users[u]
            self.calls.append((self.t, u))
        self.mark()
        if err:
            self.error = (self.t, err)

    def settle(self) -> None:
        c = self.crossing()
        if c is not None and c == self.t:
            self.at_limit += 1
            self.limit()

    def advance(self, t: F) -> None:
        """Up to and including all that happens by itself until t."""
        while self.error is None:
            ends = [e for _, e in self.users.values() if e is not None]
            e = min(ends) if ends else None
            c = self.crossing()
            nxt = min((x for x in (e, c) if x is not None), default=None)
            if nxt is None or nxt > t:
                break
            if c is not None and (c == e or c == t):
                raise Discard()
            self.move(nxt)
            if nxt == e:
                if self.level in (0, self.cap) and (nxt == t or ends.count(e) > 1):
                    # at a limit the order of what happens in one instant matters
                    raise Discard()
                for u in [u for u, (_, x) in self.users.items() if x == nxt]:
                    del self.users[u]
                self.mark()
                self.settle()
            else:
                self.limit()
        if self.error is None:
            self.move(t)

    def start(self, u: int, rate: F, end: F | None) -> None:
        self.users[u] = (rate, end)
        self.started.add(u)
        self.overlap += len(self.users) > 1
        self.mark()

    def cancel(self, u: int) -> None:
        if u in self.users:
            self.cancelled += 1
            del self.users[u]
            self.mark()
            self.settle()


def run(spec: Any, mon: Mon) -> None:
    m = Model(spec)
    # the history by the model, with what each poll must see
    expect: list[Any] = []
    brief = 0
    times: dict[float, list[Any]] = {}
    for o in spec["ops"]:
        times.setdefault(o[0], []).append(o)
    for t, group in sorted(times.items()):
        m.advance(F(t))
        if m.error:
            break
        flows = [o for o in group if o[1] in ("put", "get")]
        if m.level in (0, m.cap) and sum(o[1] != "poll" for o in group) > 1:
            raise Discard()
        for o in flows:
            m.start(o[2], F(o[3]) if o[1] == "put" else -F(o[3]), None if o[4] is None else F(t) + F(o[4]))
        c = m.crossing()
        if flows and c is not None and c == m.t:
            if len(flows) > 1:
                raise Discard()
            m.settle()
        for o in group:
            if o[1] == "cancel":
                m.cancel(o[2])
            elif o[1] == "brief":
                # cancelled in the instant in which it is started
                if m.level in (0, m.cap):
                    raise Discard()
                brief += 1
            elif o[1] == "poll":
                expect.append((t, m.level, m.net, o))
        if m.error:
            break
    if not m.error:
        m.advance(F(60))
    end = float(m.error[0]) if m.error else 60.0

    calls: list[tuple[float, int, int]] = []
    polls: list[Any] = []
    t0 = spec["t0"]
    with UP.EnvironmentContext(initial_time=t0) as env:
        cls = UP.SelfMonitoringContinuousContainer if spec["mon"] else UP.ContinuousContainer
        tank = cls(env, capacity=spec["cap"], init=spec["init"], error_empty=spec["err"][0], error_full=spec["err"][1])
        evs: dict[int, Any] = {}

        def driver() -> Any:
            for t, k, n, a, b, cb in spec["ops"]:
                if env.now - t0 < t:
                    yield env.timeout(t - (env.now - t0))
                if k in ("put", "get"):
                    fns = [(lambda i=i, n=n: calls.append((env.now - t0, n, i))) for i in range(cb)]
                    if n % 4 == 0:
                        # the same one again
                        fns = fns[:1] * cb
                    evs[n] = (tank.put if k == "put" else tank.get)(rate=a, time=b, custom_callbacks=fns)
                elif k == "brief":
                    (tank.get if n else tank.put)(rate=a, time=b, custom_callbacks=[lambda: calls.append((env.now - t0, "brief", 0))]).cancel()
                elif k == "cancel":
                    if n in evs:
                        evs[n].cancel()
                else:
                    polls.append((env.now - t0, tank.level, tank.rate, tank.time_until_level(b),
                                  tank.time_until_level(b, rate=a), tank.time_until_done(), tank.time_until_done(rate=a)))

        mon.raises(ValueError, lambda: tank.put(rate=0.0, time=1.0), "zero-rate", "a put without rate")
        mon.raises(ValueError, lambda: tank.get(rate=-1.0, time=1.0), "zero-rate", "a get with a negative rate")
        env.process(driver())
        if m.error:
            mon.hit("errors")
            cause = {"full": ContainerFullError, "empty": ContainerEmptyError}[m.error[1]]
            mon.raises(cause, lambda: env.run(until=t0 + 60), "limit-error", f"reaching {m.error}")
            mon.close(env.now - t0, end, "limit-time", "time of the error")
        else:
            env.run(until=t0 + 60)
        mon.close(tank.level, float(m.level), "level", "level at the end")
        mon.eq(tank.capacity, spec["cap"], "capacity")

        # what the polls saw
        mon.check(len(polls) >= len(expect), "polls", f"{len(polls)} polls, {len(expect)} expected")
        inf = float("inf")
        for (t, level, net, o), got in zip(expect, polls):
            mon.hit("polls")
            mon.eq(got[0], t, "poll-time")
            mon.close(got[1], float(level), "level", f"level at {t}")
            mon.close(got[2], float(net), "rate", f"rate at {t}")
            mon.check(-1e-9 <= got[1] <= spec["cap"] + 1e-9, "bounds", f"level {got[1]} at {t}")
            target = F(o[4])
            for extra, g in ((F(0), got[3]), (F(o[3]), got[4])):
                n = net + extra
                if abs(target - level) < F(1, 10**6) and target != level:
                    continue
                if target == level:
                    # exactly, or by rounding just above or below
                    mon.check(g == inf or abs(g) < 1e-6, "until-level", f"at {t}: {g}")
                    continue
                want = inf if n == 0 or (target - level) / n <= 0 else float((target - level) / n)
                mon.hit("predicted")
                mon.close(g, want, "until-level", f"time until {o[4]} at {t} with level {float(level)}, net {float(n)}")
            for extra, g in ((F(0), got[5]), (F(o[3]), got[6])):
                n = net + extra
                want = inf if n == 0 else float((m.cap - level) / n if n > 0 else level / -n)
                mon.hit("predicted")
                if want == inf or g == inf:
                    mon.eq(g, want, "until-done", f"time until done at {t}")
                else:
                    mon.close(g, want, "until-done", f"time until done at {t}")
        # callbacks: once each, in order, at the instant
        cbs = {o[2]: o[5] for o in spec["ops"] if o[1] in ("put", "get")}
        want_calls = [(float(t), u, i) for t, u in m.calls for i in ([0] * cbs[u] if u % 4 == 0 else range(cbs[u]))]
        if m.error:
            # those of the last instant may not have been called when the error ended the run
            want_calls = [c for c in want_calls if c[0] < end]
            got_calls = [c for c in calls if c[0] < end - 1e-6]
        else:
            got_calls = calls
        mon.eq([c[1:] for c in got_calls], [c[1:] for c in want_calls], "callbacks", "callbacks of stopped flows")
        for g, w in zip(got_calls, want_calls):
            mon.close(g[0], w[0], "callback-time", f"callback of flow {g[1]}")
        if spec["mon"]:
            q = [(t - t0, v) for t, v in tank._quantities]
            ts = [t for t, _ in q]
            mon.check(ts == sorted(ts), "record-order", lambda: f"{q}")
            mon.eq(q[0], (0.0, spec["init"]), "record-start", "first entry")
            segs = m.segs

            def level_at(t: float) -> float:
                i = max(i for i, s in enumerate(segs) if float(s[0]) <= t + 1e-12)
                return float(segs[i][1]) + float(segs[i][2]) * (t - float(segs[i][0]))

            for t, v in q:
                mon.close(v, level_at(t), "record", f"recorded level at {t}", tol=1e-5)
            for t, level, net, o in expect:
                i = bisect.bisect_right(ts, t) - 1
                if i + 1 < len(q):
                    (ta, va), (tb, vb) = q[i], q[i + 1]
                    v = va + (vb - va) * (t - ta) / (tb - ta)
                elif net == 0:
                    v = q[i][1]
                else:
                    continue
                mon.hit("interpolated")
                mon.close(v, float(level), "record-interpolated", f"level from the record at {t}")
    mon.hit("full", m.full)
    mon.hit("empty", m.empty)
    mon.hit("kept_other", m.kept)
    mon.hit("at_limit_start", m.at_limit)
    mon.hit("cancelled", m.cancelled)
    mon.hit("overlap", m.overlap)
    mon.hit("brief", brief)
    mon.nontrivial = m.overlap > 0 or m.full + m.empty > 0
    mon.see([(float(a), float(b), float(c)) for a, b, c in m.segs])
    mon.sample = {"segments": [[float(a), float(b), float(c)] for a, b, c in m.segs][:8], "calls": calls[:5]}


SCENARIOS = [Scenario("flows", gen, run, quick=24000, thorough=570000)]
