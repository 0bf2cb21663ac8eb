"""C31: units of time and distance: conversions, waits, and formatted times."""

import random
import re
from typing import Any

import simpy as SIM
import upstage_des.api as UP

from .. import geo
from ..core import Mon, Scenario
from ..util import TASK_GEN

PROPERTY = {
    "title": "Units convert, time waits and show times as they mean",
    "statement": (
        "unit_convert agrees with the definitions of the units for every pair of distances and of times, in every documented "
        "spelling and case, and refuses other units and mixed kinds. A Wait ends after its timeout in the stage's time unit, "
        "also when drawn at random. pretty_now and an actor's log show the simulation time in the stage's unit and format, "
        "and the log keeps every message in order with its time, or none, or no formatted time, as asked for."
    ),
    "quantifier": {"over": ["inputs", "configurations", "histories"],
                   "text": "every value, pair and spelling of units, simulation time, stage and actor setting, and message"},
    "why_tests_cant": "Tests convert a few values and format two times; the table of factors and formats has hundreds of cases.",
    "anchors": {
        "files": ["src/upstage_des/units/convert.py", "src/upstage_des/base.py", "src/upstage_des/events.py",
                  "src/upstage_des/actor.py"],
        "mechanism": [{"name": "unit_convert", "where": "src/upstage_des/units/convert.py"},
                      {"name": "UpstageBase.pretty_now", "where": "src/upstage_des/base.py"},
                      {"name": "Wait._convert_time", "where": "src/upstage_des/events.py"},
                      {"name": "Actor.log", "where": "src/upstage_des/actor.py"}],
        "observe_at": ["return values", "time at which a waiting process resumes", "actor.get_log()"],
    },
    "technique": "runtime monitor: results compared with SI definitions and a parsed and re-derived timestamp",
}
RULE = "A case is a conversion, or a run with waits and log messages. Non-trivial: values differ; distinct by what was seen."
REQUIRED = {"converted": 4000, "spelled": 1000, "refused": 800, "waits": 2000, "random": 400, "standard": 1000, "ticks": 300,
            "days": 200, "logged": 3000, "silent": 200, "untimed": 300, "unit_free": 100, "objects": 50, "whole": 500}
ASSUMPTIONS = ["Conversion factors are compared to 2e-6 (distances) and 1e-12 (times).",
               "The unit of a Wait is only used when the stage has a time_unit."]

SPELL = {"s": ["s", "second", "seconds"], "min": ["min", "minute", "minutes"], "hr": ["hr", "hour", "hours"],
         "day": ["day", "days"], "week": ["week", "weeks"]}


def spell(rng: random.Random, u: str) -> str:
    w = rng.choice(SPELL.get(u, [u]))
    return rng.choice([w, w, w.upper(), w.capitalize(), w.title().swapcase()])


def gen(rng: random.Random) -> Any:
    kind = rng.choice([list(geo.METERS), list(geo.SECONDS)])
    a, b = rng.choice(kind), rng.choice(kind)
    bad = rng.choice([None] * 6 + ["kind", "word"])
    other = list(geo.SECONDS) if kind == list(geo.METERS) else list(geo.METERS)
    return {"a": a, "b": b, "wa": spell(rng, a), "wb": spell(rng, b),
            "v": rng.choice([0, 1, rng.randint(-100, 10**6), rng.uniform(-1e3, 1e6), rng.uniform(0, 1e-6)]), "bad": bad,
            "other": spell(rng, rng.choice(other)) if bad == "kind" else rng.choice(["parsec", "", "ticks", "fortnight", "nm"])}


def run(spec: Any, mon: Mon) -> None:
    a, b, v = spec["a"], spec["b"], spec["v"]
    if spec["bad"]:
        both = [] if spec["bad"] == "kind" else [(v, spec["other"], spec["other"])]
        for args in ((v, spec["wa"], spec["other"]), (v, spec["other"], spec["wb"]), *both):
            mon.raises(ValueError, lambda: UP.unit_convert(*args), "refused", f"{args}")
            mon.hit("refused")
        return
    got = UP.unit_convert(v, spec["wa"], spec["wb"])
    want = geo.conv(v, a, b)
    rel = 1e-12 if a in geo.SECONDS or a == b else 2e-6
    mon.hit("converted")
    mon.hit("spelled", int(spec["wa"] != a or spec["wb"] != b))
    mon.check(abs(got - want) <= rel * abs(want), "convert", lambda: f"{v} {spec['wa']} is {got} {spec['wb']} rather than {want}")
    mon.nontrivial = a != b
    mon.see(a, b, v)


def gen_run(rng: random.Random) -> Any:
    unit = rng.choice([None, "unset", *[spell(rng, u) for u in geo.SECONDS], *[spell(rng, u) for u in ("s", "min", "hr")], "ticks", "clock ticks"])
    base = None
    for k, ws in SPELL.items():
        if unit and unit.lower() in ws:
            base = k
    ops: list[Any] = []
    scale = geo.SECONDS.get(base or "hr", 3600.0)
    for _ in range(rng.randint(2, 10)):
        k = rng.choice(["wait", "wait", "random", "log", "log", "pretty"])
        if k in ("wait", "random"):
            u = rng.choice(list(geo.SECONDS)) if base and rng.random() < 0.7 else None
            n = rng.choice([rng.uniform(0, 5), rng.randint(0, 40), rng.randint(0, 3000) / rng.choice([1, 1, 10, 20]),
                            rng.uniform(0, 86400 * 3 / scale) if not u else 1.5])
            ops.append([k, n, rng.uniform(0, 3), u and spell(rng, u), u])
        elif k == "log":
            ops.append([k, rng.randrange(2), rng.choice(["hello", "", "a [Day 0] b", 5, None if False else "x y"])])
        else:
            ops.append([k])
    return {"unit": unit, "base": base, "daily": rng.choice([None, None, 125, 2.5, 24, 0.5]), "start": rng.choice([0.0, 0.0, rng.randint(0, 5000), rng.uniform(0, 1e4)]),
            "stage_log": rng.choice([None, None, True, False]), "seed": rng.randrange(10**6), "ops": ops,
            "actors": [{"debug_log": rng.random() < 0.8, "debug_log_time": rng.choice([None, None, True, False])} for _ in range(2)]}


class Person(UP.Actor):
    pass


class Plain(UP.UpstageBase):
    pass


def stamp_ok(spec: Any, text: str, now: float, mon: Mon) -> None:
    """The timestamp means the time."""
    unit, base = spec["unit"], spec["base"]
    if unit in (None, "unset"):
        base = "hr"
    if base in ("s", "min", "hr"):
        mon.hit("standard")
        m = re.fullmatch(r"\[Day ([ \d]{3}\d+) - (\d\d):(\d\d):(\d\d)\]", text)
        if m is None:
            mon.fail("stamp-form", text)
        d, h, mi, s = (int(x) for x in m.groups())
        mon.check(h < 24 and mi < 60 and s < 60, "stamp-range", text)
        total = ((d * 24 + h) * 60 + mi) * 60 + s
        true = now * geo.SECONDS[base]
        eps = 1e-5 + 1e-9 * true
        mon.check(-eps <= true - total <= 1 + eps, "stamp", lambda: f"{text} for {now} {base}")
        if abs(true - round(true)) <= 1e-7 + 1e-15 * true:
            mon.hit("whole")
            mon.eq(total, round(true), "whole-seconds", f"{text} for {now} {base}")
        return
    if spec["daily"] is None:
        mon.hit("ticks")
        m = re.fullmatch(r"\[(\d+\.\d{3}) (.*)\]", text)
        if m is None or m[2] != unit:
            mon.fail("ticks-form", text)
        mon.check(abs(float(m[1]) - now) <= 0.00051, "ticks", lambda: f"{text} for {now}")
        return
    mon.hit("days")
    m = re.fullmatch(r"\[Day ([ \d]{3}\d+) - (\d+\.\d{3}) (.*)\]", text)
    if m is None or m[3] != unit:
        mon.fail("days-form", text)
    rem = float(m[2])
    mon.check(rem <= spec["daily"], "days-range", text)
    mon.check(abs(int(m[1]) * spec["daily"] + rem - now) <= 0.00051 + 1e-9 * now, "days", lambda: f"{text} for {now}")


def run_run(spec: Any, mon: Mon) -> None:
    with UP.EnvironmentContext(initial_time=spec["start"], random_seed=spec["seed"]) as env:
        if spec["unit"] != "unset":
            UP.add_stage_variable("time_unit", spec["unit"])
        if spec["daily"] is not None:
            UP.add_stage_variable("daily_time_count", spec["daily"])
        if spec["stage_log"] is not None:
            UP.add_stage_variable("debug_log_time", spec["stage_log"])
        people = [Person(name=f"p{i}", **kw) for i, kw in enumerate(spec["actors"])]
        base = Plain()
        rng = random.Random(spec["seed"])
        want: list[list[Any]] = [[], []]
        pretty = []

        class Do(UP.Task):
            def task(self, *, actor: Any) -> TASK_GEN:
                for op in spec["ops"]:
                    now = self.env.now
                    if op[0] == "wait":
                        w = UP.Wait(op[1], op[3]) if op[3] else UP.Wait(op[1])
                        true = geo.conv(op[1], op[4], spec["base"]) if op[4] else op[1]
                        mon.hit("waits")
                    elif op[0] == "random":
                        w = UP.Wait.from_random_uniform(op[1], op[1] + op[2], op[3])
                        draw = rng.uniform(op[1], op[1] + op[2])
                        true = geo.conv(draw, op[4], spec["base"]) if op[4] else draw
                        mon.hit("random")
                    elif op[0] == "log":
                        people[op[1]].log(op[2])
                        want[op[1]].append((now, op[2]))
                        continue
                    else:
                        pretty.append((now, base.pretty_now, people[0].pretty_now))
                        continue
                    mon.hit("unit_free", int(not op[3] and bool(spec["base"])))
                    yield w
                    took = self.env.now - now
                    mon.check(abs(took - true) <= 1e-9 * (1 + abs(self.env.now)), "wait", lambda: f"{op} took {took} rather than {true} {spec['unit']}")
                    mon.see(true)
                yield UP.Wait(0.0)

        # strings are formatted with the time; other objects are kept only when no time is asked for
        for op in spec["ops"]:
            if op[0] == "log" and not isinstance(op[2], str):
                kw = spec["actors"][op[1]]
                timed = kw["debug_log_time"] if kw["debug_log_time"] is not None else spec["stage_log"] is not False
                if timed:
                    op[2] = "obj"
                else:
                    op[2] = {"data": op[2]}
                    mon.hit("objects")
        doer = Person(name="doer")
        Do().run(actor=doer)
        env.run()
        mon.nontrivial = True
        for now, a, b in pretty:
            mon.eq(a, b, "same-stamp")
            stamp_ok(spec, a, now, mon)
        for p, kw, msgs in zip(people, spec["actors"], want):
            log = p.get_log()
            mon.eq(p.log(), log, "log-and-get-log")
            if not kw["debug_log"]:
                mon.hit("silent")
                mon.eq(log, [], "silent-log")
                continue
            timed = kw["debug_log_time"] if kw["debug_log_time"] is not None else spec["stage_log"] is not False
            mon.eq(len(log), len(msgs), "log-length")
            for (t, text), (now, msg) in zip(log, msgs):
                mon.hit("logged")
                mon.eq(t, now, "log-time")
                if not timed:
                    mon.hit("untimed")
                    mon.eq(text, msg, "log-text")
                else:
                    mon.check(text.endswith("] " + msg), "log-text", lambda: f"{text} for {msg}")
                    stamp_ok(spec, text[: len(text) - len(msg) - 1], now, mon)


def gen_bad(rng: random.Random) -> Any:
    return {"unit": rng.choice(["s", "hours", "ticks"]), "how": rng.choice(["negative", "text", "list", "kind", "ticks"])}


def run_bad(spec: Any, mon: Mon) -> None:
    """Waits that make no sense are refused."""
    with UP.EnvironmentContext():
        UP.add_stage_variable("time_unit", spec["unit"])
        how = spec["how"]
        mon.nontrivial = True
        mon.see(spec["unit"], how)
        if how == "negative":
            mon.raises(UP.SimulationError, lambda: UP.Wait(-1.0), "negative-wait", "")
        elif how == "text":
            mon.raises(UP.SimulationError, lambda: UP.Wait("1"), "text-wait", "")
        elif how == "list":
            mon.raises(UP.SimulationError, lambda: UP.Wait([1, 2]), "list-wait", "")
        elif how == "kind":
            mon.raises(ValueError, lambda: UP.Wait(1.0, "km"), "kind-wait", "")
        elif spec["unit"] == "ticks":
            mon.raises(ValueError, lambda: UP.Wait(1.0, "hours"), "ticks-wait", "")


SCENARIOS = [Scenario("convert", gen, run, quick=80000, thorough=2000000), Scenario("times", gen_run, run_run, quick=32000, thorough=800000),
             Scenario("bad", gen_bad, run_bad, quick=80, thorough=200)]
