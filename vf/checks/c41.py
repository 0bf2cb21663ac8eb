"""C41: names carry no meaning."""

from __future__ import annotations

import json
import random
import re
import types
import warnings
from typing import Any

import upstage_des.api as UP
from upstage_des.data_utils import create_location_table, create_table, get_recorded_data

from .. import det
from ..core import Mon, Scenario
from ..util import stage_units
from .c38 import gen as gen_model
from .c38 import first, same

PROPERTY = {
    "title": "Names are only names",
    "statement": (
        "Renaming a model's actors, sensors, states, dataclass fields, task networks, tasks, entity groups, knowledge, "
        "dictionary and store keys, comms modes or classes, each kind one-to-one where its names must differ, changes nothing "
        "but those names in what the model does, logs, records and puts in tables. This holds also for names that begin with, contain or "
        "differ only in case from each other, that are equal across kinds, and for actors that share one name."
    ),
    "quantifier": {"over": ["inputs", "histories"],
                   "text": "every model over actors, states, task networks, nuclei, resources, comms, motion and rehearsals; every renaming"},
    "why_tests_cant": "A test has one set of names, chosen to be different and telling; lookups by part of a name, by order of names, or "
                      "by name where the object is meant, answer right for those.",
    "anchors": {
        "files": ["src/upstage_des/actor.py", "src/upstage_des/states.py", "src/upstage_des/base.py", "src/upstage_des/task_network.py",
                  "src/upstage_des/nucleus.py", "src/upstage_des/data_utils/data_utils.py", "src/upstage_des/motion/motion.py",
                  "src/upstage_des/communications/routing.py"],
        "mechanism": [{"name": "lookups of states, networks, tasks, groups and knowledge by name", "where": "src/upstage_des/actor.py"}],
        "observe_at": ["steps and callbacks", "histories", "get_log", "create_table", "entity groups", "get_knowledge", "running tasks"],
    },
    "technique": "runtime monitor: metamorphic oracle comparing the recorded histories of one model under different names",
}
RULE = "A case is a generated model run with its own names and with others. Non-trivial: its history has 20 timed entries or more; distinct by history and names."
REQUIRED = {"entries": 20000, "rows": 3000, "swapped": 100, "nested": 100, "strange": 100, "alike": 50, "one_name": 50, "histories": 2000, "log_texts": 2000}
ASSUMPTIONS = ["Names of states are identifiers that no attribute of Actor has; the nodes of one routing network have different names.",
               "The order of a table's rows, and of the states in histories, is not compared."]

SOURCE = open(det.__file__, encoding="utf-8").read()
STATES = ["fuel", "heat", "load", "level", "mood", "shown", "other", "count", "fixed", "parts", "kit", "box", "crate", "bins", "notes", "inbox", "spare",
          "location", "detectable", "ammo", "radius"]
CLASSES = ["Unit", "Bird", "Eye", "Node", "Kit", "Getter", "Plan", "Fly", "Window"]
ENTITIES = ["Unit", "Bird", "Node", "Eye"]
GROUPS = ["units", "movers", "eyes", "nodes", "all"]
KNOW = ["old", "busy", "getter"]
KEYS = ["one", "two", "three", "key"]
MODES = ["cup", "tin", "wire"]

NESTED = ["q", "qq", "q_q", "qqq", "q_", "Q", "QQ", "q1", "q11", "q2", "qz", "zq", "z_q", "qzq", "zqz", "Zq", "zQ", "q_q_q", "ζ", "ζq", "q0", "q_0", "zz", "zzz"]
STRANGE = ["", "0", "None", "u", "a b", " ", "a.b", "level", "%s", "{0}", "Unit", "é", "name", "location", "task", "u0", "net0", "[]", "all", "*", "a,b", "fuel_"]


def renaming(rng: random.Random) -> dict[str, Any]:
    """New names: of states and classes (identifiers), and of all else (any text)."""
    style = rng.choice(["swapped", "nested", "alike", "strange"])
    n: dict[str, Any] = {"style": style}

    def pick(old: list[str], pool: list[str]) -> dict[str, str]:
        return dict(zip(old, rng.sample(pool, len(old))))

    if style == "swapped":
        n["words"] = {**pick(STATES, STATES), **pick(CLASSES, CLASSES), **pick(KNOW, KNOW), **pick(KEYS, KEYS), **pick(MODES, MODES)}
        n["groups"] = pick(GROUPS, GROUPS)
        n["nets"] = [f"net{i}" for i in rng.sample(range(6), 6)]
        n["task"] = "Watch"
        n["actors"] = {k: [f"{k}{i}" for i in rng.sample(range(9), 9)] for k in "unbe"}
    else:
        ids = [x for x in NESTED if x.isidentifier()]
        alike = rng.sample(["Fuel", "fUel", "fuEl", "FUEL", "FUEl", "FUeL", "FuEl", "FuEL", "fUEl", "fueL", "fuEL", "FueL", "fUeL", "fUEL", "FUel", "Fuell", "fuelL",
                            "Fuel_", "fuel_", "fueL_", "FUEL_", "Fuel1", "fuel1", "fuel2"], 24)
        states = alike if style == "alike" else ids
        text = {"nested": NESTED, "alike": alike, "strange": STRANGE}[style]
        plain = [x for x in text if "{" not in x]
        n["words"] = {**pick(STATES, states), **dict(zip(CLASSES, (f"C{x}" for x in rng.sample(ids, 9)))),
                      **pick(KNOW, plain), **pick(KEYS[:3], plain), "key": rng.choice(plain), **pick(MODES, plain)}
        if style == "nested" and rng.random() < 0.6:
            n["words"].update(zip(MODES, rng.choice([["q", "qq", "qqq"], ["z", "zz", "q"], ["q", "zq", "qz"], ["Q", "q", "QQ"]])))
        n["groups"] = pick(GROUPS, text)
        if style == "alike":
            # groups that are almost the classes' own
            for g, c in rng.sample([("units", "Unit"), ("movers", "Bird"), ("nodes", "Node"), ("eyes", "Eye")], 2):
                if n["words"][c].lower() not in n["groups"].values():
                    n["groups"][g] = n["words"][c].lower()
        n["nets"] = rng.sample(text, 6)
        n["task"] = rng.choice(plain)
        # units, birds and sensors may share names; nodes have their own
        n["actors"] = {k: rng.sample(text, 9) for k in "unbe"}
        if rng.random() < 0.5:
            n["one_name"] = True
            for k in "ube":
                n["actors"][k] = [text[0]] * 9
    return n


def words(n: dict[str, Any]) -> list[tuple[str, Any]]:
    """What to replace in source, specification and history."""
    table = n["words"]
    lone = "|".join(w for w in table if w not in ("key", "getter"))

    def esc(x: str) -> str:
        return json.dumps(x, ensure_ascii=False)[1:-1]

    return [(r"(?<!tank\.)(?<!crate\.)(?<!vf\.)\b(?P<word>" + lone + r")\b", lambda m: esc(table[m["word"]])),
            (r"\b(?P<stem>key|getter)(?=\d|\{)", lambda m: esc(table[m["stem"]])),
            (r'"(?P<group>' + "|".join(GROUPS) + r')"', lambda m: f'"{esc(n["groups"][m["group"]])}"'),
            (r"\bWatch(?=\d|\{)", lambda m: esc(n["task"]))]


def apply(text: str, rules: list[tuple[str, Any]]) -> str:
    """All at once, each place at most once."""
    both = re.compile("|".join(f"(?P<r{k}>{p})" for k, (p, _) in enumerate(rules)))

    def put(m: Any) -> str:
        for k, (_, f) in enumerate(rules):
            if m[f"r{k}"] is not None:
                return f(m)
        raise AssertionError

    return both.sub(put, text)


def in_source(n: dict[str, Any]) -> str:
    def fmt(x: str) -> str:
        return x.replace("{", "{{").replace("}", "}}")

    text = SOURCE
    for k in "unbe":
        assert f'f"{{tag}}{k}{{i}}"' in text, k
        text = text.replace(f'f"{{tag}}{k}{{i}}"', f"NAMES[{k!r}][i]")
    rules = words({**n, "task": fmt(n["task"])})
    rules.append((r"\bnet\{i\}", lambda m: "{NETS[i]}"))
    return apply(text, rules)


def in_history(n: dict[str, Any], text: str) -> str:
    def esc(x: str) -> str:
        return json.dumps(x, ensure_ascii=False)[1:-1]

    rules = words(n)
    rules.append((r"\bnet(?P<net>\d)\b", lambda m: esc(n["nets"][int(m["net"])])))
    rules.append((r"\b(?P<who>[unbe])(?P<no>\d)\b", lambda m: esc(n["actors"][m["who"]][int(m["no"])])))
    return apply(text, rules)


MODULES: dict[str, Any] = {}


def renamed(n: dict[str, Any]) -> Any:
    key = json.dumps(n, sort_keys=True)
    if key not in MODULES:
        mod = types.ModuleType(f"vf_renamed_{len(MODULES)}")
        mod.__dict__.update(__name__="vf.det", NAMES=n["actors"], NETS=n["nets"], __file__=det.__file__)
        exec(compile(in_source(n), "renamed det", "exec", dont_inherit=True), mod.__dict__)
        MODULES[key] = mod
    return MODULES[key]


def play(d: Any, spec: Any, classes: list[str]) -> list[Any]:
    """A model of the module's names, and what it shows."""
    out: list[Any] = []
    with warnings.catch_warnings(), UP.EnvironmentContext(random_seed=spec["seed"]) as env:
        warnings.simplefilter("ignore")
        stage_units()
        part = d.Part(spec, env, d.motion_manager(spec), out)
        try:
            env.run(until=spec["until"])
        except Exception as e:
            out.append(["error", type(e).__name__])
        base = UP.UpstageBase()
        d.seen(part, out, base)
        out += [["group of class", d.plain(list(base.get_entity_group(c)))] for c in classes]
        for what, (rows, cols) in (("row", create_table()), ("row of places", create_location_table())):
            out.append(["columns", *cols])
            out += [[what, *d.plain(list(r))] for r in rows]
        out.append(["recorded", d.plain(get_recorded_data())])
        out.append(["draw", base.stage.random.random()])
    return json.loads(json.dumps(out, default=repr))


def ordered(log: list[Any]) -> list[Any]:
    """Without the order of rows, and of states in histories and values."""
    out: list[Any] = []
    rows: list[Any] = []
    for e in log:
        if e[0] in ("row", "row of places"):
            rows.append(e)
            continue
        if e[0] in ("histories", "states"):
            e = [*e[:2], sorted(e[2], key=json.dumps)]
        out.append(e)
    return [*out, *sorted(rows, key=json.dumps)]


def gen(rng: random.Random) -> Any:
    m = gen_model(rng)["model"]
    return {"model": m, "names": [renaming(random.Random(f"names {rng.randrange(96)}")) for _ in range(2)]}


def run(spec: Any, mon: Mon) -> None:
    m = spec["model"]
    base = play(det, m, ENTITIES)
    text = json.dumps(base, ensure_ascii=False)
    timed = sum(1 for e in base if not isinstance(e[0], str))
    for n in spec["names"]:
        want = ordered(json.loads(in_history(n, text)))
        got = ordered(play(renamed(n), json.loads(in_history(n, json.dumps(m, ensure_ascii=False))), [n["words"][c] for c in ENTITIES]))
        for k in range(max(len(want), len(got))):
            a = want[k] if k < len(want) else None
            b = got[k] if k < len(got) else None
            mon.check(same(a, b), "names", lambda: f"entry {k} {str((a or b)[:2])[:80]}: {first(a, b)[0]!r} by the names, {first(a, b)[1]!r} with the {n['style']} names")
        mon.hit("entries", len(want))
        mon.hit("rows", sum(1 for e in want if e[0] == "row"))
        mon.hit("histories", sum(len(e[2]) for e in want if e[0] == "histories"))
        mon.hit("log_texts", sum(len(e[2]) for e in want if e[0] == "log"))
        mon.hit(n["style"])
        mon.hit("one_name", int("one_name" in n))
        mon.see([want, n])
    mon.nontrivial = timed >= 20
    mon.sample = {"names": spec["names"], "entries": len(base), "first": base[:4]}


SCENARIOS = [Scenario("models", gen, run, quick=1200, thorough=18000)]
