"""C32: data tables hold exactly what was recorded, in the documented form."""

import copy
import collections
import dataclasses
import random
from collections import Counter
from typing import Any

import simpy as SIM
import upstage_des.api as UP
from upstage_des.data_utils import create_location_table, create_table, get_recorded_data, record_data
from upstage_des.geography import Spherical
from upstage_des.states import ActiveStatus

from .. import geo
from ..core import Mon, Scenario

PROPERTY = {
    "title": "Data tables hold exactly what was recorded, in the documented form",
    "statement": (
        "create_table gives one row for each recorded value of every actor's states and of every monitored resource, in order "
        "for each, with entity, type, state, time, value and activation status; dictionaries and dataclasses become a row per "
        "key. Locations are left out or included as asked for, and save_static adds the last value of the states that do not "
        "record. create_location_table does so for locations, in consistent units. Making tables changes nothing."
    ),
    "quantifier": {"over": ["histories", "configurations"],
                   "text": "every mix of state kinds, recording options, resources, changes, activations and times of making a table"},
    "why_tests_cant": "Tests count rows of one fixed simulation; omitted, doubled or mislabeled rows depend on the mix of states.",
    "anchors": {
        "files": ["src/upstage_des/data_utils/data_utils.py", "src/upstage_des/data_utils/data_recorder.py", "src/upstage_des/states.py"],
        "mechanism": [{"name": "create_table, create_location_table", "where": "src/upstage_des/data_utils/data_utils.py"}],
        "observe_at": ["returned rows and column names"],
    },
    "technique": "runtime monitor: tables compared with a log of the changes made and with the documented histories",
}
RULE = (
    "A case is actors with a mix of states, and monitored resources, changed over time, with tables made at several times. "
    "Non-trivial: at least 10 rows; distinct by the rows."
)
REQUIRED = {"tables": 4000, "rows": 40000, "locations": 4000, "activating": 800, "active": 800, "deactivating": 400, "inactive": 800,
            "static": 2000, "multistore": 800, "keys": 3000, "loose": 500, "fields": 1000, "plain_location": 400, "nowhere": 20, "recorded": 500}
ASSUMPTIONS = ["Rows of recording functions' results are not judged (the documentation does not say whether they are tabulated)."]


@dataclasses.dataclass
class Data:
    a: int
    b: str = "x"
    c: list = dataclasses.field(default_factory=list)


class Spot(UP.CartesianLocation):
    pass


class Place(UP.GeodeticLocation):
    pass


class Labels(dict):
    pass


KINDS = ["num", "num", "dict", "dc", "linear", "linear", "moving", "moving", "place", "dictstate", "dcstate", "res", "multi", "text", "func"]


def gen(rng: random.Random) -> Any:
    world = rng.choice(["cart", "geo"])
    classes = []
    for _ in range(rng.randint(1, 2)):
        classes.append([[rng.choice(KINDS), rng.random() < 0.65] for _ in range(rng.randint(1, 6))])
    actors = [rng.randrange(len(classes)) for _ in range(rng.randint(1, 3))]
    ops: list[Any] = []
    for _ in range(rng.randint(3, 25)):
        k = rng.choice(["change", "change", "change", "change", "wait", "wait", "loose", "table", "record"])
        if k == "wait":
            ops.append([k, rng.choice([0.5, 1.0, 2.25])])
        else:
            ops.append([k, rng.randrange(100), rng.randrange(100), rng.randrange(1000)])
    return {"world": world, "prefix": rng.random() < 0.3, "unnamed": rng.random() < 0.3, "classes": classes, "actors": actors, "ops": [*ops, ["table", 0, 0, 0]],
            "loose": rng.choice([0, 0, 1, 2, 3]), "twins": rng.random() < 0.3, "units": rng.choice([["km", "m"], ["m", "ft"], ["nmi", "km"]])}


TEXTS = ["t0", "t1", "t2", None, "", (1, 2), Data, "t3"]


class Loose(UP.SelfMonitoringFilterStore):
    """A subclass of a monitored store."""


def run(spec: Any, mon: Mon) -> None:
    cart = spec["world"] == "cart"
    u, au = spec["units"]
    k_alt = geo.conv(1, au, u)
    with UP.EnvironmentContext() as env:
        UP.add_stage_variable("distance_units", u)
        UP.add_stage_variable("altitude_units", au)
        UP.add_stage_variable("stage_model", Spherical)

        def where(n: int) -> Any:
            """A location, in any of the ways to write it."""
            if cart:
                return (Spot if n % 4 == 3 else UP.CartesianLocation)(n % 7, n % 11, n % 3, use_altitude_units=n % 4 == 1)
            x = (Place if n % 4 == 3 else UP.GeodeticLocation)(n % 70, n % 110 - 50, n % 3)
            return x.to_radians() if n % 4 == 1 else x

        def make(kind: str, rec: bool) -> Any:
            if kind in ("num", "text"):
                return UP.State(recording=rec, default=0 if kind == "num" else "t")
            if kind == "func":
                return UP.State(recording=True, default=0, recording_functions=[(lambda t, v: v + t, "fn")])
            if kind == "dict":
                return UP.State(recording=rec)
            if kind == "dc":
                return UP.State(recording=rec)
            if kind == "linear":
                return UP.LinearChangingState(recording=rec, default=0.0)
            if kind == "moving":
                return UP.CartesianLocationChangingState(recording=rec) if cart else UP.GeodeticLocationChangingState(recording=rec)
            if kind == "place":
                return UP.State(recording=rec)
            if kind == "dictstate":
                return UP.DictionaryState(valid_types=int, recording=rec)
            if kind == "dcstate":
                return UP.DataclassState(valid_types=Data, recording=rec)
            if kind == "res":
                return UP.ResourceState(default=UP.SelfMonitoringStore if rec else SIM.Store)
            return UP.MultiStoreState(default=UP.SelfMonitoringContainer if rec else SIM.Container)

        def nm(kind: str, j: int) -> str:
            """Names where one starts another, or not."""
            return kind + ("0" * (j + 1) if spec.get("prefix") else str(j))

        def held(a: Any, s: str) -> bool:
            return not s.startswith("place") or getattr(a, s) is not None

        types = []
        for i, states in enumerate(spec["classes"]):
            body, n_func = {}, 0
            for j, (kind, rec) in enumerate(states):
                if kind == "func":
                    if n_func:
                        continue
                    n_func += 1
                body[nm(kind, j)] = make(kind, rec)
            types.append(type(f"Kind{i}", (UP.Actor,), body))

        def start(kind: str, n: int) -> Any:
            return {"dict": [dict, Labels, collections.OrderedDict][n % 3]({"p": 1, "q": "z"}), "dc": Data(1), "moving": where(n), "place": where(n), "dictstate": {"one": 1},
                    "dcstate": Data(2, "y"), "multi": {"s1": {"capacity": 10}, "s2": {}}}.get(kind)

        actors = []
        rec_of: dict[tuple[str, str], bool] = {}
        for i, c in enumerate(spec["actors"]):
            kw = {}
            for s, st in types[c]._state_defs.items():
                v = start(s.rstrip("0123456789"), i)
                if v is not None:
                    kw[s] = v
            actors.append(types[c](name=f"actor{i}", **kw))
            for j, (kind, rec) in enumerate(spec["classes"][c]):
                rec_of[f"actor{i}", nm(kind, j)] = rec or kind == "func"
        names = [None if spec.get("unnamed") else "twin" if spec.get("twins") else f"loose{i}" for i in range(spec["loose"])]
        loose = [Loose(env, name=n) if i else UP.SelfMonitoringContainer(env, name=n) for i, n in enumerate(names)]
        recorded = []
        active: set[tuple[str, str]] = set()

        # what was written to the states that keep no activity: [(time, value)]
        wrote: dict[tuple[str, str], list[Any]] = {}
        for a in actors:
            for s in a.states:
                if s.rstrip("0123456789") in ("num", "text", "func"):
                    wrote[a.name, s] = [(0.0, getattr(a, s))]

        def put(key: tuple[str, str], v: Any) -> None:
            if (env.now, v) != wrote[key][-1]:
                wrote[key].append((env.now, v))

        def change(op: Any) -> None:
            a = actors[op[1] % len(actors)]
            if not a.states:
                return
            s = a.states[op[2] % len(a.states)]
            kind, n = s.rstrip("0123456789"), op[3]
            if kind in ("num", "func"):
                setattr(a, s, n % 5)
                put((a.name, s), n % 5)
            elif kind == "text":
                setattr(a, s, TEXTS[n % len(TEXTS)])
                put((a.name, s), TEXTS[n % len(TEXTS)])
            elif kind == "dict":
                if n % 9 == 4:
                    getattr(a, s).clear()
                else:
                    getattr(a, s)[f"k{n % 3}"] = n
                a.record_state(s)
            elif kind == "dc":
                getattr(a, s).a = n
                getattr(a, s).c.append(n)
                a.record_state(s)
            elif kind in ("linear", "moving"):
                on = (a.name, s) in active
                if n % 5 == 0 and on:
                    a.deactivate_state(state=s, task=None)
                    active.discard((a.name, s))
                elif n % 5 in (1, 2) and not on:
                    if kind == "linear":
                        a.activate_linear_state(state=s, rate=n % 7 - 3.0, task=None)
                    else:
                        # far enough never to arrive
                        far = where(n + 3)
                        here = getattr(a, s)
                        if far - here < geo.conv(0.5, "km", u) if not cart else far == here:
                            return
                        a.activate_location_state(state=s, speed=1e-3 * (far - here), waypoints=[far], task=None)
                    active.add((a.name, s))
                elif n % 5 == 3 and not on:
                    setattr(a, s, n % 9 + 0.5 if kind == "linear" else where(n))
                else:
                    getattr(a, s)
            elif kind == "place":
                setattr(a, s, None if n % 4 == 2 else where(n))
            elif kind == "dictstate":
                getattr(a, s)[f"k{n % 4}" if n % 4 else "k.0"] = n
            elif kind == "dcstate":
                d = getattr(a, s)
                if n % 2:
                    d.a = n
                else:
                    d.b = f"b{n}"
            elif kind == "res":
                getattr(a, s).put(n)
            else:
                getattr(a, s)["s2" if n % 2 else "s1"].put(1)
            env.run(until=env.now + 1e-9) if kind in ("res", "multi") else None

        def rows_of(name: str, kind: str, s: str, hist: Any, moving: bool) -> list[Any]:
            out: list[Any] = []
            status = "inactive" if moving else None
            for t, v in hist:
                if isinstance(v, ActiveStatus):
                    out[-1] = (*out[-1][:-1], v.name)
                    status = "active" if v is ActiveStatus.activating else "inactive"
                elif isinstance(v, dict):
                    out += [(name, kind, f"{s}.{k}", t, x, status) for k, x in v.items()]
                    mon.hit("keys", len(v))
                elif dataclasses.is_dataclass(v) and not isinstance(v, type):
                    out += [(name, kind, f"{s}.{f.name}", t, getattr(v, f.name), status) for f in dataclasses.fields(v)]
                    mon.hit("fields")
                else:
                    out.append((name, kind, s, t, v, status))
            return out

        def expected(skip: bool, static: bool) -> tuple[list[Any], set[Any]]:
            out: list[Any] = []
            free = set()
            for a in actors:
                kind = type(a).__name__
                for s in a.states:
                    k = s.rstrip("0123456789")
                    rec = rec_of[a.name, s]
                    if k in ("moving", "place") and skip and held(a, s):
                        continue
                    if k == "res":
                        r = getattr(a, s)
                        if rec:
                            out += rows_of(a.name, kind, s, r._quantities, False)
                        elif static:
                            out.append((a.name, kind, s, 0.0, r, "Last Seen"))
                    elif k == "multi":
                        for key in ("s1", "s2"):
                            r = getattr(a, s)[key]
                            if rec:
                                mon.hit("multistore")
                                out += rows_of(a.name, kind, f"{s}.{key}", r._quantities, False)
                            elif static:
                                out.append((a.name, kind, f"{s}.{key}", 0.0, r, "Last Seen"))
                    elif rec and k in ("dictstate", "dcstate"):
                        for key, h in a._state_histories.items():
                            if key.startswith(s + "."):
                                out += rows_of(a.name, kind, key, h, False)
                    elif rec:
                        h = wrote[a.name, s] if (a.name, s) in wrote else a._state_histories[s]
                        out += rows_of(a.name, kind, s, h, k in ("linear", "moving"))
                    elif static:
                        mon.hit("static")
                        v = getattr(a, s)
                        if k == "dictstate":
                            out += [(a.name, kind, f"{s}.{x}", 0.0, y, "Last Seen") for x, y in v.items()]
                        elif k == "dcstate":
                            free.add((a.name, s))
                        else:
                            out.append((a.name, kind, s, 0.0, v, "Last Seen"))
            for r in loose:
                mon.hit("loose")
                out += [(str(r.name), type(r).__name__, "Resource", t, v, None) for t, v in r._quantities]
            return out, free

        def group(rows: Any) -> dict[Any, list[Any]]:
            d: dict[Any, list[Any]] = {}
            for r in rows:
                d.setdefault(r[:3], []).append(r[3:])
            return d

        def compare(got: Any, want: Any, what: str) -> None:
            g, w = group(got), group(want)
            mon.check(g.keys() == w.keys(), f"{what}-states",
                      lambda: f"missing {sorted(w.keys() - g.keys())}, extra {sorted(g.keys() - w.keys())}")
            for k in w:
                mon.eq(g[k], w[k], f"{what}-rows", str(k))

        def tables() -> None:
            before = {a.name: copy.copy({k: len(v) for k, v in a._state_histories.items()}) for a in actors}
            for skip in (True, False):
                for static in (False, True):
                    got, cols = create_table(skip_locations=skip, save_static=static)
                    mon.hit("tables")
                    mon.eq(list(cols), ["Entity Name", "Entity Type", "State Name", "Time", "Value", "Activation Status"], "columns")
                    mon.check(all(len(r) == 6 for r in got), "width", lambda: str([r for r in got if len(r) != 6]))
                    want, free = expected(skip, static)
                    got = [r for r in got if r[2] != "fn" and not any(r[0] == f[0] and r[2].split(".")[0] == f[1] for f in free)]
                    compare(got, want, "table")
                    mon.hit("rows", len(got))
                    for x in ("activating", "active", "deactivating", "inactive"):
                        mon.hit(x, sum(r[5] == x for r in got))
                    if len(got) >= 10:
                        mon.nontrivial = True
                        mon.see(Counter(r[2] for r in got), env.now)
            got, cols = create_table()
            compare([r for r in got if r[2] != "fn"], expected(True, False)[0], "default-table")
            # locations
            got, cols = create_location_table()
            want = []
            # states that hold nothing now are not judged
            got = [x for x in got if held(next(a for a in actors if a.name == x[0]), x[2])]
            for a in actors:
                for s in a.states:
                    k = s.rstrip("0123456789")
                    if k in ("moving", "place") and rec_of[a.name, s] and held(a, s):
                        mon.hit("plain_location", int(k == "place"))
                        for r in rows_of(a.name, type(a).__name__, s, a._state_histories[s], k == "moving"):
                            p = r[4]
                            if p is None:
                                mon.hit("nowhere")
                                continue
                            if cart:
                                xyz = (p.x, p.y, p.z * k_alt if p.use_altitude_units else p.z)
                            else:
                                p = p.to_degrees()
                                xyz = (p.lat, p.lon, p.alt)
                            want.append((*r[:4], *xyz, r[5]))
            mon.hit("locations", len(want))
            if want:
                mon.eq(list(cols), ["Entity Name", "Entity Type", "State Name", "Time", *(["X", "Y", "Z"] if cart else ["Lat", "Lon", "Alt"]),
                                    "Activation Status"], "location-columns")
            g, w = group(got), group(want)
            mon.eq(g.keys(), w.keys(), "location-states")
            for k in w:
                mon.eq(len(g[k]), len(w[k]), "location-rows", str(k))
                for x, y in zip(g[k], w[k]):
                    mon.check(x[0] == y[0] and x[4] == y[4] and all(abs(i - j) <= 2e-6 * (1 + abs(j)) for i, j in zip(x[1:4], y[1:4])),
                              "location-row", lambda: f"{k}: {x} rather than {y}")
            after = {a.name: {k: len(v) for k, v in a._state_histories.items()} for a in actors}
            mon.eq(after, before, "tables-change-histories")
            mon.eq(get_recorded_data(), recorded, "recorded-data")

        for op in spec["ops"]:
            if op[0] == "wait":
                env.run(until=env.now + op[1])
            elif op[0] == "change":
                change(op)
            elif op[0] == "loose" and loose:
                loose[op[1] % len(loose)].put(1 if loose[op[1] % len(loose)] is loose[0] else f"i{op[2]}")
                env.run(until=env.now + 1e-9)
            elif op[0] == "record":
                v = {"n": op[1]}
                record_data(v, copy=bool(op[2] % 2))
                recorded.append((env.now, {"n": op[1]}))
                if op[2] % 2:
                    v["n"] = -1
                mon.hit("recorded")
            elif op[0] == "table":
                tables()


SCENARIOS = [Scenario("tables", gen, run, quick=12000, thorough=365000)]
