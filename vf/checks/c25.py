"""C25: point-to-point messages arrive exactly once, in the right store, at the right time."""

import random
from math import ceil
from typing import Any

import simpy as SIM

import upstage_des.api as UP
from upstage_des.communications.processes import generate_comms_wait

from ..core import Mon, Scenario
from ..util import TASK_GEN

PROPERTY = {
    "title": "A point-to-point message arrives once, in its store, at its time, or not",
    "statement": (
        "A message put through a point-to-point manager reaches exactly the destination's store for the manager's "
        "mode (or the connected one), exactly once and with its content, after send_time once its link is free. "
        "It is tried at once and every retry_rate, up to ceil(retry_max_time / retry_rate) more times, and dropped if the "
        "manager is degraded, an end is a blocked node, or the directed link is blocked at each. Messages and managers do "
        "not affect each other. The comms-wait helper calls back once with each content that arrives, in order."
    ),
    "quantifier": {"over": ["inputs", "histories", "schedules"],
                   "text": "every set of managers, modes, messages, and history of blocking and unblocking"},
    "why_tests_cant": "Tests send one or two messages over one link that is blocked throughout or reopened once.",
    "anchors": {
        "files": ["src/upstage_des/communications/comms.py", "src/upstage_des/communications/processes.py",
                  "src/upstage_des/states.py"],
        "mechanism": [{"name": "CommsManagerBase._attempt, _test_if_link_is_blocked, store_from_actor, make_put",
                       "where": "src/upstage_des/communications/comms.py"},
                      {"name": "PointToPointCommsManager._do_transmit", "where": "src/upstage_des/communications/comms.py"},
                      {"name": "CommunicationStore", "where": "src/upstage_des/states.py"}],
        "observe_at": ["items of every store", "time of arrival", "Message fields", "debug_log"],
    },
    "technique": "runtime monitor: exactly-once and delivery-time oracle over recorded arrivals at every store",
}
RULE = (
    "A case is several managers, actors with stores of several modes, messages and block changes. "
    "Non-trivial: a message had to be retried or was dropped; distinct by the arrivals."
)
REQUIRED = {"delivered": 8000, "retried": 1500, "dropped": 800, "by_mode": 4000, "by_connect": 1500, "as_str": 1000,
            "as_dict": 1000, "as_content": 1000, "as_message": 1000, "callback": 1000, "logged": 1000, "no_store": 50,
            "rehearsed": 100, "in_flight_blocked": 100, "same_name": 100,
            "same_message": 300, "odd": 1500, "helped": 300, "shared_input": 500}
ASSUMPTIONS = ["Destination stores have no capacity limit, as documented.",
               "Blocking changes do not coincide with an attempt."]


class Station(UP.Actor):
    uhf = UP.CommunicationStore(modes="uhf")
    multi = UP.CommunicationStore(modes=["vhf", "hf"])
    free = UP.CommunicationStore(modes=None)
    plain = UP.ResourceState[SIM.Store](default=SIM.Store)


class Quiet(UP.Actor):
    plain = UP.ResourceState[SIM.Store](default=SIM.Store)


STORES = {"Station": ["uhf", "multi", "free", "plain"], "Quiet": ["plain"]}


def gen(rng: random.Random) -> Any:
    def at(n: int) -> float:
        return rng.randint(0, n) / 16

    n = rng.randint(2, 5)
    actors = []
    for i in range(n):
        name = rng.choice(["x", f"n{i}"])
        if rng.random() < 0.8:
            actors.append({"cls": "Station", "name": name, "free": rng.choice(["cup", ["cup", "string"], ["x1"], ["x1", "x2", "string", "cup"]]),
                           "uhf": rng.choice([None, None, None, "other", ["uhf", "sat"], ["hf", "x3", "sat"]]),
                           "kind": rng.choice([None, None, "simpy"])})
        else:
            actors.append({"cls": "Quiet", "name": name})
    managers = []
    for mode in rng.sample(["uhf", "vhf", "hf", "cup", "string", "sat", None], rng.randint(1, 4)):
        rate = rng.choice([1, 2, 3, 4, 5, 8, 16]) / 16
        longest = rng.choice([0, 1, 2, 3, 4, 5, 7, 10, 16]) / 16 * rng.choice([1, 1, 4])
        if rng.random() < 0.2:
            # just more than a number of tries
            longest = rate * (rng.randint(1, 6) + rng.choice([1 / 64, 1 / 1024, 63 / 64]))
        con = {}
        for i, a in enumerate(actors):
            if rng.random() < (1 if mode is None else 0.2):
                con[i] = rng.choice(STORES[a["cls"]])
        managers.append({"mode": mode, "send": rng.choice([0, 0, 1 / 16, 0.5, 2]), "rate": rate,
                         "max": longest,
                         "connect": sorted(con.items()), "init": rng.random() < 0.5, "log": rng.random() < 0.5,
                         "default": rng.random() < 0.1})
    msgs = []
    for i in range(rng.randint(1, 14)):
        msgs.append({"at": at(160), "mgr": rng.randrange(len(managers)), "src": rng.randrange(n), "dst": rng.randrange(n),
                     "form": rng.choice(["str", "dict", "content", "message"]), "hold": rng.choice([0, 0, 0, 0.5]), "own": rng.choice([None, "uhf", "own"])})
    changes = []
    for _ in range(rng.randint(0, 12)):
        what = rng.choice(["degraded", "link", "link", "node"])
        changes.append({"at": at(200) + 1 / 1024, "mgr": rng.randrange(len(managers)), "what": what,
                        "u": rng.randrange(n), "v": rng.randrange(n)})
    return {"actors": actors, "managers": managers, "msgs": sorted(msgs, key=lambda m: m["at"]),
            "changes": sorted(changes, key=lambda m: m["at"])}


def modes_of(a: Any, store: str) -> set[str]:
    if store == "plain" or a["cls"] == "Quiet":
        return set()
    m = {"uhf": a["uhf"] or "uhf", "multi": ["vhf", "hf"], "free": a["free"]}[store]
    return {m} if isinstance(m, str) else set(m)


def target(spec: Any, m: Any, dst: int) -> str | None:
    con = dict(m["connect"])
    if dst in con:
        return con[dst]
    a = spec["actors"][dst]
    for s in STORES[a["cls"]]:
        if m["mode"] in modes_of(a, s):
            return s
    return None


def blocked(spec: Any, mgr: int, src: int, dst: int, t: float) -> bool:
    """The state of blocking at a time, from the list of changes."""
    deg, nodes, links = False, [], []
    for c in spec["changes"]:
        if c["mgr"] != mgr or c["at"] > t:
            continue
        if c["what"] == "degraded":
            deg = not deg
        elif c["what"] == "node":
            nodes.remove(c["u"]) if c["u"] in nodes else nodes.append(c["u"])
        else:
            k = (c["u"], c["v"])
            links.remove(k) if k in links else links.append(k)
    return deg or src in nodes or dst in nodes or (src, dst) in links


def expected(spec: Any, k: int) -> tuple[str, float, int, float]:
    """(outcome, time, retries, time it was sent on)."""
    msg = spec["msgs"][k]
    m = spec["managers"][msg["mgr"]]
    t = msg["at"] + msg["hold"]
    tries = ceil(m["max"] / m["rate"])
    for n in range(tries + 1):
        if not blocked(spec, msg["mgr"], msg["src"], msg["dst"], t):
            return "sent", t + m["send"], n, t
        if n < tries:
            t += m["rate"]
    return "dropped", t, tries, t


def run(spec: Any, mon: Mon) -> None:
    arrived: list[tuple[Any, ...]] = []
    heard: list[tuple[Any, ...]] = []
    with UP.EnvironmentContext() as env:
        actors = []
        # actors that are given the same are given the same object
        inputs: dict[str, Any] = {}
        for a in spec["actors"]:
            if a["cls"] == "Quiet":
                actors.append(Quiet(name=a["name"]))
                continue
            kw: dict[str, Any] = {"free": {"modes": a["free"]}}
            if a["kind"]:
                kw["free"]["kind"] = SIM.Store
            if a["uhf"]:
                kw["uhf"] = {"modes": a["uhf"]}
            for k, v in kw.items():
                mon.hit("shared_input", int(repr(v) in inputs))
                kw[k] = inputs.setdefault(repr(v), v)
            actors.append(Station(name=a["name"], **kw))
            mon.check(all(k == repr(v) for k, v in inputs.items()), "input-changed", lambda: f"{inputs}")
        names = [a["name"] for a in spec["actors"]]
        mon.hit("same_name", int(len(set(names)) < len(names)))

        mgrs = []
        for n, m in enumerate(spec["managers"]):
            kw = {} if m["default"] else {"send_time": m["send"], "retry_max_time": m["max"], "retry_rate": m["rate"]}
            if m["default"]:
                m["send"], m["max"], m["rate"] = 0.0, 1.0, 0.166667
            con = [(actors[i], s) for i, s in m["connect"]]
            if m["init"]:
                kw["init_entities"] = con
            mgr = UP.PointToPointCommsManager(name=f"m{n}", mode=m["mode"], debug_logging=m["log"], **kw)
            if not m["init"]:
                for a, s in con:
                    mgr.connect(a, s)
            mgr.run()
            mgrs.append(mgr)

        want = []
        for k, msg in enumerate(spec["msgs"]):
            m = spec["managers"][msg["mgr"]]
            store = target(spec, m, msg["dst"])
            what, t, n, free = expected(spec, k)
            if store is None and what == "sent":
                mon.hit("no_store")
                msg["skip"] = True
                continue
            want.append((k, what, t, n, store))
            if what == "sent" and m["send"] and blocked(spec, msg["mgr"], msg["src"], msg["dst"], t):
                mon.hit("in_flight_blocked")

        sent: dict[int, Any] = {}

        class Send(UP.Task):
            k: int

            def task(self, *, actor: UP.Actor) -> TASK_GEN:
                msg = spec["msgs"][self.k]
                yield UP.Wait(msg["at"])
                src, dst, mgr = actors[msg["src"]], actors[msg["dst"]], mgrs[msg["mgr"]]
                form = msg["form"]
                mon.hit("as_" + form)
                what: Any
                if form == "str":
                    what = f"text {self.k}"
                elif form == "dict":
                    what = {"k": self.k}
                elif form == "content":
                    what = UP.MessageContent(data={"k": self.k}, message=f"text {self.k}")
                else:
                    what = UP.Message(src, UP.MessageContent(data={"k": self.k}), dst, header=f"h{self.k}", mode=msg["own"])
                put = mgr.make_put(what, src, dst, rehearsal_time_to_complete=self.k / 8)
                if msg["hold"]:
                    yield UP.Wait(msg["hold"])
                sent[self.k] = what
                yield put

        def listener(i: int, name: str) -> Any:
            store = getattr(actors[i], name)
            while True:
                x = yield store.get()
                arrived.append((env.now, i, name, x))

        for i, a in enumerate(spec["actors"]):
            for s in STORES[a["cls"]]:
                if s == "free":
                    # the documented helper, with what it passes on
                    def cb(content: Any, i: int = i) -> None:
                        heard.append((env.now, i, content))

                    # every other one uses the helper
                    if i % 2:
                        generate_comms_wait(actors[i].free, cb)()
                        continue
                env.process(listener(i, s))

        def changes() -> Any:
            for c in spec["changes"]:
                yield env.timeout(c["at"] - env.now)
                mgr = mgrs[c["mgr"]]
                if c["what"] == "degraded":
                    mgr.comms_degraded = not mgr.comms_degraded
                elif c["what"] == "node":
                    a = actors[c["u"]]
                    if a in mgr.blocked_nodes:
                        mgr.blocked_nodes.remove(a)
                    else:
                        mgr.blocked_nodes.append(a)
                else:
                    k = (actors[c["u"]], actors[c["v"]])
                    if k in mgr.blocked_links:
                        mgr.blocked_links.remove(k)
                    else:
                        mgr.blocked_links.append(k)

        env.process(changes())
        for k, msg in enumerate(spec["msgs"]):
            if msg.get("skip"):
                continue
            t = Send()
            t.k = k
            if k % 4 == 0 and not mon.hits["rehearsed"]:
                mon.hit("rehearsed")
                c = t.rehearse(actor=actors[0])
                mon.eq(c.env.now, msg["at"] + msg["hold"] + k / 8, "rehearsed", "time of the rehearsed sending")
                mon.eq(sum(len(m.incoming.items) for m in mgrs), 0, "rehearsed-sent", "messages sent by a rehearsal")
                sent.clear()
            t.run(actor=actors[msg["src"]])
        env.run(until=60)

        # which of the arrivals is which message
        got: dict[int, list[Any]] = {}

        def key(content: Any) -> int:
            if content.data and "k" in content.data:
                return int(content.data["k"])
            return int(content.message.split()[1])

        for t, i, name, x in arrived:
            mon.check(isinstance(x, UP.Message), "kind", f"arrived: {x!r}")
            k = key(x.content)
            msg = spec["msgs"][k]
            got.setdefault(k, []).append((t, i, name))
            mon.check(x.sender is actors[msg["src"]] and x.destination is actors[msg["dst"]], "ends", f"message {k}: {x!r}")
            mon.eq(x.time_sent, t, "time_sent", f"time sent of message {k}")
            mon.eq(x.time_created, msg["at"], "time_created", f"time of creation of message {k}")
            if msg["form"] == "str":
                mon.eq((x.content.data, x.content.message), ({}, f"text {k}"), "content", f"message {k}")
            elif msg["form"] == "dict":
                mon.eq((x.content.data, x.content.message), ({"k": k}, None), "content", f"message {k}")
            elif msg["form"] == "content":
                mon.check(x.content is sent[k] and x.content.message == f"text {k}", "content", f"message {k}")
            else:
                mon.check(x is sent[k] and x.header == f"h{k}", "same-message", f"message {k}")
                mon.eq(x.mode, msg["own"], "own-mode", f"mode of message {k}, made by the sender")
            if msg["form"] != "message":
                mon.eq(x.mode, spec["managers"][msg["mgr"]]["mode"], "mode", f"mode of message {k}")
        for t, i, content in heard:
            mon.check(isinstance(content, UP.MessageContent), "callback-kind", f"callback got {content!r}")
            got.setdefault(key(content), []).append((t, i, "free"))
            mon.hit("callback")

        for k, what, t, n, store in want:
            msg = spec["msgs"][k]
            m = spec["managers"][msg["mgr"]]
            mon.hit("retried", int(n > 0))
            if what == "dropped":
                mon.hit("dropped")
                mon.eq(got.get(k, []), [], "dropped", f"message {k} blocked at all of its {n} retries, to {t}")
            else:
                mon.hit("delivered")
                mon.hit("by_connect" if msg["dst"] in dict(m["connect"]) else "by_mode")
                a = got.get(k, [])
                mon.eq([x[1:] for x in a], [(msg["dst"], store)], "once", f"arrivals of message {k} on {m['mode']}")
                mon.close(a[0][0], t, "time", f"arrival of message {k} after {n} retries", tol=1e-9)
            mine = [e for e in mgrs[msg["mgr"]].debug_log
                    if (e["message"].content.data.get("k") == k or e["message"].content.message == f"text {k}")]
            if not m["log"]:
                mon.eq(mine, [], "log-off", "entries with logging off")
            else:
                mon.hit("logged")
                mon.eq(len(mine), n + 1, "log", f"log entries of message {k} with {n} retries")
                base = msg["at"] + msg["hold"]
                for j, e in enumerate(mine[:-1]):
                    mon.close(e["time"], base + j * m["rate"], "log-time", f"attempt {j}", tol=1e-9)
                mon.close(mine[-1]["time"], t, "log-end", "end of the message", tol=1e-9)
                mon.check(all(e["current"] is actors[msg["src"]] and e["destination"] is actors[msg["dst"]] for e in mine),
                          "log-ends", f"ends in the log of {k}")
        mon.eq(sorted(got), sorted(k for k, what, *_ in want if what == "sent"), "delivered-set", "messages delivered")
        # per manager and link, equal retries keep the order: messages of one instant arrive as sent
        mon.nontrivial = any(n for *_, n, _ in want)
        mon.see([(x[0], *x[1:3]) for x in arrived], [what for _, what, *_ in want])
        mon.sample = {"messages": [(k, what, t, n) for k, what, t, n, _ in want][:8],
                      "arrivals": [(t, i, name) for t, i, name, _ in arrived][:8]}


def gen_nostore(rng: random.Random) -> Any:
    return {"mode": rng.choice([None, "sat", "uhf", "CUP", "Cup", "cu", "cupp", " cup", "up", "", "NO", "n"]), "cls": rng.choice(["Quiet", "Station"]), "send": rng.choice([0, 1])}


def run_nostore(spec: Any, mon: Mon) -> None:
    """A destination with no store for the mode is an error when the message gets there."""
    with UP.EnvironmentContext() as env:
        a = Station(name="a", free={"modes": "cup"})
        b = Quiet(name="b") if spec["cls"] == "Quiet" else Station(name="b", free={"modes": "cup"}, uhf={"modes": "no"})
        m = UP.PointToPointCommsManager(name="m", mode=spec["mode"], send_time=spec["send"])
        m.run()

        def go() -> Any:
            yield env.timeout(1)
            yield m.make_put("x", a, b).as_event()

        env.process(go())
        mon.raises(UP.SimulationError, lambda: env.run(until=10), "no-store", "message to an actor without a store")
        mon.eq(env.now, 1 + spec["send"], "no-store-time", "time of the error")
        mon.hit("no_store")
        mon.raises(UP.SimulationError, lambda: Station(name="c"), "no-mode", "a store with no mode at all")
    mon.nontrivial = True
    mon.see(spec["mode"], spec["cls"], spec["send"])


ODD: list[Any] = ["", {}, {"k": None}, "x", ("c", {}, None), ("c", {"a": 1}, ""), ("c", {}, "y")]


def gen_reused(rng: random.Random) -> Any:
    mgrs = [{"mode": m, "send": rng.choice([0, 0, 0.5, 2])} for m in rng.sample(["uhf", "vhf", "hf", "cup"], rng.randint(1, 3))]
    msgs = []
    for _ in range(rng.randint(1, 5)):
        msgs.append({"what": rng.randrange(len(ODD)), "same": rng.random() < 0.5,
                     "sends": sorted([rng.randint(0, 80) / 8 + rng.randrange(1, 2**20) / 2**24, rng.randrange(len(mgrs))]
                                     for _ in range(rng.randint(1, 4)))})
        if rng.random() < 0.3:
            # once more, in the same instant
            msgs[-1]["sends"].insert(0, list(msgs[-1]["sends"][0]))
    return {"mgrs": mgrs, "msgs": msgs}


def run_reused(spec: Any, mon: Mon) -> None:
    """Whatever is said, however often, and by whichever way."""
    arrived: list[Any] = []
    want: list[Any] = []
    with UP.EnvironmentContext() as env:
        a = Station(name="a", free={"modes": "cup"})
        b = Station(name="b", free={"modes": "cup"})
        mgrs = [UP.PointToPointCommsManager(name="m", mode=m["mode"], send_time=m["send"]) for m in spec["mgrs"]]
        for m in mgrs:
            m.run()

        def listen(who: str, actor: Any, store: str) -> Any:
            while True:
                x = yield getattr(actor, store).get()
                arrived.append((env.now, who, store, x.content.data, x.content.message, x.time_sent))
                if not isinstance(x, UP.Message):
                    arrived.append("not a message")
                mon.check(x.sender is a and x.destination is b, "ends", repr(x))

        def go(msg: Any) -> Any:
            what = ODD[msg["what"]]
            content = UP.MessageContent(dict(what[1]), what[2]) if isinstance(what, tuple) else what
            if msg["same"]:
                if not isinstance(what, tuple):
                    content = UP.MessageContent({"z": what})
                content = UP.Message(a, content, b)
                mon.hit("same_message", int(len(msg["sends"]) > 1))
            for t, n in msg["sends"]:
                if t > env.now:
                    yield env.timeout(t - env.now)
                mgrs[n].make_put(content, a, b).as_event()
            yield env.timeout(0)

        for msg in spec["msgs"]:
            what = ODD[msg["what"]]
            data, text = ((what[1], what[2]) if isinstance(what, tuple) else ({"z": what}, None) if msg["same"]
                          else (what, None) if isinstance(what, dict) else ({}, what))
            for t, n in msg["sends"]:
                m = spec["mgrs"][n]
                at = t + m["send"]
                store = {"uhf": "uhf", "vhf": "multi", "hf": "multi", "cup": "free"}[m["mode"]]
                want.append((at, "b", store, data, text, at))
            env.process(go(msg))
            mon.hit("odd", len(msg["sends"]))
        for who, actor in (("a", a), ("b", b)):
            for store in STORES["Station"]:
                env.process(listen(who, actor, store))
        env.run(until=20)
        key = repr
        mon.eq(sorted([(round(x[0], 9), *x[1:5], round(x[5], 9)) for x in arrived], key=key),
               sorted([(round(x[0], 9), *x[1:5], round(x[5], 9)) for x in want], key=key), "arrivals", "all arrivals")
    mon.nontrivial = len(want) > 1
    mon.see(sorted(map(repr, want)))


def gen_helper(rng: random.Random) -> Any:
    return {"puts": [[rng.choice([0.0, rng.randint(0, 40) / 8]), rng.choice(["text", "", "message", "content", "none"]), i]
                     for i in range(rng.randint(1, 6))], "monitored": rng.random() < 0.5}


def run_helper(spec: Any, mon: Mon) -> None:
    """The helper passes on each thing of a store, once, in order, whatever it is."""
    got: list[Any] = []
    with UP.EnvironmentContext() as env:
        a = Station(name="a", free={"modes": "cup"})
        store: Any = a.free if spec["monitored"] else SIM.Store(env)
        want = []
        generate_comms_wait(store, lambda c: got.append((env.now, c)))()
        for at, form, i in sorted(spec["puts"], key=lambda p: p[0]):
            if form == "message":
                x: Any = UP.Message(a, UP.MessageContent({"i": i}), a)
                c: Any = x.content
            elif form == "content":
                x = UP.Message(a, UP.MessageContent({}, f"m{i}"), a)
                c = x.content
            else:
                x = {"text": f"t{i}", "": "", "none": None}[form]
                c = None
            want.append((at, x, c))

        def put() -> Any:
            for at, x, _ in want:
                yield env.timeout(at - env.now)
                yield store.put(x)

        env.process(put())
        env.run(until=10)
        mon.eq([t for t, _ in got], [at for at, *_ in want], "helper-times", f"calls for {want}")
        for (_, c), (_, x, own) in zip(got, want):
            if own is not None:
                mon.check(c is own, "helper-message", f"for {x!r} got {c!r}")
            else:
                mon.check(isinstance(c, UP.MessageContent), "helper-kind", f"for {x!r} got {c!r}")
                mon.eq((c.data, c.message), ({"message": x}, None), "helper-plain", f"for {x!r}")
        mon.eq(len(store.items), 0, "helper-left", "items left")
    mon.hit("helped", len(want))
    mon.nontrivial = len(want) > 1
    mon.see(spec["puts"])


SCENARIOS = [Scenario("helper", gen_helper, run_helper, quick=1200, thorough=15900),
             Scenario("reused", gen_reused, run_reused, quick=2400, thorough=26500),
             Scenario("messages", gen, run, quick=24000, thorough=397500),
             Scenario("nostore", gen_nostore, run_nostore, quick=60, thorough=100)]
