"""C26: a routing manager takes the documented steps through the network it has at the time."""

import random
from math import ceil
from typing import Any

import upstage_des.api as UP
from upstage_des.communications.routing import RoutingCommsManagerBase

from ..core import Mon, Scenario
from ..util import TASK_GEN

PROPERTY = {
    "title": "Routed messages take the documented steps through the network",
    "statement": (
        "A message put through a routing manager moves, hop by hop, to the next node on a shortest route from where it is "
        "at that time, retrying a blocked hop as documented; a hop that stays blocked is left out of its routes (until its "
        "next move, or for good with global_ignore). It arrives exactly once in its destination's store at the time those "
        "steps take, or is dropped where no route remains; no other store and no other message is affected."
    ),
    "quantifier": {"over": ["inputs", "histories", "schedules"],
                   "text": "every network, change of network, blocking history, and set of concurrent messages"},
    "why_tests_cant": "Tests use the one network of the documentation with one message and one or two blocked nodes.",
    "anchors": {
        "files": ["src/upstage_des/communications/routing.py", "src/upstage_des/communications/comms.py"],
        "mechanism": [{"name": "RoutingCommsManagerBase._do_transmit", "where": "src/upstage_des/communications/routing.py"},
                      {"name": "RoutingTableCommsManager.select_hop, connect_nodes, _shortest_path",
                       "where": "src/upstage_des/communications/routing.py"},
                      {"name": "CommsManagerBase._attempt", "where": "src/upstage_des/communications/comms.py"}],
        "observe_at": ["arrivals at every store", "message.time_sent", "debug_log", "calls to select_hop"],
    },
    "technique": "runtime monitor: recorded arrivals and moves compared with the set of behaviours of a reference router",
}
RULE = (
    "A case is a network with changes over time, block changes and messages, or a custom select_hop. "
    "Non-trivial: a message was re-planned or dropped; distinct by the arrivals and moves."
)
REQUIRED = {"delivered": 3000, "replanned": 1000, "no_route": 800, "multi_hop": 2000, "global_ignore": 1000,
            "two_way": 1000, "logged": 1000, "to_self": 100, "edge_added": 300, "returned_to_ignored": 50, "custom": 500,
            "hop_calls": 1000, "ambiguous": 100, "errors": 40}
ASSUMPTIONS = ["Of equally short routes any may be taken.", "Node names are unique.", "A hop or a failed hop takes time.",
               "Changes do not coincide with a step of a message."]


class Node(UP.Actor):
    messages = UP.CommunicationStore(modes=None)
    other = UP.CommunicationStore(modes="other")


def gen(rng: random.Random) -> Any:
    def at(n: int) -> float:
        return rng.randint(0, n) / 16

    busy = rng.random() < 0.25
    span = 48 if busy else 160
    n = rng.randint(4, 6) if busy else rng.randint(2, 8)
    edges = []
    dense = rng.choice([0.15, 0.3, 0.5]) if not busy else rng.choice([0.3, 0.5])
    for u in range(n):
        for v in range(n):
            if u != v and rng.random() < dense:
                late = rng.random() < 0.1
                edges.append([u, v, rng.random() < 0.2, at(span) + 1 / 1024 if late else 0])
    if rng.random() < 0.5:
        # a chain, so that there are long routes
        p = rng.sample(range(n), n)
        edges += [[u, v, rng.random() < 0.3, 0] for u, v in zip(p, p[1:])]
    rng.shuffle(edges)
    rate = rng.choice([1, 2, 4, 8, 8 * 0.3333340]) / 16
    nodes, t = [], 0.0
    changes = []
    for _ in range(rng.choice([0, 2, 4, 8]) if not busy else 16):
        what = rng.choice(["degraded", "link", "link", "node", "node", "node"]) if not busy else "node"
        if what == "link" and edges:
            u, v = rng.choice(edges)[:2]
            if rng.random() < 0.2:
                u, v = v, u
        else:
            u, v = rng.randrange(n), rng.randrange(n)
        start = 0 if rng.random() < 0.4 else at(span)
        changes.append({"at": start + 1 / 1024, "what": what, "u": u, "v": v})
        if rng.random() < 0.5 or what == "degraded":
            changes.append({"at": start + at(rng.choice([8, 24, 100]) if busy else 100) + 3 / 1024, "what": what, "u": u, "v": v})
    msgs = [{"at": at(span) + 1 / 64, "src": rng.randrange(n), "dst": rng.randrange(n)} for _ in range(rng.randint(1, 8))]
    most = rate * rng.randint(0, 4) - rng.choice([0, 0, rate / 2, 0])
    if rate not in (1 / 16, 1 / 8, 1 / 4, 1 / 2):
        rate, most = 0.166667, 1.0  # the documented defaults
    # with steps that take no time, a message could go round and round within one instant
    return {"n": n, "edges": edges, "rate": rate, "max": most,
            "send": rng.choice([0 if most > 0 else 1 / 8, 1 / 16, 0.25, 1]), "ignore": rng.random() < (0.7 if busy else 0.4), "log": rng.random() < 0.5,
            "changes": sorted(changes, key=lambda c: c["at"]), "msgs": sorted(msgs, key=lambda m: m["at"]),
            "isolated": rng.random() < 0.2}


def blocked(spec: Any, u: int, v: int, t: float) -> bool:
    deg, nodes, links = False, set(), set()
    for c in spec["changes"]:
        if c["at"] > t:
            break
        if c["what"] == "degraded":
            deg = not deg
        elif c["what"] == "node":
            nodes ^= {c["u"]}
        else:
            links ^= {(c["u"], c["v"])}
    return deg or u in nodes or v in nodes or (u, v) in links


def hops(spec: Any, u: int, v: int, out: frozenset[int], t: float) -> set[int]:
    """The nodes that are first on a shortest route at a time."""
    adj: dict[int, set[int]] = {}
    for a, b, two, since in spec["edges"]:
        if since <= t:
            adj.setdefault(a, set()).add(b)
            if two:
                adj.setdefault(b, set()).add(a)
    # distance to v, going back from it
    if v in out:
        return set()
    dist = {v: 0}
    level = [v]
    while level:
        nxt = []
        for x in level:
            for a, bs in adj.items():
                if x in bs and a not in dist and a not in out:
                    dist[a] = dist[x] + 1
                    nxt.append(a)
        level = nxt
    opts = {b for b in adj.get(u, set()) if b in dist and b != u}
    best = min((dist[b] for b in opts), default=None)
    return {b for b in opts if dist[b] == best}


def behaviours(spec: Any, msg: Any, limit: int = 4000) -> set[tuple[Any, ...]] | None:
    """All (outcome, time, moves, replans) a message may have, with ties taken either way."""
    res: set[tuple[Any, ...]] = set()
    tries = ceil(spec["max"] / spec["rate"]) if spec["max"] > 0 else 0
    todo = [(msg["src"], msg["at"], frozenset[int](), (), 0, False)]
    steps = 0
    while todo:
        cur, t, out, moves, replans, back = todo.pop()
        steps += 1
        if steps > limit:
            return None
        if t > 200:
            res.add(("going", None, None, replans, back))
            continue
        if cur == msg["dst"]:
            res.add(("arrived", t, moves, replans, back))
            continue
        opts = hops(spec, cur, msg["dst"], out, t)
        if not opts:
            res.add(("dropped", t, moves, replans, back))
        for h in opts:
            tt = t
            for k in range(tries + 1):
                if not blocked(spec, cur, h, tt):
                    todo.append((h, tt + spec["send"], out if spec["ignore"] else frozenset(),
                                 (*moves, (cur, h, tt)), replans, back or bool(out)))
                    break
                if k < tries:
                    tt += spec["rate"]
            else:
                todo.append((cur, tt, out | {h}, moves, replans + 1, back))
    return res


def given(spec: Any, **more: Any) -> dict:
    """The manager's arguments, without those that are the defaults."""
    kw = {"send_time": spec["send"], "retry_max_time": spec["max"], "retry_rate": spec["rate"],
          "global_ignore": spec["ignore"], **more}
    usual = {"send_time": 0, "retry_max_time": 1.0, "retry_rate": 0.166667, "global_ignore": False,
             "debug_logging": False}
    return {k: v for k, v in kw.items() if v != usual[k]}


def run(spec: Any, mon: Mon) -> None:
    arrived: list[Any] = []
    with UP.EnvironmentContext() as env:
        nodes = [Node(name=f"n{i}", messages={"modes": ["cup", "x"]}) for i in range(spec["n"])]
        mgr = UP.RoutingTableCommsManager(name="m", mode="cup", **given(spec, debug_logging=spec["log"]))
        for u, v, two, since in spec["edges"]:
            if not since:
                if two:
                    mgr.connect_nodes(nodes[u], nodes[v], two_way=True)
                    mon.hit("two_way")
                else:
                    mgr.connect_nodes(nodes[u], nodes[v])
        mgr.run()

        def late(u: int, v: int, two: bool, since: float) -> Any:
            yield env.timeout(since)
            mgr.connect_nodes(nodes[u], nodes[v], two)
            mon.hit("edge_added")

        for e in spec["edges"]:
            if e[3]:
                env.process(late(*e))

        def changes() -> Any:
            for c in spec["changes"]:
                yield env.timeout(c["at"] - env.now)
                if c["what"] == "degraded":
                    mgr.comms_degraded = not mgr.comms_degraded
                    continue
                lst: Any = mgr.blocked_nodes if c["what"] == "node" else mgr.blocked_links
                k: Any = nodes[c["u"]] if c["what"] == "node" else (nodes[c["u"]], nodes[c["v"]])
                if k in lst:
                    lst.remove(k)
                else:
                    lst.append(k)

        env.process(changes())

        class Send(UP.Task):
            k: int

            def task(self, *, actor: UP.Actor) -> TASK_GEN:
                msg = spec["msgs"][self.k]
                yield UP.Wait(msg["at"])
                yield mgr.make_put({"k": self.k}, nodes[msg["src"]], nodes[msg["dst"]])

        for k, msg in enumerate(spec["msgs"]):
            t = Send()
            t.k = k
            t.run(actor=nodes[msg["src"]])

        def listen(i: int, name: str) -> Any:
            while True:
                x = yield getattr(nodes[i], name).get()
                arrived.append((env.now, i, name, x))

        for i in range(spec["n"]):
            env.process(listen(i, "messages"))
            env.process(listen(i, "other"))
        env.run(until=100)

        got: dict[int, list[Any]] = {}
        for t, i, name, x in arrived:
            got.setdefault(x.content.data["k"], []).append((t, i, name, x.time_sent))
        seen = []
        for k, msg in enumerate(spec["msgs"]):
            want = behaviours(spec, msg)
            if want is None:
                continue
            mine = got.get(k, [])
            mon.check(len(mine) <= 1, "once", lambda: f"arrivals of message {k}: {mine}")
            mon.hit("ambiguous", int(len({w[:2] for w in want}) > 1))
            times = {w[1] for w in want if w[0] == "arrived" and w[1] <= 99}
            may_not = any(w[0] != "arrived" or w[1] > 99 for w in want)
            if mine:
                t, i, name, sent = mine[0]
                mon.eq((i, name), (msg["dst"], "messages"), "store", f"message {k} arrived at")
                mon.check(any(abs(t - w) < 1e-9 for w in times), "time",
                          lambda: f"message {k} arrived at {t}, possible: {sorted(want, key=repr)}")
                mon.eq(sent, t, "time_sent", f"time sent of message {k}")
                mon.hit("delivered")
            else:
                mon.check(may_not, "lost", lambda: f"message {k} never arrived, possible: {sorted(want, key=repr)}")
                mon.hit("no_route", int(all(w[0] == "dropped" for w in want)))
            mon.hit("replanned", int(all(w[3] for w in want)))
            mon.hit("multi_hop", int(all(w[2] and len(w[2]) > 1 for w in want)))
            mon.hit("global_ignore", int(spec["ignore"]))
            mon.hit("to_self", int(msg["src"] == msg["dst"]))
            mon.hit("returned_to_ignored", int(any(w[4] for w in want) and not spec["ignore"]))
            log = [e for e in mgr.debug_log if e["message"].content.data["k"] == k]
            if spec["log"]:
                mon.hit("logged")
                moves = tuple((nodes.index(e["current"]), nodes.index(e["destination"]), e["time"])
                              for e in log if e["event"] == "Moved message")
                ok = [w for w in want if w[0] == "going" or (w[1] > 99 and w[2][:len(moves)] == moves) or w[2] == moves]
                mon.check(bool(ok), "moves", lambda: f"message {k} moved {moves}, possible: {sorted(want, key=repr)}")
                for e in log:
                    mon.check(e["time"] >= msg["at"], "log-time", f"{e['time']}")
            else:
                mon.eq(log, [], "log-off", "entries with logging off")
            seen.append((k, [m[:2] for m in mine]))
            if any(w[3] or w[0] == "dropped" for w in want):
                mon.nontrivial = True
        mon.see(seen, spec["edges"])
        mon.sample = {"arrived": seen[:6]}


def gen_custom(rng: random.Random) -> Any:
    n = rng.randint(2, 6)
    return {"n": n, "path": [rng.randrange(n) for _ in range(rng.randint(1, 6))], "end": rng.random() < 0.3,
            "bad": [rng.random() < 0.3 for _ in range(12)], "send": rng.choice([0, 0.5]), "ignore": rng.random() < 0.5,
            **rng.choice([{"rate": 0.25, "max": m} for m in (0, 0.5, 1)] + [{"rate": 0.166667, "max": 1.0}])}


def run_custom(spec: Any, mon: Mon) -> None:
    """A router of one's own: select_hop is asked at each place, and what it says is done."""
    calls: list[Any] = []

    class Mine(RoutingCommsManagerBase):
        def select_hop(self, source: Any, dest: Any, ignore_nodes: Any = None) -> Any:
            calls.append((env.now, nodes.index(source), nodes.index(dest), [nodes.index(x) for x in ignore_nodes or []]))
            if len(calls) > len(answers):
                return None
            a = answers[len(calls) - 1]
            # block the way to it, or not
            self.blocked_links.clear()
            if a is not None and spec["bad"][len(calls) - 1]:
                self.blocked_links.append((source, nodes[a]))
            return None if a is None else nodes[a]

    with UP.EnvironmentContext() as env:
        nodes = [Node(name=f"n{i}", messages={"modes": "cup"}) for i in range(spec["n"] + 2)]
        dst = spec["n"] + 1
        src = spec["n"]
        answers: list[Any] = [*spec["path"]] + ([None] if spec["end"] else [dst] * 6)
        m = Mine(name="m", mode="cup", **given(spec))
        m.run()

        def go() -> Any:
            yield env.timeout(1)
            yield m.make_put("x", nodes[src], nodes[dst]).as_event()

        env.process(go())
        env.run(until=100)
        # replay by the documented steps
        t, cur, bad = 1.0, src, list[int]()
        want: list[Any] = []
        tries = ceil(spec["max"] / spec["rate"])
        arrives = None
        n = 0
        while True:
            if cur == dst:
                arrives = t
                break
            want.append((t, cur, dst, list(bad)))
            a = answers[n] if n < len(answers) else None
            if a is None:
                break
            if spec["bad"][n]:
                for _ in range(tries):
                    t += spec["rate"]
                bad.append(a)
            else:
                t += spec["send"]
                cur = a
                if not spec["ignore"]:
                    bad = []
            n += 1
        mon.eq(calls, want, "hop-calls", "calls to select_hop")
        items = nodes[dst].messages.items
        mon.eq([x.time_sent for x in items], [] if arrives is None else [arrives], "custom-arrival", "arrival")
        mon.eq(sum(len(x.messages.items) for x in nodes), len(items), "custom-other", "messages at other nodes")
        mon.hit("custom")
        mon.hit("hop_calls", len(calls))
        mon.nontrivial = len(calls) > 1
        mon.see(calls)


def gen_err(rng: random.Random) -> Any:
    return {"two": rng.random() < 0.5, "first": rng.random() < 0.5}


def run_err(spec: Any, mon: Mon) -> None:
    with UP.EnvironmentContext():
        a, b = Node(name="a", messages={"modes": "cup"}), Node(name="b", messages={"modes": "string"})
        m = UP.RoutingTableCommsManager(name="m", mode="cup")
        u, v = (a, b) if spec["first"] else (b, a)
        mon.raises(UP.SimulationError, lambda: m.connect_nodes(u, v, two_way=spec["two"]), "connect-nodes",
                   "a node without a store for the mode")
        mon.eq(m.select_hop(a, b), None, "connect-left", "route after a refused connection")
        mon.raises(UP.SimulationError, lambda: m.connect(a, "messages"), "connect", "connect on a routing manager")
        mon.hit("errors")
    mon.nontrivial = True
    mon.see(spec)


SCENARIOS = [Scenario("routes", gen, run, quick=16000, thorough=430000),
             Scenario("custom", gen_custom, run_custom, quick=4000, thorough=86000),
             Scenario("errors", gen_err, run_err, quick=60, thorough=60)]
