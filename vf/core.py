"""Core of the monitors: case runner, violation and evidence bookkeeping.

A check module (vf/checks/cXX.py) declares

    SCENARIOS = [Scenario(name, gen, run, quick=N, thorough=M), ...]
    PROBES    = [Scenario(...)]           # optional: pinned inputs (one case each)
    RULE      = "text"                    # what a case is and what makes it non-trivial
    REQUIRED  = {"hit-name": minimum}     # monitors that must have been reached
    ASSUMPTIONS = ["..."]

`gen(rng)` returns a JSON-able spec; `run(spec, mon)` executes the real code with the monitors
attached and reports through `mon`.  A spec alone replays a case.
"""

from __future__ import annotations

import hashlib
import json
import math
import os
import random
import signal
import sys
import traceback
from collections import Counter
from collections.abc import Callable
from dataclasses import dataclass, field
from typing import Any

REPO_SRC = "/repo/src/upstage_des"


class Violation(Exception):
    def __init__(self, key: str, msg: str):
        # SimPy makes a failed process's exception anew from its args
        super().__init__(key, msg)
        self.key = key
        self.msg = msg


class CaseTimeout(BaseException):
    pass


class Discard(Exception):
    """The generated case is outside the property's domain (counted, not judged)."""


@dataclass
class Scenario:
    name: str
    gen: Callable[[random.Random], Any]
    run: Callable[[Any, "Mon"], None]
    quick: int = 200
    thorough: int = 2000
    cpu_s: float = 20.0


@dataclass
class Mon:
    """Collects what the monitors of one case observed."""

    hits: Counter = field(default_factory=Counter)
    sig: list = field(default_factory=list)
    nontrivial: bool = False
    sample: Any = None

    def hit(self, name: str, n: int = 1) -> None:
        self.hits[name] += n

    def see(self, *what: Any) -> None:
        """Add to the signature of the observed execution."""
        self.sig.append(what)

    def fail(self, key: str, msg: str) -> None:
        raise Violation(key, msg)

    def check(self, ok: bool, key: str, msg: str | Callable[[], str] = "") -> None:
        self.hits["assertions"] += 1
        if not ok:
            raise Violation(key, msg() if callable(msg) else msg)

    def eq(self, got: Any, want: Any, key: str, what: str = "") -> None:
        self.hits["assertions"] += 1
        if not got == want:
            raise Violation(key, f"{what}: observed {got!r}, expected {want!r}")

    def close(self, got: float, want: float, key: str, what: str = "", tol: float = 1e-6) -> None:
        self.hits["assertions"] += 1
        if got == want:
            return
        bad = (
            not isinstance(got, int | float)
            or math.isnan(got)
            or abs(got - want) > tol * max(1.0, abs(want))
        )
        if bad:
            raise Violation(key, f"{what}: observed {got!r}, expected {want!r} (tol {tol})")

    def raises(self, exc: Any, fn: Callable[[], Any], key: str, what: str = "") -> BaseException:
        self.hits["assertions"] += 1
        try:
            r = fn()
        except exc as e:
            return e
        except Exception as e:
            raise Violation(key, f"{what}: raised {type(e).__name__}({e}) not {exc}")
        raise Violation(key, f"{what}: no error raised, returned {r!r}")

    def digest(self) -> str:
        return hashlib.sha1(repr(self.sig).encode()).hexdigest()[:16]


def repo_frames(e: BaseException) -> bool:
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO_SRC):
            return True
        tb = tb.tb_next
    c = e.__cause__ or e.__context__
    return repo_frames(c) if c is not None and c is not e else False


def _alarm(signum: int, frame: Any) -> None:
    raise CaseTimeout()


def run_case(sc: Scenario, spec: Any) -> tuple[Mon, Violation | None, str | None]:
    """Run one case. Returns (monitor, violation, harness_error)."""
    mon = Mon()
    old = signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, sc.cpu_s, 1.0)
    try:
        sc.run(spec, mon)
        signal.setitimer(signal.ITIMER_PROF, 0)
    except Violation as v:
        signal.setitimer(signal.ITIMER_PROF, 0)
        return mon, v, None
    except Discard:
        signal.setitimer(signal.ITIMER_PROF, 0)
        mon.hit("discarded")
        mon.nontrivial = False
    except CaseTimeout:
        signal.setitimer(signal.ITIMER_PROF, 0)
        return mon, Violation("hang", f"case used more than {sc.cpu_s} s of CPU"), None
    except Exception as e:
        signal.setitimer(signal.ITIMER_PROF, 0)
        # A Violation raised inside a simulation process can come back wrapped.
        c: BaseException | None = e
        while c is not None:
            if isinstance(c, Violation):
                return mon, c, None
            if isinstance(c, CaseTimeout):
                return mon, Violation("hang", "case timed out"), None
            c = c.__cause__ or c.__context__
        text = "".join(traceback.format_exception(e))[-3000:]
        if repo_frames(e):
            key = f"exception:{type(e).__name__}"
            return mon, Violation(key, f"legal program raised {type(e).__name__}: {e}\n{text}"), None
        # The scenario is a program on the public interface, so an error raised in it is a changed
        # observable (a missing attribute, None where a value belongs, ...), told apart by its key.
        return mon, Violation(f"unexpected:{type(e).__name__}", f"{e}\n{text}"), None
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    return mon, None, None


def case_rng(seed: int, prop: str, name: str, i: int) -> random.Random:
    return random.Random(f"{seed}/{prop}/{name}/{i}")


def jsonable(x: Any) -> Any:
    return json.loads(json.dumps(x, default=repr))


def run_shard(module: Any, prop: str, tier: str, seed: int, shard: int, shards: int) -> dict:
    out: dict[str, Any] = {
        "evaluations": 0, "hits": Counter(), "digests": {}, "violations": [],
        "errors": [], "samples": [], "per": Counter(),
    }
    digests: dict[str, set] = {}
    for sc in module.SCENARIOS:
        n = sc.quick if tier == "quick" else sc.thorough
        ds = digests.setdefault(sc.name, set())
        nviol = 0
        for i in range(shard, n, shards):
            rng = case_rng(seed, prop, sc.name, i)
            spec = jsonable(sc.gen(rng))
            mon, v, err = run_case(sc, spec)
            out["evaluations"] += 1
            out["per"][sc.name] += 1
            out["hits"].update(mon.hits)
            if mon.nontrivial:
                ds.add(mon.digest())
                if len(out["samples"]) < 2 and mon.sample is not None and len(ds) == 1:
                    out["samples"].append({"scenario": sc.name, "spec": spec, "observed": jsonable(mon.sample)})
            if v is not None:
                out["violations"].append(
                    {"scenario": sc.name, "index": i, "spec": spec, "key": v.key, "msg": v.msg,
                     "hashseed": os.environ.get("PYTHONHASHSEED", "0")}
                )
                nviol += 1
                if nviol >= 3 or v.key == "hang":
                    break
            if err is not None:
                out["errors"].append({"scenario": sc.name, "index": i, "error": err})
                if len(out["errors"]) >= 3:
                    break
    out["digests"] = {k: sorted(v) for k, v in digests.items()}
    out["hits"] = dict(out["hits"])
    out["per"] = dict(out["per"])
    return out


def main_worker() -> None:
    """Entry of a shard process: argv = module prop tier seed shard shards outfile."""
    import importlib
    import warnings

    import resource

    warnings.simplefilter("ignore")
    # A runaway program must end as a MemoryError of its own case, not take the machine down.
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    _, prop, tier, seed, shard, shards, outfile = sys.argv
    module = importlib.import_module(f"vf.checks.{prop.lower()}")
    res = run_shard(module, prop, tier, int(seed), int(shard), int(shards))
    with open(outfile, "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    # one copy of this module, the one that the checks import
    from vf import core

    core.main_worker()
