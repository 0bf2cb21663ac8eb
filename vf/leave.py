"""A mover that hides from all when it leaves (or enters) the range of some sensor, for both motion managers."""

import random
from typing import Any

import upstage_des.api as UP
from upstage_des.motion.cartesian_model import cartesian_linear_intersection

from .core import Discard, Mon
from .util import TASK_GEN

END = 20.0


class Runner(UP.Actor):
    location = UP.CartesianLocationChangingState()
    seen = UP.DetectabilityState(default=True)


def gen(rng: random.Random) -> Any:
    return {"sensors": [[rng.randint(-22, 22) + i / 64 + 1 / 256, rng.randint(1, 12) + i / 32, rng.choice([None, None, "in", "out", "out"])]
                        for i in range(rng.randint(1, 5))],
            "step": rng.choice([0.7, 1.1, 1.9, 3.3]), "early": rng.random() < 0.3, "trips": rng.randint(1, 3)}


def watch(spec: Any, manager: Any, mon: Mon) -> list[Any]:
    """What the sensors are told by the manager."""
    log: list[Any] = []
    with UP.EnvironmentContext() as env:
        UP.add_stage_variable("distance_units", "m")
        UP.add_stage_variable("altitude_units", "m")

        class Eye:
            def __init__(self, n: int, x: float, r: float, react: Any):
                self.n, self.location, self.radius, self.react = n, UP.CartesianLocation(x, 0.0), r, react

            def told(self, kind: str, e: Any) -> None:
                log.append((round(env.now, 6), self.n, kind))
                if self.react == kind:
                    mon.hit("hid_on_" + kind)
                    e.seen = False

            def entity_entered_range(self, e: Any) -> None:
                self.told("in", e)

            def entity_exited_range(self, e: Any) -> None:
                self.told("out", e)

        man = manager()
        UP.add_stage_variable("motion_manager", man)
        for n, s in enumerate(spec["sensors"]):
            man.add_sensor(Eye(n, *s), radius_attr_name="radius", location_attr_name="location")
        runner = Runner(name="r", location=UP.CartesianLocation(-END, 0.0))

        class Go(UP.Task):
            def task(self, *, actor: Runner) -> TASK_GEN:
                for k in range(spec["trips"]):
                    to = END if k % 2 == 0 else -END
                    actor.activate_location_state(state="location", speed=1.0, waypoints=[UP.CartesianLocation(to, 0.0)], task=self)
                    yield UP.Wait(2 * END)
                    actor.deactivate_all_states(task=self)
                    yield UP.Wait(4.0)
                    if not actor.seen:
                        actor.seen = True
                    yield UP.Wait(1.0)

        if spec["early"] and hasattr(man, "add_detectable"):
            man.add_detectable(runner, "location")
        Go().run(actor=runner)
        env.run()
    return log


def by_crossing(spec: Any) -> list[Any]:
    """What is told by exact times of crossing."""
    log: list[Any] = []
    view: set[int] = set()
    for k in range(spec["trips"]):
        d, t0 = (1 if k % 2 == 0 else -1), k * (2 * END + 5)
        todo = []
        for n, (c, r, _) in enumerate(spec["sensors"]):
            a, b = d * c - r + END, d * c + r + END
            if b <= 0 or a >= 2 * END:
                continue
            if a > 0:
                todo.append((t0 + a, n, "in"))
            elif n not in view:
                todo.append((t0, n, "in"))
            if b < 2 * END:
                todo.append((t0 + b, n, "out"))
        # at the start the sensors are told in their order
        hidden = False
        for t, n, kind in sorted(todo):
            if hidden or (kind == "in") == (n in view):
                continue
            hidden = tell(spec, log, view, round(t, 6), n, kind)
    return log


def tell(spec: Any, log: list[Any], view: set[int], t: float, n: int, kind: str) -> bool:
    log.append((t, n, kind))
    (view.add if kind == "in" else view.discard)(n)
    if spec["sensors"][n][2] == kind:
        for m in sorted(view):
            log.append((t, m, "out"))
        view.clear()
        return True
    return False


def by_step(spec: Any) -> list[Any]:
    log: list[Any] = []
    view: set[int] = set()
    hidden = False
    last = spec["trips"] * (2 * END + 5) - 5
    k = 0
    while True:
        k += 1
        t = k * spec["step"]
        if t > last:
            return log
        trip, s = divmod(t, 2 * END + 5)
        if abs(s - 2 * END) < 1e-9 or s < 1e-9:
            raise Discard()
        if s > 2 * END:
            # stopped, and seen again
            if s > 2 * END + 4:
                hidden = False
            continue
        if s - spec["step"] < 0:
            hidden = False
        x = (s - END) * (1 if trip % 2 == 0 else -1)
        for n, (c, r, _) in enumerate(spec["sensors"]):
            if hidden:
                break
            inside = abs(x - c) <= r
            if inside != (n in view):
                hidden = tell(spec, log, view, round(t, 6), n, "in" if inside else "out")


def judge(spec: Any, mon: Mon, got: list[Any], want: list[Any]) -> None:
    mon.eq(sorted(got), sorted(want), "told", "(time, sensor, what) told")
    for n in range(len(spec["sensors"])):
        kinds = [k for _, m, k in got if m == n]
        mon.eq(kinds, ["in", "out"] * (len(kinds) // 2) + ["in"] * (len(kinds) % 2), "alternate", f"sensor {n}")
    mon.hit("leave_told", len(got))
    mon.nontrivial = bool(got)
    mon.see(got)


def run_sensor(spec: Any, mon: Mon) -> None:
    want = by_crossing(spec)
    judge(spec, mon, watch(spec, lambda: UP.SensorMotionManager(cartesian_linear_intersection), mon), want)


def run_stepped(spec: Any, mon: Mon) -> None:
    want = by_step(spec)
    judge(spec, mon, watch(spec, lambda: UP.SteppedMotionManager(spec["step"]), mon), want)
