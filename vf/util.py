"""Small helpers shared by the check modules (public interface of upstage_des only)."""

from __future__ import annotations

import random
from typing import Any

import upstage_des.api as UP
from upstage_des.type_help import TASK_GEN  # noqa: F401  (re-export for task annotations)

DYADIC = [i / 8 for i in range(1, 65)]


def dy(rng: random.Random, lo: int = 1, hi: int = 64, den: int = 8) -> float:
    """A dyadic number, so that sums and differences of times are exact."""
    return rng.randint(lo, hi) / den


def stage_units(dist: str = "m", alt: str = "m", **kw: Any) -> None:
    UP.add_stage_variable("distance_units", dist)
    UP.add_stage_variable("altitude_units", alt)
    for k, v in kw.items():
        UP.add_stage_variable(k, v)


def near(a: float, b: float, tol: float = 1e-9) -> bool:
    return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))
