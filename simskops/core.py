"""Shared vocabulary of the simulator: results, seeds, JSON helpers.

A *scenario* is a JSON value that completely determines one simulated run
(operations, environment, schedule, faults).  ``execute(scenario)`` is a pure
function of the scenario and of the code in the repository under test.
"""
from __future__ import annotations

import hashlib
import json
import os
import random
from collections import Counter

REPO = os.environ.get("SIMSKOPS_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def rng_for(*parts) -> random.Random:
    """One PRNG per (property, seed, index, ...); string seeding is sha512-based
    and therefore independent of PYTHONHASHSEED."""
    return random.Random(":".join(str(p) for p in parts))


def jdump(x) -> str:
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


def digest(x) -> str:
    return hashlib.sha256(jdump(x).encode("utf-8", "surrogatepass")).hexdigest()[:16]


class HarnessError(Exception):
    """The machinery (not the code under test) is wrong."""


class Result:
    """Outcome of one simulated run."""

    def __init__(self):
        self.violations: list[dict] = []   # {"cls","msg"}
        self.trace: list = []              # event log (JSON)
        self.faults: Counter = Counter()   # fault kind -> times fired
        self.probes: Counter = Counter()   # rare condition -> times hit
        self.states: set[str] = set()      # distinct state/interleaving keys
        self.simtime: float = 0.0
        self.nontrivial = True
        self.extra: dict = {}              # data for the campaign driver only

    def ev(self, *event):
        self.trace.append(list(event))

    def fail(self, cls: str, msg: str):
        self.violations.append({"cls": cls, "msg": str(msg)[:2000]})
        self.ev("VIOLATION", cls)

    def digest(self) -> str:
        return digest(self.trace)


def exc_name(e: BaseException) -> str:
    return type(e).__name__


def trim(s, n=300):
    s = repr(s) if not isinstance(s, str) else s
    return s if len(s) <= n else s[: n // 2] + "..." + s[-n // 2:]
