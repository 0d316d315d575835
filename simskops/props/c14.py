"""C14 - content builders, over call histories with failing calls.
"""
from __future__ import annotations

import random

from .. import cardsim as C, values as V
from ..core import Result, digest
from ..seams import Clock, Seams
from ..simfs import Scratch, SimDisk

PROPERTY = "C14"
CAMPAIGNS = {"quick": 3500, "thorough": 20000}
WALL = {"quick": 300, "thorough": 3300}
CHECKS = {"build", "raise", "save"}
RULE = ("campaign = interleaved builder calls of 1-2 clients (tables as dict of list/tuple/array/Series or DataFrame with any cells and names; "
        "metric update sequences; hyperparameters and diagrams of models given as object or as file, whose parameters or file content change in "
        "between; plots; several items per call) at nested/escaped paths, with calls interrupted at seeded lines; after the history, and at "
        "seeded points, the rendered card and each select().format() are parsed back and compared with the reference; each multi-item call is "
        "compared with one-by-one calls, each table as dict and DataFrame; non-trivial = more than one section; distinct by operation log")
STATE_MEASURE = "distinct (outlines of all cards with kinds and folding, fault kinds) tuples"
REAL = ["skops.card builders, Section/PlotSection/TableSection", "prettytable", "pandas", "sklearn get_params / html repr", "skops.io.load (model files)"]
STUBS = ["line-level interrupts (settrace)", "disk for saves", "uuid4", "time.time"]
ASSUMPTIONS = [
    "blanks around a cell and runs of blanks inside one do not matter; a pipe in a cell is rendered as \\|",
    "dict and DataFrame inputs are compared for equal Python values (object columns)",
    "an aborted add_metrics may or may not count; the re-issued call must",
    "cells with a backslash directly before a pipe are not generated",
]
PROBES = ["multi-item", "multi-plot", "dict-vs-df", "metric-updated", "params-changed", "model-file-replaced", "overwrite", "aborted-op", "render",
          "template-skops", "template-dict"]
WEIGHTS = {"add": 1, "plot": 3, "table": 5, "metrics": 4, "hyper": 1.5, "mplot": 0.6, "setmodel": 1.2, "delete": 0.7, "render": 1.5, "save": 0.3,
           "content": 0.3}


def shrink(s):
    for k, v in (("short", None), ("bufsize", None), ("locale", "utf-8")):
        if s[k] != v:
            yield dict(s, **{k: v})
    yield from C.shrink_ops(s)


def matches_known(k, scen, v):
    return False


def parent_init():
    C.warm()


def execute(scen):
    res = Result()
    clock = Clock()
    with Scratch() as sc:
        disk = SimDisk(sc.top, [], {}, scen["bufsize"], locale=scen["locale"],
                       short_rng=random.Random(scen["short"]) if scen["short"] is not None else None)
        C.prepare(disk)
        w = C.World(scen, res, disk, CHECKS)
        with Seams(None, random.Random(scen["uuid"]), clock):
            for i, entry in enumerate(scen["ops"]):
                w.run(i, entry)
                if w.stop:
                    break
            if not w.stop:
                for c in list(w.cards):
                    w.op_render("end", c, ["render", c], None)
        res.simtime = clock.elapsed
        shapes = [[(d, n.kind, n.folded) for d, n in r.visible()] for r in w.refs.values()]
        res.states.add(digest([shapes, sorted(res.faults)]))
        res.nontrivial = sum(1 for r in w.refs.values() for _ in r.walk()) > 1
        res.ev(digest(scen["ops"]))
    return res


def scenario(rng, ops):
    return {"ops": ops, "bufsize": rng.choice([None, None, 1, 64, 4096]), "short": rng.getrandbits(20) if rng.random() < 0.3 else None,
            "locale": rng.choice(["utf-8", "utf-8", "ascii", "latin-1", "cp1252", "utf-16"]), "uuid": rng.getrandbits(30)}


def campaign(rng, run, tier, index):
    for _ in range(2):
        n = rng.choice([1, 1, 2])
        g = C.Gen(rng, n)
        run(scenario(rng, C.gen_ops(g, n, rng.choice([3, 6, 10, 16]), WEIGHTS, bombp=rng.choice([0, 0, 0.1, 0.25]))))
