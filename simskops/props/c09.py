"""C09 - the card as an insertion-ordered tree, under histories of several
clients, with operations that fail or are interrupted in the middle.
"""
from __future__ import annotations

import random

from .. import cardsim as C, values as V
from ..core import Result, digest
from ..seams import Clock, Seams
from ..simfs import Scratch, SimDisk

PROPERTY = "C09"
CAMPAIGNS = {"quick": 5000, "thorough": 30000}
WALL = {"quick": 300, "thorough": 3300}
CHECKS = {"tree", "raise"}
RULE = ("campaign = interleaved operations of 1-3 clients (add of several keys, plots, tables, metrics, hyperparameters, model plots, select, "
        "chained select, delete in string and list form, missing/empty names) over titles with slashes, escaped slashes, blanks, unicode and "
        "repetitions, from empty, skops and custom templates; a seeded share of operations is interrupted at a seeded line inside skops; after "
        "every operation every card is compared with a reference tree; non-trivial = more than one section; distinct by operation-log digest")
STATE_MEASURE = "distinct (outlines of all cards with kinds and folding, fault kinds) tuples"
REAL = ["skops.card Card/Section (all of it)", "prettytable", "sklearn estimator html"]
STUBS = ["line-level interrupts (settrace)", "disk", "uuid4", "time.time"]
ASSUMPTIONS = [
    "names given to add have no empty parts; two backslashes before a slash are not generated (not specified)",
    "list-form delete gets the exact titles",
    "an operation ended by an injected exception may leave its own target changed or not; every other section must be undisturbed",
    "whether overwriting a hidden section shows it again is left open",
]
PROBES = ["overwrite", "overwrite-with-subsections", "chained-select", "select-missing", "delete", "delete-list", "delete-missing",
          "delete-subtree", "aborted-op", "template-skops", "template-dict", "template-none", "render"]
WEIGHTS = {"add": 9, "plot": 1, "table": 1, "metrics": 1, "hyper": 0.4, "mplot": 0.2, "select": 4, "delete": 4, "render": 0.3, "repr": 0.2,
           "content": 0.3}


def shrink(s):
    for k, v in (("short", None), ("bufsize", None), ("locale", "utf-8")):
        if s[k] != v:
            yield dict(s, **{k: v})
    yield from C.shrink_ops(s)


def matches_known(k, scen, v):
    return False


def parent_init():
    C.warm()


def execute(scen):
    res = Result()
    clock = Clock()
    with Scratch() as sc:
        disk = SimDisk(sc.top, [], {}, scen["bufsize"], locale=scen["locale"],
                       short_rng=random.Random(scen["short"]) if scen["short"] is not None else None)
        C.prepare(disk)
        w = C.World(scen, res, disk, CHECKS)
        with Seams(None, random.Random(scen["uuid"]), clock):
            for i, entry in enumerate(scen["ops"]):
                w.run(i, entry)
                if w.stop:
                    break
            if not w.stop:
                for c in list(w.cards):
                    w.op_render("end", c, ["render", c], None)
        res.simtime = clock.elapsed
        shapes = [[(d, n.kind, n.folded) for d, n in r.visible()] for r in w.refs.values()]
        res.states.add(digest([shapes, sorted(res.faults)]))
        res.nontrivial = sum(1 for r in w.refs.values() for _ in r.walk()) > 1
        res.ev(digest(scen["ops"]))
    return res


def scenario(rng, ops):
    return {"ops": ops, "bufsize": rng.choice([None, None, 1, 64, 4096]), "short": rng.getrandbits(20) if rng.random() < 0.3 else None,
            "locale": rng.choice(["utf-8", "utf-8", "ascii", "latin-1", "cp1252", "utf-16"]), "uuid": rng.getrandbits(30)}


def campaign(rng, run, tier, index):
    for _ in range(2):
        n = rng.choice([1, 2, 2, 3])
        g = C.Gen(rng, n)
        run(scenario(rng, C.gen_ops(g, n, rng.choice([6, 12, 20, 30]), WEIGHTS, bombp=rng.choice([0, 0, 0.1, 0.3]))))
