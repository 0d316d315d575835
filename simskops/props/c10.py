"""C10 - rendering, table of contents and save, over edit histories and a
faulty disk.
"""
from __future__ import annotations

import random

from .. import cardsim as C, values as V
from ..core import Result, digest
from ..seams import Clock, Seams
from ..simfs import Scratch, SimDisk

PROPERTY = "C10"
CAMPAIGNS = {"quick": 4000, "thorough": 20000}
WALL = {"quick": 300, "thorough": 3300}
CHECKS = {"render", "save", "raise"}
RULE = ("campaign = an edit history of 1-2 clients (adds, deletes, content and title edits, visible/folded flips on arbitrary sections) with renders, tables of "
        "contents and saves in between; the save is then repeated with seeded disk faults (errno, full disk, short/torn writes, crash + restart, "
        "interrupt) at events of its fault-free trace and under other locale encodings and buffer sizes; non-trivial = more than one section; "
        "distinct by event-log digest")
STATE_MEASURE = "distinct (outlines of all cards with kinds and folding, fault kinds) tuples"
REAL = ["skops.card Card.render/save/get_toc/select/add/delete", "io text layer and buffering", "pathlib", "shutil"]
STUBS = ["disk (SimRaw + wrapped os.*): crash, torn/short writes, errno", "locale encoding", "line-level interrupts (settrace)"]
ASSUMPTIONS = [
    "blank lines and blanks around table cells do not matter; all other lines of the rendered text do",
    "text without surrogates (not encodable as UTF-8)",
    "save is not demanded to be atomic: when the disk fails it must raise, and a repetition on a healthy disk must write the text",
    "whether overwriting a hidden section shows it again is left open",
]
PROBES = ["visible=False", "folded=True", "hidden-section", "folded-with-subsections", "saved", "save-faulted", "save-crashed", "aborted-op",
          "overwrite", "render", "retitled"]
WEIGHTS = {"add": 8, "plot": 1.2, "table": 0.8, "metrics": 0.4, "hyper": 0.3, "mplot": 0.2, "delete": 1.5, "flag": 6, "content": 1, "title": 0.8,
           "render": 1.5, "toc": 1, "save": 1.5}
KINDS = ["ENOSPC", "EIO", "EACCES", "EROFS", "EDQUOT", "short", "short", "torn", "crash", "crash_after", "intr"]


def shrink(s):
    for k, v in (("short", None), ("bufsize", None), ("locale", "utf-8")):
        if s[k] != v:
            yield dict(s, **{k: v})
    yield from C.shrink_ops(s)


def matches_known(k, scen, v):
    return False


def parent_init():
    C.warm()


def execute(scen):
    res = Result()
    clock = Clock()
    with Scratch() as sc:
        disk = SimDisk(sc.top, [], {}, scen["bufsize"], locale=scen["locale"],
                       short_rng=random.Random(scen["short"]) if scen["short"] is not None else None)
        C.prepare(disk)
        w = C.World(scen, res, disk, CHECKS)
        with Seams(None, random.Random(scen["uuid"]), clock):
            for i, entry in enumerate(scen["ops"]):
                w.run(i, entry)
                if w.stop:
                    break
            if not w.stop:
                for c in list(w.cards):
                    w.op_render("end", c, ["render", c], None)
        res.simtime = clock.elapsed
        shapes = [[(d, n.kind, n.folded) for d, n in r.visible()] for r in w.refs.values()]
        res.states.add(digest([shapes, sorted(res.faults)]))
        res.nontrivial = sum(1 for r in w.refs.values() for _ in r.walk()) > 1
        res.ev(digest(scen["ops"]))
    return res


def scenario(rng, ops):
    return {"ops": ops, "bufsize": rng.choice([None, None, 1, 64, 4096]), "short": rng.getrandbits(20) if rng.random() < 0.3 else None,
            "locale": rng.choice(["utf-8", "utf-8", "ascii", "latin-1", "cp1252", "utf-16"]), "uuid": rng.getrandbits(30)}


def campaign(rng, run, tier, index):
    n = rng.choice([1, 1, 2])
    g = C.Gen(rng, n)
    ops = C.gen_ops(g, n, rng.choice([5, 10, 18, 28]), WEIGHTS, bombp=rng.choice([0, 0, 0.1]))
    if rng.random() < 0.6:
        ops.append({"op": C._save(g, rng.randrange(n), None)})
    base = scenario(rng, ops)
    r = run(base)
    traces = r.extra.get("ops") or {}
    if r.violations or not traces:
        return
    for _ in range(3 if tier == "quick" else 5):
        i = rng.choice(sorted(traces))
        evs = traces[i]
        if not evs:
            continue
        s = dict(base, ops=[dict(e) for e in base["ops"]])
        faults = []
        first = min(e[0] for e in evs)
        for _ in range(rng.choice([1, 1, 2])):
            writes = [e for e in evs if e[1] == "write"]
            e = rng.choice(writes) if writes and rng.random() < 0.6 else rng.choice(evs)
            faults.append({"at": e[0] - first, "kind": rng.choice(KINDS), "frac": rng.choice([0.0, 0.1, 0.5, 0.9, rng.random()])})
        op = s["ops"][int(i)]["op"]
        s["ops"][int(i)] = {"op": ["save", op[1], dict(op[2], faults=faults)]}
        if rng.random() < 0.3:
            s["bufsize"] = rng.choice([None, 1, 16, 512])
        run(s)
