"""C17 - `skops convert` as a process on the simulated disk."""
from __future__ import annotations

import logging
import os
import pickle
import random

from .. import archive, values as V
from ..bombs import Bomb
from ..cliproc import run_cli
from ..core import Result, digest
from ..seams import Allocator, Clock, Seams
from ..simfs import Scratch, SimDisk, peek, poke

PROPERTY = "C17"
CAMPAIGNS = {"quick": 2400, "thorough": 9000}
WALL = {"quick": 240, "thorough": 3000}
CAMPAIGN_TIMEOUT = 300
RULE = ("campaign = random picklable object (data grammar, estimators, user classes; or one holding an unpersistable "
        "element) x input name x output option x verbosity x I/O knobs, run once fault-free and re-run with seeded "
        "errno/short/crash/interrupt faults at file-system events and failing allocations inside serialisation; "
        "non-trivial = the pickle could be produced; distinct by event-log digest")
STATE_MEASURE = "distinct (event-kind sequence, fault kinds, outcome, output state) tuples"
REAL = ["skops.cli.entrypoint/_convert", "skops.io dumps/loads/get_untrusted_types", "pickle", "zipfile", "pathlib", "logging"]
STUBS = ["disk (SimRaw + wrapped os.*)", "id()", "uuid4", "time.time", "failing np.save/writestr"]
ASSUMPTIONS = [
    "the output's parent directory exists; output does not name the input",
    "convert does not promise an atomic write: after an I/O error or crash while writing the output only a non-zero exit "
    "and an untouched input are demanded",
    "the warning is taken from log records of level WARNING that reached a logger",
]
PROBES = ["converted", "default-output", "relative-output", "absolute-output", "untrusted-warning", "no-warning", "unpersistable",
          "unpersistable-output-existed", "bad-pickle", "write-phase-fault", "crash-rerun", "bomb"]

BAD = ["getstate", "reduce", "birch", "lil", "structO", "tuplekey", "cycle", "dok"]
_EXC = ["ValueError", "TypeError", "KeyError", "MemoryError", "OSError", "Boom", "RuntimeError"]


def bad_build(spec, b):
    from .. import fixtures as F
    import numpy as np
    import scipy.sparse as sp
    k = spec[1]
    if k == "getstate":
        return F.BadGetstate(spec[2])
    if k == "reduce":
        return F.BadReduce(spec[2])
    if k == "birch":
        from sklearn.cluster import Birch
        return Birch()
    if k == "lil":
        return sp.lil_matrix((2, 2))
    if k == "dok":
        return sp.dok_matrix((2, 2))
    if k == "structO":
        return np.zeros(2, dtype=[("a", object), ("b", "i4")])
    if k == "tuplekey":
        return {(1, 2): "x"}
    if k == "cycle":
        x = [1]
        x.append(x)
        return x
    if k == "lock":
        import threading
        return threading.Lock()
    if k == "generator":
        return (i for i in range(3))
    if k == "module":
        import math
        return math
    if k == "deep":
        x = []
        for _ in range(20000):
            x = [x]
        return x
    if k == "bigint":
        return 10 ** 5000
    if k == "stringdtype":
        return np.array(["a", "b"], dtype=np.dtypes.StringDType())
    if k == "overlap":
        return np.zeros(2, dtype=np.dtype({"names": ["a", "b"], "formats": ["i4", "i4"], "offsets": [0, 2]}))
    if k == "memoryview":
        return memoryview(b"abc")
    if k == "frozen":
        return frozenset([1])
    if k == "maskedO":
        return np.ma.array(np.array([F.BadGetstate(spec[2]), 1], dtype=object), mask=[0, 1])
    if k == "objO":
        a = np.empty(3, dtype=object)
        a[2] = F.BadReduce(spec[2])
        return a
    if k == "late":     # an attribute set last
        o = F.Plain(a=1, b=[2])
        o.z = F.BadGetstate(spec[2])
        return o
    if k == "dup":      # the same failing object twice
        b_ = F.BadGetstate(spec[2])
        return [1, b_, b_]
    if k == "iter":
        return iter([1, 2])
    if k == "frame":
        import sys
        return sys._getframe()
    raise ValueError(k)


V.EXTRA_BUILD["bad"] = bad_build


def gen_bad(rng, kinds=BAD):
    k = rng.choice(kinds)
    return ["bad", k, rng.choice(_EXC)]


def positions(spec, path=()):
    """paths of list items that are value specs and may be replaced by a
    non-hashable element"""
    out = [path]
    k = spec[0]
    if k in ("list", "tuple"):
        for i, s in enumerate(spec[1]):
            out += positions(s, path + (1, i))
    elif k in ("dict", "odict"):
        for i, (kk, v) in enumerate(spec[1]):
            out += positions(v, path + (1, i, 1))
    elif k == "ddict":
        for i, (kk, v) in enumerate(spec[2]):
            out += positions(v, path + (2, i, 1))
    elif k == "objarray":
        for i, s in enumerate(spec[2]):
            out.append(path + (2, i))
    elif k == "partial":
        for i, s in enumerate(spec[2]):
            out += positions(s, path + (2, i))
        for i, (kk, v) in enumerate(spec[3]):
            out += positions(v, path + (3, i, 1))
    elif k == "obj":
        for i, (kk, v) in enumerate(spec[2]):
            out += positions(v, path + (2, i, 1))
    elif k == "est":
        for i, (kk, v) in enumerate(spec[2]):
            if spec[1] in ("FunctionTransformer", "Pipeline", "ColumnTransformer") and spec[3] is None:
                out += positions(v, path + (2, i, 1))
    return out


def put(spec, path, new):
    if not path:
        return new
    s = list(spec)
    s[path[0]] = put(s[path[0]], path[1:], new)
    return s


def gen_value(rng):
    r = rng.random()
    if r < 0.45:
        return V.g_value(rng, rng.choice([1, 2, 3]))
    if r < 0.6:
        return V.g_obj(rng)
    if r < 0.85:
        return V.g_est(rng)
    return ["dict", [[["str", "m"], V.g_est(rng, False)], [["str", "o"], V.g_obj(rng)], [["str", "v"], V.g_value(rng, 2)]]]


def gen(rng):
    V.KEYS_EXTRA = True
    spec = gen_value(rng)
    bad = rng.random() < 0.3
    if bad:
        pos = positions(spec)
        spec = put(spec, rng.choice(pos), gen_bad(rng))
    return {
        "value": spec,
        "input": rng.choice(["model.pkl", "sub/model.pkl", "ABS:data/model.pickle", "a.b.pkl", "noext", "sub/x y.pkl", "é.pkl",
                             "ABS:data/v1.2.tar.pkl", "./m.skl", ".hidden"]),
        "output": rng.choice([None, None, "rel:out.skops", "rel:od/deep/out.skops", "abs:data/out.skops", "rel:../data/o.bin", "abs:work/noext2"]),
        "dest": rng.choice([None, None, "garbage"]),
        "verbose": rng.choice([0, 0, 1, 2, 3]),
        "longopt": rng.random() < 0.5,
        "pickle_protocol": rng.choice([0, 2, 4, 5]),
        "truncate": round(rng.random(), 3) if rng.random() < 0.06 else None,
        "bufsize": rng.choice([None, None, 16, 512]),
        "short": rng.getrandbits(20) if rng.random() < 0.35 else None,
        "faults": [], "bomb": None,
    }


def campaign(rng, run, tier, index):
    scen = gen(rng)
    r = run(scen)
    ev = r.extra.get("ops", [])
    nser = r.extra.get("nser", {})
    k = 7 if tier == "quick" else 16
    for _ in range(k if ev else 0):
        n, op = rng.choice(ev[-8:]) if rng.random() < 0.5 else rng.choice(ev)
        kind = rng.choice(["crash", "torn", "EIO", "EIO", "EACCES", "intr", "short"] + (["ENOSPC"] * 3 if op in ("write", "open-w") else []))
        run(dict(scen, faults=[{"at": n, "kind": kind, "frac": rng.choice([0.0, 0.1, 0.5, 0.99])}]))
    targets = [(t, c) for t, c in nser.items() if c]
    for _ in range(2 if targets else 0):
        t, c = rng.choice(targets)
        run(dict(scen, bomb={"target": t, "at": rng.randrange(c), "exc": rng.choice(["MemoryError", "OSError", "KeyboardInterrupt"])}))


def shrink(s):
    for key, val in (("short", None), ("bufsize", None), ("dest", None), ("verbose", 0), ("input", "model.pkl"),
                     ("output", None), ("longopt", False), ("pickle_protocol", 4), ("truncate", None), ("bomb", None)):
        if s[key] != val:
            yield dict(s, **{key: val})
    for i in range(len(s["faults"])):
        yield dict(s, faults=s["faults"][:i] + s["faults"][i + 1:])
    for c in V.shrink_spec(s["value"]):
        yield dict(s, value=c)


def matches_known(k, scen, v):
    return False


def parent_init():
    import skops.cli.entrypoint  # noqa
    import scipy.special  # noqa
    V._est_class("Ridge")


class LogTap:
    """records of level >= WARNING that reached a logger"""

    def __enter__(self):
        self.records = []
        self.orig = logging.Logger.handle
        tap = self

        def handle(logger, record):
            if record.levelno >= logging.WARNING:
                tap.records.append((record.levelno, record.getMessage()))
            return tap.orig(logger, record)

        logging.Logger.handle = handle
        return self

    def __exit__(self, *e):
        logging.Logger.handle = self.orig


def execute(scen):
    res = Result()
    r1, r2 = (random.Random(f"{digest(scen['value'])}{i}") for i in range(2))
    V.SEED_SEQ = True
    with Scratch() as sc:
        clock = Clock()
        try:
            obj = V.build(scen["value"])
            pkl = pickle.dumps(obj, protocol=scen["pickle_protocol"])
        except RecursionError:
            raise
        except Exception as e:
            res.nontrivial = False
            res.ev("unpicklable", type(e).__name__)
            return res
        if scen["truncate"] is not None:
            pkl = pkl[: int(len(pkl) * scen["truncate"])]
        with Seams(Allocator(r1), r2, clock):
            simulate(scen, res, sc, pkl)
        res.simtime = clock.elapsed
    return res


def simulate(scen, res, sc, pkl):
    from skops.io import dumps, get_untrusted_types, loads
    top = sc.top
    for d in ("work/sub", "work/od/deep", "data"):
        os.makedirs(os.path.join(top, d), exist_ok=True)
    inp = scen["input"]
    inp_arg = os.path.join(top, inp[4:]) if inp.startswith("ABS:") else inp
    inp_abs = os.path.normpath(os.path.join(top, "work", inp_arg))
    out = scen["output"]
    if out is None:
        stem = os.path.basename(inp_abs)
        dot = stem.rfind(".")
        stem = stem[:dot] if 0 < dot < len(stem) - 1 else stem
        out_abs = os.path.join(top, "work", stem + ".skops")
        out_arg = None
        res.probes["default-output"] += 1
    elif out.startswith("abs:"):
        out_arg = out_abs = os.path.join(top, out[4:])
        res.probes["absolute-output"] += 1
    else:
        out_arg = out[4:]
        out_abs = os.path.normpath(os.path.join(top, "work", out_arg))
        res.probes["relative-output"] += 1
    poke(inp_abs, pkl)
    poke(os.path.join(top, "work", "bystander"), b"keep")
    if scen["dest"]:
        poke(out_abs, b"previous model " * 20)
    argv = ["convert", inp_arg]
    if out_arg is not None:
        argv += ["--output-file" if scen["longopt"] else "-o", out_arg]
    argv += ["-v"] * scen["verbose"]

    # the reference: the object in the pickle, and whether it can be persisted
    bad_pickle = False
    ref = None
    try:
        ref = pickle.loads(pkl)
    except Exception:
        bad_pickle = True
    persistable = False
    if not bad_pickle:
        counts = {}
        try:
            for t in ("writestr", "np.save"):
                with Bomb({"target": t, "at": -1, "exc": "ValueError"}) as bm:
                    dumps(ref)
                counts[t] = bm.count
            persistable = True
        except Exception:
            pass
        res.extra["nser"] = counts

    disk = SimDisk(top, scen["faults"], {}, scen["bufsize"],
                   short_rng=random.Random(scen["short"]) if scen["short"] is not None else None)
    before = disk.snapshot()
    rel_out, rel_in = disk.rel(out_abs), disk.rel(inp_abs)
    hist = []

    def observe(d):
        hist.append((d.n - 1, peek(out_abs), peek(inp_abs)))

    disk.observers.append(observe)
    bomb = Bomb(scen["bomb"])
    disk.start(scen["faults"])
    with LogTap() as tap, disk, bomb:
        p = run_cli(argv)
    disk.stop()
    observe(disk)
    for e in disk.log:
        res.ev(*e)
    res.ev("exit", p.status, p.exc, bomb.fired)
    res.extra["ops"] = [(e[0], e[1]) for e in disk.log]
    res.faults.update(disk.fired)
    if bomb.fired:
        res.faults[f"{scen['bomb']['exc']}@{scen['bomb']['target']}"] += 1
        res.probes["bomb"] += 1
    injected = [k for k in disk.fired if not k.startswith("short_")]
    where = f"argv={argv[1:]} status={p.status}/{p.exc} faults={scen['faults']} bomb={scen['bomb']}"

    old = before.get(rel_out)
    for n, o, i in hist:
        if i != pkl:
            res.fail("input-altered", f"input changed at event {n}: {where}")
            break
    after = disk.snapshot()
    stray = sorted(x for x in set(before) | set(after)
                   if x not in (rel_out, rel_in) and before.get(x, 0) != after.get(x, 0))
    if stray and p.status != "crash":
        res.fail("stray-files", f"{stray[:3]} created or altered besides the output: {where}")
    if disk.escapes:
        res.fail("stray-files", f"wrote to {disk.escapes[:2]}: {where}")
    final = peek(out_abs)
    read_failed = any(k.split("@")[-1] in ("read", "open-r") for k in injected)
    cannot = bad_pickle or not persistable or bomb.fired
    if cannot or read_failed:
        if cannot and not bad_pickle and not bomb.fired:
            res.probes["unpersistable"] += 1
            if old is not None:
                res.probes["unpersistable-output-existed"] += 1
        if bad_pickle:
            res.probes["bad-pickle"] += 1
        if p.status == "ok" and not (read_failed and not cannot):
            res.fail("silent-failure", f"object cannot be persisted but convert reported success: {where}")
        touched = [n for n, o, _ in hist if o != old]
        if touched and (cannot or p.status != "ok"):
            res.fail("output-on-failure", f"output {'altered' if old is not None else 'created'} at event {touched[0]} "
                                          f"although the object was not persisted: {where}")
    if p.status == "ok" and not cannot:
        res.probes["converted"] += 1
        check_output(res, final, ref, tap, p, where, get_untrusted_types, loads)
    if persistable and not bad_pickle and not bomb.fired and not injected and p.status != "ok":
        res.fail("convert-failed", f"fault-free convert of a dumpable object failed: {where} {p.stderr[-200:]}")
    if injected and not cannot:
        res.probes["write-phase-fault"] += 1
        # afterwards, on a healthy disk, the command must work
        res.probes["crash-rerun"] += 1
        disk.start([])
        with LogTap() as tap2, disk:
            p2 = run_cli(argv)
        disk.stop()
        res.ev("rerun", p2.status, p2.exc)
        if p2.status != "ok":
            res.fail("rerun-failed", f"re-run after a fault failed with {p2.exc}: {where}")
        else:
            check_output(res, peek(out_abs), ref, tap2, p2, "rerun " + where, get_untrusted_types, loads)
        if peek(inp_abs) != pkl:
            res.fail("input-altered", f"input changed by re-run: {where}")
    state = "absent" if final is None else "old" if final == old else "other"
    res.states.add(digest([[e[1] for e in disk.log], sorted(injected), p.status, state, bool(bomb.fired), cannot]))
    uniq = {}
    for v in res.violations:
        uniq.setdefault(v["cls"], v)
    res.violations = list(uniq.values())


def check_output(res, final, ref, tap, p, where, get_untrusted_types, loads):
    if final is None:
        res.fail("no-output", f"convert succeeded but the expected output file does not exist: {where}")
        return
    try:
        unt = get_untrusted_types(data=final)
        got = loads(final, trusted=unt)
    except Exception as e:
        res.fail("bad-output", f"output does not load: {type(e).__name__}: {e}: {where}")
        return
    d = V.diff(ref, got)
    if d:
        res.fail("not-equal", f"converted object differs: {d}: {where}")
    warned = [m for lv, m in tap.records]
    if unt:
        res.probes["untrusted-warning"] += 1
        missing = [t for t in unt if not any(t in m for m in warned)]
        if missing:
            res.fail("warning-missing", f"untrusted types {missing[:3]} not in any warning ({len(warned)} warnings): {where}")
    else:
        res.probes["no-warning"] += 1
        if warned:
            res.fail("warning-spurious", f"warning although nothing is untrusted: {warned[0][:200]}: {where}")
