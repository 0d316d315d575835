"""C18 - a dump that cannot succeed leaves its destination exactly as it was.
"""
from __future__ import annotations

import random

from .. import values as V
from ..bombs import Bomb
from ..core import HarnessError, Result, digest
from ..seams import Allocator, Clock, Seams
from ..simfs import Scratch, SimCrash, SimDisk
from ..sinks import Sink, g_sink
from .c17 import positions, put

PROPERTY = "C18"
CAMPAIGNS = {"quick": 3200, "thorough": 25000}
WALL = {"quick": 300, "thorough": 3300}
CAMPAIGN_TIMEOUT = 300
MEM_GB = 8
RULE = ("campaign = random dumpable object (up to tens of MB) x one unpersistable or raising element at a random position x sink (existing file, "
        "new path, symlink, open files in memory and on disk at an offset, appended, buffered or not, write-only objects, gzip, spooled) x "
        "compression, in histories that mix successful dumps, failing dumps and dumps whose k-th serialisation call fails (allocation failure, "
        "I/O error, interrupt); after every failing dump the destination is compared with its state before; non-trivial = a dump failed; "
        "distinct by (element, position, sink, history) digest")
STATE_MEASURE = "distinct (failing element kind or call, holder kinds on the path to it, sink kind, destination existed) tuples"
REAL = ["skops.io dump/dumps/loads", "zipfile", "numpy/scipy serialisation", "io buffering", "gzip"]
STUBS = ["disk (SimRaw + wrapped os.*)", "failing np.save/save_npz/writestr/json.dumps", "id()", "uuid4", "time.time"]
ASSUMPTIONS = [
    "only the destination is compared (bytes, existence; for file objects also position, open state and writes seen), after the call has ended",
    "failures are those of serialising the object; a disk that fails while the finished archive is written is not covered by the property",
]
PROBES = ["fail-existing-path", "fail-new-path", "fail-symlink", "fail-BytesIO", "fail-disk", "fail-raw", "fail-writer", "fail-gzip", "fail-spooled",
          "fail-temp", "fail-bytes", "nested-position", "large", "bomb", "good-after-fail", "fail-after-good", "base-exception", "element-last"]
BAD = ["getstate", "getstate", "reduce", "birch", "lil", "dok", "structO", "tuplekey", "cycle", "generator", "module", "deep", "bigint", "stringdtype",
       "overlap", "memoryview", "maskedO", "objO", "late", "dup", "frame"]
EXC = ["ValueError", "TypeError", "KeyError", "MemoryError", "OSError", "Boom", "RuntimeError", "KeyboardInterrupt", "AttributeError",
       "NotImplementedError", "StopIteration", "RecursionError", "GeneratorExit", "UnicodeError"]


def parent_init():
    import skops.io  # noqa
    import scipy.special  # noqa
    from sklearn.cluster import Birch  # noqa
    V._est_class("Ridge")


def child_init():
    V.SEED_SEQ = True
    import warnings
    warnings.simplefilter("ignore")


MADE = []
_bad_build = V.EXTRA_BUILD["bad"]


def _made(spec, b):
    o = _bad_build(spec, b)
    MADE.append(o)
    return o


def holds(root, x):
    import gc
    import numpy as np
    import types
    seen, todo = {id(root)}, [root]
    while todo:
        o = todo.pop()
        if o is x:
            return True
        if isinstance(o, (type, types.ModuleType, types.FunctionType, types.FrameType)):
            continue
        for r in gc.get_referents(o) + (list(o.flat) if isinstance(o, np.ndarray) and o.dtype.hasobject and o.dtype.names is None else []):
            if id(r) not in seen:
                seen.add(id(r))
                todo.append(r)
    return False


def g_bad(rng):
    return ["bad", rng.choice(BAD), rng.choice(EXC)]


def g_value(rng, tier):
    V.KEYS_EXTRA = False
    r = rng.random()
    if r < 0.45:
        v = V.g_value(rng, rng.choice([1, 2, 3, 4]))
    elif r < 0.6:
        v = V.g_obj(rng)
    elif r < 0.8:
        v = V.g_est(rng, rng.random() < 0.5)
    else:
        v = ["list", [V.g_value(rng, 2) for _ in range(rng.choice([3, 10, 40]))]]
    r = rng.random()
    n = rng.choice([3000, 40000, 300000, 1500000, 5000000]) if r < 0.06 else rng.choice([0, 3000, 40000]) if r < 0.3 else 0
    if n:
        big = ["bytes-n", n * 8] if rng.random() < 0.3 else ["array", "f8", [n], "C", rng.getrandbits(20)]
        v = ["list", [big, v, big][: rng.choice([2, 3])]] if rng.random() < 0.7 else ["dict", [[["str", "a"], v], [["str", "w"], big]]]
    return v


V.EXTRA_BUILD["bad"] = _made
V.EXTRA_BUILD["bytes-n"] = lambda spec, b: bytes(bytearray(i * 7 & 255 for i in range(256))) * (spec[1] // 256 + 1)


def campaign(rng, run, tier, index):
    scens = []
    for _ in range(2):
        steps = []
        base = g_value(rng, tier)
        hist = rng.choice(["B", "B", "B", "GB", "BG", "GBG", "BBG", "X", "GXG", "BX"])
        for h in hist:
            comp = rng.choice([0, 0, 8, 12, 14] if "000" not in repr(base)[-400:] else [0, 0, 8])
            st = {"value": base, "comp": comp, "bomb": None, "bad": False}
            if h == "B":
                pos = positions(base)
                p = rng.choice(pos[-3:]) if rng.random() < 0.3 else max(rng.sample(pos, min(3, len(pos))), key=len) if rng.random() < 0.5 else rng.choice(pos)
                st["value"] = put(base, p, g_bad(rng))
                st["bad"], st["depth"], st["last"] = True, len(p), p == pos[-1]
            elif h == "X":
                st["bomb"] = {"target": rng.choice(["writestr", "np.save", "json.dumps", "save_npz"]), "at": rng.choice([0, 0, 1, 2, 5, 11]),
                              "exc": rng.choice(["MemoryError", "OSError", "KeyboardInterrupt", "RuntimeError"])}
            else:
                st["value"] = base if rng.random() < 0.5 else V.g_value(rng, 2)
            steps.append(st)
        sink = g_sink(rng)
        if sink["kind"] == "path" and sink["old"] is not None and rng.random() < 0.2:
            sink["link"] = True
        scens.append({"steps": steps, "sink": sink, "alloc": rng.choice(["real", "bump", "reuse"]), "seed": rng.getrandbits(24),
                      "bufsize": rng.choice([None, 16, 8192])})
    for s in scens:
        run(s)


def shrink(s):
    for i in range(len(s["steps"])):
        if len(s["steps"]) > 1:
            yield dict(s, steps=s["steps"][:i] + s["steps"][i + 1:])
    for k, v in (("bufsize", None), ("alloc", "bump"), ("sink", {"kind": "path", "form": "str", "name": "out.skops", "old": 300})):
        if s[k] != v:
            yield dict(s, **{k: v})
    for i, st in enumerate(s["steps"]):
        if st["comp"]:
            yield dict(s, steps=s["steps"][:i] + [dict(st, comp=0)] + s["steps"][i + 1:])
        for c in V.shrink_spec(st["value"]):
            if not st["bad"] or '["bad"' in _j(c):
                yield dict(s, steps=s["steps"][:i] + [dict(st, value=c)] + s["steps"][i + 1:])


def _j(x):
    import json
    return json.dumps(x)


def matches_known(k, scen, v):
    return False


def execute(scen):
    from skops.io import dump, dumps, get_untrusted_types, loads
    res = Result()
    rng = random.Random(scen["seed"])
    res.nontrivial = False
    s = scen["sink"]
    kind = s["io"] if s["kind"] == "file" else s["kind"]
    clock = Clock()
    prev = None
    with Scratch() as sc:
        disk = SimDisk(sc.top, [], {}, scen["bufsize"])
        with disk:
            disk.start([])
            disk.stop()
            sink = Sink(s, disk, 0)
            for i, st in enumerate(scen["steps"]):
                MADE.clear()
                obj = V.build(st["value"])
                if st["bad"] and not any(holds(obj, m) for m in MADE):
                    # (the element's place was overwritten by an equal key)
                    res.ev("absent")
                    st = dict(st, bad=False)
                    if s["kind"] == "file" and kind not in ("BytesIO", "disk", "temp", "writer"):
                        break
                before = sink.state()
                bomb = Bomb(st["bomb"])
                ex = None
                kw = {"compression": st["comp"]} if st["comp"] else {}
                if bomb.spec is None and not st["bad"] and s["kind"] == "file" and kind not in ("BytesIO", "disk", "temp", "writer"):
                    continue
                disk.arm([])
                try:
                    with Seams(None if scen["alloc"] == "real" else Allocator(rng, scen["alloc"]), random.Random(scen["seed"] + i), clock), bomb:
                        if s["kind"] == "bytes":
                            data = dumps(obj, **kw)
                        else:
                            dump(obj, sink.arg, **kw)
                except (HarnessError, SimCrash):
                    raise
                except BaseException as e:  # noqa
                    ex = e
                    import traceback
                    traceback.clear_frames(e.__traceback__)
                disk.stop()
                res.ev(i, st["bad"], bomb.fired, type(ex).__name__ if ex else "ok")
                el = find_bad(st["value"])
                what = (f"step {i}: dump of {el or 'a good object'} into {kind} sink {s}, bomb {st['bomb'] if bomb.fired else None}")
                if bomb.fired:
                    res.faults[f"{st['bomb']['exc']}@{st['bomb']['target']}"] += 1
                    res.probes["bomb"] += 1
                if not st["bad"] and not bomb.fired:
                    if ex is not None:
                        if prev == "bad":
                            res.fail("poisoned", f"{what}: a good dump after a failed one raised {type(ex).__name__}: {ex}")
                        else:
                            res.ev("refused")      # (another property's business)
                        break
                    if prev == "bad" and s["kind"] in ("path",):
                        res.probes["good-after-fail"] += 1
                        try:
                            c = sink.result()
                            got = loads(c[0], trusted=get_untrusted_types(data=c[0]))
                            d = V.diff(obj, got)
                        except Exception as e:
                            d = f"{type(e).__name__}: {e}"
                        if d:
                            res.fail("poisoned", f"{what}: after a failed dump: {d}")
                    prev = "good"
                    continue
                # a failing dump
                res.nontrivial = True
                if st["bad"]:
                    res.faults[f"element-{el[1]}"] += 1
                if prev == "good":
                    res.probes["fail-after-good"] += 1
                prev = "bad"
                if ex is None:
                    if bomb.fired and not st["bad"]:
                        # the failure was absorbed: then the dump must be complete
                        c = sink.result() if s["kind"] != "bytes" else [data]
                        try:
                            d = V.diff(obj, loads(c[0], trusted=get_untrusted_types(data=c[0])))
                        except Exception as e:
                            d = f"{type(e).__name__}: {e}"
                        if d:
                            res.fail("accepted", f"{what}: dump reported success: {d}")
                        if s["kind"] == "file":     # (closed by now)
                            break
                        continue
                    res.fail("accepted", f"{what}: dump reported success")
                    break
                if not isinstance(ex, Exception):
                    res.probes["base-exception"] += 1
                after = sink.state()
                if after != before:
                    res.fail("destination-touched", f"{what}: {type(ex).__name__}; destination was {brief(before)}, is {brief(after)}")
                    break
                probes(res, s, kind, st, before)
                res.states.add(digest([el[1] if el else st["bomb"]["target"], holders(st["value"]), kind, before is None]))
            try:
                sink.close()
            except Exception:
                pass
        if disk.escapes:
            res.fail("escape", f"wrote to {disk.escapes[:2]}")
    res.simtime = clock.elapsed
    res.ev(digest([[st["value"], st["comp"]] for st in scen["steps"]]))
    return res


def brief(x):
    if isinstance(x, bytes):
        return f"{len(x)} bytes {x[:16]!r}"
    if isinstance(x, (tuple, list)):
        return "(" + ", ".join(brief(y) for y in x) + ")"
    return repr(x)[:60]


def probes(res, s, kind, st, before):
    if s["kind"] == "path":
        res.probes["fail-symlink" if s.get("link") else "fail-new-path" if before is None else "fail-existing-path"] += 1
    else:
        res.probes["fail-" + kind] += 1
    if st.get("depth", 0) >= 6:
        res.probes["nested-position"] += 1
    if st.get("last"):
        res.probes["element-last"] += 1
    j = _j(st["value"])
    if "[1500000]" in j or "[5000000]" in j or "12000000]" in j or "40000000]" in j:
        res.probes["large"] += 1


def find_bad(spec):
    if isinstance(spec, list):
        if spec and spec[0] == "bad":
            return spec
        for x in spec:
            r = find_bad(x)
            if r:
                return r
    return None


def holders(spec):
    """kinds of the containers above the bad element"""
    if isinstance(spec, list):
        if spec and spec[0] == "bad":
            return []
        for x in spec:
            r = holders(x)
            if r is not None:
                return ([spec[0]] if spec and isinstance(spec[0], str) else []) + r
    return None
