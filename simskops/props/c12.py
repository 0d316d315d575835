"""C12 - one object, every sink, compression, clock, allocator and uuid stream.
"""
from __future__ import annotations

import json
import random
import zipfile

from .. import archive, values as V
from ..core import HarnessError, Result, digest
from ..seams import Allocator, Clock, Seams
from ..simfs import Scratch, SimCrash, SimDisk, peek
from ..sinks import Sink, g_sink

PROPERTY = "C12"
CAMPAIGNS = {"quick": 2600, "thorough": 20000}
WALL = {"quick": 300, "thorough": 3300}
CAMPAIGN_TIMEOUT = 300
RULE = ("campaign = random dumpable object written several times to random sinks (str/Path, fresh or existing; files in memory and on disk at "
        "an offset, appended, buffered, unbuffered, write-only, gzip, spooled; bytes) x compression method x level, each under its own "
        "clock, uuid stream and address allocator, some with disk faults; every archive is parsed, checked for well-formedness, compared "
        "with the others up to ids, and loaded; non-trivial = at least two archives compared; distinct by (schema shape, sinks, fault) digest")
STATE_MEASURE = "distinct (set of node kinds, member kinds, sink kind, compression, fault outcome) tuples"
REAL = ["skops.io dump/dumps/load/loads/get_untrusted_types", "zipfile with zlib/bz2/lzma", "numpy/scipy serialisation", "io buffering", "gzip", "pathlib"]
STUBS = ["disk (SimRaw + wrapped os.*)", "id() (seeded allocator)", "uuid4", "time.time (between 1980 and 2100)", "tempfile names"]
ASSUMPTIONS = [
    "an unbuffered file object may accept fewer bytes than offered; nothing is demanded of dump then",
    "zip time stamps may differ", "the clock is within what zip can express (1980-2107)",
    "a dump that ends with an I/O error makes no promise about its destination (C12 speaks of archives produced)",
]
PROBES = ["sink-bytes", "sink-path", "sink-BytesIO", "sink-disk", "sink-raw", "sink-writer", "sink-gzip", "sink-spooled", "sink-temp", "offset",
          "old-longer", "comp-0", "comp-8", "comp-12", "comp-14", "members-npy", "members-npz", "members-bin", "faulted", "retried", "loaded",
          "shared-member"]
KINDS = ["EIO", "ENOSPC", "EACCES", "EDQUOT", "short", "short", "intr", "crash", "torn"]


def parent_init():
    import bz2, lzma  # noqa
    import skops.io  # noqa
    import scipy.special  # noqa
    V._est_class("Ridge")


def child_init():
    V.SEED_SEQ = True


def g_object(rng):
    V.KEYS_EXTRA = False
    r = rng.random()
    if r < 0.4:
        return V.g_value(rng, rng.choice([1, 2, 3]))
    if r < 0.5:
        return V.g_obj(rng)
    if r < 0.65:
        return V.g_est(rng)
    if r < 0.8:
        from .c06 import gen
        s = gen(rng)
        return s if V.valid_refs(s) else V.g_value(rng, 2)
    if r < 0.9:
        return ["list", [["bytes", rng.randbytes(rng.choice([0, 1, 50, 3000])).hex()], ["bytearray", rng.randbytes(3).hex()],
                         V.g_array(rng), V.g_value(rng, 1)]]
    return ["dict", [[["str", "a"], ["array", rng.choice(["f8", "i8"]), [rng.choice([1000, 20000, 200000])], "C", rng.getrandbits(20)]],
                     [["str", "b"], V.g_value(rng, 2)], [["str", "s"], ["str", rng.choice(["\u2028", "\ud83d", "\x00", "é\"\\", "x" * 5000])]]]]


def variant(rng):
    comp = rng.choice([0, 8, 8, 12, 14])
    lvl = rng.choice({0: [None, 5], 8: [None, -1, 0, 1, 6, 9], 12: [None, 1, 9], 14: [None, 3]}[comp])
    return {"sink": g_sink(rng), "comp": comp, "level": lvl, "t": rng.choice([3.2e8, 1.7e9, 4.1e9, 1e9 + rng.random() * 1e9]),
            "step": rng.choice([0.0, 0.001, 86400.0, -3.0]), "uuid": rng.getrandbits(30), "alloc": rng.choice(["real", "bump", "reuse"]),
            "faults": []}


def campaign(rng, run, tier, index):
    spec = g_object(rng)
    n = rng.choice([3, 4, 5]) if tier == "quick" else rng.choice([4, 6, 8])
    scen = {"value": spec, "variants": [variant(rng) for _ in range(n)], "bufsize": rng.choice([None, 1024, 8192]),
            "short": rng.getrandbits(20) if rng.random() < 0.3 else None, "seed": rng.getrandbits(20)}
    r = run(scen)
    if r.violations:
        return
    cand = [(int(i), evs) for i, evs in r.extra.get("ops", {}).items() if evs]
    for _ in range(2 if cand else 0):
        i, evs = rng.choice(cand)
        n0, op = rng.choice(evs)
        vs = [dict(v) for v in scen["variants"][: i + 1]]
        vs[i]["faults"] = [{"at": n0, "kind": rng.choice(KINDS), "frac": rng.choice([0.0, 0.3, 0.9])}]
        run(dict(scen, variants=vs))


def shrink(s):
    for i in range(len(s["variants"])):
        if len(s["variants"]) > 1:
            yield dict(s, variants=s["variants"][:i] + s["variants"][i + 1:])
    for k, v in (("short", None), ("bufsize", None)):
        if s[k] != v:
            yield dict(s, **{k: v})
    for c in V.shrink_spec(s["value"]):
        if V.valid_refs(c):
            yield dict(s, value=c)
    for i, v in enumerate(s["variants"]):
        for k, x in (("faults", []), ("comp", 0), ("level", None), ("alloc", "bump"), ("t", 1.7e9), ("step", 0.001), ("sink", {"kind": "bytes"})):
            if v[k] != x and not (k == "level" and v["comp"] == 0):
                nv = dict(v, **{k: x})
                if k == "comp":
                    nv["level"] = None
                yield dict(s, variants=s["variants"][:i] + [nv] + s["variants"][i + 1:])


def matches_known(k, scen, v):
    return False


# ------------------------------------------------------------------- oracle
def strict(text):
    def no(x):
        raise ValueError(f"{x} is not JSON")
    return json.loads(text, parse_constant=no)


def check_form(data):
    """well-formedness -> (schema, members, problem)"""
    import io

    import skops
    from skops.io._protocol import PROTOCOL
    try:
        with zipfile.ZipFile(io.BytesIO(data)) as z:
            names = z.namelist()
            bad = z.testzip()
            if bad:
                return None, None, f"member {bad} is corrupt"
            if len(set(names)) != len(names):
                return None, None, f"duplicate members {sorted(n for n in set(names) if names.count(n) > 1)[:3]}"
            members = {n: z.read(n) for n in names}
    except Exception as e:
        return None, None, f"not a zip file: {type(e).__name__}: {e}"
    for n in names:
        if not n or "/" in n or "\\" in n or n in (".", "..") or ":" in n or "\x00" in n:
            return None, None, f"member name {n!r} is not flat"
    if "schema.json" not in members:
        return None, None, "no schema.json"
    try:
        schema = strict(members.pop("schema.json").decode("utf-8"))
    except Exception as e:
        return None, None, f"schema.json is not JSON: {e}"
    if not isinstance(schema, dict):
        return None, None, "schema is not an object"
    if type(schema.get("protocol")) is not int or schema["protocol"] != PROTOCOL:
        return None, None, f"protocol {schema.get('protocol')!r} instead of {PROTOCOL}"
    if schema.get("_skops_version") != skops.__version__:
        return None, None, f"skops version {schema.get('_skops_version')!r}"
    refs, problem = [], []

    def visit(x, top, usermap=False):
        if isinstance(x, dict) and usermap:
            for v in x.values():
                visit(v, True)
        elif isinstance(x, dict):
            meta = {"__loader__", "__class__", "__module__", "__id__"}
            if top or meta & set(x):
                for m in sorted(meta - set(x)):
                    problem.append(f"node {str({k: x.get(k) for k in sorted(meta)})[:160]} has no {m}")
                for m in ("__loader__", "__class__", "__module__"):
                    if m in x and not (isinstance(x[m], str) and x[m]):
                        problem.append(f"node has {m} {x[m]!r}")
                if "__id__" in x and (type(x["__id__"]) is not int):
                    problem.append(f"node has __id__ {x['__id__']!r}")
                if isinstance(x.get("file"), str):
                    refs.append(x["file"])
            for k, v in x.items():
                visit(v, False, k == "content" and x.get("__loader__") == "DictNode")
        elif isinstance(x, list):
            for v in x:
                visit(v, False)

    visit(schema, True)
    if problem:
        return schema, members, problem[0]
    lost = sorted(set(refs) - set(members))
    if lost:
        return schema, members, f"node refers to missing member {lost[0]}"
    extra = sorted(set(members) - set(refs))
    if extra:
        return schema, members, f"no node refers to member {extra[0]}"
    return schema, members, None


def normalise(schema, members):
    ids, files = {}, {}

    def go(x, usermap=False):
        if isinstance(x, dict) and usermap:
            return {k: go(v) for k, v in x.items()}
        if isinstance(x, dict):
            out = {}
            for k, v in x.items():
                if k == "__id__":
                    out[k] = ids.setdefault(v, len(ids))
                elif k == "file" and isinstance(v, str):
                    files.setdefault(v, len(files))
                    out[k] = f"{files[v]}.{v.rsplit('.', 1)[-1]}"
                else:
                    out[k] = go(v, k == "content" and x.get("__loader__") == "DictNode")
            return out
        if isinstance(x, list):
            return [go(v) for v in x]
        return x

    s = go(schema)
    return s, {f"{files[n]}.{n.rsplit('.', 1)[-1]}": member_content(n, b) for n, b in members.items()}


def content(np, a):
    """bytes of an array without padding (arbitrary memory)"""
    if a.dtype.names:
        return [[n, content(np, a[n])] for n in a.dtype.names]
    raw = np.ascontiguousarray(a).tobytes()
    if a.dtype.char in "gG" and np.finfo(np.longdouble).nmant == 63:
        raw = np.frombuffer(raw, "u1").reshape(-1, 16)[:, :10].tobytes()
    return digest(raw.hex())


def member_content(name, b):
    if name.endswith(".npy"):
        import io

        import numpy as np
        try:
            a = np.load(io.BytesIO(b), allow_pickle=False)
        except Exception:
            return digest(b.hex())
        return digest([str(a.dtype.descr if a.dtype.names else a.dtype), list(a.shape), bool(a.flags.f_contiguous), content(np, a)])
    return digest(b.hex())


def first_diff(a, b, path="schema"):
    if type(a) is not type(b):
        return f"{path}: {str(a)[:80]} / {str(b)[:80]}"
    if isinstance(a, dict):
        if list(a) != list(b):
            return f"{path}: keys {list(a)} / {list(b)}"
        for k in a:
            d = first_diff(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: {len(a)} / {len(b)} items"
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    return None if a == b else f"{path}: {str(a)[:80]} / {str(b)[:80]}"


def execute(scen):
    from skops.io import dump, dumps, get_untrusted_types, load, loads
    res = Result()
    rng = random.Random(scen["seed"])
    obj = V.build(scen["value"])
    V.diff(obj, obj)        # (comparing creates the __dict__ of partials, which dump sees)
    with Scratch() as sc:
        disk = SimDisk(sc.top, [], {}, scen["bufsize"], short_rng=random.Random(scen["short"]) if scen["short"] is not None else None)
        ref = None
        compared = 0
        for i, v in enumerate(scen["variants"]):
            clock = Clock(v["t"], v["step"])
            alloc = None if v["alloc"] == "real" else Allocator(rng, v["alloc"])
            kw = {}
            if v["comp"] or rng.random() < 0.5:
                kw["compression"] = v["comp"]
            if v["level"] is not None:
                kw["compresslevel"] = v["level"]
            s = v["sink"]
            kind = s["io"] if s["kind"] == "file" else s["kind"]
            n0, f0 = len(disk.log), dict(disk.fired)
            ex, cands, crashed = None, [], False
            with disk:
                disk.start([])
                disk.stop()
                sink = Sink(s, disk, i)
                disk.arm(v["faults"])
                try:
                    with Seams(alloc, random.Random(v["uuid"]), clock):
                        if s["kind"] == "bytes":
                            cands = [dumps(obj, **kw)]
                        else:
                            dump(obj, sink.arg, **kw)
                            if s["kind"] == "file" and kind in ("disk", "temp"):
                                sink.f.flush()
                except SimCrash as e:
                    ex, crashed = e, True
                except HarnessError:
                    raise
                except BaseException as e:  # noqa
                    ex = e
                disk.stop()
                if ex is None and s["kind"] != "bytes":
                    cands = sink.result()
                if crashed:
                    disk.start([])
                    disk.stop()
                try:
                    sink.close()
                except BaseException:  # noqa - buffered leftovers of a failed write
                    pass
            res.simtime += clock.elapsed
            log = disk.log[n0:]
            fired = {k: c - f0.get(k, 0) for k, c in disk.fired.items() if c > f0.get(k, 0)}
            res.faults.update(fired)
            res.extra.setdefault("ops", {})[str(i)] = [(e[0], e[1]) for e in log]
            for e in log:
                res.ev(*e[1:])
            res.ev("variant", i, kind, v["comp"], v["level"], type(ex).__name__ if ex else "ok")
            what = f"variant {i} ({kind} sink {s}, compression {v['comp']}, level {v['level']}, faults {fired})"
            injected = any(not k.startswith("short_") for k in fired)
            if kind == "raw" and (scen["short"] is not None or "short_write" in fired):
                continue
            if ex is not None:
                if not injected:
                    res.fail("dump-failed", f"{what}: {type(ex).__name__}: {ex}")
                    return res
                res.probes["faulted"] += 1
                if crashed:
                    disk.start([])
                if s["kind"] == "path":
                    with disk:
                        disk.start([])
                        try:
                            with Seams(None, random.Random(v["uuid"] + 1), clock):
                                dump(obj, sink.arg, **kw)
                        except Exception as e:
                            res.fail("dump-failed", f"{what}: retry on a healthy disk: {type(e).__name__}: {e}")
                            return res
                        disk.stop()
                    cands = sink.result()
                    res.probes["retried"] += 1
                else:
                    continue
            problem, good = "nothing arrived", None
            for data in cands:
                schema, members, p = check_form(data)
                if p is None:
                    good = data
                    break
                if problem == "nothing arrived":
                    problem = p
            if good is None:
                res.fail("malformed", f"{what}: {problem}")
                return res
            probes(res, s, kind, v, members, schema)
            norm = normalise(schema, members)
            if ref is None:
                ref = norm
            else:
                compared += 1
                d = first_diff(ref[0], norm[0]) or (None if ref[1] == norm[1] else "contents of members differ")
                if d:
                    res.fail("archives-differ", f"{what}: differs from variant 0: {d}")
                    return res
            try:
                unt = get_untrusted_types(data=good)
                if s["kind"] == "path":
                    with disk:
                        disk.start([])
                        unt2 = get_untrusted_types(file=sink.arg)
                        got = load(sink.arg, trusted=unt)
                        disk.stop()
                    if unt2 != unt:
                        res.fail("load-differs", f"{what}: untrusted types from file {unt2} from bytes {unt}")
                else:
                    got = loads(good, trusted=unt)
            except Exception as e:
                res.fail("load-failed", f"{what}: {type(e).__name__}: {e}")
                return res
            d = V.diff(obj, got)
            if d:
                res.fail("load-differs", f"{what}: loaded object differs: {d}")
                return res
            res.probes["loaded"] += 1
            kinds = set()
            archive.walk(schema, lambda n: kinds.add(n["__loader__"]))
            res.states.add(digest([sorted(kinds), kind, v["comp"], sorted(fired)]))
            if disk.escapes:
                res.fail("escape", f"{what}: wrote to {disk.escapes[:2]}")
        res.nontrivial = compared > 0
        if ref is not None:
            res.ev(digest(str(ref[0])), sorted(ref[1].values()))
    return res


def probes(res, s, kind, v, members, schema):
    res.probes["sink-" + kind] += 1
    res.probes[f"comp-{v['comp']}"] += 1
    if s["kind"] == "file" and s["pre"]:
        res.probes["offset"] += 1
    if s["kind"] == "path" and (s["old"] or 0) > 100000:
        res.probes["old-longer"] += 1
    for n in members:
        res.probes["members-" + n.rsplit(".", 1)[-1]] += 1
    files = []
    archive.walk(schema, lambda n: files.append(n["file"]) if isinstance(n.get("file"), str) else None)
    if len(set(files)) < len(files):
        res.probes["shared-member"] += 1
