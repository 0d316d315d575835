"""C06 - sharing structure under an adversarial object-address allocator.

`dumps` runs with a simulated ``id``: live objects have distinct addresses, but
as soon as the code under test lets go of an object its address is handed to
the next new one.  `loads` runs with an allocator that first hands out the very
addresses recorded in the archive.
"""
from __future__ import annotations

import gc
import io
import random

import numpy as np
import scipy.sparse as sp

from .. import archive, values as V
from ..core import Result, digest, jdump
from ..seams import Allocator, Clock, Seams

PROPERTY = "C06"
CAMPAIGNS = {"quick": 5000, "thorough": 50000}
WALL = {"quick": 300, "thorough": 3300}
CAMPAIGN_TIMEOUT = 240
RULE = ("campaign = random object graph (containers, arrays, sparse, masked, generators, user classes, estimators, partials, bound "
        "methods; shared parts, equal-but-distinct twins and many temporaries) dumped under several seeded allocators (reuse "
        "rate, reuse order, GC schedule; the real one too) and loaded under address collisions with the archive; non-trivial = "
        "the graph has a shared or a twin part; distinct by (graph, partition, members, allocator schedule) digest")
STATE_MEASURE = "distinct (kinds shared, kinds of holders, allocator mode, addresses reused bucket) tuples"
REAL = ["skops.io dumps/loads/get_untrusted_types", "zipfile", "numpy/scipy serialisation", "CPython reference counting and gc"]
STUBS = ["id() in the skops modules (seeded address allocator with reuse)", "uuid4", "time.time"]
ASSUMPTIONS = [
    "sharing is compared for mutable parts: list, dict, set, bytearray, arrays, sparse, generators, bit generators, estimators, "
    "user objects (identity of immutable values is not demanded)",
    "views of one buffer are distinct objects; only object identity counts",
    "acyclic graphs (dump of a cyclic graph is refused)",
]
PROBES = ["shared", "twin", "address-reused", "pinned-load", "real-allocator", "gc-every-allocation", "dumped-twice", "member-checked",
          "shared-array", "shared-sparse", "shared-masked", "shared-estimator", "shared-object", "shared-generator", "many-temporaries",
          "method", "second-cycle", "view", "empty-shared", "thousands"]


# ---------------------------------------------------------------- generator
def g_shared(rng, depth):
    r = rng.random()
    if rng.random() < 0.07:
        return rng.choice([["list", []], ["dict", []], ["set", []], ["odict", []], ["ddict", "list", []], ["bytearray", ""],
                           ["objarray", [1], [["none"]], "C"], ["array", "f8", [0], "C", 1], ["obj", "Plain", []]])
    uniq = rng.getrandbits(30)
    if r < 0.22:
        return ["array", rng.choice(["f8", "i4", ">f4", "U3", "u1", {"fields": [["a", "i4"], ["b", "f8"]]}]), [rng.choice([8, 12, 20])],
                rng.choice(["C", "C", "S", "N"]), uniq]
    if r < 0.3:
        return ["array", "f8", [3, 4], rng.choice(["C", "F", "T"]), uniq]
    if r < 0.4:
        return ["sparse", rng.choice(["csr", "csc", "coo", "bsr", "dia"]), rng.choice(["matrix", "array"]), "f8", [4, 4], uniq, "n"]
    if r < 0.48:
        return ["masked", ["array", rng.choice(["f8", "i4"]), [9], "C", uniq], rng.choice([None, 7, 8]), {}]
    if r < 0.54:
        return V.g_rng(rng)
    if r < 0.6:
        return ["bytearray", rng.randbytes(5).hex()]
    if r < 0.65:
        return ["set", [["int", i] for i in range(rng.randint(0, 3))]]
    if r < 0.7:
        return ["est", rng.choice(["LogisticRegression", "StandardScaler", "DecisionTreeClassifier"]), [],
                rng.choice([None, 1, 2]) if rng.random() < 0.5 else None]
    if r < 0.78:
        return ["obj", rng.choice(["Plain", "Stateful", "Other"]), [["a", leaf(rng)]]]
    return None      # a container


def leaf(rng):
    r = rng.random()
    if r < 0.35:
        return V.g_scalar(rng)
    if r < 0.45:
        return ["bytes", rng.randbytes(4).hex()]
    if r < 0.55:
        return ["slice", 0, rng.randint(0, 5), None]
    if r < 0.7:      # temporaries
        return rng.choice([["rs", "MT19937", rng.randint(0, 9), 1, 0], ["gen", "PCG64", rng.randint(0, 9), 1, 0, 0],
                           ["ddict", "list", [[["int", 1], ["list", []]]]], ["partial", ["func", "int"], [["int", 1]], []],
                           ["dtype", "f8"], ["dtype", "i4"], ["attrgetter", ["a"]], ["npscalar", "f8", rng.randint(0, 99)]])
    if r < 0.8:
        return ["array", rng.choice(["f8", "i8"]), [rng.choice([0, 1, 8])], "C", rng.getrandbits(30)]
    if r < 0.9:
        return ["objarray", [2], [["str", "a"], ["none"]], "C"]
    return ["dict", [[rng.choice([["int", 1], ["str", "k"], ["npkey", "f4", 0.5]]), ["int", 2]]]]


class G:
    def __init__(self, rng):
        self.rng = rng
        self.defs = []      # (name, spec) of shared parts already placed
        self.n = 0
        self.budget = rng.choice([12, 25, 60])

    def node(self, depth):
        rng = self.rng
        self.budget -= 1
        r = rng.random()
        if self.defs and r < 0.3:
            return ["ref", rng.choice(self.defs)[0]]
        if self.defs and r < 0.4:      # equal but distinct
            spec = rng.choice(self.defs)[1]
            if V.valid_refs(spec) and "def" not in jdump(spec):
                return spec
        if self.defs and r < 0.48:     # distinct, on top of the same memory or parts
            nm, spec = rng.choice(self.defs)
            if spec[0] != "method":
                return ["view", ["ref", nm], rng.randrange(6)]
        if r < 0.72 and depth > 0:
            spec = g_shared(rng, depth) or self.container(depth)
            if rng.random() < 0.75:
                self.n += 1
                nm = self.n
                self.defs.append((nm, spec))
                return ["def", nm, spec]
            return spec
        if depth > 0 and self.budget > 0 and r < 0.85:
            return self.container(depth)
        return leaf(rng)

    def kids(self, depth):
        n = self.rng.choice([1, 2, 2, 3, 4])
        return [self.node(depth - 1) for _ in range(n if self.budget > 0 else 1)]

    def container(self, depth):
        rng = self.rng
        k = rng.choice(["list", "list", "tuple", "dict", "dict", "odict", "ddict", "objarray", "partial", "obj", "ft", "pipe", "method"])
        if k in ("list", "tuple"):
            return [k, self.kids(depth)]
        if k in ("dict", "odict"):
            return [k, [[rng.choice([["int", i], ["str", f"k{i}"]]), c] for i, c in enumerate(self.kids(depth))]]
        if k == "ddict":
            return [k, "list", [[["int", i], c] for i, c in enumerate(self.kids(depth))]]
        if k == "objarray":
            kids = self.kids(depth)
            return [k, [len(kids)], kids, "C"]
        if k == "partial":
            return [k, ["func", "dict"], self.kids(depth), [["kw", self.node(depth - 1)]]]
        if k == "obj":
            return [k, rng.choice(["Plain", "Stateful"]), [["a", self.node(depth - 1)], ["z", self.node(depth - 1)]]]
        if k == "ft":
            return ["est", "FunctionTransformer", [["kw_args", ["dict", [[["str", "a"], self.node(depth - 1)]]]]], None]
        if k == "pipe":
            return ["est", "Pipeline", [["steps", ["list", [["tuple", [["str", "s"], ["est", "FunctionTransformer", [
                ["kw_args", ["dict", [[["str", "a"], self.node(depth - 1)]]]]], None]]]]]]], None]
        # a method bound to a shared object
        self.n += 1
        nm = self.n
        est = ["est", rng.choice(["StandardScaler", "LogisticRegression"]), [], rng.choice([None, 3])]
        self.defs.append((nm, est))
        return ["list", [["def", nm, est], ["method", ["ref", nm], "fit"]]]


def gen(rng):
    g = G(rng)
    spec = ["list", [g.node(rng.choice([2, 3, 4])) for _ in range(rng.choice([2, 3, 5]))]]
    if rng.random() < 0.3:      # long runs of temporaries of one kind
        kind = rng.choice([["rs", "MT19937", 1, 0, 0], ["ddict", "int", []], ["dtype", "f8"], ["obj", "Stateful", [["a", ["int", 1]]]],
                           ["masked", ["array", "f8", [3], "C", 5], 3, {}], ["objarray", [1], [["none"]], "C"],
                           ["est", "StandardScaler", [], 2], ["partial", ["func", "int"], [], []], ["dict", [[["int", 1], ["int", 2]]]],
                           ["attrgetter", ["a"]], ["sparse", "csr", "matrix", "f8", [2, 2], 3, "n"]])
        n = rng.choice([5, 20, 60])
        items = [kind] * n
        for i in range(rng.randint(1, 5)):
            items.insert(rng.randrange(len(items)), g.node(2))
        spec[1].append(["list", fix_refs(items, g)])
    if rng.random() < 0.015:    # thousands of temporaries between two references
        kinds = rng.sample([["ddict", "int", []], ["dict", [[["npkey", "f4", 0.5], ["int", 2]]]], ["slice", 1, 2, None], ["tuple", [["set", []]]], ["list", [["bytes", ""]]],
                            ["objarray", [1], [["none"]], "C"], ["partial", ["func", "int"], [], []]], rng.choice([1, 2]))
        n = rng.choice([300, 1200, 2500])
        spec[1].insert(rng.randint(0, len(spec[1])), ["rep", n, kinds])
        if rng.random() < 0.3:
            spec[1].append(["rep", 400, [["array", "f8", [2], "C", 3]]])
        spec[1] += [["ref", nm] for nm in sorted(V.refs(spec)[0])[:6]]
    return spec


def fix_refs(items, g):
    """order the list so that definitions precede references"""
    good, bad = [], []
    for it in items:
        good.append(it)
    defs, used = V.refs(["list", good])
    return [it for it in good if not (set(_refs(it)) & used)] if used else good


def _refs(spec, out=None):
    out = [] if out is None else out
    if isinstance(spec, list):
        if len(spec) == 2 and spec[0] == "ref":
            out.append(spec[1])
        for x in spec:
            _refs(x, out)
    return out


def env(rng):
    return {"mode": rng.choice(["reuse", "reuse", "reuse", "bump", "real"]), "reuse": rng.choice([1.0, 0.9, 0.5]),
            "seed": rng.getrandbits(24), "gc": rng.choice([None, None, 1, 7]), "twice": rng.random() < 0.2,
            "cycles": rng.choice([1, 1, 2]), "pinned": rng.random() < 0.7}


def campaign(rng, run, tier, index):
    spec = gen(rng)
    if not V.valid_refs(spec):
        spec = ["list", [s for s in spec[1] if V.valid_refs(s)]]
    big = "'rep'" in repr(spec)
    for _ in range(1 if big else 2 if tier == "quick" else 3):
        e = env(rng)
        if big:     # a collection per allocation would cost minutes
            e.update(gc=None if e["gc"] == 1 else e["gc"], cycles=1, twice=False)
        run({"value": spec, "env": e})


def shrink(s):
    for k, v in (("twice", False), ("gc", None), ("cycles", 1), ("mode", "bump"), ("pinned", False), ("seed", 1), ("reuse", 1.0)):
        if s["env"][k] != v:
            yield dict(s, env=dict(s["env"], **{k: v}))
    for c in V.shrink_spec(s["value"]):
        if V.valid_refs(c):
            yield dict(s, value=c)
    yield from ({**s, "value": c} for c in hoist(s["value"]))


def hoist(spec):
    """replace references by nothing"""
    if spec[0] == "list":
        for i, x in enumerate(spec[1]):
            if x[0] == "def":
                c = ["list", spec[1][:i] + [x[2]] + spec[1][i + 1:]]
                if V.valid_refs(c):
                    yield c


def matches_known(k, scen, v):
    want = k.get("match")
    return want is not None and jdump(want) in jdump(scen["value"])


def parent_init():
    import skops.io  # noqa
    import scipy.special  # noqa
    V._est_class("Ridge")


def child_init():
    V.SEED_SEQ = True


# ------------------------------------------------------------------ execute
def execute(scen):
    from skops.io import dumps, get_untrusted_types, loads
    res = Result()
    e = scen["env"]
    rng = random.Random(e["seed"])
    obj = V.build(scen["value"])
    kinds, holders, twin = shared_kinds(scen["value"])
    res.nontrivial = bool(kinds) or twin
    for k in kinds:
        res.probes["shared"] += 1
        if k in ("array", "objarray"):
            res.probes["shared-array"] += 1
        elif k in ("sparse", "masked"):
            res.probes["shared-" + k] += 1
        elif k == "est":
            res.probes["shared-estimator"] += 1
        elif k == "obj":
            res.probes["shared-object"] += 1
        elif k in ("rs", "gen"):
            res.probes["shared-generator"] += 1
    if "'rep'" in repr(scen["value"]):
        res.probes["thousands"] += 1
    res.probes["twin"] += twin
    if "'view'" in repr(scen["value"]):
        res.probes["view"] += 1
    if any(d[0] in ("list", "set", "dict") and not d[1] for d in empty_defs(scen["value"])):
        res.probes["empty-shared"] += 1
    if "'method'" in repr(scen["value"]):
        res.probes["method"] += 1
    clock = Clock()
    th = gc.get_threshold()
    try:
        if e["gc"]:
            gc.set_threshold(e["gc"], 1, 1)
            res.probes["gc-every-allocation"] += 1
            res.faults["gc-schedule"] += 1
        cur = obj
        for c in range(e["cycles"]):
            alloc = None if e["mode"] == "real" else Allocator(rng, e["mode"], e["reuse"])
            with Seams(alloc, random.Random(e["seed"] + c), clock):
                try:
                    data = dumps(cur)
                    if e["twice"]:
                        data2 = data
                        data = dumps(cur)
                        res.probes["dumped-twice"] += 1
                except Exception as ex:
                    res.fail("dump-failed", f"{type(ex).__name__}: {ex}")
                    return res
            if alloc is None:
                res.probes["real-allocator"] += 1
            elif alloc.reused:
                res.probes["address-reused"] += 1
                res.faults["address-reuse"] += alloc.reused
                if alloc.reused > 20:
                    res.probes["many-temporaries"] += 1
            schema, members = archive.read(data)
            ids = []
            archive.walk(schema, lambda n: ids.append(n.get("__id__")))
            ids = [i for i in dict.fromkeys(ids) if i]
            alloc2 = None
            if e["mode"] != "real":
                pin = []
                if e["pinned"]:
                    pin = list(ids)
                    rng.shuffle(pin)
                    res.probes["pinned-load"] += 1
                    res.faults["address-collision"] += len(pin)
                alloc2 = Allocator(rng, "reuse" if e["mode"] == "reuse" else "bump", e["reuse"], pinned=pin)
            with Seams(alloc2, random.Random(e["seed"]), clock):
                try:
                    unt = get_untrusted_types(data=data)
                    got = loads(data, trusted=unt)
                except Exception as ex:
                    res.fail("load-failed", f"{type(ex).__name__}: {ex}")
                    return res
            d = V.sharing_diff(obj, got)
            if d:
                res.fail("sharing", f"cycle {c + 1}: {d}")
            d = V.diff(obj, got)
            if d:
                res.fail("wrong-content", f"cycle {c + 1}: {d}")
            check_members(res, cur, members, c)
            res.ev("cycle", c, len(ids), len(members), alloc.reused if alloc else -1)
            if res.violations:
                break
            if c:
                res.probes["second-cycle"] += 1
            cur = got
    finally:
        gc.set_threshold(*th)
    res.ev(digest(scen["value"]))
    res.states.add(digest([kinds, holders, e["mode"], e["gc"], bool(e["pinned"])]))
    res.simtime = clock.elapsed
    return res


def check_members(res, obj, members, c):
    """each distinct array or sparse matrix is in exactly one member"""
    arrays = {}

    def visit(o, seen):
        if id(o) in seen:
            return
        seen[id(o)] = o
        if sp.issparse(o):
            arrays[id(o)] = ("sparse", o)
            # sparse arrays may be stored by their parts
            for x in vars(o).values():
                for y in x if isinstance(x, tuple) else (x,):
                    if isinstance(y, np.ndarray) and y.dtype != object and id(y) not in arrays:
                        arrays[id(y)] = ("part", y)
                        seen[id(y)] = y
        elif isinstance(o, np.ma.MaskedArray):
            if o is not np.ma.masked:
                arrays[id(o)] = ("array", np.asarray(o.data))
        elif isinstance(o, np.ndarray) and o.dtype != object and type(o) is np.ndarray:
            arrays[id(o)] = ("array", o)
        for _, x in V.children(o):
            visit(x, seen)

    visit(obj, {})
    if not arrays:
        return
    keys, optional = {}, set()
    for k, (kind, a) in arrays.items():
        kk = key_of("array" if kind == "part" else kind, a)
        keys.setdefault(kk, []).append(k)
        if kind == "part" or kind == "sparse" and not isinstance(a, sp.spmatrix):
            optional.add(kk)
    stored = {}
    for nm, b in members.items():
        if nm.endswith(".npy"):
            try:
                kk = key_of("array", np.load(io.BytesIO(b), allow_pickle=False))
            except Exception:
                continue
        elif nm.endswith(".npz"):
            try:
                kk = key_of("sparse", sp.load_npz(io.BytesIO(b)))
            except Exception:
                continue
        else:
            continue
        stored[kk] = stored.get(kk, 0) + 1
    for kk, objs in keys.items():
        # contents small or common enough to occur by chance elsewhere are skipped
        if kk[-1] < 24:
            continue
        res.probes["member-checked"] += 1
        n = stored.get(kk, 0)
        if n > len(objs) or n < len(objs) and kk not in optional:
            res.fail("stored-once", f"cycle {c + 1}: {len(objs)} distinct {kk[0]} {kk[1:3]} stored in {stored.get(kk, 0)} members")
            return


def key_of(kind, a):
    if kind == "sparse":
        coo = a.tocoo()
        raw = np.asarray(coo.data).tobytes() + b"|" + b"|".join(np.asarray(x).astype("i8").tobytes() for x in coo.coords) \
            if hasattr(coo, "coords") else coo.data.tobytes() + coo.row.astype("i8").tobytes() + coo.col.astype("i8").tobytes()
        return ("sparse", a.format, str(a.shape), str(a.dtype), digest(raw.hex()), len(raw))
    return ("array", str(a.dtype), str(a.shape),"", digest(a.tobytes("C").hex()), a.nbytes)


def empty_defs(spec):
    if isinstance(spec, list):
        if len(spec) == 3 and spec[0] == "def":
            yield spec[2]
        for x in spec:
            yield from empty_defs(x)


def shared_kinds(spec):
    """kinds of the parts referenced more than once, kinds of containers, twins?"""
    defs, used, holders = {}, [], set()
    seen = {}

    def walk(s):
        if not isinstance(s, list):
            return
        if s and s[0] == "def":
            defs[s[1]] = s[2][0]
        if s and s[0] == "ref" and len(s) == 2:
            used.append(s[1])
        if s and isinstance(s[0], str):
            holders.add(s[0])
            if s[0] in ("array", "sparse", "masked", "est", "list", "dict", "obj", "bytearray"):
                k = jdump(s)
                seen[k] = seen.get(k, 0) + 1
        for x in s:
            walk(x)

    walk(spec)
    kinds = sorted({defs[u] for u in used if u in defs})
    hs = sorted(h for h in holders if h in ("list", "tuple", "dict", "odict", "ddict", "objarray", "partial", "obj", "est", "method"))
    return kinds, hs, int(any(v > 1 for v in seen.values()))
