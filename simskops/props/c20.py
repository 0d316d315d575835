"""C20 - calls are independent of history and of concurrent calls.

One run = 1-4 clients ("strands"), each a list of API calls on its own cards,
files and loaded values and on shared arguments (objects, archives, trusted
lists, models, templates, tables).  The clients run in one process, interleaved
call by call or as threads preempted inside of calls by a seeded scheduler, with
failing callees and disks in between.  The result of every call is compared with
the same client alone in a fresh process, and (sampled) with that one call alone
in a fresh process after nothing but the calls that made its arguments.
"""
from __future__ import annotations

import contextlib
import copy
import gc
import io
import os
import pickle
import random
import select
import signal
import sys
import threading
import time

from .. import archive, canon, cardsim, coop, mutate, zoo
from .. import values as V
from ..core import HarnessError, Result, digest, jdump
from ..fixtures import EXCS
from ..seams import Allocator, Clock, Seams
from ..simfs import Scratch, SimDisk, poke, peek

PROPERTY = "C20"
CAMPAIGNS = {"quick": 1100, "thorough": 14000}
WALL = {"quick": 300, "thorough": 3300}
CAMPAIGN_TIMEOUT = 400
RUN_TIMEOUT = 120
MEM_GB = 6
SHRINK_ANY = True
RULE = ("campaign = 2 runs; a run = 1-4 clients with 2-9 calls each (dumps/dump/loads/load/get_untrusted_types/visualize, card building, rendering, saving, "
        "markdown conversion, refused and failing calls, re-entrant calls) over shared arguments, interleaved call by call or as threads preempted at "
        "seeded lines/calls/returns inside of skops; each outcome (archive up to ids, value with types and sharing, list, text, exception) equals that of "
        "the same client alone in a fresh process and, for sampled calls, of the call alone with only the calls that made its arguments; non-trivial = at "
        "least two calls were compared; distinct by (calls, arguments, outcomes) digest")
STATE_MEASURE = "distinct (preempted function and line, kind of the call that runs meanwhile) pairs and (previous call kind, call kind) pairs"
REAL = ["skops.io", "skops.card", "zipfile", "numpy/scipy/sklearn", "rich", "pandas", "matplotlib (agg)", "threads"]
STUBS = ["thread scheduling (one thread runs at a time, preempted in skops code only)", "locks made by skops", "id()", "uuid4", "time.time", "failing callees", "disk errors",
         "garbage collector (runs as an explicit step)"]
ASSUMPTIONS = [
    "shared arguments are not modified by the clients while they are in use; values that a client loaded itself are",
    "threads are preempted inside of skops code (lines, calls, returns), never inside of the libraries it calls",
    "equal = same archive up to object ids, uuids and the order of sets; same value by type, content, sharing and array layout; same exception type and message",
]
PROBES = ["thread", "sequence", "preempted", "compared-alone", "compared-single", "reentrant", "faulted", "mutated-loaded", "mutated-list", "rewritten-file", "shared-card",
          "id-reused", "old-protocol", "exception-compared", "perm-importance", "fairlearn", "doc", "model-file", "same-args-other-type"]

_ready = False


def prepare():
    global _ready
    if _ready:
        return
    _ready = True
    coop.install()
    os.environ["COLUMNS"] = "100"
    os.environ["MPLBACKEND"] = "agg"
    import warnings
    warnings.simplefilter("ignore")
    import importlib
    import pkgutil
    import rich.console, rich.tree, rich.panel, rich.text  # noqa
    import pandas, prettytable, scipy.special, scipy.sparse  # noqa
    import matplotlib.pyplot, matplotlib.backends.backend_agg  # noqa
    import sklearn.inspection  # noqa
    import skops.io, skops.card  # noqa
    for m in ("skops.io", "skops.card", "skops.utils"):
        pkg = importlib.import_module(m)
        for i in pkgutil.iter_modules(pkg.__path__):
            if i.name not in ("tests", "conftest") and not i.ispkg:
                with contextlib.suppress(Exception):
                    importlib.import_module(f"{m}.{i.name}")
    V._est_class("Ridge")
    with contextlib.suppress(Exception):
        import fairlearn.metrics  # noqa
    from ..fixtures import weird_class
    from ..cardsim import pin_ids
    weird_class()
    pin_ids()


def parent_init():
    prepare()
    got = in_fork(lambda: {n: d for n in zoo.warm() if not isinstance(d := zoo._cache[n], Exception)}, 300)
    if got[0] == "ok":
        zoo._cache.update(got[1])


# ------------------------------------------------------------------- forking
def in_fork(fn, timeout):
    """fn() in a copy of this process -> ("ok", result) | ("died", signal) | ("hang",) | ("error", text)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            gc.disable()
            try:
                out = ("ok", fn())
            except BaseException as e:  # noqa
                import traceback
                out = ("error", f"{type(e).__name__}: {e}\n{traceback.format_exc()}")
            data = pickle.dumps(out, protocol=4)
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    parts, end = [], time.perf_counter() + timeout
    hang = False
    while True:
        left = end - time.perf_counter()
        if left <= 0:
            hang = True
            os.kill(pid, signal.SIGKILL)
            left = 5
        if select.select([r], [], [], left)[0]:
            b = os.read(r, 1 << 20)
            if not b:
                break
            parts.append(b)
        elif hang:
            break
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if hang:
        return ("hang",)
    if not parts:
        return ("died", os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st))
    return pickle.loads(b"".join(parts))


# ----------------------------------------------------------------- generator
SMALL = ["logreg", "pipe", "sgd-log", "tree", "kmeans", "colt", "onehot", "gamma", "knn-kd", "svc", "tfidf", "nb"]
TRUST = ["simskops.fixtures.Plain", "simskops.fixtures.Stateful", "simskops.zoo.Holder", "sklearn.tree._tree.Tree", "nothing.here"]


def retype(spec):
    """an equal value of other types"""
    if isinstance(spec, list) and spec and isinstance(spec[0], str):
        if spec[0] == "int" and len(spec) == 2 and isinstance(spec[1], int):
            return ["bool", bool(spec[1])] if spec[1] in (0, 1) else ["float", float(spec[1]).hex()] if abs(spec[1]) < 2**50 else spec
        if spec[0] == "bool":
            return ["int", int(spec[1])]
        if spec[0] in ("list", "tuple"):
            return [{"list": "tuple", "tuple": "list"}[spec[0]], [retype(x) for x in spec[1]]] if len(spec) == 2 and isinstance(spec[1], list) else spec
        if spec[0] == "dict" and len(spec) == 2:
            return ["odict", [[k, retype(v)] for k, v in spec[1]]]
    return spec


def g_archive(rng, i):
    r = rng.random()
    if i and r < 0.3:
        return {"twin": rng.randrange(i), "sel": rng.getrandbits(16), "how": rng.choice(["digit", "digit", "class", "swap", "proto", "cut", "drop"])}
    b = ["named", rng.choice(sorted(zoo.OBJECTS)) if r < 0.6 else rng.choice(SMALL) if r < 0.85 else rng.choice(zoo.NAMES)] if r < 0.75 else \
        ["value", V.g_value(rng, rng.choice([1, 2, 3])) if rng.random() < 0.7 else V.g_obj(rng)]
    return {"base": b, "proto": rng.choice([None, None, None, None, 0, 1])}


def g_object(rng, i):
    r = rng.random()
    if i and r < 0.2:
        return {"retype": rng.randrange(i)}
    if r < 0.55:
        return {"spec": V.g_value(rng, rng.choice([1, 2, 3]))}
    if r < 0.65:
        return {"spec": V.g_obj(rng)}
    if r < 0.75:
        return {"spec": V.g_est(rng)}
    if r < 0.9:
        return {"zoo": rng.choice(sorted(zoo.OBJECTS) + SMALL[:6])}
    if r < 0.95:
        return {"nested": V.g_value(rng, 2)}
    return {"bad": rng.choice(["generator", "lambda", "state", "reduce", "late"])}


class SG:
    """the calls of one client"""

    def __init__(self, rng, k, pool, thr, docs, hot=()):
        self.hot = hot
        self.rng, self.k, self.pool, self.thr, self.docs = rng, k, pool, thr, docs
        self.ncards = rng.choice([1, 1, 2])
        self.g = cardsim.Gen(rng, 64)
        self.live, self.vars, self.paths, self.plots = [], {}, {}, []
        self.nvar = 0

    def obj(self):
        vs = [v for v, k in self.vars.items() if k == "val"]
        if vs and self.rng.random() < 0.2:
            return ["v", self.rng.choice(vs)]
        return ["p", self.rng.randrange(len(self.pool["objects"]))]

    def data(self):
        vs = [v for v, k in self.vars.items() if k == "data"]
        if vs and self.rng.random() < 0.3:
            return ["v", self.rng.choice(vs)]
        return ["a", self.rng.randrange(len(self.pool["archives"]))]

    def trust(self):
        r = self.rng.random()
        return None if r < 0.2 else ["own"] if r < 0.75 else ["l", self.rng.randrange(len(self.pool["trusted"]))]

    def var(self, kind):
        self.nvar += 1
        v = f"v{self.nvar}"
        self.vars[v] = kind
        return v

    def path(self, new=False):
        if new or not self.paths:
            p = self.rng.choice(["m.skops", "x.skops"])
            self.paths[p] = True
            return p
        return self.rng.choice(sorted(self.paths))

    def new(self):
        rng, c = self.rng, len(self.live)
        t = self.g.template()
        o = {"template": t, "model": cardsim.g_model(rng), "file": None}
        if self.pool["templates"] and rng.random() < 0.4:
            t = o["template"] = {"shared": rng.randrange(len(self.pool["templates"]))}
            for k_, _ in self.pool["templates"][t["shared"]]:
                self.g.note(c, cardsim.split_ref(k_))
        if self.pool["models"] and rng.random() < 0.5:
            o["model"] = {"shared": rng.randrange(len(self.pool["models"]))}
        elif self.pool["estarch"] and rng.random() < 0.25:
            o["file"] = rng.choice(self.pool["estarch"])
        if t != "skops" and rng.random() < 0.15:
            o["diagram"] = self.g.key(c, 1.0)
        elif t == "skops":
            for k_ in (["Model description"], ["Model description", "Training Procedure"], ["Model Card Authors"], ["Model description", "Evaluation Results"]):
                self.g.note(c, k_)
        if isinstance(t, list):
            for k_, _ in t:
                self.g.note(c, cardsim.split_ref(k_))
        self.live.append(c)
        return ["new", c, o]

    def card(self):
        rng = self.rng
        if not self.live or (len(self.live) < self.ncards and rng.random() < 0.4):
            return self.new()
        c = rng.choice(self.live)
        kinds = ["add", "plot", "table", "metrics", "hyper", "mplot", "select", "delete", "flag", "content", "render", "toc", "repr", "save", "perm", "fair", "setmodel"]
        kind = rng.choices(kinds, [w * (4 if x in self.hot else 0.3 if self.hot else 1) for x, w in zip(kinds, [8, 3, 5, 6, 2, 2, 3, 3, 2, 2, 6, 2, 2, 2, 0.5, 0.4, 1])])[0] \
            if rng.random() < 0.8 or not self.hot else rng.choice(sorted(set(self.hot) & set(kinds)) or kinds)
        if kind == "perm":
            return ["perm", c, rng.randrange(4), rng.choice(["imp.png", "imp2.png"]), rng.random() < 0.5]
        if kind == "fair":
            return ["fair", c, rng.randrange(3), rng.random() < 0.6]
        if kind == "setmodel":
            return ["setmodel", c, rng.choice(self.pool["estarch"]) if self.pool["estarch"] else 0]
        op = cardsim.OPGEN[kind](self.g, c, None)
        if kind == "table" and self.pool["tables"] and rng.random() < 0.4:
            op[-1] = [[k, {"shared": rng.randrange(len(self.pool["tables"]))}] for k, _ in op[-1]]
        if kind == "metrics" and rng.random() < 0.08:
            op[-1] = op[-1] + [["nested", ["nestedstr", rng.randrange(5)]]]
        return op

    def io(self):
        rng = self.rng
        kinds = ["dumps", "dumpv", "dumpf", "loads", "loadf", "gut", "gutf", "viz", "vizf", "write", "mut", "del", "gc", "bad"]
        k = rng.choices(kinds, [w * (5 if x in self.hot else 0.3 if self.hot else 1) for x, w in zip(kinds, [10, 3, 3, 14, 4, 6, 2, 6, 2, 4, 5, 2, 1, 3])])[0]
        comp = rng.choice([None] * 6 + [[8, None], [8, 9], [14, None]])
        if k == "dumps":
            return ["dumps", self.obj(), comp]
        if k == "dumpv":
            o = self.obj()
            return ["dumpv", o, self.var("data")]
        if k == "dumpf":
            return ["dumpf", self.obj(), self.path(rng.random() < 0.3)]
        if k == "loads":
            d = self.data()
            return ["loads", d, self.trust(), self.var("val") if rng.random() < 0.6 else None]
        if k in ("loadf", "gutf", "vizf", "write"):
            if k == "write" or not self.paths:
                p = self.path(rng.random() < 0.3)
                return ["write", p, ["a", rng.randrange(len(self.pool["archives"]))], rng.random() < 0.7]
            p = self.path()
            if k == "loadf":
                return ["loadf", p, self.trust(), self.var("val") if rng.random() < 0.4 else None]
            return ["gut", ["f", p], rng.random() < 0.5] if k == "gutf" else self.viz(["f", p])
        if k == "gut":
            return ["gut", self.data(), rng.random() < 0.6]
        if k == "viz":
            return self.viz(self.data())
        vs = [v for v, kk in self.vars.items() if kk == "val"]
        if k == "mut" and vs:
            return ["mut", rng.choice(vs), rng.getrandbits(10)]
        if k == "del" and vs:
            v = rng.choice(vs)
            del self.vars[v]
            return ["del", v]
        if k == "gc":
            return ["gc"]
        return ["bad", rng.choice(["junk", "str", "none", "missing", "true", "lambda", "generator", "badshow", "emptyzip", "noschema", "proto", "sinkraise"])]

    def viz(self, d):
        rng = self.rng
        return ["viz", d, rng.choice(["all", "all", "untrusted", "trusted"]), self.trust(), rng.choice(["collect", "pretty", "pretty", "nested", "stop"]), rng.random() < 0.5]

    def text(self):
        rng = self.rng
        if rng.random() < 0.4:
            return ["doc", rng.randrange(len(self.docs))]
        return ["conv", rng.random() < 0.5, rng.randrange(len(self.pool["blocks"]))]

    def shared(self):
        rng = self.rng
        return ["shared", rng.randrange(len(self.pool["cards"])), rng.choice(["render", "toc", "repr", "select", "model"])]

    def fault(self, op):
        rng = self.rng
        if op[0] in ("dumps", "loads", "loadf", "gut", "viz", "render", "toc", "repr", "select", "conv", "doc") and (op[0] != "loads" or op[3] is None) \
                and (op[0] != "loadf" or op[3] is None) and (op[0] != "conv" or op[1]) and rng.random() < 0.2:
            if (op[0] == "loadf" or isinstance(op[1], list) and op[1][0] == "f") and not self.thr and rng.random() < 0.6:
                return {"disk": [{"at": rng.choice([0, 1, 2, 3, 5, 8]), "kind": rng.choice(["EIO", "short", "EACCES"]), "frac": rng.random()}]}
            group = {"dumps": ["json.dumps", "zip.writestr", "zip.open", "np.save"], "render": ["table.row", "table.str"], "select": ["table.row", "table.str"],
                     "conv": ["table.row", "table.str"], "doc": ["table.row", "table.str", "json.loads"], "toc": sorted(CALLEES), "repr": sorted(CALLEES)}
            return {"callee": rng.choice(group.get(op[0], ["json.loads", "zip.read", "zip.open", "np.load", "import", "import"])), "at": rng.choice([0, 0, 0, 1, 2, 4]), "exc": rng.choice(["MemoryError", "OSError", "KeyboardInterrupt", "ValueError", "RuntimeError"])}
        return None

    def motif(self):
        """calls that would meet what an earlier, similar call left behind"""
        rng, na, no = self.rng, len(self.pool["archives"]), len(self.pool["objects"])
        two = rng.sample(range(na), 2)
        twins = [[a["twin"], i] for i, a in enumerate(self.pool["archives"]) if "twin" in a]
        if twins and rng.random() < 0.6:
            two = rng.choice(twins)
            rng.shuffle(two)
        kind = rng.choice(["rewrite", "rewrite", "mutate", "spoil", "twin", "retype", "cards", "alike", "modelfile", "onecard", "old", "dumps"])
        est = self.pool["estarch"]
        if kind == "modelfile" and len(est) < 2:
            kind = "alike"
        if kind == "onecard":
            e = rng.sample(est, 2) if len(est) > 1 and rng.random() < 0.7 else [rng.choice(est) if est else two[0], two[1]]
            how = rng.choice(["hyper", "mplot", "repr"])
            return [["onecard", x, how] for x in (*e, e[0])]
        if kind == "dumps":
            self.paths["m.skops"] = self.paths["x.skops"] = True
            out = [["dumpf", self.obj(), x] for x in rng.choice([["m.skops", "x.skops"], ["m.skops", "m.skops", "x.skops"]])]
            return out + [["loadf", "m.skops", ["own"], None]]
        if kind in ("rewrite", "twin"):
            p = rng.choice(["m.skops", "x.skops"])
            trust = rng.choice([["own"], self.trust()])
            what = rng.choice(["load", "gut", "viz"])

            def call(d):
                if what == "gut":
                    return ["gut", d, False]
                if what == "viz":
                    return ["viz", d, "all", trust, "collect", False]
                return ["loadf", d[1], trust, None] if d[0] == "f" else ["loads", d, trust, None]
            if kind == "twin":
                return [call(["a", two[0]]), call(["a", two[1]]), call(["a", two[0]])]
            self.paths[p] = True
            return [["write", p, ["a", two[0]], True], call(["f", p]), ["write", p, ["a", two[1]], True], call(["f", p])]
        if kind == "mutate":
            d, t = ["a", two[0]], ["own"]
            return [["loads", d, t, self.var("val")], ["mut", f"v{self.nvar}", rng.getrandbits(10)], ["mut", f"v{self.nvar}", rng.getrandbits(10)], ["loads", d, t, None]]
        if kind == "spoil":
            return [["gut", ["a", two[0]], True], ["gut", ["a", two[0]], False]]
        if kind == "old":
            old = [i for i, a in enumerate(self.pool["archives"]) if a.get("proto") is not None or a.get("how") == "proto"] or two
            i = rng.choice(old)
            return [["loads", ["a", x], ["own"], None] for x in (two[0], i, two[0])]
        if kind == "retype":
            rs = [[o["retype"], i] for i, o in enumerate(self.pool["objects"]) if "retype" in o]
            pair = rng.choice(rs) if rs else [rng.randrange(no), rng.randrange(no)]
            rng.shuffle(pair)
            return [["dumps", ["p", i], None] for i in (*pair, pair[0])]
        out = []
        if kind == "cards":
            new = []
            for _ in range(2):
                out.append(self.new())
                new.append(out[-1][1])
            a, b = new
            out[-1][2]["template"] = copy.deepcopy(out[0][2]["template"])
            k = rng.choice(["add", "table", "metrics", "plot"])
            op = cardsim.OPGEN[k](self.g, a, None)
            out += [op, cardsim.OPGEN[k](self.g, b, None)]
            if rng.random() < 0.5:
                out.append([op[0], b, *copy.deepcopy(op[2:])])
            return out + [["render", a], ["render", b]]
        if kind == "modelfile":
            e = rng.sample(self.pool["estarch"], 2)
            out.append(self.new())
            c = out[0][1]
            out[0][2]["file"] = e[0]
            look = lambda: [rng.choice(["hyper", "mplot"]), c, "M", None]  # noqa
            return out + [look(), ["render", c], ["setmodel", c, e[1]], look(), ["render", c], ["repr", c]]
        # models that look alike
        name = rng.choice(["LogisticRegression", "StandardScaler", "DecisionTreeClassifier"])
        params = [["C", ["float", (0.5).hex()]]] if name == "LogisticRegression" and rng.random() < 0.4 else []
        for seed in rng.sample([None, 3, 4], 2):
            out.append(self.new())
            c = out[-1][1]
            out[-1][2].update(model=["est", name, params, seed], file=None)
            out += [[x, c, "M" if rng.random() < 0.7 else "N", None] for x in rng.choice([["mplot"], ["hyper"], ["mplot", "hyper"]])]
            out.append(["render", c])
        return out

    def duel(self, kinds, n):
        rng, out = self.rng, []
        for _ in range(n):
            for k in kinds:
                c = self.live[-1] if self.live else None
                p = rng.choice(["m.skops", "x.skops"])
                if k == "new":
                    out.append(self.new())
                elif k == "dumpf":
                    out.append(["dumpf", self.obj(), p])
                    self.paths[p] = True
                elif k == "dumps":
                    out.append(["dumps", self.obj(), None])
                elif k == "loads":
                    out.append(["loads", self.data(), ["own"], None])
                elif k == "loadf":
                    out.append(["loadf", out[-1][2] if out and out[-1][0] == "dumpf" else p, ["own"], None])
                elif k == "gut":
                    out.append(["gut", self.data(), False])
                elif k == "viz":
                    out.append(["viz", self.data(), "all", ["own"], "pretty", rng.random() < 0.5])
                elif k == "onecard":
                    out.append(["onecard", rng.choice(self.pool["estarch"] or range(len(self.pool["archives"]))), rng.choice(["hyper", "mplot", "repr"])])
                elif k == "conv":
                    out.append(["conv", True, rng.randrange(len(self.pool["blocks"]))] if rng.random() < 0.5 else ["doc", rng.randrange(len(self.docs))])
                elif k == "perm":
                    out.append(["perm", c, rng.randrange(4), rng.choice(["imp.png", "imp2.png"]), False])
                elif k in ("hyper", "mplot"):
                    out.append([k, c, "M", None])
                elif k == "long":       # sections of very different lengths
                    out.append(["add", c, False, [["T" * rng.choice([1, 2, 5, 9, 17, 33]) + str(i), f"{i} words " * rng.choice([3, 12, 30])] for i in range(6)]])
                elif k in ("repr", "toc"):
                    out.append([k, c])
                else:
                    out.append(cardsim.OPGEN[k](self.g, c, None))
            if self.live:
                out.append(["render", self.live[-1]])
        # (half of the time only what comes after the preparations is preempted)
        pre = (2 if kinds[1:2] == ["long"] else 1) if out and out[0][0] == "new" and rng.random() < 0.6 else 0
        return [{"op": op, "pre": 1} if i < pre else {"op": op} for i, op in enumerate(out)]

    def ops(self, n, mix):
        out = []
        for _ in range(n):
            if self.rng.random() < 0.12 and len(self.pool["archives"]) > 1:
                out += [{"op": op} for op in self.motif()]
                continue
            k = self.rng.choices(["io", "card", "text", "shared"], mix)[0]
            op = getattr(self, k)()
            e = {"op": op}
            f = self.fault(op)
            if f:
                e["fault"] = f
            out.append(e)
            if self.rng.random() < 0.07 and out:        # the same again
                out.append(copy.deepcopy(self.rng.choice(out[-4:])))
                if out[-1]["op"][0] in ("del", "new"):
                    out.pop()
        return out


def g_plan(rng, nthreads):
    style = rng.random()
    if rng.random() < 0.5:      # at a few places in the code, wherever they are
        return {"k": "loc", "mod": rng.choice([7, 20, 50, 120, 300]), "res": rng.getrandbits(16), "nth": rng.choice([1, 1, 1, 2, 3, 0])}
    if style < 0.25:        # a few preemptions anywhere
        return {"k": "list", "gaps": [[rng.randint(1, 6000), rng.randrange(nthreads)] for _ in range(rng.choice([1, 2, 3, 5]))]}
    if style < 0.85:
        hi = rng.choice([8, 60, 500, 3000])
        return {"k": "list", "gaps": [[max(1, int(hi ** rng.random())), rng.randrange(nthreads)] for _ in range(rng.choice([10, 40, 150, 400]))]}
    return {"k": "const", "gap": rng.choice([1, 2, 3, 5, 7]), "n": rng.choice([200, 1500]), "after": rng.choice([0, 0, rng.randint(0, 4000)])}


def plan_iter(p):
    if p["k"] == "list":
        yield from (tuple(g) for g in p["gaps"])
    elif p["k"] == "const":
        if p["after"]:
            yield p["after"], 0
        for i in range(p["n"]):
            yield p["gap"], i


def campaign(rng, run, tier, index):
    prepare()
    from .c15 import G
    for _ in range(2):
        V.KEYS_EXTRA = False
        thr = rng.random() < 0.5
        archives = []
        for i in range(rng.choice([2, 3, 4, 6])):
            archives.append(g_archive(rng, i))
        pool = {
            "archives": archives,
            "objects": [g_object(rng, i) for i in range(1)],
            "trusted": [sorted(rng.sample(TRUST, rng.choice([0, 1, 2, 3]))) for _ in range(2)],
            "models": [cardsim.g_model(rng) for _ in range(rng.choice([0, 1, 2]))],
            "templates": [t for t in (cardsim.Gen(rng, 1).template() for _ in range(2)) if isinstance(t, list)],
            "tables": [cardsim.g_table(rng) for _ in range(rng.choice([0, 1, 2]))],
            "blocks": [G(rng).block(rng.choice([1, 2, 3])) if rng.random() < 0.8 else G(rng).broken() for _ in range(3)],
            "cards": [],
        }
        for i in range(1, rng.choice([2, 3, 5])):
            pool["objects"].append(g_object(rng, i))
        if rng.random() < 0.3:
            archives += [{"base": ["named", x], "proto": None} for x in rng.sample(SMALL, rng.choice([1, 2]))]
        pool["estarch"] = [i for i, a in enumerate(archives) if a.get("base", [0])[0] == "named" and a["base"][1] in SMALL]
        pool["cards"] = [{"template": rng.choice(["skops", None]), "model": cardsim.g_model(rng), "file": rng.choice(pool["estarch"]) if pool["estarch"] and rng.random() < 0.6 else None}
                         for _ in range(2)]
        docs = [G(rng).doc() for _ in range(2)]
        pool["docs"] = docs
        ns = rng.choice([1, 2, 2, 3, 4]) if not thr else rng.choice([2, 2, 3, 4])
        mix = rng.choice([[6, 4, 1, 1], [10, 1, 0, 0], [1, 10, 1, 1], [3, 3, 2, 2], [5, 5, 1, 0], [1, 1, 0, 5]])
        hot = rng.sample(HOT, rng.choice([1, 2, 3, 4])) if rng.random() < 0.4 else ()      # few kinds of calls, often
        strands = [SG(rng, k, pool, thr, docs, hot).ops(rng.choice([2, 4, 6, 9, 12]) if not thr else rng.choice([2, 3, 5, 7]), mix) for k in range(ns)]
        if thr and rng.random() < 0.45:      # everybody does the same few things at the same time
            kinds = rng.choice([["dumpf"], ["dumps"], ["loads"], ["gut"], ["viz"], ["onecard"], ["conv"], ["new"], ["new", "table"], ["new", "metrics"], ["new", "render"],
                                ["new", "hyper"], ["new", "mplot"], ["new", "perm"], ["new", "save"], ["new", "long", "repr", "repr"], ["new", "long", "repr", "toc"], ["dumpf", "loadf"], ["dumps", "loads"]])
            ns = rng.choice([2, 2, ns])
            strands = [SG(rng, k, pool, thr, docs).duel(kinds, rng.choice([1, 1, 2])) for k in range(ns)]
        elif thr and rng.random() < 0.4:     # the same client several times
            strands[1] = copy.deepcopy(strands[0])
        scen = {"mode": "thr" if thr else "seq", "pool": pool, "strands": strands, "seed": rng.getrandbits(24), "reuse": rng.random() < 0.7, "onedir": rng.random() < 0.6, "singles": rng.choice([3, 5, 8])}
        if thr:
            scen["plan"] = g_plan(rng, ns)
            if any(e.get("pre") for x in strands for e in x) and rng.random() < 0.6:    # out of step, close together
                hi = rng.choice([4, 8, 30])
                scen["plan"] = {"k": "list", "gaps": [[max(1, int(hi ** rng.random())), rng.randrange(ns)] for _ in range(600)]}
            scen["first"] = rng.randrange(ns)
        else:
            order = [k for k, s in enumerate(strands) for _ in s]
            rng.shuffle(order)
            scen["order"] = order
        run(scen)


# ------------------------------------------------------------------ executor
def same_size(data):
    """the archive, with a comment that fills it up to a multiple of 32 KiB: files that are replaced keep their size"""
    if data[-22:-18] != b"PK\x05\x06":
        return data
    n = -len(data) % 32768
    return data[:-2] + n.to_bytes(2, "little") + b" " * n


CALLEES = {
    "json.loads": ("json", None, "loads"), "json.dumps": ("json", None, "dumps"), "zip.read": ("zipfile", "ZipFile", "read"), "zip.writestr": ("zipfile", "ZipFile", "writestr"),
    "np.load": ("numpy", None, "load"), "np.save": ("numpy", None, "save"), "import": ("importlib", None, "import_module"), "zip.open": ("zipfile", "ZipFile", "open"),
    "table.row": ("prettytable", "PrettyTable", "add_row"), "table.str": ("prettytable", "PrettyTable", "get_string"),
}


class Out:
    """sys.stdout of each thread"""
    encoding = "utf-8"

    def __init__(self):
        self.local = threading.local()

    def buf(self):
        if not hasattr(self.local, "b"):
            self.local.b = io.StringIO()
        return self.local.b

    def write(self, s):
        return self.buf().write(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def take(self):
        s = self.buf().getvalue()
        self.local.b = io.StringIO()
        return s


class World:
    """everything the clients share, and their own things"""

    def __init__(self, scen, args, top, alloc):
        self.scen, self.args, self.top = scen, args, top
        self.out = Out()
        self.local = threading.local()
        self.fired = []
        self.disk = None
        self.strands = {}
        self.alloc = alloc

    def strand(self, k):
        if k not in self.strands:
            self.strands[k] = Strand(self, k)
        return self.strands[k]

    def wrap(self):
        import importlib
        for name, (mod, cls, attr) in CALLEES.items():
            owner = importlib.import_module(mod)
            owner = getattr(owner, cls) if cls else owner
            setattr(owner, attr, self.failing(name, getattr(owner, attr)))

    def failing(self, name, orig):
        def call(*a, **k):
            f = getattr(self.local, "fault", None)
            if f is not None and f["callee"] == name:
                f["n"] = f.get("n", 0) + 1
                if f["n"] == f["at"] + 1:
                    self.fired.append(f"{f['exc']}@{name}")
                    raise EXCS[f["exc"]]("injected")
            return orig(*a, **k)
        call.__name__ = getattr(orig, "__name__", name)
        return call


def mutables(x, seen, out, depth=0):
    import numpy as np
    if id(x) in seen or depth > 40 or len(out) > 400:
        return
    seen.add(id(x))
    if isinstance(x, (type, np.ufunc)) or x is np.ma.masked or callable(getattr(x, "__code__", None)):
        return
    t = type(x)
    if t is list:
        out.append(x)
        kids = x
    elif isinstance(x, dict):
        out.append(x)
        kids = list(x.values())
    elif t is tuple:
        kids = x
    elif t is set:
        out.append(x)
        kids = ()
    elif isinstance(x, np.ndarray):
        if x.flags.writeable and x.size and x.dtype.names is None:
            out.append(x)
        kids = list(x.ravel()) if x.dtype == object else ()
    elif hasattr(x, "__dict__") and not isinstance(x, type(os)) and t.__module__.split(".")[0] in ("sklearn", "simskops", "scipy"):
        out.append(x.__dict__)
        kids = list(x.__dict__.values())
    else:
        return
    for k in kids:
        mutables(k, seen, out, depth + 1)


class Strand:
    def __init__(self, w, k):
        self.w, self.k = w, k
        self.dir = os.path.join(w.top, "data", "" if w.scen.get("onedir") else f"s{k}")
        os.makedirs(self.dir, exist_ok=True)
        self.vars, self.cards, self.md = {}, {}, None
        self.seen = {}

    # -- arguments
    def obj(self, r):
        if r[0] == "v":
            return self.vars.get(r[1])
        return self.w.args["objects"][r[1]]

    def data(self, r):
        if r[0] == "v":
            d = self.vars.get(r[1])
            return d if isinstance(d, bytes) else b"no data"
        return self.w.args["archives"][r[1]][0]

    def trust(self, t, d):
        if t is None:
            return None
        if t[0] == "l":
            return self.w.args["trusted"][t[1]]
        if d[0] == "a":
            return self.w.args["archives"][d[1]][1]
        if d[0] == "f" and d[1] in self.seen:
            return self.w.args["archives"][self.seen[d[1]]][1]
        return self.w.args["alltrust"]

    def file(self, p):
        return os.path.join(self.dir, p if not self.w.scen.get("onedir") else f"s{self.k}-{p}")

    # -- calls
    def run(self, e, faults=True):
        """-> text of the outcome, or None where it is not compared"""
        op, f = e["op"], e.get("fault") if faults else None
        w = self.w
        w.out.take()
        if f and "callee" in f:
            w.local.fault = dict(f)
        disk = None
        if f and "disk" in f:
            disk = SimDisk(w.top, [])
        try:
            if disk is not None:
                with disk:
                    disk.start(f["disk"])
                    v = getattr(self, "op_" + op[0])(op)
                    disk.stop()
            else:
                v = getattr(self, "op_" + op[0])(op)
            out = "= " + v
        except (coop.Deadlock, HarnessError):
            raise
        except BaseException as ex:  # noqa
            out = "! " + canon.exception(ex, w.top)
            ex.__traceback__ = None
        finally:
            w.local.fault = None
            if disk is not None:
                disk.stop()
                w.fired.extend(k for k, n in disk.fired.items() for _ in range(n))
        printed = w.out.take()
        if printed:
            out += "\nstdout: " + canon.text(printed, w.top)
        return None if f else out

    def op_dumps(self, op):
        from skops.io import dumps
        kw = {} if op[2] is None else {"compression": op[2][0], "compresslevel": op[2][1]}
        return canon.archive(dumps(self.obj(op[1]), **kw))

    def op_dumpv(self, op):
        from skops.io import dumps
        self.vars.pop(op[2], None)
        d = dumps(self.obj(op[1]))
        self.vars[op[2]] = d
        return canon.archive(d)

    def op_dumpf(self, op):
        from skops.io import dump
        p = self.file(op[2])
        self.seen.pop(op[2], None)
        r = dump(self.obj(op[1]), p)
        return f"{r} " + canon.archive(peek(p))

    def keep(self, v, name):
        if name is not None:
            self.vars[name] = v

    def op_loads(self, op):
        from skops.io import loads
        if op[3]:
            self.vars.pop(op[3], None)
        v = loads(self.data(op[1]), trusted=self.trust(op[2], op[1]))
        self.keep(v, op[3])
        return canon.value(v)

    def op_loadf(self, op):
        from skops.io import load
        if op[3]:
            self.vars.pop(op[3], None)
        v = load(self.file(op[1]), trusted=self.trust(op[2], ["f", op[1]]))
        self.keep(v, op[3])
        return canon.value(v)

    def op_gut(self, op):
        from skops.io import get_untrusted_types
        l = get_untrusted_types(file=self.file(op[1][1])) if op[1][0] == "f" else get_untrusted_types(data=self.data(op[1]))
        out = f"{type(l).__name__} {l!r}"
        if op[2] and type(l) is list:
            l.append("spoiled.by.caller")
            l.reverse()
        return out

    def op_viz(self, op):
        from skops.io import loads, dumps, visualize
        _, d, show, trust, sink, colors = op
        src = self.file(d[1]) if d[0] == "f" else self.data(d)
        box = []

        def collect(nodes, show, **kw):
            for i, n in enumerate(nodes):
                box.append(repr(n))
                if sink == "stop" and i == 1:
                    return
                if sink == "nested" and i < 3:
                    box.append(canon.value(loads(dumps([i, {"a": (1, i)}]))))
                    visualize(dumps({"x": i}), sink=lambda nodes, show, **kw: box.extend(repr(m) for m in nodes))
        kw = {"sink": collect} if sink != "pretty" else {"use_colors": colors}
        r = visualize(src, show=show, trusted=self.trust(trust, d), **kw)
        return f"{r} " + canon.text("\n".join(box), self.w.top)

    def op_write(self, op):
        _, p, d, same = op
        full = self.file(p)
        poke(full, same_size(self.data(d)) if same else self.data(d))
        os.utime(full, (1.6e9, 1.6e9))
        self.seen[p] = d[1]
        return "written"

    def op_mut(self, op):
        import numpy as np
        x = self.vars.get(op[1])
        out = []
        mutables(x, set(), out)
        if not out:
            return "nothing"
        t = out[op[2] % len(out)]
        if type(t) is list:
            t.append("MUTATED")
        elif isinstance(t, dict):
            t["MUTATED"] = 1
        elif type(t) is set:
            t.add("MUTATED")
        elif isinstance(t, np.ndarray):
            t[...] = t.ravel()[-1] if op[2] % 2 else np.zeros((), t.dtype)
        return "changed"

    def op_del(self, op):
        self.vars.pop(op[1], None)
        return "deleted"

    def op_gc(self, op):
        gc.collect()
        return "collected"

    def op_bad(self, op):
        from skops import io as sio
        k = op[1]
        if k == "junk":
            sio.loads(b"PK\x05\x06 not an archive")
        elif k == "str":
            sio.loads("text")
        elif k == "none":
            sio.get_untrusted_types()
        elif k == "missing":
            sio.load(self.file("missing.skops"))
        elif k == "true":
            sio.loads(self.w.args["archives"][0][0], trusted=True)
        elif k == "lambda":
            sio.dumps([1, {"f": lambda x: x}])
        elif k == "generator":
            sio.dumps([[1], (i for i in range(3))])
        elif k == "badshow":
            sio.visualize(self.w.args["archives"][0][0], show="nothing")
        elif k == "sinkraise":
            def sink(nodes, show, **kw):
                next(iter(nodes))
                raise RuntimeError("sink")
            sio.visualize(self.w.args["archives"][0][0], sink=sink)
        else:
            b = archive.write({"__class__": "list", "__module__": "builtins", "__loader__": "ListNode", "content": [], "protocol": 99 if k == "proto" else 2}, {})
            if k == "emptyzip":
                b = b"PK\x05\x06" + b"\0" * 18
            if k == "noschema":
                b = b.replace(b"schema.json", b"schemo.json")
            return canon.value(sio.loads(b))
        return "returned"

    # -- cards
    def model(self, m):
        if isinstance(m, dict):
            return self.w.args["models"][m["shared"]]
        return cardsim.build_model(m)

    def op_new(self, op):
        _, c, o = op
        self.cards.pop(c, None)
        self.cards[c] = self.make_card(o, f"model{c}.skops")
        return canon.text(repr(type(self.cards[c])))

    def make_card(self, o, name):
        from skops.card import Card
        tpl = o["template"]
        if isinstance(tpl, dict):
            tpl = self.w.args["templates"][tpl["shared"]]
        elif isinstance(tpl, list):
            tpl = {k: v for k, v in map(tuple, tpl) if k not in cardsim.BADKEYS}
        kw = {}
        if o.get("diagram", "auto") != "auto":
            kw["model_diagram"] = o["diagram"]
        if o.get("file") is not None:
            d, trust = self.w.args["archives"][o["file"]]
            p = self.file(name)
            poke(p, same_size(d))
            os.utime(p, (1.6e9, 1.6e9))
            return Card(p, template=tpl, trusted=trust, **kw)
        return Card(self.model(o["model"]), template=tpl, **kw)

    def ret(self, c, v):
        return "self" if v is self.cards[c] else canon.text(repr(v), self.w.top)

    def op_onecard(self, op):
        """a card of its own for a model file that is there just now"""
        from skops.card import Card
        d, trust = self.w.args["archives"][op[1]]
        p = self.file("model.skops")
        poke(p, same_size(d))
        os.utime(p, (1.6e9, 1.6e9))
        card = Card(p, template=None, trusted=trust)
        if op[2] == "hyper":
            card.add_hyperparams(section="M")
        elif op[2] == "mplot":
            card.add_model_plot(section="M")
        else:
            return canon.text(repr(card), self.w.top)
        return canon.text(card.render(), self.w.top)

    def op_setmodel(self, op):
        card = self.cards[op[1]]
        d, trust = self.w.args["archives"][op[2]]
        p = self.file(f"model{op[1]}.skops")
        poke(p, same_size(d))
        os.utime(p, (1.6e9, 1.6e9))
        card.trusted = trust
        if not isinstance(card.model, str):
            card.model = p
            card.__dict__.pop("_model", None)
        return "set"

    def op_add(self, op):
        _, c, folded, pairs = op
        kw = dict(map(tuple, pairs))
        return self.ret(c, self.cards[c].add(folded=folded, **kw) if folded is not None else self.cards[c].add(**kw))

    def op_plot(self, op):
        _, c, o, pairs = op
        kw = {k: os.path.join(self.w.top, "plots", p[2:]) for k, p in pairs}
        args = {k: v for k, v in (("description", o["desc"]), ("alt_text", o["alt"]), ("folded", o["folded"])) if v is not None}
        return self.ret(c, self.cards[c].add_plot(**args, **kw))

    def op_table(self, op):
        _, c, o, pairs = op
        kw = {k: self.w.args["tables"][t["shared"]] if "shared" in t else cardsim.build_table(t) for k, t in pairs}
        args = {k: v for k, v in (("description", o["desc"]), ("folded", o["folded"])) if v is not None}
        return self.ret(c, self.cards[c].add_table(**args, **kw))

    def op_metrics(self, op):
        _, c, section, desc, pairs = op
        from ..fixtures import NestedStr
        vals = {k: NestedStr(v[1]) if v[0] == "nestedstr" else V.build(v) for k, v in pairs}
        args = {k: v for k, v in (("section", section), ("description", desc)) if v is not None}
        return self.ret(c, self.cards[c].add_metrics(**args, **vals))

    def sect(self, op):
        return {k: v for k, v in (("section", op[2]), ("description", op[3])) if v is not None}

    def op_hyper(self, op):
        return self.ret(op[1], self.cards[op[1]].add_hyperparams(**self.sect(op)))

    def op_mplot(self, op):
        return self.ret(op[1], self.cards[op[1]].add_model_plot(**self.sect(op)))

    def op_select(self, op):
        s = self.cards[op[1]]
        for key in op[2]:
            s = s.select(key)
        return self.section(s)

    def section(self, s):
        return canon.text(f"{type(s).__name__} {s.title!r} {s.content!r} {s.visible} {s.folded} {list(s.subsections)} {s.format()!r} {s!r}", self.w.top)

    def op_delete(self, op):
        _, c, form, key = op
        return repr(self.cards[c].delete(key if form == "str" else tuple(key) if form == "tuple" else list(key)))

    def op_flag(self, op):
        setattr(self.cards[op[1]].select(op[2]), op[3], op[4])
        return "set"

    def op_content(self, op):
        self.cards[op[1]].select(op[2]).content = op[3]
        return "set"

    def op_render(self, op):
        return canon.text(self.cards[op[1]].render(), self.w.top)

    def op_toc(self, op):
        return self.cards[op[1]].get_toc()

    def op_repr(self, op):
        return canon.text(repr(self.cards[op[1]]), self.w.top)

    def op_save(self, op):
        o = op[2]
        p = self.file(os.path.basename(o["path"]))
        r = self.cards[op[1]].save(p, **({"copy_files": True} if o["copy"] else {}))
        return f"{r} " + canon.text(peek(p).decode("utf-8", "replace"), self.w.top)

    def op_perm(self, op):
        import numpy as np
        from sklearn.utils import Bunch
        _, c, k, name, over = op
        r = np.random.RandomState(k)
        imp = r.rand(2 + k, 3)
        b = Bunch(importances=imp, importances_mean=imp.mean(axis=1), importances_std=imp.std(axis=1))
        p = self.file(name)
        v = self.cards[c].add_permutation_importances(b, columns=np.array([f"col{i}" for i in range(2 + k)]), plot_file=p, plot_name=f"PI {k}", overwrite=over)
        return self.ret(c, v) + " " + digest((peek(p) or b"").hex())

    def op_fair(self, op):
        _, c, k, transpose = op
        r = random.Random(k)
        from fairlearn.metrics import MetricFrame
        from sklearn.metrics import accuracy_score
        y = [r.randrange(2) for _ in range(12)]
        mf = MetricFrame(metrics={"acc": accuracy_score}, y_true=y, y_pred=[r.randrange(2) for _ in range(12)], sensitive_features=[i % (2 + k) for i in range(12)])
        return self.ret(c, self.cards[c].add_fairlearn_metric_frame(mf, transpose=transpose))

    # -- text
    def op_conv(self, op):
        from skops.card._markup import Markdown
        if op[1]:
            md = Markdown()
        else:
            md = self.md = self.md or Markdown()
        return md(copy.deepcopy(self.w.scen["pool"]["blocks"][op[2]]))

    def op_doc(self, op):
        import skops.card._parser as P
        src = jdump({"blocks": self.w.scen["pool"]["docs"][op[1]], "pandoc-api-version": [1, 20], "meta": {}})
        card = P.PandocParser(src).generate()
        return canon.text(card.render()) + "\n" + card.get_toc()

    def op_shared(self, op):
        card = self.w.args["cards"][op[1]]
        k = op[2]
        if k == "select":
            return self.section(card.select("S/Metrics"))
        if k == "model":
            return canon.text(repr(card.get_model()))
        return canon.text({"render": card.render, "toc": card.get_toc, "repr": lambda: repr(card)}[k](), self.w.top)


# --------------------------------------------------------- what a call needs
def needs(ops, i, outs):
    """indices of the calls that make the arguments of call i (and i itself)"""
    need = set()
    failed = lambda x: outs[x] is not None and outs[x].startswith("!")  # noqa: E731

    def add(j):
        if j in need:
            return
        need.add(j)
        op = ops[j]["op"]
        for v in reads(op):
            d = None
            for x in range(j - 1, -1, -1):
                if makes(ops[x]["op"]) == v and not failed(x):
                    d = x
                    break
            if d is not None and not ops[d].get("fault"):
                add(d)
                for x in range(d + 1, j):
                    if ops[x]["op"][0] == "mut" and ops[x]["op"][1] == v:
                        add(x)
        for p in reads_path(op):
            for x in range(j - 1, -1, -1):
                if ops[x]["op"][0] in ("write", "dumpf") and ops[x]["op"][1 if ops[x]["op"][0] == "write" else 2] == p:
                    add(x)
                    if not failed(x):
                        break
        c = card_of(op)
        if c is not None and op[0] != "new":
            for x in range(j - 1, -1, -1):
                if card_of(ops[x]["op"]) == c and ops[x]["op"][0] not in ("render", "toc", "repr", "select", "save"):
                    add(x)
                    if ops[x]["op"][0] == "new":
                        break
        if op[0] == "perm":
            for x in range(j):
                if ops[x]["op"][0] == "perm" and ops[x]["op"][3] == op[3]:
                    add(x)
    add(i)
    return sorted(need)


def reads(op):
    out = []
    for x in op[1:]:
        if isinstance(x, list) and len(x) == 2 and x[0] == "v" and op[0] in ("dumps", "dumpv", "dumpf", "loads", "gut", "viz"):
            out.append(x[1])
    if op[0] == "mut":
        out.append(op[1])
    return out


def makes(op):
    return op[2] if op[0] == "dumpv" else op[3] if op[0] in ("loads", "loadf") else op[1] if op[0] == "del" else None


def reads_path(op):
    if op[0] == "loadf":
        return [op[1]]
    if op[0] in ("gut", "viz") and op[1][0] == "f":
        return [op[1][1]]
    return []


HOT = ["dumps", "dumpf", "dumpv", "loads", "loads", "loadf", "gut", "viz", "write", "mut", "bad", "add", "table", "metrics", "metrics", "hyper", "mplot", "render", "select", "save", "perm", "perm", "fair",
       "plot", "delete", "content", "setmodel"]
CARD_OPS = {"new", "add", "plot", "table", "metrics", "hyper", "mplot", "select", "delete", "flag", "content", "render", "toc", "repr", "save", "perm", "fair", "setmodel"}


def card_of(op):
    return op[1] if op[0] in CARD_OPS else None


# ------------------------------------------------------------------ the runs
def make_archives(specs):
    """in a process of its own"""
    from skops.io import dumps, get_untrusted_types
    from skops.io._protocol import PROTOCOL
    out = []
    for i, a in enumerate(specs):
        try:
            if "twin" in a:
                data = twin(out[a["twin"]][0], a)
                try:
                    trust = get_untrusted_types(data=data)
                except Exception:
                    trust = list(out[a["twin"]][1])
            elif a["base"][0] == "named":
                data, trust = zoo.base(a["base"][1])
            else:
                obj = V.build(a["base"][1])
                with Seams(Allocator(random.Random(1)), random.Random(1), Clock()):
                    data = zoo.canonical(dumps(obj))
                trust = get_untrusted_types(data=data)
            if a.get("proto") is not None:
                data, _ = archive.set_protocol(data, a["proto"], PROTOCOL)
                trust = get_untrusted_types(data=data)
        except RecursionError:
            raise
        except Exception:
            data, trust = zoo.base("scalars")
        out.append((data, list(trust)))
    return out


def twin(data, a):
    """another archive of the same shape, ids and (often) size"""
    r = random.Random(a["sel"])
    how = a["how"]
    if how == "cut":
        return data[: len(data) * r.randint(1, 9) // 10]
    if how == "swap":
        ba = bytearray(data)
        ba[r.randrange(len(ba))] ^= 1
        return bytes(ba)
    schema, members = archive.read(data)
    if how == "proto":
        schema["protocol"] = r.choice([0, 1, 2])
        return archive.write(schema, members)
    if how == "drop" and members:
        del members[r.choice(sorted(members))]
        return archive.write(schema, members)
    nodes = []
    archive.walk(schema, nodes.append)
    if how == "digit":
        js = [n for n in nodes if n["__loader__"] == "JsonNode" and isinstance(n.get("content"), str) and any(c.isdigit() for c in n["content"])]
        if js:
            n = r.choice(js)
            i = r.choice([i for i, c in enumerate(n["content"]) if c.isdigit()])
            n["content"] = n["content"][:i] + str((int(n["content"][i]) + 1 + r.randrange(8)) % 10) + n["content"][i + 1:]
    else:
        cs = [n for n in nodes if n.get("__class__") in ("Plain", "Stateful", "list", "tuple", "dict", "OrderedDict")]
        if cs:
            n = r.choice(cs)
            new = {"Plain": "Other", "Stateful": "Plain", "list": "list", "tuple": "tuple", "dict": "OrderedDict", "OrderedDict": "dict"}[n["__class__"]]
            if n["__class__"] in ("dict", "OrderedDict"):
                n["__module__"] = "collections" if new == "OrderedDict" else "builtins"
            n["__class__"] = new
    return archive.write(schema, members)


def build_object(o, done):
    import numpy as np
    np.random.seed(11)
    if "retype" in o:
        return done[o["retype"]][1](), None
    if "zoo" in o:
        return zoo.make(o["zoo"])
    if "nested" in o:
        from ..fixtures import Nested
        return Nested(V.build(o["nested"]))
    if "bad" in o:
        from .. import fixtures as F
        return {"generator": lambda: [1, (i for i in range(2))], "lambda": lambda: {"a": [lambda: 0]}, "state": lambda: [np.arange(3), F.BadGetstate()],
                "reduce": lambda: (F.BadReduce(), 1), "late": lambda: [list(range(30)), np.arange(4), {"x": F.BadGetstate("KeyError")}]}[o["bad"]]()
    return V.build(o["spec"])


def make_args(scen):
    """the shared arguments: built once, before anything is called"""
    pool = scen["pool"]
    got = in_fork(lambda: make_archives(pool["archives"]), 60)
    if got[0] != "ok":
        raise HarnessError(f"archives: {got}")
    objects, specs = [], []
    for o in pool["objects"]:
        if "retype" in o:
            s = specs[o["retype"]]
            o = {"spec": retype(s["spec"])} if "spec" in s else s
        specs.append(o)
        try:
            objects.append(build_object(o, None))
        except HarnessError:
            raise
        except Exception:
            objects.append(None)
    args = {
        "archives": got[1], "objects": objects, "trusted": [list(t) for t in pool["trusted"]],
        "models": [cardsim.build_model(m) for m in pool["models"]], "templates": [{k: v for k, v in map(tuple, t) if k not in cardsim.BADKEYS} for t in pool["templates"]],
        "tables": [cardsim.build_table(t) for t in pool["tables"]],
        "alltrust": sorted({t for _, l in got[1] for t in l} | set(TRUST)),
    }
    return args


def shared_cards(w):
    """cards that all clients read"""
    out = []
    st = w.strand(99)
    for i, o in enumerate(w.scen["pool"]["cards"]):
        c = st.make_card(o, f"shared{i}.skops")
        c.add(**{"S": f"shared {i}", "S/T": "text"})
        c.add_metrics(section="S/Metrics", a=i, b=2)
        out.append(c)
    return out


def environment(scen, args, top):
    import numpy as np
    for d in ("data", "plots"):
        os.makedirs(os.path.join(top, d), exist_ok=True)
    for n in ("p.png", "q.png"):
        poke(os.path.join(top, "plots", n), b"\x89PNG" + n.encode())
    np.random.seed(5)
    random.seed(5)
    alloc = Allocator(random.Random(scen["seed"]), "reuse" if scen["reuse"] else "bump")
    w = World(scen, args, top, alloc)
    w.wrap()
    sys.stdout = w.out
    w.clock = Clock()
    seams = Seams(alloc, random.Random(scen["seed"] + 1), w.clock)
    seams.__enter__()
    import numpy.random.bit_generator as bg
    if hasattr(bg, "randbits"):
        bg.randbits = lambda n: 0x5EED        # (unseeded generators: randomness is no result)
    if any(e["op"][0] == "shared" for s in scen["strands"] for e in s):
        args["cards"] = shared_cards(w)
    return w


def in_thread(fn):
    box = []

    def body():
        try:
            box.append(("ok", fn()))
        except BaseException as e:  # noqa
            import traceback
            box.append(("error", f"{type(e).__name__}: {e}\n{traceback.format_exc()}"))
    old = threading.stack_size(64 << 20)
    t = threading.Thread(target=body)
    t.start()
    threading.stack_size(old)
    t.join()
    if box[0][0] == "error":
        raise HarnessError(box[0][1])
    return box[0][1]


def lists_of(args):
    """arguments that no call may write to"""
    return repr([args["trusted"], [a[1] for a in args["archives"]], args["alltrust"], [sorted(t.items(), key=repr) for t in args["templates"]]])


def main_run(scen, args, top):
    before = lists_of(args)
    w = environment(scen, args, top)
    outs = [[None] * len(s) for s in scen["strands"]]
    info = {"order": []}
    if scen["mode"] == "seq":
        def go():
            nxt = [0] * len(scen["strands"])
            for k in scen["order"]:
                i = nxt[k]
                nxt[k] += 1
                if i < len(scen["strands"][k]):
                    outs[k][i] = w.strand(k).run(scen["strands"][k][i])
                    info["order"].append((k, i))
        in_thread(go)
    else:
        current = [None] * len(scen["strands"])
        started = []
        for k in range(len(scen["strands"])):
            w.strand(k)
            started.append(next((i for i, e in enumerate(scen["strands"][k]) if not e.get("pre")), len(scen["strands"][k])))

        def prepare_cards():
            for k, n in enumerate(started):
                for i in range(n):
                    outs[k][i] = w.strands[k].run(scen["strands"][k][i])
                    info["order"].append((k, i))
        if any(started):
            in_thread(prepare_cards)

        def body(k):
            def run():
                for i, e in enumerate(scen["strands"][k]):
                    if i < started[k]:
                        continue
                    current[k] = e["op"][0]
                    outs[k][i] = w.strands[k].run(e)
                    info["order"].append((k, i))
            return run
        import skops
        s = coop.Sched([body(k) for k in range(len(outs))], plan_iter(scen["plan"]), os.path.dirname(skops.__file__) + os.sep, scen["first"],
                       dict(scen["plan"], res=scen["plan"]["res"] % scen["plan"]["mod"]) if scen["plan"]["k"] == "loc" else None)
        pairs = set()
        orig = s.switch

        def switch(me, pick, where):
            n = len(s.switches)
            kinds = list(current)
            r = s.runnable()
            to = r[pick % len(r)] if r else me
            if to != me and len(pairs) < 3000:
                pairs.add(f"{where}|{kinds[to]}")
            orig(me, pick, where)
        s.switch = switch
        s.run()
        if s.deadlock:
            info["deadlock"] = s.deadlock
        elif s.errors:
            raise HarnessError(f"thread {s.errors[0][0]}: {type(s.errors[0][1]).__name__}: {s.errors[0][1]}")
        info.update(switches=len(s.switches), events=s.events, blocked=s.blocked, pairs=sorted(pairs), inter=digest(s.switches))
    if lists_of(args) != before:
        info["written"] = canon.first_diff(before, lists_of(args))
    info["fired"] = w.fired
    info["reused"] = w.alloc.reused
    info["elapsed"] = w.clock.elapsed
    return outs, info


def alone(scen, args, top, k, idx):
    """the calls idx of client k, in a process that has called nothing else"""
    w = environment(dict(scen, strands=[[scen["strands"][k][i] for i in idx]]), args, top)
    st = w.strand(k)
    ops = scen["strands"][k]
    return in_thread(lambda: {i: st.run(ops[i]) for i in idx if not ops[i].get("fault")})


def execute(scen):
    prepare()
    res = Result()
    V.SEED_SEQ = False
    rng = random.Random(scen["seed"])
    args = make_args(scen)
    strands = scen["strands"]
    with Scratch() as sc:
        import shutil

        def fork(fn):
            top = os.path.join(sc.top, "w")
            os.makedirs(top)
            try:
                return in_fork(lambda: fn(top), 60)
            finally:
                shutil.rmtree(os.path.join(sc.top, "w"), ignore_errors=True)
        got = fork(lambda top: main_run(scen, args, top))
        if got[0] == "error":
            raise HarnessError(got[1])
        if got[0] != "ok":
            what = {"hang": "does not end", "died": f"dies (signal {got[1:]})"}[got[0]]
            # (is it the calls themselves?)
            for k in range(len(strands)):
                a = fork(lambda top: alone(scen, args, top, k, range(len(strands[k]))))
                if a[0] != "ok":
                    res.ev("a client alone " + a[0])
                    res.nontrivial = False
                    return res
            res.fail(got[0], f"the process {what} although every client alone ends")
            return res
        outs, info = got[1]
        res.probes["thread" if scen["mode"] == "thr" else "sequence"] += 1
        if info.get("deadlock"):
            res.fail("deadlock", info["deadlock"])
        if info.get("written"):     # later calls with "the same" argument get another one
            res.fail("argument-written", f"a shared list of trusted types or template was changed: {info['written']}")
        compared = 0
        flat = [(k, i) for k, s in enumerate(strands) for i in range(len(s))]
        for k, s in enumerate(strands):
            if res.violations:
                break
            if not any(o is not None for o in outs[k]):
                continue
            a = fork(lambda top: alone(scen, args, top, k, range(len(s))))
            if a[0] != "ok":
                if a[0] == "error":
                    raise HarnessError(a[1])
                res.fail("alone-" + a[0], f"client {k} alone: {a}, together with others not")
                break
            for i in range(len(s)):
                if outs[k][i] is None or s[i].get("fault"):
                    continue
                compared += 1
                res.probes["compared-alone"] += 1
                if a[1][i] != outs[k][i]:
                    res.fail("differs-" + ("threads" if scen["mode"] == "thr" else "sequence"),
                             f"client {k} call {i} {str(s[i]['op'])[:300]}: {canon.first_diff(outs[k][i], a[1][i])} (this run / the client alone in a fresh process)")
                    break
        singles = [(k, i) for k, i in flat if outs[k][i] is not None and not strands[k][i].get("fault") and strands[k][i]["op"][0] not in ("mut", "del", "gc", "write", "flag", "content")]
        rng.shuffle(singles)
        for k, i in singles[: scen["singles"]]:
            if res.violations:
                break
            idx = needs(strands[k], i, outs[k])
            if any(strands[k][x].get("fault") for x in idx):
                continue
            if idx == list(range(len(strands[k]))):
                continue
            a = fork(lambda top: alone(scen, args, top, k, idx))
            if a[0] != "ok":
                if a[0] == "error":
                    raise HarnessError(a[1])
                res.fail("single-" + a[0], f"client {k} call {i} alone: {a}, after other calls not")
                break
            compared += 1
            res.probes["compared-single"] += 1
            if a[1][i] != outs[k][i]:
                res.fail("differs-history", f"client {k} call {i} {str(strands[k][i]['op'])[:300]} (needs calls {idx}): "
                                            f"{canon.first_diff(outs[k][i], a[1][i])} (this run / alone in a fresh process)")
    res.nontrivial = compared > 1
    res.simtime = info["elapsed"]
    for f in info["fired"]:
        res.faults[f] += 1
        res.probes["faulted"] += 1
    if info.get("switches"):
        res.probes["preempted"] += 1
        res.faults["preemption"] += info["switches"]
        res.states.update(info["pairs"])
        if info["blocked"]:
            res.probes["lock-wait"] += info["blocked"]
    if info["reused"]:
        res.probes["id-reused"] += 1
    prev = None
    for k, i in info["order"]:
        op = strands[k][i]["op"]
        res.states.add(f"{prev}>{op[0]}")
        prev = op[0]
        o = outs[k][i]
        probe = {"mut": "mutated-loaded", "perm": "perm-importance", "fair": "fairlearn", "doc": "doc", "setmodel": "model-file", "onecard": "model-file", "shared": "shared-card"}.get(op[0])
        if probe and (o or "")[:1] == "=":
            res.probes[probe] += 1
        if op[0] == "gut" and op[2]:
            res.probes["mutated-list"] += 1
        if op[0] == "viz" and op[4] == "nested":
            res.probes["reentrant"] += 1
        if op[0] == "write" and sum(1 for x in strands[k][:i] if x["op"][0] in ("write", "dumpf")):
            res.probes["rewritten-file"] += 1
        if o is not None and o.startswith("!"):
            res.probes["exception-compared"] += 1
    if any(a.get("proto") is not None for a in scen["pool"]["archives"]):
        res.probes["old-protocol"] += 1
    if any("retype" in o for o in scen["pool"]["objects"]):
        res.probes["same-args-other-type"] += 1
    for k, s in enumerate(strands):
        for i, e in enumerate(s):
            o = outs[k][i]
            res.ev(k, i, e["op"][0], o.split(":")[0] if o and o.startswith("!") else bool(o))
    res.ev(digest(scen["pool"]), digest(strands), info.get("deadlock"))
    return res


# -------------------------------------------------------------------- shrink
def shrink(s):
    st = s["strands"]

    def w(ns, order=None, **kw):
        n = dict(s, strands=ns, **kw)
        if order is not None:
            n["order"] = order
        return n

    def order_without(k, i=None):
        if "order" not in s:
            return None
        out, seen = [], 0
        for x in s["order"]:
            if x == k:
                if i is None or seen == i:
                    seen += 1
                    continue
                seen += 1
            out.append(x)
        return out
    for k in range(len(st)):
        if st[k] and len(st) > 1:
            yield w(st[:k] + [[]] + st[k + 1:], order_without(k))
    for k in range(len(st)):
        n = len(st[k])
        if n > 3:
            half = st[k][n // 2:]
            if "order" not in s:
                yield w(st[:k] + [half] + st[k + 1:])
                yield w(st[:k] + [st[k][: n // 2]] + st[k + 1:])
        for i in range(n):
            yield w(st[:k] + [st[k][:i] + st[k][i + 1:]] + st[k + 1:], order_without(k, i))
    for k in range(len(st)):
        for i, e in enumerate(st[k]):
            if e.get("fault"):
                yield w(st[:k] + [st[k][:i] + [{"op": e["op"]}] + st[k][i + 1:]] + st[k + 1:])
    if "plan" in s:
        p = s["plan"]
        if p["k"] == "list":
            g = p["gaps"]
            for n in (len(g) // 2, len(g) * 3 // 4, len(g) - 1):
                if n < len(g):
                    yield dict(s, plan=dict(p, gaps=g[:n]))
            for i in range(len(g) - 1):     # one preemption less, the others where they were
                yield dict(s, plan=dict(p, gaps=g[:i] + [[g[i][0] + g[i + 1][0], g[i + 1][1]]] + g[i + 2:]))
                if len(g) > 40 and i > 20:
                    break
        elif p["k"] == "loc":
            if p["mod"] < 3000:
                for m in (2, 3, 5):
                    for j in range(m):
                        yield dict(s, plan=dict(p, mod=p["mod"] * m, res=p["res"] % p["mod"] + j * p["mod"]))
        else:
            for n in (1, p["n"] // 2):
                if n < p["n"]:
                    yield dict(s, plan=dict(p, n=n))
    if s["reuse"]:
        yield dict(s, reuse=False)
    pool = s["pool"]
    for key, least in (("docs", []), ("blocks", None)):
        for i, d in enumerate(pool[key]):
            if key == "docs" and len(d) > 1:
                yield dict(s, pool=dict(pool, docs=pool["docs"][:i] + [d[:1]] + pool["docs"][i + 1:]))
    for i, o in enumerate(pool["objects"]):
        if o != {"spec": ["none"]} and "retype" not in o:
            yield dict(s, pool=dict(pool, objects=pool["objects"][:i] + [{"spec": ["none"]}] + pool["objects"][i + 1:]))
            if "spec" in o:
                for c in list(V.shrink_spec(o["spec"]))[:30]:
                    yield dict(s, pool=dict(pool, objects=pool["objects"][:i] + [{"spec": c}] + pool["objects"][i + 1:]))
    for i, a in enumerate(pool["archives"]):
        if a.get("base") not in (None, ["named", "scalars"]):
            yield dict(s, pool=dict(pool, archives=pool["archives"][:i] + [dict(a, base=["named", "scalars"])] + pool["archives"][i + 1:]))
        if a.get("proto") is not None:
            yield dict(s, pool=dict(pool, archives=pool["archives"][:i] + [dict(a, proto=None)] + pool["archives"][i + 1:]))


def matches_known(k, scen, v):
    return False
