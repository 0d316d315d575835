"""Model-card clients under the simulator: operation generator, reference
model of the card and comparison with the real thing.  Shared by C09, C10, C14.
"""
from __future__ import annotations

import copy
import os
import re

from . import values as V
from .bombs import Bomb
from .core import HarnessError, digest
from .simfs import SimCrash, peek, poke

NB = " \t\u00a0\n"
TITLES = ["A", "B", "C", "a/b", "a / b", "/", "/lead", "trail/", "A B", "x\\y", "back\\", "ünï", "日本語", "😀", "#h", "- item", "1.", "`q`",
          "Model description", "Evaluation Results", "Training Procedure", "Hyperparameters", "Model Plot", "select", "title", "|p|", "a//b",
          "a\x1fb", "A\u2028B", "<details>", "</details>", "None", "0", "É", "É", "[x](y)", "A" * 60, "...", "*b*", "a\tb",
          "path", "self", "folded x", "content", "%s {0}"]
TEXTS = ["", "", "text", "two\nlines", "# not a heading", "ünï 日本 😀", "a|b", "  lead", "trail  ", "\n\nblank\n\n", "cr\r\nlf", "<details>\n",
         "```\ncode\n```", "- a\n  - b", " ", "\u2028", "tab\there", "{x} %s \\n", "nul\x00", "'\"", "[More Information Needed]"]


assert all(t == t.strip() for t in TITLES)


def esc(title):
    return title.replace("/", "\\/")


def split_ref(key):
    """a path splits on unescaped '/', parts are stripped, '\\/' is a slash"""
    parts, cur, i = [], "", 0
    while i < len(key):
        if key[i] == "\\" and key[i + 1:i + 2] == "/":
            cur += "\\/"
            i += 2
        elif key[i] == "/":
            parts.append(cur)
            cur = ""
            i += 1
        else:
            cur += key[i]
            i += 1
    parts.append(cur)
    return [p.strip().replace("\\/", "/") for p in parts]


# ---------------------------------------------------------------- reference
class N:
    """a section of the reference card"""

    def __init__(self, title, kind="text", text="", folded=False, visible=True, extra=None):
        self.title, self.kind, self.text, self.folded, self.visible = title, kind, text, folded, visible
        self.extra = extra or {}
        self.kids = {}

    def clone(self):
        n = N(self.title, self.kind, self.text, self.folded, self.visible, dict(self.extra))
        n.kids = {k: v.clone() for k, v in self.kids.items()}
        return n


class Ref:
    def __init__(self):
        self.root = {}
        self.metrics = {}

    def clone(self):
        r = Ref()
        r.root = {k: v.clone() for k, v in self.root.items()}
        r.metrics = dict(self.metrics)
        return r

    def put(self, path, node):
        kids = self.root
        for p in path[:-1]:
            if p not in kids:
                kids[p] = N(p)
            kids = kids[p].kids
        old = kids.get(path[-1])
        node.title = path[-1]
        if old is not None:
            node.kids = old.kids
        kids[path[-1]] = node
        return old

    def get(self, path):
        kids, n = self.root, None
        for p in path:
            if not p or p not in kids:
                return None
            n = kids[p]
            kids = n.kids
        return n

    def rm(self, path):
        kids = self.root
        for p in path[:-1]:
            kids = kids[p].kids
        del kids[path[-1]]

    def walk(self, kids=None, path=()):
        for t, n in (self.root if kids is None else kids).items():
            yield path + (t,), n
            yield from self.walk(n.kids, path + (t,))

    def visible(self, kids=None, depth=1):
        for n in (self.root if kids is None else kids).values():
            if not n.visible:
                continue
            yield depth, n
            if not n.folded:
                yield from self.visible(n.kids, depth + 1)


# ---------------------------------------------------------------- generator
def g_title(rng):
    return rng.choice(TITLES) if rng.random() < 0.9 else "".join(rng.choice("abAB/ é") for _ in range(rng.randint(1, 6))).strip() or "z"


def encode(rng, path, blanks=0.4):
    """a key string that names the path (list of titles)"""
    out = []
    for i, t in enumerate(path):
        l = rng.choice(["", " ", "  ", "\t", "\u00a0 "]) if rng.random() < blanks else ""
        r = rng.choice(["", " ", "  ", "\n"]) if rng.random() < blanks else ""
        if t.endswith("\\") and i < len(path) - 1 and not r:
            r = " "
        out.append(l + esc(t) + r)
    return "/".join(out)


class Gen:
    """builds an operation list; tracks the paths it has used per card"""

    def __init__(self, rng, ncards):
        self.rng = rng
        self.paths = [[] for _ in range(ncards)]
        self.serial = 0
        self.titles = rng.sample(TITLES, rng.choice([2, 3, 5, 8]))
        self.deepest = rng.choice([6, 6, 6, 8, 12, 30])
        self.many = rng.choice([5, 5, 5, 14, 40])

    def title(self):
        return self.rng.choice(self.titles) if self.rng.random() < 0.75 else g_title(self.rng)

    def path(self, c, new=0.5):
        rng, known = self.rng, self.paths[c]
        r = rng.random()
        if known and r > new:
            return list(rng.choice(known))
        if known and r > new * 0.4:
            p = max(known, key=len) if self.deepest > 6 and rng.random() < 0.5 else rng.choice(known)
            return (list(p) + [self.title() for _ in range(rng.choice([1, 1, 2] if self.deepest == 6 else [1, 2, 4, 7]))])[:self.deepest]
        return [self.title() for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]

    def note(self, c, path):
        for i in range(1, len(path) + 1):
            if path[:i] not in self.paths[c]:
                self.paths[c].append(path[:i])

    def text(self):
        self.serial += 1
        t = self.rng.choice(TEXTS)
        return t if self.rng.random() < 0.4 else f"{t} m{self.serial}"

    def key(self, c, new=0.5, blanks=0.4):
        p = self.path(c, new)
        self.note(c, p)
        return encode(self.rng, p, blanks)

    def pairs(self, c, val, new=0.5):
        n = self.rng.choice([1, 1, 1, 2, 3, self.many])
        out = []
        for _ in range(n):
            k = self.key(c, new)
            if k not in BADKEYS:
                out.append([k, val()])
        return out or [[" A", val()]]

    def desc(self):
        r = self.rng.random()
        return None if r < 0.5 else "" if r < 0.6 else f"descr {self.text()}"

    def template(self):
        rng = self.rng
        r = rng.random()
        if r < 0.45:
            return None
        if r < 0.65:
            return "skops"
        return [[encode(rng, [self.title() for _ in range(rng.choice([1, 2, 3]))]), self.text()] for _ in range(rng.randint(0, 4))]

    def bomb(self, p):
        rng = self.rng
        if rng.random() >= p:
            return None
        return {"target": "line", "at": rng.choice([0, 1, 2, 3, 5, 8, 13, 21, rng.randint(0, 60), rng.randint(0, 200)]),
                "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "OSError", "RuntimeError"])}


BADKEYS = {"folded", "self", "description", "alt_text", "section", "table", "overwrite", "transpose"}


# cells and tables -----------------------------------------------------------
CELL_TEXT = ["a", "", "x y", "two\nlines", "a\r\nb", "cr\rx", "p|q", "||", "ünï", "日本", "\n", "\nlead", "trail\n", "a\n\nb", "-", "---", ":-:", "0",
             "1.0", "None", "nan", "<br />", "**b**", " pad ", "[l](u)", "# h", "tab\tx", "😀\n|", "a" * 90, "{}", "\u2028", "a\x0bb", "a\x85b"]


def g_cell(rng):
    r = rng.random()
    if r < 0.5:
        return ["str", rng.choice(CELL_TEXT)]
    return rng.choice([["none"], ["int", rng.randint(-9, 10 ** 9)], ["int", 0], ["float", (0.1).hex()], ["float", "nan"], ["float", "inf"],
                       ["float", (1e22).hex()], ["bool", True], ["npscalar", "f8", 25], ["list", [["int", 1], ["str", "a\nb"]]],
                       ["tuple", [["int", 1]]], ["float", rng.uniform(-5, 5).hex()], ["dict", [[["str", "k"], ["int", 1]]]],
                       ["est", rng.choice(["LogisticRegression", "StandardScaler"]), [], None]])


def g_col(rng):
    r = rng.random()
    if r < 0.75:
        return ["str", rng.choice(["a", "b", "c", "a b", "col|pipe", "l\nb", "ünï", "Metric", "Value", "x" * 40, "c\r\nd", " sp", "sp ", "1", "|", "日本"])]
    return rng.choice([["int", 1], ["int", 0], ["float", (0.5).hex()], ["none"], ["bool", True], ["tuple", [["str", "a"], ["int", 1]]]])


def g_table(rng):
    ncol = rng.choice([1, 1, 2, 2, 3, 5])
    nrow = rng.choice([0, 1, 1, 2, 3, 7])
    cols, seen = [], []
    form = rng.choice(["dict", "dict", "df", "df", "tuple", "array", "dfdup", "series"])
    for _ in range(ncol):
        name = g_col(rng)
        v = repr(V.build(name))
        if form != "dfdup" and any(V.build(name) == V.build(c[0]) for c in cols):
            continue
        seen.append(v)
        cols.append([name, [g_cell(rng) for _ in range(nrow)]])
    if form == "dfdup":
        cols.append([cols[0][0], [g_cell(rng) for _ in range(nrow)]])
    return {"cols": cols, "as": form}


def cells_of(t):
    return [str(V.build(c[0])) for c in t["cols"]], [[str(V.build(x)) for x in c[1]] for c in t["cols"]]


def build_table(t, form=None):
    import numpy as np
    import pandas as pd
    form = form or t["as"]
    names = [V.build(c[0]) for c in t["cols"]]
    cols = [[V.build(x) for x in c[1]] for c in t["cols"]]

    def obj(c):
        a = np.empty(len(c), dtype=object)
        for i, x in enumerate(c):
            a[i] = x
        return a

    if form in ("df", "dfdup"):
        df = pd.DataFrame({i: pd.Series(obj(c), dtype=object) for i, c in enumerate(cols)})
        idx = pd.Index(obj(names), dtype=object, tupleize_cols=False)
        df.columns = idx
        return df
    conv = {"dict": list, "tuple": tuple, "array": obj, "series": lambda c: pd.Series(obj(c), dtype=object, index=range(5, 5 + len(c)))}[form]
    return {n: conv(c) for n, c in zip(names, cols)}


def g_metrics(rng):
    names = ["accuracy", "f1 score", "roc|auc", "l\nb", "mAP", "ünï", "a", "b", "c", "a ", "Metric"]
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        out.append([rng.choice(names), rng.choice([["float", round(rng.random(), 3).hex()], ["int", rng.randint(0, 99)], ["str", "n/a"],
                                                  ["str", "0.5\n+-0.1"], ["npscalar", "f8", 5], ["none"], ["float", "nan"], ["str", "a|b"]])])
    return out


def g_model(rng):
    r = rng.random()
    if r < 0.35:
        return ["est", rng.choice(["LogisticRegression", "StandardScaler", "DecisionTreeClassifier"]), [], 3 if rng.random() < 0.3 else None]
    if r < 0.55:
        return ["est", "Pipeline", [["steps", ["list", [["tuple", [["str", "sc"], ["est", "StandardScaler", [], None]]],
                                                       ["tuple", [["str", "m|odel"], ["est", "LogisticRegression", [["C", ["float", (0.5).hex()]]], None]]]]]]], None]
    return ["weird", [[p, g_cell(rng)] for p in ("p", "q", "a_rather_long_name")], rng.random() < 0.3]


def build_model(spec):
    if spec[0] == "weird":
        from .fixtures import weird_class
        m = weird_class()(**{k: V.build(v) for k, v in spec[1]})
        if spec[2]:
            from sklearn.linear_model import LogisticRegression
            m.p = LogisticRegression(max_iter=7)
        return m
    return V.build(spec)


# ------------------------------------------------------------------ parsing
def cell_norm(s):
    """the text a rendered cell must have, up to surrounding blanks"""
    return re.sub(r"\r\n|\r|\n", "<br />", s).strip()


def parse_row(line):
    s = line.strip()
    if not s.startswith("|") or not s.endswith("|"):
        return None
    cells = re.split(r"(?<!\\)\|", s)[1:-1]
    return [c.strip().replace("\\|", "|") for c in cells]


def is_sep(line, n):
    c = parse_row(line)
    return c is not None and len(c) == n and all(re.fullmatch(r":?-*:?", x) for x in c)     # (":": a short name without rows)


class Items(list):
    """expected sequence of non-blank lines"""


def table_items(names, cols):
    out = [("row", [cell_norm(n) for n in names]), ("sep", len(names))]
    for r in range(len(cols[0])):
        out.append(("row", [cell_norm(c[r]) for c in cols]))
    return out


def wrap(items, folded):
    if not folded:
        return items
    return [("open",), ("summary",)] + items + [("close",)]


def text_items(t):
    return [x for x in t.split("\n") if x.strip()]


def section_items(n):
    if n.kind == "text":
        return wrap(text_items(n.text), n.folded)
    if n.kind == "raw":
        return wrap(text_items(n.text), n.folded)
    if n.kind == "plot":
        return text_items(n.text) + wrap([f"![{n.extra['alt']}]({n.extra['path']})"], n.folded)
    if n.kind == "table":
        return text_items(n.text) + wrap(table_items(*n.extra["cells"]), n.folded)
    raise HarnessError(n.kind)


def render_items(ref):
    out = []
    for depth, n in ref.visible():
        out += text_items(f"{'#' * depth} {n.title}")
        out += section_items(n)
    return out


def match(items, text):
    """None or a description of the first difference; `text` vs items"""
    lines = [x for x in text.split("\n") if x.strip()]
    i = 0
    for it in items:
        if isinstance(it, tuple) and it[0] == "summary":
            if i < len(lines) and lines[i].lstrip().startswith("<summary"):
                i += 1
            continue
        if i >= len(lines):
            return f"text ends where {it!r} is expected"
        ln = lines[i]
        if isinstance(it, str):
            ok = ln == it
        elif it[0] == "row":
            got = parse_row(ln)
            ok = got is not None and [norm_alt(c) for c in got] == [norm_alt(c) for c in it[1]]
        elif it[0] == "sep":
            ok = is_sep(ln, it[1])
        elif it[0] == "open":
            ok = ln.strip().startswith("<details")
        else:
            ok = ln.strip() == "</details>"
        if not ok:
            return f"line {ln[:160]!r} where {str(it)[:160]!r} is expected"
        i += 1
    if i < len(lines):
        return f"unexpected line {lines[i][:160]!r}"
    return None


def norm_alt(c):
    # other characters some tools break lines at may be kept or replaced
    c = re.sub("[\u2028\u2029\x0b\x0c\x85\x1c\x1d\x1e]", "<br />", c)
    return re.sub(r"\s+", " ", c)


def expected_toc(ref):
    return "\n".join(f"{'  ' * (d - 1)}- {n.title}" for d, n in ref.visible())


# ------------------------------------------------------------------- world
class World:
    """real cards next to their reference"""

    def __init__(self, scen, res, disk, checks):
        self.res, self.disk, self.checks = res, disk, checks
        self.cards, self.refs, self.models = {}, {}, {}
        self.scen = scen
        self.stop = False

    def fail(self, cls, msg):
        if cls.split(":")[0] in self.checks:
            self.res.fail(cls.split(":")[-1], msg)
            self.stop = True

    # -- real calls
    def call(self, fn, bomb):
        """-> (value, exception, fired)"""
        b = Bomb(bomb, guard=None)
        try:
            with b:
                v = fn()
            return v, None, b.fired
        except SimCrash:
            raise
        except HarnessError:
            raise
        except BaseException as e:  # noqa
            if b.fired:
                self.res.faults[f"{bomb['exc']}@line"] += 1
            return None, e, b.fired

    def run(self, i, entry):
        op, bomb = entry["op"], entry.get("bomb")
        kind, c = op[0], op[1]
        if kind == "new":
            self.new(i, c, op[2])
            return
        if c not in self.cards:
            return
        getattr(self, "op_" + kind)(i, c, op, bomb)
        if self.stop:
            return
        if "tree" in self.checks:
            for k in self.cards:
                self.check_tree(k, f"op {i} {kind} on card {c}")
                if self.stop:
                    return

    # ------------------------------------------------------------- compare
    def check_tree(self, c, where):
        card, ref = self.cards[c], self.refs[c]
        import random
        rng = random.Random(len(where))
        for path, n in ref.walk():
            try:
                sec = self.lookup(card, path, rng)
            except KeyError as e:
                self.fail("tree:lost", f"{where}: section {path!r} of card {c} cannot be selected ({e})")
                return
            d = self.sec_diff(n, sec)
            if d:
                self.fail("tree:wrong-section", f"{where}: section {path!r} of card {c}: {d}")
                return
        toc = card.get_toc()
        want = expected_toc(ref)
        if toc != want:
            self.fail("tree:order", f"{where}: outline of card {c} is {toc!r} instead of {want!r}")

    @staticmethod
    def lookup(card, path, rng):
        cut = rng.randrange(len(path)) if len(path) > 1 and rng.random() < 0.5 else 0
        key = lambda p: "/".join(esc(t) + (" " if t.endswith("\\") else "") for t in p)  # noqa
        if cut:
            return card.select(key(path[:cut])).select(key(path[cut:]))
        return card.select(key(path))

    @staticmethod
    def sec_diff(n, sec):
        if sec.title != n.title:
            return f"title {sec.title!r} instead of {n.title!r}"
        if sec.content != n.text:
            return f"content {sec.content[:80]!r} instead of {n.text[:80]!r}"
        if list(sec.subsections) != list(n.kids):
            return f"subsections {list(sec.subsections)!r} instead of {list(n.kids)!r}"
        if bool(sec.folded) != n.folded or bool(sec.visible) != n.visible:
            return f"folded/visible {sec.folded}/{sec.visible} instead of {n.folded}/{n.visible}"
        want = {"text": "Section", "raw": "Section", "plot": "PlotSection", "table": "TableSection"}[n.kind]
        if type(sec).__name__ != want:
            return f"type {type(sec).__name__} instead of {want}"
        if n.kind == "plot" and (str(sec.path) != n.extra["path"] or sec.alt_text != n.extra["alt"]):
            return f"plot {sec.path!r} {sec.alt_text!r} instead of {n.extra!r}"
        if n.kind == "table":
            got = cells_from(sec.table)
            if [list(x) for x in got] != [list(x) for x in n.extra["cells"]]:
                return f"table {str(got)[:150]} instead of {str(n.extra['cells'])[:150]}"
        return None

    # ---------------------------------------------------------- operations
    def new(self, i, c, o):
        from skops.card import Card
        model = build_model(o["model"])
        tpl = o["template"]
        kw = {}
        if isinstance(tpl, list):
            tpl = dict(tpl)
            for k in list(tpl):
                if k in BADKEYS:
                    del tpl[k]
        if o.get("diagram", "auto") != "auto":
            kw["model_diagram"] = o["diagram"]
        marg = model
        if o.get("file"):
            from skops.io import dumps
            p = os.path.join(self.disk.root, "data", f"model{c}.skops")
            poke(p, dumps(model))
            from skops.io import get_untrusted_types
            kw["trusted"] = get_untrusted_types(file=p)
            marg = p
        card = Card(marg, template=tpl, **kw)
        ref = Ref()
        self.cards[c], self.refs[c] = card, ref
        self.models[c] = {"obj": model, "file": o.get("file")}
        if tpl == "skops":
            from skops.card._templates import SKOPS_TEMPLATE
            for k, v in SKOPS_TEMPLATE.items():
                ref.put(split_ref(k), N("", text=v))
            self.ref_hyper(c, "Model description/Training Procedure/Hyperparameters", None)
            if o.get("diagram", "auto") in ("auto", True):
                self.ref_mplot(c, "Model description/Training Procedure/Model Plot", None)
        elif isinstance(tpl, dict):
            for k, v in tpl.items():
                ref.put(split_ref(k), N("", text=v))
        if isinstance(o.get("diagram"), str) and o["diagram"] != "auto":
            self.ref_mplot(c, o["diagram"], None)
        self.res.probes["template-" + (tpl if isinstance(tpl, str) else "dict" if tpl is not None else "none")] += 1

    def ref_put(self, c, key, node):
        path = split_ref(key)
        old = self.refs[c].put(path, node)
        if old is not None:
            self.res.probes["overwrite"] += 1
            if old.kids:
                self.res.probes["overwrite-with-subsections"] += 1
            if not old.visible:
                # whether replacing content unhides is not specified
                try:
                    node.visible = bool(self.cards[c].select("/".join(esc(t) + (" " if t.endswith("\\") else "") for t in path)).visible)
                except KeyError:
                    pass
        return path

    def params(self, c):
        return self.models[c]["obj"].get_params(deep=True)

    def ref_hyper(self, c, key, desc):
        p = self.params(c)
        cells = (["Hyperparameter", "Value"], [[str(k) for k in p], [str(v) for v in p.values()]])
        return self.ref_put(c, key, N("", "table", desc or "", True, extra={"cells": cells}))

    def ref_mplot(self, c, key, desc):
        path = split_ref(key)
        sec = self.cards[c].select("/".join(esc(t) + (" " if t.endswith("\\") else "") for t in path))
        html = sec.content
        if desc:
            if not html.startswith(desc):
                self.fail("build:model-plot", f"model plot section {path!r} does not start with its description")
            html = html[len(desc):]
        name = type(self.models[c]["obj"]).__name__
        if "sk-top-container" not in html or name not in html:
            self.fail("build:model-plot", f"section {path!r} does not hold a diagram of {name}: {html[:80]!r}")
        return self.ref_put(c, key, N("", "raw", sec.content))

    def after_fault(self, i, c, op, ex, keys):
        """an operation ended by an injected fault: what it did not touch must
        be unchanged; what it touched may be either"""
        self.res.probes["aborted-op"] += 1
        card, ref = self.cards[c], self.refs[c]
        touched = [tuple(split_ref(k)) for k in keys]
        # re-read only sections on the way to the targets
        for path in touched:
            for d in range(1, len(path) + 1):
                self.resync(card, ref, path[:d])

    def resync(self, card, ref, path):
        key = "/".join(esc(t) + (" " if t.endswith("\\") else "") for t in path)
        try:
            sec = card.select(key)
        except KeyError:
            if ref.get(path) is not None:
                ref.rm(path)
            return
        n = ref.get(path)
        if n is None or n.title != sec.title or n.text != sec.content or type_of(sec) != n.kind.replace("raw", "text"):
            kind = type_of(sec)
            new = N(sec.title, kind, sec.content, bool(sec.folded), bool(sec.visible))
            if kind == "plot":
                new.extra = {"path": str(sec.path), "alt": sec.alt_text}
            if kind == "table":
                new.extra = {"cells": cells_from(sec.table)}
            ref.put(path, new)
        else:
            n.folded, n.visible = bool(sec.folded), bool(sec.visible)
            if n.kind == "table":
                n.extra = {"cells": cells_from(sec.table)}
            if n.kind == "plot":
                n.extra = {"path": str(sec.path), "alt": sec.alt_text}

    def finish(self, i, c, op, fn, bomb, keys, apply):
        before = self.snap_others(c)
        v, ex, fired = self.call(fn, bomb)
        if ex is not None:
            self.res.ev(i, op[0], c, type(ex).__name__)
            if not fired:
                self.fail("raise:op-failed", f"op {i} {str(op)[:300]} raised {type(ex).__name__}: {ex}")
                return False
            self.after_fault(i, c, op, ex, keys)
        else:
            self.res.ev(i, op[0], c, "ok")
            apply()
        return ex is None

    def snap_others(self, c):
        return None

    def op_add(self, i, c, op, bomb):
        _, _, folded, pairs = op
        kw = dict(map(tuple, pairs))
        card = self.cards[c]

        def apply():
            for k, t in kw.items():
                self.ref_put(c, k, N("", "text", t, folded))

        self.multi(i, c, op, kw, lambda cd, items: cd.add(folded=folded, **items) if folded is not None else cd.add(**items))
        self.finish(i, c, op, lambda: card.add(folded=folded, **kw), bomb, list(kw), apply)

    def op_plot(self, i, c, op, bomb):
        _, _, o, pairs = op
        kw = {k: self.plot_path(p) for k, p in pairs}
        args = {k: v for k, v in (("description", o["desc"]), ("alt_text", o["alt"]), ("folded", o["folded"])) if v is not None}
        card = self.cards[c]

        def apply():
            for k, p in kw.items():
                title = split_ref(k)[-1]
                self.ref_put(c, k, N("", "plot", o["desc"] or "", bool(o["folded"]), extra={"path": str(p), "alt": o["alt"] or title}))

        self.multi(i, c, op, kw, lambda cd, items: cd.add_plot(**args, **items))
        self.finish(i, c, op, lambda: card.add_plot(**args, **kw), bomb, list(kw), apply)
        if len(kw) > 1:
            self.res.probes["multi-plot"] += 1

    def plot_path(self, p):
        from pathlib import Path
        if p.startswith("P:"):
            return Path(p[2:])
        if p.startswith("D:"):
            return os.path.join(self.disk.root, "plots", p[2:])
        return p

    def op_table(self, i, c, op, bomb):
        _, _, o, pairs = op
        kw = {k: build_table(t) for k, t in pairs}
        specs = {k: t for k, t in pairs}
        args = {k: v for k, v in (("description", o["desc"]), ("folded", o["folded"])) if v is not None}
        card = self.cards[c]

        def apply():
            for k in kw:
                self.ref_put(c, k, N("", "table", o["desc"] or "", bool(o["folded"]), extra={"cells": cells_of(specs[k])}))

        self.multi(i, c, op, kw, lambda cd, items: cd.add_table(**args, **items))
        ok = self.finish(i, c, op, lambda: card.add_table(**args, **kw), bomb, list(kw), apply)
        if ok and "build" in self.checks:
            from skops.card import Card
            for k, t in specs.items():
                if t["as"] == "dfdup":
                    continue
                outs = []
                for form in ("dict", "df"):
                    outs.append(Card(None, template=None, model_diagram=False).add_table(X=build_table(t, form)).render())
                self.res.probes["dict-vs-df"] += 1
                if outs[0] != outs[1]:
                    self.fail("build:dict-df", f"op {i}: the same table renders differently as dict and DataFrame: {first_diff(*outs)}")

    def op_metrics(self, i, c, op, bomb):
        _, _, section, desc, pairs = op
        vals = {k: V.build(v) for k, v in pairs}
        args = {k: v for k, v in (("section", section), ("description", desc)) if v is not None}
        sec = section if section is not None else "Model description/Evaluation Results"
        card, ref = self.cards[c], self.refs[c]
        merged = dict(ref.metrics)
        for k, v in vals.items():
            merged[k] = str(v)

        def apply():
            if set(vals) & set(ref.metrics):
                self.res.probes["metric-updated"] += 1
            ref.metrics = merged
            self.ref_put(c, sec, N("", "table", desc or "", False, extra={"cells": (
                ["Metric", "Value"], [list(merged), list(merged.values())])}))

        def fn():
            return card.add_metrics(**args, **vals)

        if not self.finish(i, c, op, fn, bomb, [sec], apply):
            # an aborted call: whether its metrics count is open; the next one
            # tells. Re-issue it, as a client would.
            v, ex, _ = self.call(fn, None)
            if ex is None:
                apply()
            elif not self.stop:
                self.fail("raise:op-failed", f"op {i}: add_metrics after an aborted add_metrics raised {type(ex).__name__}: {ex}")

    def op_hyper(self, i, c, op, bomb):
        _, _, section, desc = op
        args = {k: v for k, v in (("section", section), ("description", desc)) if v is not None}
        sec = section if section is not None else "Model description/Training Procedure/Hyperparameters"
        self.finish(i, c, op, lambda: self.cards[c].add_hyperparams(**args), bomb, [sec], lambda: self.ref_hyper(c, sec, desc))

    def op_mplot(self, i, c, op, bomb):
        _, _, section, desc = op
        args = {k: v for k, v in (("section", section), ("description", desc)) if v is not None}
        sec = section if section is not None else "Model description/Training Procedure/Model Plot"
        self.finish(i, c, op, lambda: self.cards[c].add_model_plot(**args), bomb, [sec], lambda: self.ref_mplot(c, sec, desc))

    def op_setmodel(self, i, c, op, bomb):
        """the model is replaced: parameters, attribute or file content"""
        m = self.models[c]
        new = build_model(op[2])
        if m["file"]:
            from skops.io import dumps, get_untrusted_types
            p = os.path.join(self.disk.root, "data", f"model{c}.skops")
            poke(p, dumps(new))
            self.cards[c].trusted = get_untrusted_types(file=p)
            m["obj"] = new
            self.res.probes["model-file-replaced"] += 1
        elif type(new) is type(m["obj"]) and not op[3]:
            m["obj"].set_params(**{k: v for k, v in new.get_params(deep=False).items()})
            self.res.probes["params-changed"] += 1

    def op_select(self, i, c, op, bomb):
        chain = op[2]
        card, ref = self.cards[c], self.refs[c]
        node, path, missing = None, [], False
        for key in chain:
            parts = split_ref(key)
            if not all(parts):
                missing = True
                break
            path += parts
            node = ref.get(path)
            if node is None:
                missing = True
                break

        def fn():
            s = card
            for key in chain:
                s = s.select(key)
            return s

        v, ex, fired = self.call(fn, bomb)
        self.res.ev(i, "select", c, type(ex).__name__ if ex else "ok")
        if fired and ex is not None:
            self.res.probes["aborted-op"] += 1
            return
        if missing:
            self.res.probes["select-missing"] += 1
            if ex is None:
                self.fail("raise:no-keyerror", f"op {i}: select {chain!r} returned {v.title!r} although there is no such section")
            elif not isinstance(ex, KeyError):
                self.fail("raise:no-keyerror", f"op {i}: select {chain!r} raised {type(ex).__name__} instead of KeyError")
            return
        if ex is not None:
            self.fail("raise:op-failed", f"op {i}: select {chain!r} raised {type(ex).__name__}: {ex}")
            return
        self.res.probes["chained-select" if len(chain) > 1 else "select"] += 1
        d = self.sec_diff(node, v)
        if d:
            self.fail("tree:wrong-section", f"op {i}: select {chain!r}: {d}")

    def op_delete(self, i, c, op, bomb):
        _, _, form, key = op
        card, ref = self.cards[c], self.refs[c]
        parts = split_ref(key) if form == "str" else list(key)
        arg = key if form == "str" else tuple(key) if form == "tuple" else list(key)
        node = ref.get(parts) if parts and all(parts) else None
        v, ex, fired = self.call(lambda: card.delete(arg), bomb)
        self.res.ev(i, "delete", c, type(ex).__name__ if ex else "ok")
        if fired and ex is not None:
            self.res.probes["aborted-op"] += 1
            if node is not None:
                try:
                    self.lookup(card, parts, __import__("random").Random(1))
                except KeyError:
                    ref.rm(parts)
            return
        if node is None:
            self.res.probes["delete-missing"] += 1
            if ex is None:
                self.fail("raise:no-keyerror", f"op {i}: delete {arg!r} did not raise although there is no such section")
            elif not isinstance(ex, KeyError):
                self.fail("raise:no-keyerror", f"op {i}: delete {arg!r} raised {type(ex).__name__} instead of KeyError")
            return
        if ex is not None:
            self.fail("raise:op-failed", f"op {i}: delete {arg!r} raised {type(ex).__name__}: {ex}")
            return
        if node.kids:
            self.res.probes["delete-subtree"] += 1
        self.res.probes["delete-list" if form != "str" else "delete"] += 1
        ref.rm(parts)

    def op_flag(self, i, c, op, bomb):
        _, _, key, flag, val = op
        n = self.refs[c].get(split_ref(key))
        if n is None:
            return
        try:
            sec = self.cards[c].select(key)
        except Exception as ex:
            self.fail("raise:op-failed", f"op {i}: select {key!r} raised {type(ex).__name__}: {ex}")
            return
        setattr(sec, flag, val)
        setattr(n, flag, val)
        self.res.probes[f"{flag}={val}"] += 1
        self.res.ev(i, flag, val)

    def op_content(self, i, c, op, bomb):
        _, _, key, text = op
        n = self.refs[c].get(split_ref(key))
        if n is None:
            return
        sec = self.cards[c].select(key)
        sec.content = text
        n.text = text
        if n.kind == "raw":
            n.kind = "text"
        self.res.ev(i, "content")

    def op_title(self, i, c, op, bomb):
        _, _, key, text = op
        n = self.refs[c].get(split_ref(key))
        if n is None:
            return
        self.cards[c].select(key).title = text
        n.title = text
        self.res.probes["retitled"] += 1
        self.res.ev(i, "title")

    def op_render(self, i, c, op, bomb):
        card = self.cards[c]
        v, ex, fired = self.call(card.render, bomb)
        if ex is not None:
            self.res.ev(i, "render", c, type(ex).__name__)
            if not fired:
                self.fail("raise:op-failed", f"op {i}: render raised {type(ex).__name__}: {ex}")
                return
            v, ex, _ = self.call(card.render, None)
            if ex is not None:
                self.fail("raise:op-failed", f"op {i}: render after an aborted render raised {type(ex).__name__}: {ex}")
                return
        self.res.ev(i, "render", c, digest(norm_ids(v)))
        self.check_render(i, c, v)
        self.res.probes["render"] += 1

    def check_render(self, i, c, text):
        ref = self.refs[c]
        if "render" in self.checks:
            d = match(render_items(ref), text)
            if d:
                self.fail("render:wrong-text", f"op {i}: render of card {c}: {d}")
            toc = self.cards[c].get_toc()
            if toc != expected_toc(ref):
                self.fail("render:toc", f"op {i}: get_toc of card {c} is {toc!r}, the rendered headings are {expected_toc(ref)!r}")
            for _, n in ref.walk():
                if not n.visible:
                    self.res.probes["hidden-section"] += 1
                if n.folded and n.kids:
                    self.res.probes["folded-with-subsections"] += 1
        if "build" in self.checks:
            d = match(render_items(ref), text)
            if d:
                self.fail("build:wrong-content", f"op {i}: render of card {c}: {d}")
            for path, n in ref.walk():
                if n.kind in ("table", "plot"):
                    try:
                        sec = self.lookup(self.cards[c], path, __import__("random").Random(3))
                        txt = sec.format()
                    except Exception as ex:
                        self.fail("build:format", f"op {i}: section {path!r}: {type(ex).__name__}: {ex}")
                        return
                    d = match(section_items(n), txt)
                    if d:
                        self.fail("build:wrong-content", f"op {i}: select({path!r}).format(): {d}")
                        return

    def op_toc(self, i, c, op, bomb):
        v, ex, fired = self.call(self.cards[c].get_toc, bomb)
        if ex is not None and not fired:
            self.fail("raise:op-failed", f"op {i}: get_toc raised {type(ex).__name__}: {ex}")
        elif ex is None and v != expected_toc(self.refs[c]):
            self.fail("render:toc", f"op {i}: get_toc of card {c} is {v!r}, the visible headings are {expected_toc(self.refs[c])!r}")

    def op_repr(self, i, c, op, bomb):
        v, ex, fired = self.call(lambda: repr(self.cards[c]), bomb)
        self.res.ev(i, "repr", type(ex).__name__ if ex else "ok")

    def op_save(self, i, c, op, bomb):
        """{"path","form","copy","old","faults"}"""
        o = op[2]
        card, disk = self.cards[c], self.disk
        want = card.render()
        self.check_render(i, c, want)
        if self.stop:
            return
        from pathlib import Path
        rel = o["path"]
        full = os.path.join(disk.root, "work", rel) if not rel.startswith("/") else os.path.join(disk.root, rel[1:])
        full = os.path.normpath(full)
        if o["old"] is not None:
            poke(full, o["old"].encode() * 50)
        arg = rel if not rel.startswith("/") else full
        arg = Path(arg) if o["form"] == "Path" else arg
        before = disk.snapshot()
        disk.start(o["faults"])
        n0 = len(disk.log)
        f0 = dict(disk.fired)
        crashed = False
        with disk:
            try:
                v, ex, fired = self.call(lambda: card.save(arg, **({"copy_files": True} if o["copy"] else {})), bomb)
            except SimCrash as e:
                ex, fired, crashed = e, True, True
        disk.stop()
        for e in disk.log[n0:]:
            self.res.ev(*e[1:])
        fired_k = {k: v - f0.get(k, 0) for k, v in disk.fired.items() if v > f0.get(k, 0)}
        self.res.faults.update(fired_k)
        self.ops = [(e[0], e[1]) for e in disk.log[n0:]]
        self.res.extra.setdefault("ops", {})[str(i)] = self.ops
        injected = fired or any(not k.startswith("short_") for k in fired_k)
        got = peek(full)
        wantb = want.encode("utf-8")
        rel_dest = disk.rel(full)
        if ex is None:
            self.res.probes["saved"] += 1
            if got != wantb:
                self.fail("save:not-rendered-text", f"op {i}: save({str(o['path'])!r}) wrote {show(got)} instead of the rendered text {show(wantb)} "
                                                    f"(faults {fired_k})")
        elif not injected:
            self.fail("save:failed", f"op {i}: save({str(o['path'])!r}) raised {type(ex).__name__}: {ex}")
        else:
            self.res.probes["save-faulted"] += 1
            if crashed:
                self.res.probes["save-crashed"] += 1
        self.res.ev(i, "save", c, type(ex).__name__ if ex else "ok", digest(norm_ids(str(got))))
        after = disk.snapshot()
        plots = {os.path.basename(str(n.extra.get("path"))) for _, n in self.refs[c].walk() if n.kind == "plot"} if o["copy"] else set()
        bad = [p for p in set(before) | set(after) if p != rel_dest and before.get(p, 0) != after.get(p, 0)
               and os.path.basename(p) not in plots]
        if bad and not injected:
            self.fail("save:bystander", f"op {i}: save changed other files: {sorted(bad)[:3]}")
        if disk.escapes:
            self.fail("save:escape", f"op {i}: save wrote to {disk.escapes[:2]}")
        if ex is not None and not self.stop:
            # the disk is healthy again (or the process restarted): save works
            disk.start([])
            with disk:
                v, ex2, _ = self.call(lambda: card.save(arg), None)
            disk.stop()
            if ex2 is not None:
                self.fail("save:failed", f"op {i}: save after a failed save raised {type(ex2).__name__}: {ex2}")
            elif peek(full) != wantb:
                self.fail("save:not-rendered-text", f"op {i}: save after a failed save wrote {show(peek(full))} instead of {show(wantb)}")
        if not self.stop:
            r2 = card.render()
            if r2 != want:
                self.fail("save:render-changed", f"op {i}: render differs after save: {first_diff(want, r2)}")

    # several items at once = one at a time
    def multi(self, i, c, op, kw, do):
        if len(kw) < 2 or "build" not in self.checks:
            return
        model = self.cards[c].__dict__.get("model")
        a, b = copy.deepcopy(self.cards[c]), copy.deepcopy(self.cards[c])
        try:
            do(a, kw)
            for k, v in kw.items():
                do(b, {k: v})
            ra, rb = a.render(), b.render()
        except Exception as ex:
            self.fail("raise:op-failed", f"op {i} {str(op)[:300]} raised {type(ex).__name__}: {ex}")
            return
        self.res.probes["multi-item"] += 1
        if ra != rb:
            self.fail("build:multi-item", f"op {i} {op[0]}: several items in one call differ from one at a time: {first_diff(ra, rb)}")


def type_of(sec):
    return {"Section": "text", "PlotSection": "plot", "TableSection": "table"}[type(sec).__name__]


def cells_from(table):
    names, cols = [], []
    for k, v in table.items():
        names.append(str(k))
        cols.append([str(x) for x in v])
    return names, cols


def show(b):
    if b is None:
        return "nothing"
    return f"{len(b)} bytes {b[:40]!r}..{b[-40:]!r}" if len(b) > 90 else repr(b)


def first_diff(a, b):
    for x, y in zip(a.split("\n"), b.split("\n")):
        if x != y:
            return f"{x[:120]!r} / {y[:120]!r}"
    return f"lengths {len(a)}/{len(b)}"


def pin_ids():
    """sklearn numbers its HTML diagrams per process; a number of one more digit moves where a card's repr is cut."""
    try:
        import sklearn.utils._estimator_html_repr as m
        for c in (m._CONTAINER_ID_COUNTER, m._ESTIMATOR_ID_COUNTER):
            c.count = max(c.count, 100000)
    except (ImportError, AttributeError):
        pass


def norm_ids(s):
    return re.sub(r"sk-(container|estimator)-id-\d+", "sk-id", s)


# -------------------------------------------------------------- generation
def gen_ops(g, ncards, nops, weights, bombp=0.0, saves=None):
    rng = g.rng
    kinds = list(weights)
    w = [weights[k] for k in kinds]
    ops = []
    for c in range(ncards):
        t = g.template()
        o = {"template": t, "model": g_model(rng), "file": rng.random() < 0.15}
        r = rng.random()
        if t != "skops" and r < 0.15:
            o["diagram"] = g.key(c, 1.0)
        elif t == "skops":
            o["diagram"] = rng.choice(["auto", "auto", False, True])
            for k in (["Model description"], ["Model description", "Training Procedure"], ["Model Card Authors"],
                      ["Model description", "Evaluation Results"], ["Citation"]):
                g.note(c, k)
        if o.get("diagram") == "auto" and "diagram" in o:
            del o["diagram"]
        if isinstance(t, list):
            for k, _ in t:
                g.note(c, split_ref(k))
        ops.append({"op": ["new", c, o]})
    for _ in range(nops):
        c = rng.randrange(ncards)
        k = rng.choices(kinds, w)[0]
        op = OPGEN[k](g, c, saves)
        e = {"op": op}
        if k not in ("flag", "content", "title", "setmodel", "repr"):
            b = g.bomb(bombp)
            if b:
                e["bomb"] = b
        ops.append(e)
    return ops


def _sec(g, c):
    return None if g.rng.random() < 0.3 else g.key(c)


def _select(g, c, s):
    rng = g.rng
    r = rng.random()
    if r < 0.12:
        return ["select", c, [rng.choice(["", " ", "/", "a//b", "A/", "/A", "A/ /B", "\t", "Model description/"])]]
    p = g.path(c, 0.2)
    if len(p) > 1 and rng.random() < 0.5:
        cut = rng.randrange(1, len(p))
        return ["select", c, [encode(rng, p[:cut]), encode(rng, p[cut:])]]
    if rng.random() < 0.07:
        return ["select", c, [encode(rng, p), rng.choice(["", " ", "A//B", "/"])]]
    return ["select", c, [encode(rng, p)]]


def _delete(g, c, s):
    rng = g.rng
    r = rng.random()
    if r < 0.1:
        return ["delete", c, "str", rng.choice(["", " ", "/", "a//b", "A/", "A/ /B", "Model description/"])]
    if r < 0.15:
        return ["delete", c, rng.choice(["list", "tuple"]), rng.choice([[], [""], ["A", ""], ["", "A"]])]
    p = g.path(c, 0.15)
    if rng.random() < 0.4:
        return ["delete", c, rng.choice(["list", "list", "tuple"]), p]
    return ["delete", c, "str", encode(rng, p)]


def _save(g, c, saves):
    rng = g.rng
    return ["save", c, {"path": rng.choice(["card.md", "README.md", "./x.md", "sub/c.md", "/data/abs.md", "../data/up.md", "ünï.md", "no ext"]),
                        "form": rng.choice(["str", "Path"]), "copy": rng.random() < 0.2, "old": rng.choice([None, "old ", "x"]), "faults": []}]


OPGEN = {
    "add": lambda g, c, s: ["add", c, g.rng.random() < 0.25, g.pairs(c, g.text)],
    "plot": lambda g, c, s: ["plot", c, {"desc": g.desc(), "alt": g.rng.choice([None, None, "alt text", "ünï alt", ""]),
                                         "folded": g.rng.choice([None, True, False])},
                             g.pairs(c, lambda: g.rng.choice(["D:p.png", "D:q.png"]))],
    "table": lambda g, c, s: ["table", c, {"desc": g.desc(), "folded": g.rng.choice([None, True, False])},
                              g.pairs(c, lambda: g_table(g.rng))],
    "metrics": lambda g, c, s: ["metrics", c, _sec(g, c), g.desc(), g_metrics(g.rng)],
    "hyper": lambda g, c, s: ["hyper", c, _sec(g, c), g.desc()],
    "mplot": lambda g, c, s: ["mplot", c, _sec(g, c), g.desc()],
    "setmodel": lambda g, c, s: ["setmodel", c, g_model(g.rng), g.rng.random() < 0.5],
    "select": _select,
    "delete": _delete,
    "flag": lambda g, c, s: ["flag", c, encode(g.rng, g.path(c, 0.05)), g.rng.choice(["visible", "folded"]), g.rng.random() < 0.4],
    "content": lambda g, c, s: ["content", c, encode(g.rng, g.path(c, 0.05)), g.text()],
    "title": lambda g, c, s: ["title", c, encode(g.rng, g.path(c, 0.05)), g.title() if g.rng.random() < 0.5 else f"Title {g.rng.randrange(100)}"],
    "render": lambda g, c, s: ["render", c],
    "toc": lambda g, c, s: ["toc", c],
    "repr": lambda g, c, s: ["repr", c],
    "save": _save,
}


def shrink_ops(s, key="ops"):
    ops = s[key]
    n = len(ops)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            c = ops[:i] + ops[i + size:]
            if c:
                yield dict(s, **{key: c})
        size //= 2
    for i, e in enumerate(ops):
        def w(ne):
            return dict(s, **{key: ops[:i] + [ne] + ops[i + 1:]})
        if e.get("bomb"):
            yield w({"op": e["op"]})
        op = e["op"]
        if op[0] == "new":
            o = op[2]
            if o["template"] is not None:
                yield w(dict(e, op=["new", op[1], dict(o, template=None, diagram=False)]))
            if o.get("file"):
                yield w(dict(e, op=["new", op[1], dict(o, file=False)]))
            if isinstance(o["template"], list) and len(o["template"]) > 1:
                for j in range(len(o["template"])):
                    yield w(dict(e, op=["new", op[1], dict(o, template=o["template"][:j] + o["template"][j + 1:])]))
        if op[0] in ("add", "plot", "table", "metrics") and len(op[-1]) > 1:
            for j in range(len(op[-1])):
                yield w(dict(e, op=op[:-1] + [op[-1][:j] + op[-1][j + 1:]]))
        if op[0] == "table":
            for j, (k, t) in enumerate(op[-1]):
                if len(t["cols"]) > 1:
                    for x in range(len(t["cols"])):
                        nt = dict(t, cols=t["cols"][:x] + t["cols"][x + 1:])
                        yield w(dict(e, op=op[:-1] + [op[-1][:j] + [[k, nt]] + op[-1][j + 1:]]))
                if t["cols"] and len(t["cols"][0][1]) > 1:
                    for x in range(len(t["cols"][0][1])):
                        nt = dict(t, cols=[[n_, v[:x] + v[x + 1:]] for n_, v in t["cols"]])
                        yield w(dict(e, op=op[:-1] + [op[-1][:j] + [[k, nt]] + op[-1][j + 1:]]))
        if op[0] == "add":
            for j, (k, t) in enumerate(op[3]):
                if t not in ("", "t"):
                    yield w(dict(e, op=op[:3] + [op[3][:j] + [[k, "t"]] + op[3][j + 1:]]))
        if op[0] == "save":
            o = op[2]
            for k, v in (("faults", []), ("old", None), ("copy", False), ("form", "str"), ("path", "card.md")):
                if o[k] != v:
                    yield w(dict(e, op=["save", op[1], dict(o, **{k: v})]))
        if op[0] in ("metrics", "hyper", "mplot") and op[3] is not None:
            yield w(dict(e, op=op[:3] + [None] + op[4:]))


def prepare(disk):
    os.makedirs(os.path.join(disk.root, "work", "sub"), exist_ok=True)
    os.makedirs(os.path.join(disk.root, "plots"), exist_ok=True)
    for n in ("p.png", "q.png"):
        poke(os.path.join(disk.root, "plots", n), b"\x89PNG" + n.encode())


def warm():
    import skops.card  # noqa
    import skops.io  # noqa
    import scipy.special  # noqa
    import pandas  # noqa
    from sklearn.linear_model import LogisticRegression
    from skops.card import Card
    c = Card(LogisticRegression())
    c.add_metrics(a=1)
    c.render()
    pin_ids()
    V._est_class("Ridge")
    from .fixtures import weird_class
    weird_class()
