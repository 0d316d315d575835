"""C15 - parsing pandoc trees, over conversion histories.

A run is a history on one process: conversions of elements (supported ones,
ones that cannot be converted, ones interrupted by a failing call at a seeded
point) on shared `Markdown` objects, interleaved with whole documents parsed
and rendered.  Every conversion is compared with the same conversion done in a
fresh child process that converts the elements in another order on objects of
their own, and with a reference converter; every parsed document is compared
with the outline and block sequence of its tree.
"""
from __future__ import annotations

import copy
import io
import json
import os
import pickle
import random
import re
import sys

from ..cardsim import esc, is_sep, parse_row
from ..core import HarnessError, Result, digest
from ..simfs import Scratch

PROPERTY = "C15"
CAMPAIGNS = {"quick": 4000, "thorough": 30000}
WALL = {"quick": 300, "thorough": 3300}
CAMPAIGN_TIMEOUT = 300
RECURSION = 3000
RULE = ("campaign = histories of conversions on 1-2 shared Markdown objects (random block/inline trees: nested lists, quotes, divs, tables of both "
        "pandoc layouts with spans/several head and foot rows/empty and multi-block cells, figures, code, raw html), with unsupported elements at "
        "random depth and failing calls at seeded points in between, and of whole documents (random heading levels, slashes and backslashes in "
        "headings, repeated and empty headings) parsed directly or through a simulated pandoc process; non-trivial = a document with at least two "
        "headings or a history with at least two conversions; distinct by history digest")
STATE_MEASURE = "distinct (heading-level sequence, block-kind sequence, fault kinds) tuples"
REAL = ["skops.card._parser.PandocParser, parse_modelcard", "skops.card._markup.Markdown", "Card render/get_toc/select", "prettytable", "json"]
STUBS = ["pandoc (an executable that prints the generated tree)", "failing calls (sys.settrace line interrupts in skops.card, failing PrettyTable)"]
ASSUMPTIONS = [
    "a document starts with a header (content before the first header is refused, as the parser documents)",
    "headers are top-level blocks; headers inside of divs, quotes and lists are no part of the outline",
    "* and _ as emphasis marks, typographic quotes, runs of blanks and non-breaking spaces do not matter; \\\\ stands for \\",
    "of list items with several paragraphs, of code inside of lists, and of lists inside of divs and cells only the order of the texts is checked",
]
PROBES = ["slash-heading", "backslash-heading", "level-jump", "first-deeper", "repeated-heading", "empty-section", "nested-list", "ordered-list", "table-old",
          "table-new", "table-spans", "table-no-header", "table-foot", "figure", "div", "block-quote", "failed-element", "failed-nested", "interrupted",
          "pandoc-process", "after-failure", "emph-heading", "deep-outline", "todo-item", "image-inline", "list-in-quote", "table-in-list"]

SPECIAL = ["a\\b", "x/y", "C:\\dir\\", "☒", "☐", "na\u00efve", "#", "&amp;", "1.", "-", "|", "*", "100%", "{}", "\\", "/", "日本", "=", "<b>", "~", "^2^",
           "a\xa0b", "...", "—", "$x$", "@ref"]
HEADS = ["Input/Output", "a/b", "TCP / IP", "/", "C:\\dir", "x\\/y", "back\\", "Intro", "Usage", "Intro", "Title (2)", "Title", "Title", "select", "a//b",
         "/lead", "trail/", "{x}", "%s", "N.N.", "#1", "日本", "\\", "A b c", "1.", "-", "Usage/Intro", "Table of Contents"]


# ---------------------------------------------------------------- generator
class G:
    def __init__(self, rng):
        self.rng, self.n = rng, 0

    def tok(self):
        self.n += 1
        return f"q{self.n}{self.rng.choice('xyzw')}z"

    def strn(self):
        return {"t": "Str", "c": self.tok()}

    def words(self, k=None):
        out = []
        for i in range(k or self.rng.choice([1, 1, 2, 3, 5])):
            if i:
                out.append({"t": self.rng.choice(["Space", "Space", "Space", "SoftBreak"])})
            out.append(self.strn())
            if self.rng.random() < 0.12:
                out += [{"t": "Space"}, {"t": "Str", "c": self.rng.choice(SPECIAL)}]
        return out

    def attr(self):
        r = self.rng
        return [r.choice(["", "", "id1", "a-b"]), r.choice([[], [], ["python"], ["a", "b"]]), r.choice([[], [], [["k", "v"]], [["hidden", ""], ["w", "5"]]])]

    def inlines(self, depth=2, header=False):
        r = self.rng
        out = []
        for i in range(r.choice([1, 1, 2, 3])):
            if i:
                out.append({"t": r.choice(["Space", "Space", "SoftBreak"])} if header or r.random() < 0.9 else {"t": "LineBreak"})
            x = r.random()
            if depth <= 0 or x < 0.5:
                out += self.words()
            elif x < 0.72:
                out.append({"t": r.choice(["Emph", "Strong", "Strikeout"]), "c": self.inlines(depth - 1, header)})
            elif x < 0.8:
                out.append({"t": "Code", "c": [self.attr(), self.tok() + r.choice(["", " = 1", "\\n", "/x", " | y", "()"])]})
            elif x < 0.84:
                out.append({"t": "RawInline", "c": ["html", f"<b>{self.tok()}</b>"]})
            elif x < 0.9:
                out.append({"t": "Link", "c": [self.attr(), self.inlines(depth - 1, header), [f"https://e.org/{self.tok()}", r.choice(["", "a title"])]]})
            elif x < 0.94:
                out.append(self.image(depth, r.choice(["fig:", "", "", "fig:a title", "a title"])))
            else:
                out.append({"t": "Quoted", "c": [{"t": r.choice(["DoubleQuote", "SingleQuote"])}, self.inlines(depth - 1, header)]})
        return out

    def image(self, depth, title):
        return {"t": "Image", "c": [self.attr(), [] if self.rng.random() < 0.1 and not title.startswith("fig") else self.words(2),
                                    [f"img/{self.tok()}.png", title]]}

    def block(self, depth=2, top=True):
        r = self.rng
        x = r.random()
        if depth <= 0 or x < 0.3:
            return {"t": "Para" if top or r.random() < 0.2 else "Plain", "c": self.inlines()}
        if x < 0.38:
            return {"t": "CodeBlock", "c": [self.attr(), self.code()]}
        if x < 0.44:
            return {"t": "RawBlock", "c": [r.choice(["html", "markdown", "tex"]), r.choice(["<div>{}</div>", "<!-- {} -->", "<p>\n  {}\n</p>", "\\x{{{}}}"]).format(self.tok())]}
        if x < 0.5:
            return {"t": "Div", "c": [self.attr(), [self.block(depth - 1, r.random() < 0.5) for _ in range(r.choice([1, 1, 2, 3]))]]}
        if x < 0.74:
            return self.lst(depth)
        if x < 0.82:
            return {"t": "BlockQuote", "c": [self.block(depth - 1) for _ in range(r.choice([1, 1, 2]))]}
        if x < 0.95:
            return self.table(depth)
        return self.figure()

    def figure(self):
        im = self.image(1, "")
        im["c"][1] = self.words(2)
        return {"t": "Figure", "c": [self.attr(), [None, [{"t": "Plain", "c": copy.deepcopy(im["c"][1])}]], [{"t": "Plain", "c": [im]}]]}

    def code(self):
        r = self.rng
        lines = [r.choice(["{} = 1", "    if {}:", "# {}", "- {}", "{}\\n", "\t{}", "", "| {} |", "> {}", "1. {}"]).format(self.tok()) for _ in range(r.choice([1, 2, 4]))]
        return "\n".join(lines)

    def lst(self, depth):
        r = self.rng
        items = []
        for _ in range(r.choice([1, 2, 2, 3])):
            it = [{"t": "Plain", "c": ([{"t": "Str", "c": r.choice("☒☐")}, {"t": "Space"}] if r.random() < 0.1 else []) + self.inlines(1)}]
            x = r.random()
            if depth > 1 and x < 0.45:
                it.append(self.lst(depth - 1))
                if r.random() < 0.2:
                    it.append(self.lst(depth - 1))
            elif depth > 0 and x < 0.6:
                it.append(self.block(depth - 1, False))
            items.append(it)
        if r.random() < 0.5:
            return {"t": "BulletList", "c": items}
        return {"t": "OrderedList", "c": [[r.choice([1, 1, 1, 0, 3, 9, 98]), {"t": r.choice(["Decimal", "DefaultStyle"])}, {"t": r.choice(["Period", "OneParen"])}], items]}

    def cell(self):
        r = self.rng
        x = r.random()
        if x < 0.15:
            return []
        if x < 0.9:
            return [{"t": "Plain", "c": self.inlines(1, True)}]
        return [{"t": "Para", "c": self.words(1)}, {"t": "Plain", "c": self.words(2)}]

    def table(self, depth):
        r = self.rng
        n, m = r.choice([1, 2, 2, 3, 4]), r.choice([0, 1, 2, 3])
        head = [self.cell() for _ in range(n)]
        if r.random() < 0.15:
            head = [[] for _ in range(n)]
        elif n > 1 and r.random() < 0.1:
            head[1] = head[0] = [{"t": "Plain", "c": [{"t": "Str", "c": "same"}]}]
        capt = self.words(2) if r.random() < 0.2 else []
        al = [{"t": r.choice(["AlignDefault", "AlignLeft", "AlignCenter"])} for _ in range(n)]
        if r.random() < 0.5:
            return {"t": "Table", "c": [capt, al, [0.0] * n, head, [[self.cell() for _ in range(n)] for _ in range(m)]]}
        na = ["", [], []]

        def rows(k, spans):
            out, cov = [], [0] * n
            for i in range(k):
                free = [j for j in range(n) if not cov[j]]
                cov = [max(0, c - 1) for c in cov]
                row, pos = [], 0
                while pos < len(free):
                    cs = rs = 1
                    if spans and r.random() < 0.3:
                        while pos + cs < len(free) and free[pos + cs] == free[pos] + cs and r.random() < 0.5:
                            cs += 1
                        rs = r.randint(1, k - i)
                    row.append([na, {"t": "AlignDefault"}, rs, cs, self.cell()])
                    for j in free[pos:pos + cs]:
                        cov[j] = rs - 1
                    pos += cs
                out.append([na, row])
            return out
        hrow = [[na, [[na, {"t": "AlignDefault"}, 1, 1, c] for c in head]]]
        if r.random() < 0.2:
            hrow = []
        elif r.random() < 0.1:
            hrow += rows(1, False)
        spans = r.random() < 0.3
        bodies = [[na, 0, rows(1, spans) if r.random() < 0.1 else [], rows(m, spans)] for _ in range(r.choice([1, 1, 1, 1, 2]))]
        return {"t": "Table", "c": [na, [None, [{"t": "Plain", "c": capt}] if capt else []], [[a, {"t": "ColWidthDefault"}] for a in al],
                                    [na, hrow], bodies, [na, rows(1, False) if r.random() < 0.15 else []]]}

    def header(self, levels):
        r = self.rng
        x = r.random()
        if x < 0.5:
            c = []
            for i, w in enumerate(r.choice(HEADS).split(" ")):
                c += ([{"t": "Space"}] if i else []) + [{"t": "Str", "c": w}]
        elif x < 0.55:
            c = []
        elif x < 0.85:
            c = self.words()
        else:
            c = self.inlines(1, r.random() < 0.9)
        if r.random() < 0.05:
            c = c + [{"t": r.choice(["SoftBreak", "LineBreak"])}] + self.words(1)
        return {"t": "Header", "c": [levels(), self.attr(), c]}

    def doc(self):
        r = self.rng
        style = r.random()
        cur = [r.choice([1, 1, 2, 3, 6])]

        def levels():
            if style < 0.3:
                return r.randint(1, 6)
            if style < 0.7:
                cur[0] = max(1, min(6, cur[0] + r.choice([-2, -1, -1, 0, 0, 1, 1, 2])))
                return cur[0]
            return r.choice([1, 2, 2, 3])
        out = [self.header(levels)]
        for _ in range(r.choice([0, 2, 5, 9, 15])):
            x = r.random()
            if x < 0.08:        # the same again, or the same with more words
                b = copy.deepcopy(r.choice(out[-3:]))
                if b["t"] == "Para" and r.random() < 0.6:
                    b["c"] = b["c"] + [{"t": "Space"}] + self.words(1) if r.random() < 0.5 else b["c"][:1]
                out.append(b)
                continue
            if x < 0.1:
                out.append({"t": r.choice(["Para", "Plain"]), "c": []} if r.random() < 0.5 else {"t": "RawBlock", "c": ["html", ""]})
                continue
            out.append(self.header(levels) if r.random() < 0.45 else self.block(r.choice([1, 2, 3])))
        return out

    def broken(self, depth=2):
        """an element that cannot be converted, at a random depth"""
        r = self.rng
        bad = r.choice([{"t": "HorizontalRule"}, {"t": "DefinitionList", "c": []}, {"t": "Superscript", "c": self.words(1)}, {"t": "Note", "c": []}, {"t": "Str"},
                        {"t": "Quoted", "c": [{"t": "OddQuote"}, self.words(1)]}, {"t": "Para", "c": [{"t": "Math", "c": [{"t": "InlineMath"}, "x"]}]},
                        {"c": 1}, {"t": "Code", "c": None}, {"t": "Table", "c": [1, 2]}, {"t": "Link", "c": []}])
        blk = bad if bad.get("t") in ("HorizontalRule", "DefinitionList", "Para", "Table") else {"t": "Plain", "c": self.words(1) + [bad]}
        for _ in range(r.randint(0, 3)):
            x = r.random()
            pre = [self.block(1, False) for _ in range(r.choice([0, 1]))]
            if x < 0.35:
                blk = {"t": "BulletList", "c": [[{"t": "Plain", "c": self.words(1)}] + pre + [blk]]}
            elif x < 0.65:
                blk = {"t": "OrderedList", "c": [[1, {"t": "Decimal"}, {"t": "Period"}], [[{"t": "Plain", "c": self.words(1)}], pre + [blk]]]}
            elif x < 0.85:
                blk = {"t": "Div", "c": [self.attr(), pre + [blk]]}
            else:
                blk = {"t": "BlockQuote", "c": pre + [blk]}
        return blk


# ---------------------------------------------------------------- reference
def text_of(inl):
    """plain text of inlines, for headings"""
    out = []
    for x in inl:
        k, c = x["t"], x.get("c")
        if k == "Str":
            out.append(c)
        elif k in ("Space", "SoftBreak", "LineBreak"):
            out.append(" ")
        else:
            return None
    return "".join(out)


def ref_inl(inl):
    out = []
    for x in inl:
        k, c = x["t"], x.get("c")
        if k == "Str":
            out.append(c.replace("\\", "\\\\"))
        elif k in ("Space", "SoftBreak", "LineBreak"):
            out.append(" ")
        elif k in ("Emph", "Strong", "Strikeout"):
            m = {"Emph": "_", "Strong": "**", "Strikeout": "~~"}[k]
            out.append(m + ref_inl(c) + m)
        elif k == "Code":
            out.append(f"`{c[1]}`")
        elif k == "RawInline":
            out.append(c[1])
        elif k == "Link":
            out.append(f"[{ref_inl(c[1])}]({c[2][0]})")
        elif k == "Image":
            out.append(f"![{ref_inl(c[1])}]({c[2][0]})")
        elif k == "Quoted":
            q = '"' if c[0]["t"] == "DoubleQuote" else "'"
            out.append(q + ref_inl(c[1]) + q)
        else:
            raise HarnessError(k)
    return "".join(out)


def flat(s):
    s = s.replace("\xa0", " ").replace("☒", "[x]").replace("☐", "[ ]")
    s = s.replace("“", '"').replace("”", '"').replace("’", "'").replace("‘", "'").replace("*", "_")
    return re.sub(r"\s+", " ", s).strip()


def post(s):
    return flat(s)


def toks(b):
    """unique texts of a block in document order"""
    seen = []

    def walk(x):
        if isinstance(x, str):
            seen.extend(re.findall(r"q\d+[xyzw]z", x))
        elif isinstance(x, list):
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            if x.get("t") == "Figure":
                return walk(x["c"][2])
            if x.get("t") == "Table":
                c = x["c"]
                for i in ((0, 3, 4) if len(c) == 5 else (1, 3, 4, 5)):
                    if i > 1:
                        walk(c[i])
                walk(c[0 if len(c) == 5 else 1])
                return
            walk(x.get("c"))
    walk(b)
    return seen


def check_toks(b, text):
    want = toks(b)
    got = re.findall(r"q\d+[xyzw]z", text)
    if got != want:
        return f"texts {got} instead of {want}"


def spanned(rows, n):
    out, cov = [], {}
    for r, (_, cells) in enumerate(rows):
        row, col = [[] for _ in range(n)], 0
        for _, _, rs, cs, content in cells:
            while (r, col) in cov:
                col += 1
            row[col] = content
            for i in range(rs):
                for j in range(cs):
                    cov[r + i, col + j] = 1
            col += cs
        out.append(row)
    return out


def grid(c):
    """-> header row, body rows, caption inlines"""
    if len(c) == 5:
        return c[3] or [[] for _ in c[1]], c[4], c[0]
    n = len(c[2])
    rows = []
    head = spanned(c[3][1], n)
    h = head[0] if head else [[] for _ in range(n)]
    rows += head[1:]
    for b in c[4]:
        rows += spanned(b[2], n) + spanned(b[3], n)
    rows += spanned(c[5][1], n)
    return h, rows, (c[1][1][0]["c"] if c[1][1] else [])


def cell_text(blocks):
    return flat(" ".join(ref_inl(b["c"]) for b in blocks)).replace("\\", "").replace("|", "")


def got_cell(s):
    return flat(s.replace("<br />", " ")).replace("\\", "").replace("|", "")


def check_table(c, text):
    h, rows, capt = grid(c)
    lines = [x for x in text.split("\n") if x.strip()]
    cap = [x for x in lines if not x.lstrip().startswith("|")]
    lines = [x for x in lines if x.lstrip().startswith("|")]
    want = [h] + rows
    if len(lines) != len(want) + 1 or not is_sep(lines[1], len(h)):
        return f"{len(lines)} lines {lines[:3]} for a table of {len(want)} rows"
    for w, ln in zip(want, lines[:1] + lines[2:]):
        g = re.split(r"(?<!\\)\|", ln.strip())[1:-1]
        if [got_cell(x) for x in g] != [cell_text(x) for x in w]:
            return f"row {ln!r} instead of {[cell_text(x) for x in w]}"
    if capt and flat(ref_inl(capt)) not in flat(" ".join(cap)):
        return f"caption {ref_inl(capt)!r} missing"


def simple_list(b):
    """a list of plain items and such lists only"""
    if b["t"] == "OrderedList" and b["c"][0][0] + len(b["c"][1]) > 10:
        return False
    if b["t"] not in ("BulletList", "OrderedList"):
        return False
    for it in (b["c"] if b["t"] == "BulletList" else b["c"][1]):
        for i, x in enumerate(it):
            if i == 0 and x["t"] == "Plain":
                continue
            if i and simple_list(x):
                continue
            return False
    return True


def list_lines(b, offs=()):
    items = b["c"] if b["t"] == "BulletList" else b["c"][1]
    for i, it in enumerate(items):
        mark = "-" if b["t"] == "BulletList" else f"{b['c'][0][0] + i}."
        yield len(offs), mark, flat(ref_inl(it[0]["c"]))
        for sub in it[1:]:
            yield from list_lines(sub, offs + (1,))


def check_list(b, text):
    """items with their marker, nesting and text; continuation lines stay
    inside of their item"""
    want = list(list_lines(b))
    got = []
    stack = []        # content offsets of the open items
    for ln in text.split("\n"):
        if not ln.strip():
            continue
        ind = len(ln) - len(ln.lstrip(" "))
        m = re.match(r"(-|\*|\+|\d+[.)])( +)(?=\S)", ln.lstrip(" "))
        # is this line the start of an item?  (texts never look like one
        # unless the next wanted item does)
        nxt = want[len(got)] if len(got) < len(want) else None
        if m and nxt and (m.group(1) == nxt[1] or m.group(1) in "*+" and nxt[1] == "-") and flat(ln.lstrip(" ")[m.end():]) and \
                nxt[2].startswith(flat(ln.lstrip(" ")[m.end():])[:3]):
            while stack and ind < stack[-1]:
                stack.pop()
            if ind > (stack[-1] if stack else 0) + 3:
                return f"item {ln!r} is indented too far"
            got.append([len(stack), nxt[1], ln.lstrip(" ")[m.end():]])
            stack.append(ind + m.end())
        elif got:
            got[-1][2] += " " + ln
        else:
            return f"line {ln!r} before the first item"
    if len(got) != len(want):
        return f"{len(got)} items instead of {len(want)}"
    for g, w in zip(got, want):
        if g[0] != w[0]:
            return f"item {w[2]!r} is at nesting {g[0]} instead of {w[0]}"
        if flat(g[2]) != w[2]:
            return f"item is {flat(g[2])!r} instead of {w[2]!r}"


def check_block(b, text):
    """None or what is wrong with the markdown of a top-level block"""
    k, c = b["t"], b.get("c")
    d = check_toks(b, text)
    if d:
        return d
    if k in ("Para", "Plain"):
        if flat(text) != flat(ref_inl(c)):
            return f"is {flat(text)!r} instead of {flat(ref_inl(c))!r}"
    elif k == "CodeBlock":
        lines = post_code(text).strip("\n").split("\n")
        if not (lines[0].startswith("```") and lines[-1].strip() == "```" and "\n".join(lines[1:-1]) == post_code(c[1])):
            return f"code block is {text!r}"
        if c[0][1] and c[0][1][0] not in lines[0]:
            return f"code block of language {c[0][1]} starts with {lines[0]!r}"
    elif k == "RawBlock":
        if post_code(text).strip("\n") != post_code(c[1]).strip("\n"):
            return f"raw block is {text!r}"
    elif k in ("BulletList", "OrderedList"):
        if simple_list(b):
            return check_list(b, text)
    elif k == "BlockQuote":
        lines = text.split("\n")
        if not all(x.startswith(">") for x in lines if x.strip()):
            return f"quote has unquoted lines: {text!r}"
        if all(x["t"] in ("Para", "Plain") for x in c):
            t = flat("\n".join(x[1:] for x in lines if x.strip()))
            if t != flat(" ".join(ref_inl(x["c"]) for x in c)):
                return f"quote is {t!r}"
        if len(c) == 1 and simple_list(c[0]):
            return check_list(c[0], "\n".join(x[1:].removeprefix(" ") for x in lines if x.strip()))
    elif k == "Table":
        return check_table(c, text)
    elif k == "Div":
        m = re.match(r"\s*<div([^>]*)>(.*)</div>\s*$", text, re.S)
        if not m:
            return f"div is {text!r}"
        (ident, classes, kvs), _ = c
        for want in ([f'id="{ident}"'] if ident else []) + ([f'class="{" ".join(classes)}"'] if classes else []) + [f'{kk}="{v}"' if v else kk for kk, v in kvs]:
            if want not in m.group(1):
                return f"div lacks {want}: {text[:80]!r}"
    elif k == "Figure":
        im = c[2][0]["c"][0]["c"]
        if flat(f"![{ref_inl(im[1])}]({im[2][0]})") not in flat(text):
            return f"figure is {text!r}"
    return None


def post_code(s):
    return s.replace("\xa0", " ").replace("☒", "[x]").replace("☐", "[ ]")


# ------------------------------------------------------------------ process
def golden(items, order):
    """conversion of each item on an object of its own in a child process that
    has converted nothing else before"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            from skops.card._markup import Markdown
            out = {}
            for i in order:
                try:
                    out[i] = ("ok", Markdown()(copy.deepcopy(items[i])))
                except Exception as e:
                    out[i] = ("raise", type(e).__name__)
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise HarnessError("the reference process failed")
    return pickle.loads(data)


class Interrupt(Exception):
    pass


class Lines:
    """raises at the n-th line executed in skops.card"""

    def __init__(self, at):
        self.at, self.n, self.fired = at, 0, False

    def __enter__(self):
        if self.at is not None:
            sys.settrace(self.glob)
        return self

    def glob(self, frame, ev, arg):
        f = frame.f_code
        if "skops" + os.sep + "card" not in f.co_filename or f.co_name in ("_indented", "__exit__", "_str", "_space"):
            return None
        return self.loc

    def loc(self, frame, ev, arg):
        if ev == "line" and not self.fired:
            self.n += 1
            # (an exception is an exception of a call made on that line: lines
            # that only enter or leave a `with` have none)
            if self.n > self.at and self.raisable(frame):
                self.fired = True
                raise Interrupt()
        return self.loc

    @staticmethod
    def raisable(frame):
        import linecache
        src = linecache.getline(frame.f_code.co_filename, frame.f_lineno).strip()
        return not src.startswith(("with ", "try", "finally", "for ", "self._indent"))

    def __exit__(self, *a):
        sys.settrace(None)


def parent_init():
    import skops.card  # noqa
    import skops.card._parser  # noqa
    import prettytable  # noqa
    import pandas  # noqa


def campaign(rng, run, tier, index):
    for _ in range(2):
        g = G(rng)
        steps = []
        for _ in range(rng.choice([1, 2, 3, 5, 8])):
            x = rng.random()
            if x < 0.3:
                steps.append(["doc", g.doc(), rng.random() < 0.06])
            elif x < 0.75:
                steps.append(["conv", rng.randrange(2), g.block(rng.choice([1, 2, 3, 4])) if rng.random() < 0.85 else rng.choice(g.inlines(2))])
            elif x < 0.87:
                steps.append(["fail", rng.randrange(2), g.broken()])
            elif x < 0.95:
                steps.append(["intr", rng.randrange(2), g.block(rng.choice([2, 3, 4])), rng.choice([3, 10, 30, 80, 200])])
            elif steps:
                st = rng.choice(steps)      # the same again
                steps.append(copy.deepcopy(st) if st[0] != "doc" else ["conv", 0, copy.deepcopy(rng.choice(st[1]))])
        run({"steps": steps, "seed": rng.getrandbits(20)})


def execute(scen):
    import skops.card._parser as P
    from skops.card._markup import Markdown
    res = Result()
    rng = random.Random(scen["seed"])
    items, where = [], {}
    for i, st in enumerate(scen["steps"]):
        for j, b in enumerate(st[1] if st[0] == "doc" else [st[2]]):
            where[i, j] = len(items)
            items.append(b)
    order = list(range(len(items)))
    rng.shuffle(order)
    gold = golden(items, order)
    md = [Markdown(), Markdown()]
    failed = False
    nconv = 0
    for i, st in enumerate(scen["steps"]):
        if res.violations:
            break
        if st[0] == "doc":
            doc(res, P, st[1], st[2], [gold[where[i, j]] for j in range(len(st[1]))], i)
        elif st[0] == "intr":
            with Lines(st[3]) as ln:
                try:
                    md[st[1]](copy.deepcopy(st[2]))
                except Interrupt:
                    pass
            if ln.fired:
                res.faults["interrupted-line"] += 1
                res.probes["interrupted"] += 1
                failed = True
        else:
            want = gold[where[i, 0]]
            arg = copy.deepcopy(st[2])
            for _ in range(2 if rng.random() < 0.3 else 1):
                try:
                    got = ("ok", md[st[1]](arg))
                except Exception as e:
                    got = ("raise", type(e).__name__)
                nconv += 1
                if got != want:
                    res.fail("history", f"step {i}: conversion of {brief(st[2])} is {got!r}, in a fresh process {want!r}")
                    break
            if res.violations:
                break
            if failed:
                res.probes["after-failure"] += 1
            if st[0] == "fail":
                if want[0] == "raise":
                    res.faults["element-" + want[1]] += 1
                    res.probes["failed-element"] += 1
                    failed = True
                    if st[2]["t"] in ("BulletList", "OrderedList", "Div", "BlockQuote") if "t" in st[2] else False:
                        res.probes["failed-nested"] += 1
            elif want[0] != "ok":
                res.fail("refused", f"step {i}: conversion of {brief(st[2])} raised {want[1]}")
                break
            elif st[2]["t"] in BLOCKS:
                kinds(res, st[2])
                d = check_block(st[2], want[1])
                if d:
                    res.fail("content", f"step {i}: {brief(st[2])}: {d}")
                    break
            elif st[2]["t"] == "Header":
                if not same_title(want[1], st[2]):
                    res.fail("content", f"step {i}: {brief(st[2])} is {want[1]!r}")
            elif flat(want[1]) != flat(ref_inl([st[2]])):
                res.fail("content", f"step {i}: {brief(st[2])} is {want[1]!r}")
                break
        res.ev(i, st[0])
    heads = [[b["c"][0] for b in st[1] if b["t"] == "Header"] for st in scen["steps"] if st[0] == "doc"]
    res.nontrivial = nconv > 1 or any(len(h) > 1 for h in heads)
    res.states.add(digest([heads, [[b["t"] for b in st[1]] if st[0] == "doc" else st[2].get("t") for st in scen["steps"]], sorted(res.faults)]))
    res.ev(digest(scen["steps"]))
    return res


BLOCKS = {"Para", "Plain", "CodeBlock", "RawBlock", "Div", "BulletList", "OrderedList", "BlockQuote", "Table", "Figure"}


def brief(b):
    s = json.dumps(b, ensure_ascii=False)
    return s if len(s) < 300 else s[:300] + "..."


def kinds(res, b, inside=None):
    k = b["t"]
    p = {"Figure": "figure", "Div": "div", "BlockQuote": "block-quote", "OrderedList": "ordered-list"}.get(k)
    if p:
        res.probes[p] += 1
    j = json.dumps(b, ensure_ascii=False)
    if '"Image"' in j and k != "Figure":
        res.probes["image-inline"] += 1
    if k == "Table":
        c = b["c"]
        res.probes["table-old" if len(c) == 5 else "table-new"] += 1
        if len(c) == 6:
            if any(cell[2] > 1 or cell[3] > 1 for body in c[4] for rows in body[2:] for row in rows for cell in row[1]):
                res.probes["table-spans"] += 1
            if c[5][1]:
                res.probes["table-foot"] += 1
            if not c[3][1]:
                res.probes["table-no-header"] += 1
    if k in ("BulletList", "OrderedList"):
        if "☒" in j or "☐" in j:
            res.probes["todo-item"] += 1
        if j.count("List") > 1:
            res.probes["nested-list"] += 1
        if '"Table"' in j:
            res.probes["table-in-list"] += 1
    if k == "BlockQuote" and "List" in j:
        res.probes["list-in-quote"] += 1


class Node:
    def __init__(self, item):
        self.item, self.kids, self.blocks = item, [], []


def outline(blocks, gold):
    roots, trace = [], []
    for b, g in zip(blocks, gold):
        if b["t"] == "Header":
            lvl = b["c"][0]
            n = Node(b)
            while trace and trace[-1][0] >= lvl:
                trace.pop()
            (trace[-1][1].kids if trace else roots).append(n)
            trace.append((lvl, n))
        else:
            trace[-1][1].blocks.append((b, g))
    return roots


def same_title(title, header):
    inl = header["c"][2]
    plain = text_of(inl)
    t = flat(title)
    if plain is not None:
        return t in (flat(plain), flat(plain.replace("\\", "\\\\")))
    return t in (flat(ref_inl(inl)), flat(ref_inl(inl).replace("\\\\", "\\")))


def doc(res, P, blocks, proc, gold, i):
    src = json.dumps({"pandoc-api-version": [1, 22], "meta": {}, "blocks": blocks}, ensure_ascii=False)
    bad = [(b, g) for b, g in zip(blocks, gold) if g[0] != "ok"]
    if bad:
        res.fail("refused", f"step {i}: conversion of {brief(bad[0][0])} raised {bad[0][1][1]}")
        return
    try:
        if proc:
            card = through_pandoc(res, P, src)
        else:
            parser = P.PandocParser(src)
            card = parser.generate()
            if len(src) % 4 == 0:
                first = card.render()
                card = parser.generate()
                if card.render() != first:
                    res.fail("history", f"step {i}: generating the card a second time gives another card")
                    return
    except Exception as e:
        res.fail("parse-failed", f"step {i}: {type(e).__name__}: {e}")
        return
    roots = outline(blocks, gold)
    probes(res, blocks, roots)
    d = compare(roots, card._data, "")
    if d:
        res.fail("outline" if "section" in d or "title" in d else "content", f"step {i}: {d}")
        return
    for b, g in zip(blocks, gold):
        if b["t"] != "Header":
            kinds(res, b)
            d = check_block(b, g[1])
            if d:
                res.fail("content", f"step {i}: {brief(b)}: {d}")
                return
    # rendering
    text = card.render()
    d = rendered(roots, text)
    if d:
        res.fail("rendering", f"step {i}: {d}")
        return
    toc = [ln for ln in card.get_toc().split("\n")] if roots else []
    want = []

    def walk(ns, depth):
        for n in ns:
            want.append((depth, n))
            walk(n.kids, depth + 1)
    walk(roots, 0)
    ok = len(toc) == len(want)
    if ok:
        for ln, (dep, n) in zip(toc, want):
            m = re.match(r"( *)[-*] ?(.*)$", ln)
            ok = ok and m is not None and (len(m.group(1)) > 0) == (dep > 0) and same_title(m.group(2), n.item)
    if not ok:
        res.fail("rendering", f"step {i}: table of contents is {toc}")
        return
    # every section can be reached by its path, unless siblings share a name
    def reach(ns, path, secs):
        for n, sec in zip(ns, secs):
            name = sec.title.strip()
            names = [s.title.strip() for s in secs]
            if name and names.count(name) == 1 and not name.endswith("\\") and not any(x.endswith(" (2)") for x in names):
                p = path + [name]
                try:
                    got = card.select("/".join(esc(x) for x in p))
                except Exception as e:
                    return f"select of section {p} raised {type(e).__name__}: {e}"
                if got is not sec:
                    return f"select of section {p} is another section"
                r = reach(n.kids, p, list(sec.subsections.values()))
                if r:
                    return r
    d = reach(roots, [], list(card._data.values()))
    if d:
        res.fail("outline", f"step {i}: {d}")


def compare(nodes, data, path):
    secs = list(data.values())
    if len(secs) != len(nodes):
        return f"{len(secs)} sections {[s.title for s in secs]} under {path!r} instead of {len(nodes)}"
    for n, s in zip(nodes, secs):
        if not same_title(s.title, n.item):
            return f"section title {s.title!r} under {path!r} for header {brief(n.item)}"
        c = s.content
        if not isinstance(c, str):
            return f"content of {s.title!r} is a {type(c).__name__}"
        if s.folded or not s.visible:
            return f"section {s.title!r} is folded or hidden"
        d = blocks_in(n.blocks, c)
        if d:
            return f"content of {s.title!r}: {d}"
        d = compare(n.kids, s.subsections, path + "/" + s.title)
        if d:
            return d


def blocks_in(blocks, text):
    pos = 0
    t = post(text)
    first = True
    for b, g in blocks:
        w = post(g[1])
        while pos < len(t) and t[pos] == " ":
            pos += 1
        if not t.startswith(w, pos):
            return f"block {w[:120]!r} missing at {t[pos:pos + 120]!r}"
        pos += len(w)
        first = False
    if t[pos:].strip():
        return f"{t[pos:pos + 120]!r} after the last block"
    # blocks must stay apart
    want = [g[1] for b, g in blocks if g[1].strip()]
    if len(want) > 1 and len([x for x in re.split(r"\n[ \t]*\n", text.strip("\n")) if x.strip()]) < len(want):
        return f"blocks run into each other: {text[:200]!r}"


def rendered(roots, text):
    lines = text.split("\n")
    if lines and lines[0] == "---":
        try:
            lines = lines[lines.index("---", 1) + 1:]
        except ValueError:
            return "metadata is not closed"
    t = "\n".join(lines)
    pos = 0

    def ws():
        nonlocal pos
        while pos < len(t) and t[pos] in " \n":
            pos += 1

    def go(ns, depth):
        nonlocal pos
        for n in ns:
            ws()
            e = t.find("\n", pos)
            e = len(t) if e < 0 else e
            ln = t[pos:e]
            if not ln.startswith("#" * depth) or ln[depth:depth + 1] not in ("", " ") or not same_title(ln[depth:], n.item):
                return f"line {ln!r} where heading {brief(n.item)} of depth {depth} is expected"
            pos = e
            for b, g in n.blocks:
                # whitespace-insensitive match of the block
                w = post(g[1])
                d = eat(w)
                if d:
                    return d
            d = go(n.kids, depth + 1)
            if d:
                return d

    def eat(w):
        nonlocal pos
        # flat() is a homomorphism up to blanks: consume the shortest prefix
        # of the rest whose flat form is w
        if not w:
            return
        ws()
        sq = re.sub(r"\s+", "", w)
        k, p = 0, pos
        while k < len(sq) and p < len(t):
            f = re.sub(r"\s+", "", flat(t[p]))
            if not sq.startswith(f, k):
                return f"{t[pos:pos + 120]!r} where {w[:120]!r} is expected"
            k += len(f)
            p += 1
        if k < len(sq):
            return f"text ends within {w[:120]!r}"
        pos = p
    d = go(roots, 1)
    if d:
        return d
    if t[pos:].strip():
        return f"unexpected {t[pos:pos + 100]!r}"


def probes(res, blocks, roots):
    p = res.probes
    lv = [b["c"][0] for b in blocks if b["t"] == "Header"]
    if lv and lv[0] > 1:
        p["first-deeper"] += 1
    if any(b - a > 1 for a, b in zip(lv, lv[1:])):
        p["level-jump"] += 1
    for b in blocks:
        if b["t"] == "Header":
            t = text_of(b["c"][2])
            if t is None:
                p["emph-heading"] += 1
                continue
            if "/" in t:
                p["slash-heading"] += 1
            if "\\" in t:
                p["backslash-heading"] += 1

    def walk(ns, d):
        ts = [text_of(n.item["c"][2]) for n in ns]
        if len(set(ts)) < len(ts):
            p["repeated-heading"] += 1
        for n in ns:
            if not n.blocks:
                p["empty-section"] += 1
            if d >= 3:
                p["deep-outline"] += 1
            walk(n.kids, d + 1)
    walk(roots, 1)


def through_pandoc(res, P, src):
    res.probes["pandoc-process"] += 1
    with Scratch() as sc:
        with open(os.path.join(sc.top, "tree.json"), "w", encoding="utf-8") as f:
            f.write(src)
        with open(os.path.join(sc.top, "doc.md"), "w") as f:
            f.write("x")
        exe = os.path.join(sc.top, "pandoc")
        with open(exe, "w") as f:
            f.write(f"#!/bin/sh\nif [ \"$1\" = --version ]; then echo 'pandoc 2.9.2.1'; else cat '{sc.top}/tree.json'; fi\n")
        os.chmod(exe, 0o755)
        old = os.environ["PATH"]
        os.environ["PATH"] = sc.top + os.pathsep + old
        try:
            return P.parse_modelcard(os.path.join(sc.top, "doc.md"))
        finally:
            os.environ["PATH"] = old


# ------------------------------------------------------------------- shrink
def shrink(s):
    st = s["steps"]
    for i in range(len(st)):
        if len(st) > 1:
            yield dict(s, steps=st[:i] + st[i + 1:])
    for i, x in enumerate(st):
        if x[0] == "doc":
            if x[2]:
                yield dict(s, steps=st[:i] + [[x[0], x[1], False]] + st[i + 1:])
            for j in range(len(x[1])):
                if j or len(x[1]) > 1 and x[1][1]["t"] == "Header":
                    yield dict(s, steps=st[:i] + [[x[0], x[1][:j] + x[1][j + 1:], x[2]]] + st[i + 1:])
            for j, b in enumerate(x[1]):
                for c in shrink_item(b):
                    yield dict(s, steps=st[:i] + [[x[0], x[1][:j] + [c] + x[1][j + 1:], x[2]]] + st[i + 1:])
        else:
            for c in shrink_item(x[2]):
                yield dict(s, steps=st[:i] + [[x[0], x[1], c] + x[3:]] + st[i + 1:])


def shrink_item(b):
    k, c = b.get("t"), b.get("c")

    def lst(xs, mk, keep=1):
        for i in range(len(xs)):
            if len(xs) > keep:
                yield mk(xs[:i] + xs[i + 1:])
        for i, x in enumerate(xs):
            if isinstance(x, dict):
                for y in shrink_item(x):
                    yield mk(xs[:i] + [y] + xs[i + 1:])
    if k in ("Para", "Plain", "Emph", "Strong", "Strikeout", "BlockQuote"):
        yield from lst(c, lambda x: {"t": k, "c": x})
    elif k in ("Div", "Quoted"):
        yield from lst(c[1], lambda x: {"t": k, "c": [c[0], x]})
    elif k == "Link":
        yield from lst(c[1], lambda x: {"t": k, "c": [c[0], x, c[2]]})
    elif k == "Header":
        yield from lst(c[2], lambda x: {"t": k, "c": [c[0], c[1], x]}, 0)
    elif k in ("BulletList", "OrderedList"):
        items = c if k == "BulletList" else c[1]

        def mk(x):
            return {"t": k, "c": x if k == "BulletList" else [c[0], x]}
        for i in range(len(items)):
            if len(items) > 1:
                yield mk(items[:i] + items[i + 1:])
        for i, it in enumerate(items):
            for y in lst(it, lambda x: x):
                if y[0].get("t") == "Plain":
                    yield mk(items[:i] + [y] + items[i + 1:])
        if len(items) == 1 and len(items[0]) > 1:
            for x in items[0][1:]:
                yield x


def matches_known(k, scen, v):
    return False
