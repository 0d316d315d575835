"""Regenerates known_findings.json (run by hand, never by a check)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def c05(spec):
    return {"slots": [spec], "ops": [["cycle", 0, 1, [0, None]]], "bufsize": None, "short": None, "alloc": "bump", "faults": []}


findings = []


def add(id, prop, cls, what, history, **kw):
    findings.append({"id": id, "property": prop, "cls": cls, "what": what, "history": history, **kw})


add("C05-int-digits", "C05", "dump-failed",
    "dumps(int of more than 4300 decimal digits) raises TypeError: json (and CPython's int/str limit) refuses to write it",
    [c05(["int", "bigint:5000"])], match=["int", "bigint:5000"])
add("C05-overlapping-fields", "C05", "dump-failed",
    "structured arrays whose fields overlap or are not in offset order are refused (np.save cannot describe such dtypes)",
    [c05(["array", {"overlap": 1}, [2], "C", 1])], match={"overlap": 1})
add("C05-string-dtype", "C05", "dump-failed",
    "arrays of numpy's StringDType are refused (np.save needs pickle for them)",
    [c05(["stringdtype", ["a", "b"]])], match=["stringdtype", ["a", "b"]])
add("C05-nonetype", "C05", "load-failed",
    "the type of None dumps, but loading it raises AttributeError: builtins has no attribute NoneType",
    [c05(["type", "NoneType"])], match=["type", "NoneType"])
add("C05-surrogate-pair", "C05", "not-equal",
    "a str holding a high surrogate directly followed by a low one (two code points) loads as the one character they encode: JSON cannot tell them apart",
    [c05(["chars", [0xD83D, 0xDE00]])], match=["chars", [0xD83D, 0xDE00]])
add("C06-shared-bit-generator", "C06", "sharing",
    "two numpy Generators over one bit generator load with one bit generator each (an archive stores the state, not the identity, of bit generators)",
    [{"value": ["gens_shared", 5], "env": {"mode": "bump", "reuse": 1.0, "seed": 1, "gc": None, "twice": False, "cycles": 1, "pinned": False}}],
    match=["gens_shared", 5])

def c19(base, ops, calls, **kw):
    return [{"base": base, "proto": None, "ops": ops, "calls": calls, "seed": 1, **kw}]


add("C19-visualize-shared", "C19", "exponential-visualize",
    "visualize shows a node that is referenced several times (same __id__) once per path: 24 levels of [x, <id of x>] (a 5 kB archive) take 2**24 lines",
    c19(["value", ["list", [["int", "1"]]]], [["chainroot", 24, "list"]], [{"k": "viz", "trusted": False, "file": False, "show": "all", "sink": "collect", "colors": True}]))
add("C19-hash-shared", "C19", "hang",
    "an archive with 60 levels of (x, <id of x>) as item of a set: loading hashes the tuples once per path, in C",
    c19(["value", ["set", [["int", "1"]]]], [["chain", 0, 60, "tuple"]], [{"k": "loads", "trusted": True}]), timeout=12, base=["value", ["set", [["int", "1"]]]], op=["chain", 0, 60, "tuple"])
add("C19-repr-shared", "C19", "hang",
    "an archive with 100 levels of [x, <id of x>] as _sklearn_version of an estimator: sklearn's version warning prints it once per path, in C",
    c19(["named", "stack"], [["chain", 3438459, 100, "list"]], [{"k": "loads", "trusted": True}]), timeout=12, base=["named", "stack"], op=["chain", 3438459, 100, "list"])

FIXED = [
    ("C16", "dc5c398", "`skops update -o sub/out.skops` (relative destination in a sub-directory) failed with FileNotFoundError; an absolute destination left <dest>.tmp behind when writing failed; with TMPDIR on another filesystem a crash while copying left a partial destination"),
    ("C05", "577b76b", "defaultdicts with non-str keys did not load"),
    ("C05", "09824e2", "numpy.bytes_ scalars came back as bytes"),
    ("C05", "5454ed3", "numpy.bytes_ scalars were not trusted like the other numpy scalars"),
    ("C05", "e3d0d68", "dict keys were lost or changed: {1: .., '1': ..} collided, longdouble/complex/NaN/bool/None keys changed or failed to load (also hit C17)"),
    ("C05", "effab8c", "RandomState over a bit generator other than MT19937 did not load"),
    ("C19", "effab8c", "an archive could name any attribute of np.random as bit generator: loading one naming 'seed' reseeded the global random state"),
    ("C05", "ddc2d3c", "a Generator over a bit generator without seed sequence could not be dumped"),
    ("C05", "a104fca", "subarray dtypes lost their shape"),
    ("C05", "d383d04", "masked arrays lost their fill value and hard mask"),
    ("C05", "5726d1b", "slices of numpy scalars could not be dumped, slices of tuples came back as slices of lists"),
    ("C05", "948fe50", "record arrays did not load; numpy.ma.masked came back as another object"),
    ("C05", "FIXME1", "a set or dict with several NaNs lost all but one"),
    ("C05", "FIXME2", "masked arrays of generic datetimes with a fill value could not be dumped (defect of d383d04)"),
    ("C06", "64295dc", "a masked array referenced several times was stored several times"),
    ("C06", "0ed705e", "while loading, ids of temporary objects of the loading process were mixed with ids of the archive, so an estimator's reduce constructor could be replaced by another object"),
    ("C09", "197bb9e", "section names containing the unit separator character were mangled"),
    ("C10", "1a20325", "the table of contents listed subsections of folded sections, which are not rendered as headings"),
    ("C14", "2e4b68d", "add_table used the whole path instead of its last part as heading"),
    ("C14", "6b1db21", "the alt text of every plot was the first plot's title"),
    ("C14", "1bfa786", "tables with line breaks or pipes in names, non-str or repeated column names were rendered wrongly or failed"),
    ("C15", "6ef02d4", "an element that could not be converted left its indentation behind for the following conversions"),
    ("C15", "c491fb2", "a heading with a line break in it was rendered over two lines, so its end became text"),
    ("C15", "b93cb01", "documents with images inside of text, or with images without alt text, could not be parsed"),
    ("C15", "34e7bee", "tables lost their caption, all but the first block of a cell (old layout), further head rows, bodies, foot rows and columns next to spanning cells; tables without header row could not be parsed"),
    ("C15", "1211cd9", "headings containing '/', level jumps and repeated sibling headings did not get a section of their own"),
    ("C15", "ead45eb", "parsed tables that repeat a column name lost columns"),
    ("C19", "d832cec", "KDTree, BallTree and DistanceMetric states of another size, or as a list, crashed the interpreter"),
    ("C19", "5d036ed", "a tree whose nodes array is 0-dimensional crashed the interpreter"),
    ("C19", "6e7941d", "a masked array with a huge mask of zero-size items (200 bytes of archive) hung numpy for minutes"),
    ("C19", "67b06e8", "the module named by a LossNode was imported before the audit, also by get_untrusted_types and visualize, with whatever side effects that has"),
    ("C19", "f6d98a2", "object arrays of shared lists with a shape of 2 or more dimensions took exponential time (and came back with another shape)"),
    ("C05", "0b18894", "the Fortran-ordered mask of a structured masked array loaded as C-ordered"),
    ("C19", "b18481c", "auditing an archive whose nodes are shared (or nested) took exponential time"),
    ("C20", "ffaf232", "add_permutation_importances saved pyplot's current figure: with another thread creating a figure in between, the card got the other thread's plot"),
    ("C20", "8697f91", "two threads using one Card with a model file: the cached model was deleted twice (AttributeError)"),
]
import subprocess
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
by = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in log}
SUB = {"FIXME1": by.get("fix: tell apart several NaNs of a set or dict after loading"),
       "FIXME2": by.get("fix: persist masked arrays of any dtype with a fill value")}
fixed = [f"fixed: property={p} {SUB.get(c, c)} {w}" for p, c, w in FIXED]
json.dump({"findings": findings, "fixed": fixed}, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
print(len(findings), "findings", len(fixed), "fixed")
