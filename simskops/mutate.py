"""Seeded corruption of archives: a list of JSON ops turns valid archive bytes
into corrupted ones.  Three layers, applied in this order: ops on the schema,
ops on the members, ops on the bytes of the finished file.
"""
from __future__ import annotations

import copy
import io
import json
import random
import struct
import zipfile

import numpy as np

LOADERS = ["DictNode", "DefaultDictNode", "ListNode", "SetNode", "TupleNode", "BytesNode", "BytearrayNode", "SliceNode", "FunctionNode", "MethodNode",
           "PartialNode", "TypeNode", "ConstructorFromReduceNode", "ObjectNode", "JsonNode", "OperatorFuncNode", "NdArrayNode", "MaskedArrayNode",
           "DTypeNode", "RandomStateNode", "RandomGeneratorNode", "SparseMatrixNode", "LossNode", "TreeNode", "QuantileForestNode", "CachedNode",
           "_DictWithDeprecatedKeysNode", "NoSuchNode"]
# names an archive may carry without any of them being trusted explicitly
TYPES = [("builtins", "int"), ("builtins", "float"), ("builtins", "str"), ("builtins", "bool"), ("builtins", "list"), ("builtins", "set"),
         ("builtins", "map"), ("builtins", "tuple"), ("builtins", "dict"), ("builtins", "bytes"), ("builtins", "bytearray"), ("builtins", "slice"),
         ("collections", "OrderedDict"), ("collections", "defaultdict"), ("numpy", "ndarray"), ("numpy", "float64"), ("numpy", "void"),
         ("numpy", "object_"), ("numpy", "str_"), ("numpy", "bytes_"), ("numpy", "datetime64"), ("numpy", "timedelta64"), ("numpy", "complex64"),
         ("numpy", "longdouble"), ("numpy", "int8"), ("numpy.ma", "MaskedArray"), ("numpy.ma.core", "MaskedConstant"), ("numpy", "dtype"),
         ("numpy.random.mtrand", "RandomState"), ("numpy.random._generator", "Generator"), ("numpy", "add"), ("numpy", "sqrt"),
         ("scipy.special._ufuncs", "expit"), ("sklearn.tree._tree", "Tree"), ("sklearn.linear_model._sgd_fast", "Hinge"),
         ("_loss", "CyHalfBinomialLoss"), ("sklearn._loss._loss", "CyHuberLoss"), ("sklearn._loss._loss", "CyHalfTweedieLoss"),
         ("sklearn.linear_model._base", "LinearRegression"), ("sklearn.svm._classes", "SVC"), ("sklearn.tree._classes", "DecisionTreeClassifier"),
         ("sklearn.neighbors._classification", "KNeighborsClassifier"), ("sklearn.pipeline", "Pipeline"),
         ("sklearn.neural_network._multilayer_perceptron", "MLPClassifier"), ("sklearn.preprocessing._data", "StandardScaler"),
         ("functools", "partial"), ("builtins", "eval"), ("os", "system"), ("builtins", "object"), ("builtins", "type"),
         ("simskops_evil", "Evil"), ("simskops_evil", "list"), ("simskops_evil.sub", "x"), ("no.such.module", "X"), ("builtins", "nope"),
         ("", ""), (".", "x"), ("..numpy", "ndarray"), ("numpy", "ndarray.base"), ("numpy\x00", "x"), ("sklearn.linear_model._base\n", "x")]
VALUES = [None, True, False, 0, -1, 1, 2, 1.5, 10**30, 2**63, -2**63 - 1, float("nan"), float("inf"), "", "x", "0", "builtins", "é\x00", "x" * 5000,
          [], {}, [None], [[]], {"a": 1}, {"__class__": "list"}, {"__id__": 1}, {"__class__": "str", "__module__": "builtins", "__loader__": "JsonNode",
                                                                                "content": "\"x\"", "is_json": True},
          {"__class__": "list", "__module__": "builtins", "__loader__": "ListNode", "content": []},
          {"__class__": "str", "__module__": "builtins", "__loader__": "JsonNode", "content": "[0, 1, -5, 1000000]", "is_json": True},
          {"__class__": "dict", "__module__": "builtins", "__loader__": "DictNode", "content": {},
           "key_types": {"__class__": "list", "__module__": "builtins", "__loader__": "ListNode", "content": []}}]
JSONS = ["null", "true", "-1", "0", "1", "1e99999", "-1e400", "NaN", "-Infinity", "[]", "{}", "[0,1]", "\"seed\"", "\"bytes\"", "\"shuffle\"", "\"MT19937\"",
         "\"PCG64\"", "\"Generator\"", "\"RandomState\"", "\"BitGenerator\"", "\"set_state\"", "\"\\ud800\"", "\"\\u0000\"", "", "[", "{\"a\":", "nope",
         "1" * 5000, "[" * 100000, "[" * 500 + "]" * 500, "4294967296", "9223372036854775807", "18446744073709551616", "2147483648", "1000000", "-2147483649",
         "0.5", "\"x\"", "{\"a\": 1, \"a\": 2}", "\ufeff1", " 1 ", "1 2", None, 5, True, [], {}, ["[1]"], {"a": "1"}, 2.5]
FILES = ["schema.json", "nope", "", "../../../etc/passwd", "/etc/hostname", ".", "x\x00y", None, 5, [], "schema.json/", "\ud800", "C:\\x"]
KEYS = ["__id__", "__class__", "__module__", "__loader__", "content", "key_types", "keys", "file", "type", "shape", "attrs", "__reduce__", "args", "is_json",
        "func", "obj", "kwds", "namespace", "start", "stop", "step", "data", "mask", "fill_value", "hard_mask", "main", "default_factory", "bit_generator",
        "seed_seq", "subarray", "protocol", "_skops_version"]
METHODS = ["__class__", "__init__", "__setstate__", "__reduce__", "__del__", "fit", "nope", "", "a.b", 5, None]


# ----------------------------------------------------------------- schema ops
class Wrap:
    def __init__(self, pre, suf, n, inner):
        self.pre, self.suf, self.n, self.inner = pre, suf, n, inner


def to_json(schema) -> str:
    wraps = []

    def strip(x):
        if isinstance(x, Wrap):
            wraps.append(x)
            return f"@@W{len(wraps) - 1}@@"
        if isinstance(x, dict):
            return {k: strip(v) for k, v in x.items()}
        return [strip(v) for v in x] if isinstance(x, list) else x
    s = json.dumps(strip(schema))
    i = 0
    while i < len(wraps):       # (an inner wrap is found while writing the outer one)
        w = wraps[i]
        s = s.replace(f'"@@W{i}@@"', w.pre * w.n + json.dumps(strip(w.inner)) + w.suf * w.n, 1)
        i += 1
    return s


def slots(x, out=None):
    """every (container, key) of the tree, in order"""
    out = [] if out is None else out
    todo = [x]
    while todo:
        x = todo.pop()
        if isinstance(x, Wrap):
            x = x.inner
        if isinstance(x, dict):
            items = list(x.items())
        elif isinstance(x, list):
            items = list(enumerate(x))
        else:
            continue
        out.extend((x, k) for k, _ in items)
        todo.extend(v for _, v in reversed(items) if isinstance(v, (dict, list, Wrap)))
    return out


def pick(schema, where, sel):
    """a slot of the wanted kind"""
    ss = slots(schema)
    if where == "any":
        c = ss
    elif where == "node":
        c = [(p, k) for p, k in ss if isinstance(p[k], dict) and "__loader__" in p[k]]
    elif where == "json":
        c = [(p, k) for p, k in ss if k == "content" and p.get("__loader__") == "JsonNode"] if ss else []
    elif where == "list":
        c = [(p, k) for p, k in ss if isinstance(p[k], list)]
    elif where.startswith("in:"):       # a node of this loader
        c = [(p, k) for p, k in ss if isinstance(p[k], dict) and p[k].get("__loader__") == where[3:]]
    elif where.startswith("below:"):    # anything below a node of this loader
        tops = [p[k] for p, k in ss if isinstance(p[k], dict) and p[k].get("__loader__") == where[6:]]
        if isinstance(schema, dict) and schema.get("__loader__") == where[6:]:
            tops.append(schema)
        c = [s for t in tops for s in slots(t)]
    else:
        c = [(p, k) for p, k in ss if k == where]
    return c[sel % len(c)] if c else None


def parents(schema, target):
    """ids of the nodes above a node"""
    path = []

    def find(x, acc):
        if x is target:
            path.extend(acc)
            return True
        if isinstance(x, dict):
            a = acc + [x] if "__id__" in x else acc
            return any(find(v, a) for v in x.values())
        return any(find(v, acc) for v in x) if isinstance(x, list) else False
    find(schema, [])
    return path


def node(loader, content, cls="list", mod="builtins", **kw):
    return {"__class__": cls, "__module__": mod, "__loader__": loader, "content": content, **kw}


WRAPS = {
    "list": ('{"__class__": "list", "__module__": "builtins", "__loader__": "ListNode", "content": [', "]}"),
    "tuple": ('{"__class__": "tuple", "__module__": "builtins", "__loader__": "TupleNode", "content": [', "]}"),
    "raw": ("[", "]"),
    "dict": ('{"__class__": "dict", "__module__": "builtins", "__loader__": "DictNode", "key_types": {"__class__": "list", "__module__": "builtins", '
             '"__loader__": "ListNode", "content": [{"__class__": "str", "__module__": "builtins", "__loader__": "TypeNode"}]}, "content": {"k": ', "}}"),
    "object": ('{"__class__": "LinearRegression", "__module__": "sklearn.linear_model._base", "__loader__": "ObjectNode", "content": ', "}"),
    "dtype": ('{"__class__": "dtype", "__module__": "numpy", "__loader__": "DTypeNode", "content": ', "}"),
}


def schema_op(schema, op, members):
    """-> the new schema (mutated in place where possible)"""
    k = op[0]
    if k == "root":
        return op[1]
    if not isinstance(schema, dict):
        return schema
    if k == "set":
        s = pick(schema, op[1], op[2])
        if s:
            s[0][s[1]] = copy.deepcopy(op[3])
    elif k == "drop":
        s = pick(schema, op[1], op[2])
        if s:
            del s[0][s[1]]
    elif k == "rename":
        s = pick(schema, op[1], op[2])
        if s and isinstance(s[0], dict):
            s[0][op[3]] = s[0].pop(s[1])
    elif k == "add":
        s = pick(schema, op[1], op[2])
        if s:
            p = s[0][s[1]]
            if isinstance(p, dict):
                p[op[3]] = copy.deepcopy(op[4])
            elif isinstance(p, list):
                p.append(copy.deepcopy(op[4]))
    elif k in ("swap", "copy"):
        a, b = pick(schema, op[1], op[2]), pick(schema, op[1], op[3])
        if a and b:
            x, y = copy.deepcopy(a[0][a[1]]), copy.deepcopy(b[0][b[1]])
            b[0][b[1]] = x
            if k == "swap":
                a[0][a[1]] = y
    elif k in ("stub", "stubkeep", "id"):
        a, b = pick(schema, "node", op[1]), pick(schema, "node", op[2])
        if a and b:
            other = copy.deepcopy(b[0][b[1]].get("__id__"))
            n = a[0][a[1]]
            if k == "stub":
                a[0][a[1]] = {"__id__": other}
            elif k == "stubkeep":
                a[0][a[1]] = {kk: copy.deepcopy(n.get(kk)) for kk in ("__class__", "__module__", "__loader__")} | {"__id__": other}
            else:
                n["__id__"] = other
    elif k == "cycle":          # a node becomes one of those above it
        a = pick(schema, op[1], op[2])
        if a and isinstance(a[0][a[1]], dict):
            up = [n for n in [schema] + parents(schema, a[0][a[1]]) if "__id__" in n]
            if up:
                a[0][a[1]] = {"__id__": copy.deepcopy(up[op[3] % len(up)]["__id__"])}
    elif k == "cached":
        a, b = pick(schema, "node", op[1]), pick(schema, "node", op[2])
        if a and b:
            n = a[0][a[1]]
            a[0][a[1]] = {"__class__": n.get("__class__"), "__module__": n.get("__module__"), "__loader__": "CachedNode",
                          "__id__": copy.deepcopy(b[0][b[1]].get("__id__"))}
    elif k == "wrap":
        a = pick(schema, "node", op[1])
        if a:
            pre, suf = WRAPS[op[3]]
            a[0][a[1]] = Wrap(pre, suf, op[2], a[0][a[1]])
    elif k == "wraproot":
        pre, suf = WRAPS[op[2]]
        inner = {kk: v for kk, v in schema.items() if kk not in ("protocol", "_skops_version")}
        schema = node("ListNode", [Wrap(pre, suf, op[1], inner)], protocol=schema.get("protocol"))
    elif k == "chainroot":
        n = {kk: v for kk, v in schema.items() if kk not in ("protocol", "_skops_version")}
        n.setdefault("__id__", 77)
        for i in range(op[1]):
            cls, ld = ("tuple", "TupleNode") if op[2] == "tuple" else ("list", "ListNode")
            n = node(ld, [n, {"__id__": copy.deepcopy(n["__id__"])}], cls=cls, __id__=990000 + i)
        schema = dict(n, protocol=schema.get("protocol"))
    elif k == "chain":          # n levels of containers that hold the level below twice
        a = pick(schema, "node", op[1])
        if a:
            n = copy.deepcopy(a[0][a[1]])
            n.setdefault("__id__", 77)
            for i in range(op[2]):
                cls, ld = ("tuple", "TupleNode") if op[3] == "tuple" else ("list", "ListNode")
                n = node(ld, [n, {"__id__": copy.deepcopy(n["__id__"])}], cls=cls, __id__=990000 + i)
            a[0][a[1]] = n
    elif k == "type":
        a = pick(schema, op[1], op[2])
        if a and isinstance(a[0][a[1]], dict):
            a[0][a[1]].update(zip(("__module__", "__class__"), op[3]))
    elif k == "typo":           # a name that is no longer the name of anything
        a = pick(schema, op[1], op[2])
        if a and isinstance(a[0][a[1]], str):
            a[0][a[1]] = typo(a[0][a[1]], op[3], op[4])
    elif k == "xtype":          # the class of another node
        a, b = pick(schema, "node", op[1]), pick(schema, "node", op[2])
        if a and b:
            for kk in ("__module__", "__class__"):
                a[0][a[1]][kk] = copy.deepcopy(b[0][b[1]].get(kk))
    elif k == "file":
        a = pick(schema, "file", op[1])
        if a:
            names = sorted(members)
            a[0]["file"] = names[op[2] % len(names)] if isinstance(op[2], int) and names else op[3]
    elif k == "json":
        a = pick(schema, op[2] if len(op) > 3 else "json", op[1])
        if a:
            v = op[-1]
            a[0][a[1]] = v
    elif k == "jsonbump":       # a number inside of a JsonNode
        c = [(p, kk) for p, kk in slots(schema) if kk == "content" and isinstance(p, dict) and p.get("__loader__") == "JsonNode"
             and isinstance(p[kk], str) and p[kk].lstrip("-").isdigit()]
        if c:
            p, kk = c[op[1] % len(c)]
            p[kk] = str(int(p[kk]) + op[2]) if abs(op[2]) < 10**6 else str(op[2])
    elif k == "listdup":
        a = pick(schema, "list", op[1])
        if a:
            l = a[0][a[1]]
            if op[2] == "dup" and l:
                l.append(copy.deepcopy(l[op[3] % len(l)]))
            elif op[2] == "drop" and l:
                l.pop(op[3] % len(l))
            elif op[2] == "clear":
                l.clear()
            elif op[2] == "rev":
                l.reverse()
            elif op[2] == "many" and l:
                l.extend(copy.deepcopy([l[0]] * min(300, 20000 // max(1, len(json.dumps(l[0], default=str))))))
    elif k == "proto":
        schema["protocol"] = op[1]
    return schema


def typo(t, how, at):
    i = at % (len(t) + 1)
    return {"cut": t[:i], "drop": t[:i] + t[i + 1:], "twice": t[:i] + t[i:i + 1] + t[i:], "x": t[:i] + "x" + t[i:], "dot": t[:i] + "." + t[i:], "case": t.swapcase(),
            "bit": t[:i] + chr(ord(t[i]) ^ 1) + t[i + 1:] if i < len(t) else t + "_", "priv": "_" + t, "sub": t + ".sub", "up": t.rpartition(".")[0]}[how]


TYPOS = ["cut", "drop", "twice", "x", "dot", "case", "bit", "priv", "sub", "up"]


def g_schema(rng):
    b = rng.getrandbits
    w = rng.choice(["any", "any", "node", "node", "content", "__id__", "__class__", "__module__", "__loader__", "file", "type", "json", "list", "shape",
                    "key_types", "args", "__reduce__", "attrs"] + ["in:" + l for l in LOADERS[:24]] + ["below:" + rng.choice(LOADERS[:24]) for _ in range(4)]
                   + ["below:TreeNode", "below:LossNode"])
    k = rng.choice(["set"] * 5 + ["drop"] * 2 + ["rename", "add", "swap", "copy", "copy", "stub", "stub", "stubkeep", "id", "id", "cycle", "cycle", "cached", "wrap",
                    "wraproot", "chain", "type", "type", "type", "loader", "loader", "xtype", "xtype", "typo", "typo", "file", "file", "json", "json", "jsonbump", "jsonbump",
                    "listdup", "listdup", "proto", "root", "method"])
    if k == "set":
        return ["set", w, b(24), rng.choice(VALUES)]
    if k == "drop":
        return ["drop", w, b(24)]
    if k == "rename":
        return ["rename", w, b(24), rng.choice(KEYS)]
    if k == "add":
        return ["add", w, b(24), rng.choice(KEYS), rng.choice(VALUES)]
    if k in ("swap", "copy"):
        return [k, rng.choice(["node", "node", "any", "content", "__id__", "__class__", "file", "__loader__", w]), b(24), b(24)]
    if k in ("stub", "stubkeep", "id", "cached", "xtype"):
        return [k, b(24), b(24)]
    if k == "cycle":
        return ["cycle", rng.choice(["node", w]), b(24), b(8)]
    if k == "wrap":
        return ["wrap", b(24), rng.choice([1, 2, 10, 50, 120, 300, 1000, 5000]), rng.choice(sorted(WRAPS))]
    if k == "wraproot":
        return ["wraproot", rng.choice([1, 3, 60, 150, 240, 900, 20000]), rng.choice(sorted(WRAPS))]
    if k == "chain":
        return ["chain", b(24), rng.choice([2, 4, 7, 9]), rng.choice(["list", "tuple"])]
    if k == "type":
        return ["type", rng.choice(["node", w]), b(24), list(rng.choice(TYPES))]
    if k == "typo":
        return ["typo", rng.choice(["__module__"] * 4 + ["__class__"] * 4 + ["__loader__", "json", "file", "any"]), b(24), rng.choice(TYPOS), b(8)]
    if k == "loader":
        return ["set", "__loader__", b(24), rng.choice(LOADERS)]
    if k == "file":
        return ["file", b(24), rng.choice([b(16), None]), rng.choice(FILES)]
    if k == "json":
        return ["json", b(24), rng.choice(JSONS)]
    if k == "jsonbump":
        return ["jsonbump", b(24), rng.choice([1, -1, 2, 1000, -1000, 2**31 - 1, 2**31, 2**32, 2**62, 2**63, 10**20, -2**31, 10**6, 10**9])]
    if k == "listdup":
        return ["listdup", b(24), rng.choice(["dup", "drop", "clear", "rev", "many"]), b(16)]
    if k == "proto":
        return ["proto", rng.choice([0, 1, 2, 3, -1, None, "2", 1.5, 10**20, True, [], {}])]
    if k == "method":
        return ["set", "func", b(24), rng.choice(METHODS)]
    return ["root", rng.choice(VALUES)]


# ----------------------------------------------------------------- member ops
PICKLES = {}


def pickled():
    """what an attacker (or a mixed up file) would put where an array belongs"""
    import pickle
    if not PICKLES:
        PICKLES["plain"] = pickle.dumps([1, 2])
        PICKLES["chdir"] = b"cos\nchdir\n(V..\ntR."
        PICKLES["open"] = b"cbuiltins\nopen\n(Vpickled\nVw\ntR."
        PICKLES["evil"] = b"csimskops_evil\nEvil\n."
    return PICKLES


def npy_object(which):
    h = b"{'descr': '|O', 'fortran_order': False, 'shape': (1,), }"
    h += b" " * (63 - (len(h) + 10) % 64) + b"\n"
    return b"\x93NUMPY\x01\x00" + struct.pack("<H", len(h)) + h + pickled()[which]


def npy(arr):
    b = io.BytesIO()
    np.save(b, arr, allow_pickle=False)
    return b.getvalue()


HEADERS = ["{'descr': '<f8', 'fortran_order': False, 'shape': (1000000000000,), }", "{'descr': '<f8', 'fortran_order': False, 'shape': (-1,), }",
           "{'descr': '<f8', 'fortran_order': False, 'shape': (2.5,), }", "{'descr': '<f8', 'fortran_order': False, 'shape': 3, }",
           "{'descr': '|O', 'fortran_order': False, 'shape': (3,), }", "{'descr': '|V0', 'fortran_order': False, 'shape': (1000000000,), }",
           "{'descr': '<U1000000000', 'fortran_order': False, 'shape': (1,), }", "{'descr': 'zz', 'fortran_order': True, 'shape': (), }",
           "{'descr': [('a', '<f8'), ('a', '<f8')], 'fortran_order': False, 'shape': (1,), }", "{'descr': '<f8', 'shape': (1,), }", "{", "", "[1,2]",
           "{'descr': '<f8', 'fortran_order': 1, 'shape': (0,)}", "{'descr': ('<f8', (10**9,)), 'fortran_order': False, 'shape': (1,), }",
           "{'descr': '<f8', 'fortran_order': False, 'shape': (" + "1," * 70 + ")}", "{'descr': '<M8[ns]', 'fortran_order': False, 'shape': (0, 1000000000000000), }",
           "{'descr': 'S0', 'fortran_order': False, 'shape': (4611686018427387904, 4), }", "(" * 500, "__import__('os').chdir('..')",
           "{'descr': [('" + "a', [('" * 60 + "b', '<f8')])" * 0 + "x', '<f8')], 'fortran_order': False, 'shape': (1,)}", "\xff\xfe"]


def set_header(data, text, version=1):
    h = text.encode("latin1")
    h += b" " * ((64 - (len(h) + 11) % 64) % 64) + b"\n"
    old = struct.unpack("<H", data[8:10])[0] if len(data) > 10 else 0
    return b"\x93NUMPY" + bytes([version, 0]) + struct.pack("<H" if version == 1 else "<I", len(h)) + h + data[10 + old:]


EXTREME = [0, 1, -1, 2, -2, 10**6, 2**31 - 1, -2**31, 2**62, -2**63, 2**63 - 1]


def poke(arr, rng_sel, val):
    """set one element (or one field of one) of an array to an extreme value"""
    if arr.size == 0:
        return arr
    a = np.ascontiguousarray(arr).copy().reshape(-1)
    v = a
    if v.dtype.names:
        v = v[v.dtype.names[rng_sel % len(v.dtype.names)]].reshape(-1)
    if v.dtype.kind in "iu":
        info = np.iinfo(v.dtype)
        v[rng_sel // 7 % len(v)] = max(info.min, min(info.max, val))
    elif v.dtype.kind in "fc":
        v[rng_sel // 7 % len(v)] = [np.nan, np.inf, -np.inf, 1e308, -1.0, 0.0][val % 6]
    elif v.dtype.kind == "b":
        v[rng_sel // 7 % len(v)] ^= True
    else:
        raw = v.view(np.uint8) if v.flags.c_contiguous and v.dtype.itemsize else None
        if raw is not None:
            raw[rng_sel // 7 % len(raw)] = val & 255
    return a.reshape(arr.shape)


def array_op(data, op):
    """op on one .npy"""
    k = op[0]
    if k == "header":
        return set_header(data, op[1], op[2])
    if k == "object":
        return npy_object(op[1])
    if k == "pickle":
        return pickled()[op[1]]
    try:
        a = np.load(io.BytesIO(data), allow_pickle=False)
    except Exception:
        return data
    if a.size > 10**6:
        return data
    if k == "poke":
        return npy(poke(a, op[1], op[2]))
    if k == "dtype":
        try:
            return npy(a.astype(op[1]) if op[2] else np.zeros(a.shape, op[1]))
        except Exception:
            return data
    if k == "shape":
        how = op[1]
        if how == "flat":
            a = a.reshape(-1)
        elif how == "empty":
            a = a.reshape(-1)[:0]
        elif how == "half":
            a = a.reshape(-1)[: a.size // 2]
        elif how == "0d":
            a = a.reshape(-1)[:1].reshape(()) if a.size else a
        elif how == "more":
            a = np.concatenate([a.reshape(-1)] * 3) if a.dtype.names is None else np.resize(a, a.size * 3)
        elif how == "F":
            a = np.asfortranarray(a.reshape(2, -1) if a.size and a.size % 2 == 0 else a.reshape(1, -1))
        elif how == "T":
            a = a.T
        elif how == "swap":
            a = a.astype(a.dtype.newbyteorder())
        return npy(a)
    return data


def bytes_op(data, op):
    """op on raw bytes; positions are fractions"""
    k, n = op[0], len(data)
    at = lambda f: min(n, int(f * (n + 1)))  # noqa: E731
    if k == "flip" and n:
        i = min(n - 1, int(op[1] * n))
        return data[:i] + bytes([data[i] ^ (1 << op[2] % 8)]) + data[i + 1:]
    if k == "byte" and n:
        i = min(n - 1, int(op[1] * n))
        return data[:i] + bytes([op[2]]) + data[i + 1:]
    if k == "trunc":
        return data[: at(op[1])]
    if k == "cut":
        return data[: at(op[1])] + data[at(op[1]) + op[2]:]
    if k == "dup":
        return data[: at(op[1]) + op[2]] + data[at(op[1]):]
    if k == "zero":
        i = at(op[1])
        return data[:i] + b"\0" * min(op[2], n - i) + data[i + op[2]:]
    if k == "lost":             # a sector that was never written
        i = at(op[1]) // 512 * 512
        return data[:i] + b"\0" * min(512, n - i) + data[i + 512:]
    if k == "misdirected":      # a sector written over another one
        i, j = at(op[1]) // 512 * 512, at(op[2]) // 512 * 512
        blk = data[i: i + 512]
        return data[:j] + blk + data[j + len(blk):]
    if k == "ins":
        return data[: at(op[1])] + bytes.fromhex(op[2]) + data[at(op[1]):]
    if k == "prepend":
        return bytes.fromhex(op[1]) + data
    if k == "append":
        return data + bytes.fromhex(op[1])
    if k == "self":
        return data + data
    if k == "empty":
        return b""
    if k == "garbage":
        return random.Random(op[1]).randbytes(op[2])
    if k in ("eocd", "cd", "lh"):       # a field of a zip record
        sig = {"eocd": b"PK\5\6", "cd": b"PK\1\2", "lh": b"PK\3\4"}[k]
        hits, i = [], data.find(sig)
        while i >= 0:
            hits.append(i)
            i = data.find(sig, i + 1)
        if hits:
            i = hits[op[1] % len(hits)] + op[2] % {"eocd": 22, "cd": 56, "lh": 40}[k]
            if i < n:
                v = bytes.fromhex(op[3])
                return data[:i] + v + data[i + len(v):]
    return data


def g_bytes(rng, region=True):
    k = rng.choice(["flip", "flip", "byte", "trunc", "cut", "dup", "zero", "lost", "misdirected", "ins", "prepend", "append", "self", "empty", "garbage"]
                   + (["eocd", "cd", "cd", "lh", "lh"] if region else []))
    f = rng.choice([rng.random(), rng.random(), 1 - rng.random() * 0.05])
    if k == "flip":
        return [k, f, rng.randrange(8)]
    if k == "byte":
        return [k, f, rng.choice([0, 255, rng.randrange(256)])]
    if k == "trunc":
        return [k, rng.choice([f, 1 - rng.random() * 0.01])]
    if k in ("cut", "dup", "zero"):
        return [k, f, rng.choice([1, 4, 22, 46, 512, 4096])]
    if k == "misdirected":
        return [k, f, rng.random()]
    if k == "lost":
        return [k, f]
    if k == "ins":
        return [k, f, rng.randbytes(rng.choice([1, 8, 100])).hex()]
    if k in ("prepend", "append"):
        return [k, rng.choice([rng.randbytes(rng.choice([1, 22, 512])).hex(), (b"PK\5\6" + b"\0" * 18).hex()])]
    if k == "garbage":
        return [k, rng.getrandbits(16), rng.choice([1, 22, 1000])]
    if k in ("eocd", "cd", "lh"):
        return [k, rng.getrandbits(16), rng.choice([4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 28, 30, 32, 34, 36, 38, 42, rng.randrange(56)]),
                rng.choice(["00", "ff", "ffff", "ffffffff", "01", "0000", "63", "0c00", "0800", "0100", "ffffff7f", rng.randbytes(2).hex()])]
    return [k]


def member_op(members, op):
    k = op[0]
    names = sorted(n for n, _ in members)
    by = lambda s: names[s % len(names)] if names else None  # noqa: E731
    n = by(op[1]) if len(op) > 1 and isinstance(op[1], int) else None
    idx = next((i for i, (m, _) in enumerate(members) if m == n), None)
    if k == "m-add":
        members.append((op[2], bytes.fromhex(op[3])))
        return
    if idx is None:
        return
    data = members[idx][1]
    if k == "m-drop":
        members.pop(idx)
    elif k == "m-dup":
        members.append((n, bytes_op(data, op[2])))
    elif k == "m-swap":
        j = next(i for i, (m, _) in enumerate(members) if m == by(op[2]))
        members[idx], members[j] = (n, members[j][1]), (members[j][0], data)
    elif k == "m-copy":
        j = next(i for i, (m, _) in enumerate(members) if m == by(op[2]))
        members[j] = (members[j][0], data)
    elif k == "m-rename":
        members[idx] = (op[2], data)
    elif k == "m-bytes":
        members[idx] = (n, bytes_op(data, op[2]))
    elif k == "m-array":
        if n.endswith(".npz"):
            members[idx] = (n, npz_op(data, ["inner", op[3], op[2]]))
        elif data[:6] == b"\x93NUMPY" or op[2][0] in ("object", "pickle"):
            members[idx] = (n, array_op(data, op[2]))
    elif k == "m-npz":
        if n.endswith(".npz"):
            members[idx] = (n, npz_op(data, op[2]))


def npz_op(data, op):
    try:
        with zipfile.ZipFile(io.BytesIO(data)) as z:
            inner = [(i.filename, z.read(i)) for i in z.infolist()]
    except Exception:
        return data
    if op[0] == "inner":
        i = op[1] % len(inner)
        inner[i] = (inner[i][0], array_op(inner[i][1], op[2]))
    elif op[0] == "drop":
        inner.pop(op[1] % len(inner))
    elif op[0] == "swap":
        i, j = op[1] % len(inner), op[2] % len(inner)
        inner[i], inner[j] = (inner[i][0], inner[j][1]), (inner[j][0], inner[i][1])
    elif op[0] == "format":
        inner = [(n, npy(np.array(op[1])) if n == "format.npy" else d) for n, d in inner]
    elif op[0] == "shape":
        inner = [(n, npy(np.array(op[1])) if n == "shape.npy" else d) for n, d in inner]
    elif op[0] == "bytes":
        return bytes_op(data, op[1])
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        for n, d in inner:
            z.writestr(zipfile.ZipInfo(n), d)
    return b.getvalue()


def g_array(rng):
    k = rng.choice(["poke", "poke", "poke", "poke", "header", "object", "pickle", "dtype", "dtype", "shape", "shape"])
    if k == "poke":
        return [k, rng.getrandbits(24), rng.choice(EXTREME)]
    if k == "header":
        return [k, rng.choice(HEADERS), rng.choice([1, 1, 1, 2, 3, 9])]
    if k in ("object", "pickle"):
        return [k, rng.choice(["plain", "chdir", "open", "evil"])]
    if k == "dtype":
        return [k, rng.choice(["<f4", ">f8", "<i8", "<i4", "<u1", "?", "<c16", "<U4", "S3", "V8", "<M8[s]", "<f2", "g", ">i8", [["a", "<i4"]]])
                if rng.random() < 0.95 else "<U0", rng.random() < 0.6]
    return [k, rng.choice(["flat", "empty", "half", "0d", "more", "F", "T", "swap"])]


def g_member(rng):
    b = rng.getrandbits
    k = rng.choice(["m-drop", "m-dup", "m-swap", "m-copy", "m-rename", "m-add", "m-bytes", "m-bytes", "m-array", "m-array", "m-array", "m-array", "m-npz", "m-npz"])
    if k == "m-drop":
        return [k, b(16)]
    if k == "m-dup" or k == "m-bytes":
        return [k, b(16), g_bytes(rng, k == "m-bytes")]
    if k in ("m-swap", "m-copy"):
        return [k, b(16), b(16)]
    if k == "m-rename":
        return [k, b(16), rng.choice(["schema.json", "../x", "x/", "a" * 300, "é", "1.npy"])]
    if k == "m-add":
        return [k, 0, rng.choice(["schema.json", "extra.bin", "../up", "/abs", "sub/", "140000000000016.npy"]), rng.randbytes(5).hex()]
    if k == "m-array":
        return [k, b(16), g_array(rng), b(8)]
    r = rng.random()
    return [k, b(16), ["inner", b(8), g_array(rng)] if r < 0.4 else ["drop", b(8)] if r < 0.5 else ["swap", b(8), b(8)] if r < 0.65
            else ["format", rng.choice(["csr", "csc", "coo", "bsr", "dia", "dok", "lil", "zzz", b"csr".decode(), "__class__", ""])] if r < 0.8
            else ["shape", rng.choice([[0, 0], [-1, 4], [2**40, 2**40], [1], [4, 4, 4], [2, 2], [1000000, 4], [4, 1000000]])] if r < 0.92 else ["bytes", g_bytes(rng)]]


# -------------------------------------------------------------------- the text
def text_op(text, op):
    """op on the text of the schema -> bytes"""
    k = op[0]
    if k == "t-bytes":
        return bytes_op(text, op[1])
    if k == "t-bom":
        return b"\xef\xbb\xbf" + text
    if k == "t-utf16":
        return text.decode("utf-8", "replace").encode("utf-16")
    if k == "t-latin":
        return b"\xe9" + text
    if k == "t-deep":
        return op[2].encode() * op[1]
    if k == "t-quote":
        return text.replace(b'"', b"'")
    if k == "t-dupkey":
        return text.replace(b'"__id__"', b'"__class__"', 1 + op[1] % 3)
    if k == "t-num":            # the op[1]-th digit run
        import re
        ms = list(re.finditer(rb"(?<=[ :\[])-?\d+(?=[,\]}])", text))
        if ms:
            m = ms[op[1] % len(ms)]
            return text[: m.start()] + op[2].encode() + text[m.end():]
    return text


def g_text(rng):
    k = rng.choice(["t-bytes", "t-bytes", "t-bom", "t-utf16", "t-latin", "t-deep", "t-quote", "t-dupkey", "t-num", "t-num", "t-num"])
    if k == "t-bytes":
        return [k, g_bytes(rng, False)]
    if k == "t-deep":
        return [k, rng.choice([900, 100000]), rng.choice(["[", '{"a":', '{"__class__":['])]
    if k == "t-dupkey":
        return [k, rng.randrange(3)]
    if k == "t-num":
        return [k, rng.getrandbits(24), rng.choice(["-1", "0", "1e5", "1.5", "1" * 4400, "true", "null", "NaN", "99999999999999999999", "\"1\""])]
    return [k]


# --------------------------------------------------------------------- driver
def apply(data: bytes, ops) -> bytes:
    from . import archive
    ops = copy.deepcopy(ops)
    sops = [o for o in ops if o[0] in SCHEMA_OPS]
    tops = [o for o in ops if o[0].startswith("t-")]
    mops = [o for o in ops if o[0].startswith("m-")]
    bops = [o[1] for o in ops if o[0] == "b"]
    zops = [o for o in ops if o[0] == "z"]
    if sops or tops or mops or zops:
        schema, mem = archive.read(data)
        for o in sops:
            schema = schema_op(schema, o, mem)
        text = to_json(schema).encode("utf-8", "surrogatepass")
        for o in tops:
            text = text_op(text, o)
        members = list(mem.items()) + [("schema.json", text)]
        for o in mops:
            member_op(members, o)
        b = io.BytesIO()
        with zipfile.ZipFile(b, "w", compression=zops[-1][1] if zops else 0) as z:
            for n, d in members:
                zi = zipfile.ZipInfo(n)
                zi.compress_type = zops[-1][1] if zops else 0
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    z.writestr(zi, d)
        data = b.getvalue()
    for o in bops:
        data = bytes_op(data, o)
    return data


SCHEMA_OPS = {"root", "set", "drop", "rename", "add", "swap", "copy", "stub", "stubkeep", "id", "cycle", "cached", "wrap", "wraproot", "chain", "chainroot", "type", "xtype",
              "file", "json", "jsonbump", "listdup", "proto"}


def g_ops(rng):
    n = rng.choice([1, 1, 1, 1, 2, 2, 3, 5])
    layer = rng.choice(["schema"] * 10 + ["member"] * 5 + ["text", "bytes", "bytes", "mixed", "mixed"])
    out = []
    for _ in range(n):
        l = rng.choice(["schema", "member", "text", "bytes"]) if layer == "mixed" else layer
        out.append(g_schema(rng) if l == "schema" else g_member(rng) if l == "member" else g_text(rng) if l == "text" else ["b", g_bytes(rng)])
    if rng.random() < 0.15:
        out.append(["z", rng.choice([8, 12, 14])])
    return out
