"""Working with skops archives outside the simulation."""
from __future__ import annotations

import io
import json
import zipfile


def read(data: bytes):
    """-> (schema, {member: bytes})"""
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        members = {n: z.read(n) for n in z.namelist()}
    return json.loads(members.pop("schema.json")), members


def write(schema, members) -> bytes:
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        for n, d in members.items():
            z.writestr(zipfile.ZipInfo(n), d)
        z.writestr(zipfile.ZipInfo("schema.json"), json.dumps(schema, indent=2))
    return b.getvalue()


def walk(node, fn, usermap=False):
    """fn(node) for every node; the content of a DictNode is keyed by the
    user's keys, which may look like ours"""
    if isinstance(node, dict):
        if "__loader__" in node and not usermap:
            fn(node)
        for k, v in list(node.items()):
            walk(v, fn, not usermap and k == "content" and node.get("__loader__") == "DictNode")
    elif isinstance(node, list):
        for v in node:
            walk(v, fn)


def has_loader(schema, name):
    hit = []
    walk(schema, lambda n: hit.append(1) if n["__loader__"] == name else None)
    return bool(hit)


def set_protocol(data: bytes, protocol: int, current: int) -> tuple[bytes, int]:
    """The same object as an archive of another protocol version.  Node kinds
    whose layout changed are rewritten into the old layout; where the object
    cannot be expressed in protocol 0 (random generators), 1 is used."""
    schema, members = read(data)
    if protocol == 0 and has_loader(schema, "RandomGeneratorNode"):
        protocol = 1

    def down(n):
        if n["__loader__"] == "FunctionNode" and protocol == 0:
            n["content"] = {"module_path": n["__module__"], "function": n["__class__"]}
            n["__class__"], n["__module__"] = "function", "builtins"
        if n["__loader__"] == "RandomGeneratorNode" and protocol == 1:
            n["content"].pop("seed_seq", None)

    if protocol < current:
        walk(schema, down)
    schema["protocol"] = protocol
    return write(schema, members), protocol
