"""Failing callees: the k-th call of a chosen function raises (allocation
failure, interrupted system call, ...)."""
from __future__ import annotations

import json
import sys
import zipfile

import numpy as np

from .fixtures import EXCS


class Bomb:
    """spec: {"target": ..., "at": k, "exc": name} or None"""

    TARGETS = ["writestr", "np.save", "json.dumps", "save_npz", "line"]

    def __init__(self, spec, guard=None):
        self.spec = spec
        self.fired = False
        self.count = 0
        self.guard = guard or (lambda: True)

    def _hit(self):
        n = self.count
        self.count += 1
        if self.spec and n == self.spec["at"] and not self.fired and self.guard():
            self.fired = True
            raise EXCS[self.spec["exc"]]("injected")

    def __enter__(self):
        self.saved = []
        t = self.spec["target"] if self.spec else None
        if t == "writestr":
            self._wrap(zipfile.ZipFile, "writestr")
        elif t == "np.save":
            self._wrap(np, "save")
        elif t == "json.dumps":
            self._wrap(json, "dumps")
        elif t == "save_npz":
            m = sys.modules.get("skops.io._scipy")
            if m is not None and hasattr(m, "save_npz"):
                self._wrap(m, "save_npz")
        elif t == "line":
            self._trace = sys.gettrace()
            sys.settrace(self._global_trace)
        return self

    def _global_trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if "/skops/" in fn and "/simskops/" not in fn:
            return self._local_trace
        return None

    def _local_trace(self, frame, event, arg):
        if event == "line":
            self._hit()
        return self._local_trace

    def _wrap(self, owner, name):
        orig = getattr(owner, name)
        self.saved.append((owner, name, orig))

        def wrapped(*a, **k):
            self._hit()
            return orig(*a, **k)

        setattr(owner, name, wrapped)

    def __exit__(self, *exc):
        if self.spec and self.spec["target"] == "line":
            sys.settrace(self._trace)
        for o, n, v in self.saved:
            setattr(o, n, v)
