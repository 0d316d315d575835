"""Importable classes used as payloads (untrusted types, failing elements)."""
from __future__ import annotations


class Plain:
    """attributes in __dict__"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


class Stateful:
    """__getstate__/__setstate__ pair"""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __getstate__(self):
        return {"payload": dict(self.__dict__), "n": 1}

    def __setstate__(self, s):
        self.__dict__.update(s["payload"])


class Other(Plain):
    pass


def helper(x):
    return x


class Boom(Exception):
    pass


EXCS = {
    "ValueError": ValueError, "TypeError": TypeError, "KeyError": KeyError, "MemoryError": MemoryError,
    "OSError": OSError, "RuntimeError": RuntimeError, "KeyboardInterrupt": KeyboardInterrupt, "Boom": Boom,
    "AttributeError": AttributeError, "NotImplementedError": NotImplementedError, "StopIteration": StopIteration,
    "RecursionError": RecursionError, "GeneratorExit": GeneratorExit, "UnicodeError": UnicodeError,
}


class BadGetstate:
    """pickles fine, but cannot be persisted by skops"""

    def __init__(self, exc="ValueError"):
        self.exc = exc

    def __getstate__(self):
        raise EXCS[self.exc]("no state for you")

    def __reduce_ex__(self, protocol):
        return (BadGetstate, (self.exc,))

    def __reduce__(self):
        return (helper, (1,), None)


class BadReduce:
    def __init__(self, exc="ValueError"):
        self.exc = exc

    def __reduce__(self):
        raise EXCS[self.exc]("irreducible")

    def __reduce_ex__(self, protocol):
        return (BadReduce, (self.exc,))


_weird = None


def weird_class():
    global _weird
    if _weird is None:
        from sklearn.base import BaseEstimator

        class Weird(BaseEstimator):
            def __init__(self, p=None, q=None, a_rather_long_name=None):
                self.p, self.q, self.a_rather_long_name = p, q, a_rather_long_name

        Weird.__module__, Weird.__qualname__ = __name__, "Weird"
        globals()["Weird"] = Weird
        _weird = Weird
    return _weird


class Nested:
    """persisting it persists something else in the middle"""

    def __init__(self, payload=None):
        self.payload = payload

    def __getstate__(self):
        from skops.io import dumps, get_untrusted_types
        data = dumps(self.payload)
        return {"payload": self.payload, "unknown": get_untrusted_types(data=data), "readable": len(data) > 0}

    def __setstate__(self, state):
        from skops.io import dumps, loads
        self.payload = state["payload"]
        self.again = loads(dumps([1, {"k": (2, "x")}]))


class NestedStr:
    """a cell whose text comes from another card"""

    def __init__(self, n):
        self.n = n

    def __str__(self):
        from skops.card import Card
        c = Card(None, template=None).add(**{f"N{self.n}": "nested"})
        c.add_metrics(section=f"N{self.n}/M", nested=self.n)
        return str(len(c.render())) + c.select(f"N{self.n}").content
