"""setup_cmd: the simulator's own seams behave (no property is checked here)."""
from __future__ import annotations

import gc
import io
import os
import pathlib
import random
import shutil
import tempfile

from .seams import Allocator, Clock, Seams
from .simfs import Scratch, SimCrash, SimDisk, peek


def main():
    gc.collect()
    with Scratch() as sc:
        # crash: nothing after the crash point reaches the disk
        d = SimDisk(sc.top, [{"at": 1, "kind": "torn", "frac": 0.5}])
        with d:
            d.start()
            try:
                with open("a.bin", "wb") as f:
                    f.write(b"0123456789")
                raise AssertionError("no crash")
            except SimCrash:
                pass
            d.stop()
        assert peek(os.path.join(sc.top, "work/a.bin")) == b"01234"
        # short writes are repaired by the buffered layer
        d = SimDisk(sc.top, short_rng=random.Random(1), bufsize=7)
        with d:
            d.start()
            pathlib.Path("b.txt").write_text("é" * 1000, encoding="utf-8")
            assert pathlib.Path("b.txt").read_text(encoding="utf-8") == "é" * 1000
            with tempfile.TemporaryDirectory() as t:
                shutil.copy("b.txt", os.path.join(t, "c.txt"))
                assert open(os.path.join(t, "c.txt"), "rb").read() == ("é" * 1000).encode()
                with tempfile.NamedTemporaryFile(dir=t, delete=False) as f:
                    f.write(b"x")
                os.replace(f.name, "d.txt")
            assert os.listdir("../tmp") == []
            d.stop()
        # mounts: rename across is EXDEV, shutil.move copies
        d = SimDisk(sc.top, mounts={"data": 1})
        with d:
            d.start()
            try:
                os.rename("b.txt", "../data/b.txt")
                raise AssertionError("rename crossed a mount")
            except OSError:
                pass
            shutil.move("b.txt", "../data/b.txt")
            d.stop()
        assert peek(os.path.join(sc.top, "data/b.txt")) == ("é" * 1000).encode()
    from skops.io import dumps
    # allocator: freed addresses are reused, live ones never
    al = Allocator(random.Random(1), mode="reuse", reuse=1.0)
    keep = [[i] for i in range(10)]
    a = [al(x) for x in keep]
    assert len(set(a)) == 10 and a == [al(x) for x in keep]
    t1 = al([1])
    t2 = al([2])
    assert t1 == t2 and t1 not in a
    with Seams(Allocator(random.Random(1)), random.Random(2), Clock()):
        x = dumps({"a": b"1", "b": [1, 2]})
    with Seams(Allocator(random.Random(1)), random.Random(2), Clock()):
        assert dumps({"a": b"1", "b": [1, 2]}) == x, "dumps is not a function of the seams"
    print("selftest ok")
    return 0
