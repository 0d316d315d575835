"""Importable by name only.  Importing it changes process-wide state, as some
installed modules do; nothing but an archive's content ever names it."""
import os
import sys

import numpy as np

os.environ["SIMSKOPS_EVIL"] = "imported"
sys.path.insert(0, "/nonexistent-simskops-evil")
np.random.seed(12345)


class Evil:
    pass


Tree = Hinge = list = Evil


def __getattr__(name):
    return Evil
