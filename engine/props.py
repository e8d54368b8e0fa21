"""Property specifications: which witness functions are analysed and what they must compute."""
import importlib
import os
import pkgutil

HERE = os.path.dirname(os.path.abspath(__file__))
REG = {}

ASSUME = [
    "real arithmetic is exact: floating-point rounding, overflow and signed integer overflow are outside the analysed semantics",
    "the C++ standard library behaves as modelled in engine/stdlib.py",
    "clang's syntax tree of the witness translation unit is the program (CPU configuration, -fopenmp)",
]


class Spec:
    def __init__(self, prop, explain, cases, limit=(150, 600), assumptions=None, technique=None, note=None):
        self.prop, self.explain, self._cases, self._limit = prop, explain, cases, limit
        self.technique, self.note = technique, note
        self.assumptions = ASSUME + list(assumptions or [])

    def cases(self, tier):
        return self._cases(tier)

    def limit(self, tier):
        return self._limit[0 if tier == "quick" else 1]


def spec(prop, explain, **kw):
    def deco(f):
        REG[prop] = Spec(prop, explain, f, **kw)
        return f
    return deco


def load(prop):
    d = os.path.join(HERE, "specs")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f != "__init__.py":
            importlib.import_module("specs." + f[:-3])
    return REG[prop]
