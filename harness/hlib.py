"""Bounded execution of the postconditions on the real code."""
from __future__ import annotations

import hashlib
import json
import os
import random
import shutil
import tempfile
import time
from pathlib import Path

CASES = []


class Violation(Exception):
    pass


class Skip(Exception):
    """This case does not apply to the tree (a private name it needs is not there)."""


def case(fn):
    CASES.append(fn)
    return fn


class Ctx:
    def __init__(self, name, seed, tier):
        self.name = name
        self.seed = seed
        self.tier = tier
        self.rng = random.Random(f"{seed}:{name}")
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.soft = []
        self.t0 = time.time()
        self._dirs = []
        self._n = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough=None):
        return quick if not self.thorough else (thorough if thorough is not None else quick * 10)

    def dir(self):
        d = Path(tempfile.mkdtemp(prefix="verif-h-"))
        self._dirs.append(d)
        return d

    def cleanup(self):
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)

    def count(self, what=None, nontrivial=True):
        """One evaluated input."""
        self.evaluations += 1
        if what is not None and nontrivial:
            s = repr(what)
            self.distinct.add(hashlib.md5(s.encode()).hexdigest())
            if len(self.samples) < 2:
                self.samples.append(f"{self.name}: {s[:400]}")

    def check(self, cond, msg, **data):
        if not cond:
            raise Violation(msg + ("" if not data else " | " + ", ".join(f"{k}={v!r}"[:600] for k, v in data.items())))

    def eq(self, got, want, msg, **data):
        if not deep_eq(got, want):
            self.check(False, msg, got=got, want=want, **data)

    def raises(self, exc, fn, msg, **data):
        try:
            r = fn()
        except exc as e:
            return e
        except Exception as e:
            raise Violation(f"{msg}: raised {type(e).__name__}: {e}" + (" | " + repr(data)[:600] if data else "")) from e
        raise Violation(f"{msg}: did not raise but returned {r!r}"[:800] + (" | " + repr(data)[:600] if data else ""))


def deep_eq(a, b):
    """Equality with NaN equal to NaN and bool/int/float kept apart from other types."""
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(deep_eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(deep_eq(x, y) for x, y in zip(a, b))
    try:
        r = a == b
        return bool(r)
    except Exception:
        return False
