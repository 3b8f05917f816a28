"""Tensors as one generic element.

torch's elementwise operations are assumed to act on each element by itself; a tensor of any shape is then decided
by one arbitrary element.  A column of a matrix is the generic element of that column.
"""
from __future__ import annotations

import torch as real

from . import rt, values
from .core import Unsupported, cur
from .values import SymNum, SymVal, lift_num, to_float, to_int
from .z3load import z3


class T:
    """The generic element `v` of a tensor with the given dtype."""
    __vc_ghost__ = True

    def __init__(self, v, dtype=None, ndim=1, n=None, row=None):
        self.row = row             # the row this element belongs to, where a sequence was turned into the tensor
        self.v = v
        self.dtype = dtype or (real.int64 if lift_num(v).kind == "int" else real.float64)
        self.nd = ndim
        self.n = n                 # length, where it matters

    def _new(self, v, dtype=None):
        return T(v, dtype, self.nd, self.n, self.row)

    def _other(self, o):
        return o.v if isinstance(o, T) else o

    def __add__(self, o): return self._new(self.v + self._other(o))
    def __radd__(self, o): return self._new(self._other(o) + self.v)
    def __sub__(self, o): return self._new(self.v - self._other(o))
    def __rsub__(self, o): return self._new(self._other(o) - self.v)
    def __mul__(self, o): return self._new(self.v * self._other(o))
    def __rmul__(self, o): return self._new(self._other(o) * self.v)
    def __truediv__(self, o): return self._new(self.v / self._other(o))
    def __neg__(self): return self._new(-self.v)

    def clip(self, lo=None, hi=None, *, min=None, max=None):
        lo = min if lo is None else lo
        hi = max if hi is None else hi
        v = lift_num(self.v)
        if v.kind == "float":      # a floating tensor stays floating
            lo = None if lo is None else to_float(lo)
            hi = None if hi is None else to_float(hi)
        return self._new(values.clip(v, lo, hi), self.dtype)

    clamp = clip

    def type(self, dtype):
        if dtype.is_floating_point:
            return self._new(to_float(self.v), dtype)
        return self._new(to_int(self.v), dtype)

    def to(self, dtype=None, *a, **k):
        dtype = k.get("dtype", dtype)
        if isinstance(dtype, T):
            dtype = dtype.dtype
        return self if dtype is None else self.type(dtype)

    def double(self):
        return self.type(real.float64)

    def float(self):
        return self.type(real.float32)

    def round(self):
        return self._new(values.rint(self.v), self.dtype)

    def floor(self):
        return self._new(values.floor(self.v), self.dtype)

    def round_(self):
        self.v = values.rint(self.v) if lift_num(self.v).kind == "float" else self.v
        return self

    def copy_(self, o):
        self.v = o.type(self.dtype).v if isinstance(o, T) else o
        return self

    def is_floating_point(self):
        return self.dtype.is_floating_point

    def log(self): return self._new(values.log(self.v))
    def exp(self): return self._new(values.exp(self.v))
    def item(self): return self.v
    def clone(self): return self._new(self.v, self.dtype)

    def add_(self, o): return self._set(self + o)
    def mul_(self, o): return self._set(self * o)
    def clip_(self, *a, **k): return self._set(self.clip(*a, **k))

    clamp_ = clip_

    def _set(self, t):
        self.v = t.type(self.dtype).v
        return self

    @property
    def device(self):
        return None

    def tolist(self):
        if self.row is None:
            raise Unsupported("tolist of a generic tensor")
        return self.row.seq(self.v)

    def vc_len(self):
        if self.row is None:
            raise Unsupported("len of a generic tensor")
        return SymNum(self.row.coll.n, "int")

    @property
    def ndim(self):
        return self.nd

    def __bool__(self):
        raise Unsupported("truth of a tensor")

    __len__ = __iter__ = __getitem__ = None


class Row:
    """One arbitrary position of a collection.  Tensors made from sequences over it are decided at this position only,
    and lists made from such tensors may be read at it only: whatever holds there holds everywhere."""
    __vc_ghost__ = True

    def __init__(self, coll):
        self.coll = coll
        self.at = cur().const("row", z3.IntSort())
        cur().assume(z3.And(self.at >= 0, self.at < coll.n))

    def of(self, seq):
        if not isinstance(seq, rt.SymSeq) or not seq.coll.n.eq(self.coll.n) or not seq.ordered \
                or not z3.is_true(z3.simplify(seq.guard(z3.Int("probe_i")))):
            raise Unsupported("tensor of another sequence")
        return seq.elem(self.at)

    def seq(self, v):
        def elem(j):
            if not j.eq(self.at):
                cur().assume(j == self.at)
            return v
        return rt.SymSeq(self.coll, elem)


class Torch:
    """Stand-in for the module `torch` with the contracts of its elementwise functions."""
    float64, float32, int64, int32, int, dtype = real.float64, real.float32, real.int64, real.int32, real.int, real.dtype
    double, long, float = real.float64, real.int64, real.float32
    Tensor = T

    @staticmethod
    def tensor(x, dtype=None, device=None):
        if isinstance(x, (int, float)) or isinstance(x, SymNum):
            t = T(lift_num(x), dtype, 0)
            return t.type(dtype) if dtype is not None else t
        row = cur().state.get("row")
        if isinstance(x, rt.SymSeq) and row is not None:
            t = T(lift_num(row.of(x)), None, 1, None, row)
            return t if dtype is None else t.type(dtype)
        raise Unsupported("torch.tensor of a container")

    as_tensor = tensor

    @staticmethod
    def log(x): return x.log()

    @staticmethod
    def exp(x): return x.exp()

    @staticmethod
    def floor(x): return x.floor()

    @staticmethod
    def round(x): return x.round()

    @staticmethod
    def clip(x, *a, **k): return x.clip(*a, **k)

    clamp = clip

    def __getattr__(self, n):
        raise Unsupported(f"torch.{n}")


class Math:
    """Stand-in for `math`: the same assumed contract of log/exp as the tensors'."""
    pi = 3.141592653589793

    @staticmethod
    def log(x):
        if values.is_sym(x) and cur().fork((lift_num(x) <= 0).z):
            raise ValueError("math domain error")
        return values.log(x) if values.is_sym(x) else _c(values.log, x)

    @staticmethod
    def exp(x):
        return values.exp(x) if values.is_sym(x) else _c(values.exp, x)

    @staticmethod
    def floor(x):
        return values.to_int(values.floor(x))

    def __getattr__(self, n):
        import math
        return getattr(math, n)


def _c(f, x):
    return f(lift_num(x))
