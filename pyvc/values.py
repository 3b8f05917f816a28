"""Symbolic values: proxies that the real code computes with.

Numbers are Z3 integers or reals (machine arithmetic treated as mathematical; see DESIGN.md), floats carry an
extra NaN flag; everything the code only stores, passes on and compares is an element of an uninterpreted sort.
"""
from __future__ import annotations

import enum
import math

from . import core
from .core import Unsupported, cur
from .z3load import z3

V = z3.DeclareSort("Val")
StrOfInt = z3.Function("str_of_int", z3.IntSort(), V)      # injective, see str_of_int()
IntOfStr = z3.Function("int_of_str", V, z3.IntSort())
Concat = z3.Function("concat", V, V, V)

EXP = z3.Function("exp", z3.RealSort(), z3.RealSort())
LOG = z3.Function("log", z3.RealSort(), z3.RealSort())


def _uns(what):
    def f(self, *a, **k):
        raise Unsupported(f"{type(self).__name__}{what}")
    return f


class Sym:
    """Base of all proxies."""
    __slots__ = ()
    _kind = object

    def __hash__(self):
        raise Unsupported(f"hash of {type(self).__name__}")

    def __repr__(self):
        return f"<{type(self).__name__}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __reduce_ex__(self, p):
        raise Unsupported(f"pickle of {type(self).__name__}")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self          # immutable

    __float__ = _uns(".__float__")
    __int__ = _uns(".__int__")
    __index__ = _uns(".__index__")
    __complex__ = _uns(".__complex__")
    __len__ = _uns(".__len__")
    __iter__ = _uns(".__iter__")
    __next__ = _uns(".__next__")
    __call__ = _uns(".__call__")
    __getitem__ = _uns("[]")
    __setitem__ = _uns("[]=")
    __contains__ = _uns(" in")
    __enter__ = _uns(" with")


class SymBool(Sym):
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return cur().fork(self.z)

    def __eq__(self, o):
        o = lift_bool(o)
        return NotImplemented if o is None else SymBool(self.z == o)

    def __ne__(self, o):
        o = lift_bool(o)
        return NotImplemented if o is None else SymBool(self.z != o)

    def __and__(self, o):
        return SymBool(z3.And(self.z, lift_bool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.z, lift_bool(o)))

    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.z))

    def _num(self):
        return SymNum(z3.If(self.z, z3.IntVal(1), z3.IntVal(0)), "int")

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__
    __hash__ = Sym.__hash__


def lift_bool(o):
    if isinstance(o, SymBool):
        return o.z
    if isinstance(o, bool):
        return z3.BoolVal(o)
    if isinstance(o, z3.BoolRef):
        return o
    return None


def Not(c):
    return SymBool(z3.Not(core._tobool(c)))


def And(*cs):
    return SymBool(z3.And(*[core._tobool(c) for c in cs])) if cs else True


def Or(*cs):
    return SymBool(z3.Or(*[core._tobool(c) for c in cs])) if cs else False


def Implies(a, b):
    return SymBool(z3.Implies(core._tobool(a), core._tobool(b)))


def Iff(a, b):
    return SymBool(core._tobool(a) == core._tobool(b))


FALSE = z3.BoolVal(False)


class SymNum(Sym):
    """int or float; `nan` is the condition under which a float is NaN."""
    __slots__ = ("z", "kind", "nan")

    def __init__(self, z, kind, nan=FALSE):
        self.z = z
        self.kind = kind
        self.nan = nan

    @property
    def __class__(self):
        return int if self.kind == "int" else float

    # comparisons: IEEE semantics with respect to NaN
    def _cmp(self, o, f):
        o = lift_num(o)
        if o is None:
            return NotImplemented
        a, b = _coerce(self, o)
        return SymBool(z3.And(z3.Not(self.nan), z3.Not(o.nan), f(a, b)))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, SymVal)):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, SymVal)):
            return True
        r = self._cmp(o, lambda a, b: a == b)
        return r if r is NotImplemented else SymBool(z3.Not(r.z))

    def _bin(self, o, f, kind=None, swap=False):
        o = lift_num(o)
        if o is None:
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        x, y = _coerce(a, b)
        k = kind or ("int" if a.kind == b.kind == "int" else "float")
        return SymNum(f(x, y), k, z3.simplify(z3.Or(self.nan, o.nan)))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, swap=True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, swap=True)
    def __mul__(self, o): return self._bin(o, _mul)
    def __rmul__(self, o):
        if type(o) is list and len(o) == 1 and self.kind == "int":
            from . import rt
            x = o[0]
            return rt.SymSeq(rt.Coll("repeat", z3.If(self.z > 0, self.z, 0)), lambda i: x)
        return self._bin(o, _mul, swap=True)

    def _div(self, o, swap=False):
        o = lift_num(o)
        if o is None:
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        if cur().fork(_real(b) == 0):
            raise ZeroDivisionError("division by zero")
        return SymNum(_divide(_real(a), _real(b)), "float", z3.simplify(z3.Or(self.nan, o.nan)))

    def __truediv__(self, o): return self._div(o)
    def __rtruediv__(self, o): return self._div(o, swap=True)

    def _floordiv(self, o, swap=False):
        o = lift_num(o)
        if o is None:
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        if cur().fork(_real(b) == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if a.kind == b.kind == "int":
            return SymNum(_int_floordiv(a.z, b.z), "int")
        nan = z3.simplify(z3.Or(self.nan, o.nan))
        if cur().state.get("abstract"):
            # a whole number, kept as one
            if a.z.is_int() and b.z.is_int() and cur().check(b.z <= 0) == z3.unsat:
                return SymNum(_named("quotient", (a.z, b.z), z3.IntSort(),
                                     lambda k: z3.And(k * b.z <= a.z, a.z < k * b.z + b.z)), "float", nan)
            return SymNum(_floor(_divide(_real(a), _real(b))), "float", nan)
        return SymNum(z3.ToReal(z3.ToInt(_real(a) / _real(b))), "float", nan)

    def __floordiv__(self, o): return self._floordiv(o)
    def __rfloordiv__(self, o): return self._floordiv(o, swap=True)

    def __mod__(self, o):
        o = lift_num(o)
        if o is None or self.kind != "int" or o.kind != "int":
            raise Unsupported("SymNum %")
        if cur().fork(o.z == 0):
            raise ZeroDivisionError("modulo by zero")
        return SymNum(self.z - o.z * _int_floordiv(self.z, o.z), "int")

    def __pow__(self, o):
        if type(o) is int and 0 <= o <= 6:
            r = SymNum(z3.IntVal(1), "int")
            for _ in range(o):
                r = r * self
            return r
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __neg__(self): return SymNum(-self.z, self.kind, self.nan)
    def __pos__(self): return self
    def __abs__(self): return SymNum(z3.If(self.z < 0, -self.z, self.z), self.kind, self.nan)

    def __bool__(self):
        return cur().fork(z3.Or(self.nan, self.z != 0))

    def __round__(self, nd=None):
        if nd is None:
            return to_int(rint(self))
        raise Unsupported("round to digits")

    def is_integer(self):
        if self.kind == "int":
            return True
        return SymBool(z3.And(z3.Not(self.nan), z3.IsInt(self.z)))

    def item(self):
        return self

    def tolist(self):
        return self

    def astype(self, t):
        if t is int:
            return to_int(self)
        if t is float:
            return to_float(self)
        raise Unsupported("astype")

    @property
    def ndim(self):
        return 0

    @property
    def real(self):
        return self

    def __array_ufunc__(self, ufunc, method, *args, **kw):
        if method != "__call__" or kw:
            raise Unsupported(f"numpy ufunc {ufunc.__name__}.{method}")
        f = UFUNCS.get(ufunc.__name__)
        if f is None:
            raise Unsupported(f"numpy ufunc {ufunc.__name__}")
        return f(*args)

    def __array_function__(self, func, types, args, kwargs):
        f = NPFUNCS.get(func.__name__)
        if f is None:
            raise Unsupported(f"numpy function {func.__name__}")
        return f(*args, **kwargs)

    __hash__ = Sym.__hash__


def _mul(a, b):
    if a.is_real() and cur().state.get("nl"):
        from . import nonlinear
        return nonlinear.mul(a, b)
    if cur().state.get("abstract") and a.is_int():
        return _named("product", (a, b), z3.IntSort(), lambda k: k == a * b)
    return a * b


def _divide(a, b):
    if cur().state.get("nl"):
        from . import nonlinear
        return nonlinear.div(a, b)
    if cur().state.get("abstract"):
        return _named("div", (a, b), z3.RealSort(), lambda q: q * b == a)
    return a / b


def _named(what, args, sort, fact):
    """A quotient or a rounded number under a name of its own, known by what defines it."""
    p = cur()
    memo = p.state.setdefault("named", {})
    key = (what, *[a.get_id() for a in args])
    if key not in memo:
        k = p.const(what, sort)
        p.assume(fact(k))
        memo[key] = (k, args)
    return memo[key][0]


def _floor(z):
    return _named("floor", (z,), z3.IntSort(), lambda k: z3.And(z3.ToReal(k) <= z, z < z3.ToReal(k) + 1))


def _int_floordiv(a, b):
    # SMT-LIB div rounds so that the remainder is non-negative; Python floors
    q = a / b
    return z3.If(z3.And(b < 0, a % b != 0), q - 1, q) if not z3.is_int_value(b) else \
        (q if b.as_long() > 0 else z3.If(a % b != 0, q - 1, q))


def _real(n):
    return z3.ToReal(n.z) if n.z.is_int() else n.z


def _coerce(a, b):
    if a.z.is_int() and b.z.is_int():
        return a.z, b.z
    return (_real(a) if a.z.is_int() else a.z), (_real(b) if b.z.is_int() else b.z)


INF = z3.Real("inf")   # an upper bound of every real in play; constrained where used


def lift_num(o):
    if isinstance(o, SymNum):
        return o
    if isinstance(o, SymBool):
        return o._num()
    if isinstance(o, bool):
        return SymNum(z3.IntVal(int(o)), "int")
    t = type(o)
    if t.__module__ == "numpy" and getattr(o, "ndim", 1) == 0:
        o = o.item()
        t = type(o)
    if isinstance(o, int):
        return SymNum(z3.IntVal(o), "int")
    if isinstance(o, float):
        if math.isnan(o):
            return SymNum(z3.RealVal(0), "float", z3.BoolVal(True))
        if math.isinf(o):
            top = core.CUR.state.get("inf") if core.CUR is not None else None
            if top is None:
                raise Unsupported("infinite float")
            return SymNum(top if o > 0 else -top, "float")
        n, d = o.as_integer_ratio()
        return SymNum(z3.RealVal(n) / z3.RealVal(d) if d != 1 else z3.RealVal(n), "float")
    return None


def to_float(x):
    x = lift_num(x)
    return SymNum(_real(x) if x.z.is_int() else x.z, "float", x.nan)


def to_int(x):
    """int(x): truncation toward zero; NaN raises."""
    x = lift_num(x)
    if x.kind == "int":
        return x
    if cur().fork(x.nan):
        raise ValueError("cannot convert float NaN to integer")
    if x.z.is_int():
        return SymNum(x.z, "int")
    from .nonlinear import as_int
    k = as_int(x.z)
    if k is not None:
        return SymNum(k, "int")
    if cur().state.get("abstract") and cur().check(x.z < 0) == z3.unsat:
        return SymNum(_floor(x.z), "int")
    return SymNum(z3.If(x.z >= 0, z3.ToInt(x.z), -z3.ToInt(-x.z)), "int")


def rint(x):
    """round half to even, as a float."""
    x = lift_num(x)
    if x.kind == "int":
        return to_float(x)
    if cur().state.get("nl"):
        from . import nonlinear
        return SymNum(nonlinear.unary("rint", x.z, _rint), "float", x.nan)
    return SymNum(_rint(x.z), "float", x.nan)


def _rint(z):
    k = cur().const("rint", z3.IntSort())
    kr = z3.ToReal(k)
    x = SymNum(z, "float")
    # |x-k| <= 1/2, ties to even
    core.cur().assume(z3.And(x.z - kr <= z3.Q(1, 2), kr - x.z <= z3.Q(1, 2),
                             z3.Implies(z3.Or(x.z - kr == z3.Q(1, 2), kr - x.z == z3.Q(1, 2)), k % 2 == 0)))
    return kr


def floor(x):
    x = lift_num(x)
    if x.kind == "int":
        return to_float(x)
    if cur().state.get("nl"):
        from . import nonlinear

        def fl(z):
            k = cur().const("floor", z3.IntSort())
            cur().assume(z3.And(z3.ToReal(k) <= z, z < z3.ToReal(k) + 1))
            return z3.ToReal(k)
        return SymNum(nonlinear.unary("floor", x.z, fl), "float", x.nan)
    if x.z.is_int():
        return x
    if cur().state.get("abstract"):
        return SymNum(_floor(x.z), "float", x.nan)
    return SymNum(z3.ToReal(z3.ToInt(x.z)), "float", x.nan)


def _pairs(name, z):
    """Register an application of a monotone function and instantiate monotonicity against earlier ones."""
    st = cur().state.setdefault(("mono", name), [])
    return st


def exp(x):
    """Assumed contract of exp: strictly increasing and positive (NOT the inverse of log: rounding)."""
    x = to_float(x)
    p = cur()
    y = EXP(x.z)
    p.assume(y > 0)
    st = p.state.setdefault("exp", [])
    for a in st:
        if not a.eq(x.z):
            p.assume(z3.And(z3.Implies(a <= x.z, EXP(a) <= y), z3.Implies(x.z <= a, y <= EXP(a))))
    st.append(x.z)
    return SymNum(y, "float", x.nan)


def log(x):
    """Assumed contract of log: defined on positive numbers, non-decreasing."""
    x = to_float(x)
    p = cur()
    if p.fork(x.z <= 0):
        raise Unsupported("log of a non-positive number")
    y = LOG(x.z)
    st = p.state.setdefault("log", [])
    for a in st:
        if not a.eq(x.z):
            p.assume(z3.And(z3.Implies(a <= x.z, LOG(a) <= y), z3.Implies(x.z <= a, y <= LOG(a))))
    # strictness is only assumed between the declared bounds (lower < upper => log lower < log upper)
    st.append(x.z)
    return SymNum(y, "float", x.nan)


POW = z3.Function("pow", z3.RealSort(), z3.IntSort(), z3.RealSort())
IPOW = z3.Function("ipow", z3.IntSort(), z3.IntSort(), z3.IntSort())


def power(b, k):
    """b ** k for an integer k >= 0 and b >= 1, where the contract asks for it: defined by its recurrence, which is
    instantiated at the exponents in play."""
    b, k = lift_num(b), lift_num(k)
    p = cur()
    if b is None or k is None or k.kind != "int" or "pow" not in p.state:
        raise Unsupported("SymNum **")
    if p.fork(k.z < 0) or p.fork(_real(b) < 1):
        raise Unsupported("** outside of its assumed contract")
    p.state["pow"](b, k)
    if b.kind == "int":
        return SymNum(IPOW(b.z, k.z), "int")
    return SymNum(POW(b.z, k.z), "float")


def isnan(x):
    x = lift_num(x)
    return SymBool(x.nan)


def vmin(a, b):
    """Python's min(a, b): b if b < a else a."""
    x, y = lift_num(a), lift_num(b)
    c = core._tobool(y < x)
    return ite_num(c, y, x)


def vmax(a, b):
    x, y = lift_num(a), lift_num(b)
    c = core._tobool(y > x)
    return ite_num(c, y, x)


def ite_num(c, x, y):
    if x.kind == y.kind == "int":
        return SymNum(z3.If(c, x.z, y.z), "int")
    if x.kind != y.kind and not cur().state.get("abstract"):
        return x if cur().fork(c) else y
    a, b = _coerce(x, y)
    return SymNum(z3.If(c, a, b), "float", z3.simplify(z3.If(c, x.nan, y.nan)))


def clip(x, lo, hi, **kw):
    r = lift_num(x)
    if lo is not None and hi is not None and cur().state.get("nl") and r.z.is_real():
        lo, hi = lift_num(lo), lift_num(hi)
        a, b = _real(lo), _real(hi)
        if z3.is_false(z3.simplify(z3.Or(r.nan, lo.nan, hi.nan))):
            from . import nonlinear
            a, b = z3.simplify(a), z3.simplify(b)
            return SymNum(nonlinear.unary(("clip", a.get_id(), b.get_id(), a, b), r.z, lambda z: nonlinear.clip(z, a, b)), "float")
    if lo is not None:
        r = ite_num(core._tobool(r < lo), lift_num(lo), r)
    if hi is not None:
        r = ite_num(core._tobool(r > hi), lift_num(hi), r)
    return r


UFUNCS = {
    "rint": rint, "floor": floor, "exp": exp, "log": log, "isnan": isnan, "isfinite": lambda a: SymBool(z3.Not(lift_num(a).nan)),
    "add": lambda a, b: lift_num(a) + b, "subtract": lambda a, b: lift_num(a) - b,
    "multiply": lambda a, b: lift_num(a) * b, "true_divide": lambda a, b: lift_num(a) / b,
    "divide": lambda a, b: lift_num(a) / b, "floor_divide": lambda a, b: lift_num(a) // b,
    "less": lambda a, b: lift_num(a) < b, "less_equal": lambda a, b: lift_num(a) <= b,
    "greater": lambda a, b: lift_num(a) > b, "greater_equal": lambda a, b: lift_num(a) >= b,
    "equal": lambda a, b: lift_num(a) == b, "not_equal": lambda a, b: lift_num(a) != b,
    "minimum": vmin, "maximum": vmax, "negative": lambda a: -lift_num(a), "absolute": lambda a: abs(lift_num(a)),
}
NPFUNCS = {"clip": clip, "round": lambda a, decimals=0: rint(a) if decimals == 0 else _uns(" np.round")(a)}


class SymVal(Sym):
    """An opaque value: stored, passed on, compared for equality, formatted into text."""
    __slots__ = ("z", "cls", "truth")

    def __init__(self, z, cls=object, truth=None):
        self.z = z
        self.cls = cls
        self.truth = truth

    @property
    def __class__(self):
        return self.cls

    def __eq__(self, o):
        if isinstance(o, SymVal):
            return SymBool(self.z == o.z)
        if isinstance(o, str):
            return SymBool(self.z == lit(o))
        if o is None:
            return False
        return NotImplemented if isinstance(o, Sym) else False

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return True
        return Not(r)

    # texts are ordered in some way nothing is known about, embedded in the reals
    def _order(self, o, f):
        if self.cls is not str or not (type(o) is str or isinstance(o, SymVal) and o.cls is str):
            raise Unsupported("order of opaque values")
        a, b = self.z, o.z if isinstance(o, SymVal) else lit(o)
        cur().assume((RANK(a) == RANK(b)) == (a == b))
        return SymBool(f(RANK(a), RANK(b)))

    def __lt__(self, o): return self._order(o, lambda a, b: a < b)
    def __le__(self, o): return self._order(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._order(o, lambda a, b: a > b)
    def __ge__(self, o): return self._order(o, lambda a, b: a >= b)

    def __bool__(self):
        if self.truth is None:
            if self.cls is str:
                return cur().fork(self.z != lit(""))
            raise Unsupported("truth of an opaque value")
        return cur().fork(self.truth)

    def __hash__(self):
        return 7     # all opaque values collide, so dict lookups decide by == (a branch)

    def __add__(self, o):
        return concat([self, o])

    def __radd__(self, o):
        return concat([o, self])

    def strip(self, *a):
        return self

    def encode(self, *a):
        return self

    def __getattr__(self, n):
        if n.startswith("__") or n in ("serialize", "items", "keys", "tolist", "pop", "dtype", "shape"):
            raise AttributeError(n)
        raise Unsupported(f"attribute {n} of an opaque value")


_LITS = {}
RANK = z3.Function("place_among_texts", V, z3.RealSort())


def lit(s):
    """A string constant as an element of the opaque sort; distinct literals are distinct."""
    p = cur()
    d = p.state.setdefault("lits", {})
    if s not in d:
        c = z3.Const(f"lit:{s}", V)
        for t in d.values():
            p.solver.add(c != t)
            p.pc.append(c != t)
        d[s] = c
    return d[s]


def val(base, cls=object, truth=None):
    return SymVal(cur().const(base, V), cls, truth)


def intval(base):
    return SymNum(cur().const(base, z3.IntSort()), "int")


def realval(base, nan=False):
    p = cur()
    n = p.const(base + ".nan", z3.BoolSort()) if nan else FALSE
    return SymNum(p.const(base, z3.RealSort()), "float", n)


def boolval(base):
    return SymBool(cur().const(base, z3.BoolSort()))


def str_of_int(n):
    n = lift_num(n)
    z = StrOfInt(n.z)
    cur().assume(IntOfStr(z) == n.z)       # decimal text determines the number
    return SymVal(z, str)


def to_str(x):
    if isinstance(x, SymVal):
        return x if x.cls is str else SymVal(z3.Function("str_of", V, V)(x.z), str)
    if isinstance(x, SymNum) and x.kind == "int":
        return str_of_int(x)
    if isinstance(x, (SymNum, SymBool)):
        return val("str", str)
    return x


def concat(parts):
    parts = [q for q in parts if not (type(q) is str and q == "")]
    if all(type(q) is str for q in parts):
        return "".join(parts)
    z = None
    p = cur()
    for q in parts:
        q = lit(q) if type(q) is str else to_str(q).z
        z = q if z is None else Concat(z, q)
    return SymVal(z, str)


class SymEnum(Sym):
    """A member of a Python Enum, unknown which."""
    __slots__ = ("z", "cls")

    def __init__(self, cls, z):
        self.cls = cls
        self.z = z

    @property
    def __class__(self):
        return self.cls

    def __eq__(self, o):
        if isinstance(o, SymEnum):
            return SymBool(self.z == o.z) if o.cls is self.cls else False
        if type(o) is self.cls:
            return SymBool(self.z == list(self.cls).index(o))
        return False

    def __ne__(self, o):
        return Not(self.__eq__(o))

    def __hash__(self):
        raise Unsupported("hash of SymEnum")

    def fix(self):
        """Branch until the member is known."""
        ms = list(self.cls)
        for i, m in enumerate(ms):
            if i == len(ms) - 1 or cur().fork(self.z == i):
                return m
        return ms[-1]

    @property
    def value(self):
        return self.fix().value

    @property
    def name(self):
        return self.fix().name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.fix(), n)


def enumval(cls, base):
    p = cur()
    z = p.const(base, z3.IntSort())
    p.assume(z3.And(z >= 0, z < len(cls)))
    return SymEnum(cls, z)


class SymObj(Sym):
    """An object of class `cls` whose fields are produced on demand (and branch on optional ones)."""
    __slots__ = ("_cls", "_get", "_memo", "_tag")

    def __init__(self, cls, get, tag=None):
        object.__setattr__(self, "_cls", cls)
        object.__setattr__(self, "_get", get)
        object.__setattr__(self, "_memo", {})
        object.__setattr__(self, "_tag", tag)

    @property
    def __class__(self):
        return self._cls

    def __getattr__(self, n):
        if n in self._memo:
            return self._memo[n]
        if n in self._get:
            v = self._get[n]
            v = v() if callable(v) else v
            self._memo[n] = v
            return v
        if n.startswith("__"):
            raise AttributeError(n)
        # class attributes, properties and methods run as the real code
        for k in self._cls.__mro__:
            if n in k.__dict__:
                a = k.__dict__[n]
                return a.__get__(self, self._cls) if hasattr(a, "__get__") else a
        raise Unsupported(f"attribute {n} of symbolic {self._cls.__name__}")

    def __setattr__(self, n, v):
        if cur().loops:
            raise Unsupported("assignment to a field of a symbolic object inside a generic iteration")
        self._memo[n] = v

    def __eq__(self, o):
        if o is self:
            return True
        raise Unsupported(f"equality of symbolic {self._cls.__name__}")

    def __hash__(self):
        return 11


def optional(cond, make):
    """None or a value, decided by branching on cond (True: present)."""
    def g():
        return make() if cur().fork(core._tobool(cond)) else None
    return g


def is_sym(x):
    return isinstance(type(x), type) and issubclass(type(x), Sym)


def same(a, b):
    """Equality as a condition, NaN equal to NaN, None only to None; for postconditions."""
    if a is b:
        return True
    if a is None or b is None:
        return False
    na, nb = (lift_num(a), lift_num(b)) if not isinstance(a, (str, SymVal)) and not isinstance(b, (str, SymVal)) \
        else (None, None)
    if na is not None and nb is not None:
        x, y = _coerce(na, nb)
        return SymBool(z3.Or(z3.And(na.nan, nb.nan), z3.And(z3.Not(na.nan), z3.Not(nb.nan), x == y)))
    r = a == b
    if r is NotImplemented:
        return False
    return r
