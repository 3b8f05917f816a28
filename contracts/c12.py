"""C12 numeric domain conversions."""
# instrument: neps.search_spaces.domain
from pyvc import nonlinear
from pyvc.contract import contract
from pyvc.core import Unsupported, cur
from pyvc.stubs import patched
from pyvc.tensor import Math, T, Torch
from pyvc.values import And, Implies, Not, Or, SymBool, SymNum, _real, intval, lift_num, realval, same, to_float
from pyvc.z3load import z3

import neps.search_spaces.domain as D

Domain = D.Domain


def make(vc, tag, kinds=None):
    """An arbitrary domain: float/int x linear/log x unbinned/binned, bounds and number of bins arbitrary."""
    nonlinear.on()
    k = kinds if kinds is not None else (vc.choose(2, tag + ".int"), vc.choose(2, tag + ".log"), vc.choose(2, tag + ".bins"))
    is_int, log, binned = k
    lo, hi = (intval(tag + ".lower"), intval(tag + ".upper")) if is_int else (realval(tag + ".lower"), realval(tag + ".upper"))
    vc.assume(lo < hi)
    if log:
        vc.assume(lo > 0)
        from pyvc import values
        vc.assume(values.log(lo) < values.log(hi))
    bins = None
    if binned:
        bins = intval(tag + ".bins")
        vc.assume(bins >= 2)
    st, d = vc.call(Domain.integer if is_int else Domain.floating, lo, hi, log=bool(log), bins=bins)
    vc.prove(st == "ok", "a domain with lower < upper can be built")
    if st != "ok":
        cur().kill()
    vc.prove(And(same(d.lower, lo), same(d.upper, hi)), "a domain has the bounds it was given")
    return d, k


def member(vc, d, k, tag):
    v = intval(tag) if k[0] else realval(tag)
    vc.assume(And(v >= d.lower, v <= d.upper))
    return v


def unit(vc, tag):
    u = realval(tag)
    vc.assume(And(u >= 0, u <= 1))
    return u


def env():
    return patched(D, torch=Torch(), math=Math())


def inside(vc, d, k, v, what, dtype=None):
    vc.prove(And(v >= d.lower, v <= d.upper), f"{what} lies within the bounds")
    if k[0] and dtype is None:
        vc.prove(lift_num(v).kind == "int", f"{what} is integral")
    elif k[0]:
        vc.prove(lift_num(v).kind == "float" and SymBool(z3.IsInt(lift_num(v).z)), f"{what} is integral in a floating tensor too")


def dtypes(vc):
    return Torch.float64 if vc.choose(2, "floating result") else None


@contract("C12", "neps.search_spaces.domain.Domain.from_unit", "neps.search_spaces.domain.Domain.integer",
          "neps.search_spaces.domain.Domain.floating", "neps.search_spaces.domain.Domain.__post_init__")
def from_unit(vc):
    with env():
        d, k = make(vc, "d")
        a, b = unit(vc, "a"), unit(vc, "b")
        vc.assume(a <= b)
        dt = dtypes(vc)
        st, x = vc.call(d.from_unit, T(a), dtype=dt)
        vc.prove(st == "ok", "lifting a value of the unit interval succeeds")
        st2, y = vc.call(d.from_unit, T(b), dtype=dt)
        if st != "ok" or st2 != "ok":
            return
        inside(vc, d, k, x.v, "the lifted value", dt)
        vc.prove(x.v <= y.v, "lifting preserves order")
        vc.cover(f"kind {k}")


@contract("C12", "neps.search_spaces.domain.Domain.to_unit")
def to_unit(vc):
    with env():
        d, k = make(vc, "d")
        a, b = member(vc, d, k, "a"), member(vc, d, k, "b")
        vc.assume(a <= b)
        st, x = vc.call(d.to_unit, T(a))
        vc.prove(st == "ok", "normalising a value of the domain succeeds")
        st2, y = vc.call(d.to_unit, T(b))
        if st != "ok" or st2 != "ok":
            return
        vc.prove(And(x.v >= 0, x.v <= 1), "the normalised value lies in [0, 1]")
        vc.prove(x.v <= y.v, "normalising preserves order")
        vc.cover(f"kind {k}")


@contract("C12", "neps.search_spaces.domain.Domain.to_unit", "neps.search_spaces.domain.Domain.from_unit")
def round_trip(vc):
    """Unbinned domains: to the unit interval and back is the identity (log domains: given that exp inverts log)."""
    with env():
        is_int, log = ((1, 0), (0, 0), (0, 1))[vc.choose(3, "kind")]
        d, k = make(vc, "d", (is_int, log, 0))
        v = member(vc, d, k, "v")
        st, u = vc.call(d.to_unit, T(v))
        st2, w = vc.call(d.from_unit, u) if st == "ok" else (st, None)
        vc.prove(st2 == "ok", "there and back succeeds")
        if st2 != "ok":
            return
        if log:
            from pyvc import values
            vc.assume(values.exp(values.log(v)) == v)
        vc.prove(same(w.v, v), "to the unit interval and back returns the value")
        if is_int:
            vc.prove(lift_num(w.v).kind == "int", "an integer comes back as an integer")
        vc.cover(f"kind {k}")


def pair(vc, k1, k2):
    """Two domains; sharing bounds is one of the cases (that is where shortcuts apply)."""
    frm, k1 = make(vc, "frm", k1)
    if vc.choose(2, "related") and k1[0] == k2[0] and k1[1] == k2[1]:
        bins = None
        if k2[2]:
            bins = frm.bins if k1[2] and vc.choose(2, "same bins") else intval("to.bins")
            vc.assume(bins >= 2)
        st, to = vc.call(Domain.integer if k2[0] else Domain.floating, frm.lower, frm.upper, log=bool(k2[1]), bins=bins)
        if st != "ok":
            vc.fail("a domain with lower < upper can be built")
            cur().kill()
    else:
        to, k2 = make(vc, "to", k2)
    return frm, to


class Units:
    """The contracts of to_unit and from_unit (proved above) in place of their bodies."""

    def __init__(self, vc):
        self.vc = vc
        self.up, self.down = [], []

    def mono(self, table, key, x, make):
        for k, y, r in table:
            if k is key and y is x:
                return r
        r = make()
        for k, y, s in table:
            if k is key:
                self.vc.assume(And(Implies(x <= y, r <= s), Implies(y <= x, s <= r)))
        table.append((key, x, r))
        return r

    def patch(self):
        me = self

        def to_unit(self, x, *, dtype=None):
            me.vc.prove(And(x.v >= self.lower, x.v <= self.upper), "only values of a domain are normalised")
            if dtype is not None and not dtype.is_floating_point:
                raise ValueError("Unit interval only allows floating dtypes")
            return T(me.mono(me.up, self, x.v, lambda: unit(me.vc, "u")))

        def from_unit(self, x, *, dtype=None):
            me.vc.prove(And(x.v >= 0, x.v <= 1), "only numbers in [0, 1] are lifted")

            def make():
                r = intval("r") if self.round else realval("r")
                me.vc.assume(And(r >= self.lower, r <= self.upper))
                return r
            r = me.mono(me.down, self, x.v, make)
            return T(r).type(dtype or self.preffered_dtype)
        return patched(Domain, to_unit=to_unit, from_unit=from_unit)


def cast_case(vc, k1, k2):
    with env():
        frm, to = pair(vc, k1, k2)
        a, b = member(vc, frm, k1, "a"), member(vc, frm, k1, "b")
        vc.assume(a <= b)
        with Units(vc).patch():
            dt = dtypes(vc)
            st, x = vc.call(to.cast, T(a), frm, dtype=dt)
            vc.prove(st == "ok", "converting a value of one domain to another succeeds")
            st2, y = vc.call(to.cast, T(b), frm, dtype=dt)
        if st != "ok" or st2 != "ok":
            return
        inside(vc, to, k2, x.v, "the converted value", dt)
        vc.prove(x.v <= y.v, "converting preserves order")
        vc.cover(f"{k1} to {k2}")


class Gd:
    """Domain number i of a list (or the single one), known by its place only."""

    def __init__(self, side, i, single=False):
        self.side, self.i, self.single = side, i, single

    @property
    def __class__(self):
        return Domain

    @property
    def preffered_dtype(self):
        f = z3.Function(self.side + ".floating", z3.IntSort(), z3.BoolSort())
        return Dt(SymBool(f(self.i.z if self.i is not None else z3.IntVal(0))))

    def cast(self, x, frm, *, dtype=None):
        return Casted(self, x, frm)


class Dt:
    """A dtype known by whether it is floating."""

    def __init__(self, f):
        self.is_floating_point = f


class Casted:
    def __init__(self, to, x, frm):
        self.to, self.x, self.frm = to, x, frm


class Mat:
    """A tensor of any shape (..., n): columns are known by their number."""
    __vc_ghost__ = True

    def __init__(self, vc, n, ndim, dtype=None):
        self.vc, self.n, self.ndim = vc, n, ndim
        self.shape = Shape(n)
        self.dtype = dtype or Dt(bool(vc.choose(2, "floating tensor")))

    def is_floating_point(self):
        return self.dtype.is_floating_point

    def unsqueeze(self, d):
        self.vc.prove(d == 0 and self.ndim == 1, "only a single configuration gets a leading dimension")
        return Mat(self.vc, self.n, 2, self.dtype)

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] in (Ellipsis, slice(None)):
            return Col(self, k[1])
        raise Unsupported("tensor index")


class Shape:
    def __init__(self, n):
        self.n = n

    def __getitem__(self, k):
        if k == -1:
            return self.n
        raise Unsupported("other dimensions")

    def __vc_str__(self):
        return "shape"


class Col:
    def __init__(self, m, i):
        self.m, self.i = m, i


class Out:
    __vc_ghost__ = True

    def __init__(self, vc, n, frm, to, dtype):
        self.vc, self.n, self.frm, self.to, self.dtype = vc, n, frm, to, dtype
        self.written = False

    def __setitem__(self, k, v):
        vc = self.vc
        loops = cur().loops
        if not (isinstance(k, tuple) and len(k) == 2 and k[0] in (Ellipsis, slice(None)) and loops):
            raise Unsupported("tensor store")
        i = k[1]
        lp = loops[-1]
        ok = isinstance(v, Casted) and isinstance(v.x, Col)
        vc.prove(ok, "a column of the result is a converted column")
        if not ok:
            return
        vc.prove(same(v.x.i, i), "a column is converted into the column at the same place")
        for d, side in ((v.frm, self.frm), (v.to, self.to)):
            vc.prove(d.side == side[0], "a column is converted from its own domain to its own target")
            vc.prove(d.single if side[1] else same(d.i, i), "a column is converted by its own pair of domains")
        vc.prove(Or(self.dtype.is_floating_point, Not(v.to.preffered_dtype.is_floating_point)), "fractions are not cut off")
        vc.prove(And(same(SymNum(lp.coll.n, "int"), self.n), same(i, SymNum(lp.index, "int"))), "every column is converted")
        cur().ex.covers["columns written"] = True


@contract("C12", "neps.search_spaces.domain.Domain.translate")
def translate(vc):
    from pyvc import rt
    n = intval("n")
    vc.assume(n >= 1)
    ndim = 1 + vc.choose(3, "ndim")
    x = Mat(vc, n, ndim)

    def side(nm):
        if vc.choose(2, nm + " is a list"):
            m = rt.Coll(nm)
            return rt.SymSeq(m, lambda i: Gd(nm, SymNum(i, "int"))), (nm, False), SymNum(m.n, "int")
        return Gd(nm, None, True), (nm, True), None
    frm, f, nf = side("frm")
    to, t, nt = side("to")

    class TT(Torch):
        @staticmethod
        def empty_like(m, dtype=None):
            return Out(vc, m.n, f, t, dtype or m.dtype)
    with patched(D, torch=TT()):
        st, r = vc.call(Domain.translate, x, frm, to)
    fits = And(*[c for c in (same(nf, n) if nf is not None else True, same(nt, n) if nt is not None else True)])
    if st == "exc":
        vc.prove(isinstance(r, ValueError), "the only refusal is that of lists of the wrong length")
        vc.prove(Not(fits), "lists of domains that match the columns are not refused")
        vc.cover("refused")
        return
    vc.prove(fits, "a list of domains that does not match the columns is refused")
    if f[1] and t[1]:
        ok = isinstance(r, Casted) and r.to.side == "to" and r.frm.side == "frm" and isinstance(r.x, Mat)
        vc.prove(ok, "one pair of domains converts the whole tensor")
        vc.cover("single")
    else:
        vc.prove(isinstance(r, Out), "the result is the converted tensor")
        vc.cover("columns")


@contract("C12", "neps.search_spaces.domain.Domain.cast_one", "neps.search_spaces.domain.Domain.to_unit_one",
          "neps.search_spaces.domain.Domain.as_integer_domain", "neps.search_spaces.domain.Domain.indices")
def one_value(vc):
    """Conversions of single values are those of tensors; the index domain has one index per value."""
    with env():
        d, k = make(vc, "d")
        v = member(vc, d, k, "v")
        st, r = vc.call(d.cast_one, v, d)
        vc.prove(st == "ok", "converting a single value succeeds")
        if st == "ok":
            inside(vc, d, k, r, "a single converted value")
            vc.prove(same(r, v), "a value is not changed by conversion into its own domain")
        st, u = vc.call(d.to_unit_one, v)
        vc.prove(st == "ok" and And(u >= 0, u <= 1), "a single value is normalised into [0, 1]")
        st, i = vc.call(d.as_integer_domain)
        if d.cardinality is None:
            vc.prove(st == "exc" and isinstance(i, ValueError), "a continuous domain has no index domain")
            vc.cover("continuous")
        else:
            vc.prove(st == "ok" and And(same(i.lower, 0), same(i.upper, d.cardinality - 1), same(i.cardinality, d.cardinality)),
                     "the index domain has one index per value of the domain")
            vc.prove(d.cardinality >= 2, "a finite domain has at least two values")
            vc.prove(same(d.cardinality, d.bins if k[2] else d.upper - d.lower + 1), "a domain has its bins or its integers as values")
            vc.cover("finite")


def kinds():
    return [(i, l, b) for i in (0, 1) for l in (0, 1) for b in (0, 1)]


for _i, _k1 in enumerate(kinds()):
    def _c(vc, k1=_k1):
        ks = kinds()
        cast_case(vc, k1, ks[vc.choose(len(ks), "to")])
    _c.__name__ = "cast_from_" + ("int" if _k1[0] else "float") + ("_log" if _k1[1] else "") + ("_bins" if _k1[2] else "")
    contract("C12", "neps.search_spaces.domain.Domain.cast")(_c)
