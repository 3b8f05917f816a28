"""Arbitrary hyperparameters: real objects of the real classes, every field symbolic."""
from pyvc import nonlinear, rt, values
from pyvc.core import Unsupported, cur
from pyvc.stubs import patched
from pyvc.tensor import Math, Torch
from pyvc.values import And, Implies, Not, Or, SymNum, SymVal, V, boolval, intval, is_sym, lift_num, realval, same, val
from pyvc.z3load import z3

import numpy
import neps.search_spaces.domain as D
import neps.search_spaces.hyperparameters.categorical as C
import neps.search_spaces.hyperparameters.constant as K
import neps.search_spaces.hyperparameters.float as F
import neps.search_spaces.hyperparameters.integer as I
import neps.search_spaces.hyperparameters.numerical as N

CONF = ("low", "medium", "high")


class Range:
    """The integers lo..hi-1 (a NumPy index array)."""

    def __init__(self, parts):
        self.parts = parts

    def __getitem__(self, s):
        if not isinstance(s, slice) or s.step is not None or len(self.parts) != 1:
            raise Unsupported("index array")
        lo, hi = self.parts[0]
        a = lo if s.start is None else lo + s.start
        b = hi if s.stop is None else lo + s.stop
        return Range([(values.vmin(a, hi) if is_sym(a) or is_sym(hi) else min(a, hi),
                       values.vmin(b, hi) if is_sym(b) or is_sym(hi) else min(b, hi))])


class NPRandom:
    """np.random by contract: whatever it draws is in the stated range; nothing else is assumed."""

    @staticmethod
    def uniform(low=0.0, high=1.0, size=None):
        if size is not None:
            raise Unsupported("sized draw")
        u = realval("uniform")
        cur().assume(And(u >= low, u <= high).z)
        return u

    @staticmethod
    def normal(loc=0.0, scale=1.0, size=None):
        if size is not None:
            raise Unsupported("sized draw")
        return realval("normal")

    @staticmethod
    def random(size=None):
        u = realval("random")
        cur().assume(And(u >= 0, u < 1).z)
        return u

    rand = random

    @staticmethod
    def choice(a, size=None, replace=True, p=None):
        if type(a) is list:
            a = [x for x in a]
            if not a:
                raise ValueError("'a' cannot be empty unless no samples are taken")
            if size is not None:
                raise Unsupported("sized choice")
            return a[cur().choose(len(a), "np.random.choice")]
        if is_sym(a) and isinstance(a, SymNum):
            a = Range([(0, a)])
        if not isinstance(a, Range):
            raise Unsupported("np.random.choice")

        def one():
            k = intval("choice")
            inside = Or(*[And(k >= lo, k < hi) for lo, hi in a.parts])
            if not cur().fork(Or(*[lift_num(lo) < hi for lo, hi in a.parts]).z):
                raise ValueError("'a' cannot be empty unless no samples are taken")
            cur().assume(inside.z)
            return k
        if size is None:
            return one()
        if is_sym(size):
            raise Unsupported("symbolic number of draws")
        return [one() for _ in range(size)]

    def __getattr__(self, n):
        raise Unsupported(f"np.random.{n}")


class Probs:
    """A vector of probabilities: used only as an argument of np.random.choice."""

    def __setitem__(self, k, v):
        pass

    def __truediv__(self, o):
        return self


class NP:
    random = NPRandom()

    @staticmethod
    def arange(n):
        return Range([(0, n)]) if is_sym(n) else numpy.arange(n)

    @staticmethod
    def ones(n):
        return Probs() if is_sym(n) else numpy.ones(n)

    @staticmethod
    def sum(x):
        return 1 if isinstance(x, Probs) else numpy.sum(x)

    @staticmethod
    def concatenate(xs):
        return Range([q for x in xs for q in x.parts]) if all(isinstance(x, Range) for x in xs) else numpy.concatenate(xs)

    @staticmethod
    def linspace(a, b, num=50, endpoint=True):
        """num evenly spaced numbers from a to b (b itself included or not)."""
        if not is_sym(num):
            raise Unsupported("linspace")
        n = lift_num(num).z
        if cur().fork(n < 0):
            raise ValueError("Number of samples, must be non-negative.")
        f = z3.Function(cur().name("linspace"), z3.IntSort(), z3.RealSort())

        def elem(i):
            v = f(i)
            cur().assume(z3.And(v >= a, v <= b, z3.Implies(i == 0, v == a)))
            if endpoint is True:
                cur().assume(z3.Implies(z3.And(i == n - 1, n >= 2), v == b))
            return SymNum(v, "float")
        return rt.SymSeq(rt.Coll("linspace", n), elem)

    def __getattr__(self, n):
        return getattr(numpy, n)


class Dist:
    """scipy's truncated normal: draws some real number."""

    @staticmethod
    def rvs():
        return realval("rvs")

    @staticmethod
    def pdf(x):
        return realval("pdf")


class Choices(rt.SymSeq):
    """A list of n pairwise different opaque values."""
    __slots__ = ("inv",)

    def find(self, v):
        if not isinstance(v, SymVal):
            return None
        p = cur()
        j = self.inv(v.z)
        return j if p.fork(z3.And(j >= 0, j < self.coll.n, self.elem(j).z == v.z)) else None

    def __contains__(self, v):
        return self.find(v) is not None

    def index(self, v):
        j = self.find(v)
        if j is None:
            raise ValueError("not in list")
        return SymNum(j, "int")

    def __getitem__(self, k):
        k = lift_num(k)
        if k is None or k.kind != "int":
            raise Unsupported("list index")
        if cur().fork(z3.And(k.z >= 0, k.z < self.coll.n)):
            return self.elem(k.z)
        if cur().fork(z3.And(k.z < 0, k.z >= -self.coll.n)):
            return self.elem(k.z + self.coll.n)
        raise IndexError("list index out of range")

    def copy(self):
        r = Choices(self.coll, self.elem, self.guard, self.cls, self.ordered, self.keys)
        r.inv = self.inv
        return r

    def __eq__(self, o):
        return isinstance(o, Choices) and o.coll is self.coll

    __hash__ = rt.SymSeq.__hash__


def choices(tag):
    p = cur()
    at = z3.Function(p.name(tag + ".at"), z3.IntSort(), V)
    inv = z3.Function(p.name(tag + ".pos"), V, z3.IntSort())

    def elem(i):
        p.assume(z3.Implies(z3.And(i >= 0, i < co.n), inv(at(i)) == i))
        return SymVal(at(i), str)
    co = rt.Coll(tag)
    c = Choices(co, elem, keys=(elem, inv))
    c.inv = inv
    return c


def env():
    np_ = NP()
    ps = [patched(m, np=np_) for m in (C, F, I, N)] + [patched(F, math=Math()), patched(D, torch=Torch(), math=Math()),
                                                      patched(C, all_unique=lambda x: True),
                                                      patched(N, _get_truncnorm_prior_and_std=lambda **k: (Dist, realval("std")))]

    class Env:
        def __enter__(self):
            nonlinear.on()
            for q in ps:
                q.__enter__()

        def __exit__(self, *a):
            for q in reversed(ps):
                q.__exit__(*a)
    return Env()


def numeric(vc, kind, tag="hp", fidelity=None, default=None):
    """An arbitrary legal float or integer hyperparameter, and its bounds as asked for."""
    if kind == "float":
        lo, hi = realval(tag + ".lower"), realval(tag + ".upper")
    else:
        lo, hi = intval(tag + ".lower"), intval(tag + ".upper")
    vc.assume(lo < hi)
    log = bool(vc.choose(2, tag + ".log"))
    if log:
        vc.assume(lo > 0)
        vc.assume(values.log(lo) < values.log(hi))
        if kind == "int":
            a, b = lo - 0.499999, hi + 0.499999
            vc.assume(values.log(a) < values.log(b))
    d = None
    if default is None and vc.choose(2, tag + ".default") or default:
        d = realval(tag + ".default") if kind == "float" else intval(tag + ".default")
        vc.assume(And(d >= lo, d <= hi))
    conf = CONF[vc.choose(3, tag + ".confidence")] if d is not None else "low"
    fid = bool(vc.choose(2, tag + ".fidelity")) if fidelity is None else fidelity
    cls = F.FloatParameter if kind == "float" else I.IntegerParameter
    st, hp = vc.call(cls, lo, hi, log=log, default=d, default_confidence=conf, is_fidelity=fid)
    if st != "ok":
        vc.fail("a hyperparameter with lower < upper and a legal default can be made", repr(hp))
        cur().kill()
    return hp, lo, hi


def legal(hp, v):
    """v is a legal value of hp, as a condition (and of the declared type)."""
    if isinstance(hp, C.CategoricalParameter):
        j = hp.choices.find(v)
        return j is not None
    n = lift_num(v) if v is not None and not isinstance(v, (str, SymVal)) else None
    if n is None or n.kind != ("int" if isinstance(hp, I.IntegerParameter) else "float"):
        return False
    return And(Not(n.nan), n >= hp.lower, n <= hp.upper)


def fields(hp):
    """What a user can see of a hyperparameter."""
    r = [hp.value, hp.default, hp.is_fidelity, hp.default_confidence_choice, hp.default_confidence_score, hp.has_prior,
         hp.normalized_value]
    if isinstance(hp, C.CategoricalParameter):
        return r + [hp._value_index, hp._default_index]
    r += [hp.lower, hp.upper, hp.log, hp.log_default]
    return r + ([hp.float_hp.default, hp.float_hp.value] if isinstance(hp, I.IntegerParameter) else [])


def same_fields(a, b):
    return And(*[same(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False


def give_value(vc, hp, tag="value"):
    """hp holds an arbitrary legal value (set through the real set_value)."""
    if isinstance(hp, C.CategoricalParameter):
        j = cur().const(tag, z3.IntSort())
        cur().assume(z3.And(j >= 0, j < hp.choices.coll.n))
        v = hp.choices.elem(j)
    else:
        v = realval(tag) if isinstance(hp, F.FloatParameter) else intval(tag)
        vc.assume(And(v >= hp.lower, v <= hp.upper))
    st, e = vc.call(hp.set_value, v)
    if st != "ok":
        vc.fail("a legal value can be set", repr(e))
        cur().kill()
    vc.prove(same(hp.value, v), "a legal value set is the value held")
    return v


def categorical(vc, tag="hp"):
    cs = choices(tag)
    vc.assume(SymNum(cs.coll.n, "int") >= 2)
    d = None
    if vc.choose(2, tag + ".default"):
        j = cur().const(tag + ".d", z3.IntSort())
        cur().assume(z3.And(j >= 0, j < cs.coll.n))
        d = cs.elem(j)
    conf = CONF[vc.choose(3, tag + ".confidence")] if d is not None else "low"
    st, hp = vc.call(C.CategoricalParameter, cs, default=d, default_confidence=conf)
    if st != "ok":
        vc.fail("a categorical with different choices and a legal default can be made", repr(hp))
        cur().kill()
    return hp


def any_hp(vc, tag="hp", fidelity=None):
    k = vc.choose(3, tag + ".kind")
    return categorical(vc, tag) if k == 2 else numeric(vc, ("float", "int")[k], tag, fidelity)[0]
