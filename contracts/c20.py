"""C20 grid search proposes every grid point exactly once."""
# instrument: neps.search_spaces.domain neps.search_spaces.parameter neps.search_spaces.hyperparameters.categorical neps.optimizers.grid_search.optimizer neps.search_spaces.search_space neps.search_spaces.hyperparameters.numerical neps.search_spaces.hyperparameters.float neps.search_spaces.hyperparameters.integer neps.state.neps_state neps.state.trial neps.state.optimizer
import itertools
import random as real_random

import numpy

from pyvc import rt, values
from pyvc.contract import contract
from pyvc.core import Unsupported, cur
from pyvc.stubs import Ghost, patched
from pyvc.values import And, Implies, Not, Or, SymBool, SymNum, SymVal, V, intval, is_sym, lift_num, same, val
from pyvc.z3load import z3
from contracts import hpkit
from contracts.sampling import sample_trial_contract

import neps.optimizers.grid_search.optimizer as G
import neps.search_spaces.search_space as SP
import neps.search_spaces.hyperparameters.numerical as N

I = z3.IntSort()
NAME = z3.Function("name_of", I, V)
AT = z3.Function("place_of_name", V, I)
POINT = z3.Function("point", I, V)
WHICH = z3.Function("which_point", V, I)


class Lst(rt.SymSeq):
    """A list of any length, indexed and permuted."""
    __slots__ = ()

    def __getitem__(self, k):
        k = lift_num(k)
        if k is None or k.kind != "int":
            raise Unsupported("list index")
        if cur().fork(z3.And(k.z >= 0, k.z < self.coll.n)):
            return self.elem(k.z)
        if cur().fork(z3.And(k.z < 0, k.z >= -self.coll.n)):
            return self.elem(k.z + self.coll.n)
        raise IndexError("list index out of range")

    def copy(self):
        return Lst(self.coll, self.elem)


class Generator(Ghost):
    """random.Random(seed) by contract: what it draws is determined by the seed, the draws before, and the arguments."""

    def __init__(self, seed=None):
        if seed is None:
            seed = cur().const("system entropy", I)
        else:
            n = lift_num(seed)
            if n is None or n.kind != "int":
                raise Unsupported("seed of another kind")
            seed = n.z
        self.seed, self.draws = seed, 0

    def order(self, n, k):
        """Different positions below n for each index below k."""
        at = z3.Function(f"drawn.{self.draws}", I, I, I, I, I)
        inv = z3.Function(f"drawn.{self.draws}.inverse", I, I, I, I, I)
        self.draws += 1
        s = self.seed

        def pos(i):
            j = at(s, n, k, i)
            cur().assume(z3.Implies(z3.And(i >= 0, i < k), z3.And(j >= 0, j < n, inv(s, n, k, j) == i)))
            return j
        return pos

    def sample(self, population, k, *, counts=None):
        if counts is not None or not isinstance(population, rt.SymSeq):
            raise Unsupported("sample")
        x = rt._full(population)
        k = lift_num(k)
        n = x.coll.n
        if cur().fork(z3.Or(k.z < 0, k.z > n)):
            raise ValueError("Sample larger than population or is negative")
        pos = self.order(n, k.z)
        return Lst(rt.Coll("sample", k.z), lambda i: x.elem(pos(i)))

    def shuffle(self, x):
        if not isinstance(x, Lst):
            raise Unsupported("shuffle")
        pos = self.order(x.coll.n, x.coll.n)
        old = x.elem
        x.elem = lambda i: old(pos(i))


class Random(Ghost):
    """The module random: its own generator is in an unknown state."""
    Random = Generator

    def __getattr__(self, n):
        if n in ("sample", "shuffle"):
            return getattr(Generator(None), n)
        raise Unsupported(f"random.{n}")


def hist(tag):
    """A mapping of any number of stored trials."""
    co = rt.Coll(tag)
    return rt.SymMap(co, lambda i: SymVal(z3.Function(tag + ".id", I, V)(i), str), lambda i: val("trial")), co.n


@contract("C20", "neps.optimizers.grid_search.optimizer.GridSearch.ask")
def ask(vc):
    """Asked with m of n points stored, the search proposes a point that depends on m alone and differs for every m; with
    n or more it says that it is exhausted.  (Different points for the n numbers of trials 0..n-1 are all n points.)"""
    p = cur()
    n = p.const("points", I)
    p.assume(n >= 0)

    def point(i):
        cur().assume(WHICH(POINT(i)) == i)        # the points are different: the contracts of the grid
        return SymVal(POINT(i), dict)

    def search(seed):
        o = object.__new__(G.GridSearch)
        o.configs_list = Lst(rt.Coll("grid", n), point)
        o.seed = seed
        o.pipeline_space = None
        return o
    seed = (None, intval("seed"), 0)[vc.choose(3, "seed")]
    a = search(seed)
    b = a if vc.choose(2, "the same worker") else search(seed)
    with patched(G, random=Random()):
        out = []
        for o, tag in ((a, "one"), (b, "other")):
            trials, m = hist(tag)
            st, r = vc.call(o.ask, trials, None)
            out.append((m, st, r))
            if st == "exc":
                vc.prove(SymBool(m >= n), "points are left: one is proposed")
                vc.prove(isinstance(r, ValueError) and "exhaust" in str(r), "an exhausted search says so")
                vc.cover("exhausted")
                return
            vc.prove(SymBool(m < n), "no points are left: none is proposed")
            vc.prove(isinstance(r, G.SampledConfig) and r.previous_config_id is None, "a proposal without predecessor")
            if not isinstance(r.config, SymVal):
                raise Unsupported("a point of another form")
            j = WHICH(r.config.z)
            vc.prove(SymBool(z3.And(j >= 0, j < n, POINT(j) == r.config.z)), "a point of the grid is proposed")
    (m1, _, r1), (m2, _, r2) = out
    vc.prove(SymBool(z3.Implies(m1 == m2, r1.config.z == r2.config.z)), "the same number of trials, the same point")
    vc.prove(SymBool(z3.Implies(m1 != m2, WHICH(r1.config.z) != WHICH(r2.config.z))), "another number of trials, another point")
    vc.prove(Implies(SymBool(m1 != m2), Not(same(r1.id, r2.id))), "another number of trials, another id")
    vc.cover("proposed")


class GridConfig(Ghost):
    def __init__(self, i):
        self.i = i

    def __vc_subst__(self, frm, to):
        return GridConfig(z3.substitute(self.i, (frm, to)))

    def hp_values(self):
        return SymVal(POINT(self.i), dict)


@contract("C20", "neps.optimizers.grid_search.optimizer.GridSearch.__init__", "neps.optimizers.base_optimizer.BaseOptimizer.__init__")
def made(vc):
    asked = []
    co = rt.Coll("grid")

    class Space(Ghost):
        def get_search_space_grid(self, *, size_per_numerical_hp=10, include_endpoints=True):
            asked.append((size_per_numerical_hp, include_endpoints))
            return rt.SymSeq(co, GridConfig)
    sp = Space()
    k = {}
    if vc.choose(2, "size given"):
        k["grid_step_size"] = intval("size")
    if vc.choose(2, "seed given"):
        k["seed"] = intval("seed")
    with patched(G, random=Random()):
        st, o = vc.call(G.GridSearch, pipeline_space=sp, **k)
    if st != "ok":
        return vc.fail("a grid search can be made", repr(o))
    vc.prove(len(asked) == 1 and same(asked[0][0], k.get("grid_step_size", 10)) and asked[0][1] is True, "the grid has the size asked for, with both ends")
    c = o.configs_list
    if not isinstance(c, rt.SymSeq) or c.coll is not co:
        raise Unsupported("points kept in another form")
    i = cur().const("any", I)
    cur().assume(z3.And(i >= 0, i < co.n))
    vc.prove(And(SymBool(c.guard(i)), same(c.elem(i), SymVal(POINT(i), dict))), "every point of the grid is kept")
    vc.prove(o.pipeline_space is sp and (same(o.seed, k["seed"]) if "seed" in k else o.seed is None), "space and seed are kept")
    vc.cover("made")


# ---------------------------------------------------------------- the grid of a space with any number of hyperparameters
KIND = z3.Function("kind_of", I, I)
LOWER = z3.Function("lower_of", I, z3.RealSort())
UPPER = z3.Function("upper_of", I, z3.RealSort())
VALUE = z3.Function("value_of", I, V)
RAW = z3.Function("grid_value_of", I, I, z3.RealSort())
PLACE = z3.Function("value_at", I, I, V)
FLOAT, INT, CAT, CONST, GRAPH = range(5)


def classes():
    import neps.search_spaces as S
    from neps.search_spaces.architecture.graph_grammar import GraphParameter
    return (S.FloatParameter, S.IntegerParameter, S.CategoricalParameter, S.ConstantParameter, GraphParameter)


class HP(Ghost):
    """Hyperparameter i of the space, of whatever kind."""

    def __init__(self, i):
        self.__dict__["i"] = i

    def __vc_subst__(self, frm, to):
        return HP(z3.substitute(self.i, (frm, to)))

    def kind(self):
        p = cur()
        p.assume(z3.And(KIND(self.i) >= 0, KIND(self.i) < 5))
        for k in range(4):
            if p.fork(KIND(self.i) == k):
                return k
        return GRAPH

    @property
    def __class__(self):
        return classes()[self.kind()]

    def only(self, *ks):
        if self.kind() not in ks:
            raise AttributeError("no such attribute")

    @property
    def choices(self):
        self.only(CAT)
        return Options(self.i)

    @property
    def value(self):
        k = self.kind()
        if k != CONST:
            raise Unsupported("value of a hyperparameter that may have none")
        return SymVal(VALUE(self.i), object)

    def bound(self, f):
        k = self.kind()
        self.only(FLOAT, INT)
        cur().assume(LOWER(self.i) < UPPER(self.i))
        if k == INT:
            cur().assume(z3.And(z3.IsInt(LOWER(self.i)), z3.IsInt(UPPER(self.i))))
        return SymNum(f(self.i) if k == FLOAT else z3.ToInt(f(self.i)), "float" if k == FLOAT else "int")

    lower = property(lambda self: self.bound(LOWER))
    upper = property(lambda self: self.bound(UPPER))

    def grid(self, *, size, include_endpoint=True):
        """By the contracts of NumericalParameter.grid and normalized_to_value: `size` legal values of the declared type."""
        k = self.kind()
        self.only(FLOAT, INT)
        s = lift_num(size)
        return Vals(self.i, s.z, include_endpoint, "int" if k == INT else "float", [])


class Options(rt.SymSeq):
    """The choices of categorical i."""
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i
        n = z3.Function("choices_of.n", I, I)
        f = z3.Function("choices_of", I, I, V)
        super().__init__(rt.Coll("choices", n(i)), lambda j: SymVal(f(i, j), object))

    def __vc_subst__(self, frm, to):
        return Options(z3.substitute(self.i, (frm, to)))

    def copy(self):
        return Options(self.i)


class Vals(Ghost):
    """Numbers computed from the grid of hyperparameter i, element by element; an array, a list or the different ones of them."""

    def __init__(self, i, n, endpoint, kind, ops):
        self.i, self.n, self.endpoint, self.kind, self.ops = i, n, endpoint, kind, ops

    def __vc_subst__(self, frm, to):
        def sub(o):
            return tuple(rt.subst(x, frm, to) for x in o)
        return Vals(z3.substitute(self.i, (frm, to)), z3.substitute(self.n, (frm, to)), self.endpoint, self.kind, [sub(o) for o in self.ops])

    def then(self, *op, kind=None):
        return Vals(self.i, self.n, self.endpoint, kind or self.kind, [*self.ops, op])

    def astype(self, t, **k):
        if t in (numpy.float64, float):
            return self.then("float", kind="float")
        if t in (numpy.int64, int):
            return self.then("int", kind="int")
        raise Unsupported("conversion to another type")

    def tolist(self):
        return self

    copy = tolist

    def at(self, j):
        """(value, its kind) computed from the j-th value of the grid."""
        raw = RAW(self.i, j)
        cur().assume(z3.And(raw >= LOWER(self.i), raw <= UPPER(self.i), LOWER(self.i) < UPPER(self.i)))
        v = SymNum(raw, "float")
        for op, *a in self.ops:
            if op == "clip":
                lo, hi = [values.to_float(lift_num(x)) for x in a]
                v = SymNum(z3.If(v.z < lo.z, lo.z, z3.If(v.z > hi.z, hi.z, v.z)), "float")
            elif op == "int":
                v = values.to_float(values.to_int(v))
        return v

    def distinct(self):
        """Since the values were last changed, equal ones were dropped."""
        last = max((k for k, o in enumerate(self.ops) if o[0] == "unique"), default=None)
        return last is not None and all(o[0] in ("float",) for o in self.ops[last + 1:])


class NP(Ghost):
    float64, int64 = numpy.float64, numpy.int64

    @staticmethod
    def clip(x, a, b):
        if not isinstance(x, Vals):
            raise Unsupported("clip")
        return x.then("clip", a, b)

    @staticmethod
    def asarray(x, dtype=None):
        if not isinstance(x, Vals):
            raise Unsupported("array")
        return x if dtype is None else x.astype(dtype)

    array = asarray

    @staticmethod
    def unique(x):
        if not isinstance(x, Vals):
            raise Unsupported("unique")
        return x.then("unique")

    @staticmethod
    def rint(x):
        raise Unsupported("rint of the grid")

    round = rint

    def __getattr__(self, n):
        raise Unsupported(f"np.{n}")


class Combo(rt.SymSeq):
    """Combination q: one value for each hyperparameter."""
    __slots__ = ("q",)

    def __init__(self, co, q):
        self.q = q
        super().__init__(co, lambda i: SymVal(PLACE(q, i), object))

    def __vc_subst__(self, frm, to):
        return Combo(self.coll, z3.substitute(self.q, (frm, to)))


class Config(Ghost):
    """A configuration made from a mapping name -> constant."""

    def __init__(self, m, subs=()):
        self.m, self.subs = m, subs

    def __vc_subst__(self, frm, to):
        return Config(self.m, (*self.subs, (frm, to)))

    def entry(self, i):
        x = (self.m.key(i), self.m.elem(i).value)
        for frm, to in self.subs:
            x = rt.subst(x, frm, to)
        return x


class Const(Ghost):
    def __init__(self, value, *, is_fidelity=False):
        self.value = value

    def __vc_subst__(self, frm, to):
        return Const(rt.subst(self.value, frm, to))


@contract("C20", "neps.search_spaces.search_space.SearchSpace.get_search_space_grid")
def grid(vc):
    """The grid is the product, over all hyperparameters, of all choices, the constant, or the different values of the numeric grid."""
    p = cur()
    co = rt.Coll("hyperparameters")

    def name(i):
        cur().assume(AT(NAME(i)) == i)
        return SymVal(NAME(i), str)
    o = object.__new__(SP.SearchSpace)
    o.hyperparameters = rt.SymMap(co, name, HP, inv=AT)
    size = intval("size")
    vc.assume(size >= 2)
    ends = bool(vc.choose(2, "endpoints"))
    products = []
    combos = rt.Coll("combinations")

    def product(args, kw):
        if kw or len(args) != 1 or not isinstance(args[0][1], rt.SymSeq):
            raise Unsupported("product of something else")
        products.append(rt._full(args[0][1]))
        return rt.SymSeq(combos, lambda q: Combo(co, q))

    def space(args, kw):
        if args or len(kw) != 1 or not isinstance(kw[0][1], rt.SymMap):
            raise Unsupported("configuration made in another way")
        return Config(kw[0][1])
    real = SP.ConstantParameter
    p.state["star"] = [(itertools.product, product), (SP.SearchSpace, space)]
    p.state["reindex"] = [(real, lambda v, frm, to: Const(rt.subst(v.value, frm, to)))]
    with patched(SP, np=NP()):
        st, r = vc.call(o.get_search_space_grid, size_per_numerical_hp=size, include_endpoints=ends)
    g = p.const("graph", I)
    if st == "exc":
        vc.prove(isinstance(r, ValueError) and "graph" in str(r), "a grid can be made unless there are graphs")
        vc.cover("graphs")
        return
    if not isinstance(r, rt.SymSeq):
        if type(r) is list and not r and cur().check(combos.n > 0) == z3.unsat:
            return
        raise Unsupported("grid of another form")
    vc.prove(len(products) == 1 and products[0].coll is co, "one range of values for each hyperparameter, in order")
    if len(products) != 1:
        return
    i = p.const("any hyperparameter", I)
    p.assume(z3.And(i >= 0, i < co.n))
    x = products[0].elem(i)
    k = HP(i).kind()
    if k == GRAPH:
        return vc.fail("a space with graphs has no grid")
    if k == CONST:
        vc.prove(type(x) in (list, tuple) and len(x) == 1 and same(x[0], SymVal(VALUE(i), object)), "a constant has its value")
    elif k == CAT:
        if not isinstance(x, Options):
            raise Unsupported("choices of another form") if isinstance(x, rt.SymSeq) else None
        vc.prove(isinstance(x, Options) and SymBool(x.i == i), "a categorical has all its choices")
    else:
        if not isinstance(x, Vals):
            raise Unsupported("values of another form")
        vc.prove(SymBool(x.i == i) & SymBool(x.n == size.z) & (x.endpoint is ends), "its own grid, of the size and with the ends asked for")
        vc.prove(x.distinct(), "no value occurs twice")
        j = p.const("any value", I)
        p.assume(z3.And(j >= 0, j < size.z))
        if k == INT:
            p.assume(z3.And(z3.IsInt(RAW(i, j)), z3.IsInt(LOWER(i)), z3.IsInt(UPPER(i))))
        v = x.at(j)
        vc.prove(SymBool(v.z == RAW(i, j)), "each value of the grid is among them")
        vc.prove(x.kind == ("int" if k == INT else "float"), "whole numbers for integers, reals for floats")
    # the configurations
    c = rt._full(r)
    vc.prove(c.coll is combos, "a configuration for each combination")
    if c.coll is not combos:
        return
    q = p.const("any combination", I)
    p.assume(z3.And(q >= 0, q < combos.n))
    e = c.elem(q)
    if not isinstance(e, Config):
        raise Unsupported("configurations of another form")
    m = e.m
    vc.prove(m.coll.n.eq(co.n) and SymBool(m.guard(i)), "a value for each hyperparameter")
    nm, v = e.entry(i)
    vc.prove(And(same(nm, SymVal(NAME(i), str)), same(v, SymVal(PLACE(q, i), object))), "each hyperparameter has its own value of the combination")
    vc.cover(("float", "int", "categorical", "constant")[k])


@contract("C20", "neps.search_spaces.hyperparameters.numerical.NumericalParameter.grid")
def numeric_grid(vc):
    """`size` values at evenly spaced places of the unit interval, by contract of normalized_to_value."""
    PL = z3.Function("lifted", z3.RealSort(), z3.RealSort())

    class H(Ghost):
        grid = N.NumericalParameter.grid

        def normalized_to_value(self, x):
            return SymNum(PL(lift_num(x).z), "float")
    ends = bool(vc.choose(2, "endpoint"))
    size = intval("size")
    vc.assume(size >= 2)

    class Np(Ghost):
        @staticmethod
        def linspace(start, stop, num=50, endpoint=True, **k):
            if k or is_sym(start) or is_sym(stop) or not isinstance(endpoint, bool):
                raise Unsupported("linspace")
            n = lift_num(num).z
            d = z3.ToReal(n - 1 if endpoint else n)
            return rt.SymSeq(rt.Coll("linspace", n), lambda i: SymNum(start + (stop - start) * z3.ToReal(i) / d, "float"))
    with patched(N, np=Np()):
        st, r = vc.call(H().grid, size=size, include_endpoint=ends)
    if st != "ok":
        return vc.fail("a numeric hyperparameter has a grid", repr(r))
    x = rt._full(r)
    vc.prove(SymBool(x.coll.n == size.z), "as many values as asked for")
    i = cur().const("any", I)
    cur().assume(z3.And(i >= 0, i < size.z))
    d = z3.ToReal(size.z - 1 if ends else size.z)
    vc.prove(SymBool(x.elem(i).z == PL(z3.ToReal(i) / d)), "at evenly spaced places of the unit interval")
    vc.cover("ends" if ends else "open")


@contract("C20", "neps.search_spaces.hyperparameters.float.FloatParameter.normalized_to_value",
          "neps.search_spaces.hyperparameters.integer.IntegerParameter.normalized_to_value")
def ends(vc):
    """0 is lifted to the lower bound and 1 to the upper one (log scales: given that exp inverts log)."""
    with hpkit.env():
        kind = ("float", "int")[vc.choose(2, "kind")]
        hp, lo, hi = hpkit.numeric(vc, kind, fidelity=False)
        f = hp if kind == "float" else hp.float_hp
        if f.log:
            a, b = f.log_bounds
            vc.assume(And(values.exp(a) == f.lower, values.exp(b) == f.upper))
        for x, want in ((0.0, lo), (1.0, hi)):
            st, v = vc.call(hp.normalized_to_value, x)
            vc.prove(st == "ok" and And(same(v, want)), "the ends of the unit interval are the bounds")
        vc.cover(kind + (" log" if f.log else ""))


@contract("C20", "neps.state.neps_state.NePSState.sample_trial", "neps.state.trial.Trial.new")
def shown(vc):
    """The search is asked with all stored trials and its proposal stored before another worker may ask."""
    sample_trial_contract(vc)
