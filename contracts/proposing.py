"""Rungs of a bracket, arrays of evaluations, and the proposal made from them: shared by C14 and C15."""
from pyvc.core import Unsupported, cur
from pyvc.rt import Coll, SymMap, _affine
from pyvc.stubs import Ghost, owns, patched
from pyvc.values import And, Implies, Not, Or, SymBool, SymNum, concat, intval, lift_num
from pyvc.z3load import z3
from contracts.mfkit import is_number

import neps.optimizers.multi_fidelity.successive_halving as SH

I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()
COUNT = z3.Function("members", I, I)              # how many members a rung has
MEM = z3.Function("member", I, I, I)              # the id of a rung's k-th member
POS = z3.Function("position", I, I, I)            # and its inverse
PERF = z3.Function("performance", I, I, R)
NAN = z3.Function("unfinished", I, I, B)


class Arr(Ghost):
    """A NumPy array of ids, performances, positions or truth values, of unknown length."""

    def __init__(self, n, at, kind, tag=None):
        self.n = z3.simplify(n)
        self.at = at                # index -> z3 term (for performances: value and whether it is NaN)
        self.kind = kind
        self.tag = tag              # what makes two arrays the same
        cur().assume(self.n >= 0)

    def vc_len(self):
        return SymNum(self.n, "int")

    def __len__(self):
        raise Unsupported("len of an array outside instrumented code")

    @property
    def size(self):
        return self.vc_len()

    @property
    def shape(self):
        return (self.vc_len(),)

    def _same(self, *a, **k):
        return self

    tolist = copy = astype = flatten = ravel = _same

    def argsort(self, *a, **k):
        return NP.argsort(self, *a, **k)

    def sum(self):
        return NP.sum(self)

    def any(self):
        return bool(NP.sum(self) > 0)

    def all(self):
        return bool(NP.sum(~self) == 0)

    def __invert__(self):
        if self.kind != "bool":
            raise Unsupported("~ of an array of numbers")
        return Arr(self.n, lambda i: z3.Not(self.at(i)), "bool", ("not", self.tag))

    def __neg__(self):
        if self.kind != "perf":
            raise Unsupported("- of an array")

        def at(i):
            v, nan = self.at(i)
            return -v, nan
        return Arr(self.n, at, "perf", ("neg", self.tag))

    def __bool__(self):
        raise Unsupported("truth of an array")

    def __getitem__(self, k):
        n = self.n
        if isinstance(k, slice):
            if k.step not in (None, 1, -1) or k.step == -1 and (k.start is not None or k.stop is not None):
                raise Unsupported("array slice with a step")
            if k.step == -1:
                return Arr(n, lambda i: self.at(n - 1 - i), self.kind)

            def bound(x, default):
                if x is None:
                    return default
                x = lift_num(x).z
                return z3.If(x < 0, z3.If(n + x > 0, n + x, 0), z3.If(x < n, x, n))
            a, b = bound(k.start, z3.IntVal(0)), bound(k.stop, n)
            return Arr(z3.If(b > a, b - a, 0), lambda i: self.at(i + a), self.kind)
        if isinstance(k, Arr) and k.kind == "pos":
            return Arr(k.n, lambda i: self.at(k.at(i)), self.kind)
        if is_number(k):
            k = lift_num(k).z
            cur().fork(z3.And(k < n, k >= -n)) or _raise(IndexError())
            v = self.at(z3.If(k < 0, n + k, k))
            if self.kind == "perf":
                return SymNum(v[0], "float", v[1])
            return SymBool(v) if self.kind == "bool" else SymNum(v, "int")
        raise Unsupported("array index")


def _raise(e):
    raise e


class GNP(Ghost):
    """NumPy, as far as promotions need it: argsort sorts ascending with NaN behind everything else."""
    nan = float("nan")
    inf = float("inf")

    def argsort(self, a, axis=-1, kind=None, stable=None):
        if not isinstance(a, Arr) or a.kind != "perf":
            raise Unsupported("argsort of something else")
        p = cur()
        n = a.n
        for tag, s in p.state.setdefault("sorts", []):
            if tag is not None and tag == a.tag:
                return s
        sig, inv = z3.Function(p.name("order"), I, I), z3.Function(p.name("rank"), I, I)
        seen = []

        def at(j):
            j = z3.simplify(j)
            if not any(x.eq(j) for x in seen):
                ok = z3.And(j >= 0, j < n)
                p.assume(z3.Implies(ok, z3.And(sig(j) >= 0, sig(j) < n, inv(sig(j)) == j)))
                for x in seen:
                    for lo, hi in ((x, j), (j, x)):
                        (v, vn), (w, wn) = a.at(sig(lo)), a.at(sig(hi))
                        p.assume(z3.Implies(z3.And(ok, x >= 0, x < n, lo < hi), z3.And(z3.Implies(vn, wn), z3.Or(wn, v <= w))))
                seen.append(j)
            return sig(j)
        s = Arr(n, at, "pos")

        def rank(v):
            """The place at which position v comes."""
            p.assume(z3.Implies(z3.And(v >= 0, v < n), z3.And(inv(v) >= 0, inv(v) < n, sig(inv(v)) == v)))
            at(inv(v))
            return inv(v)
        s.rank = rank
        p.state["sorts"].append((a.tag, s))
        return s

    def isnan(self, a):
        if not isinstance(a, Arr) or a.kind != "perf":
            raise Unsupported("isnan of something else")
        return Arr(a.n, lambda i: a.at(i)[1], "bool", ("isnan", a.tag))

    def sum(self, a):
        if not isinstance(a, Arr) or a.kind != "bool":
            raise Unsupported("sum of something else")
        p = cur()
        counts = p.state.setdefault("counts", [])
        for tag, c, _ in counts:
            if a.tag[-1] is not None and tag == a.tag:
                return SymNum(c, "int")
        c, sk = p.const("count", I), p.const("one", I)
        p.assume(z3.And(c >= 0, c <= a.n, z3.Implies(c > 0, z3.And(sk >= 0, sk < a.n, a.at(sk)))))
        counts.append((a.tag, c, a))
        return SymNum(c, "int")

    count_nonzero = sum

    def any(self, a):
        return a.any()

    def all(self, a):
        return a.all()

    def array(self, a, *k, **kw):
        if not isinstance(a, Arr):
            raise Unsupported("array of something else")
        return a

    asarray = array


NP = GNP()


def counted(v):
    """What the counts say about position v."""
    p = cur()
    for _, c, a in p.state.get("counts", ()):
        p.assume(z3.Implies(z3.And(c == 0, v >= 0, v < a.n), z3.Not(a.at(v))))


class Rungs:
    """The rungs lo..top of a bracket and what is evaluated there: arbitrary many rungs and members."""

    def __init__(self, vc, unfinished):
        self.vc = vc
        self.unfinished = unfinished        # may there be unfinished evaluations among the members
        self.seen = []
        self.lo, self.top, self.eta = intval("lowest"), intval("top"), intval("eta")
        vc.assume(And(self.lo >= 0, self.lo <= self.top, self.eta >= 2))
        lo = self.lo.z
        self.coll = Coll("rungs", self.top.z - lo + 1)
        self.checked = []

        def by_rung(f, guard=None):
            return SymMap(self.coll, lambda i: SymNum(i + lo, "int"), lambda i: f(z3.simplify(i + lo)), guard, inv=lambda k: k - lo)
        self.by_rung = by_rung

    def the(self, r):
        """Rungs by number: the same number is the same term."""
        r = z3.simplify(r, som=True)
        for x in self.seen:
            if x.eq(r):
                return x
        self.seen.append(r)
        return r

    def members(self, r):
        r = self.the(r)

        def at(k):
            cur().assume(z3.Implies(z3.And(k >= 0, k < COUNT(r)), POS(r, MEM(r, k)) == k))
            return MEM(r, k)
        return Arr(COUNT(r), at, "id", ("members", r.get_id()))

    def performances(self, r):
        r = self.the(r)
        return Arr(COUNT(r), lambda k: (PERF(r, k), NAN(r, k) if self.unfinished else z3.BoolVal(False)), "perf", ("perf", r.get_id()))

    def stored(self, key, value, quota, when):
        """The promotions of rung `key`: quota is how many there may be."""
        vc, p = self.vc, cur()
        if not is_number(key):
            raise Unsupported("promotions under something that is not a rung")
        r = self.the(lift_num(key).z)
        if type(value) is list and not value:
            n, at = z3.IntVal(0), None
        elif isinstance(value, Arr):
            n, at = value.n, value.at
            if value.kind != "id":
                vc.prove(False, "promotions are members of the rung")
                return
        else:
            raise Unsupported("promotions are not kept in an array")
        vc.prove(SymBool(z3.Or(n == 0, z3.And(r >= self.lo.z, r < self.top.z))), "promotions only from rungs below the top")
        q = quota(r)
        vc.prove(SymBool(z3.Or(n == 0, n <= q)), "no more promotions than the rung's share")
        if at is not None:
            vc.prove(SymBool(z3.Implies(q >= 1, n >= 1)), "a rung with a share left has a promotion")
        for c, name in when(r):
            vc.prove(SymBool(z3.Implies(n > 0, c)), name)
        self.checked.append(r)
        if at is None:
            return
        u, u2, v = p.const("place", I), p.const("place", I), p.const("other", I)
        p.assume(z3.And(u >= 0, u < n, u2 >= 0, u2 < n, u2 != u))
        x = at(u)
        k = POS(r, x)
        # the members of this rung that the code looked at
        vc.prove(SymBool(z3.And(k >= 0, k < COUNT(r), x == MEM(r, k))), "promotions are members of the rung")
        counted(k)
        if self.unfinished:
            vc.prove(SymBool(z3.Not(NAN(r, k))), "promoted evaluations are finished")
        vc.prove(SymBool(at(u2) != x), "no configuration is promoted twice")
        p.assume(z3.And(v >= 0, v < COUNT(r)))
        counted(v)
        places = [s.rank(v) for _, s in p.state.get("sorts", ())]
        for w in places:
            p.assume(z3.Implies(z3.And(w >= 0, w < n), at(w) != MEM(r, v)))
        vc.prove(SymBool(z3.Or(NAN(r, v) if self.unfinished else False, PERF(r, k) <= PERF(r, v))), "promotions are the best of the rung")


CONF = z3.Function("hyperparameters_of", I, I)     # what a stored configuration holds, by id
FID = z3.Function("fidelity_of_rung", I, R)
PN = z3.Function("promotable", I, I)               # how many promotions a rung has
PROM = z3.Function("promotion", I, I, I)
RUNG = z3.Function("rung_of", I, I)                # a configuration is promotable from the highest rung it was evaluated at


class Fidelity(Ghost):
    def __init__(self, conf):
        self.conf = conf

    def set_value(self, v):
        self.conf.at = v


class Conf(Ghost):
    """A configuration: an id for its hyperparameters, and the fidelity it is to run at."""

    def __init__(self, hp, at=None):
        self.hp, self.at = hp, at
        self.fidelity = Fidelity(self)

    def clone(self, *a, **k):
        return Conf(self.hp, self.at)

    copy = clone

    def hp_values(self):
        return Values(self.hp, self.at)

    def __deepcopy__(self, memo):
        return self.clone()


class Values(Ghost):
    def __init__(self, hp, at):
        self.hp, self.at = hp, at


class Row(Ghost):
    def __init__(self, i):
        self.name = SymNum(i, "int")
        self.config = Conf(CONF(i))

    def __getitem__(self, k):
        if k == "config":
            return self.config
        raise Unsupported("column of a row")


class Index(Ghost):
    def __init__(self, t):
        self.t = t

    def max(self):
        p = cur()
        if not p.fork(self.t.n > 0):
            return float("nan")
        return SymNum(self.t.n - 1, "int")

    def vc_len(self):
        return SymNum(self.t.n, "int")

    def __getitem__(self, k):
        if type(k) is int and k == -1:
            if not cur().fork(self.t.n > 0):
                raise IndexError()
            return SymNum(self.t.n - 1, "int")
        raise Unsupported("index of the table of observations")


class ByPosition(Ghost):
    def __init__(self, t, labels=False):
        self.t = t

    def __getitem__(self, k):
        if type(k) is tuple and len(k) == 2 and is_number(k[0]):
            return Row(self.t.row(k[0]))[k[1]]
        if not is_number(k):
            raise Unsupported("rows of the table of observations")
        return Row(self.t.row(k))


class Table(Ghost):
    """The observations, one row per configuration id 0..n-1 (ids are given out one after the other: see new_ids)."""

    def __init__(self, n):
        self.n = n
        self.index = Index(self)
        self.iloc = self.loc = self.at = ByPosition(self)

    def row(self, k):
        k = lift_num(k).z
        if not cur().fork(z3.And(k >= 0, k < self.n)):
            raise Unsupported("row outside the table")
        return z3.simplify(k)

    def vc_len(self):
        return SymNum(self.n, "int")

    @property
    def empty(self):
        return self.vc_len() == 0


class Sampler(Ghost):
    """Search space, or a policy: makes new configurations."""

    def __init__(self, name):
        self.name = name

    def sample(self, *a, **k):
        return Conf(cur().const(self.name + ".sampled", I))

    def sample_default_configuration(self, *a, **k):
        return Conf(self.default)


class Dice(Ghost):
    def random(self):
        x = cur().const("dice", R)
        cur().assume(z3.And(x >= 0, x < 1))
        return SymNum(x, "float")

    uniform = None


class Quiet(Ghost):
    def _(self, *a, **k):
        pass
    info = debug = warning = error = _


def flag(vc, name):
    return bool(vc.choose(2, name))


def proposal(vc):
    p = cur()
    g = Rungs(vc, True)
    lo, top = g.lo.z, g.top.z
    o = object.__new__(SH.SuccessiveHalvingBase)
    n = p.const("trials", I)
    p.assume(n >= 0)
    space, policy = Sampler("space"), Sampler("policy")
    space.default = p.const("default", I)

    def at(r):
        r = g.the(r)

        def el(k):
            x = PROM(r, k)
            p.assume(z3.Implies(z3.And(k >= 0, k < PN(r)), z3.And(x >= 0, x < n, RUNG(x) == r)))
            return x
        return Arr(PN(r), el, "id")

    def fid(r):
        return SymNum(FID(g.the(r)), "float")
    o.min_rung, o.max_rung, o.eta = g.lo, g.top, g.eta
    o.rung_map, o.rung_promotions = g.by_rung(fid), g.by_rung(at)
    o.fidelities = None
    o.observed_configs = Table(n)
    o.pipeline_space = space
    o.sampling_policy = policy if flag(vc, "policy") else None
    o.sampling_args = {}
    o.patience = 100
    prior, first, target = flag(vc, "priors"), flag(vc, "default first"), flag(vc, "default at target")
    o.use_priors, o.sample_default_first, o.sample_default_at_target = prior, first, target
    o.random_interleave_prob = intval("interleave")
    vc.assume(And(o.random_interleave_prob >= 0, o.random_interleave_prob <= 1))

    def passed(loop, i):
        x = loop.elem(i)
        if not is_number(x):
            return None
        r = lift_num(x).z
        return z3.Implies(z3.And(r >= lo, r < top), PN(r) <= 0)
    p.state["loop_post"] = passed

    def none_at(r):
        """What the search for promotions has found out about rung r."""
        for loop, bound, h in p.state.get("past", ()):
            inv = _affine(loop.elem)
            if inv is not None:
                j = inv(r)
                c = h(loop, j)
                p.assume(z3.Implies(z3.And(j >= 0, j < bound, loop.guard(j)), c))
    dice = Dice()
    with patched(SH, random=dice, logger=Quiet()):
        st, out = vc.call(o.get_config_and_ids)
    if st == "exc":
        return vc.fail("there is a proposal", repr(out))
    if not (type(out) is tuple and len(out) == 3):
        raise Unsupported("a proposal of another form")
    conf, name, before = out
    if not isinstance(conf, Values):
        raise Unsupported("a configuration of another form")
    if conf.at is None:
        vc.prove(False, "the fidelity of a proposal is set")
        return
    rules = owns("C14")
    other = p.const("rung", I)
    p.assume(z3.And(other >= lo, other < top))
    p.assume(PN(other) >= 0)
    none_at(other)
    if before is not None:
        # hyperparameters stem from a stored configuration: which
        src = _args_of(conf.hp, "hyperparameters_of")
        if rules:
            vc.prove(len(src) == 1, "a promotion takes over the hyperparameters of an evaluated configuration")
        if len(src) != 1:
            return
        i = src[0]
        r = RUNG(i)
        p.assume(z3.And(r >= lo, r <= top))
        named = name == concat([SymNum(i, "int"), "_", SymNum(r + 1, "int")])
        right = conf.at == SymNum(FID(r + 1), "float")
        if not rules:
            vc.prove(conf.at == SymNum(FID(rung_in(name)), "float"), "a promotion runs at the fidelity of the rung in its id")
        else:
            vc.prove(SymBool(r < top), "promotions come from a rung below the top")
            vc.prove(before == concat([SymNum(i, "int"), "_", SymNum(r, "int")]), "the predecessor is the evaluation at the rung below")
            vc.prove(named, "a promotion runs exactly one rung higher")
            vc.prove(right, "a promotion runs at the fidelity of its rung")
            vc.prove(SymBool(z3.Or(i == PROM(r, 0), i == PROM(r, PN(r) - 1))), "only what the rule selected is promoted")
            vc.prove(SymBool(PN(r) > 0), "only rungs with promotions are promoted from")
            vc.prove(SymBool(z3.Or(other <= r, PN(other) == 0)), "the highest rung with a promotion comes first")
        vc.cover("promotion")
        return
    if rules:
        vc.prove(SymBool(PN(other) == 0), "a promotion that is due comes before a new configuration")
    # named after a fresh number and the rung it runs at
    if not rules:
        vc.prove(conf.at == SymNum(FID(rung_in(name)), "float"), "a new configuration runs at the fidelity of the rung in its id")
        vc.cover("new")
        return
    start = And(prior, first, SymBool(n == 0))
    number = "0" if p.fork(n == 0) else SymNum(n, "int")
    for c, r in ((And(start, target), top), (Not(And(start, target)), lo)):
        named = name == concat([number, "_", SymNum(r, "int")])
        right = conf.at == SymNum(FID(r), "float")
        vc.prove(Implies(c, And(named, right)), "a new configuration gets the next number and starts at its rung's fidelity")
    vc.prove(Implies(start, SymBool(conf.hp == space.default)), "the default comes first where asked for")
    vc.cover("new")


def _args_of(t, f):
    return [t.arg(0)] if z3.is_app(t) and t.decl().name() == f else []


def rung_in(name):
    """The number after the underscore of an id."""
    z = getattr(name, "z", None)
    if z is not None and z.num_args() == 2 and z.decl().name() == "concat" and z.arg(1).decl().name() == "str_of_int":
        return z.arg(1).arg(0)
    raise Unsupported("an id of another form")
