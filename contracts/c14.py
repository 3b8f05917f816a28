"""C14 successive halving promotes only the best evaluated configurations."""
# instrument: neps.optimizers.multi_fidelity.promotion_policy neps.optimizers.multi_fidelity.successive_halving neps.optimizers.multi_fidelity.hyperband neps.optimizers.base_optimizer
from pyvc.contract import contract
from pyvc.core import Unsupported, cur
from pyvc.rt import Coll, SymMap, SymSeq, _affine
from pyvc.stubs import Ghost, patched
from pyvc.values import And, Implies, Not, Or, SymBool, SymNum, intval, is_sym, lift_num, str_of_int
from pyvc import values
from pyvc.z3load import z3
from contracts.mfkit import is_number, known
from contracts.proposing import COUNT, I, NP, Arr, Rungs, proposal

import neps.optimizers.multi_fidelity.promotion_policy as PP
import neps.optimizers.multi_fidelity.successive_halving as SH

class Kept(Ghost):
    """A policy's own record of promotions, from earlier calls."""

    def __init__(self, on):
        self.on = on

    def __setitem__(self, k, v):
        self.on(k, v)


def all_rungs(g, loop):
    """The loop comes by every rung below the top."""
    p = cur()
    inv = _affine(loop.elem)
    if inv is None:
        raise Unsupported("loop over something else than rungs")
    r = p.const("rung", I)
    j = inv(r)
    g.vc.prove(SymBool(z3.Implies(z3.And(r >= g.lo.z, r < g.top.z), z3.And(j >= 0, j < loop.coll.n, loop.guard(j)))),
               "every rung below the top is considered")


def mapping_of(out, policy, rungs, check):
    """Promotions that a mapping built on the way holds."""
    if isinstance(out, SymMap):
        p = cur()
        i = p.const("any", I)
        p.assume(z3.And(i >= 0, i < out.coll.n, out.guard(i)))
        known(out.coll, i)
        check(out.key(i), out.elem(i))


@contract("C14", "neps.optimizers.multi_fidelity.promotion_policy.AsyncPromotionPolicy.retrieve_promotions",
          "neps.optimizers.multi_fidelity.promotion_policy.PromotionPolicy.set_state")
def asynchronous(vc):
    p = cur()
    p.state["abstract"] = True
    g = Rungs(vc, False)       # unfinished evaluations are left out of the rungs: contract of _get_rungs_state
    st, pol = vc.call(PP.AsyncPromotionPolicy, g.eta)
    if st == "exc":
        return vc.fail("a policy is made", repr(pol))

    def quota(r):
        q = (SymNum(COUNT(r), "int") // g.eta).z
        return q

    def check(k, v):
        g.stored(k, v, quota, lambda r: ())

    p.state["map_store"] = lambda m, k, v: check(k, v)

    def anew(loop):
        x = loop.elem(loop.index)
        if is_number(x) and stored_into:
            r = lift_num(x).z
            all_rungs(g, loop)
            vc.prove(SymBool(z3.Or(r < g.lo.z, r >= g.top.z, *[c == r for c in g.checked])), "every rung's promotions are determined anew")
    stored_into = []
    p.state["loop_end"] = anew
    with patched(PP, np=NP):
        st, e = vc.call(pol.set_state, max_rung=g.top, members=g.by_rung(g.members), performances=g.by_rung(g.performances), config_map={})
        if st == "exc":
            return vc.fail("the state is taken over", repr(e))
        pol.rung_promotions = kept = Kept(check)
        stored_into.append(kept)
        st, out = vc.call(pol.retrieve_promotions)
    if st == "exc":
        return vc.fail("promotions are found", repr(out))
    if out is not kept:
        if not isinstance(out, SymMap):
            raise Unsupported("promotions are not returned in a mapping")
        mapping_of(out, pol, g, check)
    vc.cover("promotions")


TOTAL = z3.Function("total", I, I)                # members of a rung and of those above
PLAN = z3.Function("planned", I, I)               # configurations planned for a rung


@contract("C14", "neps.optimizers.multi_fidelity.promotion_policy.SyncPromotionPolicy.retrieve_promotions",
          "neps.optimizers.multi_fidelity.promotion_policy.SyncPromotionPolicy.set_state")
def synchronous(vc):
    p = cur()
    p.state["abstract"] = True
    g = Rungs(vc, True)
    lo, top = g.lo.z, g.top.z
    st, pol = vc.call(PP.SyncPromotionPolicy, g.eta)
    if st == "exc":
        return vc.fail("a policy is made", repr(pol))

    def share(r):
        q = SymNum(PLAN(r), "int") // g.eta
        return q.z

    def rung(r):
        """A bracket never holds more than planned, above any rung; plans shrink by the factor (C15)."""
        ok = z3.And(r >= lo, r <= top)
        p.assume(z3.Implies(ok, z3.And(TOTAL(r) == TOTAL(r + 1) + COUNT(r), TOTAL(r) <= PLAN(r), TOTAL(r + 1) >= 0, COUNT(r) >= 0,
                                       PLAN(r) >= 1, TOTAL(top + 1) == 0)))
        p.assume(z3.Implies(z3.And(ok, r < top), z3.And(PLAN(r + 1) == share(r), TOTAL(r + 1) <= PLAN(r + 1))))

    def plan(r):
        rung(r)
        return SymNum(PLAN(r), "int")

    def check(k, v):
        if is_number(k):
            rung(lift_num(k).z)
        g.stored(k, v, lambda r: z3.If(z3.And(TOTAL(r) >= PLAN(r), NONE(r)), share(r) - TOTAL(r + 1), z3.IntVal(0)),
                 lambda r: [(TOTAL(r) >= PLAN(r), "only once enough of the bracket is evaluated"),
                            (TOTAL(r + 1) + lift_num(v.vc_len() if isinstance(v, Arr) else 0).z <= PLAN(r + 1), "the next rung keeps to its plan")])

    def NONE(r):
        # no evaluation of the rung is unfinished
        if not isinstance(r, z3.ArithRef):
            raise Unsupported("rung")
        a = g.performances(r)
        return (NP.sum(NP.isnan(a)) == 0).z
    p.state["map_store"] = lambda m, k, v: check(k, v)
    p.state["recur"] = lambda loop, n, v: True
    p.state["loop_invariant"] = lambda loop, i, vals: [(f"{n} counts the evaluations of the rungs above",
                                                        SymBool(x.z == TOTAL(above(loop, i)))) for n, x in vals.items()]

    def above(loop, i):
        x = loop.elem(i)
        if not is_number(x):
            raise Unsupported("loop over something else than rungs")
        r = lift_num(x).z + 1
        rung(r - 1)
        return r

    def through(loop):
        x = loop.elem(loop.index)
        if is_number(x):
            r = lift_num(x).z
            rung(r)
            all_rungs(g, loop)
            due = z3.And(r >= lo, r < top, TOTAL(r) >= PLAN(r), NONE(r), share(r) > TOTAL(r + 1))
            vc.prove(SymBool(z3.Or(z3.Not(due), *[c == r for c in g.checked])), "a promotion that is due is found")
    with patched(PP, np=NP):
        st, e = vc.call(pol.set_state, max_rung=g.top, members=g.by_rung(g.members), performances=g.by_rung(g.performances),
                        config_map=g.by_rung(plan))
        if st == "exc":
            return vc.fail("the state is taken over", repr(e))
        p.state["loop_end"] = lambda loop: through(loop) if loop.rec else None
        st, out = vc.call(pol.retrieve_promotions)
    if st == "exc":
        return vc.fail("promotions are found", repr(out))
    if out is not pol.rung_promotions and not isinstance(out, SymMap):
        raise Unsupported("promotions are not returned in a mapping")
    mapping_of(out, pol, g, check)
    vc.cover("promotions")


contract("C14", "neps.optimizers.multi_fidelity.successive_halving.SuccessiveHalvingBase.get_config_and_ids",
          "neps.optimizers.multi_fidelity.successive_halving.SuccessiveHalvingBase.is_promotable",
          "neps.optimizers.multi_fidelity.successive_halving.SuccessiveHalvingBase.sample_new_config",
          "neps.optimizers.multi_fidelity.successive_halving.SuccessiveHalvingBase._generate_new_config_id")(proposal)


CID = z3.Function("id_at", I, I)                   # the table of observations, by position
CRUNG = z3.Function("rung_at", I, I)
UNFIN = z3.Function("unfinished_at", I, z3.BoolSort())


class Frame(Ghost):
    """A table of observations: the rows (by position) for which `has` holds."""

    def __init__(self, n, has):
        self.n, self.has = n, has

    def copy(self, *a, **k):
        return self

    def dropna(self, axis=0, how="any", inplace=False, **k):
        if inplace or axis != 0 or how != "any" or k:
            raise Unsupported("dropna in another way")
        return Frame(self.n, lambda i: z3.And(self.has(i), z3.Not(UNFIN(i))))

    def drop(self, labels=None, *, index=None, inplace=False, **k):
        x = index if index is not None else labels
        if inplace or k or type(x) is not int:
            raise Unsupported("drop in another way")
        return Frame(self.n, lambda i: z3.And(self.has(i), CID(i) != x))

    def __getitem__(self, k):
        if isinstance(k, Which):
            return Frame(self.n, lambda i: z3.And(self.has(i), k.cond(i)))
        if type(k) is str:
            return self.column(k)
        raise Unsupported("part of the table")

    def column(self, name):
        if name not in ("rung", "perf", "config"):
            raise Unsupported("column of the table")
        return Column(self, name)

    rung = property(lambda self: self.column("rung"))
    perf = property(lambda self: self.column("perf"))
    config = property(lambda self: self.column("config"))
    index = property(lambda self: Column(self, "id"))

    @property
    def loc(self):
        return self

    def vc_len(self):
        raise Unsupported("length of a filtered table")


class Which(Ghost):
    def __init__(self, cond):
        self.cond = cond

    @property
    def values(self):
        return self


class Column(Ghost):
    def __init__(self, frame, name, chosen=None):
        self.frame, self.name, self.chosen = frame, name, chosen

    def __eq__(self, v):
        if self.name != "rung" or not is_number(v):
            raise Unsupported("comparison of a column")
        v = lift_num(v).z
        return Which(lambda i: CRUNG(i) == v)

    __hash__ = None

    def __getitem__(self, k):
        if not isinstance(k, Which):
            raise Unsupported("part of a column")
        return Column(self.frame, self.name, k.cond)

    @property
    def values(self):
        return self

    def _same(self, *a, **k):
        return self
    to_numpy = tolist = copy = _same

    def __contains__(self, v):
        if self.name != "id" or type(v) is not int or self.chosen is not None:
            raise Unsupported("membership in a column")
        p = cur()
        i = p.const("where", I)
        here = z3.And(i >= 0, i < self.frame.n, self.frame.has(i), CID(i) == v)
        if p.fork(p.const("contains", z3.BoolSort())):
            p.assume(here)
            return True
        # rows are told apart by their id: only one could have it
        w = self.frame.where(v)
        p.assume(z3.Not(z3.And(w >= 0, w < self.frame.n, self.frame.has(w), CID(w) == v)))
        p.state.setdefault("absent", []).append((self.frame, v))
        return False

    def unique(self):
        if self.name != "rung" or self.chosen is not None:
            raise Unsupported("unique of a column")
        p = cur()
        f = self.frame
        u, at, w = (z3.Function(p.name(x), I, I) for x in ("unique", "index_of_rung", "witness"))
        c = Coll("different rungs")
        ok = lambda i: z3.And(i >= 0, i < c.n)
        c.facts.append(lambda i: z3.Implies(ok(i), z3.And(w(i) >= 0, w(i) < f.n, f.has(w(i)), CRUNG(w(i)) == u(i), at(u(i)) == i)))
        s = SymSeq(c, lambda i: SymNum(u(i), "int"))
        p.state.setdefault("uniques", []).append((c, f, lambda k: z3.Implies(f.has(k), z3.And(ok(at(CRUNG(k))), u(at(CRUNG(k))) == CRUNG(k))), lambda k: at(CRUNG(k))))
        return s


def where(self, v):
    return z3.Function("row_of", I, I)(z3.IntVal(v))


Frame.where = where


@contract("C14", "neps.optimizers.multi_fidelity.successive_halving.SuccessiveHalvingBase._get_rungs_state",
          "neps.optimizers.multi_fidelity.successive_halving.SuccessiveHalvingBase.clean_rung_information")
def rung_state(vc):
    p = cur()
    g = Rungs(vc, True)
    lo, top = g.lo.z, g.top.z
    o = object.__new__(SH.SuccessiveHalvingBase)
    n = p.const("rows", I)
    p.assume(n >= 0)
    whole = Frame(n, lambda i: z3.BoolVal(True))
    given = bool(vc.choose(2, "a bracket's observations"))
    part = z3.Function("of_the_bracket", I, z3.BoolSort())
    arg = Frame(n, lambda i: part(i)) if given else None
    first, target = bool(vc.choose(2, "default first")), bool(vc.choose(2, "default at target"))
    o.min_rung, o.max_rung = g.lo, g.top
    o.sample_default_first, o.sample_default_at_target = first, target
    o.rung_map = g.by_rung(lambda r: SymNum(r, "int"))
    o.observed_configs = whole
    stale = Kept(lambda k, v: vc.prove(False, "rung members of earlier proposals are gone"))
    o.rung_members = o.rung_members_performance = o.rung_promotions = stale
    rows = {}

    def wanted(i):
        c = part(i) if given else z3.Not(UNFIN(i))
        return z3.And(c, CID(i) != 0) if first and target else c
    stores = []

    def store(m, k, v):
        if not is_number(k):
            raise Unsupported("members under something that is not a rung")
        r = lift_num(k).z
        what = "id" if m is o.rung_members else "perf" if m is o.rung_members_performance else None
        stores.append((m, r))
        if type(v) is list and not v:
            return
        if what is None:
            raise Unsupported("another mapping by rung")
        if not isinstance(v, Column):
            raise Unsupported("members of another form")
        i = p_row()
        vc.prove(v.name == what, "members are ids, performances are performances")
        sel = z3.And(v.frame.has(i), v.chosen(i) if v.chosen is not None else True)
        vc.prove(SymBool(sel == z3.And(wanted(i), CRUNG(i) == r)), "a rung's members are the configurations last evaluated there")

    def p_row():
        q = cur()
        i = q.const("row", I)
        q.assume(z3.And(i >= 0, i < n, CRUNG(i) >= lo, CRUNG(i) <= top))
        # ids tell rows apart
        for f, v in q.state.get("absent", ()):
            w = f.where(v)
            q.assume(z3.Implies(CID(i) == v, w == i))
        for c, f, fact, at in q.state.get("uniques", ()):
            q.assume(fact(i))
        return i

    def end(loop):
        q = cur()
        x = loop.elem(loop.index)
        if not stores or not is_number(x):
            return
        r = lift_num(x).z
        for m, name in ((o.rung_members, "members"), (o.rung_members_performance, "performances")):
            vc.prove(SymBool(z3.Or(*[z for m2, z in [(m2, r2 == r) for m2, r2 in stores] if m2 is m])), f"every rung that comes by gets its {name}")
        i = p_row()
        q.assume(wanted(i))
        for c, f, fact, at in q.state.get("uniques", ()):
            if c is loop.coll:
                j = at(i)
                break
        else:
            inv = _affine(loop.elem)
            if inv is None:
                raise Unsupported("loop over something else than rungs")
            j = inv(CRUNG(i))
        known(loop.coll, j)
        vc.prove(And(SymBool(z3.And(j >= 0, j < loop.coll.n, loop.guard(j))), loop.elem(j) == SymNum(CRUNG(i), "int")),
                 "every configuration's rung comes by")
    p.state["map_store"] = store
    p.state["loop_end"] = end
    st, out = vc.call(o._get_rungs_state, *([arg] if given else []))
    if st == "exc":
        return vc.fail("observations are sorted by rung", repr(out))
    for m, name in ((o.rung_members, "members"), (o.rung_members_performance, "performances")):
        vc.prove(m is not stale, f"{name} of earlier proposals are gone")
        if m is stale:
            return
        if not isinstance(m, SymMap) or m.inv is None:
            raise Unsupported(f"{name} are not kept in a mapping filled rung by rung")
        r = p.const("rung", I)
        i = m.inv(r)
        known(m.coll, i)
        vc.prove(SymBool(z3.Implies(z3.And(r >= lo, r <= top), z3.And(i >= 0, i < m.coll.n, m.guard(i), m.key(i).z == r))), f"there are {name} for every rung")
        vc.prove(type(m.elem(i)) is list and not m.elem(i), f"a rung nothing was evaluated at has no {name}")
    vc.cover("given" if given else "all")


ID = {k: z3.Function(k + " trial's id", I, I) for k in ("completed", "pending")}
RG = {k: z3.Function(k + " trial's rung", I, I) for k in ("completed", "pending")}
HP = {k: z3.Function(k + " trial's hyperparameters", I, I) for k in ("completed", "pending")}
LOSS = z3.Function("loss_of", I, z3.RealSort())
ERR = z3.Function("failed_of", I, z3.BoolSort())


class TrialId(Ghost):
    """The text `<id>_<rung>`."""

    def __init__(self, i, r):
        self.i, self.r = i, r

    def parts(self):
        return [str_of_int(SymNum(self.i, "int")), str_of_int(SymNum(self.r, "int"))]

    def split(self, sep=None, maxsplit=-1):
        if sep != "_" or maxsplit == 0:
            raise Unsupported("an id is split in another way")
        return self.parts()

    rsplit = split

    def partition(self, sep):
        a, b = self.split(sep)
        return a, sep, b


class Result(Ghost):
    def __init__(self, k, i):
        self.config, self.result = Stored(HP[k](i)), Outcome(i)


class Outcome(Ghost):
    def __init__(self, i):
        self.i = i


class Stored(Ghost):
    def __init__(self, hp):
        self.hp = hp


class State:
    """What the table says about one configuration, whichever."""

    def __init__(self, name):
        c = cur().const
        self.present, self.hp, self.rung, self.perf = c(name + ".present", z3.BoolSort()), c(name + ".hp", I), c(name + ".rung", I), c(name + ".perf", z3.RealSort())
        self.nan, self.inf = c(name + ".unfinished", z3.BoolSort()), c(name + ".inf", z3.BoolSort())

    def copy(self):
        s = object.__new__(State)
        s.__dict__.update(self.__dict__)
        return s

    def when(self, c, **new):
        s = self.copy()
        for k, v in new.items():
            v = z3.BoolVal(v) if type(v) is bool else v
            setattr(s, k, z3.simplify(z3.If(c, v, getattr(s, k))))
        return s


def perf_of(v):
    if isinstance(v, float) and not is_sym(v):
        if v != v:
            return dict(nan=True, inf=False)
        if v == float("inf"):
            return dict(nan=False, inf=True)
    if not is_number(v):
        raise Unsupported("a performance of another kind")
    v = lift_num(v)
    return dict(perf=z3.ToReal(v.z) if v.z.is_int() else v.z, nan=v.nan, inf=False)


class OneRow(Ghost):
    """pd.DataFrame([[config, rung, perf]], columns=..., index=pd.Series(id))"""

    def __init__(self, key, conf, rung, perf):
        if not (is_number(key) and is_number(rung) and isinstance(conf, Stored)):
            raise Unsupported("a row of another form")
        self.key, self.hp, self.rung, self.p = lift_num(key).z, conf.hp, lift_num(rung).z, perf_of(perf)


class Book(Ghost):
    """The table of observations, as far as configuration c is concerned."""
    columns = ("config", "rung", "perf")

    def __init__(self, c, state, others=True):
        self.c, self.s = c, state
        self.none_else = not others

    @property
    def index(self):
        return self

    def __contains__(self, k):
        if not is_number(k):
            raise Unsupported("index of the table")
        k, p = lift_num(k).z, cur()
        if p.fork(k == self.c):
            return p.fork(self.s.present)
        return p.fork(p.const("present", z3.BoolSort()))

    @property
    def empty(self):
        p = cur()
        if p.fork(self.s.present):
            return False
        return self.none_else or p.fork(p.const("empty", z3.BoolSort()))

    def vc_len(self):
        p = cur()
        n = p.const("rows", I)
        p.assume(z3.And(n >= 0, z3.Implies(self.s.present, n >= 1)))
        return SymNum(n, "int")

    @property
    def at(self):
        return self

    loc = at

    def __getitem__(self, k):
        if not (type(k) is tuple and len(k) == 2 and is_number(k[0]) and k[1] in self.columns):
            raise Unsupported("access to the table")
        p = cur()
        if k[1] == "rung":
            return SymNum(z3.If(lift_num(k[0]).z == self.c, self.s.rung, p.const("their rung", I)), "int")
        raise Unsupported("column of the table")

    def __setitem__(self, k, v):
        if not (type(k) is tuple and len(k) == 2 and is_number(k[0]) and k[1] in self.columns):
            raise Unsupported("access to the table")
        here = z3.And(lift_num(k[0]).z == self.c)
        if k[1] == "rung":
            if not is_number(v):
                raise Unsupported("a rung of another kind")
            new = dict(rung=lift_num(v).z)
        elif k[1] == "perf":
            new = perf_of(v)
        else:
            if not isinstance(v, Stored):
                raise Unsupported("a configuration of another kind")
            new = dict(hp=v.hp)
        self.s = self.s.when(here, present=True, **new)

    def with_row(self, row, alone=False):
        here = row.key == self.c
        s = self.s
        if alone:
            s = s.when(z3.Not(here), present=False)
        else:
            OWN[0].prove(SymBool(z3.Not(z3.And(here, s.present))), "one row per configuration")
        return Book(self.c, s.when(here, present=True, hp=row.hp, rung=row.rung, **row.p))

    def sort_index(self, *a, **k):
        return self


OWN = [None]


class PD(Ghost):
    def DataFrame(self, data=None, columns=None, index=None):
        if type(data) is list and len(data) == 1 and len(data[0]) == 3 and tuple(columns if columns is not None else Book.columns) == Book.columns and isinstance(index, (Key, list)):
            return OneRow(index.k if isinstance(index, Key) else index[0], *data[0])
        raise Unsupported("a table of another form")

    def Series(self, k):
        return Key(k)

    def concat(self, both, **k):
        both = list(both)
        if len(both) != 2 or not isinstance(both[0], Book) or not isinstance(both[1], OneRow):
            raise Unsupported("concatenation of other tables")
        return both[0].with_row(both[1])


class Key(Ghost):
    def __init__(self, k):
        self.k = k


class Anywhere(Ghost):
    """Histories by rung: kept for models, not looked at by the promotion rules."""

    def __getitem__(self, k):
        return self

    def append(self, x):
        pass


class Optimizer(Ghost, SH.SuccessiveHalvingBase):
    def __init__(self, book):
        self.__dict__["book"] = book
        self.__dict__["rung_histories"] = Anywhere()

    @property
    def observed_configs(self):
        return self.book

    @observed_configs.setter
    def observed_configs(self, v):
        if isinstance(v, OneRow):
            v = self.book.with_row(v, alone=True)
        if not isinstance(v, Book):
            raise Unsupported("another table of observations")
        self.__dict__["book"] = v

    def get_loss(self, result, *a, **k):
        if not isinstance(result, Outcome):
            raise Unsupported("loss of something else")
        if cur().fork(ERR(result.i)):
            return "error"
        return SymNum(LOSS(result.i), "float")


def trials(kind, value):
    c = Coll(kind)
    return SymMap(c, lambda i: TrialId(ID[kind](i), RG[kind](i)), value)


def carried(vc, o, coll, inv):
    """The table is carried through the loop over `coll`; inv(i, state) is its invariant: what the table says about
    configuration c after the first i trials."""
    p = cur()

    def begin(loop, bound):
        if loop.coll is not coll:
            return
        for name, x in inv(z3.IntVal(0), o.book.s):
            vc.prove(SymBool(x), name)
        s = State("table")
        for name, x in inv(bound, s):
            cur().assume(x)
        o.__dict__["book"] = Book(o.book.c, s)

    def end(loop):
        if loop.coll is not coll:
            return
        for name, x in inv(loop.index + 1, o.book.s):
            vc.prove(SymBool(x), name)
    p.state["loop_begin"], p.state["loop_end"] = begin, end


@contract("C14", "neps.optimizers.multi_fidelity.successive_halving.SuccessiveHalvingBase._load_previous_observations",
          "neps.optimizers.multi_fidelity.successive_halving.SuccessiveHalvingBase._get_config_id_split")
def evaluated(vc):
    p = cur()
    OWN[0] = vc
    c, j = p.const("configuration", I), p.const("trial", I)
    s0 = State("before")
    p.assume(z3.Not(s0.present))
    o = Optimizer(Book(c, s0, others=False))
    m = trials("completed", lambda i: Result("completed", i))
    n = m.coll.n
    p.assume(z3.And(j >= 0, j < n))
    idf, rg, hp = ID["completed"], RG["completed"], HP["completed"]
    source = z3.Function("reported_by", I, I, I)      # trial ids are different: id and rung determine the trial

    def unique(*js):
        for x in js:
            p.assume(source(idf(x), rg(x)) == x)

    def inv(i, s):
        w = source(c, s.rung)
        unique(j)
        return [("the table holds what a trial reported", z3.Implies(s.present, z3.And(w >= 0, w < i, idf(w) == c, rg(w) == s.rung))),
                ("with its hyperparameters", z3.Implies(s.present, s.hp == hp(w))),
                ("and its loss (a failure ranks last)", z3.Implies(s.present, z3.And(z3.Not(s.nan), s.inf == ERR(w), z3.Or(s.inf, s.perf == LOSS(w))))),
                ("at the highest rung it was evaluated at", z3.Implies(z3.And(j < i, idf(j) == c), z3.And(s.present, rg(j) <= s.rung)))]
    carried(vc, o, m.coll, inv)
    b = p.state["loop_begin"]

    def begin(loop, bound):
        b(loop, bound)
        if loop.coll is m.coll:
            unique(bound)
    p.state["loop_begin"] = begin
    with patched(SH, pd=PD()):
        st, e = vc.call(o._load_previous_observations, m)
    if st == "exc":
        return vc.fail("results are taken over", repr(e))
    for name, x in inv(n, o.book.s):
        vc.prove(SymBool(x), name)
    vc.cover("loaded")


@contract("C14", "neps.optimizers.multi_fidelity.successive_halving.SuccessiveHalvingBase._handle_pending_evaluations",
          "neps.optimizers.multi_fidelity.successive_halving.SuccessiveHalvingBase._get_config_id_split")
def pending(vc):
    p = cur()
    OWN[0] = vc
    c = p.const("configuration", I)
    s0 = State("before")
    o = Optimizer(Book(c, s0, others=bool(vc.choose(2, "others"))))
    m = trials("pending", lambda i: Stored(HP["pending"](i)))
    n = m.coll.n
    idf, rg, hp = ID["pending"], RG["pending"], HP["pending"]
    runs = z3.Function("evaluation_of", I, I)          # a configuration has one pending evaluation at most
    m.coll.facts.append(lambda i: runs(idf(i)) == i)

    def inv(i, s):
        w = runs(c)
        mine = z3.And(w >= 0, w < i, idf(w) == c)
        same = z3.And(s.present == s0.present, s.hp == s0.hp, s.rung == s0.rung, s.perf == s0.perf, s.nan == s0.nan, s.inf == s0.inf)
        return [("a configuration being evaluated counts as unfinished at that rung", z3.Implies(mine, z3.And(s.present, s.nan, s.rung == rg(w)))),
                ("with its hyperparameters", z3.Implies(mine, s.hp == z3.If(s0.present, s0.hp, hp(w)))),
                ("others stay as they are", z3.Implies(z3.Not(mine), same))]
    carried(vc, o, m.coll, inv)
    with patched(SH, pd=PD()):
        st, e = vc.call(o._handle_pending_evaluations, m)
    if st == "exc":
        return vc.fail("pending evaluations are taken over", repr(e))
    for name, x in inv(n, o.book.s):
        vc.prove(SymBool(x), name)
    vc.cover("loaded")


REPORTED = z3.Function("has a report", I, z3.BoolSort())
CFG = z3.Function("configuration of", I, I)


class AskedTrial(Ghost):
    def __init__(self, i):
        self.i = i
        self.config = ("raw", i)

    @property
    def report(self):
        return object() if cur().fork(REPORTED(self.i)) else None

    def into_config_result(self, make, *a, **k):
        return ResultOf(self.i)

    def __vc_subst__(self, frm, to):
        return AskedTrial(z3.substitute(self.i, (frm, to)))


class ResultOf(Ghost):
    def __init__(self, i):
        self.i = i

    def __vc_subst__(self, frm, to):
        return type(self)(z3.substitute(self.i, (frm, to)))


class SpaceOf(ResultOf):
    pass


class Asked(Ghost):
    """What ask() is made of, as recorded."""

    def __init__(self, vc, base):
        self.__dict__.update(vc=vc, events=[], base=base)


@contract("C14", "neps.optimizers.multi_fidelity.successive_halving.SuccessiveHalvingBase.ask",
          "neps.optimizers.multi_fidelity.successive_halving.SuccessiveHalvingBase._handle_promotions",
          "neps.optimizers.multi_fidelity.hyperband.HyperbandBase.ask")
def asking(vc):
    import neps.optimizers.multi_fidelity.hyperband as HB
    p = cur()
    hyper = bool(vc.choose(2, "hyperband"))
    base = HB.HyperbandBase if hyper else SH.SuccessiveHalvingBase
    g = Rungs(vc, True)
    events, seen = [], {}
    members, performances, promos, fresh = Ghost(), Ghost(), Ghost(), Ghost()

    class Policy(Ghost):
        def set_state(self, **k):
            events.append("policy state")
            seen["state"] = k

        def retrieve_promotions(self):
            events.append("promotions")
            return promos

    def step(name, **does):
        def f(self, *a, **k):
            events.append(name)
            if a:
                seen[name] = a[0]
                seen[name + " table"] = self.__dict__.get("observed_configs")
            if name == "state":
                if seen.get("state of") is None:
                    seen["state of"] = a
                self.rung_members, self.rung_members_performance = members, performances
        return f

    class Opt(Ghost, base):
        _load_previous_observations = step("load")
        _handle_pending_evaluations = step("pending")
        _get_rungs_state = step("state")
        clear_old_brackets = step("brackets")
        _fit_models = step("fit")
        _update_sh_bracket_state = step("share")
        if hyper:
            _handle_promotions = step("promotions")

        def get_config_and_ids(self):
            events.append("proposal")
            seen["promotions"] = self.__dict__.get("rung_promotions")
            return "config", "id", "previous"

        def __init__(self):
            pass
    o = Opt()
    for k in ("observed_configs", "rung_members", "rung_members_performance", "rung_promotions"):
        o.__dict__[k] = Kept(lambda *a: None)
    o.min_rung, o.max_rung, o.eta = g.lo, g.top, g.eta
    o.promotion_policy, o.promotion_policy_kwargs = Policy(), {"config_map": promos}

    class Make(Ghost):
        def from_dict(self, raw):
            if type(raw) is not tuple or raw[0] != "raw":
                raise Unsupported("another configuration")
            return SpaceOf(raw[1])
    o.pipeline_space = Make()

    class Frames(Ghost):
        def DataFrame(self, data=None, columns=None, **k):
            if data not in ([], None) or k or tuple(columns) != ("config", "rung", "perf"):
                raise Unsupported("a table of another form")
            return fresh
    c = Coll("trials")
    key = z3.Function("trial_id", I, values.V)
    inv = z3.Function("trial_of", values.V, I)
    c.facts.append(lambda i: inv(key(i)) == i)
    asked = SymMap(c, lambda i: values.SymVal(key(i), str), AskedTrial, inv=lambda k: inv(k))
    with patched(SH, pd=Frames()), patched(HB, pd=Frames()):
        st, out = vc.call(o.ask, asked, None)
    if st == "exc":
        return vc.fail("there is a proposal", repr(out))
    order = ["load", "pending", "state", "brackets", "promotions", "share" if hyper else "policy state", "proposal"]
    for name in order:
        vc.prove(name in events, f"the history is processed: {name}")
        if name not in events:
            return
    last = {n: max(k for k, e in enumerate(events) if e == n) for n in events}
    chain = [("load", "pending"), ("pending", "state"), ("state", "brackets"), ("state", "promotions"), ("promotions", "proposal"), ("brackets", "proposal")]
    chain += [("state", "share"), ("brackets", "share"), ("share", "proposal")] if hyper else [("policy state", "promotions"), ("brackets", "policy state")]
    for a, b in chain:
        vc.prove(last[a] < last[b], f"{a} comes before {b}")
    vc.prove((out.config, out.id, out.previous_config_id) == ("config", "id", "previous"), "the proposal is handed on as it is")
    vc.prove(seen["load table"] is fresh, "observations of earlier proposals are gone")
    if not hyper:
        k = seen["state"]
        vc.prove(k.get("max_rung") is g.top and k.get("members") is members and k.get("performances") is performances
                 and k.get("config_map") is promos, "the promotion rule sees the rungs as they are")
        vc.prove(seen["promotions"] is promos, "the proposal follows the promotion rule")
    for name, kind, when in (("load", ResultOf, REPORTED), ("pending", SpaceOf, lambda i: z3.Not(REPORTED(i)))):
        m = seen[name]
        i = p.const("trial", I)
        p.assume(z3.And(i >= 0, i < c.n))
        known(c, i)
        want = when(i)
        if not isinstance(m, SymMap):
            raise Unsupported("trials are not handed over in a mapping")
        vc.prove(SymBool((m.guard(i) if m.coll is c else z3.BoolVal(False)) == want), "trials with a report are evaluated, the others pending")
        if m.coll is not c or p.check(want) != z3.sat:
            continue
        v, kz = m.elem(i), m.key(i)
        vc.prove(type(v) is kind and v.i.eq(i) and kz.z.eq(key(i)), f"every trial is handed over under its own id: {name}")
    vc.cover("asked")
