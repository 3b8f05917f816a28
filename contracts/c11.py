"""C11 hyperparameters hold and produce only legal values."""
# instrument: neps.search_spaces.domain neps.search_spaces.parameter neps.search_spaces.hyperparameters.numerical neps.search_spaces.hyperparameters.float neps.search_spaces.hyperparameters.integer neps.search_spaces.hyperparameters.categorical neps.search_spaces.hyperparameters.constant neps.search_spaces.search_space
from pyvc.contract import contract
from pyvc.core import Unsupported, cur
from pyvc.values import And, Implies, Not, Or, SymNum, boolval, intval, lift_num, realval, same, val
from contracts.hpkit import *

HP = "neps.search_spaces.hyperparameters."
BOTH = (HP + "float.FloatParameter.", HP + "integer.IntegerParameter.")


def t(*names):
    return [c + n for n in names for c in BOTH]


@contract("C11", *t("__init__"), HP + "numerical.NumericalParameter.__init__")
def construct(vc):
    """Made with the bounds and default given (rounded for integers), or refused."""
    with env():
        kind = ("float", "int")[vc.choose(2, "kind")]
        lo, hi = realval("lower"), realval("upper")
        d = realval("default", nan=True) if vc.choose(2, "default") else None
        log = bool(vc.choose(2, "log"))
        if log:
            vc.assume(lo > 0)           # log of a non-positive number is refused by math.log itself
            for a, b in ((lo, hi), (values.rint(lo), values.rint(hi)), (values.rint(lo) - 0.499999, values.rint(hi) + 0.499999)):
                vc.assume(Implies(And(a > 0, b > 0, a < b), SymNum(values.LOG(a.z), "float") < SymNum(values.LOG(b.z), "float")))
            if kind == "int":
                vc.assume(values.rint(lo) > 0)
        cls = F.FloatParameter if kind == "float" else I.IntegerParameter
        st, hp = vc.call(cls, lo, hi, log=log, default=d)
        L, H = (lo, hi) if kind == "float" else (values.rint(lo), values.rint(hi))
        dd = None if d is None else d if kind == "float" else values.rint(d)
        good = And(L < H, True if d is None else And(Not(d.nan), dd >= L, dd <= H))
        if st == "exc":
            vc.prove(isinstance(hp, ValueError), "an illegal description is refused with a ValueError")
            if kind == "float":
                vc.prove(Not(good), "a legal description is not refused")
            vc.cover("refused " + kind)
            return
        vc.prove(good, "empty ranges and defaults outside the bounds are refused")
        vc.prove(And(same(hp.lower, L), same(hp.upper, H)), "the bounds are the ones given")
        vc.prove(hp.value is None, "a new hyperparameter has no value")
        vc.prove(And(same(hp.domain.lower, hp.lower), same(hp.domain.upper, hp.upper)), "its domain has the same bounds")
        vc.prove((hp.default is None) == (d is None) and hp.has_prior == (d is not None), "it has a default iff one was given")
        if d is not None:
            vc.prove(legal(hp, hp.default), "the default is legal")
        vc.cover("made " + kind)


def setting(vc, hp, op, v, target):
    """op(v) either stores the value or raises and changes nothing."""
    before = fields(hp)
    is_int = isinstance(hp, I.IntegerParameter)
    w = v if v is None or not is_int else values.rint(v)
    st, e = vc.call(op, v)
    if v is None:
        vc.prove(st == "ok" and getattr(hp, target) is None, "a value can be removed")
        return
    ok = And(Not(v.nan), v >= hp.lower, v <= hp.upper)
    if st == "exc":
        vc.prove(isinstance(e, ValueError), "an illegal value is refused with a ValueError")
        vc.prove(same_fields(fields(hp), before), "a refused value leaves everything in place")
        vc.prove(Not(ok), "a legal value is not refused")
        vc.cover("refused")
    else:
        vc.prove(legal(hp, getattr(hp, target)), "the value stored is legal and of the declared type")
        vc.prove(same(getattr(hp, target), w), "the value stored is the one given (rounded for integers)")
        if target == "default":
            vc.prove(same(hp.value, before[0]), "setting the default keeps the value")
            vc.prove(hp.has_prior is True, "with a default there is a prior")
        else:
            vc.prove(same(hp.default, before[1]), "setting the value keeps the default")
        vc.cover("stored")


@contract("C11", *t("set_value", "set_default"), HP + "integer.IntegerParameter.load_from", "neps.search_spaces.parameter.Parameter.load_from")
def set_numeric(vc):
    with env():
        kind = ("float", "int")[vc.choose(2, "kind")]
        hp, *_ = numeric(vc, kind)
        if vc.choose(2, "has value"):
            give_value(vc, hp)
        what = vc.choose(3, "op")
        v = None
        if what == 1 or vc.choose(2, "something"):
            v = realval("v", nan=what != 1 or kind == "float")
            if kind == "int":
                # a number that rounds into the bounds may be refused or stored; everything else is decided
                r = values.rint(v)
                vc.assume(Or(v.nan, r == v, And(v >= hp.lower, v <= hp.upper), Not(And(r >= hp.lower, r <= hp.upper))))
                if what == 2:
                    vc.assume(Not(v.nan))
        setting(vc, hp, (hp.set_value, hp.load_from, hp.set_default)[what], v, ("value", "value", "default")[what])


@contract("C11", HP + "categorical.CategoricalParameter.set_value", HP + "categorical.CategoricalParameter.set_default",
          HP + "categorical.CategoricalParameter.__init__", "neps.search_spaces.parameter.Parameter.load_from")
def set_categorical(vc):
    with env():
        hp = categorical(vc)
        vc.prove(hp.default is None or legal(hp, hp.default), "the default is legal")
        if vc.choose(2, "has value"):
            give_value(vc, hp)
        what = vc.choose(3, "op")
        v = val("v", str) if what == 1 or vc.choose(2, "something") else None
        before = fields(hp)
        target = ("value", "value", "default")[what]
        st, e = vc.call((hp.set_value, hp.load_from, hp.set_default)[what], v)
        if v is None:
            vc.prove(st == "ok" and getattr(hp, target) is None, "a value can be removed")
        elif st == "exc":
            vc.prove(isinstance(e, ValueError), "an illegal value is refused with a ValueError")
            vc.prove(same_fields(fields(hp), before), "a refused value leaves everything in place")
            vc.prove(not legal(hp, v), "a legal value is not refused")
            vc.cover("refused")
        else:
            vc.prove(legal(hp, getattr(hp, target)), "the value stored is one of the choices")
            vc.prove(same(getattr(hp, target), v), "the value stored is the one given")
            idx = hp._value_index if target == "value" else hp._default_index
            vc.prove(same(hp.choices[idx], v), "the index kept is the value's own")
            vc.cover("stored")
        st, r = vc.call(C.CategoricalParameter, hp.choices, default=val("d", str))
        vc.prove(st == "exc" or legal(hp, r.default), "a default that is no choice is refused")


@contract("C11", *t("sample_value", "normalized_to_value", "grid"), HP + "categorical.CategoricalParameter.sample_value",
          HP + "categorical.CategoricalParameter.normalized_to_value", "neps.search_spaces.parameter.ParameterWithPrior.sample",
          HP + "numerical.NumericalParameter.grid")
def produce(vc):
    """Sampling, un-normalising and grids yield legal values of the declared type and leave the hyperparameter alone."""
    with env():
        hp = any_hp(vc)
        before = fields(hp)
        what = vc.choose(4, "op")
        cat = isinstance(hp, C.CategoricalParameter)
        if what == 0:
            st, v = vc.call(hp.sample_value, user_priors=bool(vc.choose(2, "priors")))
            vc.prove(st == "ok" and legal(hp, v), "a sampled value is legal and of the declared type")
        elif what == 1:
            st, c = vc.call(hp.sample, user_priors=bool(vc.choose(2, "priors")))
            vc.prove(st == "ok" and c is not hp and legal(c, c.value), "a sample is a new hyperparameter with a legal value")
            if st == "ok":
                vc.prove(same_fields(description(c), description(hp)), "a sample keeps the description")
        elif what == 2:
            u = realval("u")
            vc.assume(And(u >= 0, u <= (SymNum(hp.choices.coll.n, "int") - 1 if cat else 1)))
            st, v = vc.call(hp.normalized_to_value, u)
            vc.prove(st == "ok" and legal(hp, v), "un-normalising gives a legal value of the declared type")
        elif not cat:
            n = intval("size")
            vc.assume(n >= 1)
            st, g = vc.call(hp.grid, size=n, include_endpoint=bool(vc.choose(2, "endpoint")))
            vc.prove(st == "ok", "a grid can be made")
            if st == "ok":
                vc.prove(same(g.vc_len(), n), "a grid has the size asked for")
                i = cur().const("at", z3.IntSort())
                cur().assume(z3.And(i >= 0, i < g.coll.n))
                vc.prove(legal(hp, g.elem(i)), "every value of a grid is legal and of the declared type")
        vc.prove(same_fields(fields(hp), before), "producing values changes nothing in the hyperparameter")
        vc.cover(f"op {what}")


def description(hp):
    return fields(hp)[1:6] + fields(hp)[7:11] if not isinstance(hp, C.CategoricalParameter) else fields(hp)[1:6] + [fields(hp)[8]]


@contract("C11", *t("clone"), HP + "categorical.CategoricalParameter.clone", HP + "numerical.NumericalParameter.__eq__",
          HP + "categorical.CategoricalParameter.__eq__")
def copies(vc):
    """A copy is equal and independent."""
    with env():
        hp = any_hp(vc)
        if vc.choose(2, "has value"):
            give_value(vc, hp)
        if hp.default is not None and vc.choose(2, "confidence changed"):
            hp.set_default_confidence_score(CONF[vc.choose(3, "to")])
        before = fields(hp)
        st, c = vc.call(hp.clone)
        vc.prove(st == "ok" and c is not hp and type(c) is type(hp), "a copy is a new hyperparameter of the same class")
        if st != "ok":
            return
        vc.prove(same_fields(fields(c), before), "a copy has the same fields")
        if isinstance(hp, C.CategoricalParameter):
            vc.prove(c.choices is not hp.choices, "a copy has a list of choices of its own")
        st, e = vc.call(lambda: c == hp)
        vc.prove(st == "ok" and bool(e) is True, "a copy is equal")
        give_value(vc, c, "other")
        if c.default is not None:
            vc.call(c.set_default, c.value)
            c.set_default_confidence_score(CONF[vc.choose(3, "copy to")])
        vc.prove(same_fields(fields(hp), before), "changing a copy leaves the original alone")
        vc.cover("copied")


@contract("C11", *t("_get_non_unique_neighbors"), HP + "numerical.NumericalParameter.mutate",
          HP + "numerical.NumericalParameter.crossover", HP + "categorical.CategoricalParameter.mutate",
          HP + "categorical.CategoricalParameter.crossover", HP + "categorical.CategoricalParameter._get_non_unique_neighbors",
          time_limit=400)
def mutation(vc):
    """Mutation and crossover: legal children, the parents untouched; fidelities are not mutated."""
    with env():
        hp = any_hp(vc)
        give_value(vc, hp, "v1")
        before = fields(hp)
        kids = []
        if vc.choose(2, "crossover"):
            other = hp.clone()
            v2 = give_value(vc, other, "v2")
            ob = fields(other)
            st, r = vc.call(hp.crossover, other)
            vc.prove(same_fields(fields(other), ob), "crossover leaves the other parent alone")
            if st == "ok":
                vc.prove(len(r) == 2, "crossover has two children")
                kids = list(r)
        else:
            st, r = vc.call(hp.mutate)
            if st == "ok":
                kids = [r]
                vc.prove(Not(same(r.value, before[0])), "a mutation differs from its parent")
        vc.prove(same_fields(fields(hp), before), "the parent is left alone")
        if hp.is_fidelity:
            vc.prove(st == "exc" and isinstance(r, ValueError), "a fidelity is not mutated")
            vc.cover("fidelity")
            return
        if st == "exc":
            vc.prove(isinstance(r, ValueError), "a mutation that finds nothing new is refused with a ValueError")
            return
        for c in kids:
            vc.prove(c is not hp, "a child is a new hyperparameter")
            vc.prove(legal(c, c.value), "a child's value is legal and of the declared type")
            vc.prove(same_fields(description(c), description(hp)), "a child keeps the description")
        vc.cover("children")


@contract("C11", HP + "constant.ConstantParameter.set_value", HP + "constant.ConstantParameter.sample_value",
          HP + "constant.ConstantParameter.normalized_to_value", HP + "constant.ConstantParameter.clone")
def constants(vc):
    with env():
        v, w = val("c", str), val("w", str)
        st, hp = vc.call(K.ConstantParameter, v)
        vc.prove(st == "ok" and And(same(hp.value, v), same(hp.default, v)), "a constant has its value and default")
        if st != "ok":
            return
        for op in (hp.set_value, hp.set_default, hp.load_from):
            st, e = vc.call(op, w)
            vc.prove(Not(same(v, w)) if st == "exc" else same(v, w), "a constant can be set only to its own value")
            vc.prove(And(same(hp.value, v), same(hp.default, v)), "a constant keeps its value")
        st, x = vc.call(hp.sample_value)
        vc.prove(st == "ok" and same(x, v), "a sampled constant is the constant")
        st, x = vc.call(hp.normalized_to_value, realval("u"))
        vc.prove(st == "ok" and same(x, v), "un-normalising a constant gives the constant")
        st, c = vc.call(hp.clone)
        vc.prove(st == "ok" and c is not hp and same(c.value, v), "a copy of a constant is the same constant")
        vc.cover("constant")


# ---- configurations: at most three hyperparameters of any kind, each by the contracts above

import neps.search_spaces.search_space as SP

S = "neps.search_spaces.search_space.SearchSpace."


class Ghost:
    """A hyperparameter by contract: what is asked of it is recorded, what it gives is fresh and names its origin."""
    __vc_ghost__ = True

    def __init__(self, name, fid=False, how="given", src=None, value=None):
        self.name, self.is_fidelity, self.how, self.src, self.touched = name, fid, how, src or self, []
        self.default, self._value = val("default", str), value
        self.default_confidence_score = 0.5

    def child(self, how, value=None):
        return type(self)(self.name, self.is_fidelity, how, self.src, value)

    def clone(self):
        c = self.child("clone", self._value)
        c.default = self.default
        return c

    def sample(self, *, user_priors=False):
        if cur().fork(boolval("sampling fails").z):
            raise RuntimeError("no sample")
        return self.child("prior sample" if user_priors else "sample", val("sampled", str))

    def set_value(self, v):
        if cur().fork(boolval("refused").z):
            raise ValueError("illegal")
        self.touched.append(v)
        self._value = v

    load_from = set_value

    @property
    def value(self):
        return self._value

    @property
    def has_prior(self):
        return True

    @property
    def upper(self):
        return self._upper

    _upper = 7


class Mutable:
    def mutate(self, parent=None, **k):
        if cur().fork(boolval("mutation fails").z):
            raise ValueError("no mutation")
        return self.child("mutated", val("mutant", str))

    def crossover(self, other, parent2=None):
        if cur().fork(boolval("crossover fails").z):
            raise ValueError("no crossover")
        return self.child("crossed", val("kid", str)), other.child("crossed", val("kid", str))


class GF(Mutable, Ghost, F.FloatParameter):
    __hash__ = object.__hash__
    __eq__ = object.__eq__


class GC(Mutable, Ghost, C.CategoricalParameter):
    __hash__ = object.__hash__
    __eq__ = object.__eq__


class GK(Ghost, K.ConstantParameter):
    __hash__ = object.__hash__
    __eq__ = object.__eq__


def ghosts(vc, n, tag=""):
    fid, r = False, {}
    for name in ("b", "a", "c")[:n]:
        k = vc.choose(3 if fid else 4, "kind " + name)
        fid = fid or k == 3
        cls = (GF, GC, GK, GF)[k]
        r[name] = cls(name, k == 3, value=val("v", str))
    return r


def quiet(h):
    return not h.touched and h.how == "given"


@contract("C11", S + "sample", S + "clone", S + "from_dict", S + "mutate", S + "_smbo_mutation", S + "crossover", S + "_simple_crossover",
          S + "sample_default_configuration", S + "set_to_max_fidelity", S + "__init__", time_limit=400, max_paths=40000)
def configurations(vc):
    """A configuration made from a space has exactly its hyperparameters, each made from its own; the space is left alone."""
    class Env(NP):
        random = NPRandom()
    with patched(SP, np=Env()):
        n = 1 + vc.choose(3, "hyperparameters")
        hps = ghosts(vc, n)
        fid = [k for k in hps if hps[k].is_fidelity]
        st, sp = vc.call(SP.SearchSpace, **hps)
        vc.prove(st == "ok" and list(sp.hyperparameters) == sorted(hps) and all(sp.hyperparameters[k] is hps[k] for k in hps),
                 "a space has the hyperparameters given, in the order of their names")
        if st != "ok":
            return
        vc.prove(sp.fidelity_name == (fid[0] if fid else None) and sp.fidelity is (hps[fid[0]] if fid else None), "the fidelity is known")
        op = vc.choose(7, "op")
        kids, others = [], None
        if op == 0:
            up, ign = bool(vc.choose(2, "priors")), bool(vc.choose(2, "ignore fidelity"))
            st, r = vc.call(sp.sample, user_priors=up, ignore_fidelity=ign, patience=1 + vc.choose(2, "patience"))
            kids = [r]
        elif op == 1:
            st, r = vc.call(sp.clone)
            kids = [r]
            vc.prove(st == "ok", "a space can be copied")
        elif op == 2:
            conf = {k: val("w", str) for k in list(hps)[:1 + vc.choose(n, "given")]}
            st, r = vc.call(sp.from_dict, conf)
            kids = [r]
        elif op == 3:
            st, r = vc.call(sp.mutate, patience=1 + vc.choose(2, "patience"))
            kids = [r]
        elif op == 4:
            others = {k: h.clone() for k, h in hps.items()}
            for h in others.values():
                h.how, h.src = "given", h
            st, r = vc.call(sp.crossover, SP.SearchSpace(**others), realval("p"), 1 + vc.choose(2, "patience"))
            kids = list(r) if st == "ok" else []
        elif op == 5:
            st, r = vc.call(sp.sample_default_configuration)
            kids = [r]
        else:
            st, r = vc.call(sp.set_to_max_fidelity)
            vc.prove(all(quiet(h) for k, h in hps.items() if k not in fid), "only the fidelity is raised")
            if fid and st == "ok":
                vc.prove(hps[fid[0]].touched == [7], "the fidelity is set to its upper bound")
            vc.prove(bool(fid) or st == "exc", "a space without fidelity has no maximum")
            vc.cover("op 6")
            return
        vc.prove(all(quiet(h) for h in hps.values()), "the space is left alone")
        if others:
            vc.prove(all(quiet(h) for h in others.values()), "the other parent is left alone")
        if st != "ok":
            return
        for i, c in enumerate(kids):
            vc.prove(isinstance(c, SP.SearchSpace) and list(c.hyperparameters) == sorted(hps), "exactly the hyperparameters of the space, in its order")
            if list(c.hyperparameters) != sorted(hps):
                continue
            vc.prove(c.fidelity_name == sp.fidelity_name and (c.fidelity is None or c.fidelity is c.hyperparameters[c.fidelity_name]),
                     "the same hyperparameter is the fidelity")
            for k, h in c.hyperparameters.items():
                src = (others if i else hps)[k]
                vc.prove(h is not hps[k] and h.src is src and type(h) is type(src), "each hyperparameter is made from its own")
                if op == 0:
                    want = "clone" if k in fid and ign else "prior sample" if up and isinstance(h, SP.ParameterWithPrior) else "sample"
                    vc.prove(h.how == want, "each hyperparameter is sampled (from its prior if asked), an ignored fidelity copied")
                if op == 1:
                    vc.prove(h.how == "clone", "a copy is made of copies")
                if op == 2:
                    vc.prove(h.how == "clone" and (len(h.touched) == 1 and same(h.touched[0], conf[k]) if k in conf else not h.touched),
                             "each value given is set, no other is")
                if op in (3, 4) and (k in fid or isinstance(h, K.ConstantParameter)):
                    vc.prove(h.how == "clone", "fidelities and constants are copied unchanged")
                if op == 5 and k not in fid:
                    vc.prove(same(h.value, hps[k].default), "each hyperparameter has its default")
            if op == 3:
                vc.prove([h.how for h in c.hyperparameters.values()].count("mutated") == 1, "one hyperparameter is mutated")
        vc.cover(f"op {op}")
