from __future__ import annotations

import math

import numpy as np

from hlib import case
from neps.search_spaces import CategoricalParameter, ConstantParameter, FloatParameter, IntegerParameter, SearchSpace

CONF = ["low", "medium", "high"]


def legal(hp, v):
    if isinstance(hp, ConstantParameter):
        return v == hp.value
    if isinstance(hp, CategoricalParameter):
        return any(v is c or v == c for c in hp.choices)
    if isinstance(hp, IntegerParameter):
        return isinstance(v, int) and not isinstance(v, bool) and hp.lower <= v <= hp.upper
    return isinstance(v, float) and hp.lower <= v <= hp.upper


def numeric(rng, fid=False):
    log = rng.random() < 0.4
    conf = rng.choice(CONF)
    if rng.random() < 0.5:
        lo = rng.choice([1, 2, 3, 10, 999]) if log else rng.choice([0, 1, -1, -5, 100, -10 ** 6])
        hi = lo + rng.choice([1, 2, 3, 9, 100, 12345, 10 ** 6])
        d = rng.choice([None, lo, hi, rng.randint(lo, hi)])
        return IntegerParameter(lo, hi, log=log, default=d, default_confidence=conf, is_fidelity=fid), (lo, hi, log, d, conf)
    lo = rng.choice([1e-8, 1e-5, 0.001, 0.1, 1.0, 3.0]) if log else rng.choice([0.0, -1.0, 0.1, -0.3, 1e5, rng.uniform(-9, 9)])
    hi = lo * rng.choice([1.5, 10.0, 1e4, 7.3]) if log else lo + rng.choice([1.0, 0.1, 1e-3, 1e5, rng.uniform(0.1, 9)])
    d = rng.choice([None, lo, hi, min(hi, max(lo, rng.uniform(lo, hi)))])
    return FloatParameter(lo, hi, log=log, default=d, default_confidence=conf, is_fidelity=fid), (lo, hi, log, d, conf)


POOL = ["a", "b", "relu", "tanh", 1, 2, 3, 0.5, 2.5, "x y", True, -7]


def categorical(rng):
    cs = []
    for c in rng.sample(POOL, rng.randrange(2, 8)):
        if c not in cs:
            cs.append(c)
    if len(cs) < 2:
        cs = ["a", "b"]
    return CategoricalParameter(cs, default=rng.choice([None, *cs]), default_confidence=rng.choice(CONF))


def any_hp(rng):
    k = rng.random()
    return categorical(rng) if k < 0.3 else numeric(rng)[0]


def a_value(rng, hp):
    if isinstance(hp, ConstantParameter):
        return hp.value
    if isinstance(hp, CategoricalParameter):
        return rng.choice(hp.choices)
    if isinstance(hp, IntegerParameter):
        return rng.choice([hp.lower, hp.upper, rng.randint(hp.lower, hp.upper)])
    return rng.choice([hp.lower, hp.upper, min(hp.upper, max(hp.lower, rng.uniform(hp.lower, hp.upper)))])


def fields(hp):
    out = dict(value=hp.value, default=hp.default, fid=hp.is_fidelity, norm=hp.normalized_value)
    for k in ("lower", "upper", "log", "default_confidence_choice", "default_confidence_score", "has_prior", "choices"):
        if hasattr(hp, k):
            out[k] = list(getattr(hp, k)) if k == "choices" else getattr(hp, k)
    return out


@case
def construct(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(3000, 20000)):
        hp, (lo, hi, log, d, conf) = numeric(rng, fid=rng.random() < 0.3)
        ctx.count((type(hp).__name__, lo, hi, log, d))
        ctx.eq((hp.lower, hp.upper, hp.log, hp.default, hp.value), (lo, hi, log, d, None), "a hyperparameter is made as described")
        ctx.check(d is None or legal(hp, hp.default), "the default is legal", hp=hp)
        cls = type(hp)
        w = hi - lo
        for args in ((hi, lo, {}), (lo, lo, {}), (lo, hi, dict(default=hi + 1 + w)), (lo, hi, dict(default=lo - 1 - w)),
                     (lo, hi, dict(default_confidence="huge")), (-1, hi, dict(log=True)), (0, abs(hi) + 1, dict(log=True))):
            ctx.raises(ValueError, lambda: cls(args[0], args[1], **args[2]), "an illegal description is refused", args=args, cls=cls)
        if cls is FloatParameter:
            ctx.raises(ValueError, lambda: cls(lo, hi, default=math.nan), "NaN is no default")
        c = categorical(rng)
        ctx.raises(ValueError, lambda: CategoricalParameter(c.choices, default="nowhere"), "a default that is no choice is refused")
        ctx.raises(ValueError, lambda: CategoricalParameter([*c.choices, c.choices[0]]), "choices twice are refused")


@case
def setting(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(6000, 40000)):
        hp = any_hp(rng)
        if rng.random() < 0.7:
            hp.set_value(a_value(rng, hp))
        for _ in range(4):
            if isinstance(hp, CategoricalParameter):
                v = rng.choice([*hp.choices, "nowhere", 12345, -0.5, None])
                ok = v is None or v in hp.choices
            else:
                w = hp.upper - hp.lower
                v = rng.choice([hp.lower, hp.upper, a_value(rng, hp), hp.upper + 1, hp.lower - 1, hp.upper + w, -1e300, math.inf,
                                -math.inf, math.nan, None, hp.upper + 0.6, hp.lower - 0.6])
                if isinstance(hp, FloatParameter) and v is not None and rng.random() < 0.3:
                    v = rng.choice([math.nextafter(hp.upper, math.inf), math.nextafter(hp.lower, -math.inf)])
                if isinstance(hp, IntegerParameter) and isinstance(v, float) and not math.isfinite(v):
                    v = hp.upper + 5
                ok = v is None or hp.lower <= v <= hp.upper
            how = rng.choice(["set_value", "set_default", "load_from"])
            if how == "load_from" and v is None:
                continue
            before = fields(hp)
            ctx.count((type(hp).__name__, how, ok, repr(v)))
            tgt = "default" if how == "set_default" else "value"
            if ok:
                getattr(hp, how)(v)
                ctx.check(v is None and getattr(hp, tgt) is None or getattr(hp, tgt) == v, "a legal value is stored", hp=hp, value=v, how=how)
                ctx.check(v is None or legal(hp, getattr(hp, tgt)), "what is stored is of the declared type", hp=hp, value=v)
                after = fields(hp)
                other = "value" if tgt == "default" else "default"
                ctx.eq(after[other], before[other], f"the {other} stays", how=how)
            else:
                ctx.raises(Exception, lambda: getattr(hp, how)(v), "an illegal value is refused", hp=hp, value=v, how=how)
                ctx.eq(fields(hp), before, "a refused value changes nothing", value=v, how=how)


@case
def producing(ctx):
    rng = ctx.rng
    np.random.seed(ctx.seed)
    for _ in range(ctx.n(4000, 30000)):
        hp = any_hp(rng)
        if rng.random() < 0.3 and not isinstance(hp, CategoricalParameter):
            hp = numeric(rng, fid=True)[0]
        if rng.random() < 0.6:
            hp.set_value(a_value(rng, hp))
        before = fields(hp)
        ctx.count((type(hp).__name__, before.get("log"), before.get("lower"), before["default"]))
        for pr in (False, True):
            v = hp.sample_value(user_priors=pr)
            ctx.check(legal(hp, v), "a sampled value is legal", hp=hp, value=v, type=type(v))
            s = hp.sample(user_priors=pr)
            ctx.check(s is not hp and legal(s, s.value), "a sample holds a legal value", hp=hp, value=s.value)
            ctx.eq({**fields(s), "value": 0, "norm": 0}, {**before, "value": 0, "norm": 0}, "a sample keeps the description")
        cat = isinstance(hp, CategoricalParameter)
        for u in (0.0, 1.0, 0.5, 1e-17, math.nextafter(1, 0), rng.random()):
            u2 = u * (len(hp.choices) - 1) if cat else u
            v = hp.normalized_to_value(u2)
            ctx.check(legal(hp, v), "un-normalising gives a legal value", hp=hp, u=u2, value=v)
        if not cat:
            for size in (1, 2, 3, rng.randrange(4, 30)):
                g = hp.grid(size=size, include_endpoint=rng.random() < 0.7)
                ctx.check(len(g) == size and all(legal(hp, v) for v in g), "a grid has legal values", hp=hp, grid=g[:8])
            v = a_value(rng, hp)
            u = hp.value_to_normalized(v)
            ctx.check(-1e-9 <= u <= 1 + 1e-9, "a normalised value is in the unit interval", hp=hp, value=v, got=u)
        ctx.eq(fields(hp), before, "producing values changes nothing")
        c = hp.clone()
        ctx.check(c is not hp and c == hp, "a copy is equal", hp=hp)
        ctx.eq(fields(c), before, "a copy has the same fields")
        c.set_value(a_value(rng, c))
        c.set_default(a_value(rng, c))
        if cat:
            c.choices.append("added to the copy")
        ctx.eq(fields(hp), before, "changing a copy leaves the original alone")


@case
def mutating(ctx):
    rng = ctx.rng
    np.random.seed(ctx.seed + 1)
    for _ in range(ctx.n(3000, 20000)):
        hp = any_hp(rng)
        hp.set_value(a_value(rng, hp))
        other = hp.clone()
        other.set_value(a_value(rng, other))
        b1, b2 = fields(hp), fields(other)
        ctx.count((type(hp).__name__, b1["value"], b2["value"]))
        kids = []
        try:
            m = hp.mutate()
            ctx.check(m.value != hp.value, "a mutation differs", hp=hp)
            kids.append(m)
        except ValueError:
            pass
        try:
            kids += list(hp.crossover(other))
        except ValueError:
            pass
        for c in kids:
            ctx.check(c is not hp and c is not other and legal(c, c.value), "a child holds a legal value", hp=hp, value=c.value)
            ctx.eq({**fields(c), "value": 0, "norm": 0}, {**b1, "value": 0, "norm": 0}, "a child keeps the description")
        ctx.eq((fields(hp), fields(other)), (b1, b2), "the parents are left alone")
    f = numeric(rng, fid=True)[0]
    f.set_value(f.lower)
    ctx.raises(ValueError, f.mutate, "a fidelity is not mutated")
    ctx.raises(ValueError, lambda: f.crossover(f), "a fidelity is not crossed over")


@case
def spaces(ctx):
    rng = ctx.rng
    np.random.seed(ctx.seed + 2)
    for _ in range(ctx.n(500, 5000)):
        n = rng.randrange(1, 6)
        hps = {rng.choice("qwertzuiop") + str(i): any_hp(rng) if rng.random() < 0.85 else ConstantParameter(rng.choice([1, "k"]))
               for i in range(n)}
        if rng.random() < 0.5:
            hps["fid" + rng.choice("ab")] = numeric(rng, fid=True)[0]
        sp = SearchSpace(**hps)
        before = {k: fields(h) for k, h in hps.items()}
        names = sorted(hps)
        ctx.count(tuple(names))

        def whole(c, what, values=True):
            ctx.eq(list(c.hyperparameters), names, f"{what} has exactly the hyperparameters of the space")
            for k in names:
                h = c.hyperparameters[k]
                ctx.check(type(h) is type(hps[k]) and h is not hps[k], f"{what} has hyperparameters of its own", name=k)
                ctx.eq({**fields(h), "value": 0, "norm": 0}, {**before[k], "value": 0, "norm": 0}, f"{what} keeps descriptions", name=k)
                if values and not h.is_fidelity:
                    ctx.check(legal(h, h.value), f"{what} has legal values", name=k, value=h.value)
            ctx.eq(c.fidelity_name, sp.fidelity_name, "the same fidelity")

        a, b = sp.sample(), sp.sample(user_priors=True, ignore_fidelity=False)
        whole(a, "a sample")
        whole(b, "a sample with priors")
        if sp.fidelity is not None:
            ctx.eq(a.fidelity.value, None, "an ignored fidelity is not sampled")
            ctx.check(legal(sp.fidelity, b.fidelity.value), "a sampled fidelity is legal")
            a.set_to_max_fidelity()
            ctx.eq(a.fidelity.value, sp.fidelity.upper, "the maximum fidelity")
        va, vb = a.hp_values(), b.hp_values()
        mutable = [k for k in names if not hps[k].is_fidelity and not isinstance(hps[k], ConstantParameter)]
        if mutable:
            try:
                m = a.mutate()
            except ValueError:
                m = None
            if m is not None:
                whole(m, "a mutation")
                diff = [k for k in names if m.hyperparameters[k].value != va[k]]
                ctx.check(len(diff) == 1 and diff[0] in mutable, "one hyperparameter is mutated", diff=diff)
        try:
            kids = a.crossover(b, rng.choice([0.0, 0.5, 1.0]))
        except Exception:
            kids = ()
        for c in kids:
            whole(c, "a crossover")
        ctx.eq((a.hp_values(), b.hp_values()), (va, vb), "parents are left alone")
        cl = a.clone()
        whole(cl, "a copy")
        ctx.eq(cl.hp_values(), va, "a copy has the same values")
        fd = sp.from_dict(va)
        ctx.eq(fd.hp_values(), va, "a configuration read back has the values given")
        if all(h.default is not None for h in hps.values()):
            d = sp.sample_default_configuration()
            ctx.eq({k: h.value for k, h in d.hyperparameters.items() if not h.is_fidelity},
                   {k: h.default for k, h in hps.items() if not h.is_fidelity}, "the default configuration has the defaults")
        ctx.eq({k: fields(h) for k, h in hps.items()}, before, "the space is left alone")
