from __future__ import annotations

import math

import torch

from domkit import domain, values
from hlib import case
from neps.search_spaces import CategoricalParameter, FloatParameter, IntegerParameter
from neps.search_spaces.domain import Domain
from neps.search_spaces.encoding import CategoricalToIntegerTransformer, CategoricalToUnitNorm, ConfigEncoder, MinMaxNormalizer

POOL = ["a", "b", "relu", "tanh", 1, 2, 3, 0.5, 2.5, "x y", -7, "1", "0.5", 10, 11, 12]


def param(rng):
    k = rng.random()
    if k < 0.35:
        return CategoricalParameter(rng.sample(POOL, rng.randrange(2, 12)))
    d = domain(rng)
    return (IntegerParameter if d.is_int else FloatParameter)(d.lower, d.upper, log=d.log_bounds is not None)


def value(rng, hp):
    return rng.choice(hp.choices) if isinstance(hp, CategoricalParameter) else rng.choice(values(rng, hp.domain, 4))


def matches(hp, v, w, single=False):
    if isinstance(hp, CategoricalParameter):
        return type(w) is type(v) and w == v
    d = hp.domain
    if isinstance(hp, IntegerParameter):
        if not isinstance(w, int) or not d.lower <= w <= d.upper:
            return False
        if d.log_bounds is None:
            return w == v or single and abs(w - v) <= 1e-6 * (d.upper - d.lower)
        eps = 1e-4 if single else 1e-6
        step = (d.log_bounds[1] - d.log_bounds[0]) / (d.cardinality - 1)      # levels of the log scale, then rounding
        return abs(w - v) <= 0.51 + 1e-9 * v or math.log(max(v - 0.51, 1e-9)) - step * 1.001 - eps <= math.log(w) \
            <= math.log(v + 0.51) + step * 1.001 + eps
    scale = max(abs(d.lower), abs(d.upper))
    if d.log_bounds:
        return isinstance(w, float) and d.lower <= w <= d.upper and abs(math.log(w) - math.log(v)) <= (1e-4 if single else 1e-11)
    return isinstance(w, float) and d.lower <= w <= d.upper and abs(w - v) <= (1e-5 if single else 1e-14) * scale * 4


@case
def default(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(1200, 10000)):
        names = rng.sample("abcdefghij", rng.randrange(1, 6))
        hps = {n: param(rng) for n in names}
        consts = {n: rng.choice([1, "const", 2.5]) for n in rng.sample("uvwxyz", rng.randrange(0, 3))}
        enc = ConfigEncoder.default(hps, constants=dict(consts) if consts or rng.random() < 0.5 else None)
        N = rng.choice([1, 2, 3, 7])
        confs = []
        for _ in range(N):
            c = {n: value(rng, h) for n, h in hps.items()}
            c.update(consts)
            items = list(c.items())
            rng.shuffle(items)
            confs.append(dict(items))
        ctx.count((names, repr(confs[0])))
        single = rng.random() < 0.2
        x = enc.encode(confs, dtype=torch.float32 if single else None)
        ctx.eq(tuple(x.shape), (N, len(names)), "one row per configuration, one column per hyperparameter")
        ctx.eq((x.dtype, enc.ncols, len(enc.domains)), (torch.float32 if single else torch.float64, len(names), len(names)), "shape")
        ctx.eq(sorted(names), list(enc.transformers), "columns in the order of names")
        for n, i in enc.index_of.items():
            d = enc.domains[i]
            ctx.check(d is enc.domain_of[n] and d is enc.transformers[n].domain, "a column has the domain of its hyperparameter", name=n)
            col = x[:, i].double()
            ctx.check(bool((col >= d.lower).all() and (col <= d.upper).all()), "a column lies within its domain", name=n, col=col.tolist())
            ctx.eq(d.is_categorical, isinstance(hps[n], CategoricalParameter), "categorical columns are known")
        back = enc.decode(x)
        ctx.eq(len(back), N, "as many configurations come back")
        for a, b in zip(confs, back):
            ctx.eq(set(b), set(a), "the same hyperparameters and constants come back")
            for n in a:
                ctx.check(b[n] == a[n] if n in consts else matches(hps[n], a[n], b[n], single), "a value comes back", name=n,
                          hp=hps.get(n), given=a[n], got=b[n])
        # the order of hyperparameters makes no difference
        other = ConfigEncoder.default(dict(reversed(list(hps.items()))), constants=consts)
        ctx.check(bool((other.encode(confs) == enc.encode(confs)).all()), "the order of hyperparameters makes no difference")
        # anything in the domains decodes to legal values
        cols = []
        for d in enc.domains:
            cols.append([rng.choice([d.lower, d.upper, rng.randint(d.lower, d.upper) if d.is_int else rng.uniform(d.lower, d.upper)])
                         for _ in range(4)])
        y = torch.tensor(cols, dtype=torch.float64).T
        for c in enc.decode(y):
            for n, h in hps.items():
                v = c[n]
                ctx.check(v in h.choices if isinstance(h, CategoricalParameter) else h.lower <= v <= h.upper
                          and isinstance(v, int if isinstance(h, IntegerParameter) else float),
                          "a decoded value is legal", name=n, hp=h, value=v)


@case
def transformers(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(1500, 12000)):
        cs = rng.sample(POOL, rng.randrange(2, 14)) if rng.random() < 0.7 else [f"c{i}" for i in range(rng.randrange(2, 130))]
        xs = [rng.choice(cs) for _ in range(rng.randrange(1, 9))] + cs
        ctx.count((cs, xs))
        for cls in (CategoricalToIntegerTransformer, CategoricalToUnitNorm):
            t = cls(cs)
            for kw in ({}, dict(dtype=torch.float64), dict(out=torch.full((len(xs),), -5.0, dtype=torch.float64)),
                       dict(out=torch.full((len(xs), 3), -5.0, dtype=torch.float32)[:, 1])):
                y = t.encode(xs, **kw)
                if "out" in kw:
                    ctx.check(bool((kw["out"] == y).all()), "the tensor given is filled")
                ctx.check(bool((y >= t.domain.lower).all() and (y <= t.domain.upper).all()), "codes lie in the domain", cls=cls)
                got = t.decode(y)
                ctx.eq(got, xs, "choices come back", cls=cls)
                ctx.check(all(type(a) is type(b) for a, b in zip(got, xs)), "choices come back as they were")
            ctx.eq(t.domain.cardinality, len(cs), "one value per choice")
            us = [rng.uniform(t.domain.lower, t.domain.upper) for _ in range(10)] + [t.domain.lower, t.domain.upper]
            ctx.check(all(c in cs for c in t.decode(torch.tensor(us, dtype=torch.float64))), "anything in the domain decodes to a choice")
        d = domain(rng, (rng.random() < 0.5, rng.random() < 0.4, False))
        vs = values(rng, d, 10)
        t = MinMaxNormalizer(d, bins=rng.choice([None, None, 2, 5, 10]))
        hp = (IntegerParameter if d.is_int else FloatParameter)(d.lower, d.upper, log=d.log_bounds is not None)
        for kw in ({}, dict(dtype=torch.float64), dict(out=torch.full((len(vs),), -5.0, dtype=torch.float64))):
            y = t.encode(vs, **kw)
            if "out" in kw:
                ctx.check(y is kw["out"], "the tensor given is filled")
            ctx.check(bool((y >= 0).all() and (y <= 1).all()), "codes lie in the unit interval", domain=d)
            back = t.decode(y)
            if t.bins is None:
                ctx.check(all(matches(hp, a, b) for a, b in zip(vs, back)), "numbers come back", domain=d,
                          wrong=[(a, b) for a, b in zip(vs, back) if not matches(hp, a, b)][:4])
            ctx.check(all(d.lower <= b <= d.upper for b in back), "decoded numbers are legal", domain=d)


@case
def refusals(ctx):
    h = {"a": FloatParameter(0, 1), "b": CategoricalParameter(["x", "y"])}
    from neps.search_spaces import ConstantParameter
    ctx.count("overlap")
    ctx.raises(ValueError, lambda: ConfigEncoder.default(h, constants={"a": 1}), "overlapping constants are refused")
    ctx.raises(ValueError, lambda: ConfigEncoder.default({**h, "c": ConstantParameter(1)}), "constants among parameters are refused")
    t = CategoricalToUnitNorm(["x", "y"])
    e = ConfigEncoder.default(h, custom_transformers={"b": t})
    ctx.check(e.transformers["b"] is t and e.domain_of["b"] is t.domain, "a custom transformer is used")
    ctx.eq(e.decode(e.encode([{"a": 0.25, "b": "y"}, {"b": "x", "a": 1.0}])), [{"a": 0.25, "b": "y"}, {"a": 1.0, "b": "x"}], "and decoded")
