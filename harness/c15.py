from __future__ import annotations

import logging
import math
import random
import warnings

import numpy as np

import mfkit
import optkit as K
from hlib import case
from neps.search_spaces import FloatParameter, IntegerParameter, SearchSpace

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
CUT = ["successive_halving", "successive_halving_prior", "asha", "asha_prior", "priorband_asha"]
ALL = CUT + ["hyperband", "hyperband_custom_default", "priorband", "async_hyperband", "priorband_asha_hyperband"]


def fidelity(rng):
    k = rng.randrange(6)
    if k < 3:
        lo = rng.choice([1, 1, 2, 3, 5, 10, 50])
        hi = rng.choice([lo + 1, lo * 2, lo * 3, lo * 9, lo * 27, lo * 81, lo + rng.randrange(1, 500), lo * 7 + 3, 10000])
        return IntegerParameter(lo, max(hi, lo + 1), is_fidelity=True, log=rng.random() < 0.2)
    if k == 3:
        lo = rng.choice([1e-5, 0.1, 1 / 3, 0.7, 1.0, 3.3])
        return FloatParameter(lo, lo * rng.choice([3, 9, 27, 81, 243, 2, 8, 64, 10, 1000, 7.77]), is_fidelity=True, log=rng.random() < 0.2)
    lo = rng.uniform(1e-3, 5)
    return FloatParameter(lo, lo * rng.uniform(1.01, 300), is_fidelity=True)


def space(rng, f=None):
    return SearchSpace(x=FloatParameter(0, 1, default=0.5), c=IntegerParameter(-3, 9, default=2), f=f or fidelity(rng))


def build(name, sp, **kw):
    if name == "async_hyperband":
        return mfkit.async_hb(sp, **kw)
    return K.make(name, sp, **kw)


def check_ladder(ctx, o, sp, s, **data):
    """The fidelities of a bracket that starts at rung s."""
    f, eta = sp.fidelity, o.eta
    m = o.rung_map
    data = dict(data, lower=f.lower, upper=f.upper, eta=eta, s=s, rungs=m)
    rungs = sorted(m)
    ctx.eq(rungs, list(range(rungs[0], rungs[-1] + 1)), "one value per rung", **data)
    ctx.eq(rungs[0], s, "the lowest rung is the stopping rate", **data)
    ctx.check((o.min_rung, o.max_rung) == (rungs[0], rungs[-1]), "lowest and highest rung", **data)
    v = [m[r] for r in rungs]
    ctx.check(v[-1] == f.upper, "the top rung has the highest fidelity", **data)
    ctx.check(all(f.lower <= x <= f.upper for x in v), "every fidelity inside the bounds", **data)
    ctx.check(all(a < b for a, b in zip(v, v[1:])), "strictly increasing", **data)
    for k, r in enumerate(reversed(rungs)):
        want = f.upper / eta ** k
        if isinstance(f, IntegerParameter):
            ctx.check(type(m[r]) is int or isinstance(m[r], (int, np.integer)), "integer fidelities are integers", **data)
            ctx.check(m[r] in (math.floor(want), max(f.lower, f.upper // eta ** k), math.floor(want * (1 + 1e-12))), "each the next one divided by the factor", want=want, **data)
        else:
            ctx.check(abs(m[r] - want) <= 1e-9 * want, "each the next one divided by the factor", want=want, **data)
    if s == 0:
        ctx.check(f.upper / eta ** len(rungs) < f.lower * (1 + 1e-9), "as far down as the bounds allow", **data)


def check_sizes(ctx, o, s, nr, **data):
    eta, z = o.eta, o.config_map
    data = dict(data, eta=eta, s=s, nr=nr, sizes=z)
    ctx.eq(sorted(z), sorted(o.rung_map), "a number of configurations per rung", **data)
    want = mfkit.sizes(nr, s, eta)
    ctx.check(all(type(v) is int for v in z.values()), "numbers are whole", **data)
    ctx.eq(z, want, "shrinking by the factor, as in Hyperband's schedule", **data)
    ctx.check(z[max(z)] >= 1, "at least one at the top", **data)
    if type(o).__name__ not in ("Hyperband", "HyperbandCustomDefault", "PriorBand", "AsynchronousHyperband", "PriorBandAshaHB"):
        ctx.eq(list(o.full_rung_trace), [r for r in sorted(z) for _ in range(z[r])], "rungs of the bracket in sequence", **data)


@case
def ladders(ctx):
    """Fidelities and sizes of all rungs, for any bounds, factor and stopping rate."""
    rng = ctx.rng
    for k in range(ctx.n(260, 4000)):
        name = ALL[k % len(ALL)]
        sp = space(rng)
        f = sp.fidelity
        eta = rng.choice([2, 3, 3, 4, 5, 6, 7, 10])
        nr = build(name, sp.clone(), eta=eta).max_rung + 1
        kw = {}
        s = 0
        if name in CUT:
            s = rng.randrange(nr)
            kw["early_stopping_rate"] = s
        o = build(name, sp.clone(), eta=eta, **kw)
        data = dict(searcher=name)
        check_ladder(ctx, o, sp, s, **data)
        check_sizes(ctx, o, s, nr, **data)
        for b, sub in getattr(o, "sh_brackets", {}).items():
            check_ladder(ctx, sub, sp, b, bracket=b, **data)
            check_sizes(ctx, sub, b, nr, bracket=b, **data)
            for r in sub.rung_map:
                ctx.eq(sub.rung_map[r], o.rung_map[r], "all brackets agree on a rung's fidelity", bracket=b, **data)
        if hasattr(o, "sh_brackets"):
            ctx.eq(sorted(o.sh_brackets), list(range(nr)), "a bracket per rung", **data)
        ctx.count((name, f.lower, f.upper, eta, s))
        if name in CUT:
            e = ctx.raises(AssertionError, lambda: build(name, sp.clone(), eta=eta, early_stopping_rate=nr), "no bracket without rungs", eta=eta, nr=nr)


@case
def proposals(ctx):
    """Every proposal carries the fidelity of the rung in its id, from any history."""
    rng = ctx.rng
    for k in range(ctx.n(40, 300)):
        name = ALL[k % len(ALL)]
        sp0 = space(rng)
        kw = dict(eta=rng.choice([2, 3, 4]))
        if rng.random() < 0.6:
            kw.update(sample_default_first=rng.random() < 0.7, sample_default_at_target=rng.random() < 0.6)
        if name in CUT:
            nr = build(name, sp0.clone(), **kw).max_rung + 1
            kw["early_stopping_rate"] = rng.randrange(min(nr, 3))
        random.seed(k + ctx.seed)
        np.random.seed(k + ctx.seed)

        def see(opt, before, s):
            c, r = mfkit.split(s.id)
            lad = mfkit.ladder(opt)
            data = dict(searcher=name, id=s.id, config=s.config, lower=sp0.fidelity.lower, upper=sp0.fidelity.upper, **kw)
            ctx.check(opt.min_rung <= r <= opt.max_rung, "a rung of the ladder", **data)
            v = s.config["f"]
            ctx.check(sp0.fidelity.lower <= v <= sp0.fidelity.upper, "inside the bounds", **data)
            ctx.check(v == opt.rung_map[r], "the fidelity of its rung", rungs=opt.rung_map, **data)
            w = lad[r]
            ctx.check(abs(v - w) <= (1 if isinstance(sp0.fidelity, IntegerParameter) else 1e-9 * w), "the fidelity of its rung", want=w, **data)
            if s.previous_config_id is None:
                first = opt.use_priors and opt.sample_default_first and not before
                if first and opt.sample_default_at_target:
                    ctx.eq(r, opt.max_rung, "the default is evaluated at the highest fidelity", **data)
                elif name in CUT:
                    ctx.eq(r, opt.min_rung, "new configurations start at the lowest rung", **data)
                elif name in mfkit.BRACKETED and mfkit.bracket_of(opt, name, c):
                    z = mfkit.bracket_of(opt, name, c)[2]
                    ctx.eq(r, min(z), "new configurations start at the lowest rung of their bracket", **data)
        t = K.drive(lambda: build(name, sp0.clone(), **kw), rng.choice([12, 30]), rng, err=rng.choice([0, 0.2]), par=rng.choice([1, 4]),
                    resume=rng.choice([0, 0.3]), see=see)
        ctx.count((name, kw, sp0.fidelity.lower, sp0.fidelity.upper, len(t)))
