from __future__ import annotations

import math

import torch

from domkit import domain, tensor, values
from hlib import case
from neps.search_spaces.domain import UNIT_FLOAT_DOMAIN, Domain


def inside(ctx, d, y, what, **k):
    ctx.check(bool((y >= d.lower).all() and (y <= d.upper).all()), f"{what} lies within the bounds", domain=d, out=y.tolist()[:8], **k)
    if d.is_int:
        ctx.check(bool((y == torch.round(y.double())).all()), f"{what} is integral", domain=d, **k)
        ctx.check(y.dtype == torch.int64, f"{what} of an integer domain is an integer tensor", dtype=y.dtype)
    else:
        ctx.check(y.dtype == torch.float64, f"{what} of a float domain is a double tensor", dtype=y.dtype)


def ordered(ctx, y, what, **k):
    ctx.check(bool((y[1:] >= y[:-1]).all()), f"{what} preserves order", **k)


@case
def unit(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(3000, 30000)):
        d = domain(rng)
        vs = values(rng, d)
        x = tensor(d, vs)
        if d.is_int and rng.random() < 0.5:
            x = x.double()
        u = d.to_unit(x)
        ctx.count((repr(d), vs[0], vs[-1]))
        ctx.check(bool((u >= 0).all() and (u <= 1).all()), "normalised values lie in [0, 1]", domain=d, lo=u.min().item(),
                  hi=u.max().item())
        ordered(ctx, u, "normalising", domain=d)
        back = d.from_unit(u)
        inside(ctx, d, back, "the value back")
        ordered(ctx, back, "there and back", domain=d)
        if d.bins is None:
            if d.is_int and d.log_bounds is None:
                ctx.check(bool((back == tensor(d, vs)).all()), "an integer comes back exactly", domain=d,
                          wrong=[(a, b) for a, b in zip(vs, back.tolist()) if a != b][:3])
            elif not d.is_int:
                scale = max(abs(d.lower), abs(d.upper)) * (1 + abs(math.log(d.upper / d.lower)) + abs(d.log_bounds[0])
                                                           + abs(d.log_bounds[1]) if d.log_bounds else 1)
                ctx.check(bool(((back - x).abs() <= 1e-14 * scale).all()), "a float comes back up to rounding", domain=d,
                          err=(back - x).abs().max().item())
        one = rng.choice(vs)
        ctx.check(0 <= d.to_unit_one(one) <= 1, "a single value is normalised into [0, 1]", domain=d, value=one)
        w = sorted([0.0, 1.0, 0.5, math.nextafter(1.0, 0.0), 5e-324] + [rng.random() for _ in range(30)])
        for dt in (torch.float64, torch.float32):
            y = d.from_unit(torch.tensor(w, dtype=dt))
            inside(ctx, d, y, "the lifted value", dtype=dt)
            ordered(ctx, y, "lifting", domain=d, dtype=dt)
        if d.bins is None and not (d.is_int and d.log_bounds):
            ends = d.from_unit(torch.tensor([0.0, 1.0], dtype=torch.float64)).tolist()
            ctx.check(math.isclose(ends[0], d.lower, rel_tol=1e-12, abs_tol=1e-12) and math.isclose(ends[1], d.upper, rel_tol=1e-12),
                      "the ends of the unit interval are the ends of the domain", domain=d, ends=ends)


def related(rng, d):
    """A domain sharing bounds, scale or log bounds with d."""
    k = rng.randrange(4)
    if k == 0:
        return d
    bins = rng.choice([None, 2, 5, d.bins, 10])
    mk = Domain.integer if d.is_int else Domain.floating
    if k == 1:
        return mk(d.lower, d.upper, log=d.log_bounds is not None, bins=bins)
    if k == 2 and d.log_bounds:
        if rng.random() < 0.3:
            return Domain.integer(round(d.log_bounds[0]), max(round(d.log_bounds[1]), round(d.log_bounds[0]) + 1), bins=bins)
        return Domain.floating(*d.log_bounds, bins=bins)
    if k == 3 and float(d.lower).is_integer() and float(d.upper).is_integer():
        n = int(d.upper - d.lower + 1)
        return (Domain.floating(d.lower, d.upper, bins=rng.choice([bins, n if n < 10 ** 6 else None])) if d.is_int
                else Domain.integer(d.lower, d.upper, bins=bins))
    if k == 3 and (not d.is_int or rng.random() < 0.3):
        return mk(d.lower, d.upper, bins=bins)
    return domain(rng)


@case
def cast(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(8000, 60000)):
        frm = domain(rng)
        to = related(rng, frm) if rng.random() < 0.5 else rng.choice([domain(rng), UNIT_FLOAT_DOMAIN])
        vs = values(rng, frm, 20)
        y = to.cast(tensor(frm, vs), frm=frm)
        ctx.count((repr(frm), repr(to)))
        inside(ctx, to, y, "the converted value", frm=frm, given=vs[:8])
        ordered(ctx, y, "converting", frm=frm, to=to)
        z = to.cast(tensor(frm, vs), frm=frm, dtype=torch.float64)
        ctx.check(bool((z >= to.lower).all() and (z <= to.upper).all() and (not to.is_int or (z == z.round()).all())),
                  "the converted value is in the domain in a floating tensor too", frm=frm, to=to, given=vs[:8], out=z.tolist()[:8])
        one = rng.choice(vs)
        r = to.cast_one(one, frm=frm)
        ctx.check(to.lower <= r <= to.upper, "a single converted value lies within the bounds", frm=frm, to=to, value=one, got=r)
        if to.is_int:
            ctx.check(isinstance(r, int), "a single converted value is an integer", got=r)
        if repr(to) == repr(frm):
            ctx.eq(y.tolist(), vs, "conversion into the same domain changes nothing", domain=frm)
        # reference: through the unit interval, for unbinned continuous domains
        if frm.bins is None and to.bins is None and not frm.is_int and not to.is_int:
            def lin(d, v):
                return (math.log(v) - math.log(d.lower)) / (math.log(d.upper) - math.log(d.lower)) if d.log_bounds else \
                    (v - d.lower) / (d.upper - d.lower)

            def un(d, u):
                return math.exp(u * (math.log(d.upper) - math.log(d.lower)) + math.log(d.lower)) if d.log_bounds else \
                    u * (d.upper - d.lower) + d.lower
            is_log_of = frm.log_bounds == (to.lower, to.upper)
            want = [math.log(v) if is_log_of else un(to, lin(frm, v)) for v in vs]
            tol = 1e-9 * max(1, abs(to.lower), abs(to.upper)) * (1 + max(abs(frm.lower), abs(frm.upper)) / (frm.upper - frm.lower))
            ctx.check(all(abs(a - b) <= tol for a, b in zip(want, y.tolist())), "the converted value is at the same place",
                      frm=frm, to=to, want=want[:5], got=y.tolist()[:5])


def inside_any(ctx, d, y):
    ctx.check(bool((y >= d.lower).all() and (y <= d.upper).all()), "a converted column lies within its bounds", domain=d, out=y.tolist()[:8])


@case
def translate(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(1200, 12000)):
        n = rng.randrange(1, 6)
        fs = [domain(rng) for _ in range(n)]
        ts = [related(rng, f) if rng.random() < 0.4 else domain(rng) for f in fs]
        rows = rng.randrange(1, 5)
        cols = [[rng.choice(values(rng, f, 5)) for _ in range(rows)] for f in fs]
        x = torch.tensor(cols, dtype=torch.float64).T
        if rng.random() < 0.3 and rows == 1:
            x = x[0]
        how = rng.randrange(3)
        frm = fs if how != 1 else fs[0]
        to = ts if how != 2 else ts[0]
        if how == 1:
            x = torch.tensor([[rng.choice(values(rng, fs[0], 5)) for _ in range(n)] for _ in range(rows)], dtype=torch.float64)
        before = x.clone()
        y = Domain.translate(x, frm=frm, to=to, dtype=torch.float64)
        ctx.check(bool((x == before).all()), "the given tensor is not changed")
        y2, x2 = (y if y.ndim > 1 else y.unsqueeze(0)), (x if x.ndim > 1 else x.unsqueeze(0))
        ctx.count((how, n, rows, repr(fs[0]), repr(ts[-1])))
        for i in range(n):
            f, t = (fs[0] if how == 1 else fs[i]), (ts[0] if how == 2 else ts[i])
            want = t.cast(x2[..., i], frm=f, dtype=torch.float64)
            ctx.eq(y2[..., i].tolist(), want.tolist(), "each column is converted by its own pair of domains", column=i, frm=f, to=t)
        if all(f.is_int for f in fs) and how != 1:
            z = Domain.translate(x2.long(), frm=fs, to=to)
            for i in range(n):
                t = ts[0] if how == 2 else ts[i]
                inside_any(ctx, t, z[..., i])
                ctx.eq(z[..., i].tolist(), t.cast(x2[..., i].long(), frm=fs[i], dtype=z.dtype).tolist(),
                       "an integer tensor is converted like any other", to=t)
        if rng.random() < 0.3:
            ctx.raises(ValueError, lambda: Domain.translate(x, frm=fs + [fs[0]], to=ts), "too many domains are refused")
            ctx.raises(ValueError, lambda: Domain.translate(x, frm=fs, to=ts[:-1]), "too few domains are refused")


@case
def cardinality(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(1200, 12000)):
        d = domain(rng)
        ctx.count(repr(d))
        if d.cardinality is None:
            ctx.raises(ValueError, d.as_integer_domain, "a continuous domain has no index domain")
            continue
        ctx.eq(d.cardinality, d.bins if d.bins else d.upper - d.lower + 1, "number of values")
        i = d.as_integer_domain()
        ctx.eq((i.lower, i.upper, i.cardinality), (0, d.cardinality - 1, d.cardinality), "index domain")
        if d.bins and d.bins < 40:
            k = torch.arange(d.bins)
            y = d.cast(k, frm=Domain.indices(d.bins))
            inside(ctx, d, y, "the value of a bin")
            ordered(ctx, y, "bins", domain=d)
            if not d.is_int:
                ctx.check(len(set(y.tolist())) == d.bins, "every bin has its own value", domain=d)
