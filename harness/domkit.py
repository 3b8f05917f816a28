"""Random numeric domains and their values."""
from __future__ import annotations

import math

import torch

from neps.search_spaces.domain import Domain


def domain(rng, kind=None):
    is_int, log, binned = kind or (rng.random() < 0.5, rng.random() < 0.4, rng.random() < 0.35)
    bins = rng.choice([2, 3, 4, 5, 7, 10, 33, 100]) if binned else None
    if is_int:
        lo = rng.choice([1, 2, 3, 10, 100, 1000]) if log else rng.choice([0, 1, -1, -7, 5, -1000, 10 ** 6, -10 ** 6])
        hi = lo + rng.choice([1, 2, 3, 9, 10, 99, 1000, 12345, 10 ** 6, 10 ** 8])
        return Domain.integer(lo, hi, log=log, bins=bins)
    if log:
        lo = rng.choice([1e-8, 1e-6, 1e-5, 1e-3, 0.1, 1.0, 2.5, 1.0, 10 ** rng.uniform(-9, 3)])
        if lo == 1.0 and rng.random() < 0.4:
            return Domain.floating(lo, math.e ** rng.choice([1, 2]), log=True, bins=bins)
        hi = lo * rng.choice([2.0, 10.0, 100.0, 1e5, 1.0 + 10 ** rng.uniform(-3, 6)])
    else:
        lo = rng.choice([0.0, -1.0, 0.1, -0.3, 1e-3, 1e6, rng.uniform(-100, 100)])
        if lo in (0.0, -1.0) and rng.random() < 0.4:
            hi = lo + rng.choice([1, 2, 4, 9, 10])
            return Domain.floating(lo, hi, bins=bins and rng.choice([bins, int(hi - lo) + 1]))
        hi = lo + rng.choice([1.0, 0.1, 0.7, 1e-3, 1e5, 10 ** rng.uniform(-4, 6)])
    return Domain.floating(lo, hi, log=log, bins=bins)


def values(rng, d, n=40):
    """Sorted values of the domain, its ends included."""
    lo, hi = d.lower, d.upper
    vs = [lo, hi]
    if d.is_int:
        vs += [lo + 1, hi - 1]
        vs += [rng.randint(lo, hi) for _ in range(n)]
        if d.log_bounds:
            vs += [min(hi, max(lo, round(math.exp(rng.uniform(*d.log_bounds))))) for _ in range(n // 2)]
    else:
        vs += [math.nextafter(lo, hi), math.nextafter(hi, lo), lo + (hi - lo) / 2]
        vs = [min(hi, max(lo, v)) for v in vs]
        vs += [min(hi, max(lo, rng.uniform(lo, hi))) for _ in range(n)]
        if d.log_bounds:
            vs += [min(hi, max(lo, math.exp(rng.uniform(*d.log_bounds)))) for _ in range(n // 2)]
    return sorted(vs)


def tensor(d, vs):
    return torch.tensor(vs, dtype=torch.int64 if d.is_int else torch.float64)
