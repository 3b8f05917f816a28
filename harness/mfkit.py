"""What multi-fidelity optimizers are allowed to propose, computed from the stored trials alone."""
from __future__ import annotations

import logging
import math
import warnings


logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
ASYNC = ["asha", "asha_prior", "priorband_asha", "priorband_asha_hyperband", "async_hyperband"]
SYNC = ["successive_halving", "successive_halving_prior", "hyperband", "hyperband_custom_default", "priorband"]
BRACKETED = ["hyperband", "hyperband_custom_default", "priorband"]


def split(tid):
    c, r = tid.split("_")
    return int(c), int(r)


def ladder(opt):
    """Fidelity of each rung, from the declared bounds alone."""
    f = opt.pipeline_space.fidelity
    top = opt.max_rung
    return {r: max(f.upper / opt.eta ** (top - r), f.lower) for r in range(0, top + 1)}


def loss_of(t):
    return math.inf if t.report is None or t.report.loss is None else t.report.loss


def current(trials):
    """Each configuration's highest trial."""
    top = {}
    for tid, t in trials.items():
        c, r = split(tid)
        if c not in top or top[c][0] < r:
            top[c] = (r, t)
    return top


def sizes(nr, s, eta):
    """Configurations per rung of the bracket that starts at rung s."""
    n = (nr // (nr - s)) * eta ** (nr - 1 - s)
    return {s + i: n // eta ** i for i in range(nr - s)}


def bracket_of(opt, name, c):
    """First and last configuration of the bracket of configuration c, and its sizes."""
    nr, eta = opt.max_rung + 1, opt.eta
    at = 1 if opt.sample_default_first and opt.sample_default_at_target else 0
    if c < at:
        return None
    s = opt.early_stopping_rate
    while True:
        z = sizes(nr, s, eta)
        n = z[s]
        if c < at + n:
            return at, at + n, z
        at += n
        if name in BRACKETED:
            s = (s + 1) % nr


def due_sync(opt, name, before, lo, hi, z):
    """Configurations of one bracket that may be promoted: rung -> (quota left, members)."""
    cur = {c: v for c, v in current(before).items() if lo <= c < hi}
    out = {}
    total = 0
    for r in sorted(z, reverse=True):
        here = {c: t for c, (q, t) in cur.items() if q == r}
        total += len(here)
        if total < z[r]:
            continue
        if any(t.report is None or math.isnan(loss_of(t)) for t in here.values()):
            break
        if r == max(z):
            continue
        left = z[r] // opt.eta - (total - len(here))
        if left > 0 and here:
            out[r] = (left, here)
    return out


def due_async(opt, before):
    cur = current(before)
    if opt.sample_default_first and opt.sample_default_at_target:
        cur.pop(0, None)
    out = {}
    for r in range(0, opt.max_rung):
        here = {c: t for c, (q, t) in cur.items() if q == r and t.report is not None and not math.isnan(loss_of(t))}
        if len(here) // opt.eta:
            out[r] = (len(here) // opt.eta, here)
    return out


def async_hb(sp, **k):
    from neps.optimizers.multi_fidelity.hyperband import AsynchronousHyperband
    return AsynchronousHyperband(pipeline_space=sp, budget=100, ignore_errors=True, **k)
