from __future__ import annotations

import logging
import math
import random
import warnings

import numpy as np

import optkit as K
from hlib import case
from mfkit import ASYNC, BRACKETED, SYNC, async_hb, bracket_of, current, due_async, due_sync, loss_of, sizes, split
from neps.search_spaces import FloatParameter, IntegerParameter, SearchSpace

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")


def judge(ctx, name, opt, before, s):
    """Is the proposal one the promotion rule allows?"""
    c, r = split(s.id)
    data = dict(searcher=name, id=s.id, previous=s.previous_config_id, history=[(k, loss_of(t), t.report is not None) for k, t in before.items()][-25:])
    ctx.check(s.id not in before, "not twice to the same rung", **data)
    ctx.check(r <= opt.max_rung, "not beyond the top rung", **data)
    cur = current(before)
    if s.previous_config_id is None:
        ctx.check(c not in cur, "a configuration without predecessor is new", **data)
        if name in ("asha", "asha_prior", "priorband_asha"):
            ctx.check(not due_async(opt, before), "promotions that are due come first", due=list(due_async(opt, before)), **data)
        if name in SYNC:
            for k in cur:
                b = bracket_of(opt, name, k)
                if b and k == b[0]:
                    ctx.check(not due_sync(opt, name, before, *b), "promotions that are due come first", bracket=b[:2], **data)
        return False
    ctx.eq(s.previous_config_id, f"{c}_{r - 1}", "one rung higher than its predecessor", **data)
    p = before.get(s.previous_config_id)
    ctx.check(p is not None and p.report is not None, "the predecessor was evaluated", **data)
    ctx.check(cur[c][0] == r - 1, "the predecessor is the configuration's last trial", **data)
    fid = opt.pipeline_space.fidelity_name
    ctx.eq({k: v for k, v in s.config.items() if k != fid}, {k: v for k, v in p.config.items() if k != fid},
           "keeps its hyperparameters", **data)
    ctx.check(not math.isnan(loss_of(p)), "it has a loss", **data)
    if name in SYNC:
        lo, hi, z = bracket_of(opt, name, c)
        due = due_sync(opt, name, before, lo, hi, z)
        ctx.check(r - 1 in due, "the rung's quota allows a promotion, and none of it is unfinished", bracket=(lo, hi, z), **data)
    else:
        due = due_async(opt, before)
        ctx.check(r - 1 in due, "the rung is large enough", **data)
    left, here = due[r - 1]
    better = sum(loss_of(t) < loss_of(p) for t in here.values())
    ctx.check(better < left, "among the best of its rung", better=better, allowed=left, rung={k: loss_of(t) for k, t in here.items()}, **data)
    if name not in ("async_hyperband", "priorband_asha_hyperband"):
        ctx.check(r - 1 == max(due), "the highest rung that is due comes first", due=sorted(due), **data)
    return True


def spaces(rng):
    k = rng.randrange(5)
    sp = dict(x=FloatParameter(0, 1, default=0.5), n=IntegerParameter(-3, 9, default=2))
    if k == 0:
        sp["f"] = IntegerParameter(1, 27, is_fidelity=True)
    elif k == 1:
        sp["f"] = FloatParameter(0.5, 9.7, is_fidelity=True)
    elif k == 2:
        sp["f"] = IntegerParameter(2, 9, is_fidelity=True)
    elif k == 3:
        sp["f"] = IntegerParameter(1, 8, is_fidelity=True)
    else:
        sp["f"] = FloatParameter(1e-3, 1.0, log=True, is_fidelity=True)
    return SearchSpace(**sp)


def maker(name, rng):
    sp0 = spaces(rng)
    kw = dict(eta=rng.choice([2, 3, 3, 4]))
    if name in ("asha", "asha_prior", "priorband_asha", "successive_halving", "successive_halving_prior") and rng.random() < 0.3:
        kw["early_stopping_rate"] = 1
    if rng.random() < 0.5:
        kw["sample_default_first"] = rng.random() < 0.7
        kw["sample_default_at_target"] = rng.random() < 0.5
    if rng.random() < 0.3:
        kw["random_interleave_prob"] = 0.5

    def new():
        sp = sp0.clone()
        if name == "async_hyperband":
            return async_hb(sp, **kw)
        return K.make(name, sp, **kw)
    return new, kw


def losses(rng):
    k = rng.randrange(4)
    if k == 0:
        return lambda t: rng.random()
    if k == 1:
        return lambda t: rng.choice([0.0, 1.0, 0.5])
    if k == 2:
        return lambda t: rng.choice([rng.uniform(-9, 9), math.inf, -math.inf, 0.0, 1e300])
    return lambda t: abs(t.config["x"] - 0.3) + (rng.random() * 0.1 if rng.random() < 0.5 else 0)


@case
def histories(ctx):
    """Proposals over simulated histories, against the promotion rules."""
    rng = ctx.rng
    promoted = {}
    for k in range(ctx.n(44, 330)):
        name = (SYNC + [n for n in ASYNC if True])[k % 10]
        new, kw = maker(name, rng)
        n = rng.choice([25, 45, 70])
        random.seed(k + ctx.seed)
        np.random.seed(k + ctx.seed)
        nan = rng.random() < 0.15 and name in SYNC + ["asha"]
        ls = losses(rng)
        loss = (lambda t: math.nan if rng.random() < 0.1 else ls(t)) if nan else ls

        def see(opt, before, s):
            if judge(ctx, name, opt, before, s):
                promoted[name] = promoted.get(name, 0) + 1
        try:
            t = K.drive(new, n, rng, err=rng.choice([0, 0, 0.1, 0.4]), par=rng.choice([1, 2, 4, 8]), resume=rng.choice([0, 0.2, 1]), see=see,
                        loss=loss)
        except AssertionError as e:
            if "early_stopping_rate" in kw:      # more rungs cut than there are
                continue
            raise
        ctx.count((name, kw, list(t)))
    for name in SYNC + [n for n in ASYNC if True]:
        ctx.check(promoted.get(name, 0) > 0, "promotions were seen", searcher=name)


@case
def long_ladders(ctx):
    """Histories on ladders of more than ten rungs, handed over in any order."""
    rng = ctx.rng
    for k in range(ctx.n(12, 120)):
        name = rng.choice(ASYNC)
        top = rng.choice([1024, 2048, 4096])
        sp0 = SearchSpace(x=FloatParameter(0, 1, default=0.5), f=IntegerParameter(1, top, is_fidelity=True))

        def new():
            return async_hb(sp0.clone(), eta=2) if name == "async_hyperband" else K.make(name, sp0.clone(), eta=2)
        random.seed(k)
        np.random.seed(k)
        nr = new().max_rung + 1
        trials = {}
        losses = [rng.random() for _ in range(14)]
        for c in range(14):
            x = rng.random()
            for r in range(rng.randrange(max(0, nr - 5), nr) + 1):
                tid = f"{c}_{r}"
                t = K.Trial.new(trial_id=tid, config={"x": x, "f": max(1, top >> (nr - 1 - r))}, location="/" + tid,
                                previous_trial=f"{c}_{r - 1}" if r else None, previous_trial_location=f"/{c}_{r - 1}" if r else None,
                                time_sampled=0.0, worker_id="w")
                t.set_evaluating(time_started=0.0, worker_id="w")
                K.complete(t, losses[c] - 1e-3 * r)
                trials[tid] = t
        for _ in range(4):
            items = list(trials.items())
            rng.shuffle(items)
            trials = dict(items)
            opt = new()
            before = dict(trials)
            s = opt.ask(dict(trials), None)
            s = s[0] if isinstance(s, tuple) else s
            judge(ctx, name, opt, before, s)
            t = K.Trial.new(trial_id=s.id, config=s.config, location="/" + s.id, previous_trial=s.previous_config_id,
                            previous_trial_location=s.previous_config_id and "/" + s.previous_config_id, time_sampled=0.0, worker_id="w")
            t.set_evaluating(time_started=0.0, worker_id="w")
            trials[s.id] = t
            if rng.random() < 0.7:
                K.complete(t, rng.random())
        ctx.count((k, name, top))


@case
def policies(ctx):
    """The two promotion policies on rungs of any content."""
    from neps.optimizers.multi_fidelity.promotion_policy import AsyncPromotionPolicy, SyncPromotionPolicy
    rng = ctx.rng
    for k in range(ctx.n(600, 8000)):
        eta = rng.choice([2, 3, 4, 5])
        nr = rng.randrange(1, 5)
        lo = rng.randrange(0, nr)
        ids = list(range(200))
        rng.shuffle(ids)
        vals = lambda n: np.array([rng.choice([rng.random(), 0.5, math.inf, -1.0]) for _ in range(n)], dtype=float)
        if k % 2:
            mem, perf = {}, {}
            for r in range(lo, nr):
                n = rng.choice([0, 1, eta - 1, eta, eta + 1, 2 * eta, 17])
                mem[r], perf[r] = np.array(sorted(ids.pop() for _ in range(n)), dtype=int), vals(n)
            pol = AsyncPromotionPolicy(eta)
            for _ in range(rng.choice([1, 2])):
                pol.set_state(max_rung=nr - 1, members=mem, performances=perf, config_map={})
                out = pol.retrieve_promotions()
            for r in range(lo, nr):
                got = list(out.get(r, []))
                if r == nr - 1:
                    ctx.check(not got, "none from the top rung", got=got)
                    continue
                top = len(mem[r]) // eta
                check_best(ctx, got, mem[r], perf[r], top, eta=eta, rung=r)
        else:
            z = sizes(nr, lo, eta)
            mem, perf = {r: np.array([], dtype=int) for r in z}, {r: vals(0) for r in z}
            # a bracket on its way: each rung holds what was not promoted from it
            total = rng.choice([z[lo], z[lo], rng.randrange(0, z[lo] + 1)])
            cnt = {}
            for r in sorted(z):
                up = 0
                if r < nr - 1 and total == z[r]:
                    up = rng.randrange(0, z[r] // eta + 1)
                cnt[r] = total - up
                total = up
            pend = rng.random() < 0.3
            for r in z:
                mem[r], perf[r] = np.array(sorted(ids.pop() for _ in range(cnt[r])), dtype=int), vals(cnt[r])
                if pend and len(perf[r]) and rng.random() < 0.5:
                    perf[r][rng.randrange(len(perf[r]))] = math.nan
            pol = SyncPromotionPolicy(eta)
            pol.set_state(max_rung=nr - 1, members=mem, performances=perf, config_map=z)
            out = pol.retrieve_promotions()
            higher = 0
            stopped = False
            for r in sorted(z, reverse=True):
                n = len(mem[r]) + higher
                full = n >= z[r]
                stopped = stopped or full and bool(np.isnan(perf[r]).any())
                top = z[r] // eta - higher if full and not stopped and r < nr - 1 else 0
                check_best(ctx, list(out.get(r, [])), mem[r], perf[r], top, eta=eta, rung=r, sizes=z, counts=cnt)
                higher = n
        ctx.count((k, eta, nr, lo, [len(m) for m in mem.values()]))


def check_best(ctx, got, mem, perf, top, **data):
    loss = dict(zip(mem.tolist(), perf.tolist()))
    ctx.check(len(set(got)) == len(got) and set(got) <= set(loss), "promotes members of the rung", got=got, members=loss, **data)
    ctx.eq(len(got), min(top, len(mem)), "as many as the rung's share", got_ids=got, members=loss, **data)
    rest = [v for c, v in loss.items() if c not in got]
    if got and rest:
        ctx.check(max(loss[c] for c in got) <= min(rest), "the best of the rung", got=got, members=loss, **data)
    ctx.check([loss[c] for c in got] == sorted(loss[c] for c in got), "the best one first", got=got, members=loss, **data)
