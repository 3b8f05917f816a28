"""C20 on the real code: grids of arbitrary spaces, and whole runs of grid search."""
from __future__ import annotations

import itertools
import logging
import math
import random

import numpy as np

import runkit as R
from hlib import case
from neps.optimizers.grid_search.optimizer import GridSearch
from neps.search_spaces import CategoricalParameter, ConstantParameter, FloatParameter, IntegerParameter, SearchSpace
from neps.state.trial import Trial

logging.disable(logging.CRITICAL)


def hyperparameter(rng, small=False):
    k = rng.randrange(6)
    if k == 0:
        a = rng.choice([-5.0, 0.0, 0.1, 1e-9, -1e6, rng.uniform(-3, 3)])
        return FloatParameter(a, a + rng.choice([1.0, 1e-3, 7.3, 1e6, rng.uniform(0.1, 9)]))
    if k == 1:
        a = rng.choice([1e-5, 1e-3, 0.1, 1.0, 17.0])
        return FloatParameter(a, a * rng.choice([2.0, 10.0, 1e4, 1.5]), log=True)
    if k == 2:
        a = rng.choice([-7, 0, 1, -1000, 5])
        return IntegerParameter(a, a + rng.choice([1, 2, 3, 8, 9, 10, 100, 12345]))
    if k == 3:
        a = rng.choice([1, 2, 10])
        return IntegerParameter(a, a * rng.choice([2, 5, 10, 1000]) + 1, log=True)
    if k == 4:
        pool = rng.choice([["a", "b", "c", "d"], [1, 2, 3, 5], [0.5, 0.25, 2.0], ["x", 1, 0.5], ["1", 1, "1.0"], [True, "no", 3]])
        return CategoricalParameter(rng.sample(pool, rng.randrange(2, len(pool) + 1)))
    return ConstantParameter(rng.choice(["c", 0, 1, -2.5, None and 0, "0"]) if not small else "c")


def spaces(rng, most=3):
    names = ["b", "a", "z", "lr", "_x", "A"]
    rng.shuffle(names)
    d = {n: hyperparameter(rng) for n in names[:rng.randrange(1, most + 1)]}
    if rng.random() < 0.3:
        d["fid"] = IntegerParameter(1, rng.choice([2, 9, 50]), is_fidelity=True)
    return SearchSpace(**d)


def values_of(ctx, hp, size, seen):
    """The values seen for one hyperparameter, against the documented grid."""
    if isinstance(hp, CategoricalParameter):
        ctx.eq(sorted(seen, key=repr), sorted(hp.choices, key=repr), "all choices")
        return
    if isinstance(hp, ConstantParameter):
        ctx.eq(seen, [hp.value], "the constant")
        return
    whole = isinstance(hp, IntegerParameter)
    data = dict(hp=repr(hp), size=size, seen=seen)
    ctx.check(all(type(v) is (int if whole else float) for v in seen), "of the declared type", **data)
    ctx.check(all(hp.lower <= v <= hp.upper for v in seen), "legal", **data)
    near = 0.0 if whole else 1e-9 * max(abs(hp.lower), abs(hp.upper))
    v = sorted(seen)
    ctx.check(abs(v[0] - hp.lower) <= near and abs(v[-1] - hp.upper) <= near, "both ends", **data)
    ctx.check(len(v) <= size, "no more than asked for", **data)
    f, g = (math.log, math.exp) if hp.log else (float, float)
    for k in range(size):
        x = g(f(hp.lower) + (f(hp.upper) - f(hp.lower)) * k / (size - 1))
        # whole numbers: the nearest one on a range half a step wider at both ends
        slack = (1.01 if not hp.log else 1.01 + 0.5 * x / hp.lower) if whole else near + 1e-9 * abs(x)
        ctx.check(any(abs(w - x) <= slack for w in v), "evenly spaced", place=x, **data)
    if not whole:
        ctx.eq(len(v), size, "as many as asked for", **data)


def key(c):
    return tuple(sorted((k, type(v).__name__, repr(v)) for k, v in c.items()))


@case
def grids(ctx):
    """The grid is the product of the values of each hyperparameter, without duplicates."""
    rng = ctx.rng
    for _ in range(ctx.n(150, 2500)):
        sp = spaces(rng)
        size = rng.choice([2, 3, 4, 5, 7, 10])
        o = GridSearch(sp, grid_step_size=size, seed=rng.choice([None, 0, 7]))
        pts = o.configs_list
        names = list(sp.hyperparameters)
        ctx.check(all(list(c) == names or set(c) == set(names) for c in pts), "a value for each hyperparameter", space=repr(sp))
        per = []
        for n in names:
            vals = list({(type(c[n]).__name__, repr(c[n])): c[n] for c in pts}.values())
            values_of(ctx, sp.hyperparameters[n], size, vals)
            per.append(vals)
        want = {key(dict(zip(names, c))) for c in itertools.product(*per)}
        ctx.eq(len(pts), len(want), "each point once", space=repr(sp), size=size)
        ctx.check({key(c) for c in pts} == want, "all combinations", space=repr(sp), size=size)
        ctx.count((repr(sp), size))


def trial(s, k, rng):
    t = Trial.new(trial_id=s.id, config=s.config, location="/" + s.id, previous_trial=None, previous_trial_location=None,
                  time_sampled=float(k), worker_id="w")
    how = rng.randrange(4)
    if how:
        t.set_evaluating(time_started=0.0, worker_id="w")
    if how > 1:
        t.report = t.set_complete(report_as="success" if how == 2 else "crashed", time_end=1.0, loss=1.0 if how == 2 else None, cost=None,
                                  learning_curve=None, err=None, tb=None, extra={}, evaluation_duration=1.0)
    return t


@case
def orders(ctx):
    """Every point is proposed once, whoever asks and whatever became of the earlier trials; then the search is exhausted."""
    rng = ctx.rng
    for k in range(ctx.n(60, 900)):
        sp = spaces(rng, 2)
        size = rng.choice([2, 3, 5])
        seed = rng.choice([None, None, 0, 1, 12345])
        new = lambda: GridSearch(sp.clone(), grid_step_size=size, seed=seed)
        workers = [new() for _ in range(rng.randrange(1, 4))]
        points = [key(c) for c in workers[0].configs_list]
        trials, got = {}, []
        for n in range(len(points)):
            random.seed(rng.random())
            np.random.seed(n)
            o = new() if rng.random() < 0.2 else rng.choice(workers)
            items = list(trials.items())
            rng.shuffle(items)
            if rng.random() < 0.2:
                o.ask(dict(items), None)         # a proposal that never arrived
            s = o.ask(dict(items), None)
            ctx.check(s.id not in trials and s.previous_config_id is None, "a new id", id=s.id)
            trials[s.id] = trial(s, n, rng)
            got.append(key(s.config))
        ctx.check(sorted(got) == sorted(points), "every point exactly once", space=repr(sp), seed=seed, points=len(points),
                  twice=[x for x in set(got) if got.count(x) > 1][:3])
        for o in [*workers, new()]:
            ctx.raises(ValueError, lambda: o.ask(dict(trials), None), "an exhausted search says so")
        ctx.count((repr(sp), size, seed))


def sample_all(d, sp, size, seed, wid):
    from neps.state.filebased import load_filebased_neps_state
    state = load_filebased_neps_state(d)
    o = GridSearch(sp, grid_step_size=size, seed=seed)
    out = []
    while True:
        try:
            t = state.sample_trial(o, worker_id=wid)
        except ValueError as e:
            if "exhausted" not in str(e):
                raise
            return out
        out.append((t.id, key(t.config)))


@case
def runs(ctx):
    """Several processes sample from one run until it is exhausted."""
    rng = ctx.rng
    for k in range(ctx.n(4, 30)):
        d = ctx.dir() / "run"
        R.state_at(d)
        sp = SearchSpace(x=FloatParameter(0, 1), c=CategoricalParameter(["a", "b", "c"]), n=IntegerParameter(1, 3))
        seed = rng.choice([None, 3])
        ps = [R.Fork(sample_all, d, sp, 3, seed, f"w{i}") for i in range(3)]
        rs = [p.result() for p in ps]
        ctx.check(all(st == "ok" for st, _ in rs), "every worker samples until the search is exhausted", results=rs)
        got = [x for _, r in rs for x in r]
        points = [key(c) for c in GridSearch(sp, grid_step_size=3).configs_list]
        ctx.check(sorted(c for _, c in got) == sorted(points), "every point exactly once", got=len(got), points=len(points), seed=seed)
        stored = R.trials_at(d)
        ctx.check(sorted(stored) == sorted(i for i, _ in got) and sorted(key(t.config) for t in stored.values()) == sorted(points),
                  "every point is stored once")
        ctx.count((k, seed))
