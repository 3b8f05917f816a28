"""Drive the optimizers through simulated histories."""
from __future__ import annotations

import inspect
import random

import runkit as R
from neps.optimizers import SearcherMapping
from neps.search_spaces import CategoricalParameter, ConstantParameter, FloatParameter, IntegerParameter, SearchSpace
from neps.state.trial import Trial

S = Trial.State
FIDELITY = ["successive_halving", "successive_halving_prior", "asha", "asha_prior", "hyperband", "mobster", "hyperband_custom_default",
            "priorband", "priorband_bo", "async_hyperband"]
SKIP = {"mobster": "its model policy is broken on the pinned commit", "priorband_bo": "as mobster", "ifbo": "needs the network"}


def space(fid="int", prior=True):
    d = dict(x=FloatParameter(0, 1, default=0.5 if prior else None), l=FloatParameter(1e-5, 1, log=True, default=0.01 if prior else None),
             n=IntegerParameter(-3, 9, default=2 if prior else None),
             c=CategoricalParameter(["a", "b", "c"], default="a" if prior else None), k=ConstantParameter("const"))
    if fid == "int":
        d["f"] = IntegerParameter(1, 27, is_fidelity=True)
    elif fid == "float":
        d["f"] = FloatParameter(0.5, 9.7, is_fidelity=True)
    return SearchSpace(**d)


def make(name, sp, **kw):
    cls = SearcherMapping[name]
    ps = inspect.signature(cls).parameters
    k = dict(pipeline_space=sp)
    if "budget" in ps:
        k["budget"] = 100
    if "ignore_errors" in ps or any(p.kind == p.VAR_KEYWORD for p in ps.values()):
        k["ignore_errors"] = True
    if "use_priors" in ps:
        k["use_priors"] = "prior" in name or name == "pibo"
    k.update(kw)
    try:
        return cls(**k)
    except TypeError:
        k.pop("ignore_errors", None)
        return cls(**k)


def names(slow=True):
    out = [n for n in SearcherMapping if n not in SKIP]
    return out if slow else [n for n in out if n not in ("bayesian_optimization", "pibo")]


def complete(t, loss, err=None, cost=1.0):
    if err is not None:
        t.report = t.set_complete(report_as="crashed", time_end=0.0, loss=loss, cost=None, learning_curve=None, err=Exception(err), tb="",
                                  extra=None, evaluation_duration=1.0)
    else:
        t.report = t.set_complete(report_as="success", time_end=0.0, loss=loss, cost=cost, learning_curve=[loss], err=None, tb=None,
                                  extra={}, evaluation_duration=1.0)


def drive(new, n, rng, err=0.0, par=3, resume=0.2, see=None, loss=None, need=0):
    """n proposals; up to par unfinished at any time; optimizers are re-created with chance resume.

    The first `need` evaluations are awaited and succeed (model-based optimizers need data, see DESIGN.md).
    see(optimizer, trials before, proposal) is called for every proposal."""
    trials, running = {}, []
    good = 0
    opt = new()
    for k in range(n):
        if rng.random() < resume:
            opt = new()
        before = dict(trials)
        s = opt.ask(dict(trials), None)
        if isinstance(s, tuple):
            s = s[0]
        if see is not None:
            see(opt, before, s)
        prev = trials.get(s.previous_config_id) if s.previous_config_id is not None else None
        t = Trial.new(trial_id=s.id, config=s.config, location="/" + s.id, previous_trial=s.previous_config_id,
                      previous_trial_location=prev.metadata.location if prev else None, time_sampled=float(k), worker_id="w")
        trials[s.id] = t
        running.append(t)
        while len(running) >= (par if good >= need else 1):
            t = running.pop(rng.randrange(len(running)))
            t.set_evaluating(time_started=0.0, worker_id="w")
            if good >= need and rng.random() < err:
                complete(t, None, "x")
            else:
                good += 1
                complete(t, loss(t) if loss else rng.choice([rng.random(), 0.25, 0.5]))
        for t in running:
            if rng.random() < 0.5:
                t.state = S.EVALUATING
    return trials
