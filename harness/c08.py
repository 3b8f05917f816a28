from __future__ import annotations

import copy
import math
import time

import numpy as np
import torch

from hlib import case, deep_eq
import concurrent_ops as concurrent
import runkit as R
from neps.state.filebased import load_filebased_neps_state
from neps.state.optimizer import BudgetInfo
from neps.state.settings import DefaultReportValues
from neps.state.trial import Trial

S = Trial.State
NONE = object()


def num(rng):
    v = rng.choice([0, 0.0, 1, -1.5, 1e-300, 1e300, 3, True, float("nan"), float("inf"), rng.random(), -0.0])
    return rng.choice([lambda: v, lambda: np.float64(v), lambda: np.array(float(v)), lambda: torch.tensor(float(v), dtype=torch.float64),
                       lambda: v])()


def curve(rng):
    v = [rng.choice([0.0, 1.0, rng.random(), float("nan"), 2]) for _ in range(rng.choice([0, 1, 3]))]
    return rng.choice([lambda: list(v), lambda: tuple(v), lambda: np.array(v, dtype=float), lambda: iter_list(v)])()


def iter_list(v):
    return [np.float64(x) for x in v]


def result(rng):
    """(what the user returns, loss, cost or NONE, curve or NONE, extra)"""
    loss = num(rng)
    if rng.random() < 0.3:
        return loss, loss, NONE, NONE, {}
    m = {"loss": loss}
    cost = lc = NONE
    extra = {}
    if rng.random() < 0.5:
        cost = num(rng)
        while math.isnan(float(cost)) and rng.random() < 0.8:
            cost = num(rng)
        m["cost"] = cost
    w = rng.randrange(4)
    if w == 1:
        lc = m["learning_curve"] = curve(rng)
    if w == 2 or rng.random() < 0.3:
        m["info_dict"] = {"a": rng.randrange(5), "nested": {"b": [1, 2]}}
        extra["info_dict"] = copy.deepcopy(m["info_dict"])
        if w == 2:
            lc = m["info_dict"]["learning_curve"] = curve(rng)
    for k in ("accuracy", "losses", "report", "err", "tb", "trial_id"):
        if rng.random() < 0.2:
            m[k] = extra[k] = rng.choice([0, 1.5, "text", None, [1, 2], {"x": 1}, False])
    return m, loss, cost, lc, extra


def f(x):
    return None if x is None else float(x)


def want_curve(lc, default, loss):
    if lc is NONE:
        lc = [loss] if isinstance(default, str) else default
    return None if lc is None else [float(v) for v in lc]


def strip(extra):
    """Entries apart from the learning curve inside info_dict (it is reported as the learning curve)."""
    e = dict(extra)
    if "info_dict" in e:
        e["info_dict"] = {k: v for k, v in e["info_dict"].items() if k != "learning_curve"}
    return e


@case
def reports(ctx):
    """Whatever the user's function returns or raises, the stored report says it."""
    rng = ctx.rng
    for rnd in range(ctx.n(12, 80)):
        d = ctx.dir() / "run"
        budget = None if rng.random() < 0.2 else BudgetInfo(max_cost_budget=rng.choice([None, 5.0]), used_cost_budget=rng.choice([0, 2.5]))
        b0 = budget.used_cost_budget if budget else None
        st = R.state_at(d, budget=budget)
        dv = DefaultReportValues(loss_value_on_error=rng.choice([None, 0.0, 7.0]), cost_value_on_error=rng.choice([None, 0.0, 3.0]),
                                 cost_if_not_provided=rng.choice([None, 0.0, 2.0]),
                                 learning_curve_on_error=rng.choice([None, [1.0, 2.0]]),
                                 learning_curve_if_not_provided=rng.choice([None, "loss", [4.0]]))
        log = []

        def fn(x):
            t0 = time.monotonic()
            if rng.random() < 0.25:
                e = rng.choice([ValueError("a"), KeyError("k"), RuntimeError(""), MemoryError("m")])
                log.append((x, "exc", e, t0, time.monotonic()))
                raise e
            u = result(rng)
            log.append((x, "ok", u, t0, time.monotonic()))
            return u[0]
        n = 8
        R.worker(st, fn, max_evaluations_for_worker=n, on_error=R.O.IGNORE, default_report_values=dv).run()
        ctx.check(len(log) == n, "every result is accepted", n=len(log))
        ts = R.trials_at(d)
        spent = 0.0
        for x, how, u, t0, t1 in log:
            t = ts[str(int(x))]
            r = t.report
            ctx.count((how, repr(u)[:200], repr(dv)))
            ctx.check(r is not None and r.trial_id == t.id, "the trial has its report", trial=t)
            if how == "exc":
                ctx.check(t.state == S.CRASHED and r.reported_as == "crashed", "an exception is a crash", trial=t)
                ctx.eq((r.loss, r.cost, r.learning_curve), (dv.loss_value_on_error, dv.cost_value_on_error, dv.learning_curve_on_error),
                       "defaults on error")
                ctx.check(str(r.err) == str(u) and r.tb and type(u).__name__ in r.tb, "error and traceback are kept", report=r, err=u)
                ctx.check(dict(r.extra) == {}, "nothing else is reported", extra=r.extra)
            else:
                res, loss, cost, lc, extra = u
                ctx.check(t.state == S.SUCCESS and r.reported_as == "success" and r.err is None and r.tb is None,
                          "a result is a success", trial=t)
                ctx.eq(r.loss, float(loss), "the loss is the returned one", result=res)
                c = f(cost) if cost is not NONE else dv.cost_if_not_provided
                ctx.eq(r.cost, c, "the cost is the returned one or the default", result=res, default=dv.cost_if_not_provided)
                ctx.eq(r.learning_curve, want_curve(lc, dv.learning_curve_if_not_provided, loss),
                       "the learning curve is the returned one or the default", result=res)
                ctx.eq(strip(r.extra), extra, "other entries are kept", result=res)
            if r.cost is not None:
                spent += r.cost
            ctx.check(r.evaluation_duration is not None and r.evaluation_duration >= t1 - t0 - 1e-6
                      and r.evaluation_duration < t1 - t0 + 5 and r.evaluation_duration == t.metadata.evaluation_duration,
                      "the duration is that of the call", trial=t)
            ctx.check(t.metadata.time_started <= t.metadata.time_end and t.metadata.time_end - t.metadata.time_started < 60,
                      "start and end", trial=t)
        ob = load_filebased_neps_state(d).optimizer_state().budget
        if budget is None:
            ctx.check(ob is None, "no budget is invented")
        else:
            got = ob.used_cost_budget
            ctx.check(deep_eq(float(got), b0 + spent) or abs(got - (b0 + spent)) <= 1e-9 * (1 + abs(got)),
                      "the budget counts the cost of every report once", got=got, want=b0 + spent)
            ctx.check(ob.max_cost_budget == budget.max_cost_budget, "the limit is kept")


@case
def user_objects(ctx):
    """What the user returned is the user's: returning the same dictionary again gives the same report."""
    res = {"loss": 1.0, "cost": 2.0, "learning_curve": [3.0], "info_dict": {"a": 1, "learning_curve": [9.0]}, "z": [1]}
    for keep in ({"loss"}, {"loss", "cost"}, set(res), {"loss", "info_dict"}, {"loss", "info_dict", "z"}):
        mine = {k: copy.deepcopy(v) for k, v in res.items() if k in keep}
        before = copy.deepcopy(mine)
        d = ctx.dir() / "run"
        R.worker(R.state_at(d), lambda x: mine, max_evaluations_for_worker=3).run()
        ctx.eq(mine, before, "the returned dictionary is not changed")
        reps = [t.report for t in R.trials_at(d).values()]
        for r in reps[1:]:
            ctx.eq([r.loss, r.cost, r.learning_curve, dict(r.extra)], [reps[0].loss, reps[0].cost, reps[0].learning_curve,
                                                                     dict(reps[0].extra)], "equal results, equal reports")
        ctx.count(sorted(keep))


@case
def refused(ctx):
    """A result without a numeric loss is never stored as a success."""
    for bad in (None, "x", {}, {"cost": 1}, {"loss": None}, {"loss": "x"}, {"loss": 1.0, "cost": "x"}, [1.0], object()):
        d = ctx.dir() / "run"
        st = R.state_at(d)
        try:
            R.worker(st, lambda x: bad, max_evaluations_for_worker=1, on_error=R.O.IGNORE).run()
        except Exception:
            pass
        for t in R.trials_at(d).values():
            ctx.check(t.state != S.SUCCESS and (t.report is None or t.report.reported_as != "success"),
                      "not a success", bad=bad, trial=t)
        ctx.count(repr(bad)[:40])


@case
def arguments(ctx):
    """The function gets the configuration as it is, and the directories it asks for."""
    from neps.optimizers.base_optimizer import SampledConfig
    cfgs = [{"x": 1, "y": "a", "z": 0.1}, {"x": -3, "y": "b", "z": float(np.float32(0.1))}, {"x": 0, "y": "", "z": 0.0}]

    def propose(trials, b):
        n = len(trials)
        return SampledConfig(id=f"a_{n}", config=dict(cfgs[n % 3]), previous_config_id=f"a_{n - 1}" if n else None)
    for dirs in range(3):
        d = ctx.dir() / "run"
        got = []
        if dirs == 0:
            fn = lambda **k: got.append((k, None, None)) or 1.0
        elif dirs == 1:
            fn = lambda pipeline_directory, **k: got.append((k, pipeline_directory, None)) or 1.0
        else:
            fn = lambda x, y, z, previous_pipeline_directory, pipeline_directory: got.append(
                (dict(x=x, y=y, z=z), pipeline_directory, previous_pipeline_directory)) or 1.0
        R.worker(R.state_at(d), fn, opt=R.Scripted(propose, record=False), max_evaluations_for_worker=6).run()
        ctx.check(len(got) == 6, "six calls")
        for n, (k, pd, ppd) in enumerate(got):
            ctx.eq(k, cfgs[n % 3], "the configuration is passed unchanged")
            loc = lambda i: str((d / "configs" / f"config_a_{i}").resolve())
            if dirs:
                ctx.check(str(pd) == loc(n) and pd.is_dir(), "the trial's own directory", got=pd)
            if dirs == 2:
                ctx.check(ppd is None if n == 0 else str(ppd) == loc(n - 1), "the predecessor's directory", got=ppd)
            ctx.count((dirs, n))
        for n, t in enumerate(sorted(R.trials_at(d).values(), key=lambda t: int(t.id[2:]))):
            ctx.eq(dict(t.config), cfgs[n % 3], "the stored configuration is unchanged")


@case
def concurrent_reports(ctx):
    concurrent.concurrent_reports(ctx)
