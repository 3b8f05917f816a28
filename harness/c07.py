from __future__ import annotations

import itertools
import random
import time

from hlib import case
import runkit as R
from neps.state.filebased import load_filebased_neps_state
from neps.state.trial import Trial

S = Trial.State
NAMES = ["max_evaluations_for_worker", "max_cost_for_worker", "max_wallclock_time_for_worker_seconds",
         "max_evaluation_time_for_worker_seconds", "max_evaluations_total", "max_cost_total",
         "max_evaluation_time_total_seconds"]


def fill(rng, s, n):
    """n stored trials in arbitrary states with arbitrary reports; costs and durations are small multiples of 1/4."""
    for _ in range(n):
        t = s.sample_trial(R.Scripted(record=False), worker_id="s")
        st = rng.choice([S.PENDING, S.SUBMITTED, S.EVALUATING, S.SUCCESS, S.SUCCESS, S.FAILED, S.CRASHED, S.CORRUPTED, S.UNKNOWN])
        if st == S.EVALUATING:
            t.set_evaluating(time_started=1.0, worker_id="x")
        elif st == S.SUBMITTED:
            t.set_submitted(time_submitted=1.0)
        elif st in (S.SUCCESS, S.FAILED, S.CRASHED):
            t.report = t.set_complete(report_as=st.value, time_end=1.0, loss=rng.choice([None, 1.0, float("nan")]),
                                      cost=rng.choice([None, 0.0, 0.25, 1.5]), learning_curve=None, err=None, tb=None,
                                      extra={}, evaluation_duration=rng.choice([None, 0.0, 0.25, 2.0]))
        else:
            t.state = st
        s.put_updated_trial(t)


def reference(w, ts, now_minus_start):
    c = w.settings
    rep = [t.report for t in ts if t.report is not None]
    n = len(rep)
    if c.include_in_progress_evaluations_towards_maximum:
        n += sum(t.report is None and t.state in (S.EVALUATING, S.SUBMITTED) for t in ts)
    have = [w.worker_cumulative_eval_count, w.worker_cumulative_eval_cost, now_minus_start,
            w.worker_cumulative_evaluation_time_seconds, n, sum(r.cost for r in rep if r.cost is not None),
            sum(r.evaluation_duration for r in rep if r.evaluation_duration is not None)]
    lim = [getattr(c, k) for k in NAMES]
    return any(l is not None and h >= l for h, l in zip(have, lim)), dict(zip(NAMES, zip(have, lim)))


@case
def decisions(ctx):
    """Arbitrary stored trials, arbitrary worker totals, arbitrary limits around the current totals."""
    rng = ctx.rng
    for _ in range(ctx.n(30, 300)):
        d = ctx.dir() / "run"
        s = R.state_at(d)
        fill(rng, s, rng.randrange(7))
        ts = list(load_filebased_neps_state(d).get_all_trials().values())
        for _ in range(40):
            lim = {}
            w = R.worker(s, None, on_error=R.O.IGNORE)
            w.worker_cumulative_eval_count = rng.randrange(4)
            w.worker_cumulative_eval_cost = rng.choice([0.0, 0.25, 0.75])
            w.worker_cumulative_evaluation_time_seconds = rng.choice([0.0, 0.25, 0.75])
            elapsed = rng.choice([-100.0, 100.0])
            _, have = reference(w, ts, elapsed)
            for n in NAMES:
                if rng.random() < rng.choice([0.15, 0.6]):
                    h = have[n][0]
                    if "wallclock" in n:
                        lim[n] = rng.choice([0.0, 50.0])
                    elif "evaluations" in n:
                        lim[n] = max(0, int(h) + rng.choice([-1, 0, 1, 2]))
                    else:
                        lim[n] = max(0.0, h + rng.choice([-0.25, 0.0, 0.25, 1.0]))
            inc = rng.random() < 0.5
            w.settings = R.settings(on_error=R.O.IGNORE, include_in_progress_evaluations_towards_maximum=inc, **lim)
            want, have = reference(w, ts, elapsed)
            got = w._check_if_should_stop(time_monotonic_start=time.monotonic() - elapsed, error_from_this_worker=None)
            ctx.check((got is not False) == want, "a worker stops if and only if a configured limit is reached",
                      stopped=got, have_and_limit=have, include_running=inc)
            ctx.count((tuple(sorted(lim)), want))


@case
def counted_runs(ctx):
    """Whole runs: the number of evaluations performed is the least that reaches a limit."""
    rng = ctx.rng
    for k in range(ctx.n(30, 200)):
        d = ctx.dir() / "run"
        s = R.state_at(d)
        costs = [rng.choice([None, 0.0, 0.5, 1.0, 2.0]) for _ in range(40)]
        crash = {i for i in range(40) if rng.random() < 0.2}
        err_cost = rng.choice([None, 0.5])
        none_cost = rng.choice([None, 0.25])
        calls = []

        def fn(x):
            i = len(calls)
            calls.append(i)
            if i in crash:
                raise ValueError("user")
            return {"loss": x, "cost": costs[i]} if costs[i] is not None else x
        lims = {}
        for n in rng.sample(["max_evaluations_for_worker", "max_cost_for_worker", "max_evaluations_total", "max_cost_total"],
                            rng.randrange(1, 4)):
            lims[n] = rng.randrange(0, 7) if "evaluations" in n else rng.choice([0.5, 1.0, 2.0, 3.25])
        if not any("evaluations" in n for n in lims):
            lims["max_evaluations_for_worker"] = 15
        before = rng.randrange(3)
        if before:
            R.worker(s, lambda x: {"loss": x, "cost": 0.5}, max_evaluations_for_worker=before).run()
        w = R.worker(load_filebased_neps_state(d) if rng.random() < 0.5 else s, fn, on_error=R.O.IGNORE,
                     include_in_progress_evaluations_towards_maximum=rng.random() < 0.5,
                     default_report_values=R.DefaultReportValues(cost_value_on_error=err_cost, cost_if_not_provided=none_cost),
                     **lims)
        w.run()
        n = c = 0
        while True:
            tot_n, tot_c = before + n, 0.5 * before + c
            if any([n >= lims.get("max_evaluations_for_worker", 1e9), c >= lims.get("max_cost_for_worker", 1e9),
                    tot_n >= lims.get("max_evaluations_total", 1e9), tot_c >= lims.get("max_cost_total", 1e9)]):
                break
            i = n
            n += 1
            v = err_cost if i in crash else (costs[i] if costs[i] is not None else none_cost)
            c += v or 0.0
        ctx.eq(len(calls), n, "a worker evaluates until the first limit is reached and no further", limits=lims, before=before,
               costs=costs[:n + 2], crash=sorted(crash)[:5], err_cost=err_cost, none_cost=none_cost)
        ctx.eq(w.worker_cumulative_eval_count, n, "the worker's count is the number of its evaluations")
        ctx.check(abs(w.worker_cumulative_eval_cost - c) < 1e-12, "the worker's cost is the sum over its evaluations",
                  got=w.worker_cumulative_eval_cost, want=c)
        dur = sum(t.report.evaluation_duration for t in R.trials_at(d).values()
                  if t.report is not None and int(t.id) > before)
        ctx.check(abs(w.worker_cumulative_evaluation_time_seconds - dur) < 1e-9,
                  "the worker's evaluation time is the sum over its evaluations", got=w.worker_cumulative_evaluation_time_seconds,
                  want=dur)
        ctx.count((tuple(sorted(lims)), n))


@case
def time_limits(ctx):
    """Evaluation time is counted exactly as reported; wall-clock time from the start of the run."""
    for which in ("max_evaluation_time_for_worker_seconds", "max_evaluation_time_total_seconds"):
        d = ctx.dir() / "run"
        s = R.state_at(d)
        w = R.worker(s, lambda x: time.sleep(0.03) or x, **{which: 0.1}, max_evaluations_for_worker=30)
        w.run()
        ts = sorted(R.trials_at(d).values(), key=lambda t: int(t.id))
        ds = [t.report.evaluation_duration for t in ts]
        ctx.check(sum(ds) >= 0.1 and sum(ds[:-1]) < 0.1, f"{which} stops as soon as it is reached", durations=ds)
        ctx.count(which)
    d = ctx.dir() / "run"
    s = R.state_at(d)
    ends = []
    t0 = time.monotonic()

    def fn(x):
        time.sleep(0.05)
        ends.append(time.monotonic() - t0)
        return x
    R.worker(s, fn, max_wallclock_time_for_worker_seconds=0.2, max_evaluations_for_worker=200).run()
    ctx.check(len(ends) < 200 and all(e < 1.7 for e in ends[:-1]), "the wall-clock limit stops the worker", ends=ends)
    ctx.check(time.monotonic() - t0 >= 0.2, "the wall-clock limit does not stop before it is reached")
    # time spent before the run does not count
    w = R.worker(s, lambda x: x, max_wallclock_time_for_worker_seconds=30.0, max_evaluations_for_worker=2)
    w.run()
    ctx.eq(w.worker_cumulative_eval_count, 2, "a wall-clock limit that is not reached does not stop the worker")
    w = R.worker(s, lambda x: x, max_wallclock_time_for_worker_seconds=0.0)
    w.run()
    ctx.eq(w.worker_cumulative_eval_count, 0, "a wall-clock limit of zero is reached at once")


@case
def running_ones(ctx):
    """Trials under evaluation elsewhere count only if so configured."""
    for inc, total in itertools.product((False, True), range(0, 6)):
        d = ctx.dir() / "run"
        s = R.state_at(d)
        for k in range(3):
            t = s.sample_trial(R.Scripted(record=False), worker_id="s")
            if k == 0:
                t.set_evaluating(time_started=1.0, worker_id="elsewhere")
            elif k == 1:
                t.set_submitted(time_submitted=1.0)
            else:
                t.report = t.set_complete(report_as="success", time_end=1.0, loss=1.0, cost=None, learning_curve=None,
                                          err=None, tb=None, extra={}, evaluation_duration=1.0)
            s.put_updated_trial(t)
        n = []
        R.worker(s, lambda x: n.append(x) or x, max_evaluations_total=total,
                 include_in_progress_evaluations_towards_maximum=inc).run()
        ctx.eq(len(n), max(0, total - (3 if inc else 1)), "the total counts running evaluations only if so configured",
               include=inc, total=total)
        ctx.count((inc, total))


@case
def no_limit(ctx):
    """Without limits nothing but the user stops a worker."""
    d = ctx.dir() / "run"
    s = R.state_at(d)

    class Enough(BaseException):
        pass
    n = []

    def fn(x):
        n.append(x)
        if len(n) == 25:
            raise Enough
        return {"loss": x, "cost": 1e6}
    try:
        R.worker(s, fn, on_error=R.O.IGNORE).run()
    except Enough:
        pass
    ctx.eq(len(n), 25, "a limit that is not configured never stops the worker")
    ctx.count(25)
