"""C07 a worker stops exactly when a configured limit is reached."""
# instrument: neps.runtime neps.state.neps_state neps.state._eval neps.state.trial
import neps.runtime as R
from neps.state.settings import DefaultReportValues, OnErrorPossibilities, WorkerSettings
from neps.state.trial import Trial
from pyvc import rt, values
from pyvc.contract import contract
from pyvc.core import cur
from pyvc.run_ghost import R_HAS, R_NUM, Run, T_REPORTED, T_STATE
from pyvc.stubs import patched
from pyvc.values import And, Iff, Not, Or, SymBool, SymNum, boolval, intval, realval, val
from pyvc.z3load import z3

LIMITS = ["max_evaluations_for_worker", "max_cost_for_worker", "max_wallclock_time_for_worker_seconds",
          "max_evaluation_time_for_worker_seconds", "max_evaluations_total", "max_cost_total",
          "max_evaluation_time_total_seconds"]
IN_PROGRESS = [list(Trial.State).index(s) for s in (Trial.State.EVALUATING, Trial.State.SUBMITTED)]


def worker(vc, run, clock, which):
    lim = {}
    for n in LIMITS:
        if n in which:
            lim[n] = intval(n) if "evaluations" in n else realval(n)
        else:
            lim[n] = None
    include = bool(vc.choose(2, "include")) if "max_evaluations_total" in which else False
    settings = WorkerSettings(on_error=OnErrorPossibilities.IGNORE, default_report_values=DefaultReportValues(),
                              include_in_progress_evaluations_towards_maximum=include, **lim)
    w = R.DefaultWorker(state=run.state, settings=settings, evaluation_fn=None, optimizer=None,
                        worker_id=val("worker", str), worker_cumulative_eval_count=intval("count"),
                        worker_cumulative_eval_cost=realval("cost"),
                        worker_cumulative_evaluation_time_seconds=realval("evaltime"))
    return w, lim, include


def total(run, pred, what=None):
    """The specification's own sum over all stored trials."""
    if what is None:
        return rt.fold_sum(run.repo.coll, lambda i: z3.If(pred(i), z3.IntVal(1), z3.IntVal(0)), "int")
    return rt.fold_sum(run.repo.coll, lambda i: z3.If(z3.And(T_REPORTED(i), R_HAS[what](i)), R_NUM[what](i),
                                                      z3.RealVal(0)), "float")


def spec(run, w, lim, include, now, start):
    def counted(i):
        c = T_REPORTED(i)
        if include:
            c = z3.Or(c, *[T_STATE(i) == k for k in IN_PROGRESS])
        return c
    have = {
        "max_evaluations_for_worker": lambda: w.worker_cumulative_eval_count,
        "max_cost_for_worker": lambda: w.worker_cumulative_eval_cost,
        "max_wallclock_time_for_worker_seconds": lambda: now - start,
        "max_evaluation_time_for_worker_seconds": lambda: w.worker_cumulative_evaluation_time_seconds,
        "max_evaluations_total": lambda: total(run, counted),
        "max_cost_total": lambda: total(run, None, "cost"),
        "max_evaluation_time_total_seconds": lambda: total(run, None, "evaluation_duration"),
    }
    return [have[n]() >= lim[n] for n in LIMITS if lim[n] is not None]


def check(vc, which):
    run = Run(vc, with_budget=False)
    now, start = realval("now"), realval("start")

    class Clock:
        monotonic = staticmethod(lambda: now)
        time = staticmethod(lambda: realval("wall"))
    w, lim, include = worker(vc, run, Clock, which)
    before = (w.worker_cumulative_eval_count, w.worker_cumulative_eval_cost, w.worker_cumulative_evaluation_time_seconds)
    with patched(R, time=Clock):
        st, r = vc.call(w._check_if_should_stop, time_monotonic_start=start, error_from_this_worker=None)
    vc.prove(st == "ok", "checking the limits never fails")
    if st != "ok":
        return
    reached = Or(*spec(run, w, lim, include, now, start)) if which else False
    stopped = r is not False
    vc.prove(reached if stopped else Not(reached), "stops if and only if a configured limit is reached")
    after = (w.worker_cumulative_eval_count, w.worker_cumulative_eval_cost, w.worker_cumulative_evaluation_time_seconds)
    vc.prove(all(a is b for a, b in zip(before, after)) and not run.repo.new and not run.repo.puts,
             "checking the limits changes nothing")
    vc.cover("stop" if stopped else "go on")


TARGETS = ("neps.runtime.DefaultWorker._check_if_should_stop", "neps.state.neps_state.NePSState.get_all_trials")


@contract("C07 C19", *TARGETS, max_paths=20000, time_limit=300)
def should_stop(vc):
    """Any subset of limits configured."""
    which = [n for n in LIMITS if vc.choose(2, n)]
    check(vc, which)


@contract("C07", "neps.runtime.DefaultWorker.run", "neps.state._eval.evaluate_trial", "neps.state._eval._eval_trial",
          "neps.state.trial.Trial.set_complete")
def run_loop(vc):
    """The limits are checked before every evaluation, and the totals they see are exact."""
    from contracts import workerrun
    workerrun.worker_run(vc)
