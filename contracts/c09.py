"""C09 failed evaluations are recorded and the error policy is obeyed."""
# instrument: neps.runtime neps.state._eval neps.state.trial neps.state.neps_state neps.state.err_dump neps.optimizers.base_optimizer
import neps.runtime as R
from neps.exceptions import WorkerRaiseError
from neps.optimizers.base_optimizer import BaseOptimizer, _get_cost, _get_loss
from neps.state.err_dump import ErrDump
from neps.state.settings import DefaultReportValues, OnErrorPossibilities, WorkerSettings
from neps.state.trial import Report
from pyvc.contract import contract
from pyvc.core import Unsupported
from pyvc.run_ghost import Run
from pyvc.stubs import GClock, GList, patched
from pyvc.values import And, SymBool, boolval, intval, realval, same, val
from contracts import workerrun
from contracts.reporting import FalsyError, UserError, old_error, report_contract

O = OnErrorPossibilities


@contract("C09", "neps.state.neps_state.NePSState.report_trial_evaluation", "neps.state.err_dump.ErrDump.append")
def report(vc):
    report_contract(vc)


@contract("C09", "neps.runtime.DefaultWorker.run", "neps.state._eval._eval_trial", "neps.state._eval.evaluate_trial")
def run_loop(vc):
    workerrun.worker_run(vc)


@contract("C09 C19", "neps.runtime.DefaultWorker._check_if_should_stop", "neps.state.err_dump.ErrDump.latest_err_as_raisable")
def policy(vc):
    """No limit configured: what happens depends on the policy, this worker's error and the shared log alone."""
    dump = ErrDump()
    dump.errs = GList("errs", old_error)
    run = Run(vc, errs=dump, with_budget=False)
    on_error = list(O)[vc.choose(len(list(O)), "on_error")]
    own = (None, UserError(), FalsyError())[vc.choose(3, "own")]
    settings = WorkerSettings(
        on_error=on_error, default_report_values=DefaultReportValues(), max_evaluations_total=None,
        include_in_progress_evaluations_towards_maximum=bool(vc.choose(2, "include")), max_cost_total=None,
        max_evaluation_time_total_seconds=None, max_evaluations_for_worker=None, max_cost_for_worker=None,
        max_evaluation_time_for_worker_seconds=None, max_wallclock_time_for_worker_seconds=None)
    w = R.DefaultWorker(state=run.state, settings=settings, evaluation_fn=None, optimizer=None, worker_id=val("w", str),
                        worker_cumulative_eval_count=intval("n"), worker_cumulative_eval_cost=realval("c"),
                        worker_cumulative_evaluation_time_seconds=realval("t"))
    with patched(R, time=GClock(vc)):
        st, r = vc.call(w._check_if_should_stop, time_monotonic_start=realval("start"), error_from_this_worker=own)
    any_recorded = dump.errs.n > 0
    if on_error in (O.RAISE_WORKER_ERROR, O.RAISE_ANY_ERROR):
        act = "raise"
    elif on_error in (O.STOP_WORKER_ERROR, O.STOP_ANY_ERROR):
        act = "stop"
    else:
        act = None
    anybody = on_error in (O.RAISE_ANY_ERROR, O.STOP_ANY_ERROR)
    triggered = act is not None and (own is not None or (anybody and bool(any_recorded)))
    if not triggered:
        vc.prove(st == "ok" and r is False, "without an error the policy speaks of, the worker goes on")
        vc.cover("go on")
    elif act == "raise":
        vc.prove(st == "exc" and isinstance(r, WorkerRaiseError), "a raise policy raises")
        if st == "exc" and own is not None:
            vc.prove(r.__cause__ is own, "naming the worker's own error as its cause")
        elif st == "exc":
            vc.prove(r.__cause__ is not None, "naming the recorded error as its cause")
        vc.cover("raise")
    else:
        vc.prove(st == "ok" and r is not False and r is not None, "a stop policy stops without raising")
        vc.cover("stop")
    vc.prove(not dump.errs.new and not run.repo.puts and not run.repo.new, "deciding changes nothing")


@contract("C09", "neps.optimizers.base_optimizer.BaseOptimizer.get_loss", "neps.optimizers.base_optimizer._get_loss",
          "neps.optimizers.base_optimizer.BaseOptimizer.get_cost", "neps.optimizers.base_optimizer._get_cost")
def reading(vc):
    """What an optimizer is told about a result."""
    loss_err = (realval("loss on error") if vc.choose(2, "zero") else 0.0) if vc.choose(2, "loss_on_error") else None
    cost_err = (realval("cost on error") if vc.choose(2, "zero") else 0.0) if vc.choose(2, "cost_on_error") else None
    ignore = bool(vc.choose(2, "ignore"))
    o = BaseOptimizer(pipeline_space=None, loss_value_on_error=loss_err, cost_value_on_error=cost_err, ignore_errors=ignore)
    what = vc.choose(4, "result")
    loss, cost = realval("loss", nan=True), realval("cost", nan=True)
    if what == 0:
        s1, l = vc.call(o.get_loss, "error")
        s2, c = vc.call(o.get_cost, "error")
        for s, v, dflt, n in ((s1, l, loss_err, "loss"), (s2, c, cost_err, "cost")):
            if ignore:
                vc.prove(s == "ok" and v == "error", f"an ignored error has no {n}")
            elif dflt is not None:
                vc.prove(s == "ok" and same(v, dflt), f"the configured {n} stands for an error")
            else:
                vc.prove(s == "exc" and isinstance(v, ValueError), f"an error without configured {n} raises")
        vc.cover("error")
        return
    if what == 1:
        res = {"loss": loss, "cost": cost, "x": val("x")}
    elif what == 2:
        res = loss
        cost = loss
    else:
        hl, hc = vc.choose(2, "l"), vc.choose(2, "c")
        res = Report(trial_id=val("t", str), loss=loss if hl else None, cost=cost if hc else None, learning_curve=None,
                     extra={}, err=None, tb=None, reported_as="success", evaluation_duration=realval("d"))
        loss, cost = res.loss, res.cost
    s1, l = vc.call(o.get_loss, res)
    s2, c = vc.call(o.get_cost, res)
    vc.prove(s1 == "ok" and (l == "error" if loss is None else same(l, loss)), "the reported loss is read")
    vc.prove(s2 == "ok" and (c == "error" if cost is None else same(c, cost)), "the reported cost is read")
    vc.cover("value")
