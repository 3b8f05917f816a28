"""The contract of DefaultWorker.run; parts of it carry C04, C07, C09 and C21.

The loop is verified from an arbitrary head state: the worker's totals and its error variable are unknown, related
to ghost history by the invariants proved at every head.
"""
import neps.runtime as R
import neps.state._eval as E
from neps.exceptions import VersionMismatchError, WorkerFailedToGetPendingTrialsError, WorkerRaiseError
from neps.state.settings import DefaultReportValues, OnErrorPossibilities, WorkerSettings
from neps.state.trial import Trial
from pyvc.core import Abort, Unsupported, cur
from pyvc.stubs import owns, patched
from pyvc.values import And, Implies, Not, Or, SymNum, boolval, intval, realval, same, val


class Interrupted(BaseException):
    pass


class UserError(Exception):
    pass


class Stopped(Exception):
    """Raised by the policy check."""


def P(vc, props, cond, name):
    if owns(*props.split()):
        vc.prove(cond, name)


class G:
    """Ghost history of the worker."""
    __vc_ghost__ = True

    def digest(self):
        return (self.n_claimed, self.n_evals, self.n_reports, self.checked, self.lost,
                self.failed_last, self.failed is None)


def worker_run(vc):
    g = G()
    g.n_claimed = g.n_evals = g.n_reports = 0     # since the last loop head
    g.claimed = None
    g.checked = False
    g.lost = 0
    g.callbacks = []
    g.count, g.cost, g.time = 0, 0.0, 0.0         # over the whole run, exact sums
    g.failed = None                               # the exception of the last failed evaluation
    g.failed_last = False
    g.phase = "head"
    g.aborted = None
    cur().state.setdefault("ghosts", []).append(g)
    cur().state["widen"] = True
    wid = val("worker", str)
    the_optimizer, hooks = object(), [lambda o: o, lambda o: o]

    class Clock:
        @staticmethod
        def monotonic():
            return realval("mono")

        @staticmethod
        def time():
            return realval("wall")

    def fresh_trial():
        return Trial.new(trial_id=val("id", str), config={"x": val("cfg.x"), "y": val("cfg.y")}, location=val("loc", str),
                         previous_trial=None, previous_trial_location=None, time_sampled=realval("ts"),
                         worker_id=val("sampler", str))

    class State:
        def get_next_pending_trial(self, n=None):
            k = vc.choose(3, "pending")
            if k == 2:
                raise RuntimeError("cannot read pending")
            g.offered = fresh_trial() if k == 1 else None
            return g.offered

        def sample_trial(self, optimizer, *, worker_id, _sample_hooks=None):
            P(vc, "C19", optimizer is the_optimizer and same(worker_id, wid), "sampling uses the worker's optimizer and id")
            P(vc, "C19", list(_sample_hooks or []) == hooks, "sampling uses the worker's hooks in their order")
            if vc.choose(2, "sample-fails"):
                raise RuntimeError("cannot sample")
            g.offered = fresh_trial()
            return g.offered

        def put_updated_trial(self, trial):
            P(vc, "C04", trial is g.offered, "the trial claimed is the one just obtained")
            P(vc, "C04 C21", trial.state == Trial.State.EVALUATING, "claiming stores the trial as evaluating")
            P(vc, "C21 C04", same(trial.metadata.evaluating_worker_id, wid) and trial.metadata.time_started is not None,
              "claiming records worker and start time")
            k = vc.choose(3, "claim")
            if k == 1:
                g.lost += 1
                raise VersionMismatchError("lost the race")
            if k == 2:
                g.lost += 1
                raise RuntimeError("disk trouble")
            g.lost = 0
            g.claimed = trial
            g.n_claimed += 1

        def report_trial_evaluation(self, trial, report, *, worker_id):
            P(vc, "C04", g.claimed is not None and trial is g.claimed, "a report is for the claimed trial")
            P(vc, "C04", g.n_evals == g.n_claimed and g.n_reports == g.n_claimed - 1,
              "reported once, after its evaluation")
            P(vc, "C04 C09", same(worker_id, wid), "reported under the worker's id")
            if g.failed_last:
                P(vc, "C09", report.err is g.failed and trial.state == Trial.State.CRASHED,
                  "an exception of the user's function is reported as a crash")
            else:
                P(vc, "C09", report.err is None and trial.state == Trial.State.SUCCESS,
                  "a returned value is reported as a success")
            g.n_reports += 1
            g.count = g.count + 1
            if report.cost is not None:
                g.cost = report.cost + g.cost
            g.time = g.time + report.evaluation_duration
            if vc.choose(2, "report-fails"):
                g.aborted = "report"
                raise RuntimeError("cannot store the report")

    state = State()
    cost_default = realval("cost_default") if vc.choose(2, "cost") else None
    settings = WorkerSettings(
        on_error=OnErrorPossibilities.IGNORE,
        default_report_values=DefaultReportValues(cost_value_on_error=cost_default, cost_if_not_provided=cost_default),
        max_evaluations_total=None, include_in_progress_evaluations_towards_maximum=False, max_cost_total=None,
        max_evaluation_time_total_seconds=None, max_evaluations_for_worker=None, max_cost_for_worker=None,
        max_evaluation_time_for_worker_seconds=None, max_wallclock_time_for_worker_seconds=None)

    def exposed():
        try:
            return R.get_in_progress_trial()
        except RuntimeError:
            return None

    def evaluation_fn(x, y):
        P(vc, "C04", g.claimed is not None and g.n_evals == g.n_claimed - 1,
          "the user's function runs only on a trial this worker has claimed, once")
        P(vc, "C07", g.checked, "the limits were checked before this evaluation")
        if g.claimed is not None:
            P(vc, "C04 C08", x is g.claimed.config["x"] and y is g.claimed.config["y"],
              "the user's function gets the trial's own configuration")
        P(vc, "C21", exposed() is g.claimed, "the trial being evaluated is the one exposed")
        P(vc, "C21", R.get_workers_neps_state() is state, "the worker's run is exposed")
        g.n_evals += 1
        g.checked = False
        k = vc.choose(3, "user")
        if k == 1:
            g.failed = UserError("user")
            g.failed_last = True
            raise g.failed
        if k == 2:
            g.aborted = "interrupt"
            raise Interrupted()
        g.failed_last = False
        return realval("loss")

    def callback(trial):
        P(vc, "C21", g.claimed is not None and trial is g.claimed and g.n_evals == g.n_claimed,
          "a callback gets the trial just evaluated")
        g.callbacks.append(trial)

    def check_if_should_stop(self, *, time_monotonic_start, error_from_this_worker):
        if g.failed_last:
            P(vc, "C09", error_from_this_worker is g.failed, "the policy sees the error of the last evaluation")
        elif g.failed is None:
            P(vc, "C09", error_from_this_worker is None, "no error is invented")
        P(vc, "C07", same(time_monotonic_start, g.start), "wall-clock time counts from the start of the run") \
            if hasattr(g, "start") else None
        if not hasattr(g, "start"):
            g.start = time_monotonic_start
        g.checked = True
        k = vc.choose(3, "limits")
        if k == 1:
            g.stop = True
            return "limit reached"
        if k == 2:
            g.stop = True
            raise Stopped()
        return False

    def on_head(site, visits):
        if ".run:" not in site:
            return
        P(vc, "C21", exposed() is None, "between evaluations no trial is exposed")
        P(vc, "C04", g.n_evals == g.n_claimed and g.n_reports == g.n_claimed and g.n_claimed <= 1,
          "at the loop head every claimed trial has been evaluated and reported once")
        P(vc, "C21", len(g.callbacks) == g.n_evals, "one callback per finished evaluation")
        P(vc, "C07", And(same(w.worker_cumulative_eval_count, g.count), same(w.worker_cumulative_eval_cost, g.cost),
                         same(w.worker_cumulative_evaluation_time_seconds, g.time)),
          "the worker's totals are the exact sums over its evaluations")
        if visits >= 1:
            if g.lost and not g.n_claimed:
                vc.cover("carries on after a lost race")
            # arbitrary history up to here
            g.n_claimed = g.n_evals = g.n_reports = 0
            g.claimed = None
            g.callbacks.clear()
            g.lost = 0
            g.count = w.worker_cumulative_eval_count = intval("count")
            g.cost = w.worker_cumulative_eval_cost = realval("cost")
            g.time = w.worker_cumulative_evaluation_time_seconds = realval("time")

    cur().state["on_head"] = [on_head]

    class GPathlike:
        def __init__(self, p):
            self.p = p

    if R._CURRENTLY_RUNNING_TRIAL_IN_PROCESS is not None:
        R._CURRENTLY_RUNNING_TRIAL_IN_PROCESS = None     # left over from an abandoned path
    w = R.DefaultWorker.new(state=state, optimizer=the_optimizer, settings=settings, evaluation_fn=evaluation_fn,
                            worker_id=wid, _pre_sample_hooks=hooks)
    w.worker_id = wid
    saved = dict(R._TRIAL_END_CALLBACKS)
    R._TRIAL_END_CALLBACKS.clear()
    R.register_notify_trial_end("verif", callback)
    old = R.DefaultWorker._check_if_should_stop
    R.DefaultWorker._check_if_should_stop = check_if_should_stop
    end = None
    try:
        with patched(R, time=Clock), patched(E, time=Clock, Path=GPathlike):
            try:
                st, r = vc.call(w.run)
            except Interrupted as e:
                st, r = "interrupted", e
    finally:
        R.DefaultWorker._check_if_should_stop = old
        R._TRIAL_END_CALLBACKS.clear()
        R._TRIAL_END_CALLBACKS.update(saved)
        end = R._CURRENTLY_RUNNING_TRIAL_IN_PROCESS
        R._CURRENTLY_RUNNING_TRIAL_IN_PROCESS = None
    P(vc, "C21", end is None, "after the run, however it ended, no trial is exposed")
    if st == "interrupted":
        vc.cover("interrupted")
        P(vc, "C04", g.n_reports == g.n_claimed - 1, "an interrupted evaluation is not reported")
    elif st == "ok":
        P(vc, "C07 C09", getattr(g, "stop", False) is True, "the run ends only when the limits or the policy say so")
        P(vc, "C04", g.n_claimed == 0, "nothing is claimed after the decision to stop")
        vc.cover("stopped")
    else:
        if isinstance(r, Stopped):
            vc.cover("policy raised")
            P(vc, "C04", g.n_claimed == 0, "nothing is claimed after the decision to stop")
        elif g.aborted == "report":
            P(vc, "C04", isinstance(r, RuntimeError), "a failed report comes through")
            vc.cover("report failed")
        else:
            P(vc, "C04 C09", isinstance(r, WorkerFailedToGetPendingTrialsError),
              "the worker gives up only for want of a trial")
            P(vc, "C04", g.n_evals == g.n_claimed and g.n_reports == g.n_claimed, "giving up loses no claimed trial")
            vc.cover("gave up")


def lost_race_carries_on(vc):
    """From the start of a run: losing the race for the first trial evaluates nothing and goes on to the next check."""
    checks = []
    calls = []

    class State:
        def get_next_pending_trial(self, n=None):
            return Trial.new(trial_id=val("id", str), config={}, location="", previous_trial=None,
                             previous_trial_location=None, time_sampled=0.0, worker_id="w")

        def sample_trial(self, *a, **k):
            return self.get_next_pending_trial()

        def put_updated_trial(self, trial):
            raise (VersionMismatchError, RuntimeError)[vc.choose(2, "why")]("lost")

        def report_trial_evaluation(self, *a, **k):
            calls.append("report")

    def check(self, **k):
        checks.append(1)
        return "stop" if len(checks) > 1 else False
    w = R.DefaultWorker.new(state=State(), optimizer=object(), settings=None, evaluation_fn=lambda: calls.append("eval"),
                            worker_id="w")
    old = R.DefaultWorker._check_if_should_stop
    R.DefaultWorker._check_if_should_stop = check
    R._CURRENTLY_RUNNING_TRIAL_IN_PROCESS = None
    try:
        st, r = vc.call(w.run)
    finally:
        R.DefaultWorker._check_if_should_stop = old
        R._CURRENTLY_RUNNING_TRIAL_IN_PROCESS = None
    vc.prove(not calls, "nothing is evaluated or reported for a trial that was not claimed")
    vc.prove(st == "ok" and len(checks) == 2, "the worker carries on after losing the race")
    vc.cover("lost")
