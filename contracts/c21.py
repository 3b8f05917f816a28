"""C21 the trial in progress is visible during its evaluation and never after."""
# instrument: neps.runtime neps.state._eval neps.state.trial
from pyvc.contract import contract
from pyvc.values import realval, same, val
from contracts import workerrun
import neps.runtime as R
from neps.state.trial import Trial


@contract("C21", "neps.runtime.DefaultWorker.run", "neps.runtime._set_global_trial", "neps.runtime.get_in_progress_trial",
          "neps.runtime.register_notify_trial_end", "neps.runtime.get_workers_neps_state",
          "neps.state.trial.Trial.set_evaluating")
def run_loop(vc):
    workerrun.worker_run(vc)


def some_trial(vc, n="a"):
    prev = vc.choose(2, "prev")
    return Trial.new(trial_id=val(n, str), config={"x": val("x")}, location=val("loc", str),
                     previous_trial=val("p", str) if prev else None,
                     previous_trial_location=val("pl", str) if prev else None, time_sampled=realval("ts"),
                     worker_id=val("w", str))


@contract("C21", "neps.runtime._set_global_trial")
def scope(vc):
    """However the block ends, the trial is exposed inside it only; a nested one is refused."""
    R._CURRENTLY_RUNNING_TRIAL_IN_PROCESS = None
    saved = dict(R._TRIAL_END_CALLBACKS)
    R._TRIAL_END_CALLBACKS.clear()
    called = []
    ncb = vc.choose(3, "callbacks")

    def cb(k):
        def f(t):
            called.append((k, t))
            if vc.choose(2, "cb-fails"):
                raise RuntimeError("callback")
        return f
    for k in range(ncb):
        R.register_notify_trial_end(f"k{k}", cb(k))
    t = some_trial(vc)
    how = vc.choose(4, "block")

    def block():
        with R._set_global_trial(t):
            vc.prove(R.get_in_progress_trial() is t, "the trial is exposed during its evaluation")
            if how == 1:
                raise ValueError("user")
            if how == 2:
                raise workerrun.Interrupted()
            if how == 3:
                with R._set_global_trial(some_trial(vc, "b")):
                    vc.fail("two trials in progress at once")
    try:
        try:
            st, e = vc.call(block)
        except workerrun.Interrupted as x:
            st, e = "interrupted", x
        st2, e2 = vc.call(R.get_in_progress_trial)
        vc.prove(st2 == "exc" and isinstance(e2, RuntimeError), "afterwards no trial is exposed")
        if how == 0:
            vc.prove(len({k for k, _ in called}) == len(called) and all(x is t for _, x in called),
                     "each callback is called at most once, with the trial")
            vc.prove(st == "exc" or len(called) == ncb, "every callback is called once per finished evaluation")
            vc.cover("finished")
        else:
            vc.prove(st != "ok" and not called, "the block's error comes through")
            vc.cover("error")
        st, _ = vc.call(lambda: R._set_global_trial(t).__enter__())
        vc.prove(st == "ok", "a later evaluation in the process works")
    finally:
        R._CURRENTLY_RUNNING_TRIAL_IN_PROCESS = None
        R._TRIAL_END_CALLBACKS.clear()
        R._TRIAL_END_CALLBACKS.update(saved)


@contract("C21", "neps.state.trial.Trial.reset", "neps.state.trial.Trial.set_submitted")
def reset(vc):
    t = some_trial(vc)
    keep = (t.metadata.id, t.metadata.location, t.metadata.previous_trial_id, t.metadata.previous_trial_location,
            t.metadata.sampling_worker_id, t.metadata.time_sampled, t.config)
    k = vc.choose(4, "life")
    if k >= 1:
        t.set_submitted(time_submitted=realval("tsub"))
    if k >= 2:
        t.set_evaluating(time_started=realval("t0"), worker_id=val("w2", str))
    if k >= 3:
        t.report = t.set_complete(report_as=("success", "failed", "crashed")[vc.choose(3, "as")], time_end=realval("te"),
                                  loss=realval("loss"), cost=realval("cost"), learning_curve=None, err=None, tb=None,
                                  extra=None, evaluation_duration=realval("dur"))
    st, _ = vc.call(t.reset)
    m = t.metadata
    vc.prove(st == "ok" and t.state == Trial.State.PENDING, "a reset trial is pending")
    now = (m.id, m.location, m.previous_trial_id, m.previous_trial_location, m.sampling_worker_id, m.time_sampled, t.config)
    vc.prove(all(a is b for a, b in zip(keep, now)), "a reset trial keeps its identity and configuration")
    vc.prove(t.report is None and m.evaluating_worker_id is None and m.evaluation_duration is None
             and m.time_submitted is None and m.time_started is None and m.time_end is None,
             "a reset trial has forgotten its evaluation")
    vc.cover("reset")
