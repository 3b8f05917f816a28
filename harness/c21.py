from __future__ import annotations

import itertools

from hlib import case
import runkit as R
import neps
import neps.runtime as RT
from neps.state.filebased import load_filebased_neps_state
from neps.state.trial import Trial

S = Trial.State


class Interrupt(BaseException):
    pass


def none_exposed(ctx, why, **k):
    ctx.raises(RuntimeError, RT.get_in_progress_trial, "no trial is exposed " + why, **k)


OUT = {"ok": None, "dict": {"loss": 1.0}, "bad": "text", "exc": ValueError("x"), "interrupt": KeyboardInterrupt(),
       "exit": SystemExit(1), "base": Interrupt()}


@case
def visibility(ctx):
    for kinds in itertools.product(OUT, OUT):
        d = ctx.dir() / "run"
        st = R.state_at(d)
        seen = []
        RT._TRIAL_END_CALLBACKS.clear()
        calls = []
        RT.register_notify_trial_end("a", lambda t: calls.append(("a", t.id, RT.get_in_progress_trial().id)))
        RT.register_notify_trial_end("b", lambda t: calls.append(("b", t.id, RT.get_in_progress_trial().id)))
        n = {"n": 0}

        def fn(x):
            t = RT.get_in_progress_trial()
            ctx.check(t.id == str(int(x)) and dict(t.config) == {"x": x}, "the exposed trial is the evaluated one", got=t.id, want=x)
            ctx.check(t.state == S.EVALUATING and t.metadata.evaluating_worker_id == "me" and t.metadata.time_started is not None,
                      "with worker and start time", trial=t)
            ctx.check(RT.get_workers_neps_state() is w.state, "the exposed run is the worker's")
            disk = load_filebased_neps_state(d).get_trial_by_id(t.id)
            ctx.check(disk.metadata.time_started == t.metadata.time_started, "as stored")
            seen.append(t.id)
            k = kinds[n["n"]]
            n["n"] += 1
            v = OUT[k]
            if isinstance(v, BaseException):
                raise v
            return 1.0 if v is None else v
        none_exposed(ctx, "before a run")
        for k in range(2):
            w = R.worker(st, fn, wid="me", max_evaluations_for_worker=1, on_error=R.O.IGNORE)
            before = len(seen)
            try:
                w.run()
                out = "ended"
            except BaseException as e:
                out = type(e).__name__
                if isinstance(e, __import__("hlib").Violation):
                    raise
            none_exposed(ctx, "after an evaluation", outcome=kinds[k], out=out)
            ctx.check(len(seen) == before + 1, "each run evaluates", kinds=kinds, k=k, out=out)
        want = []
        for i, k in zip(seen, kinds):
            if k in ("ok", "dict", "exc"):
                want += [("a", i, i), ("b", i, i)]
        got = [c for c in calls if c[1] in [i for i, k in zip(seen, kinds) if k in ("ok", "dict", "exc")]]
        ctx.check(sorted(got) == sorted(want), "each callback is called once per finished evaluation, with its trial", got=got, want=want)
        ctx.count(kinds)
    RT._TRIAL_END_CALLBACKS.clear()


@case
def many_in_one_run(ctx):
    """Several evaluations of one run, errors in between; hooks and sampling see no exposed trial."""
    d = ctx.dir() / "run"
    calls, seen = [], []
    RT._TRIAL_END_CALLBACKS.clear()
    RT.register_notify_trial_end("a", lambda t: calls.append(t.id))
    RT.register_notify_trial_end("a", lambda t: calls.append("second " + t.id))

    def hook(o):
        none_exposed(ctx, "while sampling")
        return o

    def fn(x):
        seen.append(RT.get_in_progress_trial().id)
        if int(x) % 3 == 0:
            raise ValueError
        return x
    w = R.worker(R.state_at(d), fn, hooks=[hook], max_evaluations_for_worker=7, on_error=R.O.IGNORE)
    w.run()
    none_exposed(ctx, "after a run")
    ctx.check(seen == [str(i) for i in range(1, 8)], "each trial in turn", seen=seen)
    ctx.check(calls == ["second " + s for s in seen], "the callback registered last under a key is called once each", calls=calls)
    ctx.count(calls)
    # a second run elsewhere exposes its own state
    d2 = ctx.dir() / "run2"
    st2 = R.state_at(d2)
    R.worker(st2, lambda x: float(RT.get_workers_neps_state() is st2), max_evaluations_for_worker=1).run()
    t, = R.trials_at(d2).values()
    ctx.check(t.report.loss == 1.0, "a later run exposes its own state")
    RT._TRIAL_END_CALLBACKS.clear()


@case
def nested(ctx):
    """A run inside an evaluation is refused and leaves the outer trial exposed."""
    d, d2 = ctx.dir() / "run", ctx.dir() / "run2"
    inner = R.state_at(d2)
    got = []

    def fn(x):
        me = RT.get_in_progress_trial()
        try:
            R.worker(inner, lambda x: got.append(x) or 1.0, max_evaluations_for_worker=1).run()
            got.append("ran")
        except Exception:
            pass
        ctx.check(RT.get_in_progress_trial() is me, "the outer trial stays exposed")
        return x
    R.worker(R.state_at(d), fn, max_evaluations_for_worker=2).run()
    ctx.check(not got, "two trials at once in a process are refused", got=got)
    none_exposed(ctx, "after nested runs")
    ctx.count("nested")


@case
def failing_callback(ctx):
    d = ctx.dir() / "run"
    RT._TRIAL_END_CALLBACKS.clear()

    def boom(t):
        raise RuntimeError("callback")
    RT.register_notify_trial_end("x", boom)
    st = R.state_at(d)
    try:
        R.worker(st, lambda x: x, max_evaluations_for_worker=1).run()
    except RuntimeError:
        pass
    none_exposed(ctx, "after a failing callback")
    RT._TRIAL_END_CALLBACKS.clear()
    R.worker(st, lambda x: x, max_evaluations_for_worker=1).run()
    ctx.check(any(t.report is not None for t in R.trials_at(d).values()), "a later run works")
    ctx.count("cb")


@case
def reset(ctx):
    """Back to pending, identity kept, evaluation forgotten: in memory and on disk."""
    rng = ctx.rng
    for st, had, prev in itertools.product(S, (False, True), (False, True)):
        t = Trial.new(trial_id="7_1", config={"x": 1.0}, location="/l", previous_trial="7_0" if prev else None,
                      previous_trial_location="/p" if prev else None, time_sampled=3.5, worker_id=12)
        t.set_submitted(time_submitted=4.0)
        t.set_evaluating(time_started=5.0, worker_id="q")
        if had:
            t.report = t.set_complete(report_as="success", time_end=6.0, loss=1.0, cost=1.0, learning_curve=[1.0], err=None, tb=None,
                                      extra={}, evaluation_duration=1.0)
        t.state = st
        t.reset()
        m = t.metadata
        ctx.check(t.state == S.PENDING and t.report is None, "pending without report", trial=t)
        ctx.eq([m.id, m.location, m.previous_trial_id, m.previous_trial_location, m.sampling_worker_id, m.time_sampled, t.config],
               ["7_1", "/l", "7_0" if prev else None, "/p" if prev else None, "12", 3.5, {"x": 1.0}], "identity is kept")
        ctx.eq([m.evaluating_worker_id, m.evaluation_duration, m.time_submitted, m.time_started, m.time_end], [None] * 5,
               "the evaluation is forgotten")
        ctx.count((st, had, prev))
    d = ctx.dir() / "run"
    a = R.state_at(d)
    R.worker(a, lambda x: x, max_evaluations_for_worker=2).run()
    t = a.get_trial_by_id("1")
    t.reset()
    a.put_updated_trial(t)
    s = load_filebased_neps_state(d)
    u = s.get_trial_by_id("1")
    ctx.check(u.state == S.PENDING and u.report is None and u.metadata.time_end is None, "as stored", trial=u)
    ctx.check(s.get_trial_by_id("2").report is not None, "others are left alone")
    ctx.check(s.get_next_pending_trial().id == "1", "it is taken up again")
