from __future__ import annotations

import itertools

from hlib import case
import runkit as R
from neps.exceptions import WorkerRaiseError
from neps.optimizers.base_optimizer import BaseOptimizer
from neps.state.filebased import load_filebased_neps_state
from neps.state.settings import DefaultReportValues
from neps.state.trial import Trial

S = Trial.State


class Falsy(Exception):
    def __bool__(self):
        return False


class NoCopy(Exception):
    def __init__(self, a, b):
        super().__init__(f"{a}{b}")


class Sub(ArithmeticError):
    pass


ERRS = [lambda: ValueError("boom"), lambda: KeyError("k"), lambda: RuntimeError(""), lambda: Falsy("f"), lambda: NoCopy(1, 2),
        lambda: Sub("s\nline"), lambda: UnicodeDecodeError("utf-8", b"a", 0, 1, "r"), lambda: AssertionError(),
        lambda: StopIteration("x"), lambda: TimeoutError("t"), lambda: OSError(2, "no")]


def fail(state, e, who="other"):
    t = state.sample_trial(R.Scripted(record=False), worker_id=who)
    t.set_evaluating(time_started=1.0, worker_id=who)
    state.put_updated_trial(t)
    rep = t.set_complete(report_as="crashed", time_end=2.0, loss=None, cost=None, learning_curve=None, err=e, tb="tb", extra=None,
                         evaluation_duration=1.0)
    state.report_trial_evaluation(t, rep, worker_id=who)
    return t.id


@case
def policies(ctx):
    """Own errors and errors of others, before or during the run, under every policy."""
    for pol, mk, own_at, other in itertools.product(R.O, ERRS, (None, 1, 3), ("never", "before", "during")):
        if ctx.rng.random() < (0.45 if not ctx.thorough else 0):
            continue
        if own_at is None and mk is not ERRS[0] and other == "never":
            continue
        d = ctx.dir() / "run"
        st = R.state_at(d)
        oth = R.state_at(d)
        if other == "before":
            fail(oth, ValueError("theirs"))
        n = []

        def fn(x):
            n.append(x)
            if other == "during" and len(n) == 2:
                fail(oth, ValueError("theirs"))
            if len(n) == own_at:
                raise mk()
            return 1.0
        try:
            R.worker(st, fn, wid="me", on_error=pol, max_evaluations_for_worker=5).run()
            out = "ended"
        except WorkerRaiseError as e:
            out = "raised"
            ctx.check(e.__cause__ is not None, "the raised error names its cause")
            if own_at == len(n) and other != "before":
                ctx.check(type(e.__cause__) is type(mk()), "own error as cause", cause=e.__cause__)
        any_ = pol in (R.O.RAISE_ANY_ERROR, R.O.STOP_ANY_ERROR)
        raise_ = pol in (R.O.RAISE_ANY_ERROR, R.O.RAISE_WORKER_ERROR)
        stop_at = [5]
        if own_at and pol is not R.O.IGNORE:
            stop_at.append(own_at)
        if any_ and other == "before":
            stop_at.append(0)
        if any_ and other == "during":
            stop_at.append(2)
        want_n = min(stop_at)
        errored = want_n < 5
        case_ = dict(policy=pol.name, err=type(mk()).__name__, own_at=own_at, other=other)
        ctx.check(len(n) == want_n, "the worker goes on exactly as long as its policy says", evaluated=len(n), want=want_n, **case_)
        ctx.check(out == ("raised" if errored and raise_ else "ended"), "it raises or stops as told", out=out, **case_)
        ts = R.trials_at(d)
        errs = R.errors_at(d)
        own_err = own_at is not None and own_at <= len(n)
        theirs = other == "before" or (other == "during" and len(n) >= 2)
        ctx.check(len(errs) == int(own_err) + int(theirs), "every failure is in the error log once", errs=errs, **case_)
        crashed = {t.id for t in ts.values() if t.state == S.CRASHED}
        ctx.check(sorted(e.trial_id for e in errs) == sorted(crashed), "the log names the failed trials", errs=errs, **case_)
        for e in errs:
            t = ts[e.trial_id]
            mine = e.worker_id == "me"
            src = mk() if mine else ValueError("theirs")
            ctx.check(e.err_type == type(src).__name__ and e.err == str(src), "the log names the error", entry=e, **case_)
            ctx.check(t.report is not None and t.report.reported_as == "crashed" and str(t.report.err) == str(src),
                      "the failed trial's report carries the error", trial=t, **case_)
            ctx.check(t.metadata.evaluating_worker_id == e.worker_id, "the log names the worker", entry=e)
            if mine:
                ctx.check(type(src).__name__ in e.tb, "traceback", tb=e.tb)
        ctx.count(tuple(case_.values()))


@case
def on_error_values(ctx):
    """Failed evaluations carry the configured loss and cost, and optimizers see those."""
    for lv, cv, ign in itertools.product((None, 0.0, 10.0), (None, 0.0, 2.0), (True, False)):
        d = ctx.dir() / "run"
        opt = R.Scripted()
        dv = DefaultReportValues(loss_value_on_error=lv, cost_value_on_error=cv)

        def fn(x):
            if int(x) % 2:
                raise ValueError("boom")
            return {"loss": 3.0, "cost": 4.0, "info_dict": {"learning_curve": [1.0]}}
        R.worker(R.state_at(d), fn, opt=opt, max_evaluations_for_worker=4, on_error=R.O.IGNORE, default_report_values=dv).run()
        ts = R.trials_at(d)
        b = BaseOptimizer.__new__(R.Scripted)
        b.loss_value_on_error, b.cost_value_on_error, b.learning_curve_on_error = lv, cv, None
        b.ignore_errors = ign
        for t in ts.values():
            bad = int(t.config["x"]) % 2
            r = t.report
            ctx.eq((r.loss, r.cost), (lv, cv) if bad else (3.0, 4.0), "stored loss and cost")
            if not bad:
                for v in (r, {"loss": 3.0, "cost": 4.0}, {"loss": 3, "cost": 4, "x": 1}):
                    ctx.eq((b.get_loss(v), b.get_cost(v)), (3.0, 4.0), "loss and cost read back", kind=type(v).__name__)
                continue
            for get, val, plain in ((b.get_loss, lv, "error"), (b.get_cost, cv, "error")):
                ctx.eq(get(r), val if val is not None else "error", "a failed report has the configured value", ignore=ign)
                if ign:
                    ctx.eq(get(plain), "error", "ignored errors are shown as such")
                elif val is not None:
                    ctx.eq(get(plain), val, "an error result has the configured value", ignore=ign)
                else:
                    ctx.raises(ValueError, lambda: get(plain), "a failure without configured value is an error")
            ctx.count((lv, cv, ign, t.id))


@case
def later_workers(ctx):
    """The error log is what later workers stop on; IGNORE goes on; trials are kept either way."""
    for first, second in itertools.product(R.O, R.O):
        d = ctx.dir() / "run"
        n = []

        def fn(x):
            n.append(x)
            if len(n) == 2:
                raise ValueError("boom")
            return 0.0
        try:
            R.worker(R.state_at(d), fn, wid="a", on_error=first, max_evaluations_for_worker=3).run()
        except WorkerRaiseError:
            pass
        k = len(n)
        try:
            R.worker(R.state_at(d), fn, wid="b", on_error=second, max_evaluations_for_worker=2).run()
            out = "ended"
        except WorkerRaiseError:
            out = "raised"
        blocked = second in (R.O.RAISE_ANY_ERROR, R.O.STOP_ANY_ERROR)
        ctx.check(len(n) - k == (0 if blocked else 2), "a later worker heeds the log exactly if its policy is about any error",
                  first=first.name, second=second.name, n=n)
        ctx.check(out == ("raised" if second is R.O.RAISE_ANY_ERROR else "ended"), "raise or stop", second=second.name)
        e, = R.errors_at(d)
        ctx.check(e.worker_id == "a" and e.trial_id == "2", "the log", e=e)
        ctx.count((first.name, second.name))
