"""C08 a report states exactly what the evaluation returned."""
# instrument: neps.state._eval neps.state.trial neps.state.neps_state neps.state.err_dump neps.state.optimizer
import neps.state._eval as E
from neps.state.settings import DefaultReportValues
from neps.state.trial import Trial
from pyvc import rt
from pyvc.contract import contract
from pyvc.core import cur
from pyvc.rt import Coll, SymSeq
from pyvc.stubs import GClock, patched
from pyvc.values import And, Or, SymBool, SymNum, intval, realval, same, val
from pyvc.z3load import z3
from contracts.reporting import UserError, report_contract

CURVE = z3.Function("curve", z3.IntSort(), z3.RealSort())


class NotANumber:
    pass


def number(vc, base):
    k = vc.choose(3, base)
    if k == 0:
        return realval(base, nan=True)
    if k == 1:
        return intval(base)
    return 0.0 if vc.choose(2, "zero") else 3      # concrete corner cases: 0 is a value


def curve(vc, base="lc"):
    f = z3.Function(base, z3.IntSort(), z3.RealSort())
    return SymSeq(Coll(base), lambda i: SymNum(f(i), "float"))


def same_curve(got, want):
    """Element for element, over any length."""
    if want is None or got is None:
        return got is want
    if isinstance(want, list) and not isinstance(want, SymSeq):
        return isinstance(got, list) and type(got) is list and len(got) == len(want) and \
            And(*[same(a, b) for a, b in zip(got, want)])
    if not isinstance(got, SymSeq):
        return type(got) is list and len(got) == 0 and SymBool(want.coll.n == 0)
    if got.coll is not want.coll:
        return False
    k = cur().const("any", z3.IntSort())
    cur().assume(z3.And(k >= 0, k < want.coll.n))
    return And(SymBool(got.guard(k)), same(got.elem(k), want.elem(k)))


def defaults(vc):
    d = DefaultReportValues()
    d.loss_value_on_error = realval("d.loss") if vc.choose(2, "d.loss") else None
    d.cost_value_on_error = realval("d.cost") if vc.choose(2, "d.cost") else None
    d.cost_if_not_provided = realval("d.cost2") if vc.choose(2, "d.cost2") else None
    d.learning_curve_on_error = [realval("d.lc")] if vc.choose(2, "d.lc") else None
    d.learning_curve_if_not_provided = (None, "loss", [realval("d.lc2")])[vc.choose(3, "d.lc2")]
    return d


class Returned:
    """What the user returned, and what the report has to say about it."""

    def __init__(self, vc, d_cost, d_curve):
        self.refused = False
        self.extra = {}
        self.info = None
        given_cost = given_curve = False
        if vc.choose(2, "mapping") == 0:
            self.value = self.loss = number(vc, "loss")
            if vc.choose(4, "bad") == 0:
                self.value, self.refused = (None, NotANumber(), "x", [1.0])[vc.choose(4, "how")], True
        else:
            m = {}
            k = vc.choose(3, "loss key")
            if k == 0:
                m["loss"] = self.loss = number(vc, "loss")
            elif k == 1:
                m["loss"], self.refused = (None, NotANumber(), "x")[vc.choose(3, "how")], True
            else:
                self.refused = True
            if vc.choose(2, "cost key"):
                if vc.choose(4, "bad cost") == 0:
                    m["cost"], self.refused = (NotANumber(), "x")[vc.choose(2, "how")], True
                else:
                    m["cost"] = self.cost = realval("cost", nan=True)
                given_cost = True
            where = vc.choose(3, "curve")
            if where:
                self.curve = curve(vc)
                given_curve = True
            if where == 1:
                m["learning_curve"] = self.curve
            info = vc.choose(2, "info") if where != 2 else 1
            if info:
                self.info = {"a": val("info.a")}
                m["info_dict"] = dict(self.info)
                if where == 2:
                    m["info_dict"]["learning_curve"] = self.curve
            for n in ("accuracy", "report"):
                if vc.choose(2, n):
                    m[n] = self.extra[n] = val(n)
            self.value = m
        if not given_cost:
            self.cost = d_cost
        if not given_curve and not self.refused:
            self.curve = [self.loss] if d_curve == "loss" else d_curve

    def proves(self, vc, loss, cost, lc, extra):
        vc.prove(same(loss, self.loss), "the loss is the returned one")
        vc.prove(loss.__class__ is float, "as a float")
        vc.prove(same(cost, self.cost), "the cost is the returned one, or the default if none was returned")
        vc.prove(same_curve(lc, self.curve), "the learning curve is the returned one, or the default")
        ex = dict(extra)
        info = ex.pop("info_dict", None)
        vc.prove(set(ex) == set(self.extra) and all(ex[k] is self.extra[k] for k in ex),
                 "all remaining entries are kept unchanged, and no other")
        if self.info is None:
            vc.prove(info is None, "no entry is invented")
        else:
            vc.prove(info is not None and info.get("a") is self.info["a"] and set(info) <= {"a", "learning_curve"},
                     "the info entries are kept")


@contract("C08", "neps.state._eval.parse_user_result", "neps.state._eval._check_float", max_paths=40000, time_limit=300)
def parse(vc):
    d_cost = realval("d") if vc.choose(2, "default cost") else None
    d_curve = (None, "loss", [realval("x"), realval("y")])[vc.choose(3, "default curve")]
    u = Returned(vc, d_cost, d_curve)
    st, r = vc.call(E.parse_user_result, u.value, default_cost_value=d_cost, default_learning_curve=d_curve)
    if u.refused:
        vc.prove(st == "exc", "a result without a numeric loss or with a non-numeric cost is refused")
        vc.cover("refused")
        return
    vc.prove(st == "ok", "a legal result is accepted")
    if st == "ok":
        loss, cost, lc, extra = r
        u.proves(vc, loss, cost, lc, extra)
        vc.cover("accepted")


class GPathlike:
    def __init__(self, p):
        self.p = p


def new_trial(vc):
    prev = vc.choose(2, "previous")
    t = Trial.new(trial_id=val("id", str), config={"x": val("x"), "y": val("y")}, location=val("loc", str),
                  previous_trial=val("pid", str) if prev else None, previous_trial_location=val("ploc", str) if prev else None,
                  time_sampled=realval("ts"), worker_id=val("w", str))
    t.set_evaluating(time_started=realval("t0"), worker_id=val("w2", str))
    return t


@contract("C08", "neps.state._eval.evaluate_trial", "neps.state._eval._eval_trial", "neps.state._eval.parse_user_result",
          "neps.state.trial.Trial.set_complete", max_paths=60000, time_limit=400)
def evaluate(vc):
    clock = GClock(vc)
    t = new_trial(vc)
    d = DefaultReportValues()
    how = vc.choose(2, "outcome")
    calls = []
    if how == 0:          # the user's function raises: which defaults are set matters
        d.loss_value_on_error = realval("d.loss") if vc.choose(2, "d.loss") else None
        d.cost_value_on_error = realval("d.cost") if vc.choose(2, "d.cost") else None
        d.learning_curve_on_error = [realval("d.lc")] if vc.choose(2, "d.lc") else None
        d.cost_if_not_provided, d.learning_curve_if_not_provided = realval("other cost"), "loss"
        err = UserError()
    else:
        d.cost_if_not_provided = realval("d.cost2") if vc.choose(2, "d.cost2") else None
        d.learning_curve_if_not_provided = (None, "loss", [realval("d.lc2")])[vc.choose(3, "d.lc2")]
        d.loss_value_on_error, d.cost_value_on_error = realval("other"), realval("other")
        d.learning_curve_on_error = [realval("other")]
    u = []

    def body(args, dirs):
        clock.mark()
        calls.append((args, dirs))
        if how == 0:
            clock.mark()
            raise err
        u.append(Returned(vc, d.cost_if_not_provided, d.learning_curve_if_not_provided))
        clock.mark()
        return u[0].value

    def f0(**config):
        return body(config, {})

    def f1(x, y):
        return body({"x": x, "y": y}, {})

    def f2(x, y, pipeline_directory):
        return body({"x": x, "y": y}, {"pipeline_directory": pipeline_directory})

    def f3(previous_pipeline_directory, pipeline_directory, **config):
        return body(config, {"pipeline_directory": pipeline_directory,
                             "previous_pipeline_directory": previous_pipeline_directory})

    fn = (f0, f1, f2, f3)[vc.choose(4, "signature")] if how == 0 else f1
    cfg = dict(t.config)
    tbs = []

    class Traceback:
        def format_exc(*a, **k):
            import sys
            vc.prove(sys.exc_info()[1] is err, "the traceback is taken of the user's exception")
            tbs.append(val("tb", str))
            return tbs[-1]

        def __getattr__(self, n):
            from pyvc.core import Unsupported
            raise Unsupported("traceback." + n)
    with patched(E, time=clock, Path=GPathlike, traceback=Traceback()):
        st, r = vc.call(E.evaluate_trial, t, evaluation_fn=fn, default_report_values=d)
    vc.prove(len(calls) == 1, "the user's function is called exactly once")
    if len(calls) != 1:
        return
    args, dirs = calls[0]
    vc.prove(set(args) == set(cfg) and all(args[k] is cfg[k] for k in cfg), "the configuration is passed unchanged")
    vc.prove(set(t.config) == set(cfg) and all(t.config[k] is cfg[k] for k in cfg), "the trial keeps its configuration")
    if "pipeline_directory" in dirs:
        vc.prove(isinstance(dirs["pipeline_directory"], GPathlike) and dirs["pipeline_directory"].p is t.metadata.location,
                 "the pipeline directory is the trial's location")
    if "previous_pipeline_directory" in dirs:
        pd, want = dirs["previous_pipeline_directory"], t.metadata.previous_trial_location
        vc.prove(pd is None if want is None else isinstance(pd, GPathlike) and pd.p is want,
                 "the previous pipeline directory is that of the predecessor")
    if how == 1 and u[0].refused:
        vc.prove(st == "exc" or r[1].reported_as != "success", "a result that is no number is not stored as success")
        vc.cover("refused")
        return
    vc.prove(st == "ok", "an evaluation gives a report, however it ended")
    if st != "ok":
        return
    trial, rep = r
    vc.prove(trial is t and same(rep.trial_id, t.metadata.id), "the report is for this trial")
    if how == 0:
        vc.prove(rep.reported_as == "crashed" and t.state == Trial.State.CRASHED, "an exception is reported as a crash")
        vc.prove(rep.err is err, "the report carries the exception")
        vc.prove(len(tbs) >= 1 and any(rep.tb is x for x in tbs), "and its traceback")
        vc.prove(same(rep.loss, d.loss_value_on_error), "the on-error loss is reported")
        vc.prove(same(rep.cost, d.cost_value_on_error), "the on-error cost is reported")
        vc.prove(same_curve(rep.learning_curve, d.learning_curve_on_error), "the on-error learning curve is reported")
        vc.prove(not rep.extra, "no other entries")
        vc.cover("crashed")
    else:
        vc.prove(rep.reported_as == "success" and t.state == Trial.State.SUCCESS, "a result is reported as a success")
        vc.prove(rep.err is None and rep.tb is None, "without error")
        u[0].proves(vc, rep.loss, rep.cost, rep.learning_curve, rep.extra)
        vc.cover("succeeded")
    vc.prove(clock.duration_between(rep.evaluation_duration, 0, 2), "the duration is that of the user's function")
    vc.prove(same(t.metadata.evaluation_duration, rep.evaluation_duration), "the trial has the report's duration")
    vc.prove(clock.reading_at(t.metadata.time_end, 2), "the end time is read after the evaluation")


@contract("C08", "neps.state.trial.Trial.set_complete")
def complete(vc):
    t = new_trial(vc)
    k = vc.choose(4, "as")
    how = ("success", "failed", "crashed", "nonsense")[k]
    loss = number(vc, "loss") if vc.choose(2, "has loss") else None
    cost = number(vc, "cost") if vc.choose(2, "has cost") else None
    lc = curve(vc) if vc.choose(2, "has lc") else None
    err = UserError() if k in (1, 2) else None
    extra = {"a": val("a")} if vc.choose(2, "extra") else None
    te, dur, tb = realval("te"), realval("dur"), val("tb", str)
    st, r = vc.call(t.set_complete, report_as=how, time_end=te, loss=loss, cost=cost, learning_curve=lc, err=err, tb=tb,
                    extra=extra, evaluation_duration=dur)
    if k == 3:
        vc.prove(st == "exc" and isinstance(r, ValueError), "an unknown outcome is refused")
        return
    vc.prove(st == "ok", "completing succeeds")
    if st != "ok":
        return
    vc.prove(t.state == (Trial.State.SUCCESS, Trial.State.FAILED, Trial.State.CRASHED)[k] and r.reported_as == how,
             "state and report agree")
    vc.prove(same(t.metadata.time_end, te) and same(t.metadata.evaluation_duration, dur)
             and same(r.evaluation_duration, dur), "times agree")
    vc.prove(same(r.loss, loss) and same(r.cost, cost), "loss and cost are kept")
    vc.prove(same_curve(r.learning_curve, lc), "the learning curve is kept")
    vc.prove(r.err is err and r.tb is tb and same(r.trial_id, t.metadata.id), "error, traceback and trial are kept")
    vc.prove(dict(r.extra) == {} if extra is None else set(r.extra) == {"a"} and r.extra["a"] is extra["a"],
             "other entries are kept")
    vc.cover("completed")


@contract("C08", "neps.state.neps_state.NePSState.report_trial_evaluation")
def report(vc):
    report_contract(vc)
