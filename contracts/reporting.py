"""The contract of NePSState.report_trial_evaluation; parts of it carry C03, C04, C08 and C09."""
import neps.state.neps_state as N
from neps.exceptions import TrialNotFoundError
from neps.state.err_dump import ErrDump
from neps.state.trial import Trial
from pyvc.run_ghost import Run, T_ID, fields, same_fields
from pyvc.stubs import GList, owns
from pyvc.values import And, SymBool, SymVal, realval, same, val


class UserError(Exception):
    """An exception of the user, with arbitrary text."""

    def __init__(self):
        self.text = val("message", str)

    def __vc_str__(self):
        return self.text


class FalsyError(UserError):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


def P(vc, props, cond, name):
    if owns(*props.split()):
        vc.prove(cond, name)


def old_error():
    return ErrDump.SerializableTrialError(trial_id=val("e.trial", str), worker_id=val("e.worker", str),
                                          err_type=val("e.type", str), err=val("e.err", str), tb=val("e.tb", str))


def report_contract(vc):
    def dump_():
        d = ErrDump()
        d.errs = GList("errs", old_error)
        return d
    run = Run(vc, errs=dump_(), other_errs=dump_, snap_errs=lambda d: (d.errs, list(getattr(d.errs, "new", ()))))
    t = Trial.new(trial_id=val("id", str), config=val("cfg", dict), location=val("loc", str), previous_trial=None,
                  previous_trial_location=None, time_sampled=realval("ts"), worker_id=val("w", str))
    t.set_evaluating(time_started=realval("t0"), worker_id=val("w2", str))
    kind = vc.choose(4, "outcome")
    err = (None, UserError(), FalsyError(), UserError())[kind]
    rep = t.set_complete(report_as=("success", "crashed", "crashed", "failed")[kind], time_end=realval("te"),
                         loss=realval("loss", nan=True) if vc.choose(2, "loss") else None,
                         cost=realval("cost") if vc.choose(2, "cost") else None, learning_curve=None,
                         err=err, tb=val("tb", str) if err is not None else None, extra=None,
                         evaluation_duration=realval("dur"))
    state0 = t.state
    want_cost = rep.cost
    worker = val("worker", str)
    st, r = vc.call(run.state.report_trial_evaluation, t, rep, worker_id=worker)
    if owns("C03"):
        run.locks_free()
    found = run.repo.map.find(t.metadata.id)
    if found is None:
        P(vc, "C08 C09", st == "exc" and isinstance(r, TrialNotFoundError) and not run.repo.puts,
          "the report of an unknown trial is refused")
        P(vc, "C08 C09", And(*[same_fields(b[0], a[0]) for b, a in run.opt.log]), "and the budget is left alone")
        vc.cover("unknown trial")
        return
    P(vc, "C08 C09", st == "ok", "reporting succeeds")
    if st != "ok":
        return
    P(vc, "C08 C09", len(run.repo.puts) == 1 and not run.repo.new, "one trial is updated")
    for i, data in run.repo.puts[:1]:
        P(vc, "C08 C09", SymBool(T_ID(i) == t.metadata.id.z), "the one evaluated")
        P(vc, "C08 C09", data.report is rep and data.state is state0 and data.config is t.config,
          "with the report and the state that goes with it")
    spent = []
    for (b0, sh0), (b1, sh1) in run.opt.log:
        if b0 is None:
            P(vc, "C01 C08", b1 is None, "no budget is invented")
        else:
            P(vc, "C01 C08", b1 is not None and And(same(b1[0], b0[0]), same(b1[2], b0[2]), same(b1[3], b0[3])),
              "the other budget entries stay")
            if b1 is not None:
                spent.append(b1[1] - b0[1])
        P(vc, "C01 C08", same(sh1, sh0), "the optimizer's shared state stays")
    if run.opt.log and run.opt.log[0][0][0] is None:
        pass
    elif want_cost is None:
        P(vc, "C01 C08", And(*[same(d, 0.0) for d in spent]), "the used cost stays if no cost is reported")
    else:
        P(vc, "C08", bool(run.opt.log), "the grown budget is stored")
        if spent:
            P(vc, "C01 C08", same(sum(spent[1:], spent[0]), want_cost), "the used cost grows by exactly the reported cost")
            vc.cover("cost")
    if err is None:
        P(vc, "C01 C09", all(before[0] is after[0] and len(before[1]) == len(after[1]) for before, after in run.errs.log),
          "no error is recorded for a success")
        vc.cover("success")
        return
    P(vc, "C09", len(run.errs.log) >= 1, "the error log is stored")
    P(vc, "C01 C09", all(before[0] is after[0] for before, after in run.errs.log), "all earlier entries are kept")
    added = [e for before, after in run.errs.log for e in after[1][len(before[1]):]]
    P(vc, "C01 C09", len(added) == 1, "one entry is appended")
    if added:
        e = added[-1]
        P(vc, "C09", And(same(e.trial_id, t.metadata.id), same(e.worker_id, worker), e.err_type == type(err).__name__,
                         same(e.err, err.text), same(e.tb, rep.tb)),
          "with trial, worker, error type, message and traceback")
    vc.cover("error recorded")
