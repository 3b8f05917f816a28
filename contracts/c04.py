"""C04 a trial is evaluated by at most one worker, exactly once."""
# instrument: neps.runtime neps.state._eval neps.state.trial neps.state.neps_state
from pyvc.contract import contract
from contracts import workerrun

T = ("neps.runtime.DefaultWorker.run", "neps.runtime.DefaultWorker._get_next_trial_from_state",
     "neps.runtime._set_global_trial", "neps.state._eval.evaluate_trial", "neps.state._eval._eval_trial",
     "neps.state.trial.Trial.set_evaluating", "neps.state.trial.Trial.set_complete")


@contract("C04", *T)
def run_loop(vc):
    workerrun.worker_run(vc)


@contract("C04", "neps.runtime.DefaultWorker.run")
def lost_race(vc):
    workerrun.lost_race_carries_on(vc)


@contract("C04", "neps.state.neps_state.NePSState.get_next_pending_trial")
def next_pending(vc):
    """What is handed out is pending in the shared state at the moment of handing out."""
    from neps.state.trial import Trial
    from pyvc.run_ghost import Run
    from pyvc.values import SymVal
    run = Run(vc, with_budget=False)
    many = vc.choose(3, "n")
    if many == 0:
        st, r = vc.call(run.state.get_next_pending_trial)
    else:
        st, r = vc.call(run.state.get_next_pending_trial, n=many)
    vc.prove(st == "ok", "asking for a pending trial succeeds")
    if st != "ok":
        return
    got = [r] if many == 0 else r
    if many == 0 and r is None:
        vc.cover("none")
        return
    vc.prove(len(got) <= max(many, 1), "no more than asked for")
    for t in got:
        vc.prove(t.state == Trial.State.PENDING, "a trial handed out as pending is pending")
        vc.cover("pending")


@contract("C04", "neps.state.neps_state.NePSState.put_updated_trial")
def put_updated(vc):
    """Claiming goes to the stored trial of that id and nowhere else."""
    from neps.exceptions import TrialNotFoundError
    from neps.state.trial import Trial
    from pyvc.run_ghost import Run, T_ID
    from pyvc.values import SymBool, realval, val
    run = Run(vc, with_budget=False)
    t = Trial.new(trial_id=val("id", str), config=val("c", dict), location=val("l", str), previous_trial=None,
                  previous_trial_location=None, time_sampled=realval("ts"), worker_id=val("w", str))
    t.set_evaluating(time_started=realval("t0"), worker_id=val("w", str))
    st, r = vc.call(run.state.put_updated_trial, t)
    found = run.repo.map.find(t.metadata.id)
    if found is None:
        vc.prove(st == "exc" and isinstance(r, TrialNotFoundError) and not run.repo.puts, "an unknown trial is refused")
        vc.cover("unknown")
        return
    vc.prove(st == "ok" and len(run.repo.puts) == 1 and not run.repo.new, "one write to one trial")
    if len(run.repo.puts) == 1:
        i, data = run.repo.puts[0]
        vc.prove(SymBool(T_ID(i) == t.metadata.id.z), "to the trial of that id")
        vc.prove(data is t, "the given trial is written")
    vc.cover("written")
