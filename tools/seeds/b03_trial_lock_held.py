PROP = "C03"
NEEDS = "one worker samples while another reports: the sampler has the optimizer state's lock, the reporter its trial's"
BREAKS = "locks are taken in both orders, so that two workers wait for each other until the lock times out"
EDITS = [("neps/state/neps_state.py", '''        trial.report = report
        shared_trial.put(trial)
        logger.debug("Updated trial '%s' with status '%s'", trial.id, trial.state)
        with self._optimizer_state.acquire() as (opt_state, put_opt_state):
''', '''        trial.report = report
        with (
            shared_trial._locker.lock(),
            self._optimizer_state.acquire() as (opt_state, put_opt_state),
        ):
            shared_trial._put_unsafe(trial)
            logger.debug("Updated trial '%s' with status '%s'", trial.id, trial.state)
''')]
DEMO = '''
import os, tempfile, pathlib, sys, threading
os.environ["NEPS_TRIAL_FILELOCK_TIMEOUT"] = "3"
os.environ["NEPS_OPTIMIZER_STATE_FILELOCK_TIMEOUT"] = "6"
from neps.state.filebased import *
from neps.state.optimizer import *
from neps.optimizers.base_optimizer import SampledConfig
class Opt:
    def ask(self, trials, budget_info=None):
        return SampledConfig(id=str(len(trials)), config={"x": 1.0})
with tempfile.TemporaryDirectory() as d:
    mk = lambda: create_or_load_filebased_neps_state(pathlib.Path(d) / "r", optimizer_info=OptimizerInfo({"a": 1}), optimizer_state=OptimizationState(None, {"k": 0}))
    a, b = mk(), mk()
    for s in (a, b):
        s._optimizer_state._locker.timeout = 6
    t = a.sample_trial(Opt(), worker_id="a")
    b.get_all_trials()
    for s in b._trials._cache.values():
        s._locker.timeout = 3
    t.set_evaluating(time_started=1.0, worker_id="w")
    a.put_updated_trial(t)
    r = t.set_complete(report_as="success", time_end=1.0, loss=1.0, cost=1.0, learning_curve=None, err=None, tb=None, extra={}, evaluation_duration=1.0)
    reporter_at_state, sampler_has_state = threading.Event(), threading.Event()
    orig_a, orig_all = a._optimizer_state._locker.lock, b._trials.all
    def lock_a(**k):
        reporter_at_state.set(); sampler_has_state.wait(5)
        return orig_a(**k)
    def all_b():
        sampler_has_state.set()
        return orig_all()
    a._optimizer_state._locker.lock = lock_a
    b._trials.all = all_b
    errs = []
    def go(f):
        try: f()
        except Exception as e: errs.append(f"{type(e).__name__}: {str(e)[:80]}")
    ra = threading.Thread(target=go, args=(lambda: a.report_trial_evaluation(t, r, worker_id="a"),))
    ra.start(); reporter_at_state.wait(10)
    sb = threading.Thread(target=go, args=(lambda: b.sample_trial(Opt(), worker_id="b"),))
    sb.start(); ra.join(30); sb.join(30)
    if errs:
        sys.exit(f"deadlock: {errs}")
'''
