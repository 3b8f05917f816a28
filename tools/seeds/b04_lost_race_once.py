PROP = "C04"
NEEDS = "the worker loses the race for a trial exactly once"
BREAKS = "the trial it failed to claim is evaluated although another worker evaluates it"
EDITS = [("neps/runtime.py", "            if n_failed_set_trial_state != 0:\n", "            if n_failed_set_trial_state > 1:\n")]
DEMO = '''
import tempfile, pathlib, sys
from neps.state.filebased import *
from neps.state.optimizer import *
from neps.state.settings import *
from neps.runtime import DefaultWorker
from neps.optimizers.base_optimizer import SampledConfig
class Opt:
    def ask(self, trials, budget_info=None):
        n = len(trials)
        return SampledConfig(id=str(n), config={"x": float(n)})
with tempfile.TemporaryDirectory() as d:
    mk = lambda: create_or_load_filebased_neps_state(pathlib.Path(d) / "r", optimizer_info=OptimizerInfo({"a": 1}), optimizer_state=OptimizationState(None, {}))
    a, b = mk(), mk()
    orig, theirs, mine = a.sample_trial, [], []
    def sample(*p, **k):
        t = orig(*p, **k)
        if not theirs:      # another worker is faster, once
            u = b.get_trial_by_id(t.id)
            u.set_evaluating(time_started=1.0, worker_id="b")
            b.put_updated_trial(u)
            theirs.append(t.config["x"])
        return t
    a.sample_trial = sample
    def fn(x):
        mine.append(x)
        return x
    w = DefaultWorker.new(state=a, optimizer=Opt(), evaluation_fn=fn, worker_id="a", settings=WorkerSettings(
        on_error=OnErrorPossibilities.IGNORE, default_report_values=DefaultReportValues(), max_evaluations_total=None,
        include_in_progress_evaluations_towards_maximum=False, max_cost_total=None, max_evaluations_for_worker=2,
        max_evaluation_time_total_seconds=None, max_wallclock_time_for_worker_seconds=None,
        max_evaluation_time_for_worker_seconds=None, max_cost_for_worker=None))
    try:
        w.run()
    except Exception as e:
        pass
    if set(mine) & set(theirs):
        sys.exit(f"evaluated twice: {set(mine) & set(theirs)}")
'''
