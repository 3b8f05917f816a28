PROP = "C08"
NEEDS = "another worker reports between this worker's reading the optimizer state and its writing the new budget"
BREAKS = "the cost reported by the other worker is lost from the shared budget"
ALSO = ["C01", "C03"]
EDITS = [("neps/state/neps_state.py", '''        with self._optimizer_state.acquire() as (opt_state, put_opt_state):
            # TODO: If an optimizer''', '''        opt_state = self.optimizer_state()
        with self._optimizer_state.acquire() as (_, put_opt_state):
            # TODO: If an optimizer''')]
DEMO = '''
import tempfile, pathlib, sys
from neps.state.filebased import *
from neps.state.optimizer import *
from neps.state.trial import Trial
from neps.optimizers.base_optimizer import SampledConfig
class Opt:
    def ask(self, trials, budget_info=None):
        return SampledConfig(id=str(len(trials)), config={"x": 1.0})
def report(st, t, cost):
    t.set_evaluating(time_started=1.0, worker_id="w")
    st.put_updated_trial(t)
    r = t.set_complete(report_as="success", time_end=1.0, loss=1.0, cost=cost, learning_curve=None, err=None, tb=None, extra={}, evaluation_duration=1.0)
    st.report_trial_evaluation(t, r, worker_id="w")
with tempfile.TemporaryDirectory() as d:
    mk = lambda: create_or_load_filebased_neps_state(pathlib.Path(d) / "r", optimizer_info=OptimizerInfo({"a": 1}), optimizer_state=OptimizationState(BudgetInfo(max_cost_budget=10.0), {}))
    a, b = mk(), mk()
    t1, t2 = a.sample_trial(Opt(), worker_id="a"), b.sample_trial(Opt(), worker_id="b")
    lock = a._optimizer_state._locker
    cls, orig, n = type(lock), type(lock).lock, [0]
    def locked(self, **k):
        # just before a takes the lock of the optimizer state (for the last time), b reports
        if self is lock:
            n[0] += 1
            if n[0] == want:
                report(b, t2, 2.0)
        return orig(self, **k)
    import os
    for want in (1, 2):
        pass
    # how often does a take the lock during a report?
    want = -1
    cls.lock = locked
    x = a.sample_trial(Opt(), worker_id="a")
    n[0] = 0
    report(a, x, 0.0)
    want, n[0] = n[0], 0
    report(a, t1, 1.0)
    cls.lock = orig
    got = mk().optimizer_state().budget.used_cost_budget
    if got != 3.0:
        sys.exit(f"reported costs 1 and 2, used budget {got}")
'''
