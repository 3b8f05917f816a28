PROP = "C14"
NEEDS = "a promoted configuration still being evaluated at the higher rung while other workers ask (asynchronous promotion)"
BREAKS = "the result of the lower rung counts at the higher one, so an unfinished evaluation is promoted further"
EDITS = [("neps/optimizers/multi_fidelity/successive_halving.py", '''                self.observed_configs.at[int(_config), "rung"] = int(_rung)
                self.observed_configs.at[int(_config), "perf"] = np.nan
''', '''                self.observed_configs.at[int(_config), "rung"] = int(_rung)
''')]
DEMO = '''
import sys
from neps.search_spaces import FloatParameter, IntegerParameter, SearchSpace
from neps.optimizers.multi_fidelity.successive_halving import AsynchronousSuccessiveHalving
from neps.state.trial import Trial
sp = SearchSpace(x=FloatParameter(0, 1), f=IntegerParameter(1, 8, is_fidelity=True))
o = AsynchronousSuccessiveHalving(pipeline_space=sp, budget=1000, eta=2)
trials = {}
def add(id, loss):
    i, r = id.split("_")
    t = Trial.new(trial_id=id, location="", config={"x": 0.5, "f": o.rung_map[int(r)]}, previous_trial=None, previous_trial_location=None, time_sampled=1.0, worker_id="w")
    t.set_evaluating(time_started=1.0, worker_id="w")
    if loss is not None:
        t.report = t.set_complete(report_as="success", time_end=2.0, loss=loss, cost=None, err=None, tb=None, learning_curve=None, evaluation_duration=1.0, extra={})
    trials[id] = t
for i in range(4):
    add(f"{i}_0", float(i))
add("0_1", None)
add("1_1", None)
s = o.ask(trials, None)
if s.previous_config_id is not None and trials[s.previous_config_id].report is None:
    sys.exit(f"{s.id} follows the unfinished {s.previous_config_id}")
'''
