PROP = "C15"
NEEDS = "promotions in a bracket with an early stopping rate of at least one (several rungs left), as in the later brackets of Hyperband"
BREAKS = "promoted trials run at the fidelity of another rung than the one in their id"
EDITS = [("neps/optimizers/multi_fidelity/successive_halving.py", "            config.fidelity.set_value(self.rung_map[rung])\n", "            config.fidelity.set_value(sorted(self.fidelities)[min(rung, len(self.fidelities) - 1)])\n")]
DEMO = '''
import sys
from types import SimpleNamespace
from neps.search_spaces import FloatParameter, IntegerParameter, SearchSpace
from neps.optimizers.multi_fidelity.successive_halving import AsynchronousSuccessiveHalving
from neps.state.trial import Trial
sp = SearchSpace(x=FloatParameter(0, 1), f=IntegerParameter(1, 81, is_fidelity=True))
o = AsynchronousSuccessiveHalving(pipeline_space=sp, budget=1000, eta=3, early_stopping_rate=1)
trials = {}
for i in range(20):
    s = o.ask(trials, None)
    want = o.rung_map[int(s.id.split("_")[1])]
    if s.config["f"] != want:
        sys.exit(f"{s.id} runs at {s.config['f']}, not {want}")
    t = Trial.new(trial_id=s.id, location="", config=s.config, previous_trial=s.previous_config_id,
                  previous_trial_location=None, time_sampled=1.0, worker_id="w")
    t.set_evaluating(time_started=1.0, worker_id="w")
    t.report = t.set_complete(report_as="success", time_end=2.0, loss=float(i), cost=None, err=None, tb=None, learning_curve=None, evaluation_duration=1.0, extra={})
    trials[s.id] = t
'''
