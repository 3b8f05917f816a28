PROP = "C14"
NEEDS = "Hyperband with priors that evaluates the default first at the target fidelity, through a whole first bracket"
BREAKS = "the default takes a place of the first bracket, so promotions wait for a configuration more than the bracket has"
EDITS = [("neps/optimizers/multi_fidelity/hyperband.py", '''        if self.sample_default_first and self.sample_default_at_target:
            start += 1
            end += 1
''', '''        if self.sample_default_first and self.sample_default_at_target:
            start += 1
''')]
DEMO = '''
import sys
from neps.search_spaces import FloatParameter, IntegerParameter, SearchSpace
from neps.optimizers.multi_fidelity.hyperband import HyperbandWithPriors
from neps.state.trial import Trial
sp = SearchSpace(x=FloatParameter(0, 1, default=0.5, default_confidence="low"), f=IntegerParameter(1, 9, is_fidelity=True))
o = HyperbandWithPriors(pipeline_space=sp, budget=1000, eta=3, sample_default_first=True, sample_default_at_target=True)
trials = {}
for i in range(60):
    s = o.ask(trials, None)
    r = int(s.id.split("_")[1])
    first = [k for k in trials if 1 <= int(k.split("_")[0]) <= 9 and k.endswith("_0")]
    up = [k for k in trials if 1 <= int(k.split("_")[0]) <= 9 and k.endswith("_1")]
    if s.id.endswith("_1") and s.previous_config_id is not None and len(first) < 9:
        sys.exit(f"{s.id} is promoted after {len(first)} of the bracket's 9 configurations")
    t = Trial.new(trial_id=s.id, location="", config=s.config, previous_trial=None, previous_trial_location=None, time_sampled=1.0, worker_id="w")
    t.set_evaluating(time_started=1.0, worker_id="w")
    t.report = t.set_complete(report_as="success", time_end=2.0, loss=float(i), cost=None, err=None, tb=None, learning_curve=None, evaluation_duration=1.0, extra={})
    trials[s.id] = t
'''
