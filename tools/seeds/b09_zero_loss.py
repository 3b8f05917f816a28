PROP = "C09"
NEEDS = "an evaluation with a loss of exactly zero"
BREAKS = "optimizers take the successful evaluation for a failed one"
EDITS = [("neps/optimizers/base_optimizer.py", '''            return result.loss if result.loss is not None else "error"''', '''            return result.loss or "error"''')]
DEMO = '''
import sys
from neps.optimizers.base_optimizer import BaseOptimizer
from neps.state.trial import Trial
t = Trial.new(trial_id="1", config={"x": 1}, location="", previous_trial=None, previous_trial_location=None, time_sampled=0, worker_id="w")
r = t.set_complete(report_as="success", time_end=1.0, loss=0.0, cost=0.0, learning_curve=None, err=None, tb=None, extra={}, evaluation_duration=1.0)
o = BaseOptimizer(pipeline_space=None)
if o.get_loss(r) != 0.0:
    sys.exit(f"loss {o.get_loss(r)!r}")
'''
