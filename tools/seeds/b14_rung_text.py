PROP = "C14"
NEEDS = "a ladder with at least eleven rungs and a configuration promoted from rung 9 to rung 10, its results read back in that order"
BREAKS = "the result at rung 10 is ignored, the configuration keeps counting at rung 9 and is promoted to rung 10 again and again"
EDITS = [("neps/optimizers/multi_fidelity/successive_halving.py", "                if rung_recorded < int(_rung):\n", "                if str(rung_recorded) < _rung:\n")]
DEMO = '''
import sys
from neps.search_spaces import FloatParameter, IntegerParameter, SearchSpace
from neps.optimizers.multi_fidelity.successive_halving import AsynchronousSuccessiveHalving
from neps.state.trial import Trial
sp = SearchSpace(x=FloatParameter(0, 1), f=IntegerParameter(1, 4096, is_fidelity=True))
o = AsynchronousSuccessiveHalving(pipeline_space=sp, budget=1000, eta=2)
trials = {}
def done(id, cfg, loss):
    t = Trial.new(trial_id=id, location="", config=cfg, previous_trial=None, previous_trial_location=None, time_sampled=1.0, worker_id="w")
    t.set_evaluating(time_started=1.0, worker_id="w")
    t.report = t.set_complete(report_as="success", time_end=2.0, loss=loss, cost=None, err=None, tb=None, learning_curve=None, evaluation_duration=1.0, extra={})
    trials[id] = t
for i in range(2):
    for r in range(0, 11 - i):
        done(f"{i}_{r}", {"x": 0.5, "f": o.rung_map[r]}, float(i))
s = o.ask(trials, None)
if s.id in trials:
    sys.exit(f"{s.id} is proposed again")
'''
