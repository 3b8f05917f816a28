PROP = "C08"
NEEDS = "an evaluation returns a cost of zero while a default cost is configured"
BREAKS = "the report states the default cost, not the returned one"
EDITS = [("neps/state/_eval.py", '''        extracted_cost = user_result.pop("cost", default_cost_value)
''', '''        extracted_cost = user_result.pop("cost", None) or default_cost_value
''')]
DEMO = '''
import sys
from neps.state._eval import evaluate_trial
from neps.state.settings import DefaultReportValues
from neps.state.trial import Trial
t = Trial.new(trial_id="1", config={"x": 1}, location="", previous_trial=None, previous_trial_location=None, time_sampled=0, worker_id="w")
_, r = evaluate_trial(t, evaluation_fn=lambda x: {"loss": 1.0, "cost": 0}, default_report_values=DefaultReportValues(cost_if_not_provided=5.0))
if r.cost != 0.0:
    sys.exit(f"returned cost 0, reported {r.cost}")
'''
