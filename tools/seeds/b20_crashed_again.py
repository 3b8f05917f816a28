PROP = "C20"
NEEDS = "a trial that crashed earlier in the run"
BREAKS = "crashed trials are not counted, so a point that was proposed already is proposed again and the last points never"
ALSO = []
EDITS = [("neps/optimizers/grid_search/optimizer.py", """        _num_previous_configs = len(trials)
""", """        _num_previous_configs = sum(
            trial.report is None or trial.report.reported_as != "crashed"
            for trial in trials.values()
        )
""")]
DEMO = '''
import sys
from neps.optimizers.grid_search.optimizer import GridSearch
from neps.search_spaces import CategoricalParameter, SearchSpace
from neps.state.trial import Trial
o = GridSearch(SearchSpace(a=CategoricalParameter([1, 2, 3]), b=CategoricalParameter(["x", "y"])))
trials, seen = {}, []
for k in range(6):
    s = o.ask(dict(trials), None)
    seen.append(tuple(sorted(s.config.items())))
    t = Trial.new(trial_id=s.id, config=s.config, location="", previous_trial=None, previous_trial_location=None, time_sampled=0.0, worker_id="w")
    t.set_evaluating(time_started=0.0, worker_id="w")
    t.report = t.set_complete(report_as="crashed" if k == 2 else "success", time_end=1.0, loss=None if k == 2 else 1.0, cost=None,
                              learning_curve=None, err=None, tb=None, extra={}, evaluation_duration=1.0)
    trials[s.id] = t
if len(set(seen)) != 6:
    sys.exit(f"proposed more than once: {[x for x in seen if seen.count(x) > 1]}")
'''
